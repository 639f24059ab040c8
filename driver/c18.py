"""C18: what the derive macro must refuse, and must not. Every program of a bounded grammar is compiled
by the real compiler with the real macro; a refused one must carry an error at the type itself."""
import itertools, json, os, shutil, subprocess, time
import c17

TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"]
# types of the language and the standard library that ROS has no datatype for, and types that look alike
PLAIN = ["i64", "u64", "i128", "u128", "isize", "usize", "bool", "char", "()", "String", "&'static str", "[f32; 1]", "[u8; 3]",
         "(f32,)", "(f32, f32)", "Option<f32>", "Option<u8>", "Vec<f32>", "Box<f32>", "*const f32", "&'static f32", "fn(f32) -> f32",
         "std::num::Wrapping<u8>", "Option<std::num::NonZeroU8>", "std::marker::PhantomData<f32>", "PointXYZ", "RGB",
         "ros_pointcloud2::points::RGB", "points::RGB", "Endian", "PointData"]
# types of the user that implement everything the generated code could ask of a field
OWN = ["Celsius", "F32", "U8", "Rgb", "rgb", "MyRGB", "f32x", "own::f32", "own::u8", "Wrap<f32>", "u64_", "self::own::i16"]
OWN_DEF = """
macro_rules! own { ($($t:ident = $inner:ty, $dt:ident);*) => {$(
    #[derive(Clone, Copy, Default)] #[allow(non_camel_case_types)] pub struct $t(pub $inner);
    own!(@ $t, $inner, $dt);
)*};
(@ $t:ty, $inner:ty, $dt:ident) => {
    impl ros_pointcloud2::GetFieldDatatype for $t { fn field_datatype() -> ros_pointcloud2::FieldDatatype { ros_pointcloud2::FieldDatatype::$dt } }
    impl From<$t> for ros_pointcloud2::PointDataBuffer { fn from(v: $t) -> Self { v.0.into() } }
    impl From<$t> for ros_pointcloud2::PointData { fn from(v: $t) -> Self { v.0.into() } }
    impl ros_pointcloud2::FromBytes for $t {
        fn from_be_bytes(b: ros_pointcloud2::PointDataBuffer) -> Self { Self(<$inner as ros_pointcloud2::FromBytes>::from_be_bytes(b)) }
        fn from_le_bytes(b: ros_pointcloud2::PointDataBuffer) -> Self { Self(<$inner as ros_pointcloud2::FromBytes>::from_le_bytes(b)) }
    }
} }
own!(Celsius = f32, F32; F32 = f32, F32; U8 = u8, U8; Rgb = f32, F32; rgb = f32, F32; MyRGB = f32, RGB; f32x = f32, F32; u64_ = u32, U32);
pub mod own { own!(f32 = core::primitive::f32, F32; u8 = core::primitive::u8, U8; i16 = core::primitive::i16, I16); }
#[derive(Clone, Copy, Default)] pub struct Wrap<T>(pub T);
own!(@ Wrap<f32>, f32, F32);
"""
HEAD = """#![allow(unused, non_camel_case_types, clippy::all)]
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{points, points::RGB, points::PointXYZ, Endian, PointData, FromBytes, GetFieldDatatype, PointDataBuffer, FieldDatatype};
""" + OWN_DEF


def cases(tier):
    """-> refused, accepted: lists of (item source without derive)"""
    bad, good = [], []
    depth = 3 if tier == "quick" else 5
    rep = ["#[repr(C)] ", ""]
    for t in PLAIN + OWN:
        for n in range(1, depth + 1):
            for pos in range(n):
                for r in (rep if n <= 2 or tier != "quick" else rep[:1]):
                    fs = ", ".join(f"f{i}: {t if i == pos else TYPES[(i * 3 + n) % 8]}" for i in range(n))
                    bad.append(f"{r}struct S {{ {fs} }}")
    # far from the beginning
    for n in (8, 13, 17, 33) if tier == "quick" else (6, 7, 8, 9, 12, 13, 16, 17, 31, 32, 33, 64, 65, 100):
        for t in ("i64", "bool", "RGB", "Celsius"):
            for pos in {0, n // 2, n - 2, n - 1}:
                fs = ", ".join(f"f{i}: {t if i == pos else TYPES[(i * 3 + n) % 8]}" for i in range(n))
                bad.append(f"struct S {{ {fs} }}")
    # two unsupported types at once, and unsupported types behind attributes
    few = ["i64", "bool", "RGB", "Celsius", "[u8; 3]"]
    for a, b in itertools.product(few, repeat=2):
        bad.append(f"struct S {{ a: {a}, x: f32, b: {b} }}")
    for t in few + ["own::f32"]:
        bad.append(f"struct S {{ x: f32, #[rpcl2(rename(\"f32\"))] f: {t} }}")
        bad.append(f"struct S {{ x: f32, /** f32 */ f: {t} }}")
        bad.append(f"struct S {{ x: f32, #[cfg(all())] f: {t} }}")
        bad.append(f"struct S {{ f32: {t} }}")
    # anything but a struct with named fields
    for r in rep:
        bad += [f"{r}struct S;", f"{r}struct S {{}}", f"{r}struct S();"]
    bad += [f"struct S({t});" for t in TYPES] + ["struct S(f32, f32, f32);", "struct S(i64);", "struct S(u8, f64);"]
    bad += ["enum S { A }", "enum S { A, B }", "#[repr(u8)] enum S { A = 1, B = 2 }", "enum S { A(f32) }", "enum S { A { x: f32 } }",
            "enum S { A { x: f32, y: f32 }, B }", "enum S {}", "#[repr(C)] enum S { A { x: f32 } }"]
    bad += [f"union S {{ a: {a}, b: {b} }}" for a, b in (("f32", "u32"), ("u8", "i8"), ("f64", "f32"))] + ["#[repr(C)] union S { a: f32 }", "union S { a: i64 }"]
    bad += ["struct S { #[cfg(any())] x: f32 }", "struct S<T> { x: T }", "struct S<T> { x: f32, y: T }", "struct S<'a> { x: f32, y: &'a f32 }"]
    for n in (1, 2, 3):
        for s in itertools.product(TYPES, repeat=n) if n < 3 else itertools.permutations(TYPES, 3):
            fs = ", ".join(f"f{i}: {t}" for i, t in enumerate(s))
            good.append(f"#[derive(Default, Clone, Copy)] #[repr(C)] struct S {{ {fs} }}")
    good += [f"#[derive(Default, Clone, Copy)] struct S {{ {n}: f32 }}" for n in ("i64", "bool", "RGB", "rgb", "String", "f32", "r#fn")]
    good += [f"#[derive(Default, Clone, Copy)] struct {n} {{ x: f32, rgb: u32 }}" for n in ("RGB_", "MyRgb", "Rgba", "I64", "PointXYZRGBX")]
    good += ['#[derive(Default, Clone, Copy)] struct S { #[rpcl2(rename("rgb"))] x: f32 }',
             '#[derive(Default, Clone, Copy)] struct S { #[rpcl2(rename("bool"))] x: f32, #[cfg(any())] y: bool }',
             "#[derive(Default)] pub struct S { pub x: f32, pub(crate) y: f64, z: i8 }"]
    return bad, good


def package(drv, name, files):
    d = os.path.join(drv.BUILD, "gen", name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, "src", "bin"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\n'
                f'ros_pointcloud2 = {{ path = "{drv.REPO}/rpcl2", features = ["derive"] }}\n\n[workspace]\n')
    shutil.copy(os.path.join(drv.HERE, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    for n, text in files.items():
        with open(os.path.join(d, "src", "bin", n + ".rs"), "w") as f:
            f.write(text)
    return d


# a point type must have a default: without one every derive would be refused for that reason alone
DEFAULT = {"": "impl Default for S { fn default() -> Self { loop {} } }",
           "<T>": "impl<T> Default for S<T> { fn default() -> Self { loop {} } }",
           "<'a": "impl<'a> Default for S<'a> { fn default() -> Self { loop {} } }"}


def program(items, derive=True):
    out, lines, line = [HEAD], [], HEAD.count("\n") + 1
    for k, it in enumerate(items):
        dv = "#[derive(PointConvertible)] " if derive else ""
        if not derive:
            while "#[rpcl2(" in it:
                a = it.index("#[rpcl2(")
                it = it[:a] + it[it.index("]", a) + 1:]
        dflt = "" if "Default" in it else DEFAULT.get(it[it.index(" S") + 2:][:3] if "S<" in it else "", DEFAULT[""])
        t = f"mod m{k} {{ use super::*;\n{dv}{it}\n{dflt}\n}}\n"
        lines.append((line, line + t.count("\n")))
        line += t.count("\n")
        out.append(t)
    out.append("fn main() {}\n")
    return "".join(out), lines


def compile_(drv, d):
    """-> bin name -> list of errors, each a set of (bin, line) positions with its text; None if a dependency fails"""
    e = drv.env()
    e["CARGO_TARGET_DIR"] = os.path.join(drv.BUILD, "target18")
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json", "--keep-going", "--bins"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, ok = {}, set()
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact" and "bin" in j["target"]["kind"]:
            ok.add(j["target"]["name"])
        if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
            if "bin" not in j["target"]["kind"]:
                drv.log(j["message"]["rendered"])
                return None, ok
            at = {s["line_start"] for s in c17.spans(j["message"]) if s["file_name"].endswith(j["target"]["name"] + ".rs")}
            errs.setdefault(j["target"]["name"], []).append((at, j["message"]["rendered"]))
    if r.returncode and not errs:
        drv.log(r.stderr[-3000:])
        return None, ok
    return errs, ok


def hits(errs, lines):
    got = {}
    for at, text in errs:
        for k, (a, b) in enumerate(lines):
            if any(a <= l < b for l in at):
                got.setdefault(k, text)
    return got


def explore(drv, bad, good):
    """-> (violations [(kind, item, text)], runs, error)"""
    drv.freshen(os.path.join(drv.BUILD, "target18"), "stamp")
    pb, lb = program(bad)
    pg, lg = program(good)
    pc, lc = program(bad + good, derive=False)
    d = package(drv, "gen18", {"refused": pb, "accepted": pg, "control": pc})
    errs, ok = compile_(drv, d)
    if errs is None:
        return [], 0, "the crate does not build with the derive feature"
    if "control" not in ok:
        return [], 0, "the control program does not compile: " + str(errs.get("control"))[:1500]
    out = []
    if "accepted" not in ok:
        h = hits(errs.get("accepted", []), lg)
        if not h:
            return [], 0, "the accepted program fails outside its items: " + str(errs.get("accepted"))[:1500]
        out += [("supported-refused", good[k], t) for k, t in sorted(h.items())]
    refused = hits(errs.get("refused", []), lb)
    runs = len(bad) + len(good)
    # errors of an early phase hide those of later ones: what has none yet is compiled on its own
    rest = [k for k in range(len(bad)) if k not in refused]
    while rest:
        batch, lines = program([bad[k] for k in rest])
        d = package(drv, "gen18b", {"rest": batch})
        errs, ok = compile_(drv, d)
        if errs is None:
            return [], 0, "rebuild failed"
        h = hits(errs.get("rest", []), lines)
        runs += len(rest)
        if h and "rest" not in ok:
            rest = [k for i, k in enumerate(rest) if i not in h]
            continue
        if "rest" not in ok:
            return [], 0, "refused programs fail outside their items: " + str(errs)[:1500]
        break
    out += [("unsupported-accepted", bad[k], "compiles") for k in rest]
    return out, runs, None


def run(drv, prop, tier, seed, res):
    bad, good = cases(tier)
    bad, good = list(dict.fromkeys(bad)), list(dict.fromkeys(good))
    v, runs, err = explore(drv, bad, good)
    if err:
        drv.log("ERROR:", err)
        return 2
    res.scen.append(dict(name="programs", variant="rustc", execs=runs, steps=runs, maxlen=1, complete=True, rechecked=0,
                         states=len(bad) + len(good), capped=False,
                         outcomes={"refused": len(bad) - sum(x[0] == "unsupported-accepted" for x in v),
                                   "accepted": len(good) - sum(x[0] == "supported-refused" for x in v)},
                         samples=bad[:6] + good[:2],
                         bounds=f"{len(PLAIN) + len(OWN)} unsupported types at every position of structs of up to "
                                f"{3 if tier == 'quick' else 5} fields, pairs of them, every other kind of item; {len(good)} supported structs"))
    for kind, item, text in sorted(v, key=lambda x: len(x[1]))[:20]:
        f = dict(scenario="programs", variant="rustc", path=[], sig=kind, msg=f"{item}: {text.splitlines()[0]}")
        p = drv.replay_file(prop, f, tier, seed)
        with open(p, "a") as o:
            o.write("item: " + item + "\n")
        res.failures.append(dict(f, replay=p))
    res.failures = res.failures[:1]
    return None


def replay(drv, kv, path):
    it = kv["item"]
    v, _, err = explore(drv, [it], []) if kv["sig"] == "unsupported-accepted" else explore(drv, [], [it])
    print(err or v or "as required")
    print("REPRODUCED" if v else "NOT REPRODUCED")
    return 1 if v else 0


def setup(drv):
    explore(drv, ["struct S;"], ["#[derive(Default)] struct S { x: f32 }"])
