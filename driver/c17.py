"""C17: generate the point types, derive on the real macro, explore each one."""
import hashlib, itertools, json, os, re, shutil, subprocess, time

SIZES = {1: ["u8", "i8"], 2: ["i16", "u16"], 4: ["f32", "u32", "i32"], 8: ["f64"]}
TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"]
PARTS = 8


def struct(attrs, fields, name="P", vis="pub ", pre=""):
    """fields: (attribute text, identifier, type, message name)"""
    return dict(attrs=attrs, fields=fields, name=name, vis=vis, pre=pre)


def reprs(l):
    return "".join(f"#[repr({x})] " for x in l)


def by_size(seq, salt=0):
    return [("", f"f{i}", SIZES[s][(i + salt) % len(SIZES[s])], f"f{i}") for i, s in enumerate(seq)]


def structs(tier):
    g = {}
    q = tier == "quick"
    # every sequence of field sizes: all paddings and all reorderings
    rs = [["C"], [], ["C", "packed"], ["C", "align(16)"]]
    if not q:
        rs += [["C", "packed(2)"], ["packed"], ["align(32)"], ["C", "packed(4)"]]
    n = 3 if q else 4
    g["sizes"] = [struct(reprs(r), by_size(s, k)) for r in rs for l in range(1, n + 1)
                  for k, s in enumerate(itertools.product(SIZES, repeat=l))]
    if q:
        g["sizes-4"] = [struct(reprs(r), by_size(s, 1)) for r in (["C"], []) for s in itertools.permutations(SIZES)]
    # every sequence of types
    ty = lambda s: [("", f"f{i}", t, f"f{i}") for i, t in enumerate(s)]
    g["types"] = [struct(reprs(["C"]), ty(s)) for l in (1, 2) for s in itertools.product(TYPES, repeat=l)]
    if not q:
        g["types-3"] = [struct(reprs(r), ty(s)) for r in (["C"], []) for s in itertools.product(TYPES, repeat=3)]
    # names and attributes
    at = [("", "{o}", "{o}"), ('#[rpcl2(rename("n_{o}"))] ', "{o}", "n_{o}"), ("/// text\n", "{o}", "{o}"),
          ('/// text\n#[rpcl2(rename("n_{o}"))] ', "{o}", "n_{o}"),
          ('#[rpcl2(rename("n_{o}"))]\n/// text\n', "{o}", "n_{o}"),
          ('#[allow(dead_code)] #[rpcl2(rename("Other Name {o}"))] #[cfg(all())] ', "{o}", "Other Name {o}"),
          ("", "r#{k}", "{k}"), ('#[rpcl2(rename("{x}"))] ', "{o}", "{x}"),
          ("#[cfg(all())] #[allow(unused)] /** block */ ", "{o}", "{o}"),
          ('#[cfg_attr(all(), rpcl2(rename("é{o}")))] ', "{o}", "é{o}"),
          ('#[rpcl2(rename("type"))] ', "r#{k}", "type_")]
    at[-1] = ('#[rpcl2(rename("type_{o}"))] ', "r#{k}", "type_{o}")

    def named(sel, types):
        ids = ["a", "b", "c"]
        kw = ["type", "match", "loop"]
        out = []
        for i, (s, t) in enumerate(zip(sel, types)):
            a, idn, nm = at[s]
            f = lambda z: z.replace("{o}", ids[i]).replace("{k}", kw[i]).replace("{x}", ids[(i + 1) % len(sel)])
            out.append((f(a), f(idn), t, f(nm)))
        return out if len({o[3] for o in out}) == len(out) else None

    g["names"] = [struct(reprs(["C"]), x) for s in itertools.product(range(len(at)), repeat=2)
                  if (x := named(s, ["u16", "f64"]))]
    few = (0, 1, 2, 7) if q else range(len(at))
    g["names-3"] = [struct("", x) for s in itertools.product(few, repeat=3) if (x := named(s, ["u8", "f64", "u16"]))]
    # names the generated code might use itself, letter case, length, and forms of declaration
    odd = ["point", "fields", "size", "offset", "idx", "last_field_end", "rename_arr", "order", "i", "j", "struct_size",
           "field", "ty", "self_", "_x", "X", "x", "fields_with_offset", "a" * 70, "Ünïcode"]
    sp = [struct(reprs(["C"]), [("", o, "u8", o), ("", "z", "f64", "z")]) for o in odd]
    sp += [struct("", [("", o, "u8", o) for o in odd]), struct(reprs(["C"]), [("", o, t, o) for o, t in zip(odd, itertools.cycle(TYPES))])]
    # every kind of text a rename can give
    texts = [" lead", "trail ", " ", "", "two  blanks", "tab\t", "nl\n", "nul\0", "\0", "quote\"", "back\\slash", "{}", "{o}", "%s", "#", "r#type", "a.b", "a::b",
             "Ünïcode", "\u200b", "e\u0301", "\U0001f980", "0", "1x", "x-y", "X", "UPPER", "padding", "rgb", "f32", "x" * 300, "/* c */", "//", "'", "a,b", "a;b", "\r\n"]
    for t in texts:
        for where in (0, 1, 2):
            f = [("", i, ty, i) for i, ty in zip("abc", ["u8", "f64", "u16"])]
            f[where] = (f"#[rpcl2(rename({rust(t)}))] ", f[where][1], f[where][2], t)
            sp.append(struct(reprs(["C"]) if where else "", f))
    sp.append(struct(reprs(["C"]), [(f"#[rpcl2(rename({rust(t)}))] ", f"f{i}", TYPES[(i * 3) % 8], t) for i, t in enumerate(texts)]))
    sp += [struct("", [(f"#[rpcl2(rename({lit}))] ", "a", "u8", "n\\"), ("", "b", "f32", "b")]) for lit in ('"n\\\\"', 'r"n\\"', 'r#"n\\"#', '"\\x6e\\u{5c}"')]
    mix = [("", "a", "u8", "a"), ("", "b", "f64", "b"), ("", "c", "u16", "c")]
    sp += [struct(a, mix, vis=v) for a in ("#[repr(C, align(8))] ", "#[repr(C)] #[repr(align(64))] ", "#[repr(C, packed(1))] ",
                                           "#[repr(packed(2))] ", "#[repr(align(4))] ", "#[doc = \"text\"] #[allow(dead_code)] #[repr(C)] ")
           for v in ("", "pub ", "pub(crate) ")]
    sp += [struct("", mix, name=n) for n in ("Point", "Msg", "PointData", "LayoutField", "r#struct", "lower", "F32")]
    sp += [struct(reprs(["C"]), mix + [("#[cfg(any())] ", "gone", "String", None)]),
           struct(reprs(["C"]), [("#[cfg(any())] ", "gone", "Vec<u8>", None)] + mix)]
    for m in (5, 8, 12, 16, 17, 33):
        for r in (["C"], [], ["packed"]):
            sp.append(struct(reprs(r), [("", f"f{i}", TYPES[(i * 5 + m) % 8], f"f{i}") for i in range(m)]))
    # beyond 256 and 4096 bytes, by fields and by alignment
    wide = [("", f"f{i}", ["f64", "u8", "f64", "u16", "f64", "f32"][i % 6], f"f{i}") for i in range(60)]
    sp += [struct(reprs(r), wide) for r in (["C"], [], ["packed"])]
    sp += [struct(reprs(["C"]), [("", f"f{i}", "f64", f"f{i}") for i in range(40)]), struct("", [("", f"f{i}", "u8", f"f{i}") for i in range(300)])]
    sp += [struct(reprs(r), mix) for r in (["C", "align(256)"], ["align(512)"], ["C", "align(4096)"], ["C", "align(65536)"])]
    g["special"] = sp
    return g


def rust(t):
    """The text as a Rust literal."""
    return '"' + "".join(c if c.isalnum() and ord(c) < 128 or c in " _{}%#:.,;-/*'" else f"\\u{{{ord(c):x}}}" for c in t) + '"'


def source(k, s):
    """The declaration, and the code that hands the type to the harness."""
    body = ", ".join(f"{a}pub {i}: {t}" for a, i, t, _ in s["fields"])
    decl = f"#[derive(Clone, Copy, Default, PointConvertible)] {s['attrs']}{s['vis']}struct {s['name']} {{ {body} }}"
    live = [f for f in s["fields"] if f[3] is not None]
    lst = "; ".join(f"{i} = {rust(m)}, {t}" for _, i, t, m in live)
    text = rust(decl.replace("\n", " "))
    return (f"mod s{k} {{ use super::*;\n{decl}\n"
            f"harness::derived!(f, {text}, {s['name']}, {len(live)}, [{lst}]); pub fn ops() -> harness::derived::Ops {{ f() }} }}\n"), decl


HEAD = """#![allow(non_camel_case_types, non_snake_case, uncommon_codepoints, dead_code, unused_imports, mixed_script_confusables)]
use ros_pointcloud2::prelude::PointConvertible;
"""


def write_if(p, text):
    if os.path.exists(p) and open(p).read() == text:
        return
    with open(p, "w") as f:
        f.write(text)


def generate(drv, tier):
    d = os.path.join(drv.BUILD, "gen", f"c17-{tier}")
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    base = open(os.path.join(drv.HERE, "harness", "Cargo.toml")).read()
    rest = base[base.index("[dependencies]"):].replace('"../', f'"{drv.HERE}/')
    rest = rest.replace("[dependencies]", f'[dependencies]\nharness = {{ path = "{drv.HERE}/harness" }}', 1)
    write_if(os.path.join(d, "Cargo.toml"),
             f'[package]\nname = "gen17{tier}"\nversion = "0.1.0"\nedition = "2021"\nautobins = true\n\n{rest}\n'
             f'[profile.chk.package.gen17{tier}]\nopt-level = 0\n')
    lock = open(os.path.join(drv.HERE, "harness", "Cargo.lock")).read()
    m = re.search(r'\[\[package\]\]\nname = "harness"\nversion = "0.1.0"\ndependencies = \[\n((?:.*\n)*?)\]\n', lock)
    deps = sorted(m.group(1).splitlines() + [' "harness",'])
    lock += f'\n[[package]]\nname = "gen17{tier}"\nversion = "0.1.0"\ndependencies = [\n' + "\n".join(deps) + "\n]\n"
    write_if(os.path.join(d, "Cargo.lock"), lock)
    parts = [dict() for _ in range(PARTS)]
    where = {}
    k = 0
    for g, ss in structs(tier).items():
        for s in ss:
            parts[k % PARTS].setdefault(g, []).append((k, s))
            k += 1
    for p, groups in enumerate(parts):
        name = f"g17{tier[0]}{p}"
        out, line = [HEAD], HEAD.count("\n") + 1
        for g, ss in groups.items():
            for k, s in ss:
                t, decl = source(k, s)
                where.setdefault(name, []).append((line, line + t.count("\n"), decl))
                line += t.count("\n")
                out.append(t)
        out.append("fn scenarios(t: harness::Tier) -> Vec<harness::Scenario> {\n    harness::derived::scenarios(t, vec![\n")
        for g, ss in groups.items():
            out.append(f'        ("{g}@{p}", vec![' + ", ".join(f"s{k}::ops as fn() -> harness::derived::Ops" for k, _ in ss) + "]),\n")
        out.append('    ])\n}\nfn main() { harness::run("C17", scenarios) }\n')
        write_if(os.path.join(d, "src", "bin", name + ".rs"), "".join(out))
    return d, where


def at_line(where, name, line):
    for a, b, decl in where.get(name, []):
        if a <= line < b:
            return decl
    return None


def spans(msg):
    """All source positions of a diagnostic, through macro expansions, the outermost last."""
    for s in msg.get("spans", []):
        while s:
            yield s
            s = s["expansion"]["span"] if s.get("expansion") else None


def compile_(drv, d, where, bins):
    """-> (True, []), (False, [(declaration, error)]) or (None, text) when something else does not compile"""
    cmd = ["cargo", "build", "--offline", "--profile", "chk", "--message-format=json", "--keep-going"]
    for b in bins:
        cmd += ["--bin", b]
    t = time.time()
    r = subprocess.run(cmd, cwd=d, env=drv.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode == 0:
        drv.log(f"built {len(bins)} generated programs in {time.time()-t:.1f}s")
        return True, []
    bad, other = [], []
    for l in r.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") != "compiler-message" or j["message"]["level"] != "error":
            continue
        decl = None
        for s in spans(j["message"]):
            n = os.path.basename(s["file_name"])[:-3]
            decl = decl or at_line(where, n, s["line_start"])
        (bad if decl else other).append((decl, j["message"]["rendered"]))
    if bad:
        return False, bad
    return None, "".join(o for _, o in other)[-3000:] + r.stderr[-3000:]


def run(drv, prop, tier, seed, res):
    drv.freshen(drv.TARGET, "stamp")
    d, where = generate(drv, tier)
    ok, bad = compile_(drv, d, where, list(where))
    if ok is None:
        drv.log(bad)
        drv.log("ERROR: the generated programs do not build against this tree")
        return 2
    if not ok:
        decl, err = min(bad, key=lambda x: len(x[0]))
        f = dict(scenario="compile", variant="rustc", path=[], sig="does-not-compile",
                 msg=f"{decl} is refused: {err.splitlines()[0]}")
        p = drv.replay_file(prop, f, tier, seed)
        with open(p, "a") as o:
            o.write("declaration: " + decl.replace("\n", "\\n") + "\n")
        res.failures.append(dict(f, replay=p))
        return None
    res.exes = {}
    for name in where:
        exe = os.path.join(drv.TARGET, "chk", name)
        res.exes[name] = exe
        drv.run_bin(prop, exe, tier, seed, name, res, {})
        if res.failures:
            break
    n = sum(len(x) for x in where.values())
    res.extra["derived_structs"] = n
    return None


def replay(drv, kv, path):
    drv.freshen(drv.TARGET, "stamp")
    d, where = generate(drv, kv["tier"])
    if kv["variant"] == "rustc":
        ok, bad = compile_(drv, d, where, list(where))
        decl = kv["declaration"].replace("\\n", "\n")
        hit = [e for dcl, e in bad if dcl == decl] if ok is False else []
        print(hit[0] if hit else "compiles")
        print("REPRODUCED" if hit else "NOT REPRODUCED")
        return 1 if hit else 0
    ok, bad = compile_(drv, d, where, [kv["variant"]])
    if not ok:
        drv.log(bad)
        return 2
    ok, out = drv.confirm(os.path.join(drv.TARGET, "chk", kv["variant"]), path, kv["property"])
    print(out)
    print("REPRODUCED" if ok else "NOT REPRODUCED")
    return 1 if ok else 0


def setup(drv):
    d, where = generate(drv, "quick")
    compile_(drv, d, where, list(where))
