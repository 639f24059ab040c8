"""C21: the same conversions give the same outcome in every build of the crate. Every feature set and
profile is compiled; each build enumerates the same bounded set of conversions; the transcripts must agree."""
import itertools, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

FEATURES = ["std", "rayon", "derive", "serde", "nalgebra"]
PROFILES = ["dbg", "opt"]
SLOTS = 12


def sets(tier):
    every = [tuple(f for f, k in zip(FEATURES, bits) if k) for bits in itertools.product((0, 1), repeat=len(FEATURES))]
    if tier != "quick":
        return every
    return [(), ("std",), ("rayon",), ("derive",), ("serde",), ("nalgebra",), tuple(FEATURES)] + [tuple(f for f in FEATURES if f != g) for g in FEATURES]


def name(s, prof):
    return ("+".join(s) or "none") + "/" + prof


def target(drv, s):
    # one directory per slot: cargo serialises builds within one
    q = sets("quick")
    k = q.index(s) if s in q else sum(1 << i for i, f in enumerate(FEATURES) if f in s) % SLOTS
    return os.path.join(drv.BUILD, f"feat{k}")


def build(drv, s, prof):
    """-> (executable or None, compiler output)"""
    t = target(drv, s)
    e = drv.env()
    e["CARGO_TARGET_DIR"] = t
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--profile", prof, "-j", "2", "--no-default-features"]
    if s:
        cmd += ["--features", ",".join(s)]
    r = subprocess.run(cmd, cwd=os.path.join(drv.HERE, "feat"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    out = os.path.join(t, "exe-" + name(s, prof).replace("/", "-"))
    shutil.copy(os.path.join(t, prof, "feat"), out + ".tmp")
    os.replace(out + ".tmp", out)
    return out, ""


def digest(exe, tier):
    r = subprocess.run([exe, "digest", tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return None, f"exit {r.returncode}: {r.stderr[-500:]}"
    return r.stdout.splitlines(), ""


def block(exe, tier, scenario, b):
    return subprocess.run([exe, "show", tier, scenario, str(b)], stdout=subprocess.PIPE, text=True).stdout.splitlines()


def all_builds(drv, which):
    for k in range(SLOTS):
        drv.freshen(os.path.join(drv.BUILD, f"feat{k}"), "stamp")
    by = {}
    for s in which:
        by.setdefault(target(drv, s), []).append(s)

    def slot(ss):
        return {(s, p): build(drv, s, p) for s in ss for p in PROFILES}

    out = {}
    with ThreadPoolExecutor(SLOTS) as ex:
        for d in ex.map(slot, by.values()):
            out.update(d)
    return out


def compare(drv, exes, tier, ref, outs):
    """-> [(key, scenario, block, index, line of the reference, line of the build)]"""
    found = []
    for k, lines in outs.items():
        if lines == outs[ref]:
            continue
        for a, b in itertools.zip_longest(outs[ref], lines):
            if a == b or (a or b).startswith("kind "):
                continue
            sc, bl = (a or b).split()[:2]
            x, y = block(exes[ref], tier, sc, bl), block(exes[k], tier, sc, bl)
            for i, (p, q) in enumerate(itertools.zip_longest(x, y)):
                if p != q:
                    found.append((k, sc, int(bl), i, p, q))
                    break
            break
    return found


def run(drv, prop, tier, seed, res):
    which = sets(tier)
    t = time.time()
    built = all_builds(drv, which)
    exes = {k: v[0] for k, v in built.items() if v[0]}
    for k, (e, text) in built.items():
        if not e:
            drv.log(f"{name(*k)} does not build:\n{text[-2500:]}")
    if len(exes) < len(built):
        drv.log("ERROR: a feature set does not build")
        return 2
    drv.log(f"{len(exes)} builds in {time.time()-t:.1f}s")
    with ThreadPoolExecutor(8) as ex:
        outs = dict(zip(exes, ex.map(lambda e: digest(e, tier), exes.values())))
    bad = {k: m for k, (l, m) in outs.items() if l is None}
    if bad:
        # every conversion is guarded: only a build that corrupts memory ends early
        k, m = sorted(bad.items(), key=lambda x: name(*x[0]))[0]
        res.failures.append(dict(scenario="transcript", variant=name(*k), path=[], sig="build-crashes", msg=m))
        return None
    outs = {k: l for k, (l, _) in outs.items()}
    ref = (("std",), "dbg")
    kinds = {}
    for l in outs[ref]:
        if l.startswith("kind "):
            _, k, n = l.split()
            kinds[k] = int(n)
    for k, lines in outs.items():
        per = {}
        for l in lines:
            if not l.startswith("kind "):
                sc, _, _, n = l.split()
                per[sc] = per.get(sc, 0) + int(n)
        for sc, n in per.items():
            res.scen.append(dict(name=sc, variant=name(*k), execs=n, steps=n, maxlen=0, complete=True, rechecked=0,
                                 states=n, capped=False, outcomes=kinds if k == ref and sc == "small" else {},
                                 samples=block(exes[k], tier, sc, 0)[5:6] if k == ref else [],
                                 bounds="every choice of the scenario (feat/src/main.rs), compared with std/dbg"))
    res.extra["builds"] = [name(*k) for k in outs]
    for k, sc, bl, i, p, q in compare(drv, exes, tier, ref, outs):
        f = dict(scenario=sc, variant=name(*k), path=[bl, i], sig="differs",
                 msg=f"{name(*ref)}: {p} | {name(*k)}: {q}")
        res.failures.append(dict(f, replay=drv.replay_file(prop, f, tier, seed)))
    return None


def replay(drv, kv, path):
    s, prof = kv["variant"].rsplit("/", 1)
    k = (tuple(x for x in s.split("+") if x != "none"), prof)
    ref = (("std",), "dbg")
    built = all_builds(drv, [ref[0]] + ([k[0]] if k[0] != ref[0] else []))
    bl, i = map(int, kv["path"].split(","))
    x, y = (block(built[z][0], kv["tier"], kv["scenario"], bl) for z in (ref, k))
    p, q = (l[i] if i < len(l) else None for l in (x, y))
    print(f"{name(*ref)}: {p}\n{name(*k)}: {q}")
    print("REPRODUCED" if p != q else "NOT REPRODUCED")
    return 1 if p != q else 0


def setup(drv):
    all_builds(drv, sets(os.environ.get("VERIF_TIER", "quick")))
