//! C01: write with any writer, read with any reader, get the same points back.
use harness::*;
use ros_pointcloud2::points::PointXYZ;
use ros_pointcloud2::PointCloud2Msg;

const SIZES_Q: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256,
    257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097,
];

fn roundtrip<const N: usize, P: Pt<N>>(cx: &mut Cx, w: Writer, r: Reader, want: &[[u64; N]]) {
    let ps = to_points::<N, P>(want);
    let m = match cx.catch(|| write::<N, P>(w, ps)) {
        Err(e) => cx.fail("write-panic", format!("writing {} points panicked: {e}", want.len())),
        Ok(Err(e)) => cx.fail("write-error", format!("writing {} points failed: {e:?}", want.len())),
        Ok(Ok(m)) => m,
    };
    let got = match cx.catch(|| read::<N, P>(r, m)) {
        Err(e) => cx.fail("read-panic", format!("reading {} points back panicked: {e}", want.len())),
        Ok(Err(e)) => cx.fail("read-error", format!("reading {} points back failed: {e:?}", want.len())),
        Ok(Ok(v)) => to_bits::<N, P>(&v),
    };
    if got != want {
        let d = diff(&got, want);
        cx.fail("mismatch", format!("{w:?} then {r:?} of {}: {d}", P::LABEL))
    }
}

const ALLR: [Reader; 4] = [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub];

fn values<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    let bound = tier.pick(1, 2);
    vec![scenario(
        format!("values-{}", P::LABEL),
        format!("3 writers x 4 readers x 0..={nmax} points x every assignment of boundary values to at most {bound} of the fields"),
        move |cx| {
            let d = P::decl();
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &ALLR);
            let n = cx.range("points", 0, nmax);
            cx.dev_bound = bound;
            let mut v = base_points::<N, P>(n);
            for p in v.iter_mut() {
                for f in 0..N {
                    let a = alphabet(d[f].dt);
                    let k = cx.dev("value", a.len() + 1);
                    if k > 0 {
                        p[f] = a[k - 1];
                    }
                }
            }
            cx.state(&v);
            cx.note(|| format!("{} {w:?} -> {r:?}: {}", P::LABEL, show(&v)));
            roundtrip::<N, P>(cx, w, r, &v);
            cx.outcome(format!("{w:?}->{r:?} equal"));
        },
    )]
}

/// every point carries the same value, and equal neighbours: nothing may be merged or skipped
fn uniform<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(6, 9);
    vec![scenario(
        format!("repeats-{}", P::LABEL),
        format!("3 writers x 4 readers x 0..={nmax} points, every sequence over two distinct points (equal neighbours included)"),
        move |cx| {
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &ALLR);
            let n = cx.range("points", 0, nmax);
            let two = base_points::<N, P>(2);
            let v: Vec<[u64; N]> = (0..n).map(|_| two[cx.choose("which", 2)]).collect();
            cx.state(&v);
            roundtrip::<N, P>(cx, w, r, &v);
            cx.outcome(format!("{w:?}->{r:?} equal"));
        },
    )]
}

/// blank, invalid and repeated points among ordinary ones: none may be skipped, merged or end the cloud
fn palette<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    vec![scenario(
        format!("palette-{}", P::LABEL),
        format!("3 writers x 4 readers x 0..={nmax} points, each ordinary, all zero, all ones, all NaN, all negative zero, or the one before again"),
        move |cx| {
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &ALLR);
            let n = cx.range("points", 0, nmax);
            let v = classes::<N, P>(cx, n);
            cx.state(&v);
            cx.note(|| format!("{} {w:?} -> {r:?}: {}", P::LABEL, show(&v)));
            roundtrip::<N, P>(cx, w, r, &v);
            cx.outcome(format!("{w:?}->{r:?} equal"));
        },
    )]
}

/// sources that know their length in any of the ways an iterator may
fn hints<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(9, 40);
    vec![scenario(
        format!("hints-{}", P::LABEL),
        format!("the iterator writer on 0..={nmax} points from sources with {HINTS} kinds of size hints (exact, absent, loose, one-sided), whole or after taking points x 4 readers"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let kind = cx.choose("hint", HINTS);
            let taken = cx.range("taken before", 0, n.min(3));
            let r = *cx.pick("reader", &ALLR);
            let all = base_points::<N, P>(n);
            let mut it = Hinted::new(to_points::<N, P>(&all), kind);
            for _ in 0..taken {
                it.next();
            }
            let want = &all[taken..];
            cx.state(&(n, kind, taken));
            let m = match cx.catch(|| PointCloud2Msg::try_from_iter::<N, P>(it)) {
                Ok(Ok(m)) => m,
                Ok(Err(e)) => cx.fail("write-error", format!("{n} points, hint {kind}: {e:?}")),
                Err(e) => cx.fail("write-panic", format!("{n} points, hint {kind}: {e}")),
            };
            match cx.catch(|| read::<N, P>(r, m)) {
                Ok(Ok(v)) => {
                    let got = to_bits::<N, P>(&v);
                    if got != want {
                        let d = diff(&got, want);
                        cx.fail("mismatch", format!("iterator writer then {r:?} of {}, hint {kind}: {d}", P::LABEL))
                    }
                }
                Ok(Err(e)) => cx.fail("read-error", format!("{n} points, hint {kind}: {e:?}")),
                Err(e) => cx.fail("read-panic", format!("{n} points, hint {kind}: {e}")),
            }
            cx.outcome("equal");
        },
    )]
}

/// sizes at which counters and copies of limited width or chunked copies would go wrong
fn large<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let list: &'static [usize] = tier.pick(&[32769, 65535, 65536, 65537, 70001, 131073, (1 << 21) + 3], &[65535, 65536, 65537, 131073, 262145, 1 << 20, (1 << 21) + 3, (1 << 22) + 1]);
    vec![scenario(
        format!("large-{}", P::LABEL),
        format!("3 writers x 4 readers x {list:?} points"),
        move |cx| {
            let n = *cx.pick("points", list);
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &ALLR);
            cx.state(&n);
            cx.steps(n as u64);
            roundtrip::<N, P>(cx, w, r, &base_points::<N, P>(n));
            cx.outcome(format!("{w:?}->{r:?} equal"));
        },
    )]
}

fn sizes<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let list: Vec<usize> = match tier {
        Tier::Quick => SIZES_Q.to_vec(),
        Tier::Thorough => (0..=520)
            .chain([1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193])
            .chain([16384, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 1 << 20])
            .collect(),
    };
    vec![scenario(
        format!("sizes-{}", P::LABEL),
        format!("3 writers x 4 readers x {} cloud sizes up to {}", list.len(), list.last().unwrap()),
        move |cx| {
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &ALLR);
            let n = *cx.pick("points", &list);
            let v = base_points::<N, P>(n);
            cx.state(&n);
            cx.steps(n as u64);
            roundtrip::<N, P>(cx, w, r, &v);
            cx.outcome(format!("{w:?}->{r:?} equal"));
        },
    )]
}

/// one written message read by every reader, rewritten, and read again
fn chain<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(2, 3);
    vec![scenario(
        format!("chain-{}", P::LABEL),
        format!("every sequence of {depth} write/read pairs on clouds of 0..=3 points"),
        move |cx| {
            let n = cx.range("points", 0, 3);
            let want = base_points::<N, P>(n);
            let mut cur = to_points::<N, P>(&want);
            for _ in 0..depth {
                let w = *cx.pick("writer", &WRITERS);
                let r = *cx.pick("reader", &READERS);
                let p = cur.clone();
                let m = cx.catch(|| write::<N, P>(w, p));
                let m = match m {
                    Ok(Ok(m)) => m,
                    e => cx.fail("write-error", format!("{:?}", e.map(|x| x.map(|_| ())))),
                };
                cur = match cx.catch(|| read::<N, P>(r, m)) {
                    Ok(Ok(v)) => v,
                    Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                    Err(e) => cx.fail("read-panic", e),
                };
                let got = to_bits::<N, P>(&cur);
                if got != want {
                    let d = diff(&got, &want);
                    cx.fail("mismatch", format!("{w:?} then {r:?} of {}: {d}", P::LABEL))
                }
            }
            cx.state(&n);
        },
    )]
}

/// the parallel writer's source decides how it is split and in which order its parts make progress
fn sources<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(4, 5);
    let leaves = tier.pick(3, 4);
    vec![scenario(
        format!("parallel-{}", P::LABEL),
        format!("the parallel writer on 0..={nmax} points of a source of known or unknown length: every tree of splits into up to {leaves} parts, every interleaving of the parts; read back by the iterator and the vector reader"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let known_len = cx.flag("length known");
            let want = base_points::<N, P>(n);
            let src = Source { items: to_points::<N, P>(&want), known_len, leaves, cx };
            let m = match cx.catch(|| PointCloud2Msg::try_from_par_iter::<N, P>(src)) {
                Ok(Ok(m)) => m,
                Ok(Err(e)) => cx.fail("write-error", format!("{e:?}")),
                Err(e) => cx.fail("write-panic", e),
            };
            for r in [Reader::Iter, Reader::Vec] {
                match cx.catch(|| read::<N, P>(r, m.clone())) {
                    Ok(Ok(v)) => {
                        let got = to_bits::<N, P>(&v);
                        if got != want {
                            let d = diff(&got, &want);
                            cx.fail("mismatch", format!("parallel writer then {r:?} of {}: {d}", P::LABEL))
                        }
                    }
                    Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                    Err(e) => cx.fail("read-panic", e),
                }
            }
            cx.outcome("parallel equal");
        },
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = all_points!(values, tier);
    v.extend(all_points!(uniform, tier));
    v.extend(all_points!(palette, tier));
    v.extend(big_points!(palette, tier));
    v.extend(all_points!(sizes, tier));
    v.extend(all_points!(chain, tier));
    v.extend(large::<3, PointXYZ>(tier));
    v.extend(large::<5, CMix>(tier));
    v.extend(large::<1, C1>(tier));
    v.extend(hints::<3, PointXYZ>(tier));
    v.extend(hints::<5, CMix>(tier));
    v.extend(hints::<1, C1>(tier));
    v.extend(big_points!(values, tier));
    v.extend(big_points!(uniform, tier));
    v.extend(sources::<3, PointXYZ>(tier));
    v.extend(sources::<5, CMix>(tier));
    v
}
fn main() {
    run("C01", scenarios)
}
