//! C10: written messages are self-consistent PointCloud2 messages.
use harness::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::{MsgConversionError, PointCloud2Msg};

/// without a representation attribute the compiler orders the fields
#[derive(Clone, Copy, Default, ros_pointcloud2::prelude::PointConvertible)]
pub struct DRust {
    pub a: u8,
    pub b: f64,
    pub c: u16,
    pub d: f32,
    pub e: i8,
}
pt_impl!(DRust, 5, [a, b, c, d, e]);

/// Compare a written message with the description of the message format, field by field and byte by
/// byte, without any code under test.
fn judge<const N: usize, P: Pt<N>>(cx: &mut Cx, w: Writer, pts: &[[u64; N]], m: &PointCloud2Msg) {
    let m = MMsg::of_msg(m);
    let n = pts.len() as u64;
    let what = |s: &str| format!("{w:?} writer of {} {}: {s}; {}", n, P::LABEL, m.brief());
    let mut d: Vec<(usize, Decl)> = P::decl().into_iter().enumerate().collect();
    d.sort_by_key(|x| x.1.off);
    if m.width as u64 != n {
        cx.fail("width", what("width"))
    }
    if m.height != u32::from(n > 0) {
        cx.fail("height", what(&format!("height {}", m.height)))
    }
    if m.big {
        cx.fail("endian", what("flagged big-endian"))
    }
    if m.row as u64 != n * m.step as u64 {
        cx.fail("row-step", what(&format!("row step {}", m.row)))
    }
    if m.data.len() as u64 != n * m.step as u64 {
        cx.fail("length", what("buffer length"))
    }
    if m.fields.len() != N {
        cx.fail("fields", what("number of fields"))
    }
    let mut end = 0u64;
    for (f, (_, x)) in m.fields.iter().zip(&d) {
        if f.name != x.name || f.dt != x.dt || f.count != 1 {
            cx.fail("field", what(&format!("field {:?} described as {f:?}", x.name)))
        }
        if (f.off as u64) < end {
            cx.fail("overlap", what(&format!("field {:?} overlaps the one before", x.name)))
        }
        if w == Writer::Iter && f.off as u64 != end {
            cx.fail("gap", what(&format!("gap before field {:?}", x.name)))
        }
        end = f.off as u64 + dt_size(x.dt) as u64;
    }
    if end > m.step as u64 || (w == Writer::Iter && end != m.step as u64) {
        cx.fail("step", what("point step"))
    }
    for (i, p) in pts.iter().enumerate() {
        for (f, (k, x)) in m.fields.iter().zip(&d) {
            let at = i * m.step as usize + f.off as usize;
            let s = dt_size(x.dt);
            if m.data[at..at + s] != p[*k].to_le_bytes()[..s] {
                let s = format!("point {i} field {:?}: bytes {:x?}, value {:#x}", x.name, &m.data[at..at + s], p[*k]);
                cx.fail("bytes", what(&s))
            }
        }
    }
}

fn put<const N: usize, P: Pt<N>>(cx: &mut Cx, w: Writer, pts: &[[u64; N]]) {
    let ps: Vec<P> = to_points(pts);
    match cx.catch(|| write::<N, P>(w, ps)) {
        Ok(Ok(m)) => judge::<N, P>(cx, w, pts, &m),
        Ok(Err(e)) => cx.fail("refused", format!("{w:?} writer of {} {}: {e:?}", pts.len(), P::LABEL)),
        Err(e) => cx.fail("panic", format!("{w:?} writer of {} {}: {e}", pts.len(), P::LABEL)),
    }
}

fn values<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(2, 3);
    let bound = tier.pick(2, 3);
    vec![scenario(
        format!("values-{}", P::LABEL),
        format!("clouds of 0..={nmax} points, up to {bound} values replaced by every boundary pattern of their datatype, all three writers"),
        move |cx| {
            cx.dev_bound = bound;
            let n = cx.range("points", 0, nmax);
            let d = P::decl();
            let mut b = base_points::<N, P>(n);
            for p in b.iter_mut() {
                for k in 0..N {
                    let al = alphabet(d[k].dt);
                    let c = cx.dev("value", al.len() + 1);
                    if c > 0 {
                        p[k] = al[c - 1];
                    }
                }
            }
            cx.state(&b.iter().map(|p| p.to_vec()).collect::<Vec<_>>());
            cx.note(|| show(&b));
            for w in WRITERS {
                put::<N, P>(cx, w, &b);
            }
        },
    )]
}

/// the same for points with many fields, one value at a time
fn big_values<const N: usize, P: Pt<N>>(_: Tier) -> Vec<Scenario> {
    vec![scenario(
        format!("values-{}", P::LABEL),
        format!("{N} fields: clouds of 0..=2 points, each value replaced by every boundary pattern of its datatype, all three writers"),
        move |cx| {
            cx.dev_bound = 1;
            let n = cx.range("points", 0, 2);
            let d = P::decl();
            let mut b = base_points::<N, P>(n);
            for p in b.iter_mut() {
                for k in 0..N {
                    let al = alphabet(d[k].dt);
                    let c = cx.dev("value", al.len() + 1);
                    if c > 0 {
                        p[k] = al[c - 1];
                    }
                }
            }
            cx.state(&b.iter().map(|p| p.to_vec()).collect::<Vec<_>>());
            for w in WRITERS {
                put::<N, P>(cx, w, &b);
            }
        },
    )]
}

/// blank, invalid and repeated points
fn palette<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    vec![scenario(
        format!("palette-{}", P::LABEL),
        format!("clouds of 0..={nmax} points, each ordinary, all zero, all ones, all NaN, all negative zero, or the one before again, all three writers"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let b = classes::<N, P>(cx, n);
            cx.state(&b);
            cx.note(|| show(&b));
            for w in WRITERS {
                put::<N, P>(cx, w, &b);
            }
        },
    )]
}

fn sizes<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let mut ns: Vec<usize> = (0..=tier.pick(130, 700)).collect();
    if N == 1 {
        ns.extend([65535, 65536, 65537]);
    }
    ns.extend(tier.pick(vec![255, 256, 257, 1000, 4097], vec![1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 300_000]));
    vec![scenario(
        format!("sizes-{}", P::LABEL),
        format!("every cloud size 0..={} and {:?}, all three writers", tier.pick(130, 700), &ns[ns.len() - 5..]),
        move |cx| {
            let n = *cx.pick("points", &ns);
            let w = *cx.pick("writer", &WRITERS);
            cx.state(&n);
            put::<N, P>(cx, w, &base_points::<N, P>(n));
        },
    )]
}

/// the same points from sources of different kinds give the same message
fn sources<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(6, 12);
    vec![scenario(
        format!("sources-{}", P::LABEL),
        format!("0..={nmax} points, the iterator writer fed from 8 kinds of iterators (exact, loose and absent size hints)"),
        move |cx| {
            use std::collections::*;
            let n = cx.range("points", 0, nmax);
            let b = base_points::<N, P>(n);
            let ps: Vec<P> = to_points(&b);
            let kind = cx.choose("source", 8);
            cx.state(&(n, kind));
            let r = cx.catch(|| match kind {
                0 => PointCloud2Msg::try_from_iter::<N, P>(ps.iter().cloned()),
                1 => PointCloud2Msg::try_from_iter::<N, P>(VecDeque::from(ps)),
                2 => PointCloud2Msg::try_from_iter::<N, P>(LinkedList::from_iter(ps)),
                3 => {
                    let mut i = ps.into_iter();
                    PointCloud2Msg::try_from_iter::<N, P>(std::iter::from_fn(move || i.next()))
                }
                4 => PointCloud2Msg::try_from_iter::<N, P>(ps.into_iter().filter(|_| true)),
                5 => {
                    let r: Vec<P> = ps.into_iter().rev().collect();
                    PointCloud2Msg::try_from_iter::<N, P>(r.into_iter().rev())
                }
                6 => {
                    let k = n / 2;
                    let (x, y) = ps.split_at(k);
                    PointCloud2Msg::try_from_iter::<N, P>(x.iter().chain(y).cloned())
                }
                _ => PointCloud2Msg::try_from_iter::<N, P>(ps.chunks(2).flat_map(|c| c.to_vec())),
            });
            match r {
                Ok(Ok(m)) => judge::<N, P>(cx, Writer::Iter, &b, &m),
                Ok(Err(e)) => cx.fail("refused", format!("{n} points, source {kind}: {e:?}")),
                Err(e) => cx.fail("panic", format!("{n} points, source {kind}: {e}")),
            }
        },
    )]
}

/// sources that know their length in any of the ways an iterator may, some points taken before
fn hints<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(9, 40);
    vec![scenario(
        format!("hints-{}", P::LABEL),
        format!("0..={nmax} points from sources with {HINTS} kinds of size hints, whole or after taking up to 3 points"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let kind = cx.choose("hint", HINTS);
            let taken = cx.range("taken before", 0, n.min(3));
            let b = base_points::<N, P>(n);
            let mut it = Hinted::new(to_points::<N, P>(&b), kind);
            for _ in 0..taken {
                it.next();
            }
            cx.state(&(n, kind, taken));
            match cx.catch(|| PointCloud2Msg::try_from_iter::<N, P>(it)) {
                Ok(Ok(m)) => judge::<N, P>(cx, Writer::Iter, &b[taken..], &m),
                Ok(Err(e)) => cx.fail("refused", format!("{n} points, hint {kind}: {e:?}")),
                Err(e) => cx.fail("panic", format!("{n} points, hint {kind}: {e}")),
            }
        },
    )]
}

/// sizes at which counters of limited width or chunked copies would go wrong
fn large<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let list: &'static [usize] = tier.pick(&[32769, 65535, 65536, 65537, 70001, 131073], &[262145, 1 << 20, (1 << 21) + 3, (1 << 22) + 1]);
    vec![scenario(format!("large-{}", P::LABEL), format!("3 writers x {list:?} points"), move |cx| {
        let n = *cx.pick("points", list);
        let w = *cx.pick("writer", &WRITERS);
        cx.state(&n);
        put::<N, P>(cx, w, &base_points::<N, P>(n));
    })]
}

/// A vector of `n` zeroed points in memory that is never touched unless somebody reads it.
fn lazy_zeroed<P: Copy>(n: usize) -> Option<Vec<P>> {
    unsafe {
        let l = std::alloc::Layout::array::<P>(n).ok()?;
        let p = std::alloc::alloc_zeroed(l);
        if p.is_null() {
            return None;
        }
        Some(Vec::from_raw_parts(p.cast::<P>(), n, n))
    }
}

/// clouds whose width or row step cannot be stored
fn too_big(_tier: Tier) -> Vec<Scenario> {
    vec![scenario(
        "too-big",
        "vector writer: 2^32-1+k one-byte points (k = 1, 2, 6, 1000) 2^28+k 16-byte points (k = 0, 1) and 178956971 24-byte points: refused, because the width or the row step does not fit 32 bits",
        move |cx| {
            fn go<const N: usize, P: Pt<N> + Copy>(cx: &mut Cx, n: usize) {
                cx.state(&(P::LABEL, n));
                let Some(v) = lazy_zeroed::<P>(n) else { panic!("harness: no address space for {n} points") };
                match cx.catch(|| PointCloud2Msg::try_from_vec::<N, P>(v)) {
                    Ok(Err(MsgConversionError::NumberConversion)) => cx.outcome("refused"),
                    Ok(Err(e)) => cx.outcome(format!("refused: {e:?}")),
                    Ok(Ok(m)) => cx.fail("too-big", format!("{n} points of {} bytes give a message with width {}, row step {}, {} bytes", std::mem::size_of::<P>(), m.dimensions.width, m.row_step, m.data.len())),
                    Err(e) => cx.fail("panic", format!("{n} points of {}: {e}", P::LABEL)),
                }
            }
            match cx.choose("case", 7) {
                0 => go::<1, C1>(cx, 1 << 32),
                1 => go::<1, C1>(cx, (1 << 32) + 1),
                2 => go::<1, C1>(cx, (1 << 32) + 5),
                3 => go::<1, C1>(cx, (1 << 32) + 999),
                4 => go::<4, PointXYZI>(cx, 1 << 28),
                5 => go::<4, PointXYZI>(cx, (1 << 28) + 1),
                _ => go::<3, CD>(cx, 178_956_971),
            }
        },
    )]
}

/// the largest clouds that fit, and the first that do not, for every writer
fn limits(tier: Tier) -> Vec<Scenario> {
    if tier == Tier::Quick {
        // without overflow checks only: this is where a wrong sum would go unnoticed
        if cfg!(debug_assertions) {
            return vec![];
        }
        return vec![scenario("wide-row", "536871 points of 1000 f64 fields (a row of 2^32+704 bytes, width fits) through the iterator writer: refused", move |cx| {
            cx.own();
            match cx.catch(|| PointCloud2Msg::try_from_iter::<1000, F1000>(std::iter::repeat(F1000::default()).take(536_871))) {
                Ok(Err(_)) => cx.outcome("refused"),
                Ok(Ok(m)) => cx.fail("too-big", format!("width {}, point step {}, row step {}, {} bytes", m.dimensions.width, m.point_step, m.row_step, m.data.len())),
                Err(e) => cx.fail("panic", e),
            }
        })];
    }
    vec![scenario(
        "limits",
        "2^28-1 (fits) 16-byte points through the vector writer; 2^32 one-byte points (does not fit) through the iterator writer; 2^27 32-byte points (does not fit) through the parallel writer",
        // one after the other in one worker: each needs several GiB
        move |cx| { cx.own(); for case in 0..3 { match case {
            0 => {
                let n = (1usize << 28) - 1;
                let v = lazy_zeroed::<PointXYZI>(n).expect("harness: memory");
                match cx.catch(|| PointCloud2Msg::try_from_vec::<4, PointXYZI>(v)) {
                    Ok(Ok(m)) => {
                        cx.check(m.dimensions.width as usize == n && m.row_step as usize == n * 16 && m.data.len() == n * 16 && m.point_step == 16, "limit", || format!("{:?} {} {}", m.dimensions, m.row_step, m.data.len()));
                    }
                    x => cx.fail("limit", format!("refused: {:?}", x.map(|r| r.map(|m| m.dimensions)))),
                }
            }
            1 => match cx.catch(|| PointCloud2Msg::try_from_iter::<1, C1>(std::iter::repeat(C1 { v: 3 }).take(1 << 32))) {
                Ok(Err(_)) => cx.outcome("refused"),
                Ok(Ok(m)) => cx.fail("too-big", format!("width {} of {} bytes", m.dimensions.width, m.data.len())),
                Err(e) => cx.fail("panic", e),
            },
            _ => {
                use rayon::iter::ParallelIterator;
                match cx.catch(|| PointCloud2Msg::try_from_par_iter::<2, CWide>(rayon::iter::repeatn(CWide { x: 1, tag: 2 }, 1 << 27).map(|x| x))) {
                    Ok(Err(_)) => cx.outcome("refused"),
                    Ok(Ok(m)) => cx.fail("too-big", format!("width {} of {} bytes", m.dimensions.width, m.data.len())),
                    Err(e) => cx.fail("panic", e),
                }
            }
        }}},
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = too_big(tier);
    v.extend(limits(tier));
    v.extend(all_points!(values, tier));
    v.extend(values::<5, DRust>(tier));
    v.extend(all_points!(palette, tier));
    v.extend(palette::<5, DRust>(tier));
    v.extend(all_points!(sizes, tier));
    v.extend(sizes::<5, DRust>(tier));
    v.extend(large::<3, PointXYZ>(tier));
    v.extend(large::<5, CMix>(tier));
    v.extend(hints::<3, PointXYZ>(tier));
    v.extend(hints::<5, CMix>(tier));
    v.extend(hints::<5, DRust>(tier));
    v.extend(big_points!(big_values, tier));
    v.extend(sources::<3, PointXYZ>(tier));
    v.extend(sources::<5, CMix>(tier));
    v.extend(sources::<5, DRust>(tier));
    v
}
fn main() {
    run("C10", scenarios)
}
