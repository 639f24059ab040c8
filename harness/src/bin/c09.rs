//! C09: parallel conversion equals sequential conversion under every schedule.
use harness::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::prelude::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::{LayoutDescription, PointCloud2Msg, PointConvertible, RPCL2Point};
use std::sync::OnceLock;

type It<const N: usize, P> = PointCloudIterator<N, P>;

// ---------------------------------------------------------------- a point whose conversions are
// scheduling points
#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct Y(CMix);
impl From<RPCL2Point<5>> for Y {
    fn from(p: RPCL2Point<5>) -> Self {
        sched::point();
        Y(p.into())
    }
}
impl From<Y> for RPCL2Point<5> {
    fn from(p: Y) -> Self {
        p.0.into()
    }
}
unsafe impl PointConvertible<5> for Y {
    fn layout() -> LayoutDescription {
        CMix::layout()
    }
}
impl Pt<5> for Y {
    const LABEL: &'static str = "Y";
    fn decl() -> [Decl; 5] {
        CMix::decl()
    }
    fn bits(&self) -> [u64; 5] {
        self.0.bits()
    }
    fn of_bits(b: &[u64]) -> Self {
        Y(CMix::of_bits(b))
    }
}

fn open<const N: usize, P: Pt<N>>(cx: &mut Cx, n: usize, arr: usize, big: bool) -> (It<N, P>, Vec<[u64; N]>) {
    let (f, s) = base_arrangement::<N, P>(arr);
    let m = message(f, s, n as u32, 1, big);
    let RefRead::Points(_, Some(want)) = reference::<N, P>(&m) else { panic!("harness") };
    let msg = m.to_msg();
    match cx.catch(|| It::<N, P>::try_from(msg)) {
        Ok(Ok(it)) => (it, want),
        Ok(Err(e)) => cx.fail("refused", format!("{e:?}")),
        Err(e) => cx.fail("panic", e),
    }
}
fn same<const N: usize>(cx: &mut Cx, got: &[[u64; N]], want: &[[u64; N]], what: &str) {
    if got != want {
        cx.fail("items", format!("{what}: {}; got {}, expected {}", diff(got, want), show(got), show(want)))
    }
}

// ---------------------------------------------------------------- every split tree, every interleaving

struct Split<'a, const N: usize> {
    cx: &'a mut Cx,
    want: Vec<[u64; N]>,
    leaves: usize,
    /// 0: interleave on this thread; 1: threads under the controlled scheduler
    threads: bool,
}
impl<const N: usize, P: Pt<N>> ProducerCallback<P> for Split<'_, N> {
    type Output = ();
    fn callback<Pr: Producer<Item = P>>(self, producer: Pr) {
        let cx = self.cx;
        let mut ps = vec![(producer, self.want.clone())];
        // leftmost-first splitting enumerates every tree shape once
        let mut i = 0;
        while i < ps.len() {
            let n = ps[i].1.len();
            if ps.len() < self.leaves && n >= 2 {
                let at = cx.choose("split", n);
                if at > 0 {
                    let (p, mut m) = ps.remove(i);
                    let r = m.split_off(at);
                    match cx.catch(|| p.split_at(at)) {
                        Ok((a, b)) => {
                            ps.insert(i, (b, r));
                            ps.insert(i, (a, m));
                        }
                        Err(e) => cx.fail("panic", format!("split at {at} of {n}: {e}")),
                    }
                    continue;
                }
            }
            i += 1;
        }
        let shape: Vec<usize> = ps.iter().map(|p| p.1.len()).collect();
        cx.state(&shape);
        if self.threads {
            unreachable!()
        }
        let mut its: Vec<_> = ps.into_iter().map(|(p, m)| (p.into_iter(), m.len(), vec![])).collect();
        let mut sched = vec![];
        loop {
            let en: Vec<usize> = (0..its.len()).filter(|&k| its[k].1 > 0).collect();
            if en.is_empty() {
                break;
            }
            let k = en[if en.len() == 1 { 0 } else { cx.choose("schedule", en.len()) }];
            sched.push(k);
            let (it, left, got) = &mut its[k];
            *left -= 1;
            match cx.catch(|| it.next()) {
                Ok(Some(p)) => got.push(p.bits()),
                Ok(None) => {
                    let s = format!("leaf {k} of {shape:?} ends {left} points early, schedule {sched:?}", left = *left + 1);
                    cx.fail("short", s)
                }
                Err(e) => cx.fail("panic", e),
            }
            cx.state(&(&shape, its.iter().map(|x| x.1).collect::<Vec<_>>()));
        }
        for (k, x) in its.iter_mut().enumerate() {
            if x.0.next().is_some() {
                cx.fail("long", format!("leaf {k} of {shape:?} does not end"))
            }
        }
        cx.note(|| format!("leaves {shape:?} schedule {sched:?}"));
        cx.outcome(format!("{} leaves", shape.len()));
        let got: Vec<_> = its.into_iter().flat_map(|x| x.2).collect();
        same(cx, &got, &self.want, "concatenated leaves");
    }
}

fn leaves<const N: usize, P: Pt<N>>(nmax: usize, leaves: usize) -> Vec<Scenario> {
    vec![scenario(
        format!("leaves-{}-{nmax}x{leaves}", P::LABEL),
        format!("0..={nmax} points (0 or 1 taken from each end first), every splitting into up to {leaves} non-empty parts in every order of splits, every interleaving of the parts' next calls"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let (mut it, mut want) = open::<N, P>(cx, n, 1, false);
            if cx.flag("front") && n > 0 {
                it.next();
                want.remove(0);
            }
            if cx.flag("back") && !want.is_empty() {
                it.next_back();
                want.pop();
            }
            it.with_producer(Split { cx, want, leaves, threads: false });
        },
    )]
}

/// blank and repeated points in parallel reading and writing
fn blanks<const N: usize, P: Pt<N>>(nmax: usize) -> Vec<Scenario> {
    vec![scenario(
        format!("blanks-{}", P::LABEL),
        format!("0..={nmax} points, each ordinary, all zero, all ones, all NaN, all negative zero, or the one before again: every splitting into up to 3 parts and every interleaving when reading; written from a parallel source split into up to 2 parts"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let v = classes::<N, P>(cx, n);
            if cx.flag("write") {
                let ps: Vec<P> = to_points(&v);
                let want = match cx.catch(|| write::<N, P>(Writer::Vec, ps.clone())) {
                    Ok(Ok(m)) => without_padding(MMsg::of_msg(&m)),
                    x => cx.fail("write", format!("vector writer: {x:?}")),
                };
                let known_len = cx.flag("length known");
                let src = Source { items: ps, known_len, leaves: 2, cx };
                match cx.catch(|| PointCloud2Msg::try_from_par_iter::<N, P>(src)) {
                    Ok(Ok(m)) => {
                        let got = without_padding(MMsg::of_msg(&m));
                        if got != want {
                            cx.fail("message", format!("got {} {:x?}, expected {} {:x?}", got.brief(), got.data, want.brief(), want.data))
                        }
                    }
                    Ok(Err(e)) => cx.fail("refused", format!("{e:?}")),
                    Err(e) => cx.fail("panic", e),
                }
                return;
            }
            let msg = message_of::<N, P>(&v, 1, false).to_msg();
            match cx.catch(|| It::<N, P>::try_from(msg)) {
                Ok(Ok(it)) => it.with_producer(Split { cx, want: v, leaves: 3, threads: false }),
                Ok(Err(e)) => cx.fail("refused", format!("{e:?}")),
                Err(e) => cx.fail("panic", e),
            }
        },
    )]
}

/// parts on threads of their own, scheduled at every call and inside every conversion
fn threads(nmax: usize, leaves: usize) -> Vec<Scenario> {
    vec![scenario(
        format!("threads-{nmax}x{leaves}"),
        format!("1..={nmax} points, every splitting into up to {leaves} non-empty parts, each part consumed by a thread of its own (forward or backward), every interleaving of the threads with scheduling points before each call and inside each point conversion"),
        move |cx| {
            let n = cx.range("points", 1, nmax);
            let (it, want) = open::<5, Y>(cx, n, 4, false);
            let mut ps = vec![(it, want.clone())];
            let mut i = 0;
            while i < ps.len() {
                let n = ps[i].1.len();
                if ps.len() < leaves && n >= 2 {
                    let at = cx.choose("split", n);
                    if at > 0 {
                        let (p, mut m) = ps.remove(i);
                        let r = m.split_off(at);
                        let (a, b) = match cx.catch(|| p.split_at(at)) {
                            Ok(x) => x,
                            Err(e) => cx.fail("panic", format!("split at {at} of {n}: {e}")),
                        };
                        ps.insert(i, (b, r));
                        ps.insert(i, (a, m));
                        continue;
                    }
                }
                i += 1;
            }
            let shape: Vec<usize> = ps.iter().map(|p| p.1.len()).collect();
            let back = cx.flag("backward");
            type T = Vec<[u64; 5]>;
            let tasks: Vec<Box<dyn FnOnce() -> T + Send>> = ps
                .into_iter()
                .map(|(mut it, m)| {
                    let n = m.len();
                    Box::new(move || {
                        let mut v = vec![];
                        for _ in 0..n {
                            let p = if back { it.next_back() } else { it.next() };
                            if let Some(p) = p {
                                v.push(p.bits());
                            }
                            if v.len() < n {
                                sched::point();
                            }
                        }
                        if it.next().is_some() {
                            v.push([0; 5]);
                        }
                        if back {
                            v.reverse();
                        }
                        v
                    }) as Box<dyn FnOnce() -> T + Send>
                })
                .collect();
            let (res, taken) = sched::run(cx, tasks);
            cx.note(|| format!("parts {shape:?}, threads in order {taken:?}"));
            cx.state(&(&shape, &taken));
            let mut got = vec![];
            for r in res {
                match r {
                    Ok(v) => got.extend(v),
                    Err(e) => cx.fail("panic", e),
                }
            }
            same(cx, &got, &want, "threads");
        },
    )]
}

// ---------------------------------------------------------------- writing: every split tree of the
// source, every interleaving of the parts

fn sources<const N: usize, P: Pt<N>>(nmax: usize, leaves: usize) -> Vec<Scenario> {
    vec![scenario(
        format!("source-{}-{nmax}x{leaves}", P::LABEL),
        format!("writing 0..={nmax} points from a parallel source (length known or not): every tree of splits into up to {leaves} parts (empty ones too when the length is not known), every interleaving of the parts, parts completed in either order; the message equals the one written from the collected points"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let known_len = cx.flag("length known");
            let b = base_points::<N, P>(n);
            let ps: Vec<P> = to_points(&b);
            let want = match cx.catch(|| write::<N, P>(Writer::Vec, ps.clone())) {
                Ok(Ok(m)) => without_padding(MMsg::of_msg(&m)),
                x => cx.fail("write", format!("vector writer: {x:?}")),
            };
            let src = Source { items: ps, known_len, leaves, cx };
            match cx.catch(|| PointCloud2Msg::try_from_par_iter::<N, P>(src)) {
                Ok(Ok(m)) => {
                    let got = without_padding(MMsg::of_msg(&m));
                    if got != want {
                        cx.fail("message", format!("got {} {:x?}, expected {} {:x?}", got.brief(), got.data, want.brief(), want.data))
                    }
                }
                Ok(Err(e)) => cx.fail("refused", format!("{e:?}")),
                Err(e) => cx.fail("panic", e),
            }
        },
    )]
}

// ---------------------------------------------------------------- the runtime's own adapters

fn pool(threads: usize) -> Option<&'static rayon::ThreadPool> {
    static POOLS: [OnceLock<Option<rayon::ThreadPool>>; 17] = [const { OnceLock::new() }; 17];
    POOLS[threads].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(threads).stack_size(1 << 20).build().ok()).as_ref()
}
/// 0: the current thread; otherwise a real pool (a smaller one where threads are scarce).
fn within<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    match (1..=threads).rev().find_map(pool) {
        Some(p) => p.install(f),
        None => f(),
    }
}

const ADAPTERS: [&str; 38] = [
    "collect", "collect_into_vec", "rev", "enumerate", "skip", "take", "chunks", "zip range", "zip cloud",
    "step_by", "interleave", "interleave_shortest", "chain", "fold+reduce", "position_first", "position_last",
    "position_any", "find_first", "find_last", "count", "fold_chunks", "for_each by index", "unzip",
    "filter", "flat_map_iter", "map_init", "rev.enumerate", "skip.rev.take", "chunks.rev", "cmp",
    "partition", "collect_vec_list", "by_uniform_blocks", "by_exponential_blocks", "try_reduce", "try_into_par_iter collect",
    "enumerate.rev.skip", "take_any_while",
];

fn adapter<const N: usize, P: Pt<N>>(
    a: usize,
    k: usize,
    threads: usize,
    max: usize,
    it: It<N, P>,
    other: It<N, P>,
    want: &[[u64; N]],
) -> Result<(), String> {
    let b = |p: P| p.bits();
    let n = want.len();
    // every adapter goes through with_max_len so that splitting is as fine as asked for
    let it = it.with_max_len(max);
    let other = other.with_max_len(max);
    type R<const N: usize> = (Vec<[u64; N]>, Vec<[u64; N]>);
    let cp = |it: &mut dyn Iterator<Item = [u64; N]>| it.collect::<Vec<_>>();
    let ((got, want), extra): (R<N>, Option<(String, String)>) = match a {
        0 => ((within(threads, || it.map(b).collect()), want.to_vec()), None),
        1 => {
            let mut v = vec![[7u64; N]; 3];
            within(threads, || it.map(b).collect_into_vec(&mut v));
            ((v, want.to_vec()), None)
        }
        2 => ((within(threads, || it.map(b).rev().collect()), cp(&mut want.iter().rev().copied())), None),
        3 => {
            let g: Vec<(usize, [u64; N])> = within(threads, || it.map(b).enumerate().collect());
            let w: Vec<_> = want.iter().copied().enumerate().collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        4 => ((within(threads, || it.skip(k).map(b).collect()), cp(&mut want.iter().skip(k).copied())), None),
        5 => ((within(threads, || it.take(k).map(b).collect()), cp(&mut want.iter().take(k).copied())), None),
        6 => {
            let g: Vec<Vec<[u64; N]>> = within(threads, || it.map(b).chunks(k + 1).collect());
            let w: Vec<_> = want.chunks(k + 1).map(|c| c.to_vec()).collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        7 => {
            let g: Vec<(usize, [u64; N])> = within(threads, || (0..n + k).into_par_iter().zip(it.map(b)).collect());
            let w: Vec<_> = (0..n + k).zip(want.iter().copied()).collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        8 => {
            let g: Vec<([u64; N], [u64; N])> = within(threads, || it.map(b).zip(other.map(b).rev()).collect());
            let w: Vec<_> = want.iter().copied().zip(want.iter().rev().copied()).collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        9 => ((within(threads, || it.step_by(k + 1).map(b).collect()), cp(&mut want.iter().step_by(k + 1).copied())), None),
        10 | 11 => {
            let o = other.skip(k);
            let g: Vec<[u64; N]> = if a == 10 {
                within(threads, || it.interleave(o).map(b).collect())
            } else {
                within(threads, || it.interleave_shortest(o).map(b).collect())
            };
            let (x, y) = (want.to_vec(), want.iter().skip(k).copied().collect::<Vec<_>>());
            let mut w = vec![];
            if a == 10 {
                for i in 0..x.len().max(y.len()) {
                    w.extend(x.get(i));
                    w.extend(y.get(i));
                }
            } else {
                let m = y.len();
                for i in 0..m {
                    w.push(x[i]);
                    w.push(y[i]);
                }
                w.extend(x.get(m));
            }
            ((g, w), None)
        }
        12 => {
            let g = within(threads, || it.chain(other).map(b).collect());
            ((g, [want, want].concat()), None)
        }
        13 => {
            let g = within(threads, || {
                it.map(b)
                    .fold(Vec::new, |mut v, x| {
                        v.push(x);
                        v
                    })
                    .reduce(Vec::new, |mut x, mut y| {
                        x.append(&mut y);
                        x
                    })
            });
            ((g, want.to_vec()), None)
        }
        14 | 15 | 16 => {
            let t = want.get(k.min(n.saturating_sub(1))).copied();
            let f = |p: P| Some(p.bits()) == t;
            let g = match a {
                14 => within(threads, || it.position_first(f)),
                15 => within(threads, || it.position_last(f)),
                _ => within(threads, || it.position_any(f)),
            };
            let w = match a {
                14 => want.iter().position(|x| Some(*x) == t),
                15 => want.iter().rposition(|x| Some(*x) == t),
                // the points of the cloud are distinct
                _ => want.iter().position(|x| Some(*x) == t),
            };
            ((vec![], vec![]), Some((format!("{g:?}"), format!("{w:?}"))))
        }
        17 | 18 => {
            let f = |p: &P| p.bits()[0] % 2 == 1;
            let g = if a == 17 { within(threads, || it.find_first(f)) } else { within(threads, || it.find_last(f)) };
            let mut ws = want.iter().filter(|x| x[0] % 2 == 1);
            let w = if a == 17 { ws.next() } else { ws.last() };
            ((vec![], vec![]), Some((format!("{:x?}", g.map(|p| p.bits())), format!("{:x?}", w.copied()))))
        }
        19 => {
            let g = within(threads, || ParallelIterator::count(it));
            ((vec![], vec![]), Some((g.to_string(), n.to_string())))
        }
        20 => {
            let g: Vec<Vec<[u64; N]>> = within(threads, || {
                it.map(b)
                    .fold_chunks(k + 1, Vec::new, |mut v, x| {
                        v.push(x);
                        v
                    })
                    .collect()
            });
            let w: Vec<_> = want.chunks(k + 1).map(|c| c.to_vec()).collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        21 => {
            let v: Vec<std::sync::Mutex<Option<[u64; N]>>> = (0..n).map(|_| std::sync::Mutex::new(None)).collect();
            within(threads, || it.enumerate().for_each(|(i, p)| *v[i].lock().unwrap() = Some(p.bits())));
            ((v.into_iter().map(|x| x.into_inner().unwrap().unwrap_or([99; N])).collect(), want.to_vec()), None)
        }
        22 => {
            let (x, y): (Vec<usize>, Vec<[u64; N]>) = within(threads, || it.map(b).enumerate().unzip());
            ((y, want.to_vec()), Some((format!("{x:?}"), format!("{:?}", (0..n).collect::<Vec<_>>()))))
        }
        23 => {
            let g = within(threads, || it.map(b).filter(|x| x[0] % 2 == 0).collect());
            ((g, cp(&mut want.iter().filter(|x| x[0] % 2 == 0).copied())), None)
        }
        24 => {
            let g = within(threads, || it.flat_map_iter(|p| std::iter::repeat(p.bits()).take(2)).collect());
            ((g, cp(&mut want.iter().flat_map(|x| [*x, *x]))), None)
        }
        25 => {
            let g = within(threads, || it.map_init(|| 0usize, |c, p| { *c += 1; p.bits() }).collect());
            ((g, want.to_vec()), None)
        }
        26 => {
            let g: Vec<(usize, [u64; N])> = within(threads, || it.map(b).rev().enumerate().collect());
            let w: Vec<_> = want.iter().rev().copied().enumerate().collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        27 => {
            let g = within(threads, || it.skip(k).rev().take(2).map(b).collect());
            ((g, cp(&mut want.iter().skip(k).rev().take(2).copied())), None)
        }
        28 => {
            let g: Vec<Vec<[u64; N]>> = within(threads, || it.map(b).chunks(k + 1).rev().collect());
            let w: Vec<_> = want.chunks(k + 1).map(|c| c.to_vec()).rev().collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        29 => {
            let g = within(threads, || it.map(b).cmp(other.map(b)));
            ((vec![], vec![]), Some((format!("{g:?}"), "Equal".into())))
        }
        30 => {
            let (x, y): (Vec<[u64; N]>, Vec<[u64; N]>) = within(threads, || it.map(b).partition(|x| x[0] % 3 == 0));
            let (wx, wy): (Vec<[u64; N]>, Vec<[u64; N]>) = want.iter().copied().partition(|x| x[0] % 3 == 0);
            (([x, y].concat(), [wx, wy].concat()), None)
        }
        31 => {
            let g: Vec<[u64; N]> = within(threads, || it.map(b).collect_vec_list()).into_iter().flatten().collect();
            ((g, want.to_vec()), None)
        }
        32 => ((within(threads, || it.map(b).by_uniform_blocks(k + 1).collect()), want.to_vec()), None),
        33 => ((within(threads, || it.map(b).by_exponential_blocks().collect()), want.to_vec()), None),
        34 => {
            let g = within(threads, || {
                it.map(|p| Some(vec![p.bits()])).try_reduce(Vec::new, |mut x, mut y| {
                    x.append(&mut y);
                    Some(x)
                })
            });
            ((g.unwrap_or_default(), want.to_vec()), None)
        }
        35 => ((within(threads, || it.map(b).with_min_len(k + 1).collect()), want.to_vec()), None),
        36 => {
            let g: Vec<(usize, [u64; N])> = within(threads, || it.map(b).enumerate().rev().skip(k).collect());
            let w: Vec<_> = want.iter().copied().enumerate().rev().skip(k).collect();
            ((vec![], vec![]), Some((format!("{g:x?}"), format!("{w:x?}"))))
        }
        _ => {
            // which points are taken depends on the schedule; each one is a point of the cloud, once
            let mut g: Vec<[u64; N]> = within(threads, || it.map(b).take_any(k).collect());
            let len = g.len();
            g.sort();
            g.dedup();
            let ok = g.len() == len && len == k.min(n) && g.iter().all(|x| want.contains(x));
            ((vec![], vec![]), Some((format!("{ok}"), "true".into())))
        }
    };
    if got != want {
        return Err(format!("{}; got {}, expected {}", diff(&got, &want), show(&got), show(&want)));
    }
    if let Some((g, w)) = extra {
        if g != w {
            return Err(format!("got {g}, expected {w}"));
        }
    }
    Ok(())
}

fn adapters<const N: usize, P: Pt<N>>(_tier: Tier, sizes: Vec<usize>, pools: Vec<usize>) -> Vec<Scenario> {
    let tag = if pools == [0] { "one" } else { "pool" };
    vec![scenario(
        format!("adapters-{tag}-{}", P::LABEL),
        format!("clouds of {sizes:?} points (0 or 1 taken from each end), every one of {} adapters and reductions of the runtime with arguments 0, 1, 2 and 5, {} finest splitting on and off", ADAPTERS.len(),
            if pools == [0] { "on one thread,".into() } else { format!("on real pools of {pools:?} threads,") }),
        move |cx| {
            let threads = *cx.pick("threads", &pools);
            let n = *cx.pick("points", &sizes);
            let a = cx.choose("adapter", ADAPTERS.len());
            let k = *cx.pick("argument", &[0, 1, 2, 5]);
            let max = *cx.pick("max len", &[1, usize::MAX]);
            let (mut it, mut want) = open::<N, P>(cx, n, 1, false);
            let (mut other, _) = open::<N, P>(cx, n, 0, false);
            // both clouds hold the same points
            let same_points: Vec<P> = to_points(&want);
            if let Ok(Ok(m)) = cx.catch(|| write::<N, P>(Writer::Iter, same_points)) {
                other = It::try_from(m).expect("written message");
            }
            if n > 0 && cx.flag("front") {
                it.next();
                other.next();
                want.remove(0);
            }
            if !want.is_empty() && cx.flag("back") {
                it.next_back();
                other.next_back();
                want.pop();
            }
            cx.state(&(a, k, n, max, want.len()));
            match cx.catch(|| adapter::<N, P>(a, k, threads, max, it, other, &want)) {
                Ok(Ok(())) => cx.outcome(ADAPTERS[a]),
                Ok(Err(e)) => cx.fail(format!("adapter-{}", ADAPTERS[a]), format!("{} (argument {k}, {} points, {threads} threads): {e}", ADAPTERS[a], want.len())),
                Err(e) => cx.fail(format!("panic-{}", ADAPTERS[a]), format!("{} (argument {k}, {} points): {e}", ADAPTERS[a], want.len())),
            }
        },
    )]
}

/// reading and writing on real pools, every thread count
fn runtime<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick((0..=10).chain([64, 1000, 140003]).collect(), (0..=40).chain([63, 64, 65, 1000, 4097, 20000, 70001, 140003, 300007]).collect());
    let pools: Vec<usize> = (1..=9).chain([12, 16]).collect();
    vec![scenario(
        format!("runtime-{}", P::LABEL),
        format!("clouds of {sizes:?} points, pools of {pools:?} real threads (more than 1000 points: 1, 2, 3, 8): read in parallel and written from 5 kinds of parallel sources, finest splitting on and off"),
        move |cx| {
            let threads = *cx.pick("threads", &pools);
            let n = *cx.pick("points", &sizes);
            if n > 1000 && ![1, 2, 3, 8].contains(&threads) {
                return;
            }
            let kind = cx.choose("source", 6);
            let max = *cx.pick("max len", &[if n > 20000 { 1000 } else { 1 }, usize::MAX]);
            let b = base_points::<N, P>(n);
            let ps: Vec<P> = to_points(&b);
            cx.state(&(n, kind, max));
            if kind == 5 {
                let m = match cx.catch(|| write::<N, P>(Writer::Iter, ps.clone())) {
                    Ok(Ok(m)) => m,
                    x => cx.fail("write", format!("{x:?}")),
                };
                let r = cx.catch(|| within(threads, || m.try_into_par_iter::<N, P>().map(|i| i.map(|p| p.bits()).collect::<Vec<_>>())));
                match r {
                    Ok(Ok(g)) => same(cx, &g, &b, "parallel read"),
                    x => cx.fail("read", format!("{x:?}")),
                }
                return;
            }
            let want: Vec<P> = match kind {
                3 => ps.iter().rev().cloned().collect(),
                4 => ps.iter().enumerate().filter(|x| x.0 % 3 != 1).map(|x| x.1.clone()).collect(),
                _ => ps.clone(),
            };
            let want = match cx.catch(|| write::<N, P>(Writer::Vec, want)) {
                Ok(Ok(m)) => without_padding(MMsg::of_msg(&m)),
                x => cx.fail("write", format!("{x:?}")),
            };
            let r = cx.catch(|| {
                within(threads, || match kind {
                    0 => PointCloud2Msg::try_from_par_iter::<N, P>(ps.into_par_iter().with_max_len(max)),
                    1 => PointCloud2Msg::try_from_par_iter::<N, P>(ps.par_iter().with_max_len(max).cloned()),
                    2 => PointCloud2Msg::try_from_par_iter::<N, P>(ps.par_iter().with_max_len(max).flat_map_iter(|p| std::iter::once(p.clone()))),
                    3 => PointCloud2Msg::try_from_par_iter::<N, P>(ps.into_par_iter().rev().with_max_len(max)),
                    _ => PointCloud2Msg::try_from_par_iter::<N, P>(ps.into_par_iter().enumerate().with_max_len(max).filter(|x| x.0 % 3 != 1).map(|x| x.1)),
                })
            });
            match r {
                Ok(Ok(m)) => {
                    let got = without_padding(MMsg::of_msg(&m));
                    if got != want {
                        cx.fail("message", format!("source {kind}, {n} points, {threads} threads: got {}, expected {}", got.brief(), want.brief()))
                    }
                }
                x => cx.fail("write", format!("{x:?}")),
            }
        },
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.extend(leaves::<1, C1>(tier.pick(8, 10), 3));
    v.extend(leaves::<5, CMix>(tier.pick(6, 8), tier.pick(4, 4)));
    v.extend(leaves::<3, PointXYZ>(tier.pick(6, 7), tier.pick(5, 6)));
    v.extend(threads(tier.pick(4, 5), 3));
    v.extend(threads(tier.pick(6, 8), 2));
    v.extend(threads(4, 4));
    v.extend(blanks::<3, PointXYZ>(tier.pick(4, 5)));
    v.extend(blanks::<5, CMix>(tier.pick(4, 5)));
    v.extend(blanks::<1, C1>(tier.pick(4, 5)));
    v.extend(sources::<2, C2>(tier.pick(7, 8), tier.pick(3, 4)));
    v.extend(sources::<3, PointXYZ>(tier.pick(5, 6), tier.pick(4, 5)));
    v.extend(sources::<7, PointXYZRGBNormal>(tier.pick(5, 6), tier.pick(3, 4)));
    v.extend(sources::<5, CMix>(tier.pick(5, 6), tier.pick(3, 4)));
    // one point type: each of the runtime's adapters is compiled once per type
    let small: Vec<usize> = tier.pick((0..=12).collect(), (0..=24).collect());
    v.extend(adapters::<5, CMix>(tier, small, vec![0]));
    v.extend(adapters::<5, CMix>(tier, tier.pick(vec![0, 1, 2, 5, 17, 33], vec![0, 1, 2, 3, 5, 17, 33, 200]), tier.pick(vec![2, 3, 4], (1..=8).collect())));
    v.extend(runtime::<3, PointXYZ>(tier));
    v.extend(runtime::<4, PointXYZRGB>(tier));
    v
}
fn main() {
    run("C09", scenarios)
}
