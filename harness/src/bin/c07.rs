//! C07: taking points from both ends, in every interleaving, with exact lengths throughout.
use harness::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use std::collections::VecDeque;

type It<const N: usize, P> = PointCloudIterator<N, P>;
type Model<const N: usize> = VecDeque<[u64; N]>;

fn lengths<const N: usize, P: Pt<N>>(cx: &mut Cx, it: &It<N, P>, left: usize, after: &str) {
    let h = Iterator::size_hint(it);
    let l = ExactSizeIterator::len(it);
    let pl = rayon::iter::IndexedParallelIterator::len(it);
    let ol = rayon::iter::ParallelIterator::opt_len(it);
    if h != (left, Some(left)) {
        cx.fail("size_hint", format!("size_hint {h:?} with {left} points left, after {after}"))
    }
    if l != left {
        cx.fail("len", format!("len {l} with {left} points left, after {after}"))
    }
    if pl != left || ol != Some(left) {
        cx.fail("par-len", format!("parallel len {pl} / {ol:?} with {left} points left, after {after}"))
    }
}

fn same<const N: usize>(cx: &mut Cx, got: Option<[u64; N]>, want: Option<[u64; N]>, what: &str) {
    if got != want {
        cx.fail("item", format!("{what}: got {:x?}, expected {:x?}", got, want))
    }
}
fn same_all<const N: usize>(cx: &mut Cx, got: Vec<[u64; N]>, want: Vec<[u64; N]>, what: &str) {
    if got != want {
        let d = diff(&got, &want);
        cx.fail("items", format!("{what}: {d}; got {}, expected {}", show(&got), show(&want)))
    }
}

fn call<R>(cx: &mut Cx, what: &str, f: impl FnOnce() -> R) -> R {
    match cx.catch(f) {
        Ok(r) => r,
        Err(e) => cx.fail("panic", format!("{what} panicked: {e}")),
    }
}

fn drop_front<const N: usize>(m: &mut Model<N>, k: usize) -> Option<[u64; N]> {
    m.drain(..k.min(m.len()));
    m.pop_front()
}
fn drop_back<const N: usize>(m: &mut Model<N>, k: usize) -> Option<[u64; N]> {
    m.truncate(m.len().saturating_sub(k));
    m.pop_back()
}

const STEP_OPS: usize = 12;
/// One operation that leaves the iterator usable.
fn step<const N: usize, P: Pt<N>>(cx: &mut Cx, op: usize, it: &mut It<N, P>, m: &mut Model<N>) -> String {
    let b = |p: Option<P>| p.map(|p| p.bits());
    let what;
    match op {
        0 => {
            what = "next()".to_string();
            let g = b(call(cx, &what, || it.next()));
            same(cx, g, m.pop_front(), &what);
        }
        1 => {
            what = "next_back()".to_string();
            let g = b(call(cx, &what, || it.next_back()));
            same(cx, g, m.pop_back(), &what);
        }
        2 | 3 | 4 => {
            let k = [1, 2, usize::MAX][op - 2];
            what = format!("nth({k})");
            let g = b(call(cx, &what, || it.nth(k)));
            same(cx, g, drop_front(m, k), &what);
        }
        5 | 6 | 7 => {
            let k = [1, 2, usize::MAX][op - 5];
            what = format!("nth_back({k})");
            let g = b(call(cx, &what, || it.nth_back(k)));
            same(cx, g, drop_back(m, k), &what);
        }
        8 => {
            what = "by_ref().take(2)".to_string();
            let g: Vec<_> = call(cx, &what, || it.by_ref().take(2).map(|p| p.bits()).collect());
            let w = (0..2).filter_map(|_| m.pop_front()).collect();
            same_all(cx, g, w, &what);
        }
        9 => {
            what = "by_ref().rev().take(2)".to_string();
            let g: Vec<_> = call(cx, &what, || it.by_ref().rev().take(2).map(|p| p.bits()).collect());
            let w = (0..2).filter_map(|_| m.pop_back()).collect();
            same_all(cx, g, w, &what);
        }
        10 => {
            // stops in the middle of an internal iteration
            what = "try_for_each stopping at the second point".to_string();
            let mut g = vec![];
            let _ = call(cx, &what, || {
                it.try_for_each(|p| {
                    g.push(p.bits());
                    if g.len() == 2 { Err(()) } else { Ok(()) }
                })
            });
            let w = (0..2).filter_map(|_| m.pop_front()).collect();
            same_all(cx, g, w, &what);
        }
        _ => {
            what = "try_rfold stopping at the second point".to_string();
            let mut g = vec![];
            let _: Result<(), ()> = call(cx, &what, || {
                it.try_rfold((), |_, p| {
                    g.push(p.bits());
                    if g.len() == 2 { Err(()) } else { Ok(()) }
                })
            });
            let w = (0..2).filter_map(|_| m.pop_back()).collect();
            same_all(cx, g, w, &what);
        }
    }
    what
}

const END_OPS: usize = 15;
/// One operation that consumes the rest.
fn finish<const N: usize, P: Pt<N>>(cx: &mut Cx, op: usize, it: It<N, P>, m: Model<N>) {
    let left: Vec<[u64; N]> = m.into_iter().collect();
    let rev: Vec<[u64; N]> = left.iter().rev().copied().collect();
    let n = left.len();
    match op {
        0 => {
            let g = call(cx, "collect", || it.map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, left, "collect");
        }
        1 => {
            let g = call(cx, "rev().collect", || it.rev().map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, rev, "rev().collect");
        }
        2 => {
            let g = call(cx, "count", || it.count());
            cx.eq(g, n, "count");
        }
        3 => {
            let g = call(cx, "last", || it.last().map(|p| p.bits()));
            same(cx, g, left.last().copied(), "last");
        }
        4 => {
            let g = call(cx, "fold", || it.fold(vec![], |mut v, p| { v.push(p.bits()); v }));
            same_all(cx, g, left, "fold");
        }
        5 => {
            let g = call(cx, "rfold", || it.rfold(vec![], |mut v, p| { v.push(p.bits()); v }));
            same_all(cx, g, rev, "rfold");
        }
        6 => {
            let g = call(cx, "step_by(2)", || it.step_by(2).map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, left.into_iter().step_by(2).collect(), "step_by(2)");
        }
        7 => {
            let g = call(cx, "skip(1)", || it.skip(1).map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, left.into_iter().skip(1).collect(), "skip(1)");
        }
        8 => {
            let g = call(cx, "skip(2).rev", || it.skip(2).rev().map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, left.into_iter().skip(2).rev().collect(), "skip(2).rev");
        }
        9 => {
            let g = call(cx, "enumerate().rev", || it.enumerate().rev().map(|(i, p)| (i, p.bits())).collect::<Vec<_>>());
            let w: Vec<_> = left.into_iter().enumerate().rev().collect();
            if g != w {
                cx.fail("items", format!("enumerate().rev: {g:x?}, expected {w:x?}"))
            }
        }
        10 => {
            let g = call(cx, "zip().rev", || it.zip(0..n).rev().map(|(p, i)| (i, p.bits())).collect::<Vec<_>>());
            let w: Vec<_> = left.into_iter().zip(0..n).rev().map(|(p, i)| (i, p)).collect();
            if g != w {
                cx.fail("items", format!("zip().rev: {g:x?}, expected {w:x?}"))
            }
        }
        11 => {
            let g = call(cx, "take(2).rev", || it.take(2).rev().map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, left.into_iter().take(2).rev().collect(), "take(2).rev");
        }
        12 => {
            let g = call(cx, "rev().step_by(2)", || it.rev().step_by(2).map(|p| p.bits()).collect::<Vec<_>>());
            same_all(cx, g, rev.into_iter().step_by(2).collect(), "rev().step_by(2)");
        }
        13 => {
            let mut it = it;
            let w = left.last().copied();
            let g = call(cx, "rposition", || it.rposition(|p| Some(p.bits()) == w));
            cx.eq(g, n.checked_sub(1), "rposition");
        }
        _ => {
            let mut g = vec![];
            call(cx, "for_each", || it.for_each(|p| g.push(p.bits())));
            same_all(cx, g, left, "for_each");
        }
    }
}

fn open<const N: usize, P: Pt<N>>(cx: &mut Cx, n: usize, arr: usize, rows: bool, big: bool) -> (It<N, P>, Model<N>) {
    let (f, s) = base_arrangement::<N, P>(arr);
    let (w, h) = if rows { (1, n as u32) } else { (n as u32, 1) };
    let m = message(f, s, w, h, big);
    let Some(want) = (match reference::<N, P>(&m) {
        RefRead::Points(_, w) => w,
        _ => None,
    }) else {
        panic!("harness")
    };
    let msg = m.to_msg();
    match call(cx, "opening", || It::<N, P>::try_from(msg)) {
        Ok(it) => (it, want.into_iter().collect()),
        Err(e) => cx.fail("refused", format!("{e:?}: {}", m.brief())),
    }
}

fn history<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(5, 7);
    let depth = tier.pick(4, 6);
    vec![scenario(
        format!("history-{}", P::LABEL),
        format!("clouds of 0..={nmax} points, every sequence of up to {depth} operations from {STEP_OPS} (next, next_back, nth, nth_back, take, rev, early-stopping folds), then every one of {END_OPS} consuming operations; lengths checked after every operation"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let (mut it, mut m) = open::<N, P>(cx, n, 0, false, false);
            lengths::<N, P>(cx, &it, n, "opening");
            let mut log: Vec<String> = vec![];
            for _ in 0..depth {
                let op = cx.choose("operation", STEP_OPS + 1);
                if op == 0 {
                    break;
                }
                let what = step::<N, P>(cx, op - 1, &mut it, &mut m);
                lengths::<N, P>(cx, &it, m.len(), &what);
                if cx.verbose() {
                    log.push(what);
                }
                cx.state(&(n, &m.iter().collect::<Vec<_>>()));
            }
            let end = cx.choose("end", END_OPS);
            cx.note(|| format!("{} points: {} then end {end} with {} left", n, log.join(", "), m.len()));
            cx.outcome(format!("{} left at the end", m.len()));
            finish::<N, P>(cx, end, it, m);
        },
    )]
}

/// only next and next_back, to the end and beyond it
fn ends<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(6, 10);
    vec![scenario(
        format!("ends-{}", P::LABEL),
        format!("clouds of 0..={nmax} points in 5 arrangements, rows or columns, every interleaving of next and next_back until three calls after the end"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let (arr, rows, big) = if n <= 4 {
                (cx.choose("arrangement", ARRANGEMENTS), cx.flag("rows"), cx.flag("big"))
            } else {
                (0, false, false)
            };
            let (mut it, mut m) = open::<N, P>(cx, n, arr, rows, big);
            lengths::<N, P>(cx, &it, n, "opening");
            for _ in 0..n + 3 {
                let op = cx.choose("end", 2);
                let what = step::<N, P>(cx, op, &mut it, &mut m);
                lengths::<N, P>(cx, &it, m.len(), &what);
                cx.state(&(n, &m.iter().collect::<Vec<_>>()));
            }
        },
    )]
}

/// blank and repeated points must not look like the end
fn blanks<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    vec![scenario(
        format!("blanks-{}", P::LABEL),
        format!("0..={nmax} points, each ordinary, all zero, all ones, all NaN, all negative zero, or the one before again; every interleaving of next and next_back until one call after the end"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let v = classes::<N, P>(cx, n);
            let mm = message_of::<N, P>(&v, 0, false);
            let msg = mm.to_msg();
            let mut it = match call(cx, "opening", || It::<N, P>::try_from(msg)) {
                Ok(it) => it,
                Err(e) => cx.fail("refused", format!("{e:?}: {}", mm.brief())),
            };
            let mut m: Model<N> = v.iter().copied().collect();
            for _ in 0..n + 1 {
                let op = cx.choose("end", 2);
                let what = step::<N, P>(cx, op, &mut it, &mut m);
                lengths::<N, P>(cx, &it, m.len(), &what);
            }
            cx.state(&v);
        },
    )]
}

/// long clouds, consumed a from the front and b from the back in turns
fn long<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![63, 64, 65, 255, 256, 257, 1000], vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 65535, 65536, 65537, 70000]);
    vec![scenario(
        format!("long-{}", P::LABEL),
        format!("clouds of {sizes:?} points, a=0..3 from the front and b=0..3 from the back in turns until the end"),
        move |cx| {
            let n = *cx.pick("points", &sizes);
            let a = cx.range("front", 0, 3);
            let b = cx.range("back", 0, 3);
            if a + b == 0 {
                return;
            }
            let (mut it, mut m) = open::<N, P>(cx, n, 1, false, false);
            let mut guard = 0;
            while !m.is_empty() {
                for _ in 0..a {
                    step::<N, P>(cx, 0, &mut it, &mut m);
                }
                for _ in 0..b {
                    step::<N, P>(cx, 1, &mut it, &mut m);
                }
                lengths::<N, P>(cx, &it, m.len(), "a turn");
                guard += 1;
                assert!(guard <= n);
            }
            step::<N, P>(cx, 0, &mut it, &mut m);
            step::<N, P>(cx, 1, &mut it, &mut m);
            lengths::<N, P>(cx, &it, 0, "the end");
            cx.state(&(n, a, b));
        },
    )]
}

/// many points taken from one end or both, then everything else that can be done
fn amounts<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![9, 34, 130, 258], vec![9, 12, 34, 66, 130, 258, 514, 1030]);
    let about = format!("clouds of {sizes:?} points: amounts around every power of two (all from 0 to 5) taken from the front and from the back, one by one or by one jump; one of {STEP_OPS} operations or none; then every one of {END_OPS} consuming operations");
    vec![scenario(format!("amounts-{}", P::LABEL), about, move |cx| {
        let n = *cx.pick("points", &sizes);
        let mut at: Vec<usize> = (0..6).collect();
        for b in [8usize, 16, 32, 64, 128, 256, 512, 1024] {
            at.extend([b - 1, b, b + 1]);
        }
        at.extend([n / 2, n - 2, n - 1, n]);
        at.sort();
        at.dedup();
        at.retain(|a| *a <= n);
        let f = *cx.pick("front", &at);
        at.retain(|b| *b <= n - f && (*b <= 2 || n - f - *b <= 1 || *b == f));
        let b = *cx.pick("back", &at);
        let jump = cx.flag("jump");
        let back_first = f > 0 && b > 0 && cx.flag("back first");
        let (mut it, mut m) = open::<N, P>(cx, n, 2, false, false);
        for turn in 0..2 {
            let back = (turn == 1) != back_first;
            let k = if back { b } else { f };
            if jump && k > 0 {
                let (g, w) = if back {
                    (call(cx, "nth_back", || it.nth_back(k - 1)), drop_back(&mut m, k - 1))
                } else {
                    (call(cx, "nth", || it.nth(k - 1)), drop_front(&mut m, k - 1))
                };
                same(cx, g.map(|p| p.bits()), w, if back { "nth_back" } else { "nth" });
            } else {
                for _ in 0..k {
                    step::<N, P>(cx, back as usize, &mut it, &mut m);
                }
            }
            lengths::<N, P>(cx, &it, m.len(), "taking points");
        }
        cx.state(&(n, f, b));
        cx.steps(n as u64);
        let op = cx.choose("operation", STEP_OPS + 1);
        if op > 0 {
            let what = step::<N, P>(cx, op - 1, &mut it, &mut m);
            lengths::<N, P>(cx, &it, m.len(), &what);
        }
        let end = cx.choose("end", END_OPS);
        finish::<N, P>(cx, end, it, m);
    })]
}

/// clouds beyond the range of 16 bit counters
fn large<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![65535, 65536, 65537, 131073, (1 << 20) + 4099], vec![65535, 65536, 65537, 131071, 131072, 131073, 300_000, (1 << 20) + 4099]);
    vec![scenario(
        format!("large-{}", P::LABEL),
        format!("clouds of {sizes:?} points: to the end from the front, the back or both in turns, point by point or after jumping (nth, nth_back) by up to 65537, lengths checked at every step"),
        move |cx| {
            let n = *cx.pick("points", &sizes);
            let (a, b) = *cx.pick("turn", &[(1, 0), (0, 1), (1, 1), (3, 2)]);
            let jump = *cx.pick("jump", &[None, Some((false, 32768)), Some((false, 65535)), Some((false, 65536)), Some((true, 65535)), Some((true, 65536))]);
            let (mut it, mut m) = open::<N, P>(cx, n, 1, false, false);
            cx.state(&(n, a, b, jump));
            cx.steps(n as u64);
            match jump {
                None => {}
                Some((false, k)) => {
                    let g = call(cx, "nth", || it.nth(k)).map(|p| p.bits());
                    same(cx, g, drop_front(&mut m, k), &format!("nth({k})"));
                }
                Some((true, k)) => {
                    let g = call(cx, "nth_back", || it.nth_back(k)).map(|p| p.bits());
                    same(cx, g, drop_back(&mut m, k), &format!("nth_back({k})"));
                }
            }
            let mut turns = 0;
            loop {
                if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) {
                    cx.fail("len", format!("{n} points, {} left: len {}, size_hint {:?}", m.len(), it.len(), it.size_hint()))
                }
                if m.is_empty() {
                    break;
                }
                let (g, w): (Vec<_>, Vec<_>) = call(cx, "a turn", || {
                    let mut g = vec![];
                    let mut w = vec![];
                    for _ in 0..a {
                        g.push(it.next().map(|p| p.bits()));
                        w.push(m.pop_front());
                    }
                    for _ in 0..b {
                        g.push(it.next_back().map(|p| p.bits()));
                        w.push(m.pop_back());
                    }
                    (g, w)
                });
                if g != w {
                    cx.fail("item", format!("{n} points, {} left after turn {turns} of {a} from the front and {b} from the back: got {g:x?}, expected {w:x?}", m.len()))
                }
                turns += 1;
            }
            step::<N, P>(cx, 0, &mut it, &mut m);
            step::<N, P>(cx, 1, &mut it, &mut m);
        },
    )]
}

/// the iterator returned by try_into_iter
fn forward<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(5, 8);
    vec![scenario(
        format!("forward-{}", P::LABEL),
        format!("try_into_iter on 0..={nmax} points: every sequence of next and nth(0..2), size_hint after each call, two calls beyond the end"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let (f, s) = base_arrangement::<N, P>(2);
            let mm = message(f, s, n as u32, 1, false);
            let RefRead::Points(_, Some(w)) = reference::<N, P>(&mm) else { panic!() };
            let mut m: Model<N> = w.into_iter().collect();
            let msg = mm.to_msg();
            let mut it = match call(cx, "opening", || msg.try_into_iter::<N, P>()) {
                Ok(i) => i,
                Err(e) => cx.fail("refused", format!("{e:?}")),
            };
            let mut beyond = 0;
            while beyond < 2 {
                if m.is_empty() {
                    beyond += 1;
                }
                let h = it.size_hint();
                if h != (m.len(), Some(m.len())) {
                    cx.fail("size_hint", format!("{h:?} with {} left", m.len()))
                }
                let k = cx.choose("nth", 4);
                let g = if k == 0 { call(cx, "next", || it.next()) } else { call(cx, "nth", || it.nth(k - 1)) };
                let k = k.saturating_sub(1);
                same(cx, g.map(|p| p.bits()), drop_front(&mut m, k), "next/nth");
                cx.state(&(n, m.len()));
            }
        },
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.extend(history::<1, C1>(tier));
    v.extend(history::<3, ros_pointcloud2::points::PointXYZ>(tier));
    v.extend(history::<5, CMix>(tier));
    v.extend(all_points!(ends, tier));
    v.extend(all_points!(long, tier));
    v.extend(all_points!(blanks, tier));
    v.extend(all_points!(forward, tier));
    v.extend(amounts::<1, C1>(tier));
    v.extend(amounts::<5, CMix>(tier));
    v.extend(large::<3, ros_pointcloud2::points::PointXYZ>(tier));
    v.extend(large::<5, CMix>(tier));
    v
}
fn main() {
    run("C07", scenarios)
}
