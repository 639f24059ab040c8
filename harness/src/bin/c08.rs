//! C08: splitting partitions the remaining points, recursively, empty halves included.
use harness::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::PointXYZ;
use std::collections::VecDeque;

type It<const N: usize, P> = PointCloudIterator<N, P>;

struct Piece<I, const N: usize> {
    it: I,
    m: VecDeque<[u64; N]>,
}

fn open<const N: usize, P: Pt<N>>(cx: &mut Cx, n: usize, arr: usize, big: bool) -> Piece<It<N, P>, N> {
    let (f, s) = base_arrangement::<N, P>(arr);
    let m = message(f, s, n as u32, 1, big);
    let RefRead::Points(_, Some(want)) = reference::<N, P>(&m) else { panic!("harness") };
    let msg = m.to_msg();
    match cx.catch(|| It::<N, P>::try_from(msg)) {
        Ok(Ok(it)) => Piece { it, m: want.into_iter().collect() },
        Ok(Err(e)) => cx.fail("refused", format!("{e:?}")),
        Err(e) => cx.fail("panic", format!("opening {n} points: {e}")),
    }
}

fn take<const N: usize, P: Pt<N>, I: DoubleEndedIterator<Item = P> + ExactSizeIterator>(
    cx: &mut Cx,
    p: &mut Piece<I, N>,
    back: bool,
) {
    let r = cx.catch(|| if back { p.it.next_back() } else { p.it.next() });
    let g = match r {
        Ok(g) => g.map(|x| x.bits()),
        Err(e) => cx.fail("panic", format!("taking a point of a piece of {}: {e}", p.m.len())),
    };
    let w = if back { p.m.pop_back() } else { p.m.pop_front() };
    if g != w {
        cx.fail("item", format!("{}: got {g:x?}, expected {w:x?}", if back { "next_back" } else { "next" }))
    }
}

fn exact<const N: usize, P: Pt<N>, I: DoubleEndedIterator<Item = P> + ExactSizeIterator>(cx: &mut Cx, p: &Piece<I, N>, what: &str) {
    let (l, h) = (p.it.len(), p.it.size_hint());
    let n = p.m.len();
    if l != n || h != (n, Some(n)) {
        cx.fail("len", format!("{what}: len {l}, size_hint {h:?}, expected {n}"))
    }
}

fn drain<const N: usize, P: Pt<N>, I: DoubleEndedIterator<Item = P> + ExactSizeIterator>(cx: &mut Cx, mut p: Piece<I, N>, how: usize) {
    let mut turn = how == 1;
    for _ in 0..p.m.len() + 2 {
        take(cx, &mut p, turn);
        exact(cx, &p, "draining");
        if how == 2 {
            turn = !turn;
        }
    }
}

fn split<const N: usize, P: Pt<N>>(cx: &mut Cx, p: Piece<It<N, P>, N>, at: usize) -> (Piece<It<N, P>, N>, Piece<It<N, P>, N>) {
    let n = p.m.len();
    let it = p.it;
    match cx.catch(|| it.split_at(at)) {
        Ok((a, b)) => {
            let mut left = p.m;
            let right = left.split_off(at);
            (Piece { it: a, m: left }, Piece { it: b, m: right })
        }
        Err(e) => cx.fail("panic", format!("splitting {n} points at {at} panicked: {e}")),
    }
}

fn key<const N: usize, I>(ps: &[Piece<I, N>]) -> Vec<Vec<[u64; N]>> {
    ps.iter().map(|p| p.m.iter().copied().collect()).collect()
}

fn trees<const N: usize, P: Pt<N>>(tier: Tier, nmax: usize, depth: usize) -> Vec<Scenario> {
    let _ = tier;
    vec![scenario(
        format!("trees-{}-{nmax}x{depth}", P::LABEL),
        format!("0..={nmax} points, every sequence of up to {depth} of: split any piece at any position from 0 to its length, take from the front or back of any piece; then drain all pieces (forward, backward, alternating, in both orders)"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let p = open::<N, P>(cx, n, 0, false);
            let mut ps = vec![p];
            let mut log = vec![];
            for _ in 0..depth {
                // enabled actions, simplest first
                let mut acts: Vec<(usize, usize)> = vec![(usize::MAX, 0)];
                for (i, p) in ps.iter().enumerate() {
                    acts.push((i, 0));
                    acts.push((i, 1));
                    for k in 0..=p.m.len() {
                        acts.push((i, 2 + k));
                    }
                }
                let (i, a) = acts[cx.choose("action", acts.len())];
                if i == usize::MAX {
                    break;
                }
                if cx.verbose() {
                    log.push(format!("{}@{i}", match a { 0 => "next".into(), 1 => "next_back".into(), k => format!("split({})", k - 2) }));
                }
                match a {
                    0 => take(cx, &mut ps[i], false),
                    1 => take(cx, &mut ps[i], true),
                    k => {
                        let p = ps.remove(i);
                        let (a, b) = split(cx, p, k - 2);
                        ps.insert(i, b);
                        ps.insert(i, a);
                    }
                }
                for p in &ps {
                    exact(cx, p, "after an action");
                }
                cx.state(&key(&ps));
            }
            cx.note(|| format!("{n} points: {}", log.join(" ")));
            cx.outcome(format!("{} pieces", ps.len()));
            let how = cx.choose("drain", 3);
            if cx.flag("reverse order") {
                ps.reverse();
            }
            for p in ps {
                drain(cx, p, how);
            }
        },
    )]
}

/// clouds beyond the range of 16 bit counters
fn large<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![65536, 65537, 131073], vec![65535, 65536, 65537, 131071, 131072, 131073, 300_000]);
    vec![scenario(
        format!("large-{}", P::LABEL),
        format!("clouds of {sizes:?} points, nothing or one point of each end taken: split at the beginning, quarter, middle, 65535, 65536, end; either half split again in the middle; all pieces drained"),
        move |cx| {
            let n = *cx.pick("points", &sizes);
            let mut p = open::<N, P>(cx, n, 1, false);
            if cx.flag("taken") {
                take(cx, &mut p, false);
                take(cx, &mut p, true);
            }
            let l = p.m.len();
            let at = *cx.pick("position", &[0, 1, l / 4, l / 2, 65535.min(l), 65536.min(l), l - 1, l]);
            cx.state(&(n, l, at));
            cx.steps(n as u64);
            let (a, b) = split(cx, p, at);
            let (x, y) = if cx.flag("split right") { (b, a) } else { (a, b) };
            let k = x.m.len() / 2;
            let (c, d) = split(cx, x, k);
            for p in [c, d, y] {
                exact(cx, &p, "a piece");
                let (it, m) = (p.it, p.m);
                let g = match cx.catch(|| it.map(|p| p.bits()).collect::<Vec<_>>()) {
                    Ok(g) => g,
                    Err(e) => cx.fail("panic", format!("draining a piece of {}: {e}", m.len())),
                };
                let w: Vec<_> = m.into();
                if g != w {
                    let d = diff(&g, &w);
                    cx.fail("items", format!("{n} points split at {at}: {d}"))
                }
            }
        },
    )]
}

/// a position behind the end must be refused: it must not produce points that do not exist
fn beyond<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 5);
    vec![scenario(
        format!("beyond-{}", P::LABEL),
        format!("0..={nmax} points, 0..2 taken from each end, optionally a half of a split: split at remaining+1, +2, +1000, usize::MAX"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let mut p = open::<N, P>(cx, n, 1, false);
            if cx.flag("half") {
                let at = cx.range("at", 0, n);
                let (a, b) = split(cx, p, at);
                p = if cx.flag("right") { b } else { a };
            }
            for _ in 0..cx.range("front", 0, 2) {
                take(cx, &mut p, false);
            }
            for _ in 0..cx.range("back", 0, 2) {
                take(cx, &mut p, true);
            }
            let left = p.m.len();
            let at = *cx.pick("position", &[left + 1, left + 2, left + 1000, usize::MAX]);
            cx.state(&(n, left, at));
            let it = p.it;
            match cx.catch(|| it.split_at(at)) {
                Err(_) => cx.outcome("refused"),
                Ok((a, b)) => cx.fail("beyond", format!("splitting {left} points at {at} is not refused: halves of {} and {} points", a.len(), b.len())),
            }
        },
    )]
}

/// blank and repeated points count like any other
fn blanks<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    vec![scenario(
        format!("blanks-{}", P::LABEL),
        format!("0..={nmax} points, each ordinary, all zero, all ones, all NaN, all negative zero, or the one before again; split at every position, both halves drained forward, backward or alternating"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let v = classes::<N, P>(cx, n);
            let msg = message_of::<N, P>(&v, 0, false).to_msg();
            let it = match cx.catch(|| It::<N, P>::try_from(msg)) {
                Ok(Ok(it)) => it,
                Ok(Err(e)) => cx.fail("refused", format!("{e:?}")),
                Err(e) => cx.fail("panic", e),
            };
            cx.state(&v);
            let at = cx.range("position", 0, n);
            let (a, b) = split(cx, Piece { it, m: v.into_iter().collect() }, at);
            let how = cx.choose("drain", 3);
            for p in [a, b] {
                exact(cx, &p, "a half");
                drain(cx, p, how);
            }
        },
    )]
}

/// every position of longer clouds, after every amount taken from the ends
fn positions<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![7, 16, 33], vec![7, 16, 33, 64, 65, 130]);
    vec![scenario(
        format!("positions-{}", P::LABEL),
        format!("clouds of {sizes:?} points in 5 arrangements, both byte orders: 0..3 taken from each end, then every split position, then a second split of either half at its quarter, middle or end"),
        move |cx| {
            let n = *cx.pick("points", &sizes);
            let arr = cx.choose("arrangement", ARRANGEMENTS);
            let big = cx.flag("big");
            let mut p = open::<N, P>(cx, n, arr, big);
            for _ in 0..cx.range("front", 0, 3) {
                take(cx, &mut p, false);
            }
            for _ in 0..cx.range("back", 0, 2) {
                take(cx, &mut p, true);
            }
            let l = p.m.len();
            let at = cx.range("position", 0, l);
            let (a, b) = split(cx, p, at);
            exact(cx, &a, "left half");
            exact(cx, &b, "right half");
            let (x, y) = if cx.flag("split right") { (b, a) } else { (a, b) };
            let k = x.m.len();
            let at2 = *cx.pick("second", &[0, k / 4, k / 2, k]);
            let (c, d) = split(cx, x, at2);
            cx.state(&(n, at, at2, key(&[c.m.len(), d.m.len(), y.m.len()].map(|m| Piece { it: (), m: VecDeque::from(vec![[m as u64]]) }))));
            for p in [d, c, y] {
                drain(cx, p, 2);
            }
        },
    )]
}

/// amounts around powers of two, and around the whole
fn boundaries(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..6).collect();
    for b in [8usize, 16, 32, 64, 128, 256, 512, 1024, 4096, 65536] {
        v.extend([b - 1, b, b + 1]);
    }
    v.extend([n / 2, n.saturating_sub(2), n.saturating_sub(1), n]);
    v.sort();
    v.dedup();
    v.retain(|a| *a <= n);
    v
}
/// many points taken before, between and after the splits
fn amounts<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![6, 9, 34, 130, 258, 1030], vec![6, 9, 12, 34, 66, 130, 258, 514, 1030, 4098, 65540]);
    let about = format!(
        "clouds of {sizes:?} points: amounts around every power of two (all from 0 to 5) taken from the front and from the back, one by one or by one jump; a split at the beginning, after 1, 4, half, all but one or at the end; of either half the same amounts up to 5 (and half) taken, and that half split once more; all pieces drained"
    );
    vec![scenario(format!("amounts-{}", P::LABEL), about, move |cx| {
        let n = *cx.pick("points", &sizes);
        let at = boundaries(n);
        let f = *cx.pick("front", &at);
        let left: Vec<usize> = at.into_iter().filter(|b| *b <= n - f && (*b <= 5 || n - f - b <= 5 || n <= 34 || f <= 1 || *b == f)).collect();
        let b = *cx.pick("back", &left);
        let jump = (f > 1 || b > 1) && cx.flag("jump");
        let mut p = open::<N, P>(cx, n, 1, false);
        let many = |cx: &mut Cx, p: &mut Piece<It<N, P>, N>, k: usize, back: bool, jump: bool| {
            if !jump || k < 2 {
                for _ in 0..k {
                    take(cx, p, back);
                }
                return;
            }
            let g = match cx.catch(|| if back { p.it.nth_back(k - 1) } else { p.it.nth(k - 1) }) {
                Ok(g) => g.map(|x| x.bits()),
                Err(e) => cx.fail("panic", format!("nth({}) of a piece of {}: {e}", k - 1, p.m.len())),
            };
            let w = if back {
                p.m.truncate(p.m.len() - (k - 1));
                p.m.pop_back()
            } else {
                p.m.drain(..k - 1);
                p.m.pop_front()
            };
            if g != w {
                cx.fail("item", format!("{n} points, jumping {k} ({}): got {g:x?}, expected {w:x?}", if back { "back" } else { "front" }))
            }
        };
        many(cx, &mut p, f, false, jump);
        many(cx, &mut p, b, true, jump);
        let l = p.m.len();
        let mut pos = vec![0, 1.min(l), 4.min(l), l / 2, l.saturating_sub(1), l];
        pos.sort();
        pos.dedup();
        let at = *cx.pick("position", &pos);
        cx.state(&(n, f, b, at));
        cx.steps(n as u64);
        let (x, y) = split(cx, p, at);
        exact(cx, &x, "left half");
        exact(cx, &y, "right half");
        let (mut x, y) = if cx.flag("right") { (y, x) } else { (x, y) };
        let l = x.m.len();
        let mut taken = vec![0, 1, 2, 4, 5, l / 2];
        taken.sort();
        taken.dedup();
        taken.retain(|k| *k <= l);
        let k = *cx.pick("again", &taken);
        let back = k > 0 && cx.flag("again from the back");
        many(cx, &mut x, k, back, jump);
        let at2 = x.m.len().div_ceil(2);
        let (c, d) = split(cx, x, at2);
        for (i, p) in [d, y, c].into_iter().enumerate() {
            exact(cx, &p, "a piece");
            if i == 1 && p.m.len() > 300 {
                let (it, m) = (p.it, p.m);
                let g = match cx.catch(|| it.map(|p| p.bits()).collect::<Vec<_>>()) {
                    Ok(g) => g,
                    Err(e) => cx.fail("panic", format!("draining a piece of {}: {e}", m.len())),
                };
                let w: Vec<_> = m.into();
                if g != w {
                    let d = diff(&g, &w);
                    cx.fail("items", format!("{n} points, {f} and {b} taken, split at {at}: {d}"))
                }
            } else {
                drain(cx, p, 2);
            }
        }
    })]
}

/// deep trees: a piece is peeled off one end again and again
fn peel<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![20, 70, 300], vec![20, 70, 300, 1100, 5000]);
    vec![scenario(
        format!("peel-{}", P::LABEL),
        format!("clouds of {sizes:?} points: pieces of 0, 1, 2 or 7 points split off the left, the right or either end in turns until nothing is left, 0 or 1 points of the rest taken in between; every piece drained at the end or at once"),
        move |cx| {
            let n = *cx.pick("points", &sizes);
            let (k, empties) = *cx.pick("piece", &[(1usize, false), (2, false), (7, false), (2, true)]);
            let side = cx.choose("side", 3);
            let between = cx.flag("take between");
            let at_once = cx.flag("at once");
            let mut rest = open::<N, P>(cx, n, 0, false);
            let mut done = vec![];
            cx.state(&(n, k, side, between));
            cx.steps(n as u64);
            let mut turn = 0;
            while !rest.m.is_empty() {
                let l = rest.m.len();
                let size = if empties && turn % 3 == 0 { 0 } else { k.min(l) };
                let right = side == 1 || side == 2 && turn % 2 == 1;
                let (a, b) = split(cx, rest, if right { l - size } else { size });
                let (piece, r) = if right { (b, a) } else { (a, b) };
                exact(cx, &piece, "a piece");
                exact(cx, &r, "the rest");
                rest = r;
                if at_once {
                    drain(cx, piece, turn % 3);
                } else {
                    done.push(piece);
                }
                if between {
                    take(cx, &mut rest, turn % 4 < 2);
                }
                turn += 1;
            }
            drain(cx, rest, 0);
            for (i, p) in done.into_iter().rev().enumerate() {
                drain(cx, p, i % 3);
            }
        },
    )]
}

// ---- the parallel producer

struct Explore<'a, const N: usize> {
    cx: &'a mut Cx,
    want: Vec<[u64; N]>,
    depth: usize,
}
impl<const N: usize, P: Pt<N>> ProducerCallback<P> for Explore<'_, N> {
    type Output = ();
    fn callback<Pr: Producer<Item = P>>(self, producer: Pr) {
        let n = self.want.len();
        let mut ps: Vec<(Pr, Vec<[u64; N]>)> = vec![(producer, self.want)];
        for _ in 0..self.depth {
            let mut acts = vec![(usize::MAX, 0)];
            for (i, p) in ps.iter().enumerate() {
                for k in 0..=p.1.len() {
                    acts.push((i, k));
                }
            }
            let (i, k) = acts[self.cx.choose("split", acts.len())];
            if i == usize::MAX {
                break;
            }
            let (pr, mut m) = ps.remove(i);
            let r = m.split_off(k);
            match self.cx.catch(|| pr.split_at(k)) {
                Ok((a, b)) => {
                    ps.insert(i, (b, r));
                    ps.insert(i, (a, m));
                }
                Err(e) => self.cx.fail("panic", format!("splitting the producer of {n} points at {k}: {e}")),
            }
            self.cx.state(&ps.iter().map(|p| p.1.clone()).collect::<Vec<_>>());
        }
        self.cx.outcome(format!("{} producers", ps.len()));
        let how = self.cx.choose("drain", 3);
        if self.cx.flag("reverse order") {
            ps.reverse();
        }
        for (pr, m) in ps {
            let it = match self.cx.catch(|| pr.into_iter()) {
                Ok(it) => it,
                Err(e) => self.cx.fail("panic", format!("into_iter of a piece of {}: {e}", m.len())),
            };
            let p = Piece { it, m: m.into() };
            exact(self.cx, &p, "producer");
            drain(self.cx, p, how);
        }
    }
}

fn producer<const N: usize, P: Pt<N>>(tier: Tier, nmax: usize, depth: usize) -> Vec<Scenario> {
    let _ = tier;
    vec![scenario(
        format!("producer-{}", P::LABEL),
        format!("parallel producer of 0..={nmax} points (after 0..2 taken from each end): every tree of up to {depth} splits, drained forward, backward or alternating, in both orders"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let mut p = open::<N, P>(cx, n, 0, false);
            for _ in 0..cx.range("front", 0, 1) {
                take(cx, &mut p, false);
            }
            for _ in 0..cx.range("back", 0, 1) {
                take(cx, &mut p, true);
            }
            let want: Vec<_> = p.m.into_iter().collect();
            let it = p.it;
            rayon::iter::IndexedParallelIterator::with_producer(it, Explore { cx, want, depth });
        },
    )]
}

/// producers of a cloud of which many points have been taken, split on
struct Halves<'a, const N: usize> {
    cx: &'a mut Cx,
    want: Vec<[u64; N]>,
}
impl<const N: usize, P: Pt<N>> ProducerCallback<P> for Halves<'_, N> {
    type Output = ();
    fn callback<Pr: Producer<Item = P>>(self, producer: Pr) {
        fn go<const N: usize, P: Pt<N>, Pr: Producer<Item = P>>(cx: &mut Cx, pr: Pr, mut m: Vec<[u64; N]>, leaf: usize, uneven: bool) {
            let n = m.len();
            if n <= leaf {
                let it = match cx.catch(|| pr.into_iter()) {
                    Ok(it) => it,
                    Err(e) => cx.fail("panic", format!("into_iter of a piece of {n}: {e}")),
                };
                let p = Piece { it, m: m.into() };
                exact(cx, &p, "producer");
                return drain(cx, p, n % 3);
            }
            let k = if uneven { n.min(3) } else { n / 2 };
            let r = m.split_off(k);
            match cx.catch(|| pr.split_at(k)) {
                Ok((a, b)) => {
                    go(cx, b, r, leaf, uneven);
                    go(cx, a, m, leaf, uneven);
                }
                Err(e) => cx.fail("panic", format!("splitting a producer of {n} points at {k}: {e}")),
            }
        }
        let leaf = *self.cx.pick("leaf", &[1usize, 4, 30]);
        let uneven = self.want.len() <= 300 && leaf > 3 && self.cx.flag("uneven");
        go(self.cx, producer, self.want, leaf, uneven);
    }
}
fn producer_amounts<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: Vec<usize> = tier.pick(vec![9, 34, 258], vec![9, 34, 66, 130, 258, 1030]);
    vec![scenario(
        format!("producer-amounts-{}", P::LABEL),
        format!("parallel producer of {sizes:?} points after amounts around every power of two taken from the front and the back (one by one): split in halves, or three points at a time, down to pieces of at most 1, 4 or 30 points"),
        move |cx| {
            let n = *cx.pick("points", &sizes);
            let at = boundaries(n);
            let f = *cx.pick("front", &at);
            let left: Vec<usize> = at.into_iter().filter(|b| *b <= n - f).collect();
            let b = *cx.pick("back", &left);
            let mut p = open::<N, P>(cx, n, 0, false);
            for _ in 0..f {
                take(cx, &mut p, false);
            }
            for _ in 0..b {
                take(cx, &mut p, true);
            }
            cx.state(&(n, f, b));
            cx.steps(n as u64);
            let want: Vec<_> = p.m.into_iter().collect();
            let it = p.it;
            rayon::iter::IndexedParallelIterator::with_producer(it, Halves { cx, want });
        },
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    v.extend(trees::<1, C1>(tier, tier.pick(4, 5), tier.pick(4, 5)));
    v.extend(trees::<3, PointXYZ>(tier, tier.pick(4, 5), tier.pick(3, 4)));
    v.extend(trees::<5, CMix>(tier, tier.pick(3, 4), tier.pick(4, 4)));
    v.extend(trees::<1, C1>(tier, tier.pick(7, 12), tier.pick(3, 3)));
    v.extend(producer::<1, C1>(tier, tier.pick(4, 5), tier.pick(4, 5)));
    v.extend(producer::<3, PointXYZ>(tier, tier.pick(5, 6), tier.pick(3, 4)));
    v.extend(amounts::<3, PointXYZ>(tier));
    v.extend(amounts::<5, CMix>(tier));
    v.extend(peel::<1, C1>(tier));
    v.extend(peel::<3, PointXYZ>(tier));
    v.extend(peel::<5, CMix>(tier));
    v.extend(producer_amounts::<3, PointXYZ>(tier));
    v.extend(producer_amounts::<5, CMix>(tier));
    v.extend(large::<3, PointXYZ>(tier));
    v.extend(large::<5, CMix>(tier));
    v.extend(all_points!(beyond, tier));
    v.extend(all_points!(positions, tier));
    v.extend(all_points!(blanks, tier));
    v
}
fn main() {
    run("C08", scenarios)
}
