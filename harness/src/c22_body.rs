// Included by bin/c22.rs, once for each size of the point whose life is followed.
use harness::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::{LayoutDescription, LayoutField, MsgConversionError, PointCloud2Msg, PointConvertible, RPCL2Point};
use std::cell::RefCell;
use std::collections::VecDeque;

// ---------------------------------------------------------------- what user code observes

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ev {
    Layout,
    Default,
    Take(u32),
    End,
    ToMsg(u32),
    FromMsg(u32),
    Use(u32),
}
#[derive(Default)]
struct World {
    log: Vec<Ev>,
    calls: usize,
    panic_at: usize,
    panicked: bool,
    tokens: Vec<u8>, // 1 live, 2 dropped
    bad: Vec<String>,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    guard::off(|| W.with(|w| f(&mut w.borrow_mut())))
}
struct Injected;
/// a call into user code: logged, and one of them panics
fn call(e: Ev) {
    let p = world(|w| {
        w.log.push(e);
        w.calls += 1;
        let p = w.calls == w.panic_at;
        w.panicked |= p;
        p
    });
    if p {
        std::panic::resume_unwind(Box::new(Injected))
    }
}

/// A point whose life is followed: it owns memory, so that a second drop or a late use is visible.
#[repr(C)]
struct T {
    id: u32,
    serial: u32,
    own: Box<u32>,
    _pad: [u64; PAD],
}
const MAGIC: u32 = 0x5EED_0000;
const NONE: u32 = u32::MAX;
impl T {
    fn new(id: u32) -> Self {
        let serial = world(|w| {
            w.tokens.push(1);
            w.tokens.len() as u32 - 1
        });
        T { id, serial, own: Box::new(serial ^ MAGIC), _pad: [0; PAD] }
    }
    fn look(&self, what: &str) {
        let v = *self.own;
        let s = self.serial;
        world(|w| {
            let st = w.tokens.get(s as usize).copied();
            if st != Some(1) || v != s ^ MAGIC {
                w.bad.push(format!("{what}: point {s} is {}", match st { Some(2) => "already dropped", Some(1) => "overwritten", _ => "not a point" }))
            }
        })
    }
}
impl Drop for T {
    fn drop(&mut self) {
        self.look("drop");
        let s = self.serial as usize;
        world(|w| {
            if let Some(t) = w.tokens.get_mut(s) {
                *t = 2
            }
        })
    }
}
impl Default for T {
    fn default() -> Self {
        call(Ev::Default);
        T::new(NONE)
    }
}
impl From<T> for RPCL2Point<1> {
    fn from(t: T) -> Self {
        t.look("conversion");
        call(Ev::ToMsg(t.id));
        [t.id.into()].into()
    }
}
impl From<RPCL2Point<1>> for T {
    fn from(p: RPCL2Point<1>) -> Self {
        let id: u32 = p[0].get();
        call(Ev::FromMsg(id));
        T::new(id)
    }
}
unsafe impl PointConvertible<1> for T {
    fn layout() -> LayoutDescription {
        call(Ev::Layout);
        LayoutDescription::new(&[LayoutField::new("id", "u32", 4), LayoutField::padding(std::mem::size_of::<T>() - 4)])
    }
}

// ---------------------------------------------------------------- one guarded execution

const PLACES: [guard::Placement; 2] = [
    guard::Placement { at_end: true, skew: 0, fill: 0xA5 },
    guard::Placement { at_end: false, skew: 1, fill: 0x5A },
];

struct Run<R> {
    out: Result<R, String>,
    log: Vec<Ev>,
    panicked: bool,
}

/// Run `f` with the given call panicking; whatever happens, every value and all memory must be gone.
fn guarded<R>(cx: &mut Cx, pl: guard::Placement, panic_at: usize, memory: bool, what: &str, f: impl FnOnce() -> R) -> Run<R> {
    W.with(|w| *w.borrow_mut() = World { panic_at, ..World::default() });
    guard::take_bad();
    let live = guard::live();
    let out = guard::with(pl, || match catch(f) {
        Ok(r) => Ok(r),
        Err(e) => Err(guard::off(|| e.clone())),
    });
    let bad = guard::take_bad();
    let now = guard::live();
    let w = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    let at = || format!("{what}, panic at call {panic_at}: log {:?}", w.log);
    if !w.bad.is_empty() {
        cx.fail("lifetime", format!("{}: {}", w.bad[0], at()))
    }
    if bad != 0 {
        cx.fail("memory", format!("{}: {}", if bad & guard::BAD_FREE != 0 { "freed twice" } else { "written outside" }, at()))
    }
    let left = w.tokens.iter().filter(|t| **t == 1).count();
    if left != 0 {
        cx.fail("point-leak", format!("{left} of {} points were never dropped: {}", w.tokens.len(), at()))
    }
    if memory && now != live {
        cx.fail("memory-leak", format!("{} allocations left: {}", now as i64 - live as i64, at()))
    }
    if let (Err(e), false) = (&out, w.panicked) {
        cx.fail("panic", format!("{e}: {}", at()))
    }
    Run { out, log: w.log, panicked: w.panicked }
}

fn ids(n: usize) -> Vec<u32> {
    (0..n as u32).map(|i| 0x0101_0000 + i * 7 + 1).collect()
}

// ---------------------------------------------------------------- writers

struct Source {
    ids: Vec<u32>,
    at: usize,
    hint: usize,
    made: VecDeque<T>,
}
impl Iterator for Source {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at >= self.ids.len() {
            self.at += 1;
            call(Ev::End);
            return None;
        }
        let id = self.ids[self.at];
        self.at += 1;
        call(Ev::Take(id));
        Some(self.made.pop_front().unwrap_or_else(|| T::new(id)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.ids.len().saturating_sub(self.at);
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(0)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

fn writers(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(5, 9);
    vec![scenario(
        "writers",
        format!("3 writers x 0..={nmax} points x sources that make their points on demand or hold them, with exact, open and wrong size hints x a panic at no or any call of user code x 2 placements of memory"),
        move |cx| {
            let w = *cx.pick("writer", &WRITERS);
            let n = cx.range("points", 0, nmax);
            let held = cx.flag("points exist beforehand");
            let hint = if w == Writer::Iter { cx.choose("size hint", 4) } else { 0 };
            let panic_at = cx.choose("panic at call", 2 * n + 11);
            let pl = *cx.pick("placement", &PLACES);
            let want = ids(n);
            let what = format!("{w:?} of {n} points");
            let src = want.clone();
            let r = guarded(cx, pl, panic_at, w != Writer::Par, &what, || {
                let src = guard::off(|| src.clone());
                let made = if held || w != Writer::Iter { src.iter().map(|i| T::new(*i)).collect() } else { VecDeque::new() };
                let m = match w {
                    Writer::Iter => PointCloud2Msg::try_from_iter::<1, T>(Source { ids: src, at: 0, hint, made }),
                    Writer::Vec => PointCloud2Msg::try_from_vec::<1, T>(made.into()),
                    Writer::Par => {
                        let v: Vec<T> = made.into();
                        PointCloud2Msg::try_from_par_iter::<1, T>(v.into_par_iter().map(|t| {
                            call(Ev::Take(t.id));
                            t
                        }))
                    }
                };
                guard::off(|| m.map(|m| MMsg::of_msg(&m)).map_err(|e| format!("{e:?}")))
            });
            cx.state(&r.log);
            // each item taken once and in order, the end seen once
            let took: Vec<u32> = r.log.iter().filter_map(|e| if let Ev::Take(i) = e { Some(*i) } else { None }).collect();
            let conv: Vec<u32> = r.log.iter().filter_map(|e| match e { Ev::ToMsg(i) if *i != NONE => Some(*i), _ => None }).collect();
            let ends = r.log.iter().filter(|e| **e == Ev::End).count();
            if w == Writer::Par {
                // which parts a parallel source has produced when it panics is up to the schedule
                once(cx, &took, &want, &what);
            } else if !want.starts_with(&took) {
                cx.fail("source-order", format!("{what}: items taken {took:x?}"))
            }
            if ends > 1 {
                cx.fail("source-after-end", format!("{what}: the source was asked again after its end"))
            }
            if !want.starts_with(&conv) {
                cx.fail("conversions", format!("{what}: points converted {conv:x?}"))
            }
            let made_back = r.log.iter().any(|e| matches!(e, Ev::FromMsg(_)));
            if made_back {
                cx.fail("conversions", format!("{what}: points were built while writing"))
            }
            if r.panicked {
                if let Ok(Ok(m)) = &r.out {
                    cx.fail("panic-swallowed", format!("{what}: a message in spite of the panic: {}", m.brief()))
                }
                cx.outcome(format!("{w:?} panics"));
                return;
            }
            if w != Writer::Vec && took.len() != n || w == Writer::Iter && conv.len() != n {
                cx.fail("conversions", format!("{what}: {} taken, {} converted", took.len(), conv.len()))
            }
            match r.out {
                Ok(Ok(m)) => {
                    let s = m.step as usize;
                    let got: Vec<u32> = (0..n).filter_map(|i| m.data.get(i * s..i * s + 4)).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
                    if got != want || m.width as usize != n {
                        cx.fail("message", format!("{what}: {}", m.brief()))
                    }
                }
                x => cx.fail("refused", format!("{what}: {x:?}")),
            }
            cx.outcome(format!("{w:?} writes"));
        },
    )]
}

// ---------------------------------------------------------------- readers

/// Messages of `n` points whose layout differs from the one in memory, so that every reader converts.
fn source_message(kind: usize, n: usize) -> MMsg {
    let (off, step, big) = [(0, 4, false), (4, 12, false), (0, 16, true), (3, 7, true)][kind];
    let f = vec![
        MField { name: "pad".into(), off: 0, dt: U8, count: 1 },
        MField { name: "id".into(), off, dt: U32, count: 1 },
    ];
    let mut m = message(f, step, n as u32, 1, big);
    for (i, v) in ids(n).iter().enumerate() {
        m.put(i * step + off as usize, *v as u64, 4);
    }
    m
}
const KINDS: usize = 4;
const DIRECT: &str = "direct copy";
type It = PointCloudIterator<1, T>;

fn built(log: &[Ev]) -> Vec<u32> {
    log.iter().filter_map(|e| if let Ev::FromMsg(i) = e { Some(*i) } else { None }).collect()
}
fn used(log: &[Ev]) -> Vec<u32> {
    log.iter().filter_map(|e| if let Ev::Use(i) = e { Some(*i) } else { None }).collect()
}
fn once(cx: &mut Cx, v: &[u32], all: &[u32], what: &str) {
    for (k, i) in v.iter().enumerate() {
        if !all.contains(i) || v[..k].contains(i) {
            cx.fail("built", format!("{what}: points built {v:x?}"))
        }
    }
}

/// step by step: points are built when asked for, and a panic in one leaves the iterator usable
fn stepping(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    let depth = tier.pick(4, 5);
    vec![scenario(
        "stepping",
        format!("0..={nmax} points, every sequence of {depth} of: next, next_back, nth(1), len and hint, split at any position (both parts go on), dropping a part; points kept or dropped at once; a panic at no or any call of user code, after which the parts are used on"),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let kind = cx.choose("message", 2);
            let keep = cx.flag("keep the points");
            let panic_at = cx.choose("panic at call", n + 5);
            let m = source_message(kind * 2 + 1, n);
            let want = ids(n);
            let what = format!("stepping through {n} points");
            // the closure needs the explorer for its choices; failures inside are collected
            let mut err: Option<(&'static str, String)> = None;
            let mut log = vec![];
            let pl = PLACES[0];
            let cxp: *mut Cx = cx;
            let r = guarded(cx, pl, panic_at, true, &what, || {
                let cx = unsafe { &mut *cxp };
                let err = &mut err;
                let log = &mut log;
                let msg = m.to_msg();
                let it = match It::try_from(msg) {
                    Ok(it) => it,
                    Err(e) => {
                        *err = Some(("refused", format!("{e:?}")));
                        return;
                    }
                };
                if world(|w| !built(&w.log).is_empty()) {
                    *err = Some(("too-early", "points were built before they were asked for".into()));
                }
                let mut kept: Vec<T> = vec![];
                let mut parts: Vec<(Option<It>, Vec<u32>)> = vec![(Some(it), want.clone())];
                let mut seen: Vec<u32> = guard::off(Vec::new);
                for _ in 0..depth {
                    let mut acts = guard::off(Vec::new);
                    guard::off(|| {
                        acts.push((0, usize::MAX));
                        for (i, (p, m)) in parts.iter().enumerate() {
                            if p.is_some() {
                                acts.extend((0..5).map(|a| (i, a)));
                                acts.extend((0..=m.len()).map(|k| (i, 5 + k)));
                            }
                        }
                    });
                    let (i, a) = acts[guard::off(|| cx.choose("action", acts.len()))];
                    guard::off(|| drop(acts));
                    if a == usize::MAX {
                        break;
                    }
                    guard::off(|| log.push((i, a)));
                    let before = world(|w| built(&w.log).len());
                    let broken = world(|w| w.panicked);
                    if a == 4 {
                        parts[i].0 = None;
                        continue;
                    }
                    if a == 3 {
                        let p = parts[i].0.as_ref().unwrap();
                        let (l, h) = (ExactSizeIterator::len(p), p.size_hint());
                        let k = parts[i].1.len();
                        if !broken && (l != k || h != (k, Some(k))) {
                            *err = Some(("len", format!("len {l}, hint {h:?}, {k} left")));
                            return;
                        }
                        continue;
                    }
                    if a >= 5 {
                        let p = parts[i].0.take().unwrap();
                        let at = a - 5;
                        if broken && at > ExactSizeIterator::len(&p) {
                            continue;
                        }
                        let (x, y) = p.split_at(at);
                        let mut m = std::mem::take(&mut parts[i].1);
                        let right = m.split_off(at);
                        parts[i] = (Some(x), m);
                        parts.push((Some(y), right));
                        if world(|w| built(&w.log).len()) != before {
                            *err = Some(("too-early", "points were built by a split".into()));
                            return;
                        }
                        continue;
                    }
                    let p = parts[i].0.as_mut().unwrap();
                    let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match a {
                        0 => p.next(),
                        1 => p.next_back(),
                        _ => p.nth(1),
                    }));
                    let panics = g.is_err();
                    let g = g.unwrap_or(None);
                    let m = &mut parts[i].1;
                    let (exp, cost) = match a {
                        0 => (if m.is_empty() { None } else { Some(m.remove(0)) }, 1),
                        1 => (m.pop(), 1),
                        _ => {
                            let k = m.len().min(2);
                            let mut d: Vec<u32> = m.drain(..k).collect();
                            (if k == 2 { d.pop() } else { None }, k)
                        }
                    };
                    let now = world(|w| built(&w.log).len()) - before;
                    if let Some(t) = &g {
                        t.look("yielded");
                        let id = t.id;
                        if seen.contains(&id) || !want.contains(&id) {
                            *err = Some(("yield", format!("{id:x} after {seen:x?}")));
                            return;
                        }
                        guard::off(|| seen.push(id));
                    }
                    if !broken && !panics {
                        let id = g.as_ref().map(|t| t.id);
                        if id != exp {
                            *err = Some(("yield", format!("{id:x?}, expected {exp:x?}")));
                            return;
                        }
                        if now > cost || exp.is_some() && now == 0 {
                            *err = Some(("too-early", format!("{now} points were built for one request of {cost}")));
                            return;
                        }
                    }
                    if keep {
                        kept.extend(g)
                    }
                }
                for t in &kept {
                    t.look("kept");
                }
            });
            if let Some((s, e)) = err {
                cx.fail(s, format!("{what}, panic at {panic_at}, actions (part, 0 next 1 back 2 nth 3 len 4 drop 5+k split) {log:?}: {e}"))
            }
            if !r.panicked {
                once(cx, &built(&r.log), &want, &what);
            }
            cx.state(&(&r.log, &log));
            cx.outcome(if r.panicked { "panics" } else { "steps" });
        },
    )]
}

/// consumed as a whole by adaptors and consumers, which may panic too
fn whole(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(5, 9);
    const HOW: [&str; 14] = ["collect", "for_each", "fold", "rev", "skip 1 step_by 2", "take 2", "zip", "last", "count", "find", "try_for_each", "chain", "peekable", "drop"];
    vec![scenario(
        "whole",
        format!("0..={nmax} points x iterator, exported iterator, vector and parallel reader x {} ways of consuming x a panic at no or any call of user code, the consumer included", HOW.len()),
        move |cx| {
            let n = cx.range("points", 0, nmax);
            let r = *cx.pick("reader", &[Reader::Iter, Reader::Pub, Reader::Vec, Reader::Par]);
            let kind = cx.choose("message", KINDS);
            let how = cx.choose("how", HOW.len());
            let panic_at = cx.choose("panic at call", 2 * n + 9);
            let pl = *cx.pick("placement", &PLACES);
            let m = source_message(kind, n);
            let want = ids(n);
            let what = format!("{r:?} of {n} points, {}", HOW[how]);
            fn eat(t: T) -> u32 {
                t.look("consumed");
                call(Ev::Use(t.id));
                t.id
            }
            // what is consumed, or None if this way does not exist for this reader
            fn drive(it: impl Iterator<Item = T>, how: usize, second: Option<It>) -> Option<Vec<u32>> {
                let mut out = guard::off(|| Vec::with_capacity(64));
                match how {
                    0 => {
                        let v: Vec<T> = it.collect();
                        out.extend(v.into_iter().map(eat))
                    }
                    1 => it.for_each(|t| out.push(eat(t))),
                    2 => {
                        it.fold((), |_, t| out.push(eat(t)));
                    }
                    4 => it.skip(1).step_by(2).for_each(|t| out.push(eat(t))),
                    5 => it.take(2).for_each(|t| out.push(eat(t))),
                    6 => it.zip(second?).for_each(|(a, b)| {
                        if a.id != b.id {
                            world(|w| w.bad.push("zipped points differ".into()))
                        }
                        drop(b);
                        out.push(eat(a))
                    }),
                    7 => out.extend(it.last().map(eat)),
                    8 => {
                        let n = it.count();
                        out.push(n as u32)
                    }
                    9 => {
                        let mut it = it;
                        out.extend(it.find(|t| t.id & 8 == 0).map(eat))
                    }
                    10 => {
                        let mut it = it;
                        let _ = it.try_for_each(|t| {
                            out.push(eat(t));
                            if out.len() == 2 {
                                Err(())
                            } else {
                                Ok(())
                            }
                        });
                    }
                    11 => it.chain(second?).for_each(|t| out.push(eat(t))),
                    12 => {
                        let mut it = it.peekable();
                        while it.peek().is_some() {
                            out.push(eat(it.next().unwrap()))
                        }
                    }
                    13 => drop(it),
                    _ => return None,
                }
                Some(out)
            }
            // an Iter reader has no second end
            let run = guarded(cx, pl, panic_at, r != Reader::Par, &what, || -> Result<Option<Vec<u32>>, MsgConversionError> {
                let msg = m.to_msg();
                let second = if how == 6 || how == 11 { Some(It::try_from(msg.clone())?) } else { None };
                Ok(match r {
                    Reader::Iter => drive(msg.try_into_iter::<1, T>()?, how, second),
                    Reader::Pub if how == 3 => drive(Iterator::rev(It::try_from(msg)?), 1, None),
                    Reader::Pub => drive(It::try_from(msg)?, how, second),
                    Reader::Vec if how < 3 => drive(msg.try_into_vec::<1, T>()?.into_iter(), how, None),
                    Reader::Vec => None,
                    Reader::Par => {
                        let it = msg.try_into_par_iter::<1, T>()?;
                        let mut out = guard::off(|| Vec::with_capacity(64));
                        let q = std::sync::Mutex::new(&mut out);
                        match how {
                            0 => {
                                let v: Vec<T> = it.collect();
                                q.lock().unwrap().extend(v.into_iter().map(eat))
                            }
                            1 => it.for_each(|t| {
                                let x = eat(t);
                                q.lock().unwrap().push(x)
                            }),
                            2 => it.fold(|| (), |_, t| { let x = eat(t); q.lock().unwrap().push(x) }).for_each(|_| ()),
                            8 => {
                                let n = it.count();
                                q.lock().unwrap().push(n as u32)
                            }
                            13 => drop(it),
                            _ => return Ok(None),
                        }
                        Some(out)
                    }
                })
            });
            cx.state(&run.log);
            let b = built(&run.log);
            let twice = how == 6 || how == 11;
            for (i, id) in b.iter().enumerate() {
                let k = b[..i].iter().filter(|x| *x == id).count();
                if !want.contains(id) || k > twice as usize {
                    cx.fail("built", format!("{what}: points built {b:x?}"))
                }
            }
            let got = match run.out {
                Ok(Ok(None)) => {
                    cx.outcome("not available");
                    return;
                }
                Ok(Ok(Some(v))) => v,
                Ok(Err(e)) => cx.fail("refused", format!("{what}: {e:?}")),
                Err(_) => {
                    cx.outcome("panics");
                    return;
                }
            };
            if run.panicked {
                cx.fail("panic-swallowed", format!("{what}: {got:x?}"))
            }
            let exp: Vec<u32> = match how {
                3 => want.iter().rev().copied().collect(),
                4 => want.iter().skip(1).step_by(2).copied().collect(),
                5 | 10 => want.iter().take(2).copied().collect(),
                7 => want.last().copied().into_iter().collect(),
                8 => vec![n as u32],
                9 => want.iter().find(|t| **t & 8 == 0).copied().into_iter().collect(),
                11 => want.iter().chain(&want).copied().collect(),
                13 => vec![],
                _ => want.clone(),
            };
            if got != exp {
                cx.fail("consumed", format!("{what}: {got:x?}, expected {exp:x?}"))
            }
            let lazy = match how {
                5 | 10 => 2.min(n),
                13 => 0,
                9 => want.iter().position(|t| *t & 8 == 0).map(|i| i + 1).unwrap_or(n),
                _ => usize::MAX,
            };
            if r != Reader::Vec && b.len() > lazy {
                cx.fail("too-early", format!("{what}: {} points were built, {lazy} were asked for", b.len()))
            }
            let u = used(&run.log);
            if how != 8 && u != got {
                cx.fail("consumed", format!("{what}: used {u:x?}"))
            }
            cx.outcome("consumed");
        },
    )]
}

/// parts of a parallel run: every way of splitting, every order of the parts, partially consumed ones
fn parallel(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(4, 5);
    struct Cb<'a> {
        cx: *mut Cx,
        out: &'a mut Vec<u32>,
        depth: usize,
    }
    impl ProducerCallback<T> for Cb<'_> {
        type Output = ();
        fn callback<P: Producer<Item = T>>(self, p: P) {
            let cx = unsafe { &mut *self.cx };
            let mut parts = vec![(p, usize::MAX)];
            // lengths are not known to a producer's user; the driver tracks them
            parts[0].1 = LEN.with(|l| l.get());
            for _ in 0..self.depth {
                let mut acts = guard::off(Vec::new);
                guard::off(|| {
                    acts.push((0, usize::MAX));
                    for (i, p) in parts.iter().enumerate() {
                        acts.extend((0..=p.1).map(|k| (i, k)));
                    }
                });
                let (i, k) = acts[guard::off(|| cx.choose("split", acts.len()))];
                guard::off(|| drop(acts));
                if k == usize::MAX {
                    break;
                }
                let (p, n) = parts.remove(i);
                let (a, b) = p.split_at(k);
                parts.insert(i, (b, n - k));
                parts.insert(i, (a, k));
            }
            if guard::off(|| cx.flag("last part first")) {
                parts.reverse();
            }
            for (p, n) in parts {
                let stop = if n > 0 { guard::off(|| cx.choose("stop early", 2)) } else { 0 };
                let back = guard::off(|| cx.choose("from the back", 2)) == 1;
                let mut it = p.into_iter();
                for k in 0..n + 1 {
                    if stop == 1 && k == 1 {
                        break;
                    }
                    let t = if back { it.next_back() } else { it.next() };
                    if let Some(t) = t {
                        t.look("consumed");
                        call(Ev::Use(t.id));
                        guard::off(|| self.out.push(t.id));
                    }
                }
            }
        }
    }
    thread_local! {
        static LEN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    let depth = tier.pick(2, 3);
    vec![
        scenario(
            "parts",
            format!("0..={nmax} points, the producer split up to {depth} times at any position, parts consumed in either order, from either end, completely or partially; a panic at no or any call of user code"),
            move |cx| {
                let n = cx.range("points", 0, nmax);
                let panic_at = cx.choose("panic at call", 2 * n + 4);
                let m = source_message(1, n);
                let want = ids(n);
                let mut out = vec![];
                LEN.with(|l| l.set(n));
                let cxp: *mut Cx = cx;
                let what = format!("parts of {n} points");
                let run = guarded(cx, PLACES[0], panic_at, true, &what, || {
                    let it = It::try_from(m.to_msg()).map_err(|e| guard::off(|| format!("{e:?}")))?;
                    it.with_producer(Cb { cx: cxp, out: &mut out, depth });
                    Ok::<(), String>(())
                });
                cx.state(&run.log);
                let b = built(&run.log);
                once(cx, &b, &want, &what);
                once(cx, &out, &want, &what);
                if run.panicked {
                    cx.outcome("panics");
                    return;
                }
                if let Ok(Err(e)) = run.out {
                    cx.fail("refused", e)
                }
                if b != out {
                    cx.fail("too-early", format!("{what}: built {b:x?}, consumed {out:x?}"))
                }
                cx.outcome("consumed");
            },
        ),
        scenario(
            "runs",
            format!("rayon on the calling thread, parts of at most 1, 2 or any number of points, 0..={} points, 7 consumers; a panic at no or any call of user code", nmax + 3),
            move |cx| {
                let n = cx.range("points", 0, nmax + 3);
                let max = *cx.pick("part", &[usize::MAX, 2, 1]);
                let how = cx.choose("how", 7);
                let panic_at = cx.choose("panic at call", 2 * n + 5);
                let m = source_message(1, n);
                let want = ids(n);
                let what = format!("parallel run {how} of {n} points");
                let run = guarded(cx, PLACES[0], panic_at, false, &what, || {
                    let it = It::try_from(m.to_msg()).map_err(|e| guard::off(|| format!("{e:?}")))?.with_max_len(max);
                    let eat = |t: T| {
                        t.look("consumed");
                        call(Ev::Use(t.id));
                        t.id
                    };
                    Ok::<Vec<u32>, String>(match how {
                        0 => {
                            let v: Vec<T> = it.collect();
                            v.into_iter().map(eat).collect()
                        }
                        1 => it.map(eat).collect(),
                        2 => {
                            let v = std::sync::Mutex::new(vec![]);
                            it.for_each(|t| v.lock().unwrap().push(eat(t)));
                            let mut v = v.into_inner().unwrap();
                            v.sort_unstable();
                            v
                        }
                        3 => {
                            let mut v: Vec<u32> = it.rev().map(eat).collect();
                            v.reverse();
                            v
                        }
                        4 => it.fold(Vec::new, |mut v, t| { v.push(eat(t)); v }).reduce(Vec::new, |mut a, b| { a.extend(b); a }),
                        5 => it.enumerate().map(|(i, t)| if t.id == ids(i + 1)[i] { eat(t) } else { 0 }).collect(),
                        _ => {
                            let v: Vec<T> = it.chunks(2).flat_map_iter(|c| c).collect();
                            v.into_iter().map(eat).collect()
                        }
                    })
                });
                cx.state(&run.log);
                once(cx, &built(&run.log), &want, &what);
                match run.out {
                    _ if run.panicked => cx.outcome("panics"),
                    Ok(Ok(v)) if v == want => cx.outcome("consumed"),
                    x => cx.fail("consumed", format!("{what}: {x:x?}, expected {want:x?}")),
                }
            },
        ),
    ]
}

/// points that the vector reader copies directly: no user code beyond what describes the type
fn direct(_: Tier) -> Vec<Scenario> {
    #[derive(Clone, Copy)]
    #[repr(C)]
    struct Plain {
        id: u32,
    }
    impl Default for Plain {
        fn default() -> Self {
            call(Ev::Default);
            Plain { id: NONE }
        }
    }
    impl From<Plain> for RPCL2Point<1> {
        fn from(t: Plain) -> Self {
            call(Ev::ToMsg(t.id));
            [t.id.into()].into()
        }
    }
    impl From<RPCL2Point<1>> for Plain {
        fn from(p: RPCL2Point<1>) -> Self {
            let id = p[0].get();
            call(Ev::FromMsg(id));
            Plain { id }
        }
    }
    unsafe impl PointConvertible<1> for Plain {
        fn layout() -> LayoutDescription {
            call(Ev::Layout);
            LayoutDescription::new(&[LayoutField::new("id", "u32", 4)])
        }
    }
    vec![scenario(DIRECT, "0..=6 plain points, tightly packed, spaced and big endian messages; at most one conversion per point; a panic at no or any call", |cx| {
        let n = cx.range("points", 0, 6);
        let kind = cx.choose("message", 3);
        let panic_at = cx.choose("panic at call", n + 6);
        let pl = *cx.pick("placement", &PLACES);
        let (step, big) = [(4, false), (9, false), (4, true)][kind];
        let mut m = message(vec![MField { name: "id".into(), off: 0, dt: U32, count: 1 }], step, n as u32, 1, big);
        let want = ids(n);
        for (i, v) in want.iter().enumerate() {
            m.put(i * step, *v as u64, 4);
        }
        let what = format!("{DIRECT} of {n} points");
        let run = guarded(cx, pl, panic_at, true, &what, || {
            let v = m.to_msg().try_into_vec::<1, Plain>();
            guard::off(|| v.as_ref().map(|v| v.iter().map(|p| p.id).collect::<Vec<_>>()).map_err(|e| format!("{e:?}")))
        });
        cx.state(&run.log);
        once(cx, &built(&run.log), &want, &what);
        match run.out {
            _ if run.panicked => cx.outcome("panics"),
            Ok(Ok(v)) if v == want => cx.outcome("read"),
            x => cx.fail("read", format!("{what}: {x:x?}")),
        }
    })]
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = writers(tier);
    v.extend(stepping(tier));
    v.extend(whole(tier));
    v.extend(parallel(tier));
    v.extend(direct(tier));
    v
}
