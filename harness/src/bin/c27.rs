//! C27: conversions do not influence each other, whatever came before, is under way or failed.
use harness::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::ros::*;
use ros_pointcloud2::*;
use std::cell::{Cell, RefCell};
use std::sync::{Mutex, OnceLock};

// ---------------------------------------------------------------- a point whose conversions do more

#[derive(Clone, Copy)]
enum Hook {
    Off,
    /// the given conversion is made within the given call of user code
    Nested(usize, usize),
    /// the given call panics
    Panic(usize),
    /// every call is a scheduling point
    Schedule,
}
thread_local! {
    static HOOK: Cell<Hook> = const { Cell::new(Hook::Off) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static INNER: RefCell<Option<String>> = const { RefCell::new(None) };
}
fn user_code() {
    let k = CALLS.get() + 1;
    CALLS.set(k);
    match HOOK.get() {
        Hook::Off => {}
        Hook::Schedule => sched::point(),
        Hook::Panic(at) if at == k => std::panic::resume_unwind(Box::new("injected")),
        Hook::Nested(at, op) if at == k => {
            let was = HOOK.replace(Hook::Off);
            let r = (ops()[op].run)();
            INNER.with(|i| *i.borrow_mut() = Some(r));
            HOOK.set(was);
            CALLS.set(k);
        }
        _ => {}
    }
}
fn hooked<R>(h: Hook, f: impl FnOnce() -> R) -> (Result<R, String>, usize) {
    CALLS.set(0);
    HOOK.set(h);
    INNER.with(|i| *i.borrow_mut() = None);
    let r = catch(f);
    HOOK.set(Hook::Off);
    (r, CALLS.get())
}

#[derive(Clone, Copy)]
#[repr(transparent)]
struct Nest(CMix);
impl Default for Nest {
    fn default() -> Self {
        user_code();
        Nest(CMix::default())
    }
}
impl From<RPCL2Point<5>> for Nest {
    fn from(p: RPCL2Point<5>) -> Self {
        user_code();
        Nest(p.into())
    }
}
impl From<Nest> for RPCL2Point<5> {
    fn from(p: Nest) -> Self {
        user_code();
        p.0.into()
    }
}
unsafe impl PointConvertible<5> for Nest {
    fn layout() -> LayoutDescription {
        user_code();
        CMix::layout()
    }
}
impl Pt<5> for Nest {
    const LABEL: &'static str = "Nest";
    fn decl() -> [Decl; 5] {
        CMix::decl()
    }
    fn bits(&self) -> [u64; 5] {
        self.0.bits()
    }
    fn of_bits(b: &[u64]) -> Self {
        Nest(CMix::of_bits(b))
    }
}

// ---------------------------------------------------------------- the conversions

struct Op {
    name: String,
    run: Box<dyn Fn() -> String + Send + Sync>,
    /// runs on the calling thread alone and calls user code
    nest: bool,
}

fn brief<const N: usize, P: Pt<N>>(r: Result<Vec<P>, MsgConversionError>) -> String {
    match r {
        Ok(v) => {
            let b = to_bits::<N, P>(&v);
            format!("{} points {:016x} {}", b.len(), hash_of(&b), show(&b[..b.len().min(2)]))
        }
        Err(e) => format!("{e:?} / {e}"),
    }
}
fn brief_msg(r: Result<PointCloud2Msg, MsgConversionError>) -> String {
    match r {
        Ok(m) => {
            let m = without_padding(MMsg::of_msg(&m));
            format!("{} {:016x}", m.brief(), hash_of(&m))
        }
        Err(e) => format!("{e:?} / {e}"),
    }
}

/// messages that are alike in many ways
fn messages<const N: usize, P: Pt<N>>() -> Vec<(String, MMsg)> {
    let mut v = vec![];
    let m = |n: u32, arr: usize, big: bool| {
        let (f, s) = base_arrangement::<N, P>(arr);
        message(f, s, n, 1, big)
    };
    for arr in 0..ARRANGEMENTS {
        v.push((format!("arrangement {arr}"), m(3, arr, false)));
    }
    v.push(("big".into(), m(3, 0, true)));
    v.push(("big 2".into(), m(3, 2, true)));
    v.push(("empty".into(), m(0, 0, false)));
    v.push(("one".into(), m(1, 0, false)));
    v.push(("long".into(), m(40, 0, false)));
    v.push(("long and big".into(), m(40, 0, true)));
    v.push(("one and big in another arrangement".into(), m(1, 3, true)));
    for (k, at) in [3u32, 60, 231].into_iter().enumerate() {
        let (mut f, s) = base_arrangement::<N, P>(0);
        f.iter_mut().for_each(|f| f.off += at);
        v.push((format!("wide {k}"), message(f, s + 300, 3, 1, k == 2)));
    }
    let mut x = m(40, 1, false);
    x.fields.reverse();
    v.push(("long and listed backwards".into(), x));
    let base = m(3, 0, false);
    let mut x = base.clone();
    x.fields.swap(0, N - 1);
    v.push(("listed otherwise".into(), x));
    if N > 1 && dt_size(base.fields[0].dt) == dt_size(base.fields[1].dt) {
        let mut x = base.clone();
        let o = x.fields[0].off;
        x.fields[0].off = x.fields[1].off;
        x.fields[1].off = o;
        v.push(("offsets exchanged".into(), x));
    }
    let mut x = base.clone();
    x.data.iter_mut().for_each(|b| *b ^= 0x11);
    v.push(("other data".into(), x));
    let mut x = base.clone();
    x.fields[N - 1].name.push('_');
    v.push(("missing field".into(), x));
    let mut x = base.clone();
    x.fields[0].dt = 99;
    v.push(("unknown datatype".into(), x));
    let mut x = base.clone();
    x.fields[0].dt = if x.fields[0].dt == I32 { U32 } else { I32 };
    x.fields[0].off = 0;
    v.push(("other datatype".into(), x));
    let mut x = base.clone();
    x.data.pop();
    v.push(("short".into(), x));
    let mut x = base.clone();
    x.fields[N - 1].off = x.step;
    v.push(("outside".into(), x));
    v
}
fn of_type<const N: usize, P: Pt<N>>(v: &mut Vec<Op>, nest: bool) {
    for (name, m) in messages::<N, P>() {
        for r in READERS {
            let m = m.clone();
            v.push(Op {
                name: format!("{} read {r:?} {name}", P::LABEL),
                run: Box::new(move || brief::<N, P>(read::<N, P>(r, m.to_msg()))),
                nest: nest && r != Reader::Par,
            });
        }
    }
    for n in [0usize, 1, 3, 40] {
        for w in WRITERS {
            v.push(Op {
                name: format!("{} write {w:?} {n}", P::LABEL),
                run: Box::new(move || brief_msg(write::<N, P>(w, to_points::<N, P>(&base_points::<N, P>(n))))),
                nest: nest && w != Writer::Par,
            });
        }
    }
}
fn ops() -> &'static Vec<Op> {
    static OPS: OnceLock<Vec<Op>> = OnceLock::new();
    OPS.get_or_init(|| {
        let mut v = vec![];
        of_type::<3, PointXYZ>(&mut v, false);
        of_type::<5, Nest>(&mut v, true);
        of_type::<4, PointXYZRGB>(&mut v, false);
        of_type::<2, CXZ>(&mut v, false);
        let f = |dt: u8, count: u32| PointFieldMsg { name: "v".into(), offset: 0, datatype: dt, count };
        type Build = (&'static str, Vec<PointFieldMsg>, u32, usize);
        let builds: Vec<Build> = vec![
            ("good", vec![f(7, 1)], 4, 8),
            ("wide", vec![f(8, 1), f(1, 1)], 12, 24),
            ("no fields", vec![], 4, 8),
            ("wide, too narrow", vec![f(8, 1), f(1, 1)], 8, 16),
            ("wide, exact", vec![f(8, 1), f(1, 1)], 9, 18),
            ("three", vec![f(4, 1), f(2, 1), f(5, 1)], 7, 14),
            ("three, too narrow", vec![f(4, 1), f(2, 1), f(5, 1)], 6, 12),
            ("count", vec![f(7, 2)], 8, 8),
            ("code", vec![f(0, 1)], 8, 8),
            ("code 200", vec![f(200, 1)], 8, 8),
            ("narrow", vec![f(8, 1)], 4, 8),
            ("length", vec![f(7, 1)], 4, 9),
        ];
        for (name, fields, step, len) in builds {
            let run = move || brief_msg(PointCloud2MsgBuilder::new().fields(fields.clone()).point_step(step).width(2).data(vec![7; len]).build());
            v.push(Op { name: format!("build {name}"), run: Box::new(run), nest: false });
        }
        for w in [0usize, 5, 1 << 40] {
            v.push(Op { name: format!("dimensions {w}"), run: Box::new(move || format!("{:?}", CloudDimensionsBuilder::new_with_width(w).build())), nest: false });
        }
        for s in ["f32", "u8", "rgb", "F32", "nothing"] {
            v.push(Op { name: format!("name {s}"), run: Box::new(move || format!("{:?}", <FieldDatatype as std::str::FromStr>::from_str(s))), nest: false });
        }
        for c in [1u8, 8, 0, 255] {
            v.push(Op { name: format!("code {c}"), run: Box::new(move || format!("{:?}", FieldDatatype::try_from(c))), nest: false });
        }
        v
    })
}

/// What the conversion gives in a process that has made no other.
fn alone(k: usize) -> String {
    static KNOWN: OnceLock<Vec<Mutex<Option<String>>>> = OnceLock::new();
    let mut g = KNOWN.get_or_init(|| (0..ops().len()).map(|_| Mutex::new(None)).collect())[k].lock().unwrap();
    g.get_or_insert_with(|| {
        let out = std::process::Command::new(std::env::current_exe().expect("exe")).env("C27_ALONE", k.to_string()).output().expect("a process of its own");
        String::from_utf8_lossy(&out.stdout).into_owned()
    })
    .clone()
}
fn outcome(k: usize) -> String {
    catch(|| (ops()[k].run)()).unwrap_or_else(|e| format!("panic: {e}"))
}
fn expect(cx: &mut Cx, k: usize, got: &str, what: impl FnOnce() -> String) {
    let want = alone(k);
    if got != want {
        cx.fail("influenced", format!("{}: {} gives {got:?}, by itself {want:?}", what(), ops()[k].name))
    }
}

// ---------------------------------------------------------------- histories

fn pairs() -> Vec<Scenario> {
    vec![scenario("pairs", format!("every conversion of {} after every other, each made twice", ops().len()), |cx| {
        let a = cx.choose("first", ops().len());
        let b = cx.choose("second", ops().len());
        cx.state(&(a, b));
        for k in [a, b, a, b, b] {
            cx.step();
            let g = outcome(k);
            expect(cx, k, &g, || format!("after {} and {}", ops()[a].name, ops()[b].name));
        }
    })]
}
/// a few conversions that are most alike
fn alphabet_of(labels: &[&str]) -> Vec<usize> {
    labels.iter().map(|l| ops().iter().position(|o| o.name == *l).unwrap_or_else(|| panic!("no conversion {l:?}"))).collect()
}
fn histories(tier: Tier) -> Vec<Scenario> {
    let long = alphabet_of(&[
        "PointXYZ read Iter arrangement 0", "PointXYZ read Vec arrangement 0", "PointXYZ read Iter offsets exchanged", "PointXYZ read Vec offsets exchanged", "PointXYZ read Iter big", "PointXYZ read Vec missing field", "PointXYZ write Iter 3", "PointXYZ write Vec 1",
        "PointXYZRGB read Iter arrangement 0", "PointXYZRGB write Vec 3", "CXZ read Iter arrangement 0", "Nest read Vec arrangement 2", "PointXYZ read Iter short", "PointXYZ read Par arrangement 1", "PointXYZ read Iter long", "PointXYZ read Vec empty",
    ]);
    let depth = tier.pick(4, 5);
    let triples: Vec<usize> = (0..ops().len()).step_by(tier.pick(3, 1)).collect();
    let about = format!("every sequence of {depth} conversions from {} that are alike", long.len());
    vec![
        scenario("histories", about, move |cx| {
            let mut h = vec![];
            for _ in 0..depth {
                h.push(*cx.pick("conversion", &long));
            }
            cx.state(&h);
            for &k in &h {
                cx.step();
                let g = outcome(k);
                expect(cx, k, &g, || format!("in {:?}", h.iter().map(|k| &ops()[*k].name).collect::<Vec<_>>()));
            }
        }),
        scenario("triples", format!("every sequence of three of {} conversions", triples.len()), move |cx| {
            let h = [*cx.pick("first", &triples), *cx.pick("second", &triples), *cx.pick("third", &triples)];
            cx.state(&h);
            for k in h {
                cx.step();
                let g = outcome(k);
                expect(cx, k, &g, || format!("in {:?}", h.map(|k| &ops()[k].name)));
            }
        }),
    ]
}
/// the same conversion over and over, then any other
fn repeated(tier: Tier) -> Vec<Scenario> {
    let times: usize = tier.pick(3000, 70_000);
    vec![scenario("repeated", format!("each conversion {times} times in a row"), move |cx| {
        let k = cx.choose("conversion", ops().len());
        cx.state(&k);
        cx.steps(times as u64);
        for i in 0..times {
            let g = outcome(k);
            if g != alone(k) {
                expect(cx, k, &g, || format!("the {}th time", i + 1));
            }
        }
    })]
}
/// a conversion that failed half way through user code, then any other
fn after_panic() -> Vec<Scenario> {
    vec![scenario("after-panic", "every conversion of a type whose user code panics, at every call, in the conversion or in its source, followed by every conversion", |cx| {
        let n: Vec<usize> = (0..ops().len()).filter(|k| ops()[*k].nest).collect();
        let a = *cx.pick("conversion", &n);
        let (r, calls) = hooked(Hook::Off, || (ops()[a].run)());
        let r = r.unwrap_or_else(|e| format!("panic: {e}"));
        expect(cx, a, &r, || "without a panic".into());
        let at = 1 + cx.choose("call", calls.min(24).max(1));
        let b = cx.choose("then", ops().len());
        cx.state(&(a, at, b));
        let (r, _) = hooked(Hook::Panic(at), || (ops()[a].run)());
        if calls > 0 && r.is_ok() {
            cx.fail("panic-lost", format!("{}: the panic of call {at} of {calls} is lost", ops()[a].name))
        }
        for k in [b, a] {
            cx.step();
            let g = outcome(k);
            expect(cx, k, &g, || format!("after {} panicked at call {at}", ops()[a].name));
        }
    })]
}
/// a conversion made by the user code that another one calls
fn nested() -> Vec<Scenario> {
    vec![scenario("nested", "every conversion of a type whose user code makes one of all conversions itself, at every one of its first 24 calls (layout, default, to and from the generic point)", |cx| {
        let n: Vec<usize> = (0..ops().len()).filter(|k| ops()[*k].nest).collect();
        let a = *cx.pick("outer", &n);
        let (_, calls) = hooked(Hook::Off, || (ops()[a].run)());
        if calls == 0 {
            return;
        }
        let at = 1 + cx.choose("call", calls.min(24));
        let b = cx.choose("inner", ops().len());
        cx.state(&(a, at, b));
        let (r, _) = hooked(Hook::Nested(at, b), || (ops()[a].run)());
        cx.steps(2);
        let r = r.unwrap_or_else(|e| format!("panic: {e}"));
        expect(cx, a, &r, || format!("with {} within call {at}", ops()[b].name));
        match INNER.with(|i| i.borrow_mut().take()) {
            Some(g) => expect(cx, b, &g, || format!("within call {at} of {}", ops()[a].name)),
            None => cx.fail("nested", format!("{} within call {at} of {} did not finish", ops()[b].name, ops()[a].name)),
        }
    })]
}

// ---------------------------------------------------------------- at the same time

/// conversions on threads of their own, every interleaving of their calls into user code
fn threads(tier: Tier) -> Vec<Scenario> {
    let labels = [
        "Nest read Iter arrangement 0", "Nest read Iter arrangement 3", "Nest read Vec arrangement 0", "Nest read Iter big", "Nest read Vec big 2", "Nest read Iter listed otherwise", "Nest read Iter missing field", "Nest read Iter other data", "Nest write Iter 3", "Nest write Vec 3", "Nest write Iter 1", "Nest write Iter 0", "Nest read Iter one",
    ];
    let two = alphabet_of(&labels);
    let three = alphabet_of(tier.pick(&["Nest read Iter one", "Nest write Iter 0", "Nest read Vec missing field"], &["Nest read Iter one", "Nest write Iter 0", "Nest read Vec missing field", "Nest read Vec one"]));
    let mut v = vec![];
    for (tasks, of) in [(2usize, two), (3, three)] {
        v.push(scenario(
            format!("threads-{tasks}"),
            format!("{tasks} of {} conversions on threads of their own, every interleaving with scheduling points inside every call of user code", of.len()),
            move |cx| {
                let mut ks = vec![];
                for _ in 0..tasks {
                    let low = ks.last().copied().unwrap_or(0);
                    ks.push(low + cx.choose("conversion", of.len() - low));
                }
                let ks: Vec<usize> = ks.iter().map(|k| of[*k]).collect();
                let jobs: Vec<Box<dyn FnOnce() -> String + Send>> = ks
                    .iter()
                    .map(|&k| {
                        Box::new(move || {
                            let (r, _) = hooked(Hook::Schedule, || (ops()[k].run)());
                            r.unwrap_or_else(|e| format!("panic: {e}"))
                        }) as Box<dyn FnOnce() -> String + Send>
                    })
                    .collect();
                let (res, taken) = sched::run(cx, jobs);
                cx.state(&(&ks, &taken));
                for (i, r) in res.into_iter().enumerate() {
                    let g = r.unwrap_or_else(|e| format!("panic: {e}"));
                    expect(cx, ks[i], &g, || format!("on {tasks} threads ({:?}) in the order {taken:?}", ks.iter().map(|k| &ops()[*k].name).collect::<Vec<_>>()));
                }
            },
        ));
    }
    v
}

/// an iterator of any type, and what it has still to give
trait Open: Send {
    fn take(&mut self, back: bool) -> Option<Vec<u64>>;
    fn left(&self) -> usize;
    fn split(self: Box<Self>, at: usize) -> (Box<dyn Open>, Box<dyn Open>);
}
impl<const N: usize, P: Pt<N>> Open for PointCloudIterator<N, P> {
    fn take(&mut self, back: bool) -> Option<Vec<u64>> {
        if back { self.next_back() } else { self.next() }.map(|p| p.bits().to_vec())
    }
    fn left(&self) -> usize {
        ExactSizeIterator::len(self)
    }
    fn split(self: Box<Self>, at: usize) -> (Box<dyn Open>, Box<dyn Open>) {
        let (a, b) = (*self).split_at(at);
        (Box::new(a), Box::new(b))
    }
}
type Made = (&'static str, Box<dyn Open>, Vec<Vec<u64>>);
fn opened(kind: usize, n: u32) -> Made {
    fn go<const N: usize, P: Pt<N>>(what: &'static str, m: MMsg) -> Made {
        let RefRead::Points(_, Some(w)) = reference::<N, P>(&m) else { panic!("harness") };
        let it = PointCloudIterator::<N, P>::try_from(m.to_msg()).unwrap_or_else(|e| panic!("{what}: {e:?}"));
        (what, Box::new(it), w.iter().map(|p| p.to_vec()).collect())
    }
    fn m<const N: usize, P: Pt<N>>(n: u32, arr: usize, big: bool, twist: u8) -> MMsg {
        let (f, s) = base_arrangement::<N, P>(arr);
        let mut m = message(f, s, n, 1, big);
        m.data.iter_mut().for_each(|b| *b ^= twist);
        m
    }
    match kind {
        0 => go::<3, PointXYZ>("PointXYZ", m::<3, PointXYZ>(n, 0, false, 0)),
        1 => go::<3, PointXYZ>("PointXYZ of other data", m::<3, PointXYZ>(n, 0, false, 0x21)),
        2 => go::<3, PointXYZ>("PointXYZ big", m::<3, PointXYZ>(n, 0, true, 0)),
        3 => go::<3, PointXYZ>("PointXYZ in another arrangement", m::<3, PointXYZ>(n, 3, false, 0)),
        4 => go::<5, CMix>("CMix", m::<5, CMix>(n, 0, false, 0)),
        _ => go::<2, CXZ>("CXZ of the same data", m::<3, PointXYZ>(n, 0, false, 0)),
    }
}
/// several iterators under way, taken from, split and dropped in every order
fn together(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(4, 5);
    let between = alphabet_of(&["PointXYZ read Vec arrangement 0", "PointXYZ write Iter 3", "PointXYZ read Iter short"]);
    let mut v = vec![];
    for elsewhere in [false, true] {
        let between = between.clone();
        let depth = if elsewhere { depth - 1 } else { depth };
        v.push(scenario(
            if elsewhere { "together-moved" } else { "together" },
            format!("two iterators of 2 or 3 points out of 6 kinds (same type, other data, big-endian, other arrangement, other types), every sequence of {depth} actions: take from the front or back of either, split either in the middle, drop it, make another conversion{}; then everything that is left", if elsewhere { "; every action on a thread of its own" } else { "" }),
            move |cx| {
                let n = if elsewhere || tier == Tier::Quick && depth > 4 { 2 } else { cx.range("points", 2, 3) };
                let a = cx.choose("one", 6);
                let b = a + cx.choose("other", 6 - a);
                let mut its = vec![];
                for k in [a, b] {
                    match cx.catch(|| opened(k, n as u32)) {
                        Ok((what, it, w)) => its.push((what, it, std::collections::VecDeque::from(w))),
                        Err(e) => cx.fail("open", e),
                    }
                }
                let mut log = vec![];
                let on = |f: Box<dyn FnOnce() -> Option<Vec<u64>> + Send + '_>| {
                    if elsewhere {
                        std::thread::scope(|s| s.spawn(|| catch(f)).join().expect("thread"))
                    } else {
                        catch(f)
                    }
                };
                for _ in 0..depth {
                    // 0: front, 1: back, 2: split, 3: drop
                    let k = cx.choose("action", 4 * its.len() + 1);
                    let (i, act) = (k / 4, k % 4);
                    log.push((i, act));
                    cx.step();
                    if i == its.len() {
                        let op = between[log.len() % between.len()];
                        let g = outcome(op);
                        expect(cx, op, &g, || format!("with iterators under way, after {log:?}"));
                        continue;
                    }
                    match act {
                        0 | 1 => {
                            let (what, it, w) = &mut its[i];
                            let g = match on(Box::new(|| it.take(act == 1))) {
                                Ok(g) => g,
                                Err(e) => cx.fail("panic", e),
                            };
                            let w = if act == 1 { w.pop_back() } else { w.pop_front() };
                            if g != w {
                                cx.fail("item", format!("{what} ({n} points), actions {log:?}: got {g:x?}, expected {w:x?}"))
                            }
                        }
                        2 => {
                            let (what, it, mut w) = its.remove(i);
                            let at = w.len() / 2;
                            let r = w.split_off(at);
                            match cx.catch(|| it.split(at)) {
                                Ok((a, b)) => {
                                    its.insert(i, (what, b, r));
                                    its.insert(i, (what, a, w));
                                }
                                Err(e) => cx.fail("panic", e),
                            }
                        }
                        _ => {
                            let it = its.remove(i).1;
                            if let Err(e) = on(Box::new(move || { drop(it); None })) {
                                cx.fail("panic", e)
                            }
                        }
                    }
                    for (what, it, w) in &its {
                        if it.left() != w.len() {
                            cx.fail("len", format!("{what} ({n} points), actions {log:?}: {} points left, expected {}", it.left(), w.len()))
                        }
                    }
                }
                cx.state(&(a, b, n, &log));
                for (what, it, w) in its.iter_mut().rev() {
                    while let Some(w) = w.pop_front() {
                        let g = cx.catch(|| it.take(false));
                        if g != Ok(Some(w.clone())) {
                            cx.fail("item", format!("{what} ({n} points), after actions {log:?}: got {g:x?}, expected {w:x?}"))
                        }
                    }
                    if !matches!(it.take(false), None) {
                        cx.fail("end", format!("{what}: does not end"))
                    }
                }
            },
        ));
    }
    v
}

/// iterators that are opened, read in part and dropped, one after the other
fn partial(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(3, 4);
    let mut v = vec![];
    for (n, depth) in [(2usize, depth), (3, depth), (40, tier.pick(2, 3))] {
        let taken: Vec<(usize, usize)> = if n == 40 { vec![(0, 0), (1, 0), (0, 1), (39, 0), (0, 39), (40, 0), (0, 40), (20, 20), (7, 5)] } else { (0..=n).flat_map(|f| (0..=n - f).map(move |b| (f, b))).collect() };
        v.push(scenario(
            format!("partial-{n}"),
            format!("every sequence of {depth} iterators of 6 kinds over {n} points, each opened, taken from at the front and at the back ({} ways) and dropped", taken.len()),
            move |cx| {
                let mut log = vec![];
                for _ in 0..depth {
                    let k = cx.choose("kind", 6);
                    let (f, b) = *cx.pick("taken", &taken);
                    log.push((k, f, b));
                    cx.step();
                    let r = cx.catch(|| {
                        let (what, mut it, w) = opened(k, n as u32);
                        for i in 0..f + b {
                            let (back, w) = if i < f { (false, &w[i]) } else { (true, &w[n - 1 - (i - f)]) };
                            let g = it.take(back);
                            if g.as_ref() != Some(w) {
                                return Err(format!("{what}: item {i} is {g:x?}, expected {w:x?}"));
                            }
                        }
                        Ok(())
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => cx.fail("item", format!("{n} points, (kind, from the front, from the back) {log:?}: {e}")),
                        Err(e) => cx.fail("panic", e),
                    }
                }
                cx.state(&(n, &log));
            },
        ));
    }
    v
}

/// writing from a source that is itself being read, or that makes conversions of its own
fn sources() -> Vec<Scenario> {
    vec![scenario("sources", "3 points written by the iterator writer from a source that makes any conversion before each point, or from an iterator over another message (7 messages, 4 of them read as one type, forward or reversed)", |cx| {
        let n = 3usize;
        if cx.flag("read") {
            let kind = cx.choose("message", 4);
            let rev = cx.flag("reversed");
            let r = cx.catch(|| {
                let (f, s) = base_arrangement::<3, PointXYZ>(kind);
                let m = message(f, s, n as u32, 1, kind == 2);
                let RefRead::Points(_, Some(w)) = reference::<3, PointXYZ>(&m) else { panic!("harness") };
                let it = PointCloudIterator::<3, PointXYZ>::try_from(m.to_msg()).expect("message");
                let (got, mut w) = (if rev { PointCloud2Msg::try_from_iter::<3, _>(it.rev()) } else { PointCloud2Msg::try_from_iter::<3, _>(it) }, w);
                if rev {
                    w.reverse();
                }
                (brief_msg(got), brief_msg(PointCloud2Msg::try_from_iter::<3, PointXYZ>(to_points::<3, PointXYZ>(&w))))
            });
            cx.state(&(kind, rev));
            match r {
                Ok((g, w)) => cx.eq(g, w, "piped"),
                Err(e) => cx.fail("panic", e),
            }
        } else {
            let at = cx.choose("before", n + 1);
            let op = cx.choose("conversion", ops().len());
            cx.state(&(at, op));
            let outer = ops().iter().position(|o| o.name == "PointXYZ write Iter 3").expect("writer");
            let mut inner = None;
            let ps = to_points::<3, PointXYZ>(&base_points::<3, PointXYZ>(n));
            let r = cx.catch(|| {
                let mut i = 0;
                brief_msg(PointCloud2Msg::try_from_iter::<3, PointXYZ>(std::iter::from_fn(|| {
                    if i == at {
                        inner = Some((ops()[op].run)());
                    }
                    i += 1;
                    ps.get(i - 1).copied()
                })))
            });
            let r = r.unwrap_or_else(|e| format!("panic: {e}"));
            expect(cx, outer, &r, || format!("with {} before point {at} of the source", ops()[op].name));
            if let Some(g) = inner {
                expect(cx, op, &g, || format!("before point {at} of a source"));
            }
        }
    })]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = pairs();
    v.extend(histories(tier));
    v.extend(repeated(tier));
    v.extend(after_panic());
    v.extend(nested());
    v.extend(sources());
    v.extend(threads(tier));
    v.extend(together(tier));
    v.extend(partial(tier));
    v
}
fn main() {
    if let Ok(k) = std::env::var("C27_ALONE") {
        rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global().expect("rayon pool");
        std::panic::set_hook(Box::new(|_| {}));
        print!("{}", outcome(k.parse().expect("a number")));
        return;
    }
    run("C27", scenarios)
}
