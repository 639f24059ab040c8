//! C28: point buffers are moved, and the memory a conversion needs is bounded by what it converts.
use harness::*;
use mc::guard;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::*;

/// whatever does not depend on the number of points or bytes: texts, field lists, errors
const FLAT: isize = 16 << 10;
/// per piece of an iterator: its own bookkeeping and field names
const PIECE: isize = 256;

fn names(m: &MMsg) -> isize {
    m.fields.iter().map(|f| 128 + 2 * f.name.len() as isize).sum::<isize>() + 2 * m.frame.len() as isize
}

// ---------------------------------------------------------------- moving between message types

fn hop(lib: usize, m: PointCloud2Msg) -> (PointCloud2Msg, Vec<(usize, usize, usize)>) {
    let at = |d: &Vec<u8>| (d.as_ptr() as usize, d.len(), d.capacity());
    macro_rules! via {
        ($t:ty) => {{
            let x: $t = m.into();
            let a = at(&x.data);
            let m: PointCloud2Msg = x.into();
            let b = at(&m.data);
            (m, vec![a, b])
        }};
    }
    match lib {
        0 => via!(ros2_interfaces_jazzy::sensor_msgs::msg::PointCloud2),
        1 => via!(r2r::sensor_msgs::msg::PointCloud2),
        2 => via!(rosrust_msg::sensor_msgs::PointCloud2),
        _ => {
            // the builder takes the buffer over too
            let d = m.data;
            let (step, width) = (m.point_step, m.dimensions.width);
            let b = PointCloud2MsgBuilder::new().header(m.header).fields(m.fields).point_step(step).width(width).data(d).dense(m.dense == Denseness::Dense).endian(m.endian == Endian::Big);
            let m = b.build().expect("builder");
            let a = at(&m.data);
            (m, vec![a])
        }
    }
}
fn moved(cx: &mut Cx, x: &MMsg, libs: &[usize]) {
    let r = cx.catch(|| {
        guard::tracked(|| {
            let m = x.to_msg();
            let want = (m.data.as_ptr() as usize, m.data.len(), m.data.capacity());
            let before = guard::bytes();
            guard::take_peak();
            let mut m = m;
            let mut seen = vec![];
            for &l in libs {
                let (n, s) = hop(l, m);
                m = n;
                seen.extend(s);
            }
            (want, seen, guard::take_peak() - before)
        })
    });
    cx.steps(libs.len() as u64);
    let (want, seen, peak) = match r {
        Ok(r) => r,
        Err(e) => cx.fail("panic", e),
    };
    const LIBS: [&str; 4] = ["jazzy", "r2r", "rosrust", "builder"];
    let what = || format!("{} through {:?}", x.brief(), libs.iter().map(|l| LIBS[*l]).collect::<Vec<_>>());
    if want.2 > 0 {
        for s in seen {
            if s != want {
                cx.fail("copied", format!("{}: the buffer (address, length, capacity) was {want:x?} and is {s:x?}", what()))
            }
        }
    }
    let allowed = 2 * FLAT + 8 * names(x);
    if peak > allowed {
        cx.fail("memory", format!("{}: {peak} bytes more in use while a buffer of {} bytes is moved, expected at most {allowed}", what(), x.data.len()))
    }
}
fn moves(tier: Tier) -> Vec<Scenario> {
    let bit = tier.pick(20, 24);
    let base = |cx: &mut Cx, len: usize| {
        let (f, s) = base_arrangement::<3, PointXYZ>(cx.choose("arrangement", ARRANGEMENTS));
        let s = s.max(1);
        let mut x = message(f, s, 0, 1, cx.flag("big"));
        x.dense = cx.flag("dense");
        x.data = pattern_data(len - len % s);
        x.width = (x.data.len() / s) as u32;
        x.row = x.data.len() as u32;
        x
    };
    vec![
        scenario("moved-lengths", format!("buffers of every length up to 300 and around every power of two up to 2^{bit}, exactly or with unused capacity, in 5 arrangements, both byte orders, dense or not, through each message library and the builder"), move |cx| {
            let len = any_length(cx, 300, bit);
            let mut x = base(cx, len);
            x.spare = *cx.pick("spare", &[0usize, 1, 100]);
            let lib = cx.choose("library", 4);
            cx.state(&(x.brief(), x.spare, lib));
            moved(cx, &x, &[lib]);
        }),
        scenario("moved-attributes", "a message with up to three attributes at boundary values (dimensions, steps, time stamps, texts, field lists), through each message library", move |cx| {
            let mut x = base(cx, 4000);
            let ext = [0u32, 1, 255, 65_535, 65_536, u32::MAX];
            let mut left = 3;
            macro_rules! alter {
                ($($f:ident),*) => {$(
                    if left > 0 && cx.flag(stringify!($f)) {
                        left -= 1;
                        x.$f = (*cx.pick(stringify!($f), &ext)) as _;
                    }
                )*};
            }
            alter!(width, height, step, row, sec, nsec, seq);
            if left > 0 {
                match cx.choose("other", 6) {
                    1 => x.fields.clear(),
                    2 => x.frame.clear(),
                    3 => x.frame = "f".repeat(1000),
                    4 => x.fields = (0..100).map(|i| MField { name: format!("n{i}"), off: i, dt: (i % 12) as u8, count: i }).collect(),
                    5 => x.fields.iter_mut().for_each(|f| f.count = 3),
                    _ => {}
                }
            }
            let lib = cx.choose("library", 3);
            cx.state(&(x.brief(), lib));
            moved(cx, &x, &[lib]);
        }),
        scenario("moved-chains", "every sequence of up to 4 message libraries (and the builder)", move |cx| {
            let n = cx.range("hops", 1, 4);
            let libs: Vec<usize> = (0..n).map(|_| cx.choose("library", 4)).collect();
            let len = *cx.pick("length", &[0usize, 1, 16, 4000, 70_000]);
            let mut x = base(cx, len);
            x.spare = *cx.pick("spare", &[0usize, 9]);
            cx.state(&(x.brief(), x.spare, &libs));
            moved(cx, &x, &libs);
        }),
    ]
}

// ---------------------------------------------------------------- reading and writing

/// peak and rest of the second of two runs of `f` on what `input` makes; the first one may set up
/// whatever is set up once per process
fn cost<I, R>(cx: &mut Cx, input: impl Fn() -> I, f: impl Fn(I) -> R) -> (isize, isize) {
    let go = || {
        guard::tracked(|| {
            let i = input();
            guard::take_peak();
            let r = f(i);
            let peak = guard::take_peak();
            drop(r);
            (peak, guard::bytes())
        })
    };
    let r = cx.catch(|| {
        go();
        go()
    });
    cx.steps(2);
    match r {
        Ok(r) => r,
        Err(e) => cx.fail("panic", e),
    }
}
fn judge(cx: &mut Cx, what: &str, (peak, rest): (isize, isize), input: isize, output: isize, flat: isize, parallel: bool) {
    // threads of a pool have queues of their own, and what they release they may release later
    let flat = flat + if parallel { 128 << 10 } else { 0 };
    let allowed = 4 * (input + output) + flat;
    if peak > allowed {
        cx.fail("memory", format!("{what}: {peak} bytes in use at once for {input} bytes of input and {output} bytes of output, expected at most {allowed}"))
    }
    let left = if parallel { flat } else { 0 };
    if rest > left {
        cx.fail("kept", format!("{what}: {rest} bytes are still in use after everything was dropped"))
    }
}
const COUNTS: &[usize] = &[0, 1, 2, 3, 15, 16, 17, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 20_000];
const COUNTS_T: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 131_073, 300_000];

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    With(Reader),
    /// the points are dropped as they come
    Each,
    Nothing,
    /// some from the front and some from the back
    Some,
    Last,
    Rev,
    Count,
    /// in parallel, dropped as they come
    ParEach,
}
const HOWS: [How; 11] = [How::With(Reader::Iter), How::With(Reader::Vec), How::With(Reader::Par), How::With(Reader::Pub), How::Each, How::Nothing, How::Some, How::Last, How::Rev, How::Count, How::ParEach];

fn do_read<const N: usize, P: Pt<N>>(how: How, m: PointCloud2Msg) -> (usize, Option<Vec<P>>, Option<MsgConversionError>) {
    let it = |m| PointCloudIterator::<N, P>::try_from(m);
    let r = match how {
        How::With(r) => read::<N, P>(r, m).map(|v| (v.len(), Some(v))),
        How::Each => it(m).map(|i| (i.map(drop).fold(0, |a, ()| a + 1), None)),
        How::Nothing => it(m).map(|_| (0, None)),
        How::Some => it(m).map(|mut i| {
            i.next();
            i.next_back();
            i.nth(2);
            (0, None)
        }),
        How::Last => it(m).map(|i| (0, i.last().map(|p| vec![p]))),
        How::Rev => it(m).map(|i| (i.rev().map(drop).fold(0, |a, ()| a + 1), None)),
        How::Count => it(m).map(|i| (Iterator::count(i), None)),
        How::ParEach => m.try_into_par_iter::<N, P>().map(|i| (rayon::iter::ParallelIterator::count(rayon::iter::ParallelIterator::map(i, drop)), None)),
    };
    match r {
        Ok((n, v)) => (n, v, None),
        Err(e) => (0, None, Some(e)),
    }
}
fn reading<const N: usize, P: Pt<N>>(cx: &mut Cx, counts: &[usize]) {
    let arr = cx.choose("arrangement", ARRANGEMENTS);
    let (f, s) = base_arrangement::<N, P>(arr);
    let n = *cx.pick("points", counts);
    let big = cx.flag("big");
    let mut x = message(f, s, n as u32, 1, big);
    match cx.choose("kind", 6) {
        1 if n % 2 == 0 => {
            x.height = 2;
            x.width /= 2;
            x.row /= 2;
        }
        2 => x.fields[N - 1].name.push('\''),
        3 => x.height = u32::MAX,
        4 => {
            x.data.pop();
        }
        5 => x.fields[0].off = u32::MAX,
        _ => {}
    }
    let how = *cx.pick("how", &HOWS);
    cx.state(&(P::LABEL, x.brief(), format!("{how:?}")));
    let c = cost(cx, || x.to_msg(), |m| do_read::<N, P>(how, m));
    let output = if matches!(how, How::With(_)) { n * std::mem::size_of::<P>() } else { 0 };
    judge(cx, &format!("{how:?} of {} as {}", x.brief(), P::LABEL), c, x.data.len() as isize, output as isize, FLAT + 8 * names(&x), matches!(how, How::With(Reader::Par) | How::ParEach));
}
fn writing<const N: usize, P: Pt<N>>(cx: &mut Cx, counts: &[usize]) {
    let n = *cx.pick("points", counts);
    // 0..3: the writers; then sources with every kind of size hint
    let w = cx.choose("writer", 3 + HINTS);
    cx.state(&(P::LABEL, n, w));
    let bits = base_points::<N, P>(n);
    let input = || to_points::<N, P>(&bits);
    let c = cost(cx, input, |v| match w {
        0..=2 => write::<N, P>(WRITERS[w], v),
        _ => PointCloud2Msg::try_from_iter::<N, P>(Hinted::new(v, w - 3)),
    });
    let step: usize = P::decl().iter().map(|d| d.size()).sum::<usize>().max(std::mem::size_of::<P>());
    judge(cx, &format!("writer {w} on {n} {}", P::LABEL), c, (n * std::mem::size_of::<P>()) as isize, (n * step) as isize, FLAT + 400 * N as isize, w == 2);
}
fn conversions(tier: Tier) -> Vec<Scenario> {
    let counts = tier.pick(COUNTS, COUNTS_T);
    macro_rules! each {
        ($f:ident, $name:expr, $about:expr; $($n:literal $t:ty),* $(,)?) => {
            vec![$(scenario(format!("{}-{}", $name, stringify!($t)), format!($about, counts.len()), move |cx| $f::<$n, $t>(cx, counts))),*]
        };
    }
    let mut v = each!(reading, "reading", "{} numbers of points in 5 arrangements and both byte orders, well-formed or with one fault, by each reader and 8 ways of using an iterator"; 3 PointXYZ, 4 PointXYZRGB, 5 CMix, 8 CAll, 2 CXZ);
    v.extend(each!(writing, "writing", "{} numbers of points, each writer and sources with each kind of size hint"; 3 PointXYZ, 4 PointXYZRGB, 5 CMix, 8 CAll, 2 CXZ, 5 DMix));
    v
}

// ---------------------------------------------------------------- splitting

/// every split tree of few splits: a piece costs its bookkeeping, never a share of the buffer
fn splits(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(3, 4);
    let peels = tier.pick(1500usize, 6000);
    let about = format!("an iterator over 0 to 60000 points, every tree of up to {depth} splits at either end, next to it or in the middle, all pieces kept");
    vec![
        scenario("split-trees", about, move |cx| {
            let n = *cx.pick("points", &[0usize, 1, 5, 1000, 60_000]);
            let big = cx.flag("big");
            let taken = cx.choose("taken", 3);
            let mut plan = vec![];
            let mut sizes = vec![n.saturating_sub(2 * taken)];
            for _ in 0..cx.range("splits", 1, depth) {
                let k = cx.choose("piece", sizes.len());
                let s = sizes[k];
                let at = [0, 1.min(s), s / 2, s.saturating_sub(1), s][cx.choose("at", 5)];
                sizes[k] = at;
                sizes.insert(k + 1, s - at);
                plan.push((k, at));
            }
            cx.state(&(n, big, taken, &plan));
            let (f, s) = base_arrangement::<5, CMix>(0);
            let x = message(f, s, n as u32, 1, big);
            let r = cx.catch(|| {
                guard::tracked(|| {
                    let mut it = PointCloudIterator::<5, CMix>::try_from(x.to_msg()).expect("message");
                    for _ in 0..taken {
                        it.next();
                        it.next_back();
                    }
                    let mut pieces = Vec::with_capacity(depth + 2);
                    pieces.push(it);
                    let before = guard::bytes();
                    guard::take_peak();
                    for (k, at) in &plan {
                        let (a, b) = pieces.remove(*k).split_at(*at);
                        pieces.insert(*k, b);
                        pieces.insert(*k, a);
                    }
                    let peak = guard::take_peak() - before;
                    drop(pieces);
                    (peak, guard::bytes())
                })
            });
            cx.steps(plan.len() as u64);
            let (peak, rest) = match r {
                Ok(r) => r,
                Err(e) => cx.fail("panic", e),
            };
            let allowed = (2 + plan.len() as isize) * (PIECE + names(&x));
            if peak > allowed {
                cx.fail("split-memory", format!("{n} points ({} bytes), {taken} taken from each end, splits (piece, position) {plan:?}: {peak} bytes more in use, expected at most {allowed}", x.data.len()))
            }
            if rest > 0 {
                cx.fail("kept", format!("{n} points, splits {plan:?}: {rest} bytes are still in use after all pieces were dropped"))
            }
        }),
        scenario("split-many", format!("an iterator cut into {peels} pieces from the front, from the back or by halving, all pieces kept"), move |cx| {
            let n = peels * cx.range("points per piece", 1, 3);
            let way = cx.choose("way", 3);
            let big = cx.flag("big");
            cx.state(&(n, way, big));
            let (f, s) = base_arrangement::<3, PointXYZ>(0);
            let x = message(f, s, n as u32, 1, big);
            let k = n / peels;
            let c = cost(cx, || x.to_msg(), |m| {
                let it = PointCloudIterator::<3, PointXYZ>::try_from(m).expect("message");
                let mut pieces = Vec::with_capacity(peels + 1);
                match way {
                    0 => {
                        let mut rest = it;
                        for _ in 1..peels {
                            let (a, b) = rest.split_at(k);
                            pieces.push(a);
                            rest = b;
                        }
                        pieces.push(rest);
                    }
                    1 => {
                        let mut rest = it;
                        for _ in 1..peels {
                            let at = ExactSizeIterator::len(&rest) - k;
                            let (a, b) = rest.split_at(at);
                            pieces.push(b);
                            rest = a;
                        }
                        pieces.push(rest);
                    }
                    _ => {
                        let mut todo = vec![it];
                        while let Some(i) = todo.pop() {
                            let n = ExactSizeIterator::len(&i);
                            if n <= k {
                                pieces.push(i);
                            } else {
                                let (a, b) = i.split_at(n / 2);
                                todo.push(b);
                                todo.push(a);
                            }
                        }
                    }
                }
                pieces
            });
            let own = std::mem::size_of::<PointCloudIterator<3, PointXYZ>>() as isize;
            // one set of names per piece
            let flat = FLAT + 4 * peels as isize * (own + PIECE + names(&x));
            judge(cx, &format!("{n} points in {peels} pieces, way {way}"), c, x.data.len() as isize, 0, flat, false);
        }),
    ]
}

// ---------------------------------------------------------------- over and over

/// nothing is kept from one conversion for the next, also when every one is about something new
fn over_and_over(tier: Tier) -> Vec<Scenario> {
    let times = tier.pick(200usize, 3000);
    vec![scenario("kept", format!("{times} conversions in a row, each with a field name, frame name, number of points or fault of its own, or all the same: reading, writing, building, moving, looking datatypes up, failing"), move |cx| {
        let what = cx.choose("what", 8);
        let vary = cx.choose("vary", 4);
        let how = cx.choose("how", 3);
        cx.state(&(what, vary, how));
        cx.steps(times as u64);
        let one = |i: usize| {
            let (f, s) = base_arrangement::<3, PointXYZ>(0);
            let mut x = message(f, s, 3, 1, how == 1);
            match vary {
                1 => x.frame = format!("frame number {i}"),
                2 => x.fields.push(MField { name: format!("field number {i}"), off: 0, dt: 7, count: 1 }),
                3 => {
                    x.width = i as u32 % 64;
                    x.data = pattern_data(s * x.width as usize);
                }
                _ => {}
            }
            match what {
                0 => drop(read::<3, PointXYZ>([Reader::Iter, Reader::Vec, Reader::Pub][how], x.to_msg())),
                1 => drop(write::<3, PointXYZ>([Writer::Iter, Writer::Vec, Writer::Vec][how], to_points::<3, PointXYZ>(&base_points::<3, PointXYZ>(x.width as usize)))),
                2 => drop(hop(how, x.to_msg())),
                3 => {
                    let mut m = x.to_msg();
                    m.fields[how].name = format!("missing {i}");
                    drop(read::<3, PointXYZ>(Reader::Iter, m).err().map(|e| e.to_string()))
                }
                4 => {
                    let mut m = x.to_msg();
                    m.fields[how].datatype = 9 + (i % 200) as u8;
                    drop(read::<3, PointXYZ>(Reader::Vec, m).err().map(|e| format!("{e:?}")))
                }
                5 => drop(<FieldDatatype as std::str::FromStr>::from_str(&format!("type {i}")).err().map(|e| e.to_string())),
                6 => drop(PointCloud2MsgBuilder::new().fields(x.to_msg().fields).point_step(1 + i as u32 % 30).data(vec![0; 64]).build().err().map(|e| e.to_string())),
                _ => {
                    let mut it = PointCloudIterator::<3, PointXYZ>::try_from(x.to_msg()).expect("message");
                    it.next();
                    let n = ExactSizeIterator::len(&it);
                    drop(it.split_at(n.min(how)));
                }
            }
        };
        let r = cx.catch(|| {
            guard::tracked(|| {
                (0..50).for_each(one);
                let before = guard::bytes();
                (50..50 + times).for_each(one);
                guard::bytes() - before
            })
        });
        match r {
            Ok(rest) if rest > 0 => cx.fail("kept", format!("conversion {what}, varied {vary}, way {how}: {rest} more bytes are in use after {times} conversions, all results dropped")),
            Ok(_) => {}
            Err(e) => cx.fail("panic", e),
        }
    })]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = moves(tier);
    v.extend(conversions(tier));
    v.extend(splits(tier));
    v.extend(over_and_over(tier));
    v
}
fn main() {
    run("C28", scenarios)
}

mc::guarded_binary!();
