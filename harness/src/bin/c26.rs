//! C26: an error states a fault that the input really has, with its particulars.
use harness::*;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::{
    CloudDimensionsBuilder, FieldDatatype, LayoutDescription, LayoutField, MsgConversionError as E, PointCloud2Msg,
    PointCloud2MsgBuilder, PointConvertible, RPCL2Point,
};
use std::cell::RefCell;

fn known(dt: u8) -> bool {
    (1..=8).contains(&dt)
}

/// Whether the message really has the fault the error states, for a reader of `d`.
fn read_fault(e: &E, m: &MMsg, d: &[Decl]) -> Result<&'static str, String> {
    let missing: Vec<&str> = d.iter().map(|x| x.name).filter(|n| m.fields.iter().all(|f| f.name != *n)).collect();
    let wanted = || m.fields.iter().filter(|f| d.iter().any(|x| x.name == f.name));
    let not = |s: String| Err(s);
    match e {
        E::FieldsNotFound(v) => {
            let (mut a, mut b): (Vec<&str>, Vec<&str>) = (v.iter().map(|s| s.as_str()).collect(), missing.clone());
            a.sort();
            b.sort();
            if missing.is_empty() || a != b {
                return not(format!("missing are {missing:?}"));
            }
            Ok("missing fields")
        }
        E::UnsupportedFieldType(s) => {
            if !m.fields.iter().any(|f| !known(f.dt) && states(s, f.dt)) {
                return not("no field has that datatype, or it is a known one".into());
            }
            Ok("datatype")
        }
        E::DataLengthMismatch => {
            let bytes = m.width as u128 * m.height as u128 * m.step as u128;
            // a field that is not inside the point takes its bytes from elsewhere
            let beyond = wanted().any(|f| f.off as u64 + extent(f.dt) as u64 > m.step as u64);
            if bytes == m.data.len() as u128 && !beyond {
                return not("the buffer has the length of the points, and they hold the fields".into());
            }
            Ok("length")
        }
        E::ExhaustedSource => {
            if m.fields.len() >= d.len() {
                return not(format!("the message has {} fields for the {} of the point", m.fields.len(), d.len()));
            }
            Ok("too few fields")
        }
        E::UnsupportedFieldCount => {
            if m.fields.iter().all(|f| f.count == 1) {
                return not("all counts are 1".into());
            }
            Ok("count")
        }
        E::InvalidFieldFormat => {
            if wanted().all(|f| d.iter().any(|x| x.name == f.name && x.dt == f.dt)) {
                return not("all fields have the datatype of the point".into());
            }
            Ok("format")
        }
        E::NumberConversion => {
            if (m.width as u128 * m.height as u128 * m.step as u128) <= u32::MAX as u128 {
                return not("all numbers fit".into());
            }
            Ok("number")
        }
    }
}

/// The particulars name the datatype code, as a number of its own.
fn states(s: &str, code: u8) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|x| x == code.to_string())
}

/// The text has the name as a word of its own.
fn names(t: &str, n: &str) -> bool {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    if n.is_empty() || !n.chars().all(word) {
        return t.contains(n);
    }
    t.match_indices(n).any(|(i, _)| {
        !t[..i].chars().next_back().is_some_and(word) && !t[i + n.len()..].chars().next().is_some_and(word)
    })
}

/// The text for the user carries what the error carries.
fn text(cx: &mut Cx, e: &E) {
    let t = match cx.catch(|| e.to_string()) {
        Ok(t) => t,
        Err(p) => cx.fail("text-panic", format!("{e:?}: {p}")),
    };
    let good = match e {
        E::FieldsNotFound(v) => v.iter().all(|n| names(&t, n)),
        E::UnsupportedFieldType(s) => t.contains(s.as_str()),
        _ => !t.is_empty(),
    };
    cx.check(good, "text", || format!("{e:?} reads {t:?}"));
}

fn judge<const N: usize, P: Pt<N>>(cx: &mut Cx, m: &MMsg) {
    let d = P::decl();
    cx.state(m);
    cx.note(|| format!("{}: {}", P::LABEL, m.brief()));
    for r in [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub] {
        let msg = m.to_msg();
        // panics and wrong points are C05's business
        let Ok(got) = cx.catch(|| read::<N, P>(r, msg).map(|v| v.len())) else { continue };
        match got {
            Ok(_) => cx.outcome("read"),
            Err(e) => {
                match read_fault(&e, m, &d) {
                    Ok(k) => cx.outcome(k),
                    Err(why) => cx.fail("no-such-fault", format!("{r:?} reader of {} says {e:?}: {why}; {}", P::LABEL, m.brief())),
                }
                text(cx, &e);
            }
        }
    }
}

fn departures<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    vec![scenario(
        format!("readers-{}", P::LABEL),
        format!("4 readers of messages with up to {bound} departures from a well-formed one"),
        move |cx| {
            cx.dev_bound = bound;
            let m = mutated::<N, P>(cx);
            judge::<N, P>(cx, &m);
        },
    )]
}

/// One fault, of each kind and in each place, in messages that are otherwise well-formed: it is the
/// one reported.
fn single<const N: usize, P: Pt<N>>(_: Tier) -> Vec<Scenario> {
    vec![scenario(
        format!("single-{}", P::LABEL),
        "a field removed or renamed x every datatype code, offset beyond the step, buffer too short or long, in every field x 5 arrangements x byte order x 1..=3 points x 4 readers",
        move |cx| {
            let d = P::decl();
            let (f, step) = base_arrangement::<N, P>(cx.choose("arrangement", ARRANGEMENTS));
            let n = cx.range("points", 1, 3);
            let mut m = message(f, step, n as u32, 1, cx.flag("big-endian"));
            let want;
            match cx.choose("fault", 5) {
                0 => {
                    let k = cx.choose("field", N);
                    m.fields.remove(k);
                    want = "missing";
                }
                1 => {
                    let k = cx.choose("field", N);
                    m.fields[k].name.push('?');
                    want = "missing";
                }
                2 => {
                    let k = cx.choose("field", N);
                    m.fields[k].dt = (9 + cx.choose("code", 248)) as u8; // 9..=255, 0
                    want = "datatype";
                }
                3 => {
                    let k = cx.choose("field", N);
                    let s = d[k].size() as u32;
                    let beyond = *cx.pick("beyond", &[1, 2, s, s + 1, 0x7fff_ffff - m.step, 0x8000_0000 - m.step]);
                    m.fields[k].off = m.step - s + beyond;
                    want = "length";
                }
                _ => {
                    let l = m.data.len();
                    m.data.resize(*cx.pick("length", &[l - 1, l + 1, 0, l - step, l + step, l - step + 1, 2 * l]), 0);
                    if m.data.len() == l {
                        return;
                    }
                    want = "length";
                }
            }
            cx.state(&m);
            cx.note(|| format!("{} ({want}): {}", P::LABEL, m.brief()));
            for r in [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub] {
                let msg = m.to_msg();
                let Ok(Err(e)) = cx.catch(|| read::<N, P>(r, msg).map(|v| v.len())) else { continue };
                let good = match (want, &e) {
                    ("missing", E::FieldsNotFound(_)) => true,
                    // the message has fewer fields than the point
                    ("missing", E::ExhaustedSource) => m.fields.len() < N,
                    ("datatype", E::UnsupportedFieldType(_)) => true,
                    ("length", E::DataLengthMismatch) => true,
                    _ => false,
                };
                if !good || read_fault(&e, &m, &d).is_err() {
                    cx.fail("other-fault", format!("{r:?} reader of {} says {e:?}, the only fault is {want}; {}", P::LABEL, m.brief()))
                }
                text(cx, &e);
            }
            cx.outcome(want);
        },
    )]
}

/// Sets of missing fields: all of them for up to 8 fields; for more, none, all, one, all but one, the
/// first or last so many, every second or third.
fn sets<const N: usize, P: Pt<N>>(_: Tier) -> Vec<Scenario> {
    vec![scenario(
        format!("sets-{}", P::LABEL),
        "sets of missing fields (all for up to 8 fields; else none, all, one, all but one, first, last, every second or third) x 2 arrangements x listing order x 0..1 points x 4 readers",
        |cx| {
            let gone: Vec<bool> = if N <= 8 {
                (0..N).map(|_| cx.flag("gone")).collect()
            } else {
                let k = cx.range("field", 0, N - 1);
                let how = cx.choose("how", 6);
                (0..N)
                    .map(|i| match how {
                        0 => i == k,
                        1 => i != k,
                        2 => i < k,
                        3 => i >= k,
                        4 => i % 2 == k % 2 && i >= k,
                        _ => i % 3 == k % 3 && i <= k,
                    })
                    .collect()
            };
            let (f, step) = base_arrangement::<N, P>(cx.choose("arrangement", 2));
            let mut f: Vec<MField> = f.into_iter().zip(&gone).filter(|(_, g)| !**g).map(|(f, _)| f).collect();
            if cx.flag("reversed") {
                f.reverse();
            }
            let m = message(f, step, cx.choose("points", 2) as u32, 1, false);
            judge::<N, P>(cx, &m);
        },
    )]
}

// ---------------------------------------------------------------- builder, lookups, dimensions

fn builder(tier: Tier) -> Scenario {
    let nmax = tier.pick(3, 4);
    let bound = tier.pick(3, 4);
    scenario(
        "builder",
        format!("0..={nmax} fields, up to {bound} of: unknown datatypes, counts other than 1, step too small, buffer of another length, large widths"),
        move |cx| {
            cx.dev_bound = bound;
            let n = cx.range("fields", 0, nmax);
            let mut fields: Vec<(u8, u32)> = vec![];
            for _ in 0..n {
                let dt = *cx.pick("datatype", &[2u8, 7, 8]);
                let u = [dt, 0, 9, 10, 100, 128, 255][cx.dev("unknown", 7)];
                let c = [1u32, 0, 2, u32::MAX][cx.dev("count", 4)];
                fields.push((u, c));
            }
            let least: u32 = fields.iter().map(|f| if known(f.0) { dt_size(f.0) as u32 } else { 0 }).sum();
            let most: u32 = fields.iter().map(|f| if known(f.0) { dt_size(f.0) as u32 } else { 8 }).sum();
            let s = most.max(1);
            let step = [s, s + 3, s - 1, 0, 1, s / 2, 16, u32::MAX][cx.dev("step", 8)];
            let st = step.min(64) as usize;
            let len = [2 * st, 0, 2 * st + 1, st.saturating_sub(1), 3 * st + st / 2][cx.dev("length", 5)];
            let width = [2u32, 0, 1, u32::MAX][cx.dev("width", 4)];
            let row = [width.wrapping_mul(step), 0, u32::MAX][cx.dev("row step", 3)];
            cx.state(&(&fields, step, len, width, row));
            let shown = format!("fields {fields:?} (datatype, count) step {step} buffer {len} width {width}");
            cx.note(|| shown.clone());
            let list: Vec<PointFieldMsg> = fields
                .iter()
                .enumerate()
                .map(|(k, f)| PointFieldMsg { name: format!("f{k}"), offset: 0, datatype: f.0, count: f.1 })
                .collect();
            let r = cx.catch(|| PointCloud2MsgBuilder::new().fields(list).point_step(step).row_step(row).width(width).data(vec![0; len]).build().map(|_| ()));
            let e = match r {
                Err(p) => cx.fail("panic", format!("{p}; {shown}")),
                Ok(Ok(())) => {
                    cx.outcome("built");
                    return;
                }
                Ok(Err(e)) => e,
            };
            let good = match &e {
                E::FieldsNotFound(v) => fields.is_empty() && v.is_empty(),
                E::UnsupportedFieldCount => fields.iter().any(|f| f.1 != 1),
                E::UnsupportedFieldType(t) => fields.iter().any(|f| !known(f.0) && states(t, f.0)),
                // an unknown datatype has no size: up to the largest one
                E::InvalidFieldFormat => step < if fields.iter().all(|f| known(f.0)) { least } else { most },
                E::DataLengthMismatch => step == 0 || len % step as usize != 0,
                E::NumberConversion | E::ExhaustedSource => false,
            };
            cx.check(good, "no-such-fault", || format!("builder says {e:?}: {shown}"));
            text(cx, &e);
            let t = format!("{e:?}");
            cx.outcome(t.split('(').next().unwrap_or("").to_string());
        },
    )
}

fn lookups(tier: Tier) -> Vec<Scenario> {
    let pieces = tier.pick(3, 4);
    vec![
        scenario("codes", "all 256 datatype codes, alone and in a field of any count", |cx| {
            let c = cx.choose("code", 256) as u8;
            let count = *cx.pick("count", &[1u32, 0, 2, u32::MAX]);
            cx.state(&(c, count));
            let f = PointFieldMsg { name: "v".into(), offset: 3, datatype: c, count };
            for r in [cx.catch(|| FieldDatatype::try_from(c)), cx.catch(|| FieldDatatype::try_from(&f))] {
                match r {
                    Err(p) => cx.fail("panic", p),
                    Ok(Ok(_)) => cx.outcome("known"),
                    Ok(Err(e)) => {
                        let good = match &e {
                            E::UnsupportedFieldType(t) => !known(c) && states(t, c),
                            E::UnsupportedFieldCount => count != 1,
                            _ => false,
                        };
                        cx.check(good, "no-such-fault", || format!("code {c}: {e:?}"));
                        text(cx, &e);
                        cx.outcome("unknown");
                    }
                }
            }
        }),
        scenario("names", format!("datatype names: every text of up to {pieces} of 16 pieces, near misses of the known ones"), move |cx| {
            let s = if cx.flag("near miss") {
                let k = *cx.pick("of", &["f32", "f64", "i8", "u8", "i16", "u16", "i32", "u32", "rgb"]);
                let v = near_misses(k);
                cx.pick("which", &v).clone()
            } else {
                any_text(cx, pieces)
            };
            cx.state(&s);
            match cx.catch(|| s.parse::<FieldDatatype>()) {
                Err(p) => cx.fail("panic", p),
                Ok(Ok(_)) => cx.outcome("known"),
                Ok(Err(e)) => {
                    let good = matches!(&e, E::UnsupportedFieldType(t) if t.contains(&s));
                    cx.check(good, "no-such-fault", || format!("{s:?}: {e:?}"));
                    text(cx, &e);
                    cx.outcome("unknown");
                }
            }
        }),
        scenario("widths", "every 2^k-1, 2^k, 2^k+1 for k = 0..64 as a width", |cx| {
            let k = cx.choose("power", 65);
            let w = ((1u128 << k) + cx.choose("off", 3) as u128 - 1).min(u64::MAX as u128) as usize;
            cx.state(&w);
            match cx.catch(|| CloudDimensionsBuilder::new_with_width(w).build().map(|_| ())) {
                Err(p) => cx.fail("panic", p),
                Ok(Ok(())) => cx.outcome("built"),
                Ok(Err(e)) => {
                    cx.check(matches!(e, E::NumberConversion) && w > u32::MAX as usize, "no-such-fault", || format!("width {w}: {e:?}"));
                    text(cx, &e);
                    cx.outcome("number");
                }
            }
        }),
        scenario("texts", "the texts of all errors with particulars of up to 2 texts of up to 2 of 16 pieces: what differs reads differently", |cx| {
            cx.choose("only", 1);
            let mut texts: Vec<String> = vec![String::new()];
            texts.extend(PIECES.iter().map(|p| p.to_string()));
            for a in PIECES {
                texts.extend(PIECES.iter().map(|b| format!("{a}{b}")));
            }
            let mut all = vec![
                E::InvalidFieldFormat,
                E::DataLengthMismatch,
                E::UnsupportedFieldCount,
                E::NumberConversion,
                E::ExhaustedSource,
                E::FieldsNotFound(vec![]),
            ];
            for a in &texts {
                all.push(E::UnsupportedFieldType(a.clone()));
                all.push(E::FieldsNotFound(vec![a.clone()]));
                all.extend(texts.iter().map(|b| E::FieldsNotFound(vec![a.clone(), b.clone()])));
            }
            // long lists, which differ in one place
            for len in [3usize, 4, 5, 8, 9, 16, 17, 33, 64, 65, 100, 257] {
                let long: Vec<String> = (0..len).map(|k| format!("f{k}")).collect();
                all.extend((0..len).map(|k| {
                    let mut v = long.clone();
                    v[k].push('_');
                    E::FieldsNotFound(v)
                }));
                all.push(E::UnsupportedFieldType("t".repeat(len)));
                all.push(E::FieldsNotFound(long));
            }
            let mut seen = std::collections::HashMap::new();
            for e in &all {
                let d: &dyn std::error::Error = e;
                let t = match cx.catch(|| (d.to_string(), d.source().is_none())) {
                    Ok((t, true)) => t,
                    Ok((t, false)) => cx.fail("source", t),
                    Err(p) => cx.fail("text-panic", p),
                };
                cx.check(!t.is_empty(), "text", || format!("{e:?} has no text"));
                if let Some(o) = seen.insert(t.clone(), format!("{e:?}")) {
                    cx.fail("text", format!("{o} and {e:?} read {t:?}"))
                }
            }
            cx.steps(all.len() as u64);
            cx.state(&all.len());
            cx.outcome("distinct");
        }),
    ]
}

// ---------------------------------------------------------------- hand-written layouts

thread_local!(static LAYOUT: RefCell<Vec<LayoutField>> = const { RefCell::new(vec![]) });

/// A point whose layout is what the scenario says.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
#[repr(C)]
struct Lp {
    a: f32,
    b: u8,
}
impl From<RPCL2Point<2>> for Lp {
    fn from(p: RPCL2Point<2>) -> Self {
        Lp { a: p[0].get(), b: p[1].get() }
    }
}
impl From<Lp> for RPCL2Point<2> {
    fn from(p: Lp) -> Self {
        [p.a.into(), p.b.into()].into()
    }
}
unsafe impl PointConvertible<2> for Lp {
    fn layout() -> LayoutDescription {
        LAYOUT.with(|l| LayoutDescription::new(&l.borrow()))
    }
}

fn layouts(_: Tier) -> Scenario {
    scenario(
        "layouts",
        "a hand-written layout with type names unknown to ROS, sizes that do not fit, or more bytes than a row can have: writers and readers either work or say so",
        |cx| {
            let names = ["", "f16", "f3", "f32 ", "float", "u64", "i64", "bool", "usize", "f32f32", "\0", "9", "é"];
            let tys: Vec<String> = ["f32", "u8"]
                .iter()
                .map(|t| match cx.choose("type", names.len() + 1) {
                    0 => t.to_string(),
                    k => names[k - 1].to_string(),
                })
                .collect();
            let wide = *cx.pick("padding", &[3usize, u32::MAX as usize + 1, usize::MAX, u32::MAX as usize - 5]);
            let bad: Vec<&String> = tys.iter().filter(|t| !["f32", "u8"].contains(&t.as_str())).collect();
            let faulty = !bad.is_empty() || wide != 3;
            let fields = [("a", 4usize), ("b", 1)];
            let l: Vec<LayoutField> = fields
                .iter()
                .zip(&tys)
                .map(|((n, s), t)| LayoutField::Field { name: (*n).into(), ty: t.clone().into(), size: *s })
                .chain([LayoutField::padding(wide)])
                .collect();
            LAYOUT.with(|x| *x.borrow_mut() = l);
            let n = cx.range("points", if wide == u32::MAX as usize - 5 { 2 } else { 0 }, 3);
            let op = cx.choose("operation", 7);
            cx.state(&(&tys, wide, n, op));
            // a direct copy of memory that is not as declared is the declaration's fault
            if wide != 3 && wide <= u32::MAX as usize && op >= 3 {
                return;
            }
            let ps = vec![Lp { a: 1.5, b: 7 }; n];
            let m = message(
                vec![
                    MField { name: "a".into(), off: 0, dt: F32, count: 1 },
                    MField { name: "b".into(), off: 4, dt: U8, count: 1 },
                ],
                8,
                n as u32,
                1,
                false,
            )
            .to_msg();
            let r = cx.catch(|| {
                use rayon::iter::{IntoParallelIterator, ParallelIterator};
                match op {
                    0 => PointCloud2Msg::try_from_iter::<2, Lp>(ps).map(|_| ()),
                    1 => PointCloud2Msg::try_from_vec::<2, Lp>(ps).map(|_| ()),
                    2 => PointCloud2Msg::try_from_par_iter::<2, Lp>(ps.into_par_iter()).map(|_| ()),
                    3 => m.try_into_iter::<2, Lp>().map(|i| drop(i.count())),
                    4 => m.try_into_vec::<2, Lp>().map(|_| ()),
                    5 => m.try_into_par_iter::<2, Lp>().map(|i| drop(i.count())),
                    _ => ros_pointcloud2::iterator::PointCloudIterator::<2, Lp>::try_from(m).map(|_| ()),
                }
            });
            let shown = format!("operation {op}, {n} points, types {tys:?}, padding {wide}");
            match r {
                Err(p) => cx.fail("panic", format!("{p}; {shown}")),
                Ok(Ok(())) => {
                    cx.check(!(faulty && op == 1), "accepted", || format!("copied as described although it can not be: {shown}"));
                    cx.outcome("worked")
                }
                Ok(Err(e)) => {
                    let good = match &e {
                        E::UnsupportedFieldType(t) => bad.iter().any(|b| t.contains(b.as_str())),
                        E::NumberConversion => wide != 3,
                        _ => false,
                    };
                    cx.check(good, "no-such-fault", || format!("{e:?}: {shown}"));
                    text(cx, &e);
                    let t = format!("{e:?}");
                    cx.outcome(t.split('(').next().unwrap_or("").to_string());
                }
            }
        },
    )
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = all_points!(single, tier);
    v.extend(all_points!(sets, tier));
    v.extend(big_points!(sets, tier));
    v.extend(all_points!(departures, tier));
    v.push(builder(tier));
    v.extend(lookups(tier));
    v.push(layouts(tier));
    v
}
fn main() {
    run("C26", scenarios)
}
