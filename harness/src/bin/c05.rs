//! C05: malformed messages are rejected; no panic, no access outside the buffer, no huge allocation.
use harness::*;
use ros_pointcloud2::MsgConversionError;

const MAX_ALLOC: usize = 1 << 20; // every generated message is a few KiB

const PLACES: [guard::Placement; 6] = [
    guard::Placement { at_end: true, skew: 0, fill: 0xA5 },
    guard::Placement { at_end: false, skew: 0, fill: 0x5A },
    guard::Placement { at_end: true, skew: 1, fill: 0x00 },
    guard::Placement { at_end: true, skew: 3, fill: 0xFF },
    guard::Placement { at_end: false, skew: 1, fill: 0x11 },
    guard::Placement { at_end: true, skew: 2, fill: 0x80 },
];

enum Got<const N: usize> {
    Points(Vec<[u64; N]>),
    Missing(Vec<String>),
    Error(String),
    Panic(String),
}

fn guarded_read<const N: usize, P: Pt<N>>(cx: &mut Cx, pl: guard::Placement, r: Reader, m: &MMsg) -> Got<N> {
    let live = guard::live();
    guard::take_bad();
    guard::take_max();
    let got = guard::with(pl, || {
        let msg = m.to_msg();
        let res = catch(|| read::<N, P>(r, msg));
        match res {
            Err(e) => Got::Panic(guard::off(|| e.clone())),
            Ok(Err(MsgConversionError::FieldsNotFound(v))) => Got::Missing(guard::off(|| v.clone())),
            Ok(Err(e)) => Got::Error(guard::off(|| format!("{e:?}"))),
            Ok(Ok(v)) => guard::off(|| Got::Points(to_bits::<N, P>(&v))),
        }
    });
    cx.step();
    let max = guard::take_max();
    let bad = guard::take_bad();
    let live_now = guard::live();
    if bad != 0 {
        cx.fail("heap", format!("{r:?} reader of {}: {}; {}", P::LABEL,
            if bad & guard::BAD_FREE != 0 { "memory freed twice or through a wrong pointer" } else { "memory outside of an allocation was written" }, m.brief()))
    }
    if live_now != live && !matches!(got, Got::Panic(_)) {
        cx.fail("leak", format!("{r:?} reader of {}: {} allocations left; {}", P::LABEL, live_now as i64 - live as i64, m.brief()))
    }
    if max > MAX_ALLOC {
        cx.fail("allocation", format!("{r:?} reader of {} allocates {max} bytes for a message of {} bytes; {}", P::LABEL, m.data.len(), m.brief()))
    }
    got
}

fn judge<const N: usize, P: Pt<N>>(cx: &mut Cx, m: &MMsg, pl: guard::Placement) {
    let want = reference::<N, P>(m);
    let strict = is_well_formed(m);
    cx.state(m);
    cx.note(|| format!("{}: {} must be {}", P::LABEL, m.brief(), match &want {
        RefRead::Missing(v) => format!("missing {v:?}"),
        RefRead::Bad(w) => format!("refused ({w})"),
        RefRead::Points(n, v) => format!("{n} points{}{}", if v.is_none() { ", other datatype" } else { "" }, if strict { "" } else { " or refused" }),
    }));
    for r in [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub] {
        let got = guarded_read::<N, P>(cx, pl, r, m);
        let ctx = || format!("{r:?} reader of {}: {}", P::LABEL, m.brief());
        match (got, &want) {
            (Got::Panic(e), _) => {
                let c = ctx();
                cx.fail("panic", format!("{c}: panicked: {e}"))
            }
            (Got::Points(_), RefRead::Bad(w)) => {
                let c = ctx();
                cx.fail(format!("accepted-{w}"), format!("{c}: accepted although the {w} is wrong"))
            }
            (Got::Points(_), RefRead::Missing(w)) => {
                let c = ctx();
                cx.fail("accepted-missing", format!("{c}: accepted although {w:?} are missing"))
            }
            (Got::Points(v), RefRead::Points(n, w)) => {
                if v.len() != *n {
                    let c = ctx();
                    cx.fail("count", format!("{c}: {} points, expected {n}", v.len()))
                }
                if let Some(w) = w {
                    if v != *w {
                        let (c, d) = (ctx(), diff(&v, w));
                        cx.fail("value", format!("{c}: {d}"))
                    }
                }
            }
            (Got::Missing(names), w) => {
                if !matches!(w, RefRead::Missing(_)) {
                    let c = ctx();
                    cx.fail("wrong-missing", format!("{c}: reports missing fields {names:?}"))
                }
            }
            (Got::Error(e), RefRead::Points(..)) if strict => {
                let c = ctx();
                cx.fail("refused", format!("{c}: well-formed but refused: {e}"))
            }
            (Got::Error(_), _) => {}
        }
    }
    cx.outcome(match &want {
        RefRead::Missing(_) => "must fail: missing".to_string(),
        RefRead::Bad(w) => format!("must fail: {w}"),
        RefRead::Points(n, Some(_)) => format!("{} points", (*n).min(9)),
        RefRead::Points(_, None) => "other datatypes".into(),
    });
}

fn mutants<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = if N <= 2 { tier.pick(2, 3) } else { 2 };
    let places = tier.pick(2, 6);
    vec![scenario(
        format!("mutants-{}", P::LABEL),
        format!("5 arrangements x up to {bound} departures in shape, dimensions (to 2^32-1), step, row step, length (incl. every wrapped product), spare capacity, endianness, field offsets (to 2^32-1), datatypes, counts, names, additional fields x {places} placements of every allocation against inaccessible pages"),
        move |cx| {
            let pl = *cx.pick("placement", &PLACES[..places]);
            cx.dev_bound = bound;
            let m = mutated::<N, P>(cx);
            judge::<N, P>(cx, &m, pl);
        },
    )]
}

/// products that wrap around 32 and 64 bits
fn overflow<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let big: &'static [u32] = tier.pick(
        &[0, 1, 2, 0x1_0000, 0x4000_0000, 0x8000_0000, 0xffff_ffff],
        &[0, 1, 2, 3, 5, 0x1_0000, 0x1_0001, 0x5555_5556, 0x2000_0000, 0x4000_0000, 0x4000_0001, 0x8000_0000, 0x8000_0001, 0xaaaa_aaab, 0xffff_0000, 0xffff_fffe, 0xffff_ffff],
    );
    vec![scenario(
        format!("overflow-{}", P::LABEL),
        format!("width, height from {} extreme values x 9 steps x 10 buffer lengths derived from true and wrapped products x packed/in-memory/minimal offsets", big.len()),
        move |cx| {
            let arr = cx.choose("arrangement", ARRANGEMENTS + 1);
            let (mut f, mut s) = base_arrangement::<N, P>(arr.min(ARRANGEMENTS - 1));
            if arr == ARRANGEMENTS {
                f.iter_mut().for_each(|x| x.off = 0);
                s = 8;
            }
            let w = *cx.pick("width", big);
            let h = *cx.pick("height", big);
            let steps = [s as u32, 0, 1, 8, 12, 16, 0x1000_0000, 0x8000_0000, 0xffff_ffff];
            let step = *cx.pick("step", &steps);
            let (a, b, c) = (w as usize, h as usize, step as usize);
            let p = (a as u128 * b as u128 * c as u128) as u64 as usize;
            let mut lens = vec![
                0,
                p,
                p as u32 as usize,
                a.wrapping_mul(c),
                a.wrapping_mul(c) as u32 as usize,
                b.wrapping_mul(c),
                c,
                (w.wrapping_mul(h) as usize).wrapping_mul(c),
                (w.wrapping_mul(h) as u64 * c as u64) as u32 as usize,
                2 * s,
            ];
            lens.retain(|l| *l <= 4096);
            lens.sort();
            lens.dedup();
            let l = *cx.pick("length", &lens);
            let m = MMsg {
                fields: f,
                width: w,
                height: h,
                step,
                row: w.wrapping_mul(step),
                data: pattern_data(l),
                ..MMsg::empty()
            };
            let pl = *cx.pick("placement", &PLACES[..1]);
            judge::<N, P>(cx, &m, pl);
        },
    )]
}

/// small buffers byte by byte: every dimension, step and length
fn tiny<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let dims = tier.pick(3u32, 4);
    vec![scenario(
        format!("tiny-{}", P::LABEL),
        format!("width, height 0..={dims}, every step 0..=size+2, every buffer length within 2 of width x height x step, of width x step and of size, in-memory and packed offsets, 3 placements"),
        move |cx| {
            let size = std::mem::size_of::<P>();
            let w = cx.range("width", 0, dims as usize);
            let h = cx.range("height", 0, dims as usize);
            let arr = cx.choose("arrangement", 2);
            let step = cx.range("step", 0, size + 2);
            let mut lens: Vec<usize> = vec![];
            for c in [w * h * step, w * step, size, h * step] {
                for d in 0..5 {
                    lens.push((c + d).saturating_sub(2));
                }
            }
            lens.sort();
            lens.dedup();
            let l = *cx.pick("length", &lens);
            let (f, _) = base_arrangement::<N, P>(arr);
            let m = MMsg {
                fields: f,
                width: w as u32,
                height: h as u32,
                step: step as u32,
                row: (w * step) as u32,
                data: pattern_data(l),
                ..MMsg::empty()
            };
            let pl = *cx.pick("placement", &PLACES[..tier.pick(1, 4)]);
            judge::<N, P>(cx, &m, pl);
        },
    )]
}

/// every offset of every single field against the step
fn offsets<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let places = tier.pick(2, 6);
    vec![scenario(
        format!("offsets-{}", P::LABEL),
        "each field (and each pair of neighbours) moved to every offset from 0 to step+8, every datatype of that field, 1..2 points".to_string(),
        move |cx| {
            let pl = *cx.pick("placement", &PLACES[..places]);
            let arr = cx.choose("arrangement", 2);
            let (mut f, step) = base_arrangement::<N, P>(arr);
            let k = cx.choose("field", N);
            f[k].off = cx.range("offset", 0, step + 8) as u32;
            let dt = cx.range("datatype", 0, 10) as u8;
            if dt > 0 {
                f[k].dt = if dt == 10 { 0 } else { dt };
            }
            let big = cx.flag("big");
            let w = cx.range("width", 1, 2) as u32;
            let m = message(f, step, w, 1, big);
            judge::<N, P>(cx, &m, pl);
        },
    )]
}

/// every datatype code
fn datatypes<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    vec![scenario(
        format!("datatypes-{}", P::LABEL),
        "each field with every of the 256 datatype codes, in every arrangement, both byte orders, 0, 1 and 3 points, at the end of the point and where it was; thorough: with a second field's code 0, 7, 8, 9 or 255".to_string(),
        move |cx| {
            let arr = cx.choose("arrangement", ARRANGEMENTS);
            let (mut f, step) = base_arrangement::<N, P>(arr);
            let k = cx.choose("field", N);
            let dt = cx.choose("datatype", 256) as u8;
            if tier == Tier::Thorough && N > 1 {
                let o = cx.choose("other", 6);
                if o > 0 {
                    f[(k + 1) % N].dt = [0, 7, 8, 9, 255][o - 1];
                }
            }
            f[k].dt = dt;
            if cx.flag("last byte") {
                f[k].off = step as u32 - 1;
            }
            let n = *cx.pick("points", &[1, 0, 3]);
            let m = message(f, step, n, 1, cx.flag("big"));
            judge::<N, P>(cx, &m, PLACES[0]);
        },
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = all_points!(mutants, tier);
    v.extend(all_points!(overflow, tier));
    v.extend(all_points!(tiny, tier));
    v.extend(all_points!(offsets, tier));
    v.extend(all_points!(datatypes, tier));
    v
}

mc::guarded_binary!();
fn main() {
    run("C05", scenarios)
}
