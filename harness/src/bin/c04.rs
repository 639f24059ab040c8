//! C04: the vector, iterator and parallel readers agree on every message.
use harness::*;

#[derive(PartialEq, Debug)]
enum Out<const N: usize> {
    Points(Vec<[u64; N]>),
    Error,
    Panic,
}

fn outcome<const N: usize, P: Pt<N>>(cx: &mut Cx, r: Reader, m: &MMsg) -> (Out<N>, String) {
    let msg = m.to_msg();
    match cx.catch(|| read::<N, P>(r, msg)) {
        Err(e) => (Out::Panic, e),
        Ok(Err(e)) => (Out::Error, format!("{e:?}")),
        Ok(Ok(v)) => (Out::Points(to_bits::<N, P>(&v)), String::new()),
    }
}

fn agree<const N: usize, P: Pt<N>>(cx: &mut Cx, m: &MMsg) {
    cx.state(m);
    let (first, why) = outcome::<N, P>(cx, Reader::Iter, m);
    cx.note(|| format!("{}: {} -> {first:?} {why}", P::LABEL, m.brief()));
    for r in [Reader::Vec, Reader::Par, Reader::Pub] {
        let (o, w) = outcome::<N, P>(cx, r, m);
        if o != first {
            let what = match (&o, &first) {
                (Out::Points(a), Out::Points(b)) => diff(a, b),
                _ => {
                    let s = |x: &Out<N>, w: &str| match x {
                        Out::Points(p) => format!("{} points", p.len()),
                        Out::Error => format!("error {w}"),
                        Out::Panic => format!("panic {w}"),
                    };
                    format!("{} (iterator: {})", s(&o, &w), s(&first, &why))
                }
            };
            cx.fail("disagree", format!("{r:?} reader of {}: {what}; {}", P::LABEL, m.brief()))
        }
    }
    cx.outcome(match &first {
        Out::Points(v) => format!("all: {} points", v.len().min(9)),
        Out::Error => format!("all fail: {}", why.split('(').next().unwrap_or("")),
        Out::Panic => "all panic".into(),
    });
}

fn mutants<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = if N <= 2 { tier.pick(2, 3) } else { 2 };
    vec![scenario(
        format!("mutants-{}", P::LABEL),
        format!("5 arrangements x up to {bound} departures in shape, dimensions, step, row step, length, spare capacity, endianness, field offsets, datatypes, counts, names (missing, similar, doubled), additional fields"),
        move |cx| {
            cx.dev_bound = bound;
            let m = mutated::<N, P>(cx);
            agree::<N, P>(cx, &m);
        },
    )]
}

/// Direct copying is chosen by comparing the message with the layout: messages around that border.
fn border<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    vec![scenario(
        format!("border-{}", P::LABEL),
        format!("messages within {bound} departures of the in-memory layout: each offset moved by -4..4 or swapped, each step near the size of the type, every datatype, listing exchanges, row steps, spare capacity of the buffer, several shapes (thorough: also inverted contents)"),
        move |cx| {
            cx.dev_bound = bound;
            let size = std::mem::size_of::<P>();
            let mut f = memory_fields::<N, P>();
            let steps: Vec<usize> = (0..=8).map(|d| size + d).chain((1..=8).map(|d| size.saturating_sub(d))).chain([size + 16, 2 * size]).collect();
            let step = steps[cx.choose("step", steps.len())];
            let shapes: &[(u32, u32)] = tier.pick(&[(2, 2), (1, 3), (9, 1)], &[(2, 2), (1, 3), (9, 1), (3, 1), (0, 1), (1, 0)]);
            let (w, h) = *cx.pick("shape", shapes);
            for k in 0..N {
                let d = cx.dev("offset", 9) as i64;
                let d = if d <= 4 { d } else { 4 - d };
                f[k].off = (f[k].off as i64 + d).max(0) as u32;
                let t = cx.dev("datatype", 9) as u8;
                if t > 0 {
                    f[k].dt = t;
                }
                if cx.dev("count", 2) == 1 {
                    f[k].count = 2;
                }
            }
            if N > 1 {
                let x = cx.dev("exchange", N);
                if x > 0 {
                    f.swap(x - 1, x);
                }
                let y = cx.dev("exchange offsets", N);
                if y > 0 {
                    let (a, b) = (f[y - 1].off, f[y].off);
                    f[y - 1].off = b;
                    f[y].off = a;
                }
            }
            match cx.dev("extra", 4) {
                0 => {}
                e => {
                    let x = MField { name: "extra".into(), off: 0, dt: 2, count: 1 };
                    let at = [0, f.len() / 2, f.len()][e - 1];
                    f.insert(at, x);
                }
            }
            let big = cx.dev("endian", 2) == 1;
            let mut m = message(f, step, w, h, big);
            let full = m.row;
            m.row = [full, 0, step as u32, 2 * full, full + 1][cx.dev("row step", 5)];
            m.spare = [0, 1, 2 * step, 64 * step][cx.dev("spare", 4)];
            if tier == Tier::Thorough && cx.flag("fill") {
                m.data.iter_mut().for_each(|b| *b = !*b);
            }
            agree::<N, P>(cx, &m);
        },
    )]
}

/// many other fields around the point's own
fn crowd<const N: usize, P: Pt<N>>(_: Tier) -> Vec<Scenario> {
    vec![scenario(format!("crowd-{}", P::LABEL), CROWD, |cx| {
        let big = cx.flag("big");
        let m = crowded::<N, P>(cx, OTHERS, big);
        agree::<N, P>(cx, &m);
    })]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = all_points!(mutants, tier);
    v.extend(all_points!(border, tier));
    v.extend(all_points!(crowd, tier));
    v
}
fn main() {
    run("C04", scenarios)
}
