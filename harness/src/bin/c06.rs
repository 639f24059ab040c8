//! C06: missing fields are reported by name.
use harness::*;
use ros_pointcloud2::MsgConversionError;

fn judge<const N: usize, P: Pt<N>>(cx: &mut Cx, m: &MMsg) {
    let d = P::decl();
    let missing: Vec<&str> = d
        .iter()
        .map(|x| x.name)
        .filter(|n| m.fields.iter().all(|f| f.name != *n))
        .collect();
    cx.state(m);
    cx.note(|| format!("{}: {} missing {missing:?}", P::LABEL, m.brief()));
    for r in [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub] {
        let msg = m.to_msg();
        let got = cx.catch(|| read::<N, P>(r, msg).map(|v| v.len()));
        let ctx = format!("{r:?} reader of {}: {}", P::LABEL, m.brief());
        match got {
            Err(e) => cx.fail("panic", format!("{ctx}: panicked: {e}")),
            Ok(Ok(_)) if !missing.is_empty() => {
                cx.fail("accepted", format!("{ctx}: accepted although {missing:?} are missing"))
            }
            Ok(Err(MsgConversionError::FieldsNotFound(v))) => {
                if missing.is_empty() {
                    cx.fail("invented", format!("{ctx}: nothing is missing, but reports {v:?}"))
                }
                // the vector reader may stop at the first obstacle with another error; when it names
                // fields it has to name the right ones
                if v != missing {
                    cx.fail("names", format!("{ctx}: reports {v:?}, missing are {missing:?}"))
                }
            }
            Ok(Err(e)) => {
                if !missing.is_empty() && r != Reader::Vec {
                    cx.fail("other-error", format!("{ctx}: {e:?} instead of naming {missing:?}"))
                }
            }
            Ok(Ok(_)) => {}
        }
    }
    cx.outcome(format!("{} missing", missing.len()));
}

/// every field present, absent, or replaced by a similar name; in every combination up to the bound
fn subsets<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    vec![scenario(
        format!("subsets-{}", P::LABEL),
        format!("every subset of the fields present x up to {bound} absent names replaced by a near miss (case, prefix, blank, NUL, reversed, ...) x 3 listing orders x 2 arrangements"),
        move |cx| {
            cx.dev_bound = bound;
            let d = P::decl();
            let arr = cx.choose("arrangement", 2);
            let (f, step) = base_arrangement::<N, P>(arr);
            let mut out = vec![];
            for k in 0..N {
                if !cx.flag("absent") {
                    out.push(f[k].clone());
                    continue;
                }
                let nm: Vec<String> = near_misses(d[k].name);
                let c = cx.dev("near miss", nm.len() + 1);
                if c > 0 {
                    let mut x = f[k].clone();
                    x.name = nm[c - 1].clone();
                    out.push(x);
                }
            }
            match cx.choose("listing", 3) {
                0 => {}
                1 => out.reverse(),
                _ => {
                    if !out.is_empty() {
                        out.rotate_left(1)
                    }
                }
            }
            let m = message(out, step, 2, 1, false);
            judge::<N, P>(cx, &m);
        },
    )]
}

/// missing fields in messages that are malformed in other ways too
fn malformed<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(1, 2);
    vec![scenario(
        format!("malformed-{}", P::LABEL),
        format!("every single field (or none) removed from messages with up to {bound} other departures"),
        move |cx| {
            cx.dev_bound = bound;
            let mut m = mutated::<N, P>(cx);
            let k = cx.choose("remove", N + 1);
            if k > 0 {
                let name = P::decl()[k - 1].name;
                m.fields.retain(|f| f.name != name);
            }
            judge::<N, P>(cx, &m);
        },
    )]
}

/// duplicates of present fields must not stand in for missing ones
fn doubled<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let extra = tier.pick(1, 2);
    vec![scenario(
        format!("doubled-{}", P::LABEL),
        format!("every subset of the fields plus up to {extra} repetitions of present names and one unrelated field, big and little endian, 0..2 points"),
        move |cx| {
            let (f, step) = base_arrangement::<N, P>(1);
            let mut out: Vec<MField> = (0..N).filter(|_| !cx.flag("absent")).map(|k| f[k].clone()).collect();
            for _ in 0..extra {
                if !out.is_empty() {
                    let n = out.len();
                    let c = cx.choose("repeat", n + 1);
                    if c > 0 {
                        let x = out[c - 1].clone();
                        out.push(x);
                    }
                }
            }
            if cx.flag("unrelated") {
                out.insert(0, MField { name: "unrelated".into(), off: 0, dt: 2, count: 1 });
            }
            let n = cx.range("points", 0, 2) as u32;
            let m = message(out, step, n, 1, cx.flag("big"));
            judge::<N, P>(cx, &m);
        },
    )]
}

/// Many additional fields: the search for a name must not end early, and none of them stands in.
fn crowd<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let sizes: &'static [usize] = tier.pick(&[5, 16, 64, 257, 1000], &[3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097, 70000]);
    vec![scenario(
        format!("crowd-{}", P::LABEL),
        format!("{sizes:?} additional fields listed before, behind or around the fields of the point, all different, all of one name, or similar to the wanted ones; nothing, one field, all but one or all but two neighbours removed"),
        move |cx| {
            let (f, step) = base_arrangement::<N, P>(cx.choose("arrangement", 2));
            let n = *cx.pick("additional", sizes);
            let style = cx.choose("names", 3);
            let near: Vec<String> = f.iter().flat_map(|x| near_misses(&x.name)).filter(|s| f.iter().all(|x| x.name != *s)).collect();
            let extra = |i: usize| MField {
                name: match style {
                    0 => format!("u{i}"),
                    1 => "_".into(),
                    _ => near[i % near.len()].clone(),
                },
                off: 0,
                dt: U8,
                count: 1,
            };
            let mut own: Vec<MField> = match cx.choose("removed", 1 + 3 * N) {
                0 => f.clone(),
                k if k <= N => f.iter().enumerate().filter(|(i, _)| *i != k - 1).map(|x| x.1.clone()).collect(),
                k if k <= 2 * N => vec![f[k - 1 - N].clone()],
                k => f.iter().enumerate().filter(|(i, _)| *i == k - 1 - 2 * N || *i == (k - 2 * N) % N).map(|x| x.1.clone()).collect(),
            };
            if cx.flag("reversed") {
                own.reverse();
            }
            let fields: Vec<MField> = match cx.choose("place", 3) {
                0 => (0..n).map(extra).chain(own).collect(),
                1 => own.into_iter().chain((0..n).map(extra)).collect(),
                _ => {
                    // spread out: the last one behind all others
                    let gap = n / own.len().max(1);
                    let mut v = vec![];
                    let mut i = 0;
                    for x in own {
                        v.extend((i..i + gap).map(extra));
                        i += gap;
                        v.push(x);
                    }
                    v
                }
            };
            let m = message(fields, step, *cx.pick("points", &[2, 0]), 1, false);
            judge::<N, P>(cx, &m);
        },
    )]
}

/// long lists of missing names
fn long<const N: usize, P: Pt<N>>(_: Tier) -> Vec<Scenario> {
    vec![scenario(
        format!("long-{}", P::LABEL),
        "one field missing, all but one, the first or last so many, every second or third, for every position x listing orders x 0..1 points",
        |cx| {
            let k = cx.range("field", 0, N - 1);
            let how = cx.choose("how", 6);
            let gone = |i: usize| match how {
                0 => i == k,
                1 => i != k,
                2 => i < k,
                3 => i >= k,
                4 => i % 2 == k % 2 && i >= k,
                _ => i % 3 == k % 3 && i <= k,
            };
            let (f, step) = base_arrangement::<N, P>(cx.choose("arrangement", 2));
            let mut f: Vec<MField> = f.into_iter().enumerate().filter(|(i, _)| !gone(*i)).map(|x| x.1).collect();
            match cx.choose("listing", 3) {
                0 => {}
                1 => f.reverse(),
                _ => {
                    if !f.is_empty() {
                        let h = f.len() / 2;
                        f.rotate_left(h)
                    }
                }
            }
            let m = message(f, step, cx.choose("points", 2) as u32, 1, false);
            judge::<N, P>(cx, &m);
        },
    )]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = all_points!(subsets, tier);
    v.extend(all_points!(malformed, tier));
    v.extend(all_points!(doubled, tier));
    v.extend(all_points!(crowd, tier));
    v.extend(big_points!(long, tier));
    v
}
fn main() {
    run("C06", scenarios)
}
