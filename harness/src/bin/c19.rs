//! C19: serialization preserves messages and points.
use bincode::Options;
use harness::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensions, Denseness, Endian, PointCloud2Msg};
use serde::{de::DeserializeOwned, Serialize};

type Res<T> = Result<T, String>;
fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Res<T> {
    r.map_err(|x| x.to_string())
}

/// the binary formats: fixed width, variable width, big endian, through a reader
const BINARY: [&str; 4] = ["bincode", "bincode varint", "bincode big endian", "bincode reader"];
fn binary<T: Serialize + DeserializeOwned>(k: usize, v: &T) -> Res<T> {
    let o = bincode::DefaultOptions::new();
    match k {
        0 => e(bincode::deserialize(&e(bincode::serialize(v))?)),
        1 => e(o.with_varint_encoding().deserialize(&e(o.with_varint_encoding().serialize(v))?)),
        2 => e(o.with_big_endian().deserialize(&e(o.with_big_endian().serialize(v))?)),
        _ => {
            let b = e(bincode::serialize(v))?;
            let mut r = &b[..];
            let x = e(bincode::deserialize_from(&mut r))?;
            if !r.is_empty() {
                return Err(format!("{} bytes are left over", r.len()));
            }
            Ok(x)
        }
    }
}
/// the text formats: compact, pretty, through a reader, through a tree of values
const TEXT: [&str; 4] = ["json", "json pretty", "json reader", "json tree"];
fn text<T: Serialize + DeserializeOwned>(k: usize, v: &T) -> Res<T> {
    match k {
        0 => e(serde_json::from_str(&e(serde_json::to_string(v))?)),
        1 => e(serde_json::from_slice(&e(serde_json::to_vec_pretty(v))?)),
        2 => e(serde_json::from_reader(&e(serde_json::to_vec(v))?[..])),
        _ => e(serde_json::from_value(e(serde_json::to_value(v))?)),
    }
}
fn any<T: Serialize + DeserializeOwned>(k: usize, v: &T) -> Res<T> {
    if k < 4 {
        binary(k, v)
    } else {
        text(k - 4, v)
    }
}
fn fmt(k: usize) -> &'static str {
    if k < 4 {
        BINARY[k]
    } else {
        TEXT[k - 4]
    }
}

fn finite(d: &Decl, b: u64) -> bool {
    match d.dt {
        F32 => f32::from_bits(b as u32).is_finite(),
        F64 => f64::from_bits(b).is_finite(),
        _ => true,
    }
}

trait Sp<const N: usize>: Pt<N> + Serialize + DeserializeOwned {}
impl<const N: usize, P: Pt<N> + Serialize + DeserializeOwned> Sp<N> for P {}

fn points<const N: usize, P: Sp<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    let nmax = tier.pick(2, 2);
    vec![scenario(
        format!("points-{}", P::LABEL),
        format!("single points and vectors of 0..={nmax}, boundary values in up to {bound} fields, 4 binary formats (all bit patterns) and 4 text formats (finite)"),
        move |cx| {
            let d = P::decl();
            let k = cx.choose("format", 8);
            let single = cx.flag("single");
            let n = if single { 1 } else { cx.range("points", 0, nmax) };
            cx.dev_bound = bound;
            let mut v = base_points::<N, P>(n);
            for p in v.iter_mut() {
                for f in 0..N {
                    // a base that is finite in every format
                    if d[f].dt == F32 {
                        p[f] &= 0xbfff_ffff
                    }
                    let a = alphabet(d[f].dt);
                    let c = cx.dev("value", a.len() + 1);
                    if c > 0 {
                        p[f] = a[c - 1];
                    }
                }
            }
            if k >= 4 && v.iter().any(|p| (0..N).any(|f| !finite(&d[f], p[f]))) {
                cx.outcome("not finite: text formats make no promise");
                return;
            }
            cx.state(&v);
            let ps: Vec<P> = to_points(&v);
            let g = cx.catch(|| if single { any(k, &ps[0]).map(|p| vec![p]) } else { any(k, &ps) });
            match g {
                Ok(Ok(g)) if to_bits::<N, P>(&g) == v => cx.outcome(fmt(k)),
                Ok(Ok(g)) => cx.fail("point-changed", format!("{} through {}: {}", P::LABEL, fmt(k), diff(&to_bits::<N, P>(&g), &v))),
                x => cx.fail("point-refused", format!("{} {} through {}: {:?}", P::LABEL, show(&v), fmt(k), x.map(|r| r.map(|_| ())))),
            }
            // a coloured point carries its packed float
            if let (Some(f), true) = (d.iter().position(|x| x.name == "rgb"), single) {
                let got = cx.catch(|| {
                    e(serde_json::to_value(&ps[0])).map(|j| j["rgb"].as_f64().map(|x| (x as f32).to_bits() as u64))
                });
                if !finite(&d[f], v[0][f]) {
                    return;
                }
                if !matches!(got, Ok(Ok(Some(b))) if b == v[0][f]) {
                    cx.fail("rgb-form", format!("{}: colour {:#x} is written as {got:?}", P::LABEL, v[0][f]))
                }
            }
        },
    )]
}

fn colours(tier: Tier) -> Vec<Scenario> {
    let one = |p: u32, txt: bool| -> Result<(), String> {
        let c = RGB::new_from_packed(p);
        let b = e(bincode::serialize(&c))?;
        if b != p.to_le_bytes() {
            return Err(format!("binary form {b:x?}"));
        }
        let g: RGB = e(bincode::deserialize(&b))?;
        if g.raw().to_bits() != p {
            return Err(format!("binary form reads as {:#x}", g.raw().to_bits()));
        }
        let f = f32::from_bits(p);
        if txt && f.is_finite() {
            let mut buf = [0u8; 64];
            let mut w = &mut buf[..];
            e(serde_json::to_writer(&mut w, &c))?;
            let n = 64 - w.len();
            let g: RGB = e(serde_json::from_slice(&buf[..n]))?;
            let h: f32 = e(serde_json::from_slice(&buf[..n]))?;
            if g.raw().to_bits() != p || h.to_bits() != p {
                return Err(format!("text form {:?} reads as {:#x}", std::str::from_utf8(&buf[..n]), g.raw().to_bits()));
            }
        }
        Ok(())
    };
    let tops: Vec<u32> = match tier {
        Tier::Quick => vec![0, 0x7f, 0xff],
        Tier::Thorough => (0..256).collect(),
    };
    let txt_low = tier.pick(0x3f, 0x0f);
    vec![scenario(
        "colours",
        format!("every packed pattern under {} top bytes in the binary format; a channel-boundary subset in text", tops.len()),
        move |cx| {
            let t = *cx.pick("top", &tops);
            let r = cx.choose("red", 256) as u32;
            let h = t << 24 | r << 16;
            cx.state(&h);
            cx.steps(1 << 16);
            let mut at = 0;
            let x = cx.catch(|| {
                for p in h..=(h | 0xffff) {
                    at = p;
                    let txt = (p & txt_low == 0 || p & txt_low == txt_low) && (p >> 8) & txt_low <= 1;
                    one(p, txt)?;
                }
                Ok::<(), String>(())
            });
            match x {
                Ok(Ok(())) => {}
                Ok(Err(s)) => cx.fail("colour", format!("{at:#010x}: {s}")),
                Err(s) => cx.fail("panic", format!("{at:#010x}: {s}")),
            }
        },
    )]
}

const U: [u32; 7] = [0, 1, 255, 256, 65536, 0x7fff_ffff, u32::MAX];
const I: [i32; 6] = [0, 1, -1, 256, i32::MAX, i32::MIN];
const NAMES: [&str; 12] = ["", "x", "rgb", "frame_id", " ", "\0", "\"\\\n\t", "é日本\u{1F600}", "null", "a/b", "\u{7f}\u{80}\u{2028}", "0123456789012345678901234567890123456789"];

fn parts() -> Vec<Scenario> {
    let mut v = vec![];
    v.push(scenario("time", "every pair of boundary seconds and nanoseconds, 8 formats", |cx| {
        let k = cx.choose("format", 8);
        let t = TimeMsg { sec: *cx.pick("sec", &I), nanosec: *cx.pick("nanosec", &U) };
        cx.state(&(t.sec, t.nanosec));
        match cx.catch(|| any(k, &t)) {
            Ok(Ok(g)) if (g.sec, g.nanosec) == (t.sec, t.nanosec) => {}
            x => cx.fail("time", format!("{t:?} through {}: {x:?}", fmt(k))),
        }
    }));
    v.push(scenario("header", "every combination of boundary sequence numbers, times and frame names, 8 formats", |cx| {
        let k = cx.choose("format", 8);
        let h = HeaderMsg { seq: *cx.pick("seq", &U), stamp: TimeMsg { sec: *cx.pick("sec", &I), nanosec: *cx.pick("nanosec", &U) }, frame_id: cx.pick("frame", &NAMES).to_string() };
        cx.state(&(h.seq, h.stamp.sec, h.stamp.nanosec, &h.frame_id));
        match cx.catch(|| any(k, &h)) {
            Ok(Ok(g)) if (g.seq, g.stamp.sec, g.stamp.nanosec, &g.frame_id) == (h.seq, h.stamp.sec, h.stamp.nanosec, &h.frame_id) => {}
            x => cx.fail("header", format!("{h:?} through {}: {x:?}", fmt(k))),
        }
    }));
    v.push(scenario("field", "every datatype code 0..=255, every combination of boundary offsets, counts and names, 8 formats", |cx| {
        let k = cx.choose("format", 8);
        let all = cx.flag("all codes");
        let f = if all {
            PointFieldMsg { name: "x".into(), offset: 4, datatype: cx.choose("code", 256) as u8, count: 1 }
        } else {
            PointFieldMsg { name: cx.pick("name", &NAMES).to_string(), offset: *cx.pick("offset", &U), datatype: *cx.pick("code", &[0, 1, 7, 8, 9, 255]), count: *cx.pick("count", &U) }
        };
        cx.state(&(&f.name, f.offset, f.datatype, f.count));
        match cx.catch(|| any(k, &f)) {
            Ok(Ok(g)) if (&g.name, g.offset, g.datatype, g.count) == (&f.name, f.offset, f.datatype, f.count) => {}
            x => cx.fail("field", format!("{f:?} through {}: {x:?}", fmt(k))),
        }
    }));
    v.push(scenario("small", "dimensions, byte order and density alone, 8 formats", |cx| {
        let k = cx.choose("format", 8);
        match cx.choose("what", 3) {
            0 => {
                let d = CloudDimensions { width: *cx.pick("width", &U), height: *cx.pick("height", &U) };
                cx.state(&(d.width, d.height));
                match cx.catch(|| any(k, &d)) {
                    Ok(Ok(g)) if (g.width, g.height) == (d.width, d.height) => {}
                    x => cx.fail("dimensions", format!("{d:?} through {}: {x:?}", fmt(k))),
                }
            }
            1 => {
                let d = *cx.pick("endian", &[Endian::Big, Endian::Little]);
                cx.state(&format!("{d:?}"));
                match cx.catch(|| any(k, &d)) {
                    Ok(Ok(g)) if g == d => {}
                    x => cx.fail("endian", format!("{d:?} through {}: {x:?}", fmt(k))),
                }
            }
            _ => {
                let d = *cx.pick("dense", &[Denseness::Dense, Denseness::Sparse]);
                cx.state(&format!("{d:?}"));
                match cx.catch(|| any(k, &d)) {
                    Ok(Ok(g)) if g == d => {}
                    x => cx.fail("dense", format!("{d:?} through {}: {x:?}", fmt(k))),
                }
            }
        }
    }));
    v
}

fn whole(cx: &mut Cx, k: usize, m: &MMsg) {
    cx.state(m);
    cx.note(|| m.brief());
    let msg = m.to_msg();
    match cx.catch(|| any::<PointCloud2Msg>(k, &msg)) {
        Ok(Ok(g)) if MMsg::of_msg(&g) == *m => cx.outcome(fmt(k)),
        Ok(Ok(g)) => cx.fail("message-changed", format!("{} through {}: {}", m.brief(), fmt(k), MMsg::of_msg(&g).brief())),
        x => cx.fail("message-refused", format!("{} through {}: {:?}", m.brief(), fmt(k), x.map(|r| r.map(|_| ())))),
    }
}

fn messages(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    vec![
        scenario("messages", format!("messages with up to {bound} of their attributes at any boundary value (0..=3 fields, buffers of 0..=5 lengths, consistent or not), 8 formats"), move |cx| {
            let k = cx.choose("format", 8);
            cx.dev_bound = bound;
            let nf = [2, 0, 1, 3][cx.dev("fields", 4)];
            let mut m = MMsg::empty();
            m.seq = U[(cx.dev("seq", 7) + 2) % 7];
            m.sec = I[(cx.dev("sec", 6) + 3) % 6];
            m.nsec = U[(cx.dev("nsec", 7) + 3) % 7];
            m.frame = NAMES[(cx.dev("frame", 12) + 3) % 12].into();
            m.width = U[(cx.dev("width", 7) + 4) % 7];
            m.height = U[(cx.dev("height", 7) + 1) % 7];
            m.step = U[(cx.dev("step", 7) + 2) % 7];
            m.row = U[(cx.dev("row", 7) + 3) % 7];
            m.big = cx.dev("big", 2) == 1;
            m.dense = cx.dev("dense", 2) == 1;
            m.data = pattern_data([5, 0, 1, 256, 65536][cx.dev("data", 5)]);
            for _ in 0..nf {
                m.fields.push(MField { name: NAMES[(cx.dev("name", 12) + 1) % 12].into(), off: U[cx.dev("offset", 7)], dt: [7, 0, 1, 8, 9, 255][cx.dev("code", 6)], count: U[(cx.dev("count", 7) + 1) % 7] });
            }
            cx.state(&m);
            cx.note(|| m.brief());
            let msg = m.to_msg();
            match cx.catch(|| any::<PointCloud2Msg>(k, &msg)) {
                Ok(Ok(g)) if MMsg::of_msg(&g) == m => cx.outcome(fmt(k)),
                Ok(Ok(g)) => cx.fail("message-changed", format!("{m:?} through {}: {:?}", fmt(k), MMsg::of_msg(&g))),
                x => cx.fail("message-refused", format!("{m:?} through {}: {x:?}", fmt(k))),
            }
        }),
        scenario("texts", format!("frame and field names: every text of up to {} of 16 pieces, 8 formats", tier.pick(2, 4)), move |cx| {
            let k = cx.choose("format", 8);
            let mut m = message(vec![MField { name: "x".into(), off: 0, dt: 7, count: 1 }], 4, 1, 1, false);
            let w = cx.flag("field");
            let t = any_text(cx, tier.pick(2, 4));
            if w {
                m.fields[0].name = t;
            } else {
                m.frame = t;
            }
            whole(cx, k, &m);
        }),
        scenario("lengths", format!("buffers, frame names and lists of fields of every length up to 70 and around powers of two up to 2^{} (lists: 2^12), 8 formats", tier.pick(16, 20)), move |cx| {
            let k = cx.choose("format", 8);
            let mut m = message(vec![MField { name: "x".into(), off: 0, dt: 7, count: 1 }], 4, 1, 1, true);
            match cx.choose("what", 3) {
                0 => m.data = pattern_data(any_length(cx, 70, tier.pick(16, 20))),
                1 => {
                    let n = any_length(cx, 70, tier.pick(16, 20));
                    m.frame = pattern_data(n).iter().map(|b| (b'0' + b % 64) as char).collect();
                }
                _ => {
                    let n = any_length(cx, 70, 12);
                    m.fields = (0..n).map(|i| MField { name: format!("n{i}"), off: 3 * i as u32, dt: (i % 256) as u8, count: 7 * i as u32 }).collect();
                }
            }
            whole(cx, k, &m);
        }),
        scenario("travel", "clouds of 0..=3 points of 3 types written by every writer, through every format and back, read by every reader", |cx| {
            fn go<const N: usize, P: Pt<N>>(cx: &mut Cx) {
                let k = cx.choose("format", 8);
                let w = *cx.pick("writer", &WRITERS);
                let r = *cx.pick("reader", &READERS);
                let n = cx.range("points", 0, 3);
                let v = base_points::<N, P>(n);
                cx.state(&(P::LABEL, n));
                let ps = to_points::<N, P>(&v);
                let g = cx.catch(|| {
                    let m = write::<N, P>(w, ps).map_err(|x| format!("{x:?}"))?;
                    let m: PointCloud2Msg = any(k, &m)?;
                    read::<N, P>(r, m).map_err(|x| format!("{x:?}"))
                });
                match g {
                    Ok(Ok(g)) if to_bits::<N, P>(&g) == v => {}
                    x => cx.fail("travel", format!("{} {w:?} {} {r:?}: {:?}", P::LABEL, fmt(k), x.map(|y| y.map(|g| diff(&to_bits::<N, P>(&g), &v))))),
                }
            }
            match cx.choose("type", 3) {
                0 => go::<4, PointXYZRGB>(cx),
                1 => go::<5, CMix>(cx),
                _ => go::<3, PointXYZ>(cx),
            }
        }),
    ]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = predefined_points!(points, tier);
    v.extend(colours(tier));
    v.extend(parts());
    v.extend(messages(tier));
    v
}
fn main() {
    run("C19", scenarios)
}
