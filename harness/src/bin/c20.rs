//! C20: coordinate views and conversions return the point's own coordinates.
#![allow(deprecated)]
use harness::*;
use nalgebra::Point3;
use ros_pointcloud2::points::*;

/// Widening by the definition of the formats, on integers. NaN stays NaN (the payload is the
/// hardware's business).
fn widen(b: u32) -> u64 {
    let s = ((b >> 31) as u64) << 63;
    let e = (b >> 23) & 0xff;
    let m = (b & 0x7f_ffff) as u64;
    match (e, m) {
        (0, 0) => s,
        (0, _) => {
            // subnormal: m * 2^-149
            let top = 63 - m.leading_zeros() as u64;
            let exp = (top + 1023) - 149;
            s | exp << 52 | (m << (52 - top)) & ((1 << 52) - 1)
        }
        (255, _) => s | 0x7ff << 52 | m << 29,
        _ => s | (e as u64 + 1023 - 127) << 52 | m << 29,
    }
}
/// Narrowing to the nearest f32, ties to even, on integers.
fn narrow(b: u64) -> u32 {
    let s = ((b >> 63) as u32) << 31;
    let e = (b >> 52 & 0x7ff) as i64;
    let m = b & ((1 << 52) - 1);
    if e == 0x7ff {
        return s | 0x7f80_0000 | u32::from(m != 0);
    }
    if e == 0 {
        return s; // below 2^-1022: rounds to zero
    }
    let sig = m | 1 << 52; // value = sig * 2^(e-1075)
    // result = q * 2^x with q < 2^24; x at least -149
    let x = (e - 1075 + 29).max(-149);
    let shift = x - (e - 1075);
    let q = if shift > 60 {
        0
    } else {
        let q = sig >> shift;
        let rest = sig & ((1 << shift) - 1);
        let half = 1u64 << (shift - 1);
        q + u64::from(rest > half || (rest == half && q & 1 == 1))
    };
    // q * 2^x as a pattern: adding carries into the exponent on purpose
    let p = if q < 1 << 23 {
        q
    } else {
        (((x + 149 + 1) as u64) << 23) + (q - (1 << 23))
    };
    if p >= 0x7f80_0000 {
        s | 0x7f80_0000
    } else {
        s | p as u32
    }
}
fn nan32(b: u32) -> bool {
    b & 0x7fff_ffff > 0x7f80_0000
}
fn nan64(b: u64) -> bool {
    b << 1 > 0x7ff << 53
}
fn same32(got: f32, want: u32) -> bool {
    got.to_bits() == want || nan32(got.to_bits()) && nan32(want)
}
fn same64(got: f64, want: u64) -> bool {
    got.to_bits() == want || nan64(got.to_bits()) && nan64(want)
}

/// the views of one predefined type
fn views<const N: usize, P: Pt<N>>(cx: &mut Cx, b: &[u64; N], f: fn(&P) -> [Point3<f32>; 2], g: fn(&P) -> Point3<f64>) {
    let p = P::of_bits(b);
    let d = P::decl();
    let at = |n: &str| b[d.iter().position(|x| x.name == n).unwrap()] as u32;
    let want = [at("x"), at("y"), at("z")];
    match cx.catch(|| (f(&p), g(&p))) {
        Ok((v, w)) => {
            for v in v {
                // f32 views are bit-identical, NaNs included
                let got = [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()];
                if got != want {
                    cx.fail("view-f32", format!("{}: {got:x?}, expected {want:x?}", P::LABEL))
                }
            }
            for (k, x) in [w.x, w.y, w.z].into_iter().enumerate() {
                if !same64(x, widen(want[k])) {
                    cx.fail("view-f64", format!("{} coordinate {k}: {:#x}, expected {:#x}", P::LABEL, x.to_bits(), widen(want[k])))
                }
            }
        }
        Err(e) => cx.fail("panic", e),
    }
    // the view does not change the point
    if p.bits() != *b {
        cx.fail("changed", "the point changed")
    }
}

macro_rules! on {
    ($t:ident, $n:expr, $cx:expr, $b:expr) => {
        {
            let b: Vec<u64> = $b($n, &<$t as Pt<$n>>::decl());
            let b: [u64; $n] = b.try_into().unwrap();
            views::<$n, $t>($cx, &b, |p| [p.xyz_f32(), p.xyz()], |p| p.xyz_f64())
        }
    };
}
fn each(cx: &mut Cx, t: usize, b: impl Fn(usize, &[Decl]) -> Vec<u64>) {
    match t {
        0 => on!(PointXYZ, 3, cx, b),
        1 => on!(PointXYZI, 4, cx, b),
        2 => on!(PointXYZL, 4, cx, b),
        3 => on!(PointXYZRGB, 4, cx, b),
        4 => on!(PointXYZRGBA, 5, cx, b),
        5 => on!(PointXYZRGBNormal, 7, cx, b),
        6 => on!(PointXYZINormal, 7, cx, b),
        7 => on!(PointXYZRGBL, 5, cx, b),
        _ => on!(PointXYZNormal, 6, cx, b),
    }
}
const TYPES: usize = 9;

fn interesting32(tier: Tier) -> Vec<u32> {
    let mut v = vec![];
    let ms: Vec<u32> = tier.pick(vec![0, 1, 0x40_0000, 0x7f_ffff], vec![0, 1, 2, 0x2a_aaaa, 0x3f_ffff, 0x40_0000, 0x40_0001, 0x55_5555, 0x7f_fffe, 0x7f_ffff]);
    for e in 0..256u32 {
        for m in &ms {
            v.push(e << 23 | m);
            v.push(1 << 31 | e << 23 | m);
        }
    }
    v
}

fn view_scenarios(tier: Tier) -> Vec<Scenario> {
    let al = alphabet(7);
    vec![
        scenario("views", "9 predefined types, every triple of 10 boundary coordinates, distinct other fields", move |cx| {
            let t = cx.choose("type", TYPES);
            let c = [*cx.pick("x", al), *cx.pick("y", al), *cx.pick("z", al)];
            cx.state(&(t, c));
            each(cx, t, |n, d| {
                (0..n).map(|k| match d[k].name {
                    "x" => c[0],
                    "y" => c[1],
                    "z" => c[2],
                    _ => base_bits(3, k, d[k].dt),
                }).collect()
            });
        }),
        scenario("view-range", "9 predefined types, each coordinate through every sign and exponent with several significands, the others distinct", move |cx| {
            let t = cx.choose("type", TYPES);
            let k = cx.choose("coordinate", 3);
            let vs = interesting32(tier);
            cx.state(&(t, k));
            for v in vs {
                each(cx, t, |n, d| {
                    (0..n).map(|j| if d[j].name == ["x", "y", "z"][k] { v as u64 } else { base_bits(5, j, d[j].dt) }).collect()
                });
            }
        }),
    ]
}

fn convert(cx: &mut Cx, c: [u64; 3]) {
    // from f64
    let p = Point3::new(f64::from_bits(c[0]), f64::from_bits(c[1]), f64::from_bits(c[2]));
    let r = cx.catch(|| [PointXYZ::from(p), PointXYZ::from(&p)]);
    match r {
        Ok(v) => {
            for q in v {
                for (k, x) in [q.x, q.y, q.z].into_iter().enumerate() {
                    if !same32(x, narrow(c[k])) {
                        cx.fail("from-f64", format!("coordinate {k}: {:#x} narrows to {:#x}, expected {:#x}", c[k], x.to_bits(), narrow(c[k])))
                    }
                }
            }
        }
        Err(e) => cx.fail("panic", e),
    }
}
fn convert32(cx: &mut Cx, c: [u32; 3]) {
    let p = Point3::new(f32::from_bits(c[0]), f32::from_bits(c[1]), f32::from_bits(c[2]));
    let r = cx.catch(|| {
        let a = PointXYZ::from(p);
        let b = PointXYZ::from(&p);
        let back: [Point3<f32>; 2] = [a.into(), (&b).into()];
        let wide: [Point3<f64>; 2] = [a.into(), (&b).into()];
        ([a, b], back, wide)
    });
    match r {
        Ok((v, back, wide)) => {
            for q in v {
                let g = [q.x.to_bits(), q.y.to_bits(), q.z.to_bits()];
                if g != c {
                    cx.fail("from-f32", format!("{g:x?}, expected {c:x?}"))
                }
            }
            for q in back {
                let g = [q.x.to_bits(), q.y.to_bits(), q.z.to_bits()];
                if g != c {
                    cx.fail("to-f32", format!("{g:x?}, expected {c:x?}"))
                }
            }
            for q in wide {
                for (k, x) in [q.x, q.y, q.z].into_iter().enumerate() {
                    if !same64(x, widen(c[k])) {
                        cx.fail("to-f64", format!("coordinate {k}: {:#x}, expected {:#x}", x.to_bits(), widen(c[k])))
                    }
                }
            }
        }
        Err(e) => cx.fail("panic", e),
    }
}

fn conversions(tier: Tier) -> Vec<Scenario> {
    let al = alphabet(7);
    vec![
        scenario("convert-f32", "every triple of 10 boundary coordinates and every exponent in each coordinate, by value and reference, both directions, f32 and f64", move |cx| {
            if cx.flag("range") {
                let k = cx.choose("coordinate", 3);
                cx.state(&k);
                for v in interesting32(tier) {
                    let mut c = [0x3f80_0001u32, 0xc000_0002, 0x4040_0003];
                    c[k] = v;
                    convert32(cx, c);
                }
            } else {
                let c = [*cx.pick("x", al) as u32, *cx.pick("y", al) as u32, *cx.pick("z", al) as u32];
                cx.state(&c);
                convert32(cx, c);
            }
        }),
        scenario("narrow-f64", "around every f32 with every sign and exponent and several significands: the value, the neighbouring f64, the midpoint to the next f32 and its neighbours, in each coordinate", move |cx| {
            let k = cx.choose("coordinate", 3);
            let part = cx.choose("part", 16);
            cx.state(&(k, part));
            let vs = interesting32(tier);
            for (i, v) in vs.into_iter().enumerate() {
                if i % 16 != part || v & 0x7f80_0000 == 0x7f80_0000 {
                    continue;
                }
                let w = widen(v);
                let up = widen(v.wrapping_add(1)); // next in magnitude; infinity past the largest
                let mid = if nan64(up) || v & 0x7fff_ffff == 0x7f7f_ffff { w + (1 << 28) } else { w / 2 + up / 2 + (w & up & 1) };
                for x in [w, w + 1, w.wrapping_sub(1), mid - 1, mid, mid + 1, up.wrapping_sub(1)] {
                    let mut c = [0x3ff0_0000_0000_0001u64, 0xc008_0000_1000_0000, 0x4010_0000_3000_0000];
                    c[k] = x;
                    convert(cx, c);
                }
            }
        }),
        scenario("narrow-boundaries", "every triple of 11 boundary f64 coordinates, and every f64 exponent with several significands", move |cx| {
            if cx.flag("range") {
                let k = cx.choose("coordinate", 3);
                let e = cx.choose("exponent", 2048) as u64;
                cx.state(&(k, e));
                for s in [0u64, 1 << 63] {
                    for m in [0u64, 1, 1 << 28, (1 << 28) + 1, (1 << 28) - 1, 1 << 29, 3 << 28, (1 << 52) - 1, (1 << 52) - (1 << 28), (1 << 52) - (1 << 28) - 1, 1 << 51] {
                        let mut c = [0x3ff0_0000_0000_0001u64, 0xc008_0000_1000_0000, 0x4010_0000_3000_0000];
                        c[k] = s | e << 52 | m;
                        convert(cx, c);
                    }
                }
            } else {
                let a = alphabet(8);
                let c = [*cx.pick("x", a), *cx.pick("y", a), *cx.pick("z", a)];
                cx.state(&c);
                convert(cx, c);
            }
        }),
    ]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = view_scenarios(tier);
    v.extend(conversions(tier));
    v
}
fn main() {
    run("C20", scenarios)
}
