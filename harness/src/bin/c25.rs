//! C25: predefined points keep each value in the field of its name.
use harness::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::{PointData, RPCL2Point};

/// A predefined point: its arguments to `new` are the fields, colours as three channels.
trait Pre<const N: usize>: Pt<N> + Copy + PartialEq + std::fmt::Debug {
    /// `new` called with the given field values
    fn built(b: &[u64]) -> Self;
    fn fields(p: RPCL2Point<N>) -> [u64; N];
    fn generic(b: &[u64]) -> [PointData; N];
}
macro_rules! get {
    ($p:ident, $k:ident, rgb) => { $p[$k].get::<RGB>().b() };
    ($p:ident, $k:ident, label) => { $p[$k].get::<u32>().b() };
    ($p:ident, $k:ident, a) => { $p[$k].get::<u8>().b() };
    ($p:ident, $k:ident, $f:ident) => { $p[$k].get::<f32>().b() };
}
macro_rules! data {
    ($b:expr, rgb) => { PointData::new(RGB::of($b)) };
    ($b:expr, label) => { PointData::new(u32::of($b)) };
    ($b:expr, a) => { PointData::new(u8::of($b)) };
    ($b:expr, $f:ident) => { PointData::new(f32::of($b)) };
}
macro_rules! pre {
    ($t:ident, $n:expr, [$($f:ident),*], |$b:ident| $new:expr) => {
        impl Pre<$n> for $t {
            fn built($b: &[u64]) -> Self { $new }
            #[allow(unused_assignments)]
            fn fields(p: RPCL2Point<$n>) -> [u64; $n] {
                let mut k = 0;
                [$({ let v = get!(p, k, $f); k += 1; v }),*]
            }
            #[allow(unused_assignments)]
            fn generic(b: &[u64]) -> [PointData; $n] {
                let mut k = 0;
                [$({ let v = data!(b[k], $f); k += 1; v }),*]
            }
        }
    };
}
fn f(b: u64) -> f32 {
    f32::of(b)
}
fn ch(b: u64, k: u32) -> u8 {
    (b >> (8 * k)) as u8
}
pre!(PointXYZ, 3, [x, y, z], |b| PointXYZ::new(f(b[0]), f(b[1]), f(b[2])));
pre!(PointXYZI, 4, [x, y, z, intensity], |b| PointXYZI::new(f(b[0]), f(b[1]), f(b[2]), f(b[3])));
pre!(PointXYZL, 4, [x, y, z, label], |b| PointXYZL::new(f(b[0]), f(b[1]), f(b[2]), b[3] as u32));
pre!(PointXYZRGB, 4, [x, y, z, rgb], |b| PointXYZRGB::new(f(b[0]), f(b[1]), f(b[2]), ch(b[3], 2), ch(b[3], 1), ch(b[3], 0)));
pre!(PointXYZRGBA, 5, [x, y, z, rgb, a], |b| PointXYZRGBA::new(f(b[0]), f(b[1]), f(b[2]), ch(b[3], 2), ch(b[3], 1), ch(b[3], 0), b[4] as u8));
pre!(PointXYZRGBNormal, 7, [x, y, z, rgb, normal_x, normal_y, normal_z],
    |b| PointXYZRGBNormal::new(f(b[0]), f(b[1]), f(b[2]), RGB::of(b[3]), f(b[4]), f(b[5]), f(b[6])));
pre!(PointXYZINormal, 7, [x, y, z, intensity, normal_x, normal_y, normal_z],
    |b| PointXYZINormal::new(f(b[0]), f(b[1]), f(b[2]), f(b[3]), f(b[4]), f(b[5]), f(b[6])));
pre!(PointXYZRGBL, 5, [x, y, z, rgb, label],
    |b| PointXYZRGBL::new(f(b[0]), f(b[1]), f(b[2]), ch(b[3], 2), ch(b[3], 1), ch(b[3], 0), b[4] as u32));
pre!(PointXYZNormal, 6, [x, y, z, normal_x, normal_y, normal_z],
    |b| PointXYZNormal::new(f(b[0]), f(b[1]), f(b[2]), f(b[3]), f(b[4]), f(b[5])));

/// does `new` take this field as a whole (a colour given by channels has no fourth byte)
fn by_channels<const N: usize, P: Pt<N>>(k: usize) -> bool {
    P::decl()[k].name == "rgb" && P::LABEL != "PointXYZRGBNormal"
}

fn float(b: u64) -> f32 {
    f32::of(b)
}
fn same_value(d: &Decl, a: u64, b: u64) -> bool {
    match (d.name, d.dt) {
        ("rgb", _) => a & 0xff_ffff == b & 0xff_ffff,
        (_, F32) => float(a) == float(b),
        _ => a == b,
    }
}

/// the alphabet of a field, a colour's patterns being 32 bit ones
fn letters(d: &Decl) -> Vec<u64> {
    let mut v = alphabet(d.dt).to_vec();
    if d.name == "rgb" {
        v.extend([0x0001_0203, 0x00ff_0000, 0x0000_ff00, 0x0000_00ff, 0xff00_0000, 0x0080_4020, 0x007f_80ff]);
    }
    v
}

fn point<const N: usize, P: Pre<N>>(cx: &mut Cx, shift: usize) -> [u64; N] {
    let d = P::decl();
    let mut b: [u64; N] = std::array::from_fn(|k| base_bits(shift, k, d[k].dt));
    for k in 0..N {
        let al = letters(&d[k]);
        let c = cx.dev("value", al.len() + 1);
        if c > 0 {
            b[k] = al[c - 1];
        }
    }
    b
}

fn of<const N: usize, P: Pre<N>>(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    let shifts = tier.pick(8, 32);
    vec![
        scenario(
            format!("fields-{}", P::LABEL),
            format!("{shifts} base points x boundary values in at most {bound} fields: constructor, copy, conversion to and from the generic point"),
            move |cx| {
                let s = cx.choose("base", shifts);
                cx.dev_bound = bound;
                let b = point::<N, P>(cx, s);
                cx.state(&b);
                let want: [u64; N] = std::array::from_fn(|k| if by_channels::<N, P>(k) { b[k] & 0xff_ffff } else { b[k] });
                let r = cx.catch(|| P::built(&b).bits());
                cx.eq(r, Ok(want), "constructor");
                let p = P::of_bits(&b);
                let r = cx.catch(|| {
                    let q = p;
                    #[allow(clippy::clone_on_copy)]
                    let c = p.clone();
                    (q.bits(), c.bits())
                });
                cx.eq(r, Ok((b, b)), "copy");
                let r = cx.catch(|| P::fields(p.into()));
                cx.eq(r, Ok(b), "to-generic");
                let r = cx.catch(|| P::from(RPCL2Point::from(P::generic(&b))).bits());
                cx.eq(r, Ok(b), "from-generic");
                let r = cx.catch(|| P::fields(RPCL2Point::from(P::generic(&b))));
                cx.eq(r, Ok(b), "generic");
                let r = cx.catch(|| format!("{p:?}").is_empty());
                cx.eq(r, Ok(false), "debug");
                cx.outcome("kept");
            },
        ),
        scenario(
            format!("floats-{}", P::LABEL),
            "every field of 4 bytes through every sign and exponent with several significands, the others distinct",
            move |cx| {
                let k = cx.choose("field", N);
                let d = P::decl();
                if d[k].size() != 4 {
                    return;
                }
                let sign = cx.choose("sign", 2) as u64;
                cx.state(&(k, sign));
                for e in 0..256u64 {
                    for m in [0u64, 1, 0x40_0000, 0x40_0001, 0x7f_ffff, 0x2a_5a5a, 0x15_a5a5, 0x10_0000] {
                        let mut b: [u64; N] = std::array::from_fn(|j| base_bits(3, j, d[j].dt));
                        b[k] = sign << 31 | e << 23 | m;
                        let want: [u64; N] = std::array::from_fn(|j| if by_channels::<N, P>(j) { b[j] & 0xff_ffff } else { b[j] });
                        let r = cx.catch(|| (P::built(&b).bits(), P::fields(P::of_bits(&b).into()), P::from(RPCL2Point::from(P::generic(&b))).bits()));
                        if r != Ok((want, b, b)) {
                            cx.fail("float", format!("field {k} = {:#x}: {r:x?}, expected {want:x?} and twice {b:x?}", b[k]))
                        }
                    }
                }
                cx.outcome("kept");
            },
        ),
        scenario(
            format!("equality-{}", P::LABEL),
            format!("every two points that differ in at most {bound} fields by boundary values: equal exactly when every field is (IEEE floats, colours by channel)"),
            move |cx| {
                let s = cx.choose("base", 2);
                let same = cx.flag("same base");
                cx.dev_bound = bound;
                let a = point::<N, P>(cx, s);
                let b = point::<N, P>(cx, if same { s } else { 1 - s });
                cx.state(&(a, b));
                let d = P::decl();
                let want = (0..N).all(|k| same_value(&d[k], a[k], b[k]));
                let (p, q) = (P::of_bits(&a), P::of_bits(&b));
                #[allow(clippy::nonminimal_bool)]
                let r = cx.catch(|| [p == q, q == p, !(p != q), !(q != p)]);
                cx.eq(r, Ok([want; 4]), "equality");
                cx.outcome(if want { "equal" } else { "different" });
            },
        ),
        scenario(format!("default-{}", P::LABEL), "the default point", move |cx| {
            cx.choose("only", 1);
            cx.state(&0);
            let r = cx.catch(|| P::default().bits());
            cx.eq(r, Ok([0; N]), "default");
            cx.outcome("zero");
        }),
    ]
}
fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = of::<3, PointXYZ>(tier);
    v.extend(of::<4, PointXYZI>(tier));
    v.extend(of::<4, PointXYZL>(tier));
    v.extend(of::<4, PointXYZRGB>(tier));
    v.extend(of::<5, PointXYZRGBA>(tier));
    v.extend(of::<7, PointXYZRGBNormal>(tier));
    v.extend(of::<7, PointXYZINormal>(tier));
    v.extend(of::<5, PointXYZRGBL>(tier));
    v.extend(of::<6, PointXYZNormal>(tier));
    v
}
fn main() {
    run("C25", scenarios)
}
