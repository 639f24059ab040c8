//! C14: scalar values survive encoding and decoding bit for bit.
use harness::*;
use ros_pointcloud2::points::RGB;
use ros_pointcloud2::{FieldDatatype, FromBytes, LayoutDescription, LayoutField, PointCloud2Msg, PointConvertible, PointData, PointDataBuffer, RPCL2Point};

/// A value and a mark behind it. Written through the iterator writer, which goes by the datatype each
/// value reports; made with `PointData::new` (`New`) or the `From` conversion (`Via`).
macro_rules! rec {
    ($n:ident, $make:ident, $($bound:tt)*) => {
        #[derive(Clone, Copy)]
        struct $n<T>(T, u8);
        impl<T: Sc + FromBytes> Default for $n<T> {
            fn default() -> Self {
                $n(T::of(0), 0)
            }
        }
        impl<T: Sc + FromBytes> From<RPCL2Point<2>> for $n<T> {
            fn from(p: RPCL2Point<2>) -> Self {
                $n(p[0].get(), p[1].get())
            }
        }
        impl<T: Sc + FromBytes> From<$n<T>> for RPCL2Point<2> where $($bound)* {
            fn from(p: $n<T>) -> Self {
                [PointData::$make(p.0), PointData::new(p.1)].into()
            }
        }
        unsafe impl<T: Sc + FromBytes> PointConvertible<2> for $n<T> where $($bound)* {
            fn layout() -> LayoutDescription {
                LayoutDescription::new(&[LayoutField::new("v", T::NAME, dt_size(T::CODE)), LayoutField::new("mark", "u8", 1)])
            }
        }
        impl<T: Sc + FromBytes> $n<T> where $($bound)* {
            fn record(vs: &mut dyn Iterator<Item = u64>) -> Result<(), &'static str> {
                let vs: Vec<u64> = vs.collect();
                let n = dt_size(T::CODE);
                let m = PointCloud2Msg::try_from_iter::<2, Self>(vs.iter().map(|v| $n(T::of(*v), !(*v as u8)))).map_err(|_| "refused by the iterator writer")?;
                if m.point_step as usize != n + 1 || m.fields.len() != 2 || m.fields[0].datatype != T::CODE || m.data.len() != vs.len() * (n + 1) {
                    return Err("written with another datatype");
                }
                for (c, v) in m.data.chunks(n + 1).zip(&vs) {
                    if c[..n] != v.to_le_bytes()[..n] || c[n] != !(*v as u8) {
                        return Err("written by the iterator writer");
                    }
                }
                match m.try_into_iter::<2, Self>() {
                    Ok(it) => {
                        let mut k = 0;
                        for (p, v) in it.zip(&vs) {
                            if p.0.b() != *v || p.1 != !(*v as u8) {
                                return Err("written and read back");
                            }
                            k += 1;
                        }
                        if k != vs.len() {
                            return Err("number of values read back");
                        }
                        Ok(())
                    }
                    Err(_) => Err("refused by the iterator reader"),
                }
            }
        }
    };
}
rec!(New, new, T: Sc);
rec!(Via, from, PointData: From<T>);

/// One value; `Err` describes what went wrong. No explorer calls: this runs in tight loops.
#[inline]
fn one<T: Sc + FromBytes>(v: u64, dt: FieldDatatype) -> Result<(), &'static str> {
    let n = dt_size(T::CODE);
    let le = v.to_le_bytes();
    let t = T::of(v);
    if T::field_datatype() != dt {
        return Err("datatype");
    }
    if PointData::new(t).get::<T>().b() != v {
        return Err("stored and read back");
    }
    // its image: the little-endian bytes, then zeros (the upper bytes of v are zero)
    let img: PointDataBuffer = t.into();
    if img.as_slice() != le {
        return Err("byte image");
    }
    if (0..8).any(|k| img[k] != le[k]) || img.raw() != le {
        return Err("byte image by index");
    }
    // decoding looks at the value's own bytes only
    let mut l = [0xA5u8; 8];
    let mut b = [0x5Au8; 8];
    for k in 0..n {
        l[k] = le[k];
        b[n - 1 - k] = le[k];
    }
    if T::from_le_bytes(PointDataBuffer::new(l)).b() != v {
        return Err("little-endian decoding");
    }
    if T::from_be_bytes(PointDataBuffer::new(b)).b() != v {
        return Err("big-endian decoding");
    }
    if T::from_le_bytes(PointDataBuffer::from_slice(&le[..n])).b() != v
        || T::from_be_bytes(PointDataBuffer::from(&b[..n])).b() != v
    {
        return Err("decoding from a slice");
    }
    Ok(())
}
/// The `From` conversions, where they exist.
#[inline]
fn via_from<T: Sc + FromBytes>(v: u64) -> Result<(), &'static str>
where
    PointData: From<T>,
{
    if PointData::from(T::of(v)).get::<T>().b() != v {
        return Err("From and read back");
    }
    Ok(())
}

/// the `From` conversions of a type: one value read back, and many written
#[derive(Clone, Copy)]
struct Conv {
    one: fn(u64) -> Result<(), &'static str>,
    record: fn(&mut dyn Iterator<Item = u64>) -> Result<(), &'static str>,
}
fn conv<T: Sc + FromBytes>() -> Conv
where
    PointData: From<T>,
{
    Conv { one: via_from::<T>, record: Via::<T>::record }
}

fn all<T: Sc + FromBytes>(cx: &mut Cx, vs: impl Iterator<Item = u64> + Clone, dt: FieldDatatype, from: Conv) {
    let mut n = 0;
    let vs2 = vs.clone();
    let r = cx.catch(|| {
        for v in vs {
            n += 1;
            if let Err(e) = one::<T>(v, dt).and_then(|_| (from.one)(v)) {
                return Some((v, e));
            }
        }
        None
    });
    cx.steps(n * 8);
    match r {
        Ok(None) => {}
        Ok(Some((v, e))) => cx.fail(format!("{}-{e}", T::NAME), format!("{} with bits {v:#x}: {e}", T::NAME)),
        Err(e) => {
            let v = vs2.take(n as usize).last();
            cx.fail("panic", format!("{} with bits {v:x?}: {e}", T::NAME))
        }
    }
    let r = cx.catch(|| {
        if n <= 1 << 16 {
            New::<T>::record(&mut vs2.clone())?;
            return (from.record)(&mut vs2.clone());
        }
        // the exhaustive sweep: once, in the faster build, in pieces
        if cfg!(debug_assertions) {
            return Ok(());
        }
        let mut rest = vs2.clone();
        for _ in 0..n.div_ceil(1 << 14) {
            (from.record)(&mut rest.by_ref().take(1 << 14))?;
        }
        Ok(())
    });
    let span = || format!("{} with bits from {:x?}", T::NAME, vs2.clone().next());
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => cx.fail(format!("{}-{e}", T::NAME), format!("{}: {e}", span())),
        Err(e) => cx.fail("panic", format!("{}: {e}", span())),
    }
}
const NONE: Conv = Conv { one: |_| Ok(()), record: |_| Ok(()) };

const B: [u64; 24] = [
    0, 1, 2, 3, 7, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x55, 0x7e, 0x7f, 0x80, 0x81, 0x9f, 0xaa, 0xbf, 0xc0, 0xe0, 0xf0, 0xfe, 0xff,
];

fn wide<T: Sc + FromBytes>(tier: Tier, dt: FieldDatatype, from: Conv) -> Vec<Scenario> {
    let mut v = vec![scenario(
        format!("bytes-{}", T::NAME),
        "every 32-bit pattern made of 24 boundary bytes in each position",
        move |cx| {
            let hi = *cx.pick("byte3", &B);
            let b2 = *cx.pick("byte2", &B);
            cx.state(&(hi, b2));
            let base = hi << 24 | b2 << 16;
            all::<T>(cx, B.iter().flat_map(move |x| B.iter().map(move |y| base | x << 8 | y)), dt, from);
        },
    ), scenario(
        format!("halves-{}", T::NAME),
        "every low half of 32 bits under 24 high halves, and every high half over 24 low halves",
        move |cx| {
            let k = *cx.pick("fixed", &B);
            let k = k << 8 | (k ^ 0x5a);
            let high = cx.flag("high");
            let chunk = cx.choose("chunk", 16) as u64;
            cx.state(&(k, high, chunk));
            all::<T>(cx, (chunk * 4096..(chunk + 1) * 4096).map(move |x| if high { x << 16 | k } else { k << 16 | x }), dt, from);
        },
    )];
    if tier == Tier::Thorough {
        v.push(scenario(format!("exhaustive-{}", T::NAME), "all 2^32 patterns", move |cx| {
            let hi = cx.choose("high", 4096) as u64;
            cx.state(&hi);
            all::<T>(cx, (hi << 20)..((hi + 1) << 20), dt, from);
        }));
    }
    v
}
fn narrow<T: Sc + FromBytes>(dt: FieldDatatype, from: Conv) -> Vec<Scenario> {
    let bits = 8 * dt_size(T::CODE) as u32;
    vec![scenario(format!("exhaustive-{}", T::NAME), format!("all 2^{bits} patterns"), move |cx| {
        let k = cx.choose("high", 1 << (bits / 2)) as u64;
        cx.state(&k);
        let s = bits / 2;
        all::<T>(cx, (k << s)..((k + 1) << s), dt, from);
    })]
}
fn f64s(tier: Tier) -> Vec<Scenario> {
    // 6 (thorough 12) bytes per position
    let few: &'static [u64] = tier.pick(&[0, 1, 0x7f, 0x80, 0xf0, 0xff], &[0, 1, 0x0f, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xf0, 0xff]);
    vec![
        scenario("bytes-f64", format!("every 64-bit pattern made of the bytes {few:x?} in each position"), move |cx| {
            let mut base = 0u64;
            for s in [56, 48, 40, 32] {
                base |= *cx.pick("byte", few) << s;
            }
            cx.state(&base);
            all::<f64>(
                cx,
                few.iter().flat_map(move |a| few.iter().flat_map(move |b| few.iter().flat_map(move |c| few.iter().map(move |d| base | a << 24 | b << 16 | c << 8 | d)))),
                FieldDatatype::F64,
                conv::<f64>(),
            );
        }),
        scenario("fields-f64", "every sign and exponent with 60 significands (every single bit, its complement)", move |cx| {
            let top = cx.choose("sign and exponent", 4096) as u64;
            cx.state(&top);
            let m = (1u64 << 52) - 1;
            all::<f64>(cx, (0..52u32).flat_map(move |b| [1u64 << b, m ^ (1 << b), m >> b]).map(move |x| top << 52 | x), FieldDatatype::F64, conv::<f64>());
        }),
    ]
}

/// a value stored first and decoded many times, copied, and next to others
fn sequences() -> Vec<Scenario> {
    vec![scenario("copies", "pairs of values of all types stored side by side, copied, read in either order, twice", move |cx| {
        let mut pd = vec![];
        let mut want = vec![];
        for _ in 0..2 {
            let t = cx.choose("type", 9);
            let dt = [1, 2, 3, 4, 5, 6, 7, 8, 7][t];
            let v = *cx.pick("value", alphabet(dt));
            pd.push(match t {
                0 => PointData::new(i8::of(v)),
                1 => PointData::new(u8::of(v)),
                2 => PointData::new(i16::of(v)),
                3 => PointData::new(u16::of(v)),
                4 => PointData::new(i32::of(v)),
                5 => PointData::new(u32::of(v)),
                6 => PointData::new(f32::of(v)),
                7 => PointData::new(f64::of(v)),
                _ => PointData::new(RGB::of(v)),
            });
            want.push((t, v));
        }
        cx.state(&want);
        let first = cx.choose("first", 2);
        let copy = pd.clone();
        for i in [first, 1 - first, first] {
            for p in [&pd[i], &copy[i]] {
                let (t, v) = want[i];
                let g = match t {
                    0 => p.get::<i8>().b(),
                    1 => p.get::<u8>().b(),
                    2 => p.get::<i16>().b(),
                    3 => p.get::<u16>().b(),
                    4 => p.get::<i32>().b(),
                    5 => p.get::<u32>().b(),
                    6 => p.get::<f32>().b(),
                    7 => p.get::<f64>().b(),
                    _ => p.get::<RGB>().b(),
                };
                cx.step();
                if g != v {
                    cx.fail("copies", format!("type {t}: stored {v:#x}, read {g:#x}"))
                }
            }
        }
    })]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    use FieldDatatype as D;
    let mut v = vec![];
    v.extend(narrow::<i8>(D::I8, conv::<i8>()));
    v.extend(narrow::<u8>(D::U8, conv::<u8>()));
    v.extend(narrow::<i16>(D::I16, conv::<i16>()));
    v.extend(narrow::<u16>(D::U16, conv::<u16>()));
    v.extend(wide::<i32>(tier, D::I32, conv::<i32>()));
    v.extend(wide::<u32>(tier, D::U32, conv::<u32>()));
    v.extend(wide::<f32>(tier, D::F32, conv::<f32>()));
    v.extend(wide::<RGB>(tier, D::RGB, NONE));
    v.extend(f64s(tier));
    v.extend(sequences());
    v
}
fn main() {
    run("C14", scenarios)
}
