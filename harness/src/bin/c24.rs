//! C24: a field type's own encoding is used, and only it: datatype, bytes, byte order, decoding.
use harness::*;
use ros_pointcloud2::{
    FieldDatatype, FromBytes, GetFieldDatatype, LayoutDescription, LayoutField, PointConvertible, PointData,
    PointDataBuffer, RPCL2Point,
};

// ---------------------------------------------------------------- encodings

/// A user-defined field type in terms of the bits it holds in memory.
trait Enc: FromBytes + Send + Sync + std::fmt::Debug + 'static {
    const CODE: u8;
    const LABEL: &'static str;
    /// its bytes in a message, as a little-endian number
    fn wire(b: u64) -> u64;
    fn hold(b: u64) -> Self;
    fn held(self) -> u64;
}

/// `$coded` stores something else than it holds (rotated and inverted bits, junk behind its bytes in
/// the buffer it hands out); `$plain` stores what it holds.
macro_rules! enc {
    ($coded:ident, $plain:ident, $u:ty, $dt:ident, $code:expr) => {
        #[derive(Clone, Copy, Default, Debug)]
        struct $coded($u);
        impl GetFieldDatatype for $coded {
            fn field_datatype() -> FieldDatatype {
                FieldDatatype::$dt
            }
        }
        impl From<$coded> for PointDataBuffer {
            fn from(v: $coded) -> Self {
                let mut b = [0xEE; 8];
                let w = (!v.0.rotate_left(3)).to_le_bytes();
                b[..w.len()].copy_from_slice(&w);
                PointDataBuffer::new(b)
            }
        }
        impl FromBytes for $coded {
            fn from_le_bytes(b: PointDataBuffer) -> Self {
                let w = <$u>::from_le_bytes(std::array::from_fn(|k| b[k]));
                $coded((!w).rotate_right(3))
            }
            fn from_be_bytes(b: PointDataBuffer) -> Self {
                let w = <$u>::from_be_bytes(std::array::from_fn(|k| b[k]));
                $coded((!w).rotate_right(3))
            }
        }
        impl Enc for $coded {
            const CODE: u8 = $code;
            const LABEL: &'static str = stringify!($coded);
            fn wire(b: u64) -> u64 {
                !(b as $u).rotate_left(3) as u64
            }
            fn hold(b: u64) -> Self {
                $coded(b as $u)
            }
            fn held(self) -> u64 {
                self.0 as u64
            }
        }
        #[derive(Clone, Copy, Default, Debug)]
        #[repr(transparent)]
        struct $plain($u);
        impl GetFieldDatatype for $plain {
            fn field_datatype() -> FieldDatatype {
                FieldDatatype::$dt
            }
        }
        impl From<$plain> for PointDataBuffer {
            fn from(v: $plain) -> Self {
                v.0.to_le_bytes().into()
            }
        }
        impl FromBytes for $plain {
            fn from_le_bytes(b: PointDataBuffer) -> Self {
                $plain(<$u>::from_le_bytes(std::array::from_fn(|k| b[k])))
            }
            fn from_be_bytes(b: PointDataBuffer) -> Self {
                $plain(<$u>::from_be_bytes(std::array::from_fn(|k| b[k])))
            }
        }
        impl Enc for $plain {
            const CODE: u8 = $code;
            const LABEL: &'static str = stringify!($plain);
            fn wire(b: u64) -> u64 {
                b as $u as u64
            }
            fn hold(b: u64) -> Self {
                $plain(b as $u)
            }
            fn held(self) -> u64 {
                self.0 as u64
            }
        }
    };
}
enc!(CodedI8, PlainI8, u8, I8, I8);
enc!(CodedU8, PlainU8, u8, U8, U8);
enc!(CodedI16, PlainI16, u16, I16, I16);
enc!(CodedU16, PlainU16, u16, U16, U16);
enc!(CodedI32, PlainI32, u32, I32, I32);
enc!(CodedU32, PlainU32, u32, U32, U32);
enc!(CodedF32, PlainF32, u32, F32, F32);
enc!(CodedF64, PlainF64, u64, F64, F64);
enc!(CodedRgb, PlainRgb, u32, RGB, F32);

/// Wider or narrower in memory than in the message: a truth value, and a distance kept as f64 and
/// sent in steps of 1/256.
#[derive(Clone, Copy, Default, Debug)]
struct Truth(bool);
impl GetFieldDatatype for Truth {
    fn field_datatype() -> FieldDatatype {
        FieldDatatype::U8
    }
}
impl From<Truth> for PointDataBuffer {
    fn from(v: Truth) -> Self {
        [if v.0 { 0xAA } else { 0x55 }].into()
    }
}
impl FromBytes for Truth {
    fn from_le_bytes(b: PointDataBuffer) -> Self {
        Truth(b[0] == 0xAA)
    }
    fn from_be_bytes(b: PointDataBuffer) -> Self {
        Truth(b[0] == 0xAA)
    }
}
impl Enc for Truth {
    const CODE: u8 = U8;
    const LABEL: &'static str = "Truth";
    fn wire(b: u64) -> u64 {
        if b & 1 == 1 { 0xAA } else { 0x55 }
    }
    fn hold(b: u64) -> Self {
        Truth(b & 1 == 1)
    }
    fn held(self) -> u64 {
        self.0 as u64
    }
}
#[derive(Clone, Copy, Default, Debug)]
struct Steps(f64);
impl GetFieldDatatype for Steps {
    fn field_datatype() -> FieldDatatype {
        FieldDatatype::U16
    }
}
impl From<Steps> for PointDataBuffer {
    fn from(v: Steps) -> Self {
        ((v.0 * 256.0) as u16).to_le_bytes().into()
    }
}
impl FromBytes for Steps {
    fn from_le_bytes(b: PointDataBuffer) -> Self {
        Steps(u16::from_le_bytes([b[0], b[1]]) as f64 / 256.0)
    }
    fn from_be_bytes(b: PointDataBuffer) -> Self {
        Steps(u16::from_be_bytes([b[0], b[1]]) as f64 / 256.0)
    }
}
impl Enc for Steps {
    const CODE: u8 = U16;
    const LABEL: &'static str = "Steps";
    fn wire(b: u64) -> u64 {
        b & 0xffff
    }
    fn hold(b: u64) -> Self {
        Steps((b & 0xffff) as f64 / 256.0)
    }
    fn held(self) -> u64 {
        (self.0 * 256.0) as u64
    }
}

// ---------------------------------------------------------------- points

/// A point with an encoded field between two ordinary ones.
#[derive(Clone, Copy, Default, Debug)]
#[repr(C)]
struct Ep<E> {
    x: f32,
    e: E,
    t: u8,
}
impl<E: Enc> From<RPCL2Point<3>> for Ep<E> {
    fn from(p: RPCL2Point<3>) -> Self {
        Ep { x: p[0].get(), e: p[1].get(), t: p[2].get() }
    }
}
impl<E: Enc> From<Ep<E>> for RPCL2Point<3> {
    fn from(p: Ep<E>) -> Self {
        [p.x.into(), PointData::new(p.e), p.t.into()].into()
    }
}
const NAMES: [&str; 8] = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"];
unsafe impl<E: Enc> PointConvertible<3> for Ep<E> {
    fn layout() -> LayoutDescription {
        let end = std::mem::offset_of!(Self, t) + 1;
        let eo = std::mem::offset_of!(Self, e);
        let es = std::mem::size_of::<E>();
        LayoutDescription::new(&[
            LayoutField::new("x", "f32", 4),
            LayoutField::padding(eo - 4),
            LayoutField::new("e", NAMES[E::CODE as usize - 1], es),
            LayoutField::padding(end - 1 - eo - es),
            LayoutField::new("t", "u8", 1),
            LayoutField::padding(std::mem::size_of::<Self>() - end),
        ])
    }
}
fn ep<E: Enc>(b: &[u64; 3]) -> Ep<E> {
    Ep { x: Sc::of(b[0]), e: E::hold(b[1]), t: Sc::of(b[2]) }
}
fn eb<E: Enc>(p: &Ep<E>) -> [u64; 3] {
    [p.x.b(), p.e.held(), p.t.b()]
}

/// What a field's decoder was given.
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Seen {
    bytes: [u8; 8],
    big: Option<bool>,
}
impl GetFieldDatatype for Seen {
    fn field_datatype() -> FieldDatatype {
        FieldDatatype::F64
    }
}
impl From<Seen> for PointDataBuffer {
    fn from(v: Seen) -> Self {
        PointDataBuffer::new(v.bytes)
    }
}
impl FromBytes for Seen {
    fn from_le_bytes(b: PointDataBuffer) -> Self {
        Seen { bytes: b.raw(), big: Some(false) }
    }
    fn from_be_bytes(b: PointDataBuffer) -> Self {
        Seen { bytes: b.raw(), big: Some(true) }
    }
}
#[derive(Clone, Copy, Default, Debug)]
struct Sp([Seen; 2]);
impl From<RPCL2Point<2>> for Sp {
    fn from(p: RPCL2Point<2>) -> Self {
        Sp([p[0].get(), p[1].get()])
    }
}
impl From<Sp> for RPCL2Point<2> {
    fn from(p: Sp) -> Self {
        p.0.map(PointData::new).into()
    }
}
unsafe impl PointConvertible<2> for Sp {
    fn layout() -> LayoutDescription {
        // read field by field only, never mapped
        LayoutDescription::new(&[LayoutField::new("p", "f64", 8), LayoutField::new("q", "f64", 8)])
    }
}

// ---------------------------------------------------------------- readers and writers

fn written<E: Enc>(w: Writer, v: Vec<Ep<E>>) -> Result<ros_pointcloud2::PointCloud2Msg, ros_pointcloud2::MsgConversionError> {
    use rayon::iter::IntoParallelIterator;
    use ros_pointcloud2::PointCloud2Msg as M;
    match w {
        Writer::Iter => M::try_from_iter::<3, Ep<E>>(v),
        Writer::Vec => M::try_from_vec::<3, Ep<E>>(v),
        Writer::Par => M::try_from_par_iter::<3, Ep<E>>(v.into_par_iter()),
    }
}
fn readp<const N: usize, P: PointConvertible<N> + Send + Sync>(
    r: Reader,
    m: ros_pointcloud2::PointCloud2Msg,
) -> Result<Vec<P>, ros_pointcloud2::MsgConversionError> {
    use rayon::iter::ParallelIterator;
    match r {
        Reader::Iter => Ok(m.try_into_iter::<N, P>()?.collect()),
        Reader::Vec => m.try_into_vec::<N, P>(),
        Reader::Par => Ok(m.try_into_par_iter::<N, P>()?.collect()),
        Reader::Pub => Ok(Iterator::collect(ros_pointcloud2::iterator::PointCloudIterator::<N, P>::try_from(m)?)),
    }
}

/// boundary values of what the field holds
fn letters<E: Enc>() -> Vec<u64> {
    let mut v: Vec<u64> = alphabet(E::CODE).to_vec();
    v.extend([0x5a, 0xa5]);
    v.into_iter().map(|b| E::hold(b).held()).collect()
}

/// Plain encodings may also be copied as memory; the others go value by value.
fn of<E: Enc>(tier: Tier, plain: bool) -> Vec<Scenario> {
    let size = dt_size(E::CODE);
    let writers: &'static [Writer] = if plain { &WRITERS } else { &[Writer::Iter] };
    let readers: &'static [Reader] = if plain {
        &[Reader::Iter, Reader::Par, Reader::Pub, Reader::Vec]
    } else {
        &[Reader::Iter, Reader::Par, Reader::Pub]
    };
    let nmax = tier.pick(3, 4);
    let bound = tier.pick(2, 3);
    let mut out = vec![scenario(
        format!("cloud-{}", E::LABEL),
        format!("{} writers x {} readers x 0..={nmax} points of f32, {} ({} bytes), u8, boundary values in at most {bound} of the encoded fields", writers.len(), readers.len(), E::LABEL, size),
        move |cx| {
            let w = *cx.pick("writer", writers);
            let r = *cx.pick("reader", readers);
            let n = cx.range("points", 0, nmax);
            cx.dev_bound = bound;
            let al = letters::<E>();
            let v: Vec<[u64; 3]> = (0..n)
                .map(|i| {
                    let k = cx.dev("value", al.len() + 1);
                    let e = if k > 0 { al[k - 1] } else { E::hold(base_bits(i, 1, E::CODE)).held() };
                    [base_bits(i, 0, F32), e, base_bits(i, 2, U8)]
                })
                .collect();
            cx.state(&v);
            cx.note(|| format!("{} {w:?} -> {r:?}: {}", E::LABEL, show(&v)));
            let ps: Vec<Ep<E>> = v.iter().map(ep).collect();
            let m = match cx.catch(|| written(w, ps)) {
                Ok(Ok(m)) => m,
                Ok(Err(e)) => cx.fail("write-error", format!("{e:?}")),
                Err(e) => cx.fail("write-panic", e),
            };
            // the message holds the encoding's datatype and bytes
            let mm = MMsg::of_msg(&m);
            let dts: Vec<u8> = mm.fields.iter().map(|f| f.dt).collect();
            cx.eq(dts, vec![F32, E::CODE, U8], "datatype");
            for (i, p) in v.iter().enumerate() {
                let at = i * mm.step as usize + mm.fields[1].off as usize;
                let want = &E::wire(p[1]).to_le_bytes()[..size];
                let got = mm.data.get(at..at + size);
                if got != Some(want) {
                    cx.fail("bytes", format!("point {i}: bytes {got:x?}, the encoding of {:#x} is {want:x?}", p[1]))
                }
            }
            match cx.catch(|| readp::<3, Ep<E>>(r, m)) {
                Ok(Ok(g)) => {
                    let g: Vec<[u64; 3]> = g.iter().map(eb).collect();
                    if g != v {
                        let d = diff(&g, &v);
                        cx.fail("mismatch", format!("{w:?} then {r:?}: {d}"))
                    }
                }
                Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                Err(e) => cx.fail("read-panic", e),
            }
            cx.outcome("read back");
        },
    )];
    // both byte orders, anywhere in the point, with the field's neighbours set to all ones
    let values = if size <= 2 { 1usize << (8 * size) } else { 0 };
    out.push(scenario(
        format!("order-{}", E::LABEL),
        format!("messages of either byte order with the field at 5 offsets, {} values", if values > 0 { values } else { letters::<E>().len() + 8 * size }),
        move |cx| {
            let big = cx.flag("big-endian");
            let off = *cx.pick("offset", &[4u32, 5, 7, 8, 13]);
            let r = *cx.pick("reader", &[Reader::Iter, Reader::Par, Reader::Pub]);
            cx.state(&(big, off));
            let held: Vec<u64> = if values > 0 {
                (0..values as u64).map(|b| E::hold(b).held()).collect()
            } else {
                let mut v = letters::<E>();
                v.extend((0..8 * size).map(|k| E::hold(1u64 << k).held()));
                v
            };
            let step = off as usize + size + 2;
            let fields = vec![
                MField { name: "t".into(), off: step as u32 - 1, dt: U8, count: 1 },
                MField { name: "e".into(), off, dt: E::CODE, count: 1 },
                MField { name: "x".into(), off: 0, dt: F32, count: 1 },
            ];
            let mut m = message(fields, step, held.len() as u32, 1, big);
            m.data.fill(0xff);
            for (i, h) in held.iter().enumerate() {
                m.put(i * step, base_bits(i, 0, F32), 4);
                m.put(i * step + off as usize, E::wire(*h), size);
                m.put((i + 1) * step - 1, base_bits(i, 2, U8), 1);
            }
            let want: Vec<[u64; 3]> = held.iter().enumerate().map(|(i, h)| [base_bits(i, 0, F32), *h, base_bits(i, 2, U8)]).collect();
            match cx.catch(|| readp::<3, Ep<E>>(r, m.to_msg())) {
                Ok(Ok(g)) => {
                    let g: Vec<[u64; 3]> = g.iter().map(eb).collect();
                    if g != want {
                        let d = diff(&g, &want);
                        cx.fail("mismatch", format!("{} message, offset {off}, {r:?}: {d}", if big { "big-endian" } else { "little-endian" }))
                    }
                }
                Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                Err(e) => cx.fail("read-panic", e),
            }
            cx.steps(held.len() as u64);
            cx.outcome("decoded");
        },
    ));
    out.push(kept::<E>(tier));
    out.push(scenario(
        format!("data-{}", E::LABEL),
        "one value stored as point data and read back",
        move |cx| {
            cx.choose("only", 1);
            cx.state(&0);
            let vs: Vec<u64> = if values > 0 { (0..values as u64).collect() } else { letters::<E>() };
            for b in vs {
                let h = E::hold(b).held();
                let r = cx.catch(|| PointData::new(E::hold(b)).get::<E>().held());
                cx.eq(r, Ok(h), "stored and read back");
            }
            cx.outcome("kept");
        },
    ));
    out
}

/// A point that keeps some of its fields as they came, undecoded.
#[derive(Clone, Copy)]
struct Kept<E> {
    x: f32,
    e: PointData,
    t: PointData,
    of: std::marker::PhantomData<E>,
}
impl<E: Enc> Default for Kept<E> {
    fn default() -> Self {
        Kept { x: 0.0, e: PointData::new(E::default()), t: 0u8.into(), of: Default::default() }
    }
}
impl<E: Enc> From<RPCL2Point<3>> for Kept<E> {
    fn from(p: RPCL2Point<3>) -> Self {
        Kept { x: p[0].get(), e: p[1], t: p[2], of: Default::default() }
    }
}
impl<E: Enc> From<Kept<E>> for RPCL2Point<3> {
    fn from(p: Kept<E>) -> Self {
        [p.x.into(), p.e, p.t].into()
    }
}
unsafe impl<E: Enc> PointConvertible<3> for Kept<E> {
    fn layout() -> LayoutDescription {
        // read and written field by field only, never mapped
        LayoutDescription::new(&[
            LayoutField::new("x", "f32", 4),
            LayoutField::new("e", NAMES[E::CODE as usize - 1], dt_size(E::CODE)),
            LayoutField::new("t", "u8", 1),
        ])
    }
}

/// point data that stays undecoded: its value is the same wherever it goes
fn kept<E: Enc>(tier: Tier) -> Scenario {
    let size = dt_size(E::CODE);
    let nmax = tier.pick(2, 3);
    let hops = tier.pick(2, 3);
    scenario(
        format!("kept-{}", E::LABEL),
        format!("messages of either byte order, field at 3 offsets, 0..={nmax} points of boundary values, read by 3 readers, kept undecoded, put into up to {hops} further messages and decoded at the end"),
        move |cx| {
            let big = cx.flag("big-endian");
            let off = *cx.pick("offset", &[4u32, 5, 8]);
            let r = *cx.pick("reader", &[Reader::Iter, Reader::Par, Reader::Pub]);
            let n = cx.range("points", 0, nmax);
            let hop = cx.range("hops", 0, hops);
            let al = letters::<E>();
            cx.dev_bound = 2;
            let v: Vec<[u64; 3]> = (0..n)
                .map(|i| {
                    let k = cx.dev("value", al.len() + 1);
                    let e = if k > 0 { al[k - 1] } else { E::hold(base_bits(i, 1, E::CODE)).held() };
                    [base_bits(i, 0, F32), e, base_bits(i, 2, U8)]
                })
                .collect();
            cx.state(&(&v, big, off, hop));
            cx.note(|| format!("{} big {big} offset {off} {hop} hops {r:?}: {}", E::LABEL, show(&v)));
            let step = off as usize + size + 2;
            let fields = vec![
                MField { name: "t".into(), off: step as u32 - 1, dt: U8, count: 1 },
                MField { name: "e".into(), off, dt: E::CODE, count: 1 },
                MField { name: "x".into(), off: 0, dt: F32, count: 1 },
            ];
            let mut m = message(fields, step, n as u32, 1, big);
            m.data.fill(0x3c);
            for (i, p) in v.iter().enumerate() {
                m.put(i * step, p[0], 4);
                m.put(i * step + off as usize, E::wire(p[1]), size);
                m.put((i + 1) * step - 1, p[2], 1);
            }
            let mut msg = m.to_msg();
            for h in 0..=hop {
                let ks = match cx.catch(|| readp::<3, Kept<E>>(r, msg)) {
                    Ok(Ok(g)) => g,
                    Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                    Err(e) => cx.fail("read-panic", e),
                };
                // decoded on the way, twice
                for _ in 0..2 {
                    let g: Vec<[u64; 3]> = ks.iter().map(|k| [k.x.b(), k.e.get::<E>().held(), k.t.get::<u8>() as u64]).collect();
                    if g != v {
                        let d = diff(&g, &v);
                        cx.fail("kept", format!("after {h} messages: {d}"))
                    }
                }
                if h == hop {
                    break;
                }
                msg = match cx.catch(|| ros_pointcloud2::PointCloud2Msg::try_from_iter::<3, Kept<E>>(ks)) {
                    Ok(Ok(m)) => m,
                    Ok(Err(e)) => cx.fail("write-error", format!("{e:?}")),
                    Err(e) => cx.fail("write-panic", e),
                };
                // and by a reader that decodes
                match cx.catch(|| readp::<3, Ep<E>>(r, msg.clone())) {
                    Ok(Ok(g)) => {
                        let g: Vec<[u64; 3]> = g.iter().map(eb).collect();
                        if g != v {
                            let d = diff(&g, &v);
                            cx.fail("forwarded", format!("message {}: {d}", h + 1))
                        }
                    }
                    Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                    Err(e) => cx.fail("read-panic", e),
                }
            }
            cx.outcome(if big { "kept from big-endian" } else { "kept" });
        },
    )
}

/// what a decoder is given: the stored bytes of its field, then zeros, through the method for the order
fn given(tier: Tier) -> Scenario {
    let nmax = tier.pick(3, 6);
    scenario(
        "given",
        format!("two fields of any of the 8 datatypes x 6 offsets each (overlapping ones too) x listing order x byte order x 3 readers x 1..={nmax} points"),
        move |cx| {
            const OFF: [u32; 6] = [0, 1, 3, 8, 12, 21];
            let dt = [1 + cx.choose("datatype", 8) as u8, 1 + cx.choose("datatype", 8) as u8];
            let off = [*cx.pick("offset", &OFF), *cx.pick("offset", &OFF)];
            let swap = cx.flag("listed second first");
            let big = cx.flag("big-endian");
            let n = cx.range("points", 1, nmax);
            let end = (0..2).map(|k| off[k] as usize + dt_size(dt[k])).max().unwrap_or(0);
            let step = end + cx.choose("tail", 2) * 3;
            cx.state(&(dt, off, swap, big, n, step));
            let mut fields = vec![
                MField { name: "p".into(), off: off[0], dt: dt[0], count: 1 },
                MField { name: "q".into(), off: off[1], dt: dt[1], count: 1 },
            ];
            if swap {
                fields.swap(0, 1);
            }
            let mut m = message(fields, step, n as u32, 1, big);
            for (k, b) in m.data.iter_mut().enumerate() {
                *b = pattern(k) | 1;
            }
            for r in [Reader::Iter, Reader::Par, Reader::Pub] {
                let g = match cx.catch(|| readp::<2, Sp>(r, m.to_msg())) {
                    Ok(Ok(g)) => g,
                    Ok(Err(e)) => cx.fail("read-error", format!("{e:?}")),
                    Err(e) => cx.fail("read-panic", e),
                };
                cx.eq(g.len(), n, "count");
                for (i, p) in g.iter().enumerate() {
                    for k in 0..2 {
                        let at = i * step + off[k] as usize;
                        let mut want = Seen { bytes: [0; 8], big: Some(big) };
                        let s = dt_size(dt[k]);
                        want.bytes[..s].copy_from_slice(&m.data[at..at + s]);
                        if p.0[k] != want {
                            cx.fail("given", format!("{r:?} point {i} field {k} of datatype {} at {}: decoder got {:x?}, expected {want:x?}", dt[k], off[k], p.0[k]))
                        }
                    }
                }
            }
            cx.outcome("given its bytes");
        },
    )
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![given(tier)];
    macro_rules! each {
        ($($c:ident $p:ident),*) => { $( v.extend(of::<$c>(tier, false)); v.extend(of::<$p>(tier, true)); )* };
    }
    each!(CodedI8 PlainI8, CodedU8 PlainU8, CodedI16 PlainI16, CodedU16 PlainU16, CodedI32 PlainI32,
        CodedU32 PlainU32, CodedF32 PlainF32, CodedF64 PlainF64, CodedRgb PlainRgb);
    v.extend(of::<Truth>(tier, false));
    v.extend(of::<Steps>(tier, false));
    v
}
fn main() {
    run("C24", scenarios)
}
