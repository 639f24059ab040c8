//! C21: the same conversions, whatever the crate is built with. Every execution of every scenario is
//! reduced to a canonical text; the driver compares the texts of all builds.
//!   feat digest TIER            one line per block of executions
//!   feat show TIER SCENARIO BLOCK   one line per execution of a block
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg};
use ros_pointcloud2::*;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

const BLOCK: u64 = 2048;

// ---------------------------------------------------------------- enumeration

struct Cx {
    path: Vec<(u32, u32)>,
    at: usize,
    devs: usize,
    bound: usize,
}
impl Cx {
    fn choose(&mut self, n: usize) -> usize {
        if self.at == self.path.len() {
            self.path.push((0, n as u32));
        }
        let (c, m) = self.path[self.at];
        assert_eq!(m, n as u32);
        self.at += 1;
        c as usize
    }
    fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.choose(v.len())]
    }
    /// a choice that is not the first one counts against the bound
    fn dev<T: Copy>(&mut self, v: &[T]) -> T {
        if self.devs >= self.bound {
            return v[0];
        }
        let k = self.choose(v.len());
        self.devs += (k > 0) as usize;
        v[k]
    }
    fn next(&mut self) -> bool {
        self.at = 0;
        self.devs = 0;
        self.bound = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

fn run(show: Option<(&str, u64)>, thorough: bool) {
    for (name, f) in SCENARIOS {
        if show.is_some_and(|s| s.0 != *name) {
            continue;
        }
        let mut cx = Cx { path: vec![], at: 0, devs: 0, bound: 0 };
        let mut k = 0u64;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let mut out = String::new();
        let mut kinds = std::collections::BTreeMap::<String, u64>::new();
        loop {
            out.clear();
            f(&mut cx, &mut out, thorough);
            out.hash(&mut h);
            if let Some((_, b)) = show {
                if k / BLOCK == b {
                    let p: Vec<u32> = cx.path.iter().map(|x| x.0).collect();
                    println!("{p:?} {}", out.replace('\n', " "));
                }
            }
            let kind = out.rsplit("=> ").next().unwrap_or("").split(|c: char| !c.is_alphabetic()).next().unwrap_or("").to_string();
            *kinds.entry(kind).or_default() += 1;
            k += 1;
            let more = cx.next();
            if k % BLOCK == 0 || !more {
                if show.is_none() {
                    println!("{name} {} {:016x} {}", (k - 1) / BLOCK, h.finish(), (k - 1) % BLOCK + 1);
                }
                h = std::collections::hash_map::DefaultHasher::new();
            }
            if !more {
                break;
            }
        }
        if show.is_none() {
            for (o, n) in kinds {
                println!("kind {name}:{o} {n}");
            }
        }
    }
}

// ---------------------------------------------------------------- points

trait Bits: Clone {
    fn bits(&self) -> Vec<u64>;
    fn of(b: &[u64]) -> Self;
    fn fields() -> Vec<(&'static str, u8)>;
}
trait Scalar: Copy {
    const CODE: u8;
    fn b(self) -> u64;
    fn of(b: u64) -> Self;
}
macro_rules! scalars { ($($t:ty, $u:ty, $c:expr);*) => {$(
    impl Scalar for $t { const CODE: u8 = $c; fn b(self) -> u64 { self as $u as u64 } fn of(b: u64) -> Self { b as $u as $t } }
)*} }
scalars!(i8, u8, 1; u8, u8, 2; i16, u16, 3; u16, u16, 4; i32, u32, 5; u32, u32, 6);
impl Scalar for f32 {
    const CODE: u8 = 7;
    fn b(self) -> u64 {
        self.to_bits() as u64
    }
    fn of(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}
impl Scalar for f64 {
    const CODE: u8 = 8;
    fn b(self) -> u64 {
        self.to_bits()
    }
    fn of(b: u64) -> Self {
        f64::from_bits(b)
    }
}
impl Scalar for RGB {
    const CODE: u8 = 7;
    fn b(self) -> u64 {
        self.raw().to_bits() as u64
    }
    fn of(b: u64) -> Self {
        RGB::new_from_packed(b as u32)
    }
}
fn code<T, F: Scalar>(_: fn(&T) -> F) -> u8 {
    F::CODE
}
macro_rules! bits { ($t:ident, [$($f:ident),*]) => {
    impl Bits for $t {
        fn bits(&self) -> Vec<u64> { vec![$({ let v = self.$f; Scalar::b(v) }),*] }
        #[allow(unused_assignments)]
        fn of(b: &[u64]) -> Self { let mut k = 0; $(let $f = Scalar::of(b[k]); k += 1;)* $t { $($f),* } }
        fn fields() -> Vec<(&'static str, u8)> { vec![$((stringify!($f), code(|p: &$t| p.$f))),*] }
    }
} }
bits!(PointXYZ, [x, y, z]);
bits!(PointXYZI, [x, y, z, intensity]);
bits!(PointXYZL, [x, y, z, label]);
bits!(PointXYZRGB, [x, y, z, rgb]);
bits!(PointXYZRGBA, [x, y, z, rgb, a]);
bits!(PointXYZRGBL, [x, y, z, rgb, label]);
bits!(PointXYZNormal, [x, y, z, normal_x, normal_y, normal_z]);
bits!(PointXYZINormal, [x, y, z, intensity, normal_x, normal_y, normal_z]);
bits!(PointXYZRGBNormal, [x, y, z, rgb, normal_x, normal_y, normal_z]);

// derived where the derive macro is available, written by hand where it is not
macro_rules! custom { ($(#[$m:meta])* $t:ident, $n:expr, { $($f:ident: $ty:ident),* }) => {
    $(#[$m])*
    #[derive(Clone, Copy, Default)]
    #[cfg_attr(feature = "derive", derive(ros_pointcloud2::prelude::PointConvertible))]
    pub struct $t { $(pub $f: $ty),* }
    #[cfg(not(feature = "derive"))]
    const _: () = {
        impl From<RPCL2Point<$n>> for $t {
            #[allow(unused_assignments)]
            fn from(p: RPCL2Point<$n>) -> Self { let mut k = 0; $(let $f: $ty = p[k].get(); k += 1;)* $t { $($f),* } }
        }
        impl From<$t> for RPCL2Point<$n> {
            fn from(p: $t) -> Self { [$({ let v: $ty = p.$f; v.into() }),*].into() }
        }
        unsafe impl PointConvertible<$n> for $t {
            fn layout() -> LayoutDescription {
                let mut end = 0;
                let mut v = vec![];
                $(
                    let off = std::mem::offset_of!($t, $f);
                    if off > end { v.push(LayoutField::padding(off - end)); }
                    v.push(LayoutField::new(stringify!($f), stringify!($ty), std::mem::size_of::<$ty>()));
                    end = off + std::mem::size_of::<$ty>();
                )*
                let size = std::mem::size_of::<$t>();
                if size > end { v.push(LayoutField::padding(size - end)); }
                LayoutDescription::new(&v)
            }
        }
    };
    bits!($t, [$($f),*]);
} }
custom!(#[repr(C)] Mix, 5, { a: u8, b: f64, c: u16, d: f32, e: i8 });
custom!(#[repr(C, packed)] Pack, 4, { a: u8, b: f64, c: i16, d: u32 });
custom!(#[repr(C)] One, 1, { v: i32 });

// ---------------------------------------------------------------- canonical texts

fn error(e: MsgConversionError) -> String {
    match e {
        MsgConversionError::FieldsNotFound(v) => format!("FieldsNotFound{v:?}"),
        // its payload exists with std only
        e => format!("{e:?}").split('(').next().unwrap().to_string(),
    }
}
fn size(dt: u8) -> usize {
    match dt {
        1 | 2 => 1,
        3 | 4 => 2,
        8 => 8,
        _ => 4,
    }
}
fn msg_text(m: &PointCloud2Msg) -> String {
    // bytes that no field covers are padding: their content is not specified
    let step = m.point_step as usize;
    let mut cover = vec![false; step];
    for f in &m.fields {
        for k in 0..size(f.datatype) {
            if let Some(c) = cover.get_mut(f.offset as usize + k) {
                *c = true
            }
        }
    }
    let mut s = format!("{}x{} step {} row {} {:?} {:?} ", m.dimensions.width, m.dimensions.height, step, m.row_step, m.endian, m.dense);
    for f in &m.fields {
        let _ = write!(s, "{}@{}:{}x{} ", f.name, f.offset, f.datatype, f.count);
    }
    for (k, b) in m.data.iter().enumerate() {
        if step > 0 && cover[k % step] {
            let _ = write!(s, "{b:02x}");
        } else {
            s.push_str("--")
        }
    }
    s
}
fn guarded(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}

fn read<const N: usize, P: PointConvertible<N> + Bits>(m: PointCloud2Msg, vec: bool) -> String {
    guarded(|| {
        let r: Result<Vec<P>, _> = if vec { m.try_into_vec() } else { m.try_into_iter().map(|i| i.collect()) };
        match r {
            Ok(v) => {
                let mut s = format!("points {} ", v.len());
                for p in v {
                    let _ = write!(s, "{:x?} ", p.bits());
                }
                s
            }
            Err(e) => error(e),
        }
    })
}
fn write_<const N: usize, P: PointConvertible<N> + Bits>(v: Vec<P>, vec: bool) -> String {
    guarded(|| match if vec { PointCloud2Msg::try_from_vec(v) } else { PointCloud2Msg::try_from_iter(v) } {
        Ok(m) => format!("message {}", msg_text(&m)),
        Err(e) => error(e),
    })
}

fn pattern(k: usize) -> u8 {
    (k * 131 + (k >> 8) * 17 + 7) as u8
}
#[allow(clippy::too_many_arguments)]
fn message(fields: Vec<(String, u32, u8, u32)>, w: u32, h: u32, step: u32, row: u32, len: usize, big: bool, dense: bool) -> PointCloud2Msg {
    PointCloud2Msg {
        header: HeaderMsg::default(),
        dimensions: CloudDimensions { width: w, height: h },
        fields: fields.into_iter().map(|(name, offset, datatype, count)| PointFieldMsg { name, offset, datatype, count }).collect(),
        endian: if big { Endian::Big } else { Endian::Little },
        point_step: step,
        row_step: row,
        data: (0..len).map(pattern).collect(),
        dense: if dense { Denseness::Dense } else { Denseness::Sparse },
    }
}

macro_rules! per_type { ($cx:expr, $f:ident ( $($a:expr),* )) => {
    match $cx.choose(12) {
        0 => $f::<3, PointXYZ>($($a),*),
        1 => $f::<4, PointXYZI>($($a),*),
        2 => $f::<4, PointXYZL>($($a),*),
        3 => $f::<4, PointXYZRGB>($($a),*),
        4 => $f::<5, PointXYZRGBA>($($a),*),
        5 => $f::<5, PointXYZRGBL>($($a),*),
        6 => $f::<6, PointXYZNormal>($($a),*),
        7 => $f::<7, PointXYZINormal>($($a),*),
        8 => $f::<7, PointXYZRGBNormal>($($a),*),
        9 => $f::<5, Mix>($($a),*),
        10 => $f::<4, Pack>($($a),*),
        _ => $f::<1, One>($($a),*),
    }
} }

// ---------------------------------------------------------------- scenarios

fn arrangement<P: Bits>(cx: &mut Cx) -> (Vec<(String, u32, u8, u32)>, u32) {
    let f = P::fields();
    let n = f.len();
    let rot = cx.choose(n.min(3));
    let rev = cx.choose(2) == 1;
    let gap = cx.pick(&[0u32, 1, 4]);
    let tail = cx.pick(&[0u32, 3, 4]);
    let extra = cx.choose(2) == 1;
    let mut order: Vec<usize> = (0..n).collect();
    order.rotate_left(rot);
    let mut at = if extra { 2 } else { 0 };
    let mut out: Vec<(String, u32, u8, u32)> = if extra { vec![("other".into(), 0, 3, 1)] } else { vec![] };
    for k in order {
        out.push((f[k].0.into(), at, f[k].1, 1));
        at += size(f[k].1) as u32 + gap;
    }
    if rev {
        out.reverse();
    }
    (out, at + tail)
}

fn wellformed<const N: usize, P: PointConvertible<N> + Bits>(cx: &mut Cx, out: &mut String) {
    let (f, step) = arrangement::<P>(cx);
    let (w, h) = cx.pick(&[(1u32, 1u32), (0, 0), (0, 1), (3, 1), (2, 2), (1, 3)]);
    let big = cx.choose(2) == 1;
    let vec = cx.choose(2) == 1;
    let m = message(f, w, h, step, w * step, (w * h * step) as usize, big, true);
    let _ = write!(out, "{w}x{h} step {step} big {big} vec {vec} => {}", read::<N, P>(m, vec));
}
/// the layout of the type itself, where readers take shortcuts
fn mirrored<const N: usize, P: PointConvertible<N> + Bits>(cx: &mut Cx, out: &mut String) {
    cx.bound = 2;
    let proto = PointCloud2Msg::try_from_vec::<N, P>(vec![]).expect("empty cloud");
    let grow = cx.dev(&[0i64, 1, -1, 4, 16]);
    let n = cx.pick(&[2u32, 0, 1, 3]);
    let h = cx.dev(&[1u32, 2, 0]);
    let step = (proto.point_step as i64 + grow) as u32;
    let len = (n as i64 * h as i64 * step as i64 + cx.dev(&[0i64, 1, -1])).max(0) as usize;
    let mut f: Vec<(String, u32, u8, u32)> = proto.fields.iter().map(|f| (f.name.clone(), f.offset, f.datatype, f.count)).collect();
    for f in f.iter_mut() {
        f.1 = f.1.wrapping_add(cx.dev(&[0u32, 1, u32::MAX]));
        f.2 = cx.dev(&[f.2, 6, 8, 0, 9]);
        f.3 = cx.dev(&[1u32, 0, 2]);
        if cx.dev(&[0u8, 1]) == 1 {
            f.0.push('_')
        }
    }
    if cx.dev(&[0u8, 1]) == 1 {
        f.pop();
    }
    let big = cx.dev(&[false, true]);
    let vec = cx.choose(2) == 1;
    let m = message(f, n, h, step, n * step, len, big, false);
    let _ = write!(out, "{n}x{h} step {step} big {big} vec {vec} len {len} => {}", read::<N, P>(m, vec));
}
fn malformed<const N: usize, P: PointConvertible<N> + Bits>(cx: &mut Cx, out: &mut String, thorough: bool) {
    cx.bound = if thorough { 3 } else { 2 };
    const U: [u32; 8] = [0, 1, 3, 7, 255, 65536, 0x8000_0000, u32::MAX];
    let mut at = 0;
    let mut f: Vec<(String, u32, u8, u32)> = vec![];
    for (n, dt) in P::fields() {
        f.push((n.into(), at, dt, 1));
        at += size(dt) as u32;
    }
    let with = |first: u32| {
        let mut v = [first; 9];
        v[1..].copy_from_slice(&U);
        v
    };
    let w = cx.dev(&with(2));
    let h = cx.dev(&with(1));
    let step = cx.dev(&with(at));
    let row = cx.dev(&with(at * 2));
    let len = cx.dev(&[2 * at as usize, 0, 1, at as usize, 2 * at as usize - 1, 2 * at as usize + 1, 256]);
    for f in f.iter_mut().take(if thorough { N } else { 3 }) {
        f.1 = cx.dev(&with(f.1));
        f.2 = cx.dev(&[f.2, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 128, 255]);
        f.3 = cx.dev(&with(1));
        if cx.dev(&[0u8, 1]) == 1 {
            f.0 = f.0.to_uppercase();
        }
    }
    let again = cx.dev(&[0usize, 1, 2]);
    if again > 0 {
        let mut d = f[again % N].clone();
        d.1 = 0;
        f.insert(if again == 1 { 0 } else { N }, d);
    }
    let big = cx.dev(&[false, true]);
    let vec = cx.choose(2) == 1;
    let m = message(f, w, h, step, row, len, big, true);
    let _ = write!(out, "{w}x{h} step {step} row {row} len {len} big {big} vec {vec} => {}", read::<N, P>(m, vec));
}
fn value(cx: &mut Cx, dt: u8, i: usize, f: usize) -> u64 {
    let base = (0..size(dt)).fold(0u64, |v, k| v | (((i * 89 + f * 37 + k * 17 + 11) as u8 as u64) << (8 * k)));
    let m = if size(dt) == 8 { u64::MAX } else { (1u64 << (8 * size(dt))) - 1 };
    let special = if dt == 8 { 0x7ff0_0000_0000_0001 } else { 0x7f80_0001 };
    cx.dev(&[base, 0, m, m >> 1, (m >> 1) + 1, special & m, 1])
}
fn points<P: Bits>(cx: &mut Cx) -> Vec<P> {
    let n = cx.choose(4);
    cx.bound = 1;
    let f = P::fields();
    (0..n).map(|i| P::of(&f.iter().enumerate().map(|(k, x)| value(cx, x.1, i, k)).collect::<Vec<_>>())).collect()
}
fn writing<const N: usize, P: PointConvertible<N> + Bits>(cx: &mut Cx, out: &mut String) {
    let v: Vec<P> = points(cx);
    let vec = cx.choose(2) == 1;
    let n = v.len();
    let _ = write!(out, "{n} points vec {vec} => {}", write_::<N, P>(v, vec));
}
fn roundtrip<const N: usize, P: PointConvertible<N> + Bits>(cx: &mut Cx, out: &mut String) {
    let v: Vec<P> = points(cx);
    let (w, r) = (cx.choose(2) == 1, cx.choose(2) == 1);
    let _ = write!(out, "{} points vec {w} {r} => ", v.len());
    let m = catch_unwind(AssertUnwindSafe(|| if w { PointCloud2Msg::try_from_vec(v) } else { PointCloud2Msg::try_from_iter(v) }));
    out.push_str(&match m {
        Ok(Ok(m)) => read::<N, P>(m, r),
        Ok(Err(e)) => error(e),
        Err(_) => "panic".into(),
    });
}
/// clouds and strides that need more than 8, 16 and 20 bits
fn large(cx: &mut Cx, out: &mut String, thorough: bool) {
    let mut sizes = vec![255usize, 256, 257, 65535, 65536, 65537, 70000, (1 << 20) + 3];
    if thorough {
        sizes.extend([(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 24) + 1]);
    }
    let n = cx.pick(&sizes);
    let gap = if n <= 257 { cx.pick(&[0usize, 3, 252, 65531, 66000]) } else { cx.pick(&[0usize, 3]) };
    let how = cx.choose(4);
    // in one row, one column, or a rectangle
    let heights: Vec<usize> = [1, 2, 3, 5, 16, n].into_iter().filter(|h| n % h == 0 && (n <= 70000 || *h <= 2)).collect();
    let h = if how == 3 { 1 } else { cx.pick(&heights) };
    let w = n / h;
    let step = 4 + gap;
    let _ = write!(out, "{w} x {h} points of {step} bytes, {how} => ");
    out.push_str(&guarded(|| {
        let mut m = message(vec![("v".into(), gap as u32, 5, 1)], w as u32, h as u32, step as u32, (w * step) as u32, n * step, false, true);
        for i in 0..n {
            m.data[i * step + gap..][..4].copy_from_slice(&(i as u32).wrapping_mul(0x9e37_79b1).to_le_bytes());
        }
        let mut hash = std::collections::hash_map::DefaultHasher::new();
        let mut k = 0usize;
        let mut eat = |p: One| {
            p.bits().hash(&mut hash);
            k += 1;
        };
        match how {
            0 => m.try_into_vec::<1, One>().map_err(|e| error(e)).unwrap().into_iter().take(n + 3).for_each(&mut eat),
            1 => m.try_into_iter::<1, One>().map_err(|e| error(e)).unwrap().take(n + 3).for_each(&mut eat),
            2 => {
                let (a, b) = PointCloudIterator::<1, One>::try_from(m).unwrap().split_at(n / 2 + 7);
                let _ = b.size_hint();
                b.take(n + 3).for_each(&mut eat);
                a.take(n + 3).for_each(&mut eat);
            }
            _ => {
                let v: Vec<One> = m.try_into_vec::<1, One>().unwrap();
                let m = PointCloud2Msg::try_from_iter(v.into_iter().take(n + 3)).map_err(|e| error(e)).unwrap();
                (m.dimensions.width, m.dimensions.height, m.point_step, m.row_step, m.data.len()).hash(&mut hash);
                m.data.hash(&mut hash);
            }
        }
        format!("large {k} {:016x}", hash.finish())
    }));
}
/// taking, skipping and splitting, one step at a time
fn consuming<const N: usize, P: PointConvertible<N> + Bits>(cx: &mut Cx, out: &mut String, depth: usize) {
    let n = cx.choose(5);
    let (f, step) = {
        let mut at = 0;
        let f: Vec<(String, u32, u8, u32)> = P::fields().into_iter().map(|(n, dt)| { let o = at; at += size(dt) as u32; (n.to_string(), o, dt, 1) }).collect();
        (f, at + 1)
    };
    let m = message(f, n as u32, 1, step, step * n as u32, n * step as usize, false, true);
    let mut it = match PointCloudIterator::<N, P>::try_from(m) {
        Ok(i) => i,
        Err(e) => return out.push_str(&error(e)),
    };
    let mut left = n;
    let _ = write!(out, "{n}: ");
    for _ in 0..depth {
        let a = cx.choose(4 + 2 * (left + 1));
        let r = catch_unwind(AssertUnwindSafe(|| match a {
            0 => (it.next().map(|p| p.bits()), it),
            1 => (it.nth(1).map(|p| p.bits()), it),
            2 => (it.by_ref().last().map(|p| p.bits()), it),
            3 => (Some(vec![it.by_ref().take(2).count() as u64]), it),
            k => {
                let (x, y) = it.split_at((k - 4) / 2);
                (None, if k % 2 == 0 { x } else { y })
            }
        }));
        match r {
            Ok((p, i)) => {
                it = i;
                left = match a {
                    0 => left.saturating_sub(1),
                    1 | 3 => left.saturating_sub(2),
                    2 => 0,
                    k if k % 2 == 0 => (k - 4) / 2,
                    k => left - (k - 4) / 2,
                };
                let _ = write!(out, "{a} {p:x?} {:?}; ", it.size_hint());
            }
            Err(_) => {
                out.push_str("=> panic");
                return;
            }
        }
    }
    let rest: Vec<_> = it.map(|p| p.bits()).collect();
    let _ = write!(out, "=> rest {rest:x?}");
}

fn builder(cx: &mut Cx, out: &mut String, thorough: bool) {
    cx.bound = if thorough { 5 } else { 4 };
    let n = cx.dev(&[2usize, 0, 1, 3]);
    let mut fields = vec![];
    for k in 0..n {
        fields.push(PointFieldMsg { name: cx.dev(&["x", "", "y"]).into(), offset: cx.dev(&[4 * k as u32, 0, u32::MAX]), datatype: cx.dev(&[7u8, 0, 1, 4, 8, 9, 255]), count: cx.dev(&[1u32, 0, 2]) });
    }
    let width = cx.dev(&[2u32, 0, 1, u32::MAX]);
    let step = cx.dev(&[8u32, 0, 1, 4, 7, 9, 16, 24, u32::MAX]);
    let row = cx.dev(&[16u32, 0, u32::MAX]);
    let len = cx.dev(&[16usize, 0, 1, 7, 8, 15, 17, 24]);
    let (big, dense) = (cx.dev(&[false, true]), cx.dev(&[false, true]));
    let _ = write!(out, "{n} fields width {width} step {step} row {row} len {len} => ");
    out.push_str(&guarded(|| {
        match PointCloud2MsgBuilder::new().fields(fields).width(width).point_step(step).row_step(row).data((0..len).map(pattern).collect()).endian(big).dense(dense).build() {
            Ok(m) => format!("message {}", msg_text(&m)),
            Err(e) => error(e),
        }
    }));
}
fn small(cx: &mut Cx, out: &mut String) {
    match cx.choose(6) {
        0 => {
            let c = cx.choose(256) as u8;
            out.push_str(&guarded(|| match FieldDatatype::try_from(c) {
                Ok(d) => format!("code {c} => {d:?} {} {}", d.size(), u8::from(d)),
                Err(e) => format!("code {c} => {}", error(e)),
            }));
        }
        1 => {
            let s = cx.pick(&["f32", "f64", "i8", "i16", "i32", "u8", "u16", "u32", "rgb", "F32", "RGB", "", "i64", "f32 ", "bool", "u8\0"]);
            out.push_str(&guarded(|| match s.parse::<FieldDatatype>() {
                Ok(d) => format!("{s:?} => {d:?} {} {}", d.size(), u8::from(d)),
                Err(e) => format!("{s:?} => {}", error(e)),
            }));
        }
        2 => {
            const V: [u32; 6] = [0, 1, 0x7f, 0x80, 0xfe, 0xff];
            let p = cx.pick(&V) << 24 | cx.pick(&V) << 16 | cx.pick(&V) << 8 | cx.pick(&V);
            let ch = cx.choose(4);
            let v = cx.pick(&V) as u8;
            out.push_str(&guarded(|| {
                let mut c = RGB::new_from_packed(p);
                match ch {
                    0 => c.set_r(v),
                    1 => c.set_g(v),
                    2 => c.set_b(v),
                    _ => {}
                }
                let d = RGB::new(RGB::r(&c), RGB::g(&c), RGB::b(&c));
                format!("{p:08x} {ch} {v} => colour {:08x} {} {} {} {c} {} {:08x}", c.raw().to_bits(), RGB::r(&c), RGB::g(&c), RGB::b(&c), c == d, f32::from(d).to_bits())
            }));
        }
        3 => {
            let w = cx.pick(&[0usize, 1, 2, 65535, u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX]);
            out.push_str(&guarded(|| match CloudDimensionsBuilder::new_with_width(w).build() {
                Ok(d) => format!("width {w} => dimensions {}x{}", d.width, d.height),
                Err(e) => format!("width {w} => {}", error(e)),
            }));
        }
        4 => {
            fn go<T: FromBytes + Scalar>(b: u64) -> String {
                let v = T::of(b);
                let p = PointData::new(v);
                let back: T = p.get();
                let raw = Into::<PointDataBuffer>::into(v).raw();
                let le: T = T::from_le_bytes(PointDataBuffer::new(raw));
                let be: T = T::from_be_bytes(PointDataBuffer::new(raw));
                format!("data {:x} {:x} {:x} {raw:x?} {:?}", Scalar::b(back), Scalar::b(le), Scalar::b(be), T::field_datatype())
            }
            let b = cx.pick(&[0u64, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x0102_0304, 0x7f80_0001, 0x7fc0_0000, 0x8000_0000, 0xffff_ffff, 0x0102_0304_0506_0708, 0x7ff0_0000_0000_0001, u64::MAX]);
            let t = cx.choose(9);
            let _ = write!(out, "{t} {b:x} => ");
            out.push_str(&guarded(|| match t {
                0 => go::<i8>(b),
                1 => go::<u8>(b),
                2 => go::<i16>(b),
                3 => go::<u16>(b),
                4 => go::<i32>(b),
                5 => go::<u32>(b),
                6 => go::<f32>(b),
                7 => go::<f64>(b),
                _ => go::<RGB>(b),
            }));
        }
        _ => {
            let n = cx.choose(10);
            out.push_str(&guarded(|| {
                let d: Vec<u8> = (0..n).map(pattern).collect();
                let b = PointDataBuffer::from_slice(&d);
                format!("{n} bytes => buffer {:x?} {}", b.as_slice(), b[0])
            }));
        }
    }
}

type Scenario = fn(&mut Cx, &mut String, bool);
const SCENARIOS: &[(&str, Scenario)] = &[
    ("wellformed", |cx, out, _| per_type!(cx, wellformed(cx, out))),
    ("mirrored", |cx, out, _| per_type!(cx, mirrored(cx, out))),
    ("malformed", |cx, out, t| {
        if t {
            match cx.choose(3) {
                0 => malformed::<3, PointXYZ>(cx, out, t),
                1 => malformed::<5, Mix>(cx, out, t),
                _ => malformed::<1, One>(cx, out, t),
            }
        } else {
            per_type!(cx, malformed(cx, out, t))
        }
    }),
    ("writing", |cx, out, _| per_type!(cx, writing(cx, out))),
    ("roundtrip", |cx, out, _| per_type!(cx, roundtrip(cx, out))),
    ("consuming", |cx, out, t| match cx.choose(2) {
        0 => consuming::<3, PointXYZ>(cx, out, if t { 5 } else { 3 }),
        _ => consuming::<5, Mix>(cx, out, 3),
    }),
    ("large", large),
    ("builder", builder),
    ("small", |cx, out, _| small(cx, out)),
];

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[2] == "thorough";
    match a[1].as_str() {
        "digest" => run(None, thorough),
        _ => run(Some((&a[3], a[4].parse().unwrap())), thorough),
    }
}
