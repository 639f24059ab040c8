//! Point types. For each one: its declared fields (name, ROS datatype code, true memory offset)
//! written down independently of the crate under test, and bit-level access to its values.
use ros_pointcloud2::points::*;
use ros_pointcloud2::{LayoutDescription, LayoutField, PointConvertible, RPCL2Point};

pub const I8: u8 = 1;
pub const U8: u8 = 2;
pub const I16: u8 = 3;
pub const U16: u8 = 4;
pub const I32: u8 = 5;
pub const U32: u8 = 6;
pub const F32: u8 = 7;
pub const F64: u8 = 8;

/// Size of a ROS PointField datatype.
pub fn dt_size(code: u8) -> usize {
    match code {
        1 | 2 => 1,
        3 | 4 => 2,
        5..=7 => 4,
        8 => 8,
        _ => panic!("datatype {code}"),
    }
}

pub trait Sc: Copy {
    const CODE: u8;
    const NAME: &'static str;
    fn b(self) -> u64;
    fn of(b: u64) -> Self;
}
macro_rules! int_sc {
    ($($t:ty, $u:ty, $c:expr);*) => {$(
        impl Sc for $t {
            const CODE: u8 = $c;
            const NAME: &'static str = stringify!($t);
            fn b(self) -> u64 { self as $u as u64 }
            fn of(b: u64) -> Self { b as $u as $t }
        })*}
}
int_sc!(i8, u8, I8; u8, u8, U8; i16, u16, I16; u16, u16, U16; i32, u32, I32; u32, u32, U32);
impl Sc for f32 {
    const CODE: u8 = F32;
    const NAME: &'static str = "f32";
    fn b(self) -> u64 {
        self.to_bits() as u64
    }
    fn of(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
}
impl Sc for f64 {
    const CODE: u8 = F64;
    const NAME: &'static str = "f64";
    fn b(self) -> u64 {
        self.to_bits()
    }
    fn of(b: u64) -> Self {
        f64::from_bits(b)
    }
}
impl Sc for RGB {
    const CODE: u8 = F32;
    const NAME: &'static str = "rgb";
    fn b(self) -> u64 {
        // RGB is repr(C) with the size of an f32
        unsafe { std::mem::transmute::<RGB, u32>(self) as u64 }
    }
    fn of(b: u64) -> Self {
        unsafe { std::mem::transmute::<u32, RGB>(b as u32) }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Decl {
    pub name: &'static str,
    pub dt: u8,
    pub off: usize,
}
impl Decl {
    pub fn size(&self) -> usize {
        dt_size(self.dt)
    }
}

pub trait Pt<const N: usize>: PointConvertible<N> + Clone + Send + Sync + 'static {
    const LABEL: &'static str;
    /// in declaration order
    fn decl() -> [Decl; N];
    fn bits(&self) -> [u64; N];
    fn of_bits(b: &[u64]) -> Self;
}

fn code_of<T, F: Sc>(_: fn(&T) -> F) -> u8 {
    F::CODE
}

#[macro_export]
macro_rules! pt_impl {
    ($t:ident, $n:expr, [$($f:ident),*]) => {
        impl $crate::pts::Pt<$n> for $t {
            const LABEL: &'static str = stringify!($t);
            fn decl() -> [$crate::pts::Decl; $n] {
                [$($crate::pts::Decl {
                    name: stringify!($f),
                    dt: $crate::pts::code(|p: &$t| p.$f),
                    off: std::mem::offset_of!($t, $f),
                }),*]
            }
            fn bits(&self) -> [u64; $n] {
                [$($crate::pts::Sc::b(self.$f)),*]
            }
            #[allow(unused_assignments)]
            fn of_bits(b: &[u64]) -> Self {
                let mut it = b.iter();
                $t { $($f: $crate::pts::Sc::of(*it.next().unwrap())),* }
            }
        }
    };
}
pub fn code<T, F: Sc>(f: fn(&T) -> F) -> u8 {
    code_of(f)
}

pt_impl!(PointXYZ, 3, [x, y, z]);
pt_impl!(PointXYZI, 4, [x, y, z, intensity]);
pt_impl!(PointXYZL, 4, [x, y, z, label]);
pt_impl!(PointXYZRGB, 4, [x, y, z, rgb]);
pt_impl!(PointXYZRGBA, 5, [x, y, z, rgb, a]);
pt_impl!(PointXYZRGBNormal, 7, [x, y, z, rgb, normal_x, normal_y, normal_z]);
pt_impl!(PointXYZINormal, 7, [x, y, z, intensity, normal_x, normal_y, normal_z]);
pt_impl!(PointXYZRGBL, 5, [x, y, z, rgb, label]);
pt_impl!(PointXYZNormal, 6, [x, y, z, normal_x, normal_y, normal_z]);

/// A user-defined point with a hand-written implementation that follows the documentation.
#[macro_export]
macro_rules! custom {
    ($(#[$m:meta])* $t:ident, $n:expr, { $($f:ident : $ty:ident),* }) => {
        $(#[$m])*
        #[derive(Clone, Copy, Default)]
        pub struct $t { $(pub $f: $ty),* }
        impl From<RPCL2Point<$n>> for $t {
            #[allow(unused_assignments)]
            fn from(p: RPCL2Point<$n>) -> Self {
                let mut k = 0;
                $( let $f: $ty = p[k].get(); k += 1; )*
                $t { $($f),* }
            }
        }
        impl From<$t> for RPCL2Point<$n> {
            fn from(p: $t) -> Self {
                [$( { let v: $ty = p.$f; v.into() } ),*].into()
            }
        }
        unsafe impl PointConvertible<$n> for $t {
            fn layout() -> LayoutDescription {
                let mut end = 0;
                let mut v = vec![];
                $(
                    let off = std::mem::offset_of!($t, $f);
                    if off > end { v.push(LayoutField::padding(off - end)); }
                    v.push(LayoutField::new(stringify!($f), stringify!($ty), std::mem::size_of::<$ty>()));
                    end = off + std::mem::size_of::<$ty>();
                )*
                let size = std::mem::size_of::<$t>();
                if size > end { v.push(LayoutField::padding(size - end)); }
                LayoutDescription::new(&v)
            }
        }
        $crate::pt_impl!($t, $n, [$($f),*]);
    };
}

custom!(#[repr(C)] C1, 1, { v: u8 });
custom!(#[repr(C)] C2, 2, { a: u16, b: u16 });
custom!(#[repr(C)] CXZ, 2, { x: f32, z: f32 });
custom!(#[repr(C)] CD, 3, { x: f64, y: f64, z: f64 });
custom!(#[repr(C)] CMix, 5, { a: u8, b: f64, c: u16, d: f32, e: i8 });
custom!(#[repr(C)] CAll, 8, { a: i8, b: u8, c: i16, d: u16, e: i32, f: u32, g: f32, h: f64 });
custom!(#[repr(C, packed)] CPack, 4, { a: u8, b: f64, c: i16, d: u32 });
custom!(#[repr(C, align(32))] CWide, 2, { x: i32, tag: u8 });

/// Hidden bytes everywhere: before the first field, described in several pieces, between and behind.
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct CHid {
    pub hidden: u32,
    pub x: f32,
    pub gap: [u8; 6],
    pub y: u16,
    pub tail: u32,
}
impl From<RPCL2Point<2>> for CHid {
    fn from(p: RPCL2Point<2>) -> Self {
        CHid { x: p[0].get(), y: p[1].get(), ..Default::default() }
    }
}
impl From<CHid> for RPCL2Point<2> {
    fn from(p: CHid) -> Self {
        [p.x.into(), p.y.into()].into()
    }
}
unsafe impl PointConvertible<2> for CHid {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[
            LayoutField::padding(3),
            LayoutField::padding(1),
            LayoutField::new("x", "F32", 4),
            LayoutField::padding(2),
            LayoutField::padding(0),
            LayoutField::padding(4),
            LayoutField::new("y", "u16", 2),
            LayoutField::padding(4),
        ])
    }
}
impl Pt<2> for CHid {
    const LABEL: &'static str = "CHid";
    fn decl() -> [Decl; 2] {
        [
            Decl { name: "x", dt: 7, off: std::mem::offset_of!(CHid, x) },
            Decl { name: "y", dt: 4, off: std::mem::offset_of!(CHid, y) },
        ]
    }
    fn bits(&self) -> [u64; 2] {
        [Sc::b(self.x), Sc::b(self.y)]
    }
    fn of_bits(b: &[u64]) -> Self {
        CHid { x: Sc::of(b[0]), y: Sc::of(b[1]), ..Default::default() }
    }
}

/// Names that differ only in case, hold blanks and other letters, or are long.
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct CNam {
    pub v: [f32; 4],
}
pub const ODD_NAMES: [&str; 4] = ["X", "x", " \u{dc}\u{e4}/Feld .1", "aRatherLongNameThatNobodyWouldGiveToAFieldOfAPointInEarnest_0123456789_ABCDEFGHIJ"];
impl From<RPCL2Point<4>> for CNam {
    fn from(p: RPCL2Point<4>) -> Self {
        CNam { v: std::array::from_fn(|i| p[i].get()) }
    }
}
impl From<CNam> for RPCL2Point<4> {
    fn from(p: CNam) -> Self {
        p.v.map(|v| v.into()).into()
    }
}
unsafe impl PointConvertible<4> for CNam {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&ODD_NAMES.map(|n| LayoutField::new(n, "f32", 4)))
    }
}
impl Pt<4> for CNam {
    const LABEL: &'static str = "CNam";
    fn decl() -> [Decl; 4] {
        std::array::from_fn(|i| Decl { name: ODD_NAMES[i], dt: F32, off: 4 * i })
    }
    fn bits(&self) -> [u64; 4] {
        self.v.map(Sc::b)
    }
    fn of_bits(b: &[u64]) -> Self {
        CNam { v: std::array::from_fn(|i| Sc::of(b[i])) }
    }
}

/// Points with very many fields: `$k` fields of one type, named by their number.
macro_rules! many_fields {
    ($t:ident, $s:ty, $k:expr) => {
        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct $t(pub [$s; $k]);
        impl Default for $t {
            fn default() -> Self {
                $t([Default::default(); $k])
            }
        }
        impl From<RPCL2Point<$k>> for $t {
            fn from(p: RPCL2Point<$k>) -> Self {
                $t(std::array::from_fn(|i| p[i].get()))
            }
        }
        impl From<$t> for RPCL2Point<$k> {
            fn from(p: $t) -> Self {
                p.0.map(|v| v.into()).into()
            }
        }
        unsafe impl PointConvertible<$k> for $t {
            fn layout() -> LayoutDescription {
                let v: Vec<LayoutField> = number_names()[..$k]
                    .iter()
                    .map(|n| LayoutField::new(n, <$s as Sc>::NAME, std::mem::size_of::<$s>()))
                    .collect();
                LayoutDescription::new(&v)
            }
        }
        impl Pt<$k> for $t {
            const LABEL: &'static str = stringify!($t);
            fn decl() -> [Decl; $k] {
                std::array::from_fn(|i| Decl { name: number_names()[i], dt: <$s as Sc>::CODE, off: i * std::mem::size_of::<$s>() })
            }
            fn bits(&self) -> [u64; $k] {
                self.0.map(Sc::b)
            }
            fn of_bits(b: &[u64]) -> Self {
                $t(std::array::from_fn(|i| Sc::of(b[i])))
            }
        }
    };
}
fn number_names() -> &'static [&'static str] {
    static NAMES: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    NAMES.get_or_init(|| (0..1000).map(|i| &*Box::leak(format!("field{i}").into_boxed_str())).collect())
}
many_fields!(F17, u16, 17);
many_fields!(F40, f64, 40);
many_fields!(F300, u8, 300);
many_fields!(F1000, f64, 1000);

// derived counterparts
use ros_pointcloud2 as _;
#[derive(Clone, Copy, Default, ros_pointcloud2::prelude::PointConvertible)]
#[repr(C)]
pub struct DMix {
    pub t: u32,
    pub ring: u16,
    pub x: f32,
    pub stamp: f64,
    pub flag: i8,
}
pt_impl!(DMix, 5, [t, ring, x, stamp, flag]);

/// Instantiate a generic function `f::<N, P>` for every point type.
#[macro_export]
macro_rules! all_points {
    ($f:ident $(, $a:expr)*) => {{
        let mut v: Vec<mc::Scenario> = vec![];
        v.extend($crate::predefined_points!($f $(, $a)*));
        v.extend($crate::custom_points!($f $(, $a)*));
        v
    }};
}
#[macro_export]
macro_rules! predefined_points {
    ($f:ident $(, $a:expr)*) => {{
        use ros_pointcloud2::points::*;
        let mut v: Vec<mc::Scenario> = vec![];
        v.extend($f::<3, PointXYZ>($($a),*));
        v.extend($f::<4, PointXYZI>($($a),*));
        v.extend($f::<4, PointXYZL>($($a),*));
        v.extend($f::<4, PointXYZRGB>($($a),*));
        v.extend($f::<5, PointXYZRGBA>($($a),*));
        v.extend($f::<7, PointXYZRGBNormal>($($a),*));
        v.extend($f::<7, PointXYZINormal>($($a),*));
        v.extend($f::<5, PointXYZRGBL>($($a),*));
        v.extend($f::<6, PointXYZNormal>($($a),*));
        v
    }};
}
#[macro_export]
macro_rules! custom_points {
    ($f:ident $(, $a:expr)*) => {{
        use $crate::pts::*;
        let mut v: Vec<mc::Scenario> = vec![];
        v.extend($f::<1, C1>($($a),*));
        v.extend($f::<2, C2>($($a),*));
        v.extend($f::<2, CXZ>($($a),*));
        v.extend($f::<3, CD>($($a),*));
        v.extend($f::<5, CMix>($($a),*));
        v.extend($f::<8, CAll>($($a),*));
        v.extend($f::<4, CPack>($($a),*));
        v.extend($f::<2, CWide>($($a),*));
        v.extend($f::<2, CHid>($($a),*));
        v.extend($f::<4, CNam>($($a),*));
        v.extend($f::<5, DMix>($($a),*));
        v
    }};
}
/// points with 17, 40 and 300 fields
#[macro_export]
macro_rules! big_points {
    ($f:ident $(, $a:expr)*) => {{
        use $crate::pts::*;
        let mut v: Vec<mc::Scenario> = vec![];
        v.extend($f::<17, F17>($($a),*));
        v.extend($f::<40, F40>($($a),*));
        v.extend($f::<300, F300>($($a),*));
        v
    }};
}
