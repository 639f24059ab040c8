//! C15: datatype codes, names and sizes follow the ROS description.
use harness::*;
use ros_pointcloud2::points::RGB;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::*;
use std::cell::RefCell;
use std::str::FromStr;

/// sensor_msgs/PointField: code, the crate's name, size
fn known() -> [(u8, &'static str, FieldDatatype, usize); 9] {
    use FieldDatatype::*;
    [
        (1, "i8", I8, 1),
        (2, "u8", U8, 1),
        (3, "i16", I16, 2),
        (4, "u16", U16, 2),
        (5, "i32", I32, 4),
        (6, "u32", U32, 4),
        (7, "f32", F32, 4),
        (8, "f64", F64, 8),
        (7, "rgb", RGB, 4),
    ]
}

// ---------------------------------------------------------------- a point whose layout is chosen at
// run time
thread_local! {
    static LAYOUT: RefCell<(String, String, usize)> = const { RefCell::new((String::new(), String::new(), 0)) };
}
#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Dyn<T> {
    v: T,
}
impl<T: FromBytes> From<RPCL2Point<1>> for Dyn<T> {
    fn from(p: RPCL2Point<1>) -> Self {
        Dyn { v: p[0].get() }
    }
}
impl<T: FromBytes> From<Dyn<T>> for RPCL2Point<1> {
    fn from(p: Dyn<T>) -> Self {
        [PointData::new(p.v)].into()
    }
}
unsafe impl<T: FromBytes> PointConvertible<1> for Dyn<T> {
    fn layout() -> LayoutDescription {
        LAYOUT.with(|l| {
            let (name, ty, size) = l.borrow().clone();
            LayoutDescription::new(&[LayoutField::Field { name: name.into(), ty: ty.into(), size }])
        })
    }
}

fn codes() -> Vec<Scenario> {
    vec![scenario("codes", "all 256 codes, directly and in a field description", |cx| {
        let c = cx.choose("code", 256) as u8;
        cx.state(&c);
        let want = known().into_iter().find(|k| k.0 == c);
        let f = PointFieldMsg { name: "n".into(), offset: 0, datatype: c, count: 1 };
        let a = cx.catch(|| FieldDatatype::try_from(c));
        let b = cx.catch(|| FieldDatatype::try_from(&f));
        for r in [a, b] {
            match (r, &want) {
                (Ok(Ok(d)), Some(w)) => {
                    if d != w.2 || u8::from(d) != c || d.size() != w.3 {
                        cx.fail("code", format!("code {c} is {d:?} of size {} with code {}", d.size(), u8::from(d)))
                    }
                    cx.outcome("known");
                }
                (Ok(Err(_)), None) => cx.outcome("refused"),
                (r, w) => cx.fail("code", format!("code {c}: {r:?}, expected {w:?}")),
            }
        }
    })]
}

/// what a datatype name in lower case stands for
fn name(cx: &mut Cx, s: &str) {
    let want = known().into_iter().find(|k| k.1 == s);
    match (cx.catch(|| FieldDatatype::from_str(s)), want) {
        (Ok(Ok(d)), Some(w)) => {
            if d != w.2 || d.size() != w.3 || u8::from(d) != w.0 {
                cx.fail("name", format!("{s:?} is {d:?} of size {} with code {}", d.size(), u8::from(d)))
            }
        }
        (Ok(Err(_)), None) => {}
        (r, w) => cx.fail("name", format!("{s:?}: {r:?}, expected {w:?}")),
    }
}

fn names(tier: Tier) -> Vec<Scenario> {
    let len = tier.pick(3, 4);
    const AL: &[u8] = b"fiurgb0123468 x_dsezolntapw57qjkvmhcy9";
    vec![
        scenario("names", format!("every string of up to {len} characters over {:?}", std::str::from_utf8(AL).unwrap()), move |cx| {
            let n = cx.range("length", 0, len);
            let mut s = String::new();
            // the last character is swept inside the execution
            for _ in 0..n.saturating_sub(1) {
                s.push(AL[cx.choose("char", AL.len())] as char);
            }
            cx.state(&(n, &s));
            if n == 0 {
                return name(cx, "");
            }
            for &c in AL {
                let mut t = s.clone();
                t.push(c as char);
                name(cx, &t);
            }
        }),
        scenario("similar-names", "names of other types and near misses", |cx| {
            let l = [
                "float32", "float64", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "u64", "i64", "u128", "i128", "usize", "isize", "f16", "f128", "bool", "char", "str", "String", "rgba", "bgr", "RGB ", " rgb", "rgb\0", "f32\0", "f32,", "[f32]", "f32;1", "u08", "u1", "u 8", "f32f32", "FLOAT32", "FLOAT64", "INT8", "UINT32", "short", "ushort", "unsigned short", "byte", "ubyte", "word", "dword", "int", "uint", "unsigned", "unsigned int", "unsigned char", "signed char", "long", "ulong", "long long", "float", "real", "number", "integer", "half", "boolean", "uchar", "schar", "octet", "i", "u", "f", "d", "s", "b", "B", "h", "H", "I", "L", "q", "F", "real32", "real64", "s8", "s16", "s32", "fp32", "fp64", "f_32", "f-32", "f32le", "f32be", "le_f32", "color", "colour", "rgb8", "rgb24", "rgb32", "bgra", "argb", "rgbf32", "XYZ", "vec3", "std::f32", "core::primitive::f32", "f32f", "_f32", "f32_", "r#f32", "&f32", "f32.", "+8", "i+8", "u-8", "f0x20", "i08", "i016", "u 16", "\u{0}", "ｆ32", "f３2", "()", "7", "8", "1",
            ];
            let s = *cx.pick("name", &l);
            cx.state(s);
            name(cx, s);
        }),
        scenario("affixed-names", "every known name with each of some 80 prefixes and suffixes, doubled, joined with another known name, or with one character removed, doubled or changed in case", |cx| {
            const AFFIX: &[&str] = &[
                "_le", "_be", "_ne", "le", "be", "LE", "BE", "_t", "t", "_", "__", "-", ".", ",", ";", ":", "::", "[]", "[1]", "[0]", "(1)", "()", "<>", "*", "&", "&mut ", "mut ", "const ", "dyn ", "r#", "'", "\"", "`", "@", "#", "$", "%", "!", "?", "=", "+", "/", "\\", "|", "~", "^", " ", "  ", "\t", "\n", "\r\n", "\0", "\u{a0}", "\u{200b}", "\u{feff}", "0", "00", "1", "x", "x1", "x3", "1x", "4", "8", "16", "32", "64", "f", "i", "u", "a", "b", "n", "std::", "core::", "ros_", "type_", "dt_", "FieldDatatype::", "PointField::", "sensor_msgs/", "std_msgs/", "::Name", "_norm", "norm", "_packed", "be_", "le_", "<", ">", "big-", "little-", "le-",
            ];
            let s = known()[cx.choose("name", 9)].1;
            let other = known()[cx.choose("other", 9)].1;
            cx.state(&(s, other));
            let mut l: Vec<String> = vec![format!("{s}{other}"), format!("{s} {other}"), format!("{s},{other}"), format!("{s}|{other}")];
            if other == s {
                for a in AFFIX {
                    l.extend([format!("{a}{s}"), format!("{s}{a}"), format!("{a}{s}{a}"), format!("{a}{a}{s}"), format!("{s}{a}{a}")]);
                    for b in ["(", "[", "<", "{", "'", "\""] {
                        l.push(format!("{b}{s}{a}"));
                    }
                    for k in 1..s.len() {
                        l.push(format!("{}{a}{}", &s[..k], &s[k..]));
                    }
                }
                for k in 0..s.len() {
                    l.push(format!("{}{}", &s[..k], &s[k + 1..]));
                    l.push(format!("{}{}{}", &s[..k], s[k..=k].to_uppercase(), &s[k + 1..]));
                    l.push(format!("{}{}", &s[..=k], &s[k..]));
                }
                l.push(s.chars().rev().collect());
            }
            for t in l {
                // names that are known in lower case are the subject of another scenario
                if !known().iter().any(|k| k.1 == t.to_lowercase()) || known().iter().any(|k| k.1 == t) {
                    name(cx, &t);
                }
            }
        }),
    ]
}

/// `ty` in a layout of one field of type T: written by the vector writer and read back when it is a
/// known datatype of T's size, refused otherwise
fn layout_one<T: Sc + FromBytes + Send + Sync>(cx: &mut Cx, ty: &str, field: &str) {
    LAYOUT.with(|l| *l.borrow_mut() = (field.into(), ty.into(), std::mem::size_of::<T>()));
    let want = known().into_iter().find(|k| k.1 == ty.to_lowercase());
    if want.as_ref().is_some_and(|w| w.3 != std::mem::size_of::<T>()) {
        return; // the layout would misdescribe the type
    }
    for n in 0..3usize {
        let bits: Vec<u64> = (0..n).map(|i| base_bits(i, 0, T::CODE)).collect();
        let ps: Vec<Dyn<T>> = bits.iter().map(|b| Dyn { v: T::of(*b) }).collect();
        let r = cx.catch(|| PointCloud2Msg::try_from_vec(ps));
        match (r, &want) {
            (Ok(Ok(m)), Some(w)) => {
                if m.fields.len() != 1 || m.fields[0].datatype != w.0 || m.fields[0].name != field || m.point_step as usize != w.3 {
                    cx.fail("layout", format!("layout type {ty:?}: {:?} step {}", m.fields, m.point_step))
                }
                match cx.catch(|| m.try_into_vec::<1, Dyn<T>>()) {
                    Ok(Ok(v)) => {
                        let g: Vec<u64> = v.iter().map(|p| p.v.b()).collect();
                        if g != bits {
                            cx.fail("layout-read", format!("layout type {ty:?}: read {g:x?}, wrote {bits:x?}"))
                        }
                    }
                    r => cx.fail("layout-read", format!("layout type {ty:?}: {:?}", r.map(|r| r.map(|v| v.len())))),
                }
            }
            (Ok(Err(MsgConversionError::UnsupportedFieldType(_))), None) => cx.outcome("refused"),
            (Ok(Err(e)), None) => cx.fail("layout-error", format!("layout type {ty:?} refused with {e:?}")),
            (Ok(Ok(m)), None) => cx.fail("layout-accepted", format!("layout type {ty:?} accepted as {:?}", m.fields)),
            (r, w) => cx.fail("layout", format!("layout type {ty:?}: {:?}, expected {w:?}", r.map(|r| r.map(|m| m.fields)))),
        }
    }
}

fn layouts(tier: Tier) -> Vec<Scenario> {
    fn by_code(cx: &mut Cx, t: usize, ty: &str, field: &str) {
        match t {
            0 => layout_one::<i8>(cx, ty, field),
            1 => layout_one::<u8>(cx, ty, field),
            2 => layout_one::<i16>(cx, ty, field),
            3 => layout_one::<u16>(cx, ty, field),
            4 => layout_one::<i32>(cx, ty, field),
            5 => layout_one::<u32>(cx, ty, field),
            6 => layout_one::<f32>(cx, ty, field),
            7 => layout_one::<f64>(cx, ty, field),
            _ => layout_one::<RGB>(cx, ty, field),
        }
    }
    vec![
        scenario("layout-names", "every known datatype name in every mixture of upper and lower case in a layout of its type, 4 field names, 0..2 points, written and read", |cx| {
            let t = cx.choose("type", 9);
            let mut ty = String::new();
            for c in known()[t].1.chars() {
                ty.push(if c.is_ascii_lowercase() && cx.flag("upper") { c.to_ascii_uppercase() } else { c });
            }
            let field = *cx.pick("field", &["v", "", "V x", "\u{df}"]);
            cx.state(&(&ty, field));
            cx.note(|| ty.clone());
            by_code(cx, t, &ty, field);
        }),
        scenario("layout-unknown", format!("every string of up to {} characters over a letter-and-digit alphabet, and names of other types, as the datatype in layouts of every field type", tier.pick(2, 3)), move |cx| {
            const AL: &[u8] = b"fiurgbFRU0123468 x";
            let t = cx.choose("type", 9);
            let ty = if cx.flag("listed") {
                cx.pick("name", &["float32", "float64", "float", "short", "byte", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int", "uint", "long", "word", "unsigned", "uchar", "real", "half", "single", "octet", "color", "argb", "double", "u64", "i64", "f16", "bool", "char", "usize", "rgba", " f32", "f32 ", "f32\0", "F32_", "RGBA", "U64", "I128", "f32_le", "F32_be", "f32le", "u16be", "i8_t", "uint8_t", "u8[]", "f32[1]", "f64*", "&f64", "std::f32", "f32;1", "rgb_", "rgb8", "\u{130}8", "uınt8", "i\u{33}2"]).to_string()
            } else {
                let n = cx.range("length", 0, tier.pick(2, 3));
                (0..n).map(|_| AL[cx.choose("char", AL.len())] as char).collect()
            };
            cx.state(&(t, &ty));
            cx.note(|| format!("{ty:?}"));
            by_code(cx, t, &ty, "v");
        }),
    ]
}

/// sizes of the datatypes are the sizes of their types, and types report their datatypes
fn types() -> Vec<Scenario> {
    vec![scenario("types", "each scalar type and packed colour", |cx| {
        fn go<T: Sc + GetFieldDatatype>(cx: &mut Cx, k: usize) {
            let (c, n, d, s) = known()[k];
            let g = T::field_datatype();
            cx.state(&k);
            if g != d || u8::from(g) != c || g.size() != s || s != std::mem::size_of::<T>() {
                cx.fail("type", format!("{n}: {g:?} of size {} with code {}", g.size(), u8::from(g)))
            }
        }
        match cx.choose("type", 9) {
            0 => go::<i8>(cx, 0),
            1 => go::<u8>(cx, 1),
            2 => go::<i16>(cx, 2),
            3 => go::<u16>(cx, 3),
            4 => go::<i32>(cx, 4),
            5 => go::<u32>(cx, 5),
            6 => go::<f32>(cx, 6),
            7 => go::<f64>(cx, 7),
            _ => go::<RGB>(cx, 8),
        }
    })]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = codes();
    v.extend(types());
    v.extend(names(tier));
    v.extend(layouts(tier));
    v
}
fn main() {
    run("C15", scenarios)
}
