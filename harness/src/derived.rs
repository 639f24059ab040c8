//! Checks on derived point types (C17). The types are generated together with an independent
//! description of their fields; everything here works on that description.
use crate::*;
use ros_pointcloud2::PointConvertible;

pub trait Gp<const N: usize>: PointConvertible<N> + Clone + Send + Sync + 'static {
    fn of(b: &[u64]) -> Self;
    fn to(&self) -> Vec<u64>;
}

type Res<T> = Result<T, String>;
#[derive(Clone)]
pub struct Ops {
    pub src: &'static str,
    pub size: usize,
    /// name, datatype, true offset, in order of declaration
    pub decl: Vec<(&'static str, u8, usize)>,
    pub write: fn(Writer, &[Vec<u64>]) -> Res<MMsg>,
    pub read: fn(Reader, &MMsg) -> Res<Vec<Vec<u64>>>,
}

pub fn write_ops<const N: usize, P: Gp<N>>(w: Writer, v: &[Vec<u64>]) -> Res<MMsg> {
    use rayon::iter::IntoParallelIterator;
    use ros_pointcloud2::PointCloud2Msg;
    let ps: Vec<P> = v.iter().map(|b| P::of(b)).collect();
    let m = match w {
        Writer::Iter => PointCloud2Msg::try_from_iter::<N, P>(ps),
        Writer::Vec => PointCloud2Msg::try_from_vec::<N, P>(ps),
        Writer::Par => PointCloud2Msg::try_from_par_iter::<N, P>(ps.into_par_iter()),
    };
    m.map(|m| MMsg::of_msg(&m)).map_err(|e| format!("{e:?}"))
}
pub fn read_ops<const N: usize, P: Gp<N>>(r: Reader, m: &MMsg) -> Res<Vec<Vec<u64>>> {
    use rayon::iter::ParallelIterator;
    let m = m.to_msg();
    let v: Result<Vec<P>, _> = match r {
        Reader::Vec => m.try_into_vec::<N, P>(),
        Reader::Par => m.try_into_par_iter::<N, P>().map(|i| i.collect()),
        _ => m.try_into_iter::<N, P>().map(|i| i.collect()),
    };
    v.map(|v| v.iter().map(|p| p.to()).collect()).map_err(|e| format!("{e:?}"))
}

fn base(o: &Ops, n: usize) -> Vec<Vec<u64>> {
    (0..n)
        .map(|i| o.decl.iter().enumerate().map(|(f, d)| base_bits(i, f, d.1)).collect())
        .collect()
}
fn wr(cx: &mut Cx, o: &Ops, w: Writer, v: &[Vec<u64>]) -> MMsg {
    match cx.catch(|| (o.write)(w, v)) {
        Ok(Ok(m)) => m,
        e => cx.fail("write", format!("{}: {w:?} of {} points: {e:?}", o.src, v.len())),
    }
}
fn rd(cx: &mut Cx, o: &Ops, r: Reader, m: &MMsg) -> Vec<Vec<u64>> {
    match cx.catch(|| (o.read)(r, m)) {
        Ok(Ok(v)) => v,
        e => cx.fail("read", format!("{}: {r:?} of {}: {e:?}", o.src, m.brief())),
    }
}

/// the message of a writer describes the struct: every field once, where it is
fn layout(cx: &mut Cx, o: &Ops) {
    let w = *cx.pick("writer", &WRITERS);
    let n = cx.range("points", 0, 2);
    let v = base(o, n);
    let m = wr(cx, o, w, &v);
    let mut mem = o.decl.clone();
    mem.sort_by_key(|d| d.2);
    let mut at = 0;
    let want: Vec<MField> = mem
        .iter()
        .map(|d| {
            let off = if w == Writer::Iter { at } else { d.2 };
            at += dt_size(d.1);
            MField { name: d.0.into(), off: off as u32, dt: d.1, count: 1 }
        })
        .collect();
    let step = if w == Writer::Iter { at } else { o.size };
    if m.fields != want || m.step as usize != step {
        cx.fail("layout", format!("{}: {w:?} describes {}, expected step {step}, fields {want:?}", o.src, m.brief()))
    }
    if m.data.len() != n * step || m.width as usize != n {
        cx.fail("size", format!("{}: {w:?} of {n} points: {}", o.src, m.brief()))
    }
    for i in 0..n {
        for (k, d) in o.decl.iter().enumerate() {
            let f = want.iter().find(|f| f.name == d.0).unwrap();
            let at = i * step + f.off as usize;
            let s = dt_size(d.1);
            if m.data[at..at + s] != v[i][k].to_le_bytes()[..s] {
                cx.fail("bytes", format!("{}: {w:?}, point {i}, field {}: {:x?}", o.src, d.0, &m.data[at..at + s]))
            }
        }
    }
    cx.outcome(format!("{w:?} layout"));
}

fn roundtrip(cx: &mut Cx, o: &Ops, tier: Tier) {
    let w = *cx.pick("writer", &WRITERS);
    let r = *cx.pick("reader", &READERS);
    let n = cx.range("points", 0, tier.pick(2, 3));
    let mut v = base(o, n);
    cx.dev_bound = tier.pick(1, 2);
    for p in v.iter_mut().take(1) {
        for (k, d) in o.decl.iter().enumerate() {
            let a = alphabet(d.1);
            let c = cx.dev("value", a.len() + 1);
            if c > 0 {
                p[k] = a[c - 1];
            }
        }
    }
    let m = wr(cx, o, w, &v);
    let g = rd(cx, o, r, &m);
    if g != v {
        cx.fail("roundtrip", format!("{}: {w:?} then {r:?}: {g:x?}, expected {v:x?}", o.src))
    }
    cx.outcome(format!("{w:?}->{r:?} equal"));
}

/// messages of other origin: rotated fields with gaps, an extra field, either byte order
fn foreign(cx: &mut Cx, o: &Ops) {
    let r = *cx.pick("reader", &READERS);
    let n = o.decl.len();
    let rot = cx.choose("memory rotation", n.min(4));
    let list = cx.choose("listing", 2);
    let gap = cx.choose("gap", 2);
    let extra = cx.flag("extra field");
    let big = cx.flag("big endian");
    let lost = cx.choose("missing", n + 1);
    let mut slots: Vec<Slot> = o.decl.iter().map(|d| Slot { name: d.0.into(), dt: d.1, gap, count: 1 }).collect();
    if lost > 0 {
        slots[lost - 1].name.push('_');
    }
    if extra {
        slots.push(Slot { name: "other".into(), dt: F64, gap: 0, count: 1 });
    }
    let mut mem: Vec<usize> = (0..slots.len()).collect();
    mem.rotate_left(rot);
    let mut listing: Vec<usize> = (0..slots.len()).collect();
    if list == 1 {
        listing.reverse();
    }
    let (fields, step) = lay_out(&slots, &mem, &listing, gap);
    let mut m = message(fields, step, 2, 1, big);
    let v = base(o, 2);
    for i in 0..2 {
        for (k, d) in o.decl.iter().enumerate() {
            let f = m.fields.iter().find(|f| f.name == slots[k].name).unwrap();
            let at = i * step + f.off as usize;
            m.put(at, v[i][k], dt_size(d.1));
        }
    }
    if lost > 0 {
        match cx.catch(|| (o.read)(r, &m)) {
            Ok(Err(_)) => cx.outcome("missing refused"),
            x => cx.fail("missing", format!("{}: {r:?} of {} without {}: {x:x?}", o.src, m.brief(), o.decl[lost - 1].0)),
        }
        return;
    }
    let g = rd(cx, o, r, &m);
    if g != v {
        cx.fail("foreign", format!("{}: {r:?} of {}: {g:x?}, expected {v:x?}", o.src, m.brief()))
    }
    cx.outcome(format!("{r:?} of a foreign message equal"));
}

pub fn scenarios(tier: Tier, groups: Vec<(&'static str, Vec<fn() -> Ops>)>) -> Vec<Scenario> {
    groups
        .into_iter()
        .map(|(name, t)| {
            scenario(
                name,
                format!("{} derived structs x (layout of 3 writers; 3 writers x 3 readers x 0..={} points x up to {} boundary values; 3 readers x foreign messages)", t.len(), tier.pick(2, 3), tier.pick(1, 2)),
                move |cx| {
                    let k = cx.choose("struct", t.len());
                    let o = t[k]();
                    let what = cx.choose("what", 3);
                    cx.state(&(o.src, what));
                    cx.note(|| o.src.to_string());
                    match what {
                        0 => layout(cx, &o),
                        1 => roundtrip(cx, &o, tier),
                        _ => foreign(cx, &o),
                    }
                },
            )
        })
        .collect()
}

/// Generated code: a point type's access by declaration order, and its description.
#[macro_export]
macro_rules! derived {
    ($f:ident, $src:expr, $t:ty, $n:expr, [$($fld:ident = $name:expr, $ty:ty);*]) => {
        const _: () = {
            impl $crate::derived::Gp<$n> for $t {
                fn of(b: &[u64]) -> Self {
                    let mut i = 0;
                    $( let $fld: $ty = $crate::pts::Sc::of(b[i]); i += 1; )*
                    let _ = i;
                    Self { $($fld),* }
                }
                fn to(&self) -> Vec<u64> {
                    vec![$({ let v = self.$fld; $crate::pts::Sc::b(v) }),*]
                }
            }
        };
        fn $f() -> $crate::derived::Ops {
            $crate::derived::Ops {
                src: $src,
                size: std::mem::size_of::<$t>(),
                decl: vec![$(($name, <$ty as $crate::pts::Sc>::CODE, std::mem::offset_of!($t, $fld))),*],
                write: $crate::derived::write_ops::<$n, $t>,
                read: $crate::derived::read_ops::<$n, $t>,
            }
        }
    };
}
