//! C23: a written cloud can be read as any point type whose fields it holds, and only as such.
#![allow(non_snake_case)]
use harness::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::{LayoutDescription, LayoutField, MsgConversionError, PointCloud2Msg, PointConvertible, PointData, RPCL2Point};

// narrower and reordered views of the other types
custom!(#[repr(C)] CZYX, 3, { z: f32, y: f32, x: f32 });
custom!(#[repr(C)] CX, 1, { x: f32 });
custom!(#[repr(C)] CIX, 2, { intensity: f32, x: f32 });
custom!(#[repr(C)] CNZ, 3, { normal_z: f32, normal_x: f32, y: f32 });
custom!(#[repr(C)] CXYZTail, 4, { x: f32, y: f32, z: f32, label: u32 });
custom!(#[repr(C, packed)] CLabel, 2, { a: u8, label: u32 });
custom!(#[repr(C, align(16))] CXYZ16, 3, { x: f32, y: f32, z: f32 });
custom!(#[repr(C)] CMixHead, 2, { a: u8, b: f64 });
custom!(#[repr(C)] CAllTail, 3, { h: f64, e: i32, c: i16 });
custom!(#[repr(C)] CUpper, 2, { X: f32, y: f32 });
#[repr(C)]
#[derive(Clone, Copy, Default)]
struct CRgb {
    rgb: RGB,
}
impl From<RPCL2Point<1>> for CRgb {
    fn from(p: RPCL2Point<1>) -> Self {
        CRgb { rgb: p[0].get() }
    }
}
impl From<CRgb> for RPCL2Point<1> {
    fn from(p: CRgb) -> Self {
        [PointData::new(p.rgb)].into()
    }
}
unsafe impl PointConvertible<1> for CRgb {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[LayoutField::new("rgb", "RGB", 4)])
    }
}
pt_impl!(CRgb, 1, [rgb]);
#[derive(Clone, Copy, Default, ros_pointcloud2::prelude::PointConvertible)]
#[repr(C)]
struct DRing {
    #[rpcl2(rename("x"))]
    east: f32,
    ring: u16,
}
impl Pt<2> for DRing {
    const LABEL: &'static str = "DRing";
    fn decl() -> [Decl; 2] {
        [Decl { name: "x", dt: F32, off: 0 }, Decl { name: "ring", dt: U16, off: 4 }]
    }
    fn bits(&self) -> [u64; 2] {
        [self.east.b(), self.ring.b()]
    }
    fn of_bits(b: &[u64]) -> Self {
        DRing { east: Sc::of(b[0]), ring: Sc::of(b[1]) }
    }
}

/// A point type in every respect but the name of one field.
#[derive(Clone, Copy, Default)]
#[repr(transparent)]
struct Renamed<P>(P);
thread_local! {
    static NAME: std::cell::Cell<(usize, &'static str)> = const { std::cell::Cell::new((0, "")) };
}
impl<const N: usize, P: Pt<N>> From<RPCL2Point<N>> for Renamed<P> {
    fn from(p: RPCL2Point<N>) -> Self {
        Renamed(p.into())
    }
}
impl<const N: usize, P: Pt<N>> From<Renamed<P>> for RPCL2Point<N>
where
    RPCL2Point<N>: From<P>,
{
    fn from(p: Renamed<P>) -> Self {
        p.0.into()
    }
}
unsafe impl<const N: usize, P: Pt<N>> PointConvertible<N> for Renamed<P>
where
    RPCL2Point<N>: From<P>,
{
    fn layout() -> LayoutDescription {
        const TYPES: [&str; 8] = ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"];
        let (k, name) = NAME.get();
        let mut v = vec![];
        let mut end = 0;
        for (i, d) in P::decl().iter().enumerate() {
            v.push(LayoutField::padding(d.off - end));
            v.push(LayoutField::new(if i == k { name } else { d.name }, TYPES[d.dt as usize - 1], d.size()));
            end = d.off + d.size();
        }
        v.push(LayoutField::padding(std::mem::size_of::<P>() - end));
        LayoutDescription::new(&v)
    }
}
fn intern(s: String) -> &'static str {
    static ALL: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(vec![]);
    let mut all = ALL.lock().unwrap();
    if let Some(x) = all.iter().find(|x| **x == s) {
        return x;
    }
    let x: &'static str = Box::leak(s.into_boxed_str());
    all.push(x);
    x
}

/// read as a type of the same shape one of whose names is almost a name of the cloud's
fn near<const N: usize, P: Pt<N> + Copy>(tier: Tier) -> Vec<Scenario>
where
    RPCL2Point<N>: From<P>,
{
    let nmax = tier.pick(2, 3);
    vec![scenario(
        format!("near-{}", P::LABEL),
        format!("{} written by 3 writers and read by 3 readers as the same type with one field's name cut, extended or otherwise altered, 0..={nmax} points", P::LABEL),
        move |cx| {
            use rayon::iter::ParallelIterator;
            let d = P::decl();
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &READERS);
            let k = cx.choose("field", N);
            let mut names = near_misses(d[k].name);
            for i in (1..d[k].name.len()).filter(|i| d[k].name.is_char_boundary(*i)) {
                names.push(d[k].name[..i].into());
                names.push(d[k].name[i..].into());
            }
            names.sort();
            names.dedup();
            names.retain(|n| d.iter().all(|f| f.name != n));
            let name = intern(names[cx.choose("name", names.len())].clone());
            let n = cx.range("points", 0, nmax);
            cx.state(&(k, name, n));
            let m = match cx.catch(|| write::<N, P>(w, to_points::<N, P>(&base_points::<N, P>(n)))) {
                Ok(Ok(m)) => m,
                e => cx.fail("write", format!("{:?}", e.map(|r| r.is_ok()))),
            };
            NAME.set((k, name));
            let got = cx.catch(|| match r {
                Reader::Vec => m.try_into_vec::<N, Renamed<P>>().map(|v| v.len()),
                Reader::Par => m.try_into_par_iter::<N, Renamed<P>>().map(|i| i.collect::<Vec<_>>().len()),
                _ => m.try_into_iter::<N, Renamed<P>>().map(|i| i.count()),
            });
            match got {
                Ok(Err(MsgConversionError::FieldsNotFound(g))) if g == [name] => {}
                Ok(Err(_)) if r == Reader::Vec => {}
                o => cx.fail("near-name", format!("{n} points of {} written by {w:?}, read by {r:?} with {name:?} for {:?}: {o:?}", P::LABEL, d[k].name)),
            }
            cx.outcome("refused");
        },
    )]
}

type Bits = Vec<u64>;
#[derive(Clone)]
struct Ty {
    label: &'static str,
    decl: Vec<Decl>,
    write: fn(Writer, &[Bits]) -> Result<PointCloud2Msg, MsgConversionError>,
    read: fn(Reader, PointCloud2Msg) -> Result<Vec<Bits>, MsgConversionError>,
}
fn ty<const N: usize, P: Pt<N>>() -> Ty {
    Ty {
        label: P::LABEL,
        decl: P::decl().to_vec(),
        write: |w, v| write::<N, P>(w, v.iter().map(|b| P::of_bits(b)).collect()),
        read: |r, m| Ok(read::<N, P>(r, m)?.iter().map(|p| p.bits().to_vec()).collect()),
    }
}
fn types() -> Vec<Ty> {
    vec![
        ty::<3, PointXYZ>(),
        ty::<4, PointXYZI>(),
        ty::<4, PointXYZL>(),
        ty::<4, PointXYZRGB>(),
        ty::<5, PointXYZRGBA>(),
        ty::<7, PointXYZRGBNormal>(),
        ty::<7, PointXYZINormal>(),
        ty::<5, PointXYZRGBL>(),
        ty::<6, PointXYZNormal>(),
        ty::<1, C1>(),
        ty::<2, C2>(),
        ty::<2, CXZ>(),
        ty::<3, CD>(),
        ty::<5, CMix>(),
        ty::<8, CAll>(),
        ty::<4, CPack>(),
        ty::<2, CWide>(),
        ty::<2, CHid>(),
        ty::<5, DMix>(),
        ty::<3, CZYX>(),
        ty::<1, CX>(),
        ty::<2, CIX>(),
        ty::<3, CNZ>(),
        ty::<1, CRgb>(),
        ty::<4, CXYZTail>(),
        ty::<2, CLabel>(),
        ty::<3, CXYZ16>(),
        ty::<2, CMixHead>(),
        ty::<3, CAllTail>(),
        ty::<2, CUpper>(),
        ty::<2, DRing>(),
        ty::<17, F17>(),
        ty::<40, F40>(),
    ]
}

/// How the fields of `b` relate to those of `a`.
enum View {
    /// the position in `a` of each field
    Inside(Vec<usize>),
    Missing(Vec<&'static str>),
    /// all names are there, but one with another datatype: not specified here
    Other,
}
fn view(a: &Ty, b: &Ty) -> View {
    let at: Vec<Option<usize>> = b.decl.iter().map(|f| a.decl.iter().position(|g| g.name == f.name)).collect();
    let missing: Vec<_> = b.decl.iter().zip(&at).filter(|(_, p)| p.is_none()).map(|(f, _)| f.name).collect();
    if !missing.is_empty() {
        return View::Missing(missing);
    }
    let at: Vec<usize> = at.into_iter().flatten().collect();
    if at.iter().zip(&b.decl).any(|(p, f)| a.decl[*p].dt != f.dt) {
        return View::Other;
    }
    View::Inside(at)
}
fn project(v: &[Bits], at: &[usize]) -> Vec<Bits> {
    v.iter().map(|p| at.iter().map(|k| p[*k]).collect()).collect()
}

const ALLR: [Reader; 4] = [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub];

fn base(a: &Ty, n: usize) -> Vec<Bits> {
    (0..n).map(|i| a.decl.iter().enumerate().map(|(f, d)| base_bits(i, f, d.dt)).collect()).collect()
}

fn written(cx: &mut Cx, a: &Ty, w: Writer, v: &[Bits]) -> PointCloud2Msg {
    match cx.catch(|| (a.write)(w, v)) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => cx.fail("write-error", format!("writing {} {}: {e:?}", v.len(), a.label)),
        Err(e) => cx.fail("write-panic", format!("writing {} {}: {e}", v.len(), a.label)),
    }
}

fn read_as(cx: &mut Cx, a: &Ty, b: &Ty, w: Writer, r: Reader, v: &[Bits]) -> &'static str {
    let m = written(cx, a, w, v);
    let got = match cx.catch(|| (b.read)(r, m)) {
        Ok(g) => g,
        Err(e) => cx.fail("read-panic", format!("{} written by {w:?}, read as {} by {r:?}: {e}", a.label, b.label)),
    };
    let who = || format!("{} points of {} written by {w:?}, read as {} by {r:?}", v.len(), a.label, b.label);
    match (view(a, b), got) {
        (View::Inside(at), Ok(g)) => {
            let want = project(v, &at);
            if g != want {
                let i = g.iter().zip(&want).position(|(x, y)| x != y);
                cx.fail("mismatch", format!("{}: {} points, first difference {:?}: {}, expected {}", who(), g.len(), i,
                    i.map_or(String::new(), |i| hex(&g[i])), i.map_or(String::new(), |i| hex(&want[i]))))
            }
            "projected"
        }
        (View::Inside(_), Err(e)) => cx.fail("refused", format!("{}: {e:?}", who())),
        (View::Missing(_), Ok(g)) => cx.fail("invented", format!("{}: {} points although fields are missing", who(), g.len())),
        (View::Missing(names), Err(e)) => {
            if r != Reader::Vec {
                match &e {
                    MsgConversionError::FieldsNotFound(g) if g.iter().map(|s| s.as_str()).eq(names.iter().copied()) => {}
                    _ => cx.fail("wrong-error", format!("{}: {e:?}, missing are {names:?}", who())),
                }
            }
            "refused: fields missing"
        }
        (View::Other, Ok(g)) => {
            if g.len() != v.len() {
                cx.fail("count", format!("{}: {} points", who(), g.len()))
            }
            "other datatype"
        }
        (View::Other, Err(_)) => "other datatype",
    }
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let all = types();
    let mut out = vec![];
    let count = all.len();
    for a in &all {
        let a = a.clone();
        let bs = all.clone();
        let (nmax, bound) = (tier.pick(2, 4), tier.pick(1, 2));
        out.push(scenario(
            format!("pairs-{}", a.label),
            format!("written as {} by 3 writers, read as each of {count} types by 4 readers, 0..={nmax} points, every assignment of boundary values to at most {bound} fields", a.label),
            move |cx| {
                let b = &bs[cx.choose("as", bs.len())];
                let w = *cx.pick("writer", &WRITERS);
                let r = *cx.pick("reader", &ALLR);
                let n = cx.range("points", 0, nmax);
                cx.dev_bound = if a.decl.len() > 16 { 0 } else { bound };
                let mut v = base(&a, n);
                for p in v.iter_mut() {
                    for (f, d) in a.decl.iter().enumerate() {
                        if a.decl.len() > 16 {
                            continue;
                        }
                        let al = alphabet(d.dt);
                        let k = cx.dev("value", al.len() + 1);
                        if k > 0 {
                            p[f] = al[k - 1];
                        }
                    }
                }
                cx.state(&(b.label, &v));
                let o = read_as(cx, &a, b, w, r, &v);
                cx.outcome(o);
            },
        ));
    }
    // longer clouds for the pairs that fit
    let sizes: &[usize] = tier.pick(
        &[3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4097],
        &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16385, 65535, 65536, 65537, 131073],
    );
    let fits: Vec<(usize, usize)> = (0..count)
        .flat_map(|i| (0..count).map(move |j| (i, j)))
        .filter(|(i, j)| matches!(view(&all[*i], &all[*j]), View::Inside(_)))
        .collect();
    let (ts, fs) = (all.clone(), fits.clone());
    out.push(scenario(
        "sizes",
        format!("{} pairs of types of which one holds the other's fields x 3 writers x 4 readers x {} sizes up to {}", fits.len(), sizes.len(), sizes[sizes.len() - 1]),
        move |cx| {
            let (i, j) = fs[cx.choose("pair", fs.len())];
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &ALLR);
            let n = *cx.pick("points", sizes);
            cx.state(&(i, j, n));
            let v = base(&ts[i], n);
            let o = read_as(cx, &ts[i], &ts[j], w, r, &v);
            cx.outcome(o);
        },
    ));
    // and long ones where the vector reader has a choice
    let long: Vec<(usize, usize)> = fits
        .iter()
        .copied()
        .filter(|(i, j)| {
            let (a, b) = (&all[*i], &all[*j]);
            i != j && (b.decl.iter().zip(&a.decl).all(|(f, g)| f.name == g.name && f.off == g.off) || b.label == "CZYX")
        })
        .collect();
    let ls: &[usize] = tier.pick(&[65537, 131073], &[65535, 65536, 65537, 131073, 262145, (1 << 20) + 1]);
    let ts = all.clone();
    out.push(scenario(
        "long",
        format!("{} pairs of types x 2 writers x 3 readers x sizes {ls:?}", long.len()),
        move |cx| {
            let (i, j) = long[cx.choose("pair", long.len())];
            let w = *cx.pick("writer", &[Writer::Iter, Writer::Vec]);
            let r = *cx.pick("reader", &READERS);
            let n = *cx.pick("points", ls);
            cx.state(&(i, j, n));
            let v = base(&ts[i], n);
            let o = read_as(cx, &ts[i], &ts[j], w, r, &v);
            cx.outcome(o);
        },
    ));
    // chains: write as A, read as B, write that, read as C
    let triples: Vec<(usize, usize, usize)> = fits
        .iter()
        .filter(|(i, j)| i != j)
        .flat_map(|&(i, j)| fits.iter().filter(move |(k, _)| *k == j).map(move |&(_, k)| (i, j, k)))
        .collect();
    let nmax = tier.pick(1, 3);
    let ts = all.clone();
    out.push(scenario(
        "chains",
        format!("{} triples of types, each holding the next one's fields: written, read as the second, written again and read as the third, by any writers and readers, 0..={nmax} points and 17", triples.len()),
        move |cx| {
            let (i, j, k) = triples[cx.choose("triple", triples.len())];
            let (a, b, c) = (&ts[i], &ts[j], &ts[k]);
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &READERS);
            let w2 = *cx.pick("second writer", &WRITERS);
            let r2 = *cx.pick("second reader", &READERS);
            let n = match cx.range("points", 0, nmax + 1) {
                n if n > nmax => 17,
                n => n,
            };
            cx.state(&(i, j, k, n));
            let v = base(a, n);
            let m = written(cx, a, w, &v);
            let mid = match cx.catch(|| (b.read)(r, m)) {
                Ok(Ok(g)) => g,
                e => cx.fail("refused", format!("{} by {w:?} as {} by {r:?}: {e:?}", a.label, b.label)),
            };
            let o = read_as(cx, b, c, w2, r2, &mid);
            let (View::Inside(x), View::Inside(y)) = (view(a, b), view(b, c)) else { return };
            let m = written(cx, b, w2, &mid);
            let last = cx.catch(|| (c.read)(r2, m));
            let want = project(&project(&v, &x), &y);
            match last {
                Ok(Ok(g)) if g == want => {}
                e => cx.fail("chain", format!("{} as {} as {} by {w:?} {r:?} {w2:?} {r2:?}: {e:x?}, expected {want:x?}", a.label, b.label, c.label)),
            }
            cx.outcome(o);
        },
    ));
    out.extend(all_points!(near, tier));
    out
}
fn main() {
    run("C23", scenarios)
}
