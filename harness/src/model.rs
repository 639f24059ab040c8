//! Message model, reference reader, and the readers/writers of the code under test.
use crate::pts::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{
    CloudDimensions, Denseness, Endian, MsgConversionError, PointCloud2Msg,
};

/// Bit patterns that matter for a datatype: extremes, sign bits, and for floats NaNs with payloads
/// (quiet and signalling), negative zero, infinities and subnormals.
pub fn alphabet(dt: u8) -> &'static [u64] {
    match dt {
        I8 | U8 => &[0, 1, 0x7f, 0x80, 0xff],
        I16 | U16 => &[0, 1, 0x00ff, 0x7fff, 0x8000, 0xff00, 0xffff],
        I32 | U32 => &[0, 1, 0xff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xff00_00ff],
        F32 => &[
            0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0001, 0x7f80_0001, 0xffff_ffff, 1,
            0x807f_ffff, 0x7f7f_ffff,
        ],
        F64 => &[
            0,
            0x8000_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0001,
            0x7ff0_0000_0000_0001,
            0xffff_ffff_ffff_ffff,
            1,
            0x800f_ffff_ffff_ffff,
            0x0000_0000_ffff_ffff,
            0xffff_ffff_0000_0000,
        ],
        _ => panic!(),
    }
}

/// A value for field `f` of point `i` in which every byte differs from its neighbours and from the
/// same byte of nearby points and fields.
pub fn base_bits(i: usize, f: usize, dt: u8) -> u64 {
    let mut v = 0u64;
    for k in 0..dt_size(dt) {
        let b = (i * 89 + f * 37 + k * 17 + 11 + (i >> 8) * 53 + (i >> 16) * 29 + (i >> 24) * 13) as u8;
        v |= (b as u64) << (8 * k);
    }
    v
}

pub fn base_points<const N: usize, P: Pt<N>>(n: usize) -> Vec<[u64; N]> {
    let d = P::decl();
    (0..n)
        .map(|i| std::array::from_fn(|f| base_bits(i, f, d[f].dt)))
        .collect()
}
pub fn to_points<const N: usize, P: Pt<N>>(bits: &[[u64; N]]) -> Vec<P> {
    bits.iter().map(|b| P::of_bits(b)).collect()
}
pub fn to_bits<const N: usize, P: Pt<N>>(ps: &[P]) -> Vec<[u64; N]> {
    ps.iter().map(|p| p.bits()).collect()
}

// ---------------------------------------------------------------- readers and writers

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reader {
    Iter,
    Vec,
    Par,
    /// the exported iterator type, used as a sequential double-ended iterator
    Pub,
}
pub const READERS: [Reader; 3] = [Reader::Iter, Reader::Vec, Reader::Par];

pub fn read<const N: usize, P: Pt<N>>(
    r: Reader,
    m: PointCloud2Msg,
) -> Result<Vec<P>, MsgConversionError> {
    use rayon::iter::ParallelIterator;
    match r {
        Reader::Iter => Ok(m.try_into_iter::<N, P>()?.collect()),
        Reader::Vec => m.try_into_vec::<N, P>(),
        Reader::Par => Ok(m.try_into_par_iter::<N, P>()?.collect()),
        Reader::Pub => {
            let it = PointCloudIterator::<N, P>::try_from(m)?;
            let mut v = vec![];
            for p in it {
                v.push(p);
            }
            Ok(v)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Writer {
    Iter,
    Vec,
    Par,
}
pub const WRITERS: [Writer; 3] = [Writer::Iter, Writer::Vec, Writer::Par];

pub fn write<const N: usize, P: Pt<N>>(
    w: Writer,
    ps: Vec<P>,
) -> Result<PointCloud2Msg, MsgConversionError> {
    use rayon::iter::IntoParallelIterator;
    match w {
        Writer::Iter => PointCloud2Msg::try_from_iter::<N, P>(ps),
        Writer::Vec => PointCloud2Msg::try_from_vec::<N, P>(ps),
        Writer::Par => PointCloud2Msg::try_from_par_iter::<N, P>(ps.into_par_iter()),
    }
}

// ---------------------------------------------------------------- message model

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MField {
    pub name: String,
    pub off: u32,
    pub dt: u8,
    pub count: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MMsg {
    pub seq: u32,
    pub sec: i32,
    pub nsec: u32,
    pub frame: String,
    pub width: u32,
    pub height: u32,
    pub fields: Vec<MField>,
    pub big: bool,
    pub step: u32,
    pub row: u32,
    pub data: Vec<u8>,
    pub dense: bool,
    /// unused bytes behind the data, in the same allocation
    pub spare: usize,
}

impl MMsg {
    pub fn empty() -> Self {
        MMsg {
            seq: 0,
            sec: 0,
            nsec: 0,
            frame: String::new(),
            width: 0,
            height: 1,
            fields: vec![],
            big: false,
            step: 0,
            row: 0,
            data: vec![],
            dense: false,
            spare: 0,
        }
    }
    pub fn to_msg(&self) -> PointCloud2Msg {
        PointCloud2Msg {
            header: HeaderMsg {
                seq: self.seq,
                stamp: TimeMsg {
                    sec: self.sec,
                    nanosec: self.nsec,
                },
                frame_id: self.frame.clone(),
            },
            dimensions: CloudDimensions {
                width: self.width,
                height: self.height,
            },
            fields: self
                .fields
                .iter()
                .map(|f| PointFieldMsg {
                    name: f.name.clone(),
                    offset: f.off,
                    datatype: f.dt,
                    count: f.count,
                })
                .collect(),
            endian: if self.big { Endian::Big } else { Endian::Little },
            point_step: self.step,
            row_step: self.row,
            data: {
                let mut v = Vec::with_capacity(self.data.len() + self.spare);
                v.extend_from_slice(&self.data);
                v
            },
            dense: if self.dense {
                Denseness::Dense
            } else {
                Denseness::Sparse
            },
        }
    }
    pub fn of_msg(m: &PointCloud2Msg) -> Self {
        MMsg {
            seq: m.header.seq,
            sec: m.header.stamp.sec,
            nsec: m.header.stamp.nanosec,
            frame: m.header.frame_id.clone(),
            width: m.dimensions.width,
            height: m.dimensions.height,
            fields: m
                .fields
                .iter()
                .map(|f| MField {
                    name: f.name.clone(),
                    off: f.offset,
                    dt: f.datatype,
                    count: f.count,
                })
                .collect(),
            big: m.endian == Endian::Big,
            step: m.point_step,
            row: m.row_step,
            data: m.data.clone(),
            dense: m.dense == Denseness::Dense,
            spare: 0,
        }
    }
    /// Store the low `size` bytes of `bits` at `at`.
    pub fn put(&mut self, at: usize, bits: u64, size: usize) {
        let le = bits.to_le_bytes();
        for k in 0..size {
            self.data[at + k] = if self.big { le[size - 1 - k] } else { le[k] };
        }
    }
    pub fn brief(&self) -> String {
        format!(
            "{}x{} step {} row {} {} fields [{}] data {} bytes",
            self.width,
            self.height,
            self.step,
            self.row,
            if self.big { "BE" } else { "LE" },
            self.fields
                .iter()
                .take(12)
                .map(|f| format!("{:?}@{}:{}x{}", f.name, f.off, f.dt, f.count))
                .collect::<Vec<_>>()
                .join(", "),
            self.data.len()
        )
    }
}

/// Outcome of the reference reader.
#[derive(Clone, Debug, PartialEq)]
pub enum RefRead<const N: usize> {
    /// names that do not occur, in declaration order
    Missing(Vec<&'static str>),
    /// must be refused
    Bad(&'static str),
    /// must succeed; None: a field is stored with another datatype than the point type declares, so
    /// only the number of points and the agreement of the readers are specified
    Points(usize, Option<Vec<[u64; N]>>),
}

/// What a reader must do with a message, computed byte by byte from the PointCloud2 description.
pub fn reference<const N: usize, P: Pt<N>>(m: &MMsg) -> RefRead<N> {
    let d = P::decl();
    let find = |n: &str| m.fields.iter().find(|f| f.name == n);
    let missing: Vec<_> = d.iter().map(|x| x.name).filter(|n| find(n).is_none()).collect();
    if !missing.is_empty() {
        return RefRead::Missing(missing);
    }
    let bytes = m.width as u128 * m.height as u128 * m.step as u128;
    if bytes != m.data.len() as u128 {
        return RefRead::Bad("length");
    }
    let mut same = true;
    for x in &d {
        let f = find(x.name).unwrap();
        if !(1..=8).contains(&f.dt) {
            return RefRead::Bad("datatype");
        }
        if f.off as u64 + dt_size(f.dt) as u64 > m.step as u64 {
            return RefRead::Bad("fit");
        }
        same &= f.dt == x.dt;
    }
    let n = (m.width as u64 * m.height as u64) as usize;
    if !same {
        return RefRead::Points(n, None);
    }
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        out.push(std::array::from_fn(|k| {
            let f = find(d[k].name).unwrap();
            let s = dt_size(f.dt);
            let at = i * m.step as usize + f.off as usize;
            let mut v = 0u64;
            for b in 0..s {
                let byte = if m.big { m.data[at + s - 1 - b] } else { m.data[at + b] };
                v |= (byte as u64) << (8 * b);
            }
            v
        }));
    }
    RefRead::Points(n, Some(out))
}

pub fn hex(b: &[u64]) -> String {
    b.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ")
}
pub fn show<const N: usize>(v: &[[u64; N]]) -> String {
    v.iter()
        .take(8)
        .map(|p| format!("({})", hex(p)))
        .collect::<Vec<_>>()
        .join(" ")
}
/// Where two point lists differ first.
pub fn diff<const N: usize>(got: &[[u64; N]], want: &[[u64; N]]) -> String {
    if got.len() != want.len() {
        return format!("{} points, expected {}", got.len(), want.len());
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        for f in 0..N {
            if g[f] != w[f] {
                return format!("point {i} field {f}: {:#x}, expected {:#x}", g[f], w[f]);
            }
        }
    }
    "equal".into()
}

/// The message with every byte of a point that no field covers set to zero: those are the padding of
/// the point type, whose content the vector writer leaves unspecified.
pub fn without_padding(mut m: MMsg) -> MMsg {
    let step = m.step as usize;
    if step == 0 {
        return m;
    }
    let mut covered = vec![false; step];
    for f in &m.fields {
        if (1..=8).contains(&f.dt) {
            for k in 0..dt_size(f.dt) {
                if let Some(c) = covered.get_mut(f.off as usize + k) {
                    *c = true;
                }
            }
        }
    }
    for (k, b) in m.data.iter_mut().enumerate() {
        if !covered[k % step] {
            *b = 0;
        }
    }
    m
}
