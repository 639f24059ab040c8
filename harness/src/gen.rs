//! Enumerations of messages: well-formed ones in every arrangement of fields, and malformed ones.
use crate::*;

/// The byte at position `k` of a generated buffer; neighbours and neighbouring blocks differ.
pub fn pattern(k: usize) -> u8 {
    (k * 131 + (k >> 8) * 17 + (k >> 16) * 59 + (k >> 24) * 101 + 7) as u8
}
pub fn pattern_data(n: usize) -> Vec<u8> {
    (0..n).map(pattern).collect()
}

/// Names that are easily mistaken for `n`.
pub fn near_misses(n: &str) -> Vec<String> {
    let mut v = vec![
        n.to_uppercase(),
        n.to_lowercase(),
        n.trim().to_string(),
        format!("{n} "),
        format!(" {n}"),
        format!("{n}\0"),
        format!("{n}{n}"),
        format!("{n}_"),
        n[..n.len() - 1].to_string(),
        String::new(),
        format!("{n}0"),
        format!("_{n}"),
        n.chars().rev().collect::<String>(),
    ];
    v.retain(|x| x != n);
    v.dedup();
    v
}

/// Points that programs are known to treat as blank, invalid or repeated: zeros, ones, not-a-number,
/// negative zero, and the point before once more; 0 is an ordinary one.
pub const CLASSES: usize = 6;
pub fn class_of<const N: usize>(class: usize, d: &[Decl; N], i: usize, before: Option<&[u64; N]>) -> [u64; N] {
    if let (5, Some(b)) = (class, before) {
        return *b;
    }
    std::array::from_fn(|k| {
        let float = d[k].dt == F32 || d[k].dt == F64;
        let top = 8 * dt_size(d[k].dt) - 1;
        let mask = u64::MAX >> (63 - top);
        match class {
            1 => 0,
            2 => mask,
            3 if float => if d[k].dt == F32 { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 },
            4 => if float { 1 << top } else { 0 },
            _ => base_bits(i, k, d[k].dt),
        }
    })
}
/// `n` points of every combination of classes.
pub fn classes<const N: usize, P: Pt<N>>(cx: &mut Cx, n: usize) -> Vec<[u64; N]> {
    let d = P::decl();
    let mut v: Vec<[u64; N]> = vec![];
    for i in 0..n {
        let p = class_of(cx.choose("class", CLASSES), &d, i, v.last());
        v.push(p);
    }
    v
}
/// A message of these points in one of the arrangements.
pub fn message_of<const N: usize, P: Pt<N>>(v: &[[u64; N]], arr: usize, big: bool) -> MMsg {
    let d = P::decl();
    let (f, step) = base_arrangement::<N, P>(arr);
    let mut m = message(f, step, v.len() as u32, 1, big);
    for (i, p) in v.iter().enumerate() {
        for k in 0..N {
            let at = i * step + m.fields[k].off as usize;
            m.put(at, p[k], d[k].size());
        }
    }
    m
}

/// Pieces of names that programs are known to treat specially: separators, blanks, quotes, letter
/// case, digits, terminators, combining and invisible characters.
pub const PIECES: [&str; 16] = ["a", "/", " ", "\0", "_", "~", "A", "0", "\n", "é", ".", "\u{200b}", "\"", "\\", "e\u{301}", "\u{1F600}"];

/// Every text of up to `n` pieces.
pub fn any_text(cx: &mut Cx, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match cx.choose("piece", PIECES.len() + 1) {
            0 => break,
            k => s.push_str(PIECES[k - 1]),
        }
    }
    s
}

/// Lengths around which buffers change their treatment.
pub fn any_length(cx: &mut Cx, low: usize, high_bit: usize) -> usize {
    if cx.flag("power") {
        (1usize << cx.range("bit", 8, high_bit)) + cx.choose("near", 3) - 1
    } else {
        cx.range("length", 0, low)
    }
}

pub struct Slot {
    pub name: String,
    pub dt: u8,
    pub gap: usize,
    pub count: u32,
}

/// Size of an element, taking unknown datatypes to be bytes.
pub fn extent(dt: u8) -> usize {
    if (1..=8).contains(&dt) { dt_size(dt) } else { 1 }
}

/// Lay the slots out in memory in the given order; list them in `listing` order.
pub fn lay_out(slots: &[Slot], mem: &[usize], listing: &[usize], tail: usize) -> (Vec<MField>, usize) {
    let mut off = vec![0usize; slots.len()];
    let mut at = 0;
    for &s in mem {
        at += slots[s].gap;
        off[s] = at;
        at += extent(slots[s].dt) * (slots[s].count.max(1) as usize);
    }
    let fields = listing
        .iter()
        .map(|&s| MField {
            name: slots[s].name.clone(),
            off: off[s] as u32,
            dt: slots[s].dt,
            count: slots[s].count,
        })
        .collect();
    (fields, at + tail)
}

pub fn message(fields: Vec<MField>, step: usize, w: u32, h: u32, big: bool) -> MMsg {
    let n = w as usize * h as usize;
    MMsg {
        fields,
        width: w,
        height: h,
        step: step as u32,
        row: w * step as u32,
        big,
        data: pattern_data(n * step),
        dense: true,
        frame: "map".into(),
        ..MMsg::empty()
    }
}

pub fn slots_of<const N: usize, P: Pt<N>>() -> Vec<Slot> {
    P::decl()
        .iter()
        .map(|d| Slot {
            name: d.name.to_string(),
            dt: d.dt,
            gap: 0,
            count: 1,
        })
        .collect()
}

/// All permutations of up to four items; for more, the identity, the reversal, every rotation and
/// every exchange of two items.
pub fn order(cx: &mut Cx, label: &'static str, n: usize, full: usize) -> Vec<usize> {
    if n <= full {
        return cx.perm(label, n);
    }
    let pairs = n * (n - 1) / 2;
    let k = cx.choose(label, 1 + 1 + (n - 1) + pairs);
    let mut v: Vec<usize> = (0..n).collect();
    if k == 0 {
    } else if k == 1 {
        v.reverse();
    } else if k < 2 + n - 1 {
        v.rotate_left(k - 1);
    } else {
        let mut q = k - 2 - (n - 1);
        let mut i = 0;
        while q >= n - 1 - i {
            q -= n - 1 - i;
            i += 1;
        }
        v.swap(i, i + 1 + q);
    }
    v
}

/// The fields where the point type has them in memory (what the vector writer produces).
pub fn memory_fields<const N: usize, P: Pt<N>>() -> Vec<MField> {
    P::decl()
        .iter()
        .map(|d| MField {
            name: d.name.into(),
            off: d.off as u32,
            dt: d.dt,
            count: 1,
        })
        .collect()
}

/// A well-formed base arrangement: packed, as in memory, as in memory with a longer step, or
/// reversed with gaps.
pub fn base_arrangement<const N: usize, P: Pt<N>>(k: usize) -> (Vec<MField>, usize) {
    let size = std::mem::size_of::<P>();
    match k {
        0 => {
            let s = slots_of::<N, P>();
            let id: Vec<usize> = (0..N).collect();
            lay_out(&s, &id, &id, 0)
        }
        1 => (memory_fields::<N, P>(), size),
        2 => (memory_fields::<N, P>(), size + 4),
        3 => (memory_fields::<N, P>(), size + 1),
        _ => {
            let mut s = slots_of::<N, P>();
            for x in s.iter_mut() {
                x.gap = 1;
            }
            let rev: Vec<usize> = (0..N).rev().collect();
            let id: Vec<usize> = (0..N).collect();
            lay_out(&s, &rev, &id, 2)
        }
    }
}
pub const ARRANGEMENTS: usize = 5;

/// The point's fields as in memory or packed, many others before or behind, and a point step that is
/// related to the size of the point or of its fields.
pub const CROWD: &str = "the fields as in memory or packed; up to 24 others of 1, 4 or 8 bytes or arrays of 5 listed (and stored) behind them, before them or on both sides; a point step as small as possible, or the next multiple of 4, 16, 32, of the size of the type or of its fields, or a further one; 5x1, 2x3 and 1x4 points";
pub const OTHERS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 24, 0];
pub fn crowded<const N: usize, P: Pt<N>>(cx: &mut Cx, others: &[usize], big: bool) -> MMsg {
    let mut f = if cx.flag("packed") { base_arrangement::<N, P>(0).0 } else { memory_fields::<N, P>() };
    let own = f.iter().map(|f| f.off as usize + dt_size(f.dt)).max().unwrap_or(0);
    let k = *cx.pick("others", others);
    let (dt, count) = if k == 0 { (U8, 1) } else { *cx.pick("kind", &[(F32, 1u32), (U8, 1), (F64, 1), (U8, 5)]) };
    let size = dt_size(dt) * count as usize;
    let side = if k == 0 { 0 } else { cx.choose("side", 3) };
    let before = match side {
        0 => 0,
        1 => k,
        _ => k / 2,
    };
    f.iter_mut().for_each(|f| f.off += (before * size) as u32);
    let mut end = own + before * size;
    for i in 0..k {
        let off = if i < before {
            i * size
        } else {
            end += size;
            end - size
        };
        let x = MField { name: format!("other{i}"), off: off as u32, dt, count };
        if i < before {
            f.insert(i, x);
        } else {
            f.push(x);
        }
    }
    let whole = std::mem::size_of::<P>();
    let (unit, more) = *cx.pick("step", &[(1, 0), (4, 0), (16, 0), (32, 0), (whole, 0), (whole, 1), (whole, 2), (own, 0), (own, 1), (own, 3)]);
    let step = end.max(whole.min(end + 16)).next_multiple_of(unit.max(1)) + more * unit;
    let (w, h) = *cx.pick("shape", &[(5, 1), (2, 3), (1, 4)]);
    message(f, step, w, h, big)
}

/// A message with at most `cx.dev_bound` departures from a well-formed one.
pub fn mutated<const N: usize, P: Pt<N>>(cx: &mut Cx) -> MMsg {
    let arr = cx.choose("arrangement", ARRANGEMENTS);
    let (fields, step) = base_arrangement::<N, P>(arr);
    let big = cx.dev("endian", 2) == 1;
    // the shape before anything else departs from it
    let shapes = [(2, 1), (1, 2), (1, 3), (2, 2), (3, 2), (7, 1), (1, 9), (0, 1), (1, 0)];
    let (w0, h0) = shapes[cx.dev("shape", shapes.len())];
    let mut m = message(fields, step, w0, h0, big);
    let s = step as u64;
    let ws = [w0, 0, 1, 3, 4, 0x1_0000, 0x8000_0000, 0xffff_ffff, 0x4000_0000];
    let hs = [h0, 0, 2, 3, 0x1_0000, 0x8000_0000, 0xffff_ffff, 0x4000_0000];
    m.width = ws[cx.dev("width", ws.len())];
    m.height = hs[cx.dev("height", hs.len())];
    let last = dt_size(P::decl()[N - 1].dt) as u64;
    let steps = [
        s, 0, 1, s - 1, s + 1, 2 * s, s / 2, s - last.min(s), s + 3, 4, 0x1_0000, 0x8000_0000, 0xffff_ffff,
    ];
    m.step = steps[cx.dev("step", steps.len())] as u32;
    // the fields: only the first, the middle and the last of long lists deviate
    let mut touched: Vec<usize> = if N <= 4 { (0..N).collect() } else { vec![0, N / 2, N - 1] };
    touched.dedup();
    let step_now = m.step as i64;
    let mut drop_at = None;
    let mut dups: Vec<(bool, MField)> = vec![];
    for &k in &touched {
        let sz = dt_size(m.fields[k].dt) as i64;
        let o = m.fields[k].off as i64;
        let offs = [
            o, 0, step_now - sz, step_now - sz + 1, step_now - 1, step_now, step_now + 1, o + 1,
            0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffc,
        ];
        let c = cx.dev("offset", offs.len());
        m.fields[k].off = offs[c].clamp(0, 0xffff_ffff) as u32;
        let d = m.fields[k].dt;
        let dts = [d, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16 + d, 128 + d, 255];
        m.fields[k].dt = dts[cx.dev("datatype", dts.len())];
        let counts = [1, 0, 2, u32::MAX];
        m.fields[k].count = counts[cx.dev("count", counts.len())];
        match cx.dev("name", 6) {
            0 => {}
            1 => drop_at = Some(k),
            2 => m.fields[k].name = m.fields[k].name.to_uppercase() + "_",
            3 => m.fields[k].name.push(' '),
            e => {
                // the name occurs a second time, elsewhere in the point
                let mut f = m.fields[k].clone();
                f.off = if f.off == 0 { (step_now - sz).max(0) as u32 } else { 0 };
                dups.push((e == 4, f));
            }
        }
    }
    if let Some(k) = drop_at {
        m.fields.remove(k);
    }
    for (front, f) in dups {
        if front {
            m.fields.insert(0, f)
        } else {
            m.fields.push(f)
        }
    }
    match cx.dev("extra", 10) {
        0 => {}
        e => {
            let (dt, off, count) = [(7, 0, 1), (0, 0, 1), (255, 0, 1), (8, u32::MAX, 1), (2, m.step, 1), (1, 0, 0), (2, 0, 4), (7, 0, u32::MAX), (0, 0, 0)][e - 1];
            let f = MField {
                name: "_".into(),
                off,
                dt,
                count,
            };
            if e > 6 {
                // padding fields are listed under one name
                m.fields.push(f.clone());
            }
            if e % 2 == 0 {
                m.fields.insert(0, f)
            } else {
                m.fields.push(f)
            }
        }
    }
    // the buffer: the base points unless told otherwise
    let base = w0 as usize * h0 as usize * step;
    let prod = m.width as u128 * m.height as u128 * m.step as u128;
    let wrap32 = (prod as u32) as usize;
    let wrap64 = (prod as u64) as usize;
    let fit = |n: usize| if n <= 4096 { n } else { base };
    let true_len = if prod <= 4096 { prod as usize } else { fit(wrap32) };
    let rows = m.width as u64 * m.step as u64;
    let lens = [
        true_len,
        base,
        fit(wrap64),
        fit((m.width as usize).wrapping_mul(m.step as usize)),
        fit((rows as u32) as usize),
        fit((m.height as usize).wrapping_mul(m.step as usize)),
        0,
        1,
        true_len.saturating_sub(1),
        true_len + 1,
        true_len.saturating_sub(m.step as usize),
        true_len + (m.step as usize).min(4096),
        true_len * 2,
        true_len / 2,
    ];
    let l = lens[cx.dev("length", lens.len())];
    m.data = match cx.dev("contents", 4) {
        0 => pattern_data(l),
        1 => vec![0; l],
        2 => vec![0xff; l],
        _ => (0..l).map(|k| [0, 0, 0xc0, 0x7f][k % 4]).collect(),
    };
    let full = (m.width as u64 * m.step as u64) as u32;
    let all = full.wrapping_mul(m.height);
    let rows = [
        full, 0, full.wrapping_add(1), u32::MAX, m.step, full.wrapping_mul(2), full.wrapping_sub(m.step),
        full.wrapping_add(m.step), all, m.width, 1,
    ];
    m.row = rows[cx.dev("row step", rows.len())];
    match cx.dev("metadata", 4) {
        0 => {}
        1 => m.dense = false,
        2 => m.spare = 3 * step + 5,
        _ => {
            m.seq = u32::MAX;
            m.sec = i32::MIN;
            m.nsec = u32::MAX;
            m.frame.clear();
        }
    }
    m
}

/// Whether the message is one every reader has to accept: consistent in all its parts.
pub fn is_well_formed(m: &MMsg) -> bool {
    let bytes = m.width as u128 * m.height as u128 * m.step as u128;
    bytes == m.data.len() as u128
        && m.row as u64 == m.width as u64 * m.step as u64
        && m.fields.iter().all(|f| {
            (1..=8).contains(&f.dt)
                && f.count == 1
                && f.off as u64 + dt_size(f.dt) as u64 <= m.step as u64
        })
        && m.fields
            .iter()
            .enumerate()
            .all(|(i, f)| m.fields[..i].iter().all(|g| g.name != f.name))
}
