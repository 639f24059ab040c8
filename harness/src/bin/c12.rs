//! C12: the message builder accepts exactly the consistent descriptions.
use harness::*;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensionsBuilder, PointCloud2MsgBuilder};

#[derive(Clone, Hash)]
struct Parts {
    seq: u32,
    sec: i32,
    nsec: u32,
    frame: String,
    width: u32,
    fields: Vec<(String, u32, u8, u32)>,
    big: bool,
    step: u32,
    row: u32,
    len: usize,
    dense: bool,
}
impl Parts {
    fn simple() -> Self {
        Parts { seq: 0, sec: 0, nsec: 0, frame: String::new(), width: 1, fields: vec![], big: false, step: 0, row: 0, len: 0, dense: false }
    }
    fn acceptable(&self) -> bool {
        let known = self.fields.iter().all(|f| (1..=8).contains(&f.2));
        !self.fields.is_empty()
            && known
            && self.fields.iter().all(|f| f.3 == 1)
            && self.step as u64 >= self.fields.iter().map(|f| dt_size(f.2) as u64).sum::<u64>()
            && self.len as u64 % (self.step as u64).max(1) == 0
    }
    fn brief(&self) -> String {
        format!("{} fields {:?} width {} step {} row {} buffer {} big {} dense {}", self.fields.len(), self.fields.iter().take(4).collect::<Vec<_>>(), self.width, self.step, self.row, self.len, self.big, self.dense)
    }
}

/// `order`: 0 as declared, 1 reversed, 2 every part first set to something else
fn judge(cx: &mut Cx, p: &Parts, data: Vec<u8>, order: usize) {
    let (ptr, len) = (data.as_ptr() as usize, data.len());
    assert_eq!(len, p.len);
    let header = HeaderMsg { seq: p.seq, stamp: TimeMsg { sec: p.sec, nanosec: p.nsec }, frame_id: p.frame.clone() };
    let fields: Vec<PointFieldMsg> = p.fields.iter().map(|f| PointFieldMsg { name: f.0.clone(), offset: f.1, datatype: f.2, count: f.3 }).collect();
    let want = if len <= 1 << 20 { data.clone() } else { vec![] };
    let r = cx.catch(|| {
        let b = PointCloud2MsgBuilder::new();
        match order {
            1 => b.dense(p.dense).data(data).row_step(p.row).point_step(p.step).endian(p.big).fields(fields).width(p.width).header(header),
            _ => {
                let b = if order == 2 {
                    b.header(HeaderMsg { seq: 9, stamp: TimeMsg { sec: 9, nanosec: 9 }, frame_id: "other".into() })
                        .width(99)
                        .fields(vec![PointFieldMsg { name: "q".into(), offset: 1, datatype: 0, count: 7 }])
                        .endian(!p.big)
                        .point_step(99)
                        .row_step(99)
                        .data(vec![1, 2, 3])
                        .dense(!p.dense)
                } else {
                    b
                };
                b.header(header).width(p.width).fields(fields).endian(p.big).point_step(p.step).row_step(p.row).data(data).dense(p.dense)
            }
        }
        .build()
    });
    let ok = p.acceptable();
    match r {
        Err(e) => cx.fail("panic", format!("building panicked: {e}: {}", p.brief())),
        Ok(Err(e)) => {
            if ok {
                cx.fail("refused", format!("{e:?}: {}", p.brief()))
            }
            let s = format!("{e:?}");
            let t = s.split('(').next().unwrap_or("").to_string();
            cx.outcome(t);
        }
        Ok(Ok(m)) => {
            if !ok {
                cx.fail("accepted", p.brief())
            }
            let _ = ptr;
            if m.data.len() != len || (len <= 1 << 20 && m.data != want) {
                cx.fail("part", format!("buffer changed: {}", p.brief()))
            }
            let mut m = m;
            m.data = vec![];
            let g = MMsg::of_msg(&m);
            let w = MMsg {
                seq: p.seq,
                sec: p.sec,
                nsec: p.nsec,
                frame: p.frame.clone(),
                width: p.width,
                height: u32::from(p.width > 0),
                fields: p.fields.iter().map(|f| MField { name: f.0.clone(), off: f.1, dt: f.2, count: f.3 }).collect(),
                big: p.big,
                step: p.step,
                row: p.row,
                data: vec![],
                dense: p.dense,
                spare: 0,
            };
            if g != w {
                cx.fail("part", format!("got {g:?}, supplied {w:?}"))
            }
            cx.outcome("built");
        }
    }
}

const DTS: [u8; 13] = [1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 16, 128, 255];

fn sum(fs: &[(String, u32, u8, u32)]) -> u64 {
    fs.iter().map(|f| if (1..=8).contains(&f.2) { dt_size(f.2) as u64 } else { 1 }).sum()
}
fn lens(step: u64) -> Vec<usize> {
    let s = (step as usize).min(5000);
    let mut v = vec![0, s, 2 * s, 3 * s, s + 1, s.saturating_sub(1), 2 * s + 1, (2 * s).saturating_sub(1), s / 2, 1, 7];
    v.dedup();
    v
}

/// every list of up to three fields
fn lists(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    vec![scenario(
        "lists",
        format!("every list of 0..={nmax} fields over datatypes {DTS:?} and counts 1, 0, 2, 2^32-1 (up to 2 other than 1), point steps from 2 below to 2 above the field sizes, 0 and 2^32-1, 11 buffer lengths"),
        move |cx| {
            cx.dev_bound = 2;
            let n = cx.range("fields", 0, nmax);
            let mut p = Parts::simple();
            for k in 0..n {
                // long lists: the boundary datatypes only
                let dt = if n <= 2 { *cx.pick("datatype", &DTS) } else { *cx.pick("datatype", &[1, 4, 7, 8, 0, 9]) };
                let count = [1, 0, 2, u32::MAX][cx.dev("count", 4)];
                p.fields.push((format!("f{k}"), (k * 3) as u32, dt, count));
            }
            let s = sum(&p.fields);
            let steps = [s, s.saturating_sub(1), s + 1, s + 2, s.saturating_sub(2), 0, 1, 0xffff_ffff];
            p.step = *cx.pick("step", &steps) as u32;
            p.len = *cx.pick("length", &lens(p.step as u64));
            p.width = p.len as u32 / p.step.max(1);
            cx.state(&p);
            cx.note(|| p.brief());
            let data = pattern_data(p.len);
            judge(cx, &p, data, 0);
        },
    )]
}

/// every datatype code, every combination of parts that must pass through
fn parts(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(3, 4);
    vec![
        scenario("codes", "one or two fields, all 256 datatype codes for each (the other one known), 3 setter orders", move |cx| {
            let second = cx.flag("second");
            let code = cx.choose("code", 256) as u8;
            let other = *cx.pick("other", &[0u8, 1, 8]);
            let order = cx.choose("order", 3);
            let mut p = Parts::simple();
            let a = ("a".to_string(), 0, code, 1);
            let b = ("b".to_string(), 8, other, 1);
            p.fields = if other == 0 { vec![a] } else if second { vec![b, a] } else { vec![a, b] };
            p.step = 16;
            p.len = 32;
            cx.state(&p);
            let data = pattern_data(32);
            judge(cx, &p, data, order);
        }),
        scenario(
            "passthrough",
            format!("a consistent description with up to {bound} of its parts replaced: header values, frame ids, widths, offsets, names, endianness, row steps, density, lengths, steps; 3 setter orders"),
            move |cx| {
                cx.dev_bound = bound;
                let mut p = Parts::simple();
                p.fields = vec![("x".into(), 0, 7, 1), ("y".into(), 4, 7, 1), ("t".into(), 8, 8, 1)];
                p.step = 16;
                p.len = 32;
                p.width = 2;
                p.row = 32;
                p.seq = [0, 1, u32::MAX][cx.dev("seq", 3)];
                p.sec = [0, 1, -1, i32::MIN, i32::MAX][cx.dev("sec", 5)];
                p.nsec = [0, 1, 999_999_999, 1_000_000_000, u32::MAX][cx.dev("nanosec", 5)];
                p.frame = ["", "map", "\0", "a/b c", "\u{1F600}ß", &"f".repeat(300)][cx.dev("frame", 6)].to_string();
                p.width = [2, 0, 1, 3, 65536, u32::MAX][cx.dev("width", 6)];
                for k in 0..3 {
                    let o = p.fields[k].1;
                    p.fields[k].1 = [o, 0, 1, 100, u32::MAX][cx.dev("offset", 5)];
                    let n = p.fields[k].0.clone();
                    p.fields[k].0 = [n, "".into(), "x".into(), "a b".into()][cx.dev("name", 4)].clone();
                    let c = [1, 0, 2, 3, u32::MAX][cx.dev("count", 5)];
                    p.fields[k].3 = c;
                    let d = p.fields[k].2;
                    p.fields[k].2 = [d, 0, 1, 8, 9, 255][cx.dev("datatype", 6)];
                }
                p.big = cx.dev("endian", 2) == 1;
                p.dense = cx.dev("dense", 2) == 1;
                p.row = [32, 0, 1, u32::MAX][cx.dev("row", 4)];
                p.step = [16, 15, 17, 0, 1, 24, 32, 33, 8, u32::MAX][cx.dev("step", 10)];
                p.len = [32, 0, 16, 33, 31, 15, 17, 48, 1][cx.dev("length", 9)];
                let order = cx.dev("order", 3);
                cx.state(&p);
                cx.note(|| p.brief());
                let data = pattern_data(p.len);
                judge(cx, &p, data, order);
            },
        ),
        scenario("texts", format!("frame and field names: every text of up to {} of 16 pieces", tier.pick(3, 4)), move |cx| {
            let mut p = Parts::simple();
            p.fields = vec![("x".into(), 0, 7, 1), ("y".into(), 4, 7, 1)];
            p.step = 8;
            p.len = 16;
            p.row = 16;
            p.width = 2;
            let k = cx.choose("where", 3);
            let t = any_text(cx, tier.pick(3, 4));
            if k == 0 {
                p.frame = t;
            } else {
                p.fields[k - 1].0 = t;
            }
            cx.state(&p);
            cx.note(|| p.brief());
            let data = pattern_data(p.len);
            judge(cx, &p, data, 0);
        }),
        scenario("lengths", format!("steps 1..=24 and around every power of two, buffers of every length up to 300 and around every power of two up to 2^{}", tier.pick(18, 22)), move |cx| {
            let mut p = Parts::simple();
            p.fields = vec![("x".into(), 0, 1, 1)];
            p.step = if cx.flag("wide") { (1u32 << cx.range("step bit", 5, 31)) + cx.choose("off", 3) as u32 - 1 } else { cx.range("step", 1, 24) as u32 };
            p.len = any_length(cx, 300, tier.pick(18, 22));
            p.width = (p.len / p.step as usize) as u32;
            cx.state(&p);
            cx.note(|| p.brief());
            let data = pattern_data(p.len);
            judge(cx, &p, data, 0);
        }),
        scenario("many-fields", "16, 17, 63, 64, 65, 255, 256, 257, 1000 fields of one datatype (or the last one bad), steps one below, at and above the sum", move |cx| {
            let n = *cx.pick("fields", &[16usize, 17, 63, 64, 65, 255, 256, 257, 1000]);
            let dt = cx.range("datatype", 1, 8) as u8;
            let mut p = Parts::simple();
            p.fields = (0..n).map(|k| (format!("f{k}"), 0, dt, 1)).collect();
            match cx.choose("last", 4) {
                0 => {}
                1 => p.fields[n - 1].2 = 9,
                2 => p.fields[n - 1].3 = 0,
                _ => p.fields[n / 2].2 = if dt == 8 { 1 } else { 8 },
            }
            let s = sum(&p.fields);
            p.step = (s - 1 + cx.choose("step", 3) as u64) as u32;
            p.len = *cx.pick("length", &lens(p.step as u64));
            cx.state(&(n, dt, p.step, p.len, p.fields[n - 1].2));
            let data = pattern_data(p.len);
            judge(cx, &p, data, 0);
        }),
        scenario(
            "long-buffers",
            "buffers of 2^32+k bytes (k = -1, 0, 1, 2, 3, 4, 8, 12, never touched) against steps 1, 2, 3, 4, 5, 7, 12, 16, 24, 2^16+1, 2^31, 2^32-1: accepted exactly when the full length is a multiple",
            move |cx| {
                let k = *cx.pick("length", &[-1i64, 0, 1, 2, 3, 4, 8, 12]);
                let step = *cx.pick("step", &[1u32, 2, 3, 4, 5, 7, 12, 16, 24, 65537, 1 << 31, u32::MAX]);
                let mut p = Parts::simple();
                p.fields = vec![("v".into(), 0, 2, 1)];
                p.step = step;
                p.len = ((1i64 << 32) + k) as usize;
                cx.state(&(k, step));
                // zeroed pages that are never touched
                let data = vec![0u8; p.len];
                judge(cx, &p, data, 0);
            },
        ),
        scenario("dimensions", "every width 0..=65600, and every 2^k-1, 2^k, 2^k+1 for k = 0..64", move |cx| {
            let small = cx.flag("small");
            let w: u128 = if small {
                cx.choose("width", 65601) as u128
            } else {
                let k = cx.choose("power", 65);
                (1u128 << k) + cx.choose("off", 3) as u128 - 1
            };
            let w = (w as u64).wrapping_sub(u64::from(w > u64::MAX as u128)) as usize;
            cx.state(&w);
            match cx.catch(|| CloudDimensionsBuilder::new_with_width(w).build()) {
                Ok(Ok(d)) => {
                    cx.check(w <= u32::MAX as usize && d.width as usize == w && d.height == u32::from(w > 0), "dimensions", || format!("width {w} gives {d:?}"));
                    cx.outcome("built");
                }
                Ok(Err(_)) => {
                    cx.check(w > u32::MAX as usize, "dimensions", || format!("width {w} refused"));
                    cx.outcome("refused");
                }
                Err(e) => cx.fail("panic", format!("width {w}: {e}")),
            }
        }),
    ]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = lists(tier);
    v.extend(parts(tier));
    v
}
fn main() {
    run("C12", scenarios)
}
