//! C13: conversion to and from ROS message types loses nothing.
use harness::*;
use ros2_interfaces_jazzy as jz;
use ros_pointcloud2::ros::{HeaderMsg, TimeMsg};
use ros_pointcloud2::PointCloud2Msg;

/// the ROS side as plain attributes: read and built here, attribute by attribute
macro_rules! ros2 {
    ($m:ident, $p:path, $root:ident) => {
        mod $m {
            use super::*;
            use $p as root;
            pub type Msg = root::sensor_msgs::msg::PointCloud2;
            pub fn see(m: &Msg) -> MMsg {
                MMsg {
                    seq: 0,
                    sec: m.header.stamp.sec,
                    nsec: m.header.stamp.nanosec,
                    frame: m.header.frame_id.clone(),
                    width: m.width,
                    height: m.height,
                    fields: m.fields.iter().map(|f| MField { name: f.name.clone(), off: f.offset, dt: f.datatype, count: f.count }).collect(),
                    big: m.is_bigendian,
                    step: m.point_step,
                    row: m.row_step,
                    data: m.data.clone(),
                    dense: m.is_dense,
                    spare: 0,
                }
            }
            pub fn make(x: &MMsg) -> Msg {
                Msg {
                    header: root::std_msgs::msg::Header {
                        stamp: root::builtin_interfaces::msg::Time { sec: x.sec, nanosec: x.nsec },
                        frame_id: x.frame.clone(),
                    },
                    height: x.height,
                    width: x.width,
                    fields: x.fields.iter().map(|f| root::sensor_msgs::msg::PointField { name: f.name.clone(), offset: f.off, datatype: f.dt, count: f.count }).collect(),
                    is_bigendian: x.big,
                    point_step: x.step,
                    row_step: x.row,
                    data: x.data.clone(),
                    is_dense: x.dense,
                }
            }
        }
    };
}
ros2!(jazzy, jz, jz);
ros2!(r2r_, r2r, r2r);
mod ros1 {
    use super::*;
    pub type Msg = rosrust_msg::sensor_msgs::PointCloud2;
    pub fn see(m: &Msg) -> MMsg {
        MMsg {
            seq: m.header.seq,
            sec: m.header.stamp.sec as i32,
            nsec: m.header.stamp.nsec,
            frame: m.header.frame_id.clone(),
            width: m.width,
            height: m.height,
            fields: m.fields.iter().map(|f| MField { name: f.name.clone(), off: f.offset, dt: f.datatype, count: f.count }).collect(),
            big: m.is_bigendian,
            step: m.point_step,
            row: m.row_step,
            data: m.data.clone(),
            dense: m.is_dense,
            spare: 0,
        }
    }
    pub fn make(x: &MMsg) -> Msg {
        Msg {
            header: rosrust_msg::std_msgs::Header {
                seq: x.seq,
                stamp: rosrust::Time { sec: x.sec as u32, nsec: x.nsec },
                frame_id: x.frame.clone(),
            },
            height: x.height,
            width: x.width,
            fields: x.fields.iter().map(|f| rosrust_msg::sensor_msgs::PointField { name: f.name.clone(), offset: f.off, datatype: f.dt, count: f.count }).collect(),
            is_bigendian: x.big,
            point_step: x.step,
            row_step: x.row,
            data: x.data.clone(),
            is_dense: x.dense,
        }
    }
}

fn same(cx: &mut Cx, got: MMsg, want: &MMsg, what: &str) {
    if got != *want {
        let short = |m: &MMsg| format!("{m:?}").chars().take(1500).collect::<String>();
        cx.fail("attribute", format!("{what}: got {}, expected {}", short(&got), short(want)))
    }
}

macro_rules! judge {
    ($cx:expr, $lib:ident, $x:expr, $seq:expr, $name:expr) => {{
        let cx: &mut Cx = $cx;
        let x: &MMsg = $x;
        let mut want = x.clone();
        want.spare = 0;
        if !$seq {
            want.seq = 0;
        }
        // out and back
        let msg = x.to_msg();
        match cx.catch(|| {
            let out: $lib::Msg = msg.into();
            let seen = $lib::see(&out);
            let back: PointCloud2Msg = out.into();
            (seen, back)
        }) {
            Ok((seen, back)) => {
                same(cx, seen, &want, concat!($name, " message"));
                same(cx, MMsg::of_msg(&back), &want, concat!("back from ", $name));
            }
            Err(e) => cx.fail("panic", e),
        }
        // in and back out
        let ros = $lib::make(x);
        match cx.catch(|| {
            let m: PointCloud2Msg = ros.into();
            let inner = MMsg::of_msg(&m);
            let out: $lib::Msg = m.into();
            (inner, $lib::see(&out))
        }) {
            Ok((inner, out)) => {
                same(cx, inner, &want, concat!("from ", $name));
                same(cx, out, &want, concat!($name, " in and out"));
            }
            Err(e) => cx.fail("panic", e),
        }
    }};
}

fn everything(cx: &mut Cx, x: &MMsg) {
    cx.state(x);
    cx.note(|| format!("{x:?}").chars().take(400).collect());
    judge!(cx, jazzy, x, false, "jazzy");
    judge!(cx, r2r_, x, false, "r2r");
    judge!(cx, ros1, x, true, "rosrust");
    // header and time on their own
    let h: HeaderMsg = jazzy::make(x).header.into();
    let t: TimeMsg = jazzy::make(x).header.stamp.into();
    let t1: TimeMsg = ros1::make(x).header.stamp.into();
    cx.check(h.seq == 0 && h.stamp.sec == x.sec && h.stamp.nanosec == x.nsec && h.frame_id == x.frame, "header", || format!("{h:?} from {x:?}"));
    cx.check(t.sec == x.sec && t.nanosec == x.nsec, "time", || format!("{t:?} from {x:?}"));
    cx.check(t1.sec == x.sec && t1.nanosec == x.nsec, "time", || format!("{t1:?} from {x:?} (rosrust)"));
}

/// Every attribute has a value of its own, so that exchanged attributes show; `k` selects among
/// several such bases.
fn base(k: usize) -> MMsg {
    let o = k as u32 * 1000;
    MMsg {
        seq: 11 + o,
        sec: 12 + o as i32,
        nsec: 13 + o,
        frame: format!("frame{k}"),
        width: 14 + o,
        height: 15 + o,
        fields: (0..[3, 0, 1, 2][k])
            .map(|i| MField { name: format!("field{i}"), off: 100 + 7 * i + o, dt: 30 + i as u8, count: 200 + 3 * i + o })
            .collect(),
        big: k % 2 == 1,
        step: 16 + o,
        row: 17 + o,
        data: pattern_data(5 * k + 3 * (k == 0) as usize),
        dense: k / 2 == 1,
        spare: 0,
    }
}

fn attributes(tier: Tier) -> Vec<Scenario> {
    let bound = tier.pick(3, 4);
    vec![scenario(
        "attributes",
        format!("4 messages whose attributes all differ, up to {bound} attributes replaced by boundary values; jazzy, r2r and rosrust; out and back, in and back out"),
        move |cx| {
            cx.dev_bound = bound;
            let mut x = base(cx.choose("base", 4));
            fn u(cx: &mut Cx, l: &'static str, v: u32) -> u32 {
                [v, 0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX, 255, 256, 65536][cx.dev(l, 9)]
            }
            x.seq = u(cx, "seq", x.seq);
            let s = u(cx, "sec", x.sec as u32);
            x.sec = s as i32;
            x.nsec = {
                let v = [x.nsec, 999_999_999, 1_000_000_000, 0, u32::MAX, 0x8000_0000];
                v[cx.dev("nanosec", 6)]
            };
            let f = x.frame.clone();
            x.frame = [f, "".into(), "\0a\0".into(), "ß\u{1F600}".into(), " pad ".into(), "z".repeat(1000)][cx.dev("frame", 6)].clone();
            x.width = u(cx, "width", x.width);
            x.height = u(cx, "height", x.height);
            x.big ^= cx.dev("endian", 2) == 1;
            x.dense ^= cx.dev("dense", 2) == 1;
            x.step = u(cx, "step", x.step);
            x.row = u(cx, "row", x.row);
            for k in 0..x.fields.len() {
                x.fields[k].off = u(cx, "offset", x.fields[k].off);
                x.fields[k].count = u(cx, "count", x.fields[k].count);
                let d = x.fields[k].dt;
                x.fields[k].dt = [d, 0, 1, 7, 8, 9, 127, 128, 255][cx.dev("datatype", 9)];
                let n = x.fields[k].name.clone();
                x.fields[k].name = [n, "".into(), " x".into(), "\0".into(), "field0".into()][cx.dev("name", 5)].clone();
            }
            if x.fields.len() > 1 && cx.dev("swap fields", 2) == 1 {
                x.fields.swap(0, 1);
            }
            x.data = match cx.dev("data", 6) {
                0 => x.data,
                1 => vec![],
                2 => vec![0xff; 1],
                3 => vec![0; 64],
                4 => pattern_data(255),
                _ => pattern_data(70_000),
            };
            everything(cx, &x);
        },
    )]
}

fn sweeps(tier: Tier) -> Vec<Scenario> {
    vec![
        scenario("codes", "every datatype code in each of three fields, every endianness and density", move |cx| {
            let mut x = base(0);
            let k = cx.choose("field", 3);
            x.fields[k].dt = cx.choose("code", 256) as u8;
            x.big = cx.flag("big");
            x.dense = cx.flag("dense");
            everything(cx, &x);
        }),
        scenario("bits", "every single bit of every numeric attribute, on two backgrounds", move |cx| {
            let mut x = base(0);
            let which = cx.choose("attribute", 8);
            let bit = 1u32 << cx.choose("bit", 32);
            let v = if cx.flag("inverted") { !bit } else { bit };
            match which {
                0 => x.seq = v,
                1 => x.sec = v as i32,
                2 => x.nsec = v,
                3 => x.width = v,
                4 => x.height = v,
                5 => x.step = v,
                6 => x.row = v,
                _ => x.fields[1].off = v,
            }
            everything(cx, &x);
        }),
        scenario("fields", format!("lists of every length 0..={}", tier.pick(70, 300)), move |cx| {
            let n = cx.choose("fields", tier.pick(71, 301));
            let mut x = base(1);
            x.fields = (0..n).map(|i| MField { name: format!("n{i}"), off: 3 * i as u32, dt: (i % 256) as u8, count: 7 * i as u32 }).collect();
            everything(cx, &x);
        }),
        scenario("texts", format!("frame and field names: every text of up to {} of 16 pieces (separators, blanks, NUL, quotes, letter case, combining characters), on every base", tier.pick(3, 4)), move |cx| {
            let mut x = base(cx.choose("base", 4));
            let k = cx.choose("where", 1 + x.fields.len());
            let t = any_text(cx, tier.pick(3, 4));
            if k == 0 {
                x.frame = t;
            } else {
                x.fields[k - 1].name = t;
            }
            everything(cx, &x);
        }),
        scenario("lengths", format!("buffers and frame names of every length up to 300 and around every power of two up to 2^{}; buffers also with unused capacity", tier.pick(20, 24)), move |cx| {
            let mut x = base(cx.choose("base", 2));
            match cx.choose("what", 3) {
                0 => x.data = pattern_data(any_length(cx, 300, tier.pick(20, 24))),
                1 => {
                    x.data = pattern_data(any_length(cx, 300, 16));
                    x.spare = 100;
                }
                _ => {
                    let n = any_length(cx, 300, 16);
                    x.frame = pattern_data(n).iter().map(|b| (b'0' + b % 64) as char).collect();
                }
            }
            everything(cx, &x);
        }),
        scenario("written", "clouds of 0..=4 points of 3 types from all writers, sent through every library and read back", move |cx| {
            fn go<const N: usize, P: Pt<N>>(cx: &mut Cx) {
                let n = cx.range("points", 0, 4);
                let w = *cx.pick("writer", &WRITERS);
                let r = *cx.pick("reader", &READERS);
                let lib = cx.choose("library", 3);
                let b = base_points::<N, P>(n);
                cx.state(&(P::LABEL, n));
                let ps: Vec<P> = to_points(&b);
                let g = cx.catch(|| {
                    let m = write::<N, P>(w, ps)?;
                    let m: PointCloud2Msg = match lib {
                        0 => jazzy::Msg::from(m).into(),
                        1 => r2r_::Msg::from(m).into(),
                        _ => ros1::Msg::from(m).into(),
                    };
                    read::<N, P>(r, m)
                });
                match g {
                    Ok(Ok(v)) => {
                        let g = to_bits(&v);
                        if g != b {
                            cx.fail("points", diff(&g, &b))
                        }
                    }
                    x => cx.fail("failed", format!("{:?}", x.map(|r| r.map(|v| v.len())))),
                }
            }
            match cx.choose("type", 3) {
                0 => go::<4, ros_pointcloud2::points::PointXYZI>(cx),
                1 => go::<5, CMix>(cx),
                _ => go::<8, CAll>(cx),
            }
        }),
    ]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = attributes(tier);
    v.extend(sweeps(tier));
    v
}
fn main() {
    run("C13", scenarios)
}
