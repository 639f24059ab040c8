//! C16: RGB packing keeps channels separate and follows the ROS byte order.
use harness::*;
use ros_pointcloud2::points::*;
use std::fmt::Write;

struct Buf([u8; 16], usize);
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 < 16 {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}
const HEX: &[u8; 16] = b"0123456789ABCDEF";

/// everything that can be seen of a colour agrees with the packed pattern `p`
#[inline]
fn see(c: RGB, p: u32) -> Result<(), &'static str> {
    let (r, g, b) = ((p >> 16) as u8, (p >> 8) as u8, p as u8);
    if RGB::r(&c) != r || RGB::g(&c) != g || RGB::b(&c) != b {
        return Err("channel getters");
    }
    if c.raw().to_bits() != p {
        return Err("raw value");
    }
    if f32::from(c).to_bits() != p {
        return Err("conversion to f32");
    }
    if RGB::from(f32::from_bits(p)) != c || c != RGB::new(r, g, b) {
        return Err("equality");
    }
    Ok(())
}
#[inline]
fn display(c: RGB, p: u32) -> Result<(), &'static str> {
    let mut s = Buf([0; 16], 0);
    let _ = write!(s, "{c}");
    let h = |k: u32| HEX[(p >> (4 * k)) as usize & 15];
    if s.0[..s.1] != [b'#', h(5), h(4), h(3), h(2), h(1), h(0)] {
        return Err("display form");
    }
    Ok(())
}

fn sweep(cx: &mut Cx, ps: impl Iterator<Item = u32>, f: impl Fn(u32) -> Result<(), &'static str>) {
    let mut n = 0;
    let mut at = 0;
    let r = cx.catch(|| {
        for p in ps {
            n += 1;
            at = p;
            f(p)?;
        }
        Ok::<(), &'static str>(())
    });
    cx.steps(n * 6);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => cx.fail(e, format!("{at:#010x}: {e}")),
        Err(e) => cx.fail("panic", format!("{at:#010x}: {e}")),
    }
}

fn colours(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![
        scenario("channels", "all 2^24 colours from their channels", |cx| {
            let r = cx.choose("red", 256) as u32;
            cx.state(&r);
            sweep(cx, (r << 16)..((r + 1) << 16), |p| {
                let c = RGB::new((p >> 16) as u8, (p >> 8) as u8, p as u8);
                see(c, p)?;
                display(c, p)
            });
        }),
        scenario("packed", "all 2^24 patterns under the top bytes 00, 01, 7f, 80, ff (NaNs among them); 256 top bytes over 24^3 boundary colours", |cx| {
            const B: [u32; 24] = [0, 1, 2, 3, 7, 15, 16, 31, 32, 63, 64, 85, 126, 127, 128, 129, 159, 170, 191, 192, 224, 240, 254, 255];
            let f = |p: u32| {
                let c = RGB::new_from_packed(p);
                see(c, p)?;
                see(RGB::new_from_packed_f32(f32::from_bits(p)), p)?;
                see(RGB::from(f32::from_bits(p)), p)?;
                display(c, p)
            };
            if cx.flag("all top bytes") {
                let t = cx.choose("top", 256) as u32;
                cx.state(&(1, t));
                sweep(cx, B.iter().flat_map(move |r| B.iter().flat_map(move |g| B.iter().map(move |b| t << 24 | r << 16 | g << 8 | b))), f);
            } else {
                let t = *cx.pick("top", &[0u32, 1, 0x7f, 0x80, 0xff]);
                let r = cx.choose("red", 256) as u32;
                cx.state(&(0, t, r));
                let h = t << 24 | r << 16;
                sweep(cx, h..=(h | 0xffff), f);
            }
        }),
    ];
    if tier == Tier::Thorough {
        v.push(scenario("packed-all", "all 2^32 packed patterns", |cx| {
            let t = cx.choose("top", 256) as u32;
            let r = cx.choose("red", 256) as u32;
            cx.state(&(t, r));
            let h = t << 24 | r << 16;
            sweep(cx, h..=(h | 0xffff), |p| see(RGB::new_from_packed(p), p).and_then(|_| display(RGB::new_from_packed(p), p)));
        }));
    }
    v
}

fn set(c: &mut RGB, ch: usize, v: u8) {
    match ch {
        0 => c.set_r(v),
        1 => c.set_g(v),
        _ => c.set_b(v),
    }
}
fn set_model(p: u32, ch: usize, v: u8) -> u32 {
    let s = [16, 8, 0][ch];
    p & !(0xff << s) | (v as u32) << s
}

fn setting(tier: Tier) -> Vec<Scenario> {
    let depth = tier.pick(3, 4);
    vec![
        scenario("set-all", "every value set in every channel over 12 backgrounds (every top byte of interest), then set again", |cx| {
            let p = *cx.pick("pattern", &[0u32, 0xffff_ffff, 0x0012_3456, 0x7f80_0001, 0x7fc0_0000, 0xff80_0000, 0x8000_0000, 0x00ff_0000, 0x0000_ff00, 0x0000_00ff, 0xff00_0000, 0xa5a5_a5a5]);
            let ch = cx.choose("channel", 3);
            cx.state(&(p, ch));
            for v in 0..=255u8 {
                let r = cx.catch(|| {
                    let mut c = RGB::new_from_packed(p);
                    set(&mut c, ch, v);
                    let q = set_model(p, ch, v);
                    see(c, q).and_then(|_| display(c, q)).and_then(|_| {
                        set(&mut c, ch, !v);
                        see(c, set_model(p, ch, !v))
                    })
                });
                match r {
                    Ok(Ok(())) => {}
                    x => cx.fail("set", format!("channel {ch} of {p:#010x} set to {v}: {x:?}")),
                }
            }
        }),
        scenario("set-sequences", format!("every sequence of up to {depth} channel assignments with values 0, 1, 7f, 80, ff on 4 patterns, everything checked after each"), move |cx| {
            let mut p = *cx.pick("pattern", &[0u32, 0xffff_ffff, 0x0112_3456, 0x7fc0_0001]);
            let mut c = RGB::new_from_packed(p);
            for _ in 0..depth {
                let a = cx.choose("set", 16);
                if a == 0 {
                    break;
                }
                let (ch, v) = ((a - 1) % 3, [0u8, 1, 0x7f, 0x80, 0xff][(a - 1) / 3]);
                let q = set_model(p, ch, v);
                let r = cx.catch(|| {
                    set(&mut c, ch, v);
                    see(c, q).and_then(|_| display(c, q))
                });
                if !matches!(r, Ok(Ok(()))) {
                    cx.fail("set", format!("channel {ch} of {p:#010x} set to {v:#x}: {r:?}"))
                }
                p = q;
                cx.state(&p);
            }
        }),
    ]
}

fn equality() -> Vec<Scenario> {
    vec![
        scenario("equality", "all pairs of colours with channels 0, 1, 7f, 80, ff under top bytes 00, 7f, ff", |cx| {
            const V: [u32; 5] = [0, 1, 0x7f, 0x80, 0xff];
            let all: Vec<u32> = [0u32, 0x7f, 0xff]
                .iter()
                .flat_map(|t| V.iter().flat_map(move |r| V.iter().flat_map(move |g| V.iter().map(move |b| t << 24 | r << 16 | g << 8 | b))))
                .collect();
            let a = *cx.pick("colour", &all);
            cx.state(&a);
            sweep(cx, all.into_iter(), |b| {
                let (x, y) = (RGB::new_from_packed(a), RGB::new_from_packed(b));
                let want = a & 0xff_ffff == b & 0xff_ffff;
                if (x == y) != want || (x != y) == want {
                    return Err("equality");
                }
                Ok(())
            });
        }),
        scenario("equality-channel", "all 256 x 256 values of each channel, with equal and unequal top bytes", |cx| {
            let s = *cx.pick("channel", &[0u32, 8, 16]);
            let a = cx.choose("value", 256) as u32;
            let top = *cx.pick("top", &[0u32, 0xff00_0000]);
            cx.state(&(s, a, top));
            sweep(cx, 0..256, |b| {
                let (x, y) = (RGB::new_from_packed(0x33_5577 & !(0xff << s) | a << s), RGB::new_from_packed(top | 0x33_5577 & !(0xff << s) | b << s));
                if (x == y) != (a == b) {
                    return Err("equality");
                }
                Ok(())
            });
        }),
    ]
}

fn points() -> Vec<Scenario> {
    vec![scenario("points", "constructors and accessors of the four coloured points: every value of every channel on 3 backgrounds", |cx| {
        let t = cx.choose("type", 4);
        let bg = *cx.pick("background", &[0u32, 0xff_ffff, 0x12_3456]);
        let s = *cx.pick("channel", &[16u32, 8, 0]);
        let v = cx.choose("value", 256) as u32;
        let p = bg & !(0xff << s) | v << s;
        cx.state(&(t, p));
        let (r, g, b) = ((p >> 16) as u8, (p >> 8) as u8, p as u8);
        let res = cx.catch(|| match t {
            0 => {
                let q = PointXYZRGB::new(1.0, 2.0, 3.0, r, g, b);
                (q.x, q.y, q.z, q.rgb, q.r(), q.g(), q.b(), true)
            }
            1 => {
                let q = PointXYZRGBA::new(1.0, 2.0, 3.0, r, g, b, v as u8);
                (q.x, q.y, q.z, q.rgb, q.r(), q.g(), q.b(), q.a == v as u8)
            }
            2 => {
                let q = PointXYZRGBNormal::new(1.0, 2.0, 3.0, RGB::new(r, g, b), 4.0, 5.0, 6.0);
                (q.x, q.y, q.z, q.rgb, q.r(), q.g(), q.b(), (q.normal_x, q.normal_y, q.normal_z) == (4.0, 5.0, 6.0))
            }
            _ => {
                let q = PointXYZRGBL::new(1.0, 2.0, 3.0, r, g, b, v);
                (q.x, q.y, q.z, q.rgb, q.r(), q.g(), q.b(), q.label == v)
            }
        });
        match res {
            Ok((x, y, z, c, r2, g2, b2, rest)) => {
                if (x, y, z) != (1.0, 2.0, 3.0) || (r, g, b) != (r2, g2, b2) || !rest {
                    cx.fail("point", format!("type {t}, colour {p:#08x}: {x} {y} {z}, {r2} {g2} {b2}, rest {rest}"))
                }
                if let Err(e) = see(c, p) {
                    cx.fail("point", format!("type {t}, colour {p:#08x}: {e}"))
                }
            }
            Err(e) => cx.fail("panic", e),
        }
    })]
}

fn messages() -> Vec<Scenario> {
    fn go<const N: usize, P: Pt<N>>() -> Vec<Scenario> {
        vec![scenario(format!("messages-{}", P::LABEL), "two points with every pair of 40 packed patterns (all NaN classes, all top bytes of interest), every writer and reader; stored as FLOAT32 with the pattern's bytes", |cx| {
            let d = P::decl();
            let k = d.iter().position(|x| x.name == "rgb").expect("rgb");
            let mut pats: Vec<u32> = vec![0, 0x00ff_0000, 0xff00, 0xff, 0xff_ffff, 0x12_3456, 0x7f7f_ffff, 0x7f80_0000, 0x7f80_0001, 0x7fbf_ffff, 0x7fc0_0000, 0x7fff_ffff];
            pats.extend(pats.clone().iter().map(|p| p | 0x8000_0000));
            pats.extend((0..16).map(|i| 0x0101_0101u32.wrapping_mul(i * 17)));
            let (a, b) = (*cx.pick("first", &pats), *cx.pick("second", &pats));
            let w = *cx.pick("writer", &WRITERS);
            let r = *cx.pick("reader", &READERS);
            let mut bits = base_points::<N, P>(2);
            bits[0][k] = a as u64;
            bits[1][k] = b as u64;
            cx.state(&(a, b));
            let ps: Vec<P> = to_points(&bits);
            let m = match cx.catch(|| write::<N, P>(w, ps)) {
                Ok(Ok(m)) => m,
                x => cx.fail("write", format!("{x:?}")),
            };
            let mm = MMsg::of_msg(&m);
            let f = mm.fields.iter().find(|f| f.name == "rgb");
            match f {
                Some(f) if f.dt == 7 => {
                    for (i, p) in [a, b].iter().enumerate() {
                        let at = i * mm.step as usize + f.off as usize;
                        if mm.data.get(at..at + 4) != Some(&p.to_le_bytes()[..]) {
                            cx.fail("bytes", format!("colour {p:#010x} stored as {:x?}", mm.data.get(at..at + 4)))
                        }
                    }
                }
                f => cx.fail("field", format!("colour described as {f:?}")),
            }
            match cx.catch(|| read::<N, P>(r, m)) {
                Ok(Ok(v)) => {
                    let g = to_bits(&v);
                    if g != bits {
                        cx.fail("travel", diff(&g, &bits))
                    }
                }
                x => cx.fail("read", format!("{:?}", x.map(|r| r.map(|v| v.len())))),
            }
        })]
    }
    let mut v = vec![];
    v.extend(go::<4, PointXYZRGB>());
    v.extend(go::<5, PointXYZRGBA>());
    v.extend(go::<7, PointXYZRGBNormal>());
    v.extend(go::<5, PointXYZRGBL>());
    v
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = colours(tier);
    v.extend(setting(tier));
    v.extend(equality());
    v.extend(points());
    v.extend(messages());
    v
}
fn main() {
    run("C16", scenarios)
}
