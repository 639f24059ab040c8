//! C11: the predefined types' layouts match memory and the vector writer's message mirrors it.
use harness::*;
use ros_pointcloud2::PointCloud2Msg;

/// Compare the message with the struct as the compiler laid it out.
fn judge<const N: usize, P: Pt<N>>(cx: &mut Cx, ps: &[P], bits: &[[u64; N]], m: &PointCloud2Msg) {
    let m = MMsg::of_msg(m);
    let size = std::mem::size_of::<P>();
    let mut d = P::decl().to_vec();
    d.sort_by_key(|x| x.off);
    let what = |s: &str| format!("{}: {s}; {}", P::LABEL, m.brief());
    if m.step as usize != size {
        cx.fail("step", what(&format!("point step {}, size of the type {size}", m.step)))
    }
    if m.fields.len() != N {
        cx.fail("fields", what("number of fields"))
    }
    for (f, x) in m.fields.iter().zip(&d) {
        if f.name != x.name || f.off as usize != x.off || f.dt != x.dt || f.count != 1 {
            cx.fail("field", what(&format!("{f:?} for field {:?} of datatype {} at offset {}", x.name, x.dt, x.off)))
        }
    }
    // the buffer, mapped as an array of the type
    for (i, want) in bits.iter().enumerate() {
        let at = i * size;
        let Some(w) = m.data.get(at..at + size) else { cx.fail("length", what("buffer")) };
        let mapped: P = unsafe { std::ptr::read_unaligned(w.as_ptr().cast::<P>()) };
        if mapped.bits() != *want {
            cx.fail("mapped", what(&format!("point {i} mapped from the buffer is ({}), written was ({})", hex(&mapped.bits()), hex(want))))
        }
        // and byte for byte at the fields
        let mem = unsafe { std::slice::from_raw_parts((&raw const ps[i]).cast::<u8>(), size) };
        for x in &d {
            let r = x.off..x.off + x.size();
            if w[r.clone()] != mem[r] {
                cx.fail("bytes", what(&format!("point {i} field {:?}", x.name)))
            }
        }
    }
}

fn mirror<const N: usize, P: Pt<N>>(tier: Tier) -> Vec<Scenario> {
    let nmax = tier.pick(2, 3);
    let bound = tier.pick(2, 3);
    vec![
        scenario(
            format!("mirror-{}", P::LABEL),
            format!("clouds of 0..={nmax} points, up to {bound} values replaced by every boundary pattern, vector and parallel writer: fields against offset_of!, step against size_of, the buffer mapped as points"),
            move |cx| {
                cx.dev_bound = bound;
                let n = cx.range("points", 0, nmax);
                let par = cx.flag("parallel");
                let d = P::decl();
                let mut b = base_points::<N, P>(n);
                for p in b.iter_mut() {
                    for k in 0..N {
                        let al = alphabet(d[k].dt);
                        let c = cx.dev("value", al.len() + 1);
                        if c > 0 {
                            p[k] = al[c - 1];
                        }
                    }
                }
                cx.state(&b.iter().map(|p| p.to_vec()).collect::<Vec<_>>());
                cx.note(|| show(&b));
                let ps: Vec<P> = to_points(&b);
                let v = ps.clone();
                match cx.catch(|| write::<N, P>(if par { Writer::Par } else { Writer::Vec }, v)) {
                    Ok(Ok(m)) => judge::<N, P>(cx, &ps, &b, &m),
                    x => cx.fail("write", format!("{}: {x:?}", P::LABEL)),
                }
            },
        ),
        scenario(
            format!("map-in-{}", P::LABEL),
            "buffers of 0..=3 points with every byte position of the first and last point set to 12 values in turn, described as the type lies in memory: the vector reader gives the points that mapping the buffer gives",
            move |cx| {
                let n = cx.range("points", 0, 3);
                let size = std::mem::size_of::<P>();
                let (f, s) = base_arrangement::<N, P>(1);
                let mut m = message(f, s, n as u32, 1, false);
                if n > 0 {
                    let at = cx.choose("byte", size);
                    let v = *cx.pick("value", &[0u8, 1, 2, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xc0, 0xf0, 0xfe, 0xff]);
                    m.data[at] = v;
                    m.data[(n - 1) * size + at] = !v;
                }
                cx.state(&m);
                let want: Vec<[u64; N]> = (0..n)
                    .map(|i| {
                        let w = &m.data[i * size..(i + 1) * size];
                        unsafe { std::ptr::read_unaligned(w.as_ptr().cast::<P>()) }.bits()
                    })
                    .collect();
                let msg = m.to_msg();
                match cx.catch(|| read::<N, P>(Reader::Vec, msg)) {
                    Ok(Ok(v)) => {
                        let g = to_bits(&v);
                        if g != want {
                            cx.fail("map-in", format!("{}: {}", P::LABEL, diff(&g, &want)))
                        }
                    }
                    x => cx.fail("read", format!("{}: {:?}", P::LABEL, x.map(|r| r.map(|v| v.len())))),
                }
            },
        ),
    ]
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    all_points!(mirror, tier)
}
fn main() {
    run("C11", scenarios)
}
