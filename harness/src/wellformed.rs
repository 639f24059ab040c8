//! Well-formed messages in every arrangement (C02: little-endian, C03: big-endian).
use crate::*;
use ros_pointcloud2::points::PointXYZ;

const R4: [Reader; 4] = [Reader::Iter, Reader::Vec, Reader::Par, Reader::Pub];

fn must_read<const N: usize, P: Pt<N>>(cx: &mut Cx, m: &MMsg) {
    let want = match reference::<N, P>(m) {
        RefRead::Points(_, Some(v)) => v,
        other => panic!("harness: generated message is not well-formed: {other:?}"),
    };
    cx.note(|| format!("{}: {} -> {}", P::LABEL, m.brief(), show(&want)));
    for r in R4 {
        let msg = m.to_msg();
        match cx.catch(|| read::<N, P>(r, msg)) {
            Err(e) => cx.fail("panic", format!("{r:?} reader of {} panicked: {e}; {}", P::LABEL, m.brief())),
            Ok(Err(e)) => cx.fail("error", format!("{r:?} reader of {} failed: {e:?}; {}", P::LABEL, m.brief())),
            Ok(Ok(v)) => {
                let got = to_bits::<N, P>(&v);
                if got != want {
                    let d = diff(&got, &want);
                    cx.fail("value", format!("{r:?} reader of {}: {d}; {}", P::LABEL, m.brief()))
                }
            }
        }
    }
    cx.outcome(format!("{} points", want.len().min(4)));
}

/// The counterpart with the other byte order: same values in every field.
fn swapped(m: &MMsg) -> MMsg {
    let mut o = m.clone();
    o.big = !m.big;
    let n = m.width as usize * m.height as usize;
    let mut done = std::collections::HashSet::new();
    for f in &m.fields {
        for c in 0..f.count.max(1) as usize {
            let s = extent(f.dt);
            let off = f.off as usize + c * s;
            if !done.insert(off) {
                continue;
            }
            for i in 0..n {
                let at = i * m.step as usize + off;
                o.data[at..at + s].reverse();
            }
        }
    }
    o
}

fn examine<const N: usize, P: Pt<N>>(cx: &mut Cx, m: &MMsg, twin: bool) {
    cx.state(m);
    must_read::<N, P>(cx, m);
    if twin {
        // read the counterpart too and compare the two readings directly
        let o = swapped(m);
        for r in R4 {
            let (a, b) = (m.to_msg(), o.to_msg());
            let x = cx.catch(|| (read::<N, P>(r, a), read::<N, P>(r, b)));
            match x {
                Ok((Ok(x), Ok(y))) => {
                    let (x, y) = (to_bits::<N, P>(&x), to_bits::<N, P>(&y));
                    if x != y {
                        let d = diff(&x, &y);
                        cx.fail("twin", format!("{r:?} reader of {}: {d} (little-endian counterpart); {}", P::LABEL, m.brief()))
                    }
                }
                _ => cx.fail("twin-error", format!("{r:?} reader of {}: only one of the counterparts is read; {}", P::LABEL, m.brief())),
            }
        }
    }
}

fn orders<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let full = tier.pick(3, 5);
    vec![scenario(
        format!("orders-{}", P::LABEL),
        format!("memory orders x listing orders (all permutations up to {full} fields, else rotations/exchanges/reversal) x packed/aligned/odd gaps x tail, 2 points"),
        move |cx| {
            let mut s = slots_of::<N, P>();
            let gaps = *cx.pick("gaps", &[0usize, 1, 4]);
            for x in s.iter_mut() {
                x.gap = gaps;
            }
            let mem = order(cx, "memory order", N, full);
            let lst = order(cx, "listing order", N, full);
            let tail = *cx.pick("tail", &[0usize, 5]);
            let (f, step) = lay_out(&s, &mem, &lst, tail);
            let m = message(f, step, 2, 1, big);
            examine::<N, P>(cx, &m, big);
        },
    )]
}

/// many fields: rotations, reversal and exchanges at a distance, in memory and in the listing
fn long_orders<const N: usize, P: Pt<N>>(_: Tier, big: bool) -> Vec<Scenario> {
    vec![scenario(
        format!("orders-{}", P::LABEL),
        format!("{N} fields: rotations by powers of two, reversal, exchange of halves, strides - in memory x in the listing, with and without an odd gap"),
        move |cx| {
            let mut arrange = |l: &'static str| -> Vec<usize> {
                let mut v: Vec<usize> = (0..N).collect();
                match cx.choose(l, 8) {
                    0 => {}
                    1 => v.reverse(),
                    2 => v.rotate_left(1),
                    3 => v.rotate_right(1),
                    4 => v.rotate_left(N / 2),
                    5 => v.swap(0, N - 1),
                    6 => v.sort_by_key(|k| (k % 2, *k)),
                    _ => v.sort_by_key(|k| (k % 7, N - k)),
                }
                v
            };
            let mem = arrange("memory order");
            let lst = arrange("listing order");
            let gap = *cx.pick("gap", &[0usize, 1, 3]);
            let mut s = slots_of::<N, P>();
            for (k, x) in s.iter_mut().enumerate() {
                x.gap = if k % 3 == 1 { gap } else { 0 };
            }
            let (f, step) = lay_out(&s, &mem, &lst, gap);
            let m = message(f, step, 3, 1, big);
            examine::<N, P>(cx, &m, big);
        },
    )]
}

fn gaps<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    vec![scenario(
        format!("gaps-{}", P::LABEL),
        format!("up to {bound} gaps from {{1..4,7,8,12,16,31,255,256,1000,65535,65536}} before, between and behind the fields, starting from the packed or the in-memory arrangement"),
        move |cx| {
            const G: [usize; 14] = [0, 1, 2, 3, 4, 7, 8, 12, 16, 31, 255, 256, 1000, 65535];
            cx.dev_bound = bound;
            let native = cx.flag("as in memory");
            let mut s = slots_of::<N, P>();
            let mut end = 0;
            let d = P::decl();
            for k in 0..N {
                if native {
                    s[k].gap = d[k].off - end;
                    end = d[k].off + d[k].size();
                }
                s[k].gap += G[cx.dev("gap", G.len())];
            }
            let base_tail = if native { std::mem::size_of::<P>() - end } else { 0 };
            let tail = base_tail + G[cx.dev("tail", G.len())];
            let id: Vec<usize> = (0..N).collect();
            let (f, step) = lay_out(&s, &id, &id, tail);
            let m = message(f, step, 2, 1, big);
            examine::<N, P>(cx, &m, big);
        },
    )]
}

/// unrelated, similarly named fields anywhere in the listing and in the point
fn extras<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let bound = tier.pick(1, 2);
    vec![scenario(
        format!("extras-{}", P::LABEL),
        format!("one additional field at every listing and memory position, every datatype and unknown codes, element counts 0..4, 16, 255, near-miss names of every field with that field's datatype ({bound} deviations), packed or in-memory arrangement"),
        move |cx| {
            cx.dev_bound = bound;
            let d = P::decl();
            let mut names: Vec<(String, u8)> = vec![("extra".into(), F32)];
            for x in &d {
                names.extend(near_misses(x.name).into_iter().map(|n| (n, x.dt)));
            }
            names.retain(|n| d.iter().all(|x| x.name != n.0));
            let native = cx.flag("as in memory");
            let mut s = slots_of::<N, P>();
            if native {
                let mut end = 0;
                for k in 0..N {
                    s[k].gap = d[k].off - end;
                    end = d[k].off + d[k].size();
                }
            }
            let mem_at = cx.choose("memory position", N + 1);
            let list_at = cx.choose("listing position", N + 1);
            const KINDS: [(u8, u32); 19] = [
                // 0: like the field whose name it nearly has
                (0, 0), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (7, 1), (8, 1),
                (7, 0), (7, 2), (1, 3), (2, 4), (8, 16), (2, 255), (0, 1), (9, 1), (255, 1), (0, 0),
            ];
            let kind = cx.dev("datatype and count", KINDS.len());
            let (name, like) = names[cx.dev("name", names.len())].clone();
            let (dt, count) = if kind == 0 { (like, 1) } else { KINDS[kind] };
            let tail = *cx.pick("tail", &[0usize, 3]);
            s.push(Slot { name, dt, gap: 0, count });
            let mut mem: Vec<usize> = (0..N).collect();
            mem.insert(mem_at, N);
            let mut lst: Vec<usize> = (0..N).collect();
            lst.insert(list_at, N);
            let (f, step) = lay_out(&s, &mem, &lst, tail);
            let m = message(f, step, 2, 1, big);
            examine::<N, P>(cx, &m, big);
        },
    )]
}

/// two additional fields at once
fn extras2<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let dts: &'static [u8] = tier.pick(&[U8, F64], &[U8, I16, F32, F64]);
    vec![scenario(
        format!("extras2-{}", P::LABEL),
        "two additional fields, under one name or two, at every pair of listing positions and memory positions".to_string(),
        move |cx| {
            let mut s = slots_of::<N, P>();
            let mut mem: Vec<usize> = (0..N).collect();
            let mut lst: Vec<usize> = (0..N).collect();
            let same = cx.flag("one name");
            for e in 0..2 {
                let dt = *cx.pick("datatype", dts);
                let name = if same { "_".into() } else { format!("e{e}") };
                s.push(Slot { name, dt, gap: 0, count: 1 });
                let a = cx.choose("memory position", N + 1 + e);
                mem.insert(a, N + e);
                let b = cx.choose("listing position", N + 1 + e);
                lst.insert(b, N + e);
            }
            let (f, step) = lay_out(&s, &mem, &lst, 0);
            let m = message(f, step, 2, 1, big);
            examine::<N, P>(cx, &m, big);
        },
    )]
}

fn crowd<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let others: &'static [usize] = tier.pick(&[1, 4, 6, 16], OTHERS);
    vec![scenario(format!("crowd-{}", P::LABEL), CROWD, move |cx| {
        let m = crowded::<N, P>(cx, others, big);
        examine::<N, P>(cx, &m, big);
    })]
}

fn many<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let ks: &'static [usize] = tier.pick(
        &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257],
        &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 70000],
    );
    vec![scenario(
        format!("many-{}", P::LABEL),
        format!("{ks:?} additional fields before, behind or between the requested ones, in memory and in the listing"),
        move |cx| {
            let k = *cx.pick("extras", ks);
            let mut s = slots_of::<N, P>();
            for e in 0..k {
                s.push(Slot { name: format!("f{e}"), dt: [U8, F32, F64, I16][e % 4], gap: 0, count: 1 });
            }
            let arrange = |cx: &mut Cx, l: &'static str| -> Vec<usize> {
                let e = N..N + k;
                match cx.choose(l, 4) {
                    0 => e.chain(0..N).collect(),
                    1 => (0..N).chain(e).collect(),
                    2 => (0..1).chain(e).chain(1..N).collect(),
                    _ => {
                        let mut v: Vec<usize> = (N..N + k).collect();
                        for f in 0..N {
                            v.insert((f + 1) * k / (N + 1), f);
                        }
                        v
                    }
                }
            };
            let mem = arrange(cx, "memory");
            let lst = arrange(cx, "listing");
            let (f, step) = lay_out(&s, &mem, &lst, 0);
            let m = message(f, step, 2, 1, big);
            examine::<N, P>(cx, &m, big);
        },
    )]
}

fn shapes<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let top = tier.pick(5u32, 8);
    vec![scenario(
        format!("shapes-{}", P::LABEL),
        format!("every width and height up to {top} (and long rows/columns) x every arrangement x density x header"),
        move |cx| {
            let arr = cx.choose("arrangement", ARRANGEMENTS);
            let k = cx.choose("shape", ((top + 1) * (top + 1) + 8) as usize) as u32;
            let special = [(100, 1), (1, 100), (33, 3), (3, 33), (257, 1), (1, 257), (1000, 0), (0, 1000)];
            let (w, h) = if k < (top + 1) * (top + 1) {
                (k / (top + 1), k % (top + 1))
            } else {
                special[(k - (top + 1) * (top + 1)) as usize]
            };
            let (f, step) = base_arrangement::<N, P>(arr);
            let mut m = message(f, step, w, h, big);
            match cx.choose("metadata", 4) {
                0 => {}
                1 => m.dense = false,
                2 => {
                    m.seq = u32::MAX;
                    m.sec = -1;
                    m.nsec = u32::MAX;
                    m.frame = "x".repeat(300);
                }
                _ => {
                    m.frame = String::new();
                    m.dense = false;
                    m.sec = i32::MIN;
                }
            }
            examine::<N, P>(cx, &m, big);
        },
    )]
}

/// boundary values stored at odd places
fn values<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let bound = tier.pick(1, 2);
    vec![scenario(
        format!("values-{}", P::LABEL),
        format!("boundary bit patterns in up to {bound} fields of 2 points x every arrangement"),
        move |cx| {
            let arr = cx.choose("arrangement", ARRANGEMENTS);
            cx.dev_bound = bound;
            let (f, step) = base_arrangement::<N, P>(arr);
            let mut m = message(f, step, 2, 1, big);
            let d = P::decl();
            for i in 0..2 {
                for k in 0..N {
                    let a = alphabet(d[k].dt);
                    let c = cx.dev("value", a.len() + 1);
                    let v = if c == 0 { base_bits(i, k, d[k].dt) } else { a[c - 1] };
                    let at = i * step + m.fields[k].off as usize;
                    m.put(at, v, d[k].size());
                }
            }
            examine::<N, P>(cx, &m, big);
        },
    )]
}

/// blank, invalid and repeated points among ordinary ones, in dense and sparse clouds
fn palette<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let nmax = tier.pick(3, 4);
    vec![scenario(
        format!("palette-{}", P::LABEL),
        format!("0..={nmax} points, each ordinary, all zero, all ones, all NaN, all negative zero, or the one before again; packed, as in memory or with gaps; density flag"),
        move |cx| {
            let arr = *cx.pick("arrangement", &[0, 1, 4]);
            let n = cx.range("points", 0, nmax);
            let v = classes::<N, P>(cx, n);
            let mut m = message_of::<N, P>(&v, arr, big);
            m.dense = cx.flag("dense");
            examine::<N, P>(cx, &m, false);
        },
    )]
}

/// fields that share bytes (as rgb and rgba do in practice)
fn aliased<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let bound = tier.pick(2, 3);
    vec![scenario(
        format!("aliases-{}", P::LABEL),
        format!("fields that share bytes with others: up to {bound} fields moved onto every other offset"),
        move |cx| {
            cx.dev_bound = bound;
            let arr = cx.choose("arrangement", ARRANGEMENTS);
            let (mut f, step) = base_arrangement::<N, P>(arr);
            let orig: Vec<u32> = f.iter().map(|x| x.off).collect();
            for k in 0..N {
                let c = cx.dev("move", 2 * N + 1);
                if c > 0 {
                    let o = orig[(c - 1) / 2] + ((c - 1) % 2) as u32;
                    f[k].off = o.min((step - dt_size(f[k].dt)) as u32);
                }
            }
            let m = message(f, step, 2, 1, big);
            examine::<N, P>(cx, &m, false);
        },
    )]
}

/// clouds of more points than fit 16 bits, in one row, one column and in between
fn large<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    let shapes: &'static [(u32, u32)] = tier.pick(
        &[(70001, 1), (1, 70001), (300, 300), (65536, 1), (1, 65536), (2, 65537), (65537, 2), (32769, 3), (640, 480), (1024, 64)],
        &[(640, 480), (1024, 64), (16, 1800), (1920, 1080), (1 << 20, 1), (1, 1 << 20), (1025, 1023), ((1 << 22) + 3, 1), (3, (1 << 20) + 1), (1, (1 << 22) + 3)],
    );
    vec![scenario(format!("large-{}", P::LABEL), format!("{shapes:?} points in every arrangement"), move |cx| {
        let (w, h) = *cx.pick("shape", shapes);
        let arr = cx.choose("arrangement", ARRANGEMENTS);
        let (f, step) = base_arrangement::<N, P>(arr);
        let m = message(f, step, w, h, big);
        cx.state(&(w, h, arr));
        must_read::<N, P>(cx, &m);
    })]
}

/// buffers of more than 4 GiB (only the bytes of the fields are ever touched)
fn huge<const N: usize, P: Pt<N>>(tier: Tier, big: bool) -> Vec<Scenario> {
    // one execution at a time, in one worker: the readers copy the buffer. Without overflow checks,
    // where a truncated offset goes unnoticed.
    if cfg!(debug_assertions) {
        return vec![];
    }
    let shapes = tier.pick(2, SHAPES.len());

    const SHAPES: [(u32, u32, u32); 8] = [
        (1, 5, 1 << 30), (65537, 2, 40000), (3, 2, 1 << 30), (1, 3, (1 << 31) + 3), (1, 2, u32::MAX), (1, 6, (1 << 30) - 1), (65537, 2, 65535), (2, 9, 536_870_913),
    ];
    vec![scenario(format!("huge-{}", P::LABEL), format!("points 2^29 to 2^32-1 bytes apart, and 131074 points 40000 or 65535 bytes apart (width, height, point step: {:?}), the fields at the beginning or the end of the point", &SHAPES[..shapes]), move |cx| {
        cx.own();
        let k = cx.choose("shape", shapes);
        let (w, h, step) = SHAPES[k];
        let readers: &'static [Reader] = match tier {
            Tier::Quick => [&[Reader::Iter], &[Reader::Vec]][k],
            Tier::Thorough => &R4,
        };
        let id: Vec<usize> = (0..N).collect();
        let (mut f, packed) = lay_out(&slots_of::<N, P>(), &id, &id, 0);
        if tier == Tier::Quick || cx.flag("at the end") {
            for x in &mut f {
                x.off += step - packed as u32;
            }
        }
        cx.state(&(w, h, step));
        let n = w as usize * h as usize;
        let m = MMsg { fields: f, width: w, height: h, step, row: w * step, big, dense: true, ..MMsg::empty() };
        let d = P::decl();
        // the first, the last and those around the 2^32nd byte
        let some: Vec<usize> = (0..n).filter(|&i| n < 100 || i < 2 || i + 2 >= n || (i * step as usize).abs_diff(1 << 32) < 3 * step as usize).collect();
        let want: Vec<(usize, [u64; N])> = some.iter().map(|&i| (i, std::array::from_fn(|k| base_bits(i, k, d[k].dt)))).collect();
        for &r in readers {
            let mut msg = m.to_msg();
            msg.data = zeroed(n * step as usize);
            for (i, b) in &want {
                for k in 0..N {
                    let s = d[k].size();
                    let at = i * step as usize + m.fields[k].off as usize;
                    let v = b[k].to_le_bytes();
                    for j in 0..s {
                        msg.data[at + j] = if big { v[s - 1 - j] } else { v[j] };
                    }
                }
            }
            match cx.catch(|| read::<N, P>(r, msg)) {
                Err(e) => cx.fail("panic", format!("{r:?} reader of {} panicked: {e}; {}", P::LABEL, m.brief())),
                Ok(Err(e)) => cx.fail("error", format!("{r:?} reader of {} failed: {e:?}; {}", P::LABEL, m.brief())),
                Ok(Ok(v)) => {
                    cx.check(v.len() == n, "value", || format!("{r:?} reader of {}: {} of {n} points; {}", P::LABEL, v.len(), m.brief()));
                    for (i, b) in &want {
                        let g = v.get(*i).map(|p| p.bits());
                        if g != Some(*b) {
                            cx.fail("value", format!("{r:?} reader of {}: point {i} is {g:x?}, not {b:x?}; {}", P::LABEL, m.brief()))
                        }
                    }
                }
            }
        }
    })]
}
fn zeroed(n: usize) -> Vec<u8> {
    unsafe {
        let p = std::alloc::alloc_zeroed(std::alloc::Layout::array::<u8>(n).unwrap());
        assert!(!p.is_null(), "harness: no address space for {n} bytes");
        Vec::from_raw_parts(p, n, n)
    }
}

pub fn scenarios(tier: Tier, big: bool) -> Vec<Scenario> {
    let mut v = all_points!(orders, tier, big);
    v.extend(all_points!(gaps, tier, big));
    v.extend(all_points!(extras, tier, big));
    v.extend(all_points!(extras2, tier, big));
    v.extend(all_points!(many, tier, big));
    v.extend(all_points!(crowd, tier, big));
    v.extend(all_points!(shapes, tier, big));
    v.extend(all_points!(values, tier, big));
    v.extend(all_points!(aliased, tier, big));
    v.extend(all_points!(palette, tier, big));
    v.extend(big_points!(shapes, tier, big));
    v.extend(large::<3, PointXYZ>(tier, big));
    v.extend(large::<5, CMix>(tier, big));
    v.extend(huge::<5, CMix>(tier, big));
    v.extend(big_points!(values, tier, big));
    v.extend(big_points!(long_orders, tier, big));
    v
}
