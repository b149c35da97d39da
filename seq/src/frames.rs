//! Frame-level properties C07-C09, C11-C18.
use crate::common::*;
use crate::refm;

pub fn viol(c: &mut Ctx, what: &str, case: String, got: String, want: String) {
    c.violation(format!("{{\"what\":{},\"case\":{},\"got\":{},\"want\":{}}}", jesc(what), jesc(&case), jesc(&got), jesc(&want)));
}
pub fn sig(m: usize, s: &Score) -> u64 {
    h64(&[m as u64, s.v[0].to_bits(), s.v[1].to_bits(), s.v[2].to_bits(), s.v[3].to_bits()])
}
fn desc(a: &Pic, m: Metric, extra: &str) -> String {
    format!("{m:?} {}x{} cs{} {}bit {extra}", a.p[0].w, a.p[0].h, cs_name(a.cs), a.depth)
}

// ------------------------------------------------------------------ C07 (frame level)
pub fn c07(r: &Run) {
    let sizes: Vec<(usize, usize)> = vec![(32, 32), (33, 32), (32, 33), (40, 32), (32, 40), (48, 48), (34, 32), (39, 40), (288, 32), (32, 288)];
    let mut tasks = vec![];
    for &m in &FRAME_METRICS {
        for &s1 in &sizes {
            for &s2 in &sizes {
                for cs1 in ALL_CS {
                    for cs2 in ALL_CS {
                        tasks.push((m, s1, s2, cs1, cs2));
                    }
                }
            }
        }
    }
    r.par(&tasks, Some(1), |c, &(m, s1, s2, cs1, cs2)| {
        for (ty, depths) in [(8usize, [8usize, 10, 12]), (16, [8, 10, 12])] {
            for depth in depths {
                let a = Pat::Noise(1).pic(s1.0, s1.1, cs1, depth.min(if ty == 8 { 8 } else { 16 }));
                let b = Pat::LowNoise(2).pic(s2.0, s2.1, cs2, depth.min(if ty == 8 { 8 } else { 16 }));
                let same = (0..3).all(|i| a.p[i].w == b.p[i].w && a.p[i].h == b.p[i].h) && cs1 == cs2;
                let fits = (ty == 8) == (depth == 8);
                let out = if ty == 8 {
                    frame_metric::<u8>(m, &mk_frame(&a, [Layout::New; 3], &|_| 128), &mk_frame(&b, [Layout::New; 3], &|_| 128), depth, cs1)
                } else {
                    frame_metric::<u16>(m, &mk_frame(&a, [Layout::New; 3], &|_| 128), &mk_frame(&b, [Layout::New; 3], &|_| 128), depth, cs1)
                };
                // same dimensions but different declared subsampling of the planes: left unspecified
                let same_dims = (0..3).all(|i| a.p[i].w == b.p[i].w && a.p[i].h == b.p[i].h);
                if same_dims && !same {
                    continue;
                }
                c.count(h64(&[m as u64, s1.0 as u64, s1.1 as u64, s2.0 as u64, s2.1 as u64, cs1 as u64, cs2 as u64, ty as u64, depth as u64]));
                let want_ok = same && fits;
                let good = match &out {
                    Out::Ok(_) => want_ok,
                    Out::Err(_) => !want_ok,
                    Out::Panic(_) => false,
                };
                let case = || format!("frame {m:?} {s1:?}/{} vs {s2:?}/{} u{ty} declared depth {depth}", cs_name(cs1), cs_name(cs2));
                c.sample(|| format!("{{\"case\":{},\"outcome\":{}}}", jesc(&case()), jesc(&format!("{out:?}").chars().take(120).collect::<String>())));
                if !good {
                    viol(c, "frame acceptance", case(), format!("{out:?}"), if want_ok { "a score".into() } else { "an error".into() });
                }
            }
        }
    });
    // one plane only differs, every plane and every geometry change
    let mut t2 = vec![];
    for &m in &FRAME_METRICS {
        for plane in 0..3 {
            for (dw, dh) in [(1i32, 0i32), (0, 1), (-1, 0), (0, -1), (8, 0), (0, 8)] {
                for depth in [8, 10] {
                    t2.push((m, plane, dw, dh, depth));
                }
            }
        }
    }
    r.par(&t2, Some(1), |c, &(m, plane, dw, dh, depth)| {
        for cs in [Cs::Cs420, Cs::Cs422, Cs::Cs444] {
            let a = Pat::Noise(1).pic(48, 48, cs, depth);
            let mut b = a.clone();
            let (w, h) = (a.p[plane].w as i32 + dw, a.p[plane].h as i32 + dh);
            b.p[plane] = Img::new(w as usize, h as usize, |x, y| Pat::Noise(1).at(plane, x, y, depth));
            for (p, q) in [(&a, &b), (&b, &a)] {
                let out = pic_metric_lay(m, p, q, [Layout::New; 3], &|_| 128, &|_| 128);
                c.count(h64(&[77, m as u64, plane as u64, dw as u64, dh as u64, depth as u64, cs as u64]));
                if !matches!(out, Out::Err(_)) {
                    viol(c, "frame acceptance", format!("{m:?} {} plane {plane} differs by {dw},{dh}", cs_name(cs)), format!("{out:?}"), "an error".into());
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C08
fn lay_id(l: &[Layout; 3]) -> u64 {
    h64(&format!("{l:?}").bytes().map(|b| b as u64).collect::<Vec<_>>())
}
pub fn c08(r: &Run) {
    let mut tasks = vec![];
    let big: &[(usize, usize)] = if r.thorough { &[(32, 32), (33, 35), (40, 34), (47, 65), (64, 48), (66, 100), (130, 33), (32, 200), (300, 33), (40, 1100)] } else { &[(32, 32), (33, 35), (47, 66), (130, 33)] };
    let small: &[(usize, usize)] = &[(1, 1), (2, 3), (5, 4), (8, 8), (9, 7), (15, 17), (16, 16), (31, 2), (3, 64)];
    for cs in ALL_CS {
        for depth in [8, 10, 12] {
            for &s in big {
                for &m in &FRAME_METRICS {
                    tasks.push((m, s, cs, depth));
                }
            }
            for &s in small {
                for m in [Metric::Psnr, Metric::Ssim, Metric::Ciede, Metric::CiedeScalar] {
                    tasks.push((m, s, cs, depth));
                }
            }
        }
    }
    r.par(&tasks, Some(1), |c, &(m, s, cs, depth)| {
        let max = ((1u32 << depth) - 1) as u16;
        let fills: Vec<(&str, Box<dyn Fn(usize) -> u16>)> = vec![
            ("zero", Box::new(|_| 0)),
            ("max", Box::new(move |_| max)),
            ("noise", Box::new(move |i| (hash3(5, i, 0, 0) & max as u32) as u16)),
        ];
        for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::HGrad, Pat::VGrad), (Pat::LowNoise(1), Pat::LowNoise(1))] {
            let (a, b) = (pa.pic(s.0, s.1, cs, depth), pb.pic(s.0, s.1, cs, depth));
            let base = pic_metric_lay(m, &a, &b, [Layout::Tight; 3], &|_| 0, &|_| 0);
            let mut lays: Vec<[Layout; 3]> = LAYOUTS.iter().map(|&l| [l; 3]).collect();
            for l in [Layout::New, Layout::Pad(5, 2), Layout::Origin(3, 5, 2, 1)] {
                lays.push([l, Layout::Tight, Layout::Tight]);
                lays.push([Layout::Tight, l, Layout::Tight]);
                lays.push([Layout::Tight, Layout::Tight, l]);
            }
            for lay in lays {
                for (i, j) in [(0, 0), (0, 1), (1, 2)] {
                    let out = pic_metric_lay(m, &a, &b, lay, &fills[i].1, &fills[j].1);
                    let k = base.score().map(|s| sig(m as usize, &s)).unwrap_or(0);
                    c.count(h64(&[k, lay_id(&lay), i as u64 * 4 + j as u64]));
                    let ok = match (&base, &out) {
                        (Out::Ok(p), Out::Ok(q)) => p.vals().iter().zip(q.vals()).all(|(x, y)| ddb(*x, *y) <= 1e-9 || (x.is_nan() && y.is_nan())),
                        // sizes for which the tight frame itself has no score are C16's subject
                        (Out::Ok(_), _) => false,
                        _ => true,
                    };
                    let case = || desc(&a, m, &format!("{pa:?}/{pb:?} layout {lay:?} padding {}/{}", fills[i].0, fills[j].0));
                    c.sample(|| format!("{{\"case\":{},\"score\":{}}}", jesc(&case()), jesc(&format!("{out:?}"))));
                    if !ok {
                        viol(c, "layout or padding changes the score", case(), format!("{out:?}"), format!("{base:?}"));
                    }
                }
            }
            // frames in different layouts: either they are refused or the score is the same
            let few: Vec<[Layout; 3]> = [Layout::Tight, Layout::New, Layout::Pad(5, 2), Layout::Crop(3, 0), Layout::Crop(0, 2), Layout::Crop(7, 1), Layout::Origin(3, 5, 2, 1)].iter().map(|&l| [l; 3]).chain([[Layout::Tight, Layout::Tight, Layout::Crop(9, 1)], [Layout::Tight, Layout::Origin(2, 1, 1, 1), Layout::Tight]]).collect();
            for la in &few {
                for lb in &few {
                    if la == lb {
                        continue;
                    }
                    let out = pic_metric_lay2(m, (&a, *la), (&b, *lb), &fills[2].1, &fills[1].1);
                    c.count(h64(&[m as u64, lay_id(la), lay_id(lb), matches!(out, Out::Ok(_)) as u64]));
                    let ok = match (&base, &out) {
                        (Out::Ok(p), Out::Ok(q)) => p.vals().iter().zip(q.vals()).all(|(x, y)| ddb(*x, *y) <= 1e-9 || (x.is_nan() && y.is_nan())),
                        (_, _) => true,
                    };
                    if !ok {
                        viol(c, "different layouts of the two frames change the score", desc(&a, m, &format!("{pa:?}/{pb:?} layouts {la:?} and {lb:?}")), format!("{out:?}"), format!("{base:?}"));
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C09
fn check_psnr(c: &mut Ctx, a: &Pic, b: &Pic, extra: impl Fn() -> String) {
    let out = pic_metric(Metric::Psnr, a, b);
    let want = refm::psnr(a, b);
    let live = |i: usize| i == 3 || a.p[i].w > 0;
    let key = h64(&[want[0].to_bits(), want[1].to_bits(), want[2].to_bits(), want[3].to_bits(), a.p[0].w as u64, a.p[0].h as u64]);
    c.count(if want == [100.0; 4] { 0 } else { key });
    let ok = match &out {
        Out::Ok(s) => (0..4).all(|i| {
            let good = if want[i] == 100.0 && i < 3 && refm::sse(&a.p[i], &b.p[i]) == 0 { s.v[i] == 100.0 } else { ddb(s.v[i], want[i]) <= 1e-8 };
            !live(i) || (good && s.v[i] <= 100.0)
        }),
        _ => false,
    };
    c.sample(|| format!("{{\"case\":{},\"got\":{},\"want\":{}}}", jesc(&desc(a, Metric::Psnr, &extra())), jesc(&format!("{out:?}")), jesc(&format!("{want:?}"))));
    if !ok {
        viol(c, "PSNR differs from its definition", desc(a, Metric::Psnr, &extra()), format!("{out:?}"), format!("{want:?}"));
    }
}
pub fn c09(r: &Run) {
    // every pair of sample values
    let rows: Vec<(usize, u16)> = (0..256u16).map(|v| (8usize, v)).chain((0..if r.thorough { 4096u16 } else { 256 }).map(|v| (12usize, if r.thorough { v } else { v * 16 + 15 }))).chain((0..256u16).map(|v| (10usize, v * 4 + 3))).collect();
    r.par(&rows, Some(1), |c, &(depth, va)| {
        let n = 1u32 << depth;
        let step = if depth == 8 { 1 } else if r.thorough { 5 } else { 37 };
        let mut vb = 0u32;
        while vb < n {
            let a = Pic::new(1, 1, Cs::Cs444, depth, |p, _, _| [va, vb as u16, 7][p]);
            let b = Pic::new(1, 1, Cs::Cs444, depth, |p, _, _| [vb as u16, va, 7][p]);
            check_psnr(c, &a, &b, || format!("values {va},{vb}"));
            vb += step;
        }
    });
    // every small size, every format
    let lim = if r.thorough { 40 } else { 20 };
    let mut sizes = vec![];
    for w in 1..=lim {
        for h in 1..=lim {
            sizes.push((w, h));
        }
    }
    r.par(&sizes, Some(1), |c, &(w, h)| {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::Zero, Pat::Max), (Pat::LowNoise(3), Pat::LowNoise(4)), (Pat::Mid, Pat::Mid)] {
                    check_psnr(c, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), || format!("{pa:?}/{pb:?}"));
                }
            }
        }
    });
    // one differing sample: every position of every plane of every size up to the bound
    let lim = if r.thorough { 20 } else { 12 };
    let mut t = vec![];
    for w in 1..=lim {
        for h in 1..=lim {
            for cs in [Cs::Cs420, Cs::Cs422, Cs::Cs444] {
                t.push((w, h, cs));
            }
        }
    }
    r.par(&t, Some(1), |c, &(w, h, cs)| {
        for depth in [8, 12] {
            let a = Pat::Noise(1).pic(w, h, cs, depth);
            for p in 0..3 {
                for i in 0..a.p[p].d.len() {
                    for d in [1u16, a.max()] {
                        let mut b = a.clone();
                        b.p[p].d[i] = if d == 1 { a.p[p].d[i] ^ 1 } else { a.max() - a.p[p].d[i] };
                        check_psnr(c, &a, &b, || format!("plane {p} sample {i} differs by mode {d}"));
                    }
                }
            }
        }
    });
    // accumulators and the cap: large planes
    let mut t = vec![];
    for (w, h) in [(272, 260), (300, 300), (64, 64), (512, 128), (1024, 600)] {
        for depth in [8, 10, 12] {
            for cs in ALL_CS {
                t.push((w, h, depth, cs));
            }
        }
    }
    r.par(&t, Some(1), |c, &(w, h, depth, cs)| {
        check_psnr(c, &Pat::Zero.pic(w, h, cs, depth), &Pat::Max.pic(w, h, cs, depth), || "all samples at maximal distance".into());
        let a = Pat::Noise(9).pic(w, h, cs, depth);
        for p in 0..3 {
            for i in [0, a.p[p].d.len() / 2, a.p[p].d.len().wrapping_sub(1)] {
                if i < a.p[p].d.len() {
                    let mut b = a.clone();
                    b.p[p].d[i] ^= 1;
                    check_psnr(c, &a, &b, || format!("single lsb error plane {p} at {i}"));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C11, C12, C13: planar references
fn lin_of(m: Metric, db: f64) -> f64 {
    match m {
        Metric::Hvs => 10f64.powf(-db / 10.0),
        _ => 1.0 - 10f64.powf(-db / 10.0),
    }
}
fn ref_lin(m: Metric, a: &Img, b: &Img, p: usize, depth: usize) -> f64 {
    match m {
        Metric::Ssim => refm::ssim_lin(a, b, depth),
        Metric::Msssim => refm::msssim_lin(a, b, depth),
        Metric::Hvs => refm::hvs_lin(a, b, p, depth),
        _ => unreachable!(),
    }
}
/// compares one reported dB value with the reference linear score
fn lin_ok(m: Metric, db: f64, want: f64) -> (bool, f64) {
    if db.is_nan() {
        return (false, f64::INFINITY);
    }
    match m {
        Metric::Hvs => {
            let got = lin_of(m, db);
            let d = (got - want).abs() / want.max(1e-14);
            (if want == 0.0 { db > 100.0 } else { d <= 1e-7 || (got - want).abs() < 1e-15 }, d)
        }
        _ => {
            let got = lin_of(m, db);
            let d = (got - want).abs();
            (d <= 2e-9 + 1e-6 * (1.0 - want).abs(), d)
        }
    }
}
fn check_planar(c: &mut Ctx, m: Metric, a: &Pic, b: &Pic, planes: &[usize], extra: impl Fn() -> String) {
    let out = pic_metric(m, a, b);
    match &out {
        Out::Ok(s) => {
            for &p in planes {
                if a.p[p].w == 0 {
                    continue;
                }
                let want = ref_lin(m, &a.p[p], &b.p[p], p, a.depth);
                let (ok, d) = lin_ok(m, s.v[p], want);
                if ok {
                    c.dev(d);
                }
                c.count(if want == 1.0 || want == 0.0 { 0 } else { h64(&[m as u64, p as u64, want.to_bits(), a.p[p].w as u64, a.p[p].h as u64, a.depth as u64]) });
                c.sample(|| format!("{{\"case\":{},\"plane\":{p},\"got_db\":{:?},\"want_linear\":{want:?}}}", jesc(&desc(a, m, &extra())), s.v[p].to_string()));
                if !ok {
                    viol(c, "plane score differs from its definition", desc(a, m, &format!("plane {p} {}", extra())), format!("{} dB = linear {}", s.v[p], lin_of(m, s.v[p])), format!("linear {want}"));
                }
            }
        }
        o => viol(c, "no score", desc(a, m, &extra()), format!("{o:?}"), "a score".into()),
    }
}
const REF_PAIRS: [(Pat, Pat); 9] = [
    (Pat::Noise(1), Pat::Noise(2)),
    (Pat::LowNoise(2), Pat::LowNoise(3)),
    (Pat::HGrad, Pat::VGrad),
    (Pat::Noise(1), Pat::NoiseInv(1)),
    (Pat::Checker, Pat::CheckerInv),
    (Pat::VStripe3, Pat::HStripe2),
    (Pat::Zero, Pat::Max),
    (Pat::Mid, Pat::LowNoise(5)),
    (Pat::HGrad, Pat::HGrad),
];
fn impulses(c: &mut Ctx, m: Metric, w: usize, h: usize, cs: Cs, depth: usize, base: Pat, planes: &[usize]) {
    let a = base.pic(w, h, cs, depth);
    for &p in planes {
        for i in 0..a.p[p].d.len() {
            let mut b = a.clone();
            b.p[p].d[i] = a.max() - a.p[p].d[i];
            check_planar(c, m, &a, &b, &[p], || format!("{base:?}, plane {p} sample {i} inverted"));
        }
    }
}
/// planes whose sizes exceed whatever a narrow index or sum would hold
fn large(r: &Run, m: Metric) {
    let mut t = vec![];
    for s in if r.thorough { vec![(1920, 1080), (1030, 70), (70, 1030), (640, 480), (257, 256), (2100, 17), (17, 2100), (511, 515)] } else { vec![(1030, 70), (70, 1030), (640, 480), (257, 256), (2100, 17)] } {
        for (i, cs) in [Cs::Cs420, Cs::Cs444, Cs::Cs422, Cs::Cs400].into_iter().enumerate() {
            for depth in [8, 10, 12] {
                if r.thorough || i < 2 && depth != 10 {
                    t.push((s, cs, depth));
                }
            }
        }
    }
    r.par(&t, Some(1), |c, &((w, h), cs, depth)| {
        for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(1), Pat::LowNoise(2)), (Pat::HGrad, Pat::VGrad)] {
            check_planar(c, m, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), &[0, 1, 2], || format!("{pa:?}/{pb:?}"));
        }
        // nothing but the last sample differs
        let a = Pat::LowNoise(3).pic(w, h, cs, depth);
        for p in 0..3 {
            for k in [0, 1, 2] {
                let n = a.p[p].d.len();
                if n > 0 {
                    let mut b = a.clone();
                    let i = [n - 1, n / 2, a.p[p].w - 1][k];
                    b.p[p].d[i] = a.max() - b.p[p].d[i];
                    check_planar(c, m, &a, &b, &[p], || format!("plane {p} sample {i} inverted"));
                }
            }
        }
    });
}
/// how far the window reaches for planes of this height
fn extent(h: usize) -> usize {
    let s = h as f64 * 1.5 / 256.0;
    let e = (std::f64::consts::PI / 2.0).sqrt() * s / 256.0;
    (s * (-2.0 * e.ln()).sqrt()) as usize
}
pub fn c11(r: &Run) {
    large(r, Metric::Ssim);
    let mut t: Vec<(usize, usize, usize)> = vec![]; // w,h,kind
    let lim = if r.thorough { 28 } else { 16 };
    for w in 1..=lim {
        for h in 1..=lim {
            t.push((w, h, 0));
        }
    }
    // heights at which the window has an extent; and widths / heights that truncate it
    let hs: &[usize] = if r.thorough { &[40, 57, 58, 64, 65, 80, 100, 127, 128, 129, 160, 200, 256, 300, 400, 511, 512, 700, 1024] } else { &[57, 64, 65, 100, 128, 129, 200, 256, 512] };
    for &h in hs {
        for w in [1, 2, 3, 5, 8, 9, 16, 17] {
            t.push((w, h, 0));
        }
    }
    for (w, h) in [(64, 64), (100, 64), (33, 128), (128, 96), (65, 257)] {
        t.push((w, h, 0));
    }
    // every height at which the extent of the window changes, with widths around that extent
    let mut last = 0;
    for h in 1..if r.thorough { 2200 } else { 1300 } {
        let l = extent(h);
        if l != last {
            for w in [l, l + 1, l + 2, 2 * l + 1, 2 * l + 4] {
                t.push((w, h, 2));
                t.push((w, h - 1, 2));
            }
            last = l;
        }
    }
    let il = if r.thorough { 10 } else { 6 };
    for w in 1..=il {
        for h in 1..=il {
            t.push((w, h, 1));
        }
    }
    for (w, h) in if r.thorough { vec![(7, 64), (16, 65), (9, 128), (3, 200), (1, 130), (11, 256)] } else { vec![(4, 64), (5, 129)] } {
        t.push((w, h, 1));
    }
    t.sort_by_key(|x| std::cmp::Reverse(x.0 * x.1 * (1 + x.2 * x.0 * x.1)));
    r.par(&t, Some(1), |c, &(w, h, k)| {
        if k == 2 {
            for depth in [8, 12] {
                for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(3), Pat::LowNoise(4))] {
                    check_planar(c, Metric::Ssim, &pa.pic(w, h, Cs::Cs400, depth), &pb.pic(w, h, Cs::Cs400, depth), &[0], || format!("{pa:?}/{pb:?}"));
                }
            }
        } else if k == 0 {
            for (i, cs) in [Cs::Cs444, Cs::Cs420, Cs::Cs422, Cs::Cs400].into_iter().enumerate() {
                for depth in [8, 10, 12] {
                    if i > 0 && depth == 10 && !r.thorough {
                        continue;
                    }
                    for (pa, pb) in REF_PAIRS {
                        check_planar(c, Metric::Ssim, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), &[0, 1, 2], || format!("{pa:?}/{pb:?}"));
                    }
                }
            }
        } else {
            for depth in [8, 12] {
                impulses(c, Metric::Ssim, w, h, Cs::Cs444, depth, Pat::Noise(3), &[0, 1, 2]);
                impulses(c, Metric::Ssim, w, h, Cs::Cs444, depth, Pat::Mid, &[0]);
            }
        }
    });
}
pub fn c12(r: &Run) {
    large(r, Metric::Msssim);
    let mut t: Vec<(usize, usize, usize)> = vec![];
    if r.thorough {
        for w in 16..=48 {
            for h in 16..=48 {
                t.push((w, h, 0));
            }
        }
    } else {
        for w in 16..=33 {
            for h in 16..=33 {
                if w >= 32 || h >= 32 || w < 19 || h < 19 || (w + h) % 3 == 0 {
                    t.push((w, h, 0));
                }
            }
        }
    }
    for s in [(64, 16), (16, 64), (80, 80), (95, 33), (33, 95), (100, 63)] {
        t.push((s.0, s.1, 0));
    }
    for s in if r.thorough { vec![(16, 16), (17, 16), (16, 17), (17, 17), (18, 23), (31, 16), (32, 33)] } else { vec![(16, 16), (17, 19)] } {
        t.push((s.0, s.1, 1));
    }
    t.sort_by_key(|x| std::cmp::Reverse(x.0 * x.1 * (1 + x.2 * x.0 * x.1)));
    r.par(&t, Some(1), |c, &(w, h, k)| {
        if k == 0 {
            for depth in [8, 10, 12] {
                for (pa, pb) in REF_PAIRS {
                    check_planar(c, Metric::Msssim, &pa.pic(w, h, Cs::Cs444, depth), &pb.pic(w, h, Cs::Cs444, depth), if depth == 10 { &[0, 1, 2] } else { &[0] }, || format!("{pa:?}/{pb:?}"));
                }
                // chroma of a subsampled picture of 2w x 2h (planes w x h)
                let (pa, pb) = (Pat::LowNoise(2), Pat::LowNoise(3));
                check_planar(c, Metric::Msssim, &pa.pic(2 * w - 1, 2 * h, Cs::Cs420, depth), &pb.pic(2 * w - 1, 2 * h, Cs::Cs420, depth), &[1, 2], || format!("{pa:?}/{pb:?}"));
                check_planar(c, Metric::Msssim, &pa.pic(2 * w, h, Cs::Cs422, depth), &pb.pic(2 * w, h, Cs::Cs422, depth), &[1, 2], || format!("{pa:?}/{pb:?}"));
                check_planar(c, Metric::Msssim, &pa.pic(w, h, Cs::Cs400, depth), &pb.pic(w, h, Cs::Cs400, depth), &[0], || format!("{pa:?}/{pb:?}"));
            }
        } else {
            impulses(c, Metric::Msssim, w, h, Cs::Cs444, 8, Pat::LowNoise(3), &[0]);
            impulses(c, Metric::Msssim, w, h, Cs::Cs444, 12, Pat::HGrad, &[2]);
        }
    });
}
pub fn c13(r: &Run) {
    large(r, Metric::Hvs);
    // the reference transform itself agrees with the textbook DCT
    let mut worst = 0.0f64;
    for s in 0..64 {
        let b: [i64; 64] = std::array::from_fn(|i| (hash3(s, i, 3, 1) & 4095) as i64);
        let (d, f) = (refm::dct2(&b), refm::dct2_float(&b));
        for i in 0..64 {
            worst = worst.max((d[i] as f64 - f[i]).abs());
        }
    }
    assert!(worst < 60.0, "reference DCT off by {worst}");
    r.sh.inner.lock().unwrap().notes.push(format!("reference integer DCT within {worst:.2} of the textbook DCT-II on 64 12-bit blocks"));
    let lim = if r.thorough { 40 } else { 26 };
    let mut t = vec![];
    for w in 8..=lim {
        for h in 8..=lim {
            t.push((w, h, 0));
        }
    }
    for s in [(64, 8), (8, 64), (71, 71), (72, 57), (100, 30), (128, 128)] {
        t.push((s.0, s.1, 0));
    }
    for s in if r.thorough { vec![(8, 8), (9, 8), (8, 9), (14, 15), (15, 15), (16, 16), (17, 22), (22, 23)] } else { vec![(8, 8), (9, 10), (15, 15), (16, 17)] } {
        t.push((s.0, s.1, 1));
    }
    t.sort_by_key(|x| std::cmp::Reverse(x.0 * x.1 * (1 + x.2 * x.0 * x.1)));
    r.par(&t, Some(1), |c, &(w, h, k)| {
        if k == 0 {
            for depth in [8, 10, 12] {
                for (pa, pb) in REF_PAIRS {
                    check_planar(c, Metric::Hvs, &pa.pic(w, h, Cs::Cs444, depth), &pb.pic(w, h, Cs::Cs444, depth), &[0, 1, 2], || format!("{pa:?}/{pb:?}"));
                }
                for (cs, ww, hh) in [(Cs::Cs420, 2 * w - 1, 2 * h), (Cs::Cs422, 2 * w, h), (Cs::Cs400, w, h)] {
                    let (pa, pb) = (Pat::LowNoise(2), Pat::Noise(3));
                    check_planar(c, Metric::Hvs, &pa.pic(ww, hh, cs, depth), &pb.pic(ww, hh, cs, depth), &[0, 1, 2], || format!("{pa:?}/{pb:?}"));
                }
            }
        } else {
            for depth in [8, 12] {
                impulses(c, Metric::Hvs, w, h, Cs::Cs444, depth, Pat::Mid, &[0, 1, 2]);
                impulses(c, Metric::Hvs, w, h, Cs::Cs444, depth, Pat::HGrad, &[0, 1, 2]);
            }
        }
    });
    // every DCT basis function, alone and against every other one, in every plane
    let t: Vec<usize> = (0..64).collect();
    r.par(&t, Some(1), |c, &f| {
        use std::f64::consts::PI;
        let basis = |f: usize, amp: f64, depth: usize| {
            let mid = (1 << (depth - 1)) as f64;
            Pic::new(8, 8, Cs::Cs444, depth, |_, x, y| {
                let v = ((2 * y + 1) as f64 * (f / 8) as f64 * PI / 16.0).cos() * ((2 * x + 1) as f64 * (f % 8) as f64 * PI / 16.0).cos();
                (mid + amp * mid * v).round().clamp(0.0, (1 << depth) as f64 - 1.0) as u16
            })
        };
        for depth in [8, 10, 12] {
            for g in 0..64 {
                for (p, q) in [(0.9, 0.1), (0.5, 0.45)] {
                    check_planar(c, Metric::Hvs, &basis(f, p, depth), &basis(g, q, depth), &[0, 1, 2], || format!("basis {f} x{p} / basis {g} x{q}"));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C14
const DE_REL: f64 = 2e-3;
const DE_ABS: f64 = 4e-3;
fn mean_of(db: f64) -> f64 {
    10f64.powf((45.0 - db) / 20.0)
}
pub const CHROMA_KEY: &str = "ciede-chroma-scale";
/// Deviation of a score from a mean colour difference, in units of the tolerance.
fn ciede_dev(out: &Out, want: f64) -> f64 {
    match out {
        Out::Ok(s) if s.v[3] == 100.0 => if want <= 0.0017783 + DE_ABS { 0.0 } else { f64::INFINITY },
        Out::Ok(s) if s.v[3] < 100.0 => (mean_of(s.v[3]) - want).abs() / (DE_ABS + DE_REL * want),
        _ => f64::INFINITY,
    }
}
fn check_ciede(c: &mut Ctx, m: Metric, a: &Pic, b: &Pic, extra: impl Fn() -> String) {
    let out = pic_metric(m, a, b);
    let known = refm::ciede_mean(a, b, refm::UNSCALED);
    c.count(if known == 0.0 { 0 } else { h64(&[m as u64, known.to_bits(), a.p[0].w as u64, a.p[0].h as u64, a.cs as u64]) });
    let d = ciede_dev(&out, known);
    c.sample(|| format!("{{\"case\":{},\"got\":{},\"want_mean_delta_e\":{known}}}", jesc(&desc(a, m, &extra())), jesc(&format!("{out:?}"))));
    if d <= 1.0 {
        c.dev(d);
        if !c.is_known(CHROMA_KEY) {
            let want = refm::ciede_mean(a, b, refm::BT709);
            if ciede_dev(&out, want) > 1.0 {
                c.known(CHROMA_KEY, || {
                    format!("CIEDE2000 uses Cb and Cr as U and V without scaling them (x0.872, x1.23) for its BT.709 matrix: {} {:.4} instead of {:.4}", desc(a, m, &extra()), out.score().map_or(0.0, |s| s.v[3]), refm::ciede_db(want))
                });
            }
        }
        return;
    }
    let want = refm::ciede_mean(a, b, refm::BT709);
    if ciede_dev(&out, want) > 1.0 {
        let g = out.score().map(|s| mean_of(s.v[3]));
        viol(c, "CIEDE2000 differs from its definition", desc(a, m, &extra()), format!("{out:?} (mean colour difference {g:?})"), format!("mean colour difference {want} = {} dB ({known} = {} dB with the recorded finding)", refm::ciede_db(want), refm::ciede_db(known)));
    }
}
pub fn c14(r: &Run) {
    // colour pairs: a grid of representable colours against partners near and far; one colour pair per frame
    let grid: Vec<u16> = if r.thorough { (0..=255).step_by(15).collect() } else { vec![0, 16, 40, 80, 100, 128, 129, 150, 180, 200, 235, 255] };
    let g = grid.len();
    let cols: Vec<[u16; 3]> = (0..g * g * g).map(|i| [grid[i / g / g], grid[i / g % g], grid[i % g]]).collect();
    let tasks: Vec<usize> = (0..cols.len()).collect();
    r.par(&tasks, Some(1), |c, &i| {
        let a = cols[i];
        let mut partners: Vec<[u16; 3]> = vec![];
        let n = cols.len();
        let k = if r.thorough { 40 } else { 16 };
        for s in 0..k {
            partners.push(cols[(i * 7 + s * n / k + s * s) % n]);
        }
        for d in 0..3 {
            for e in [1i32, -1, 4, -4, 9] {
                let mut b = a;
                b[d] = (a[d] as i32 + e).clamp(0, 255) as u16;
                partners.push(b);
            }
        }
        for b in partners {
            for depth in [8usize, 10, 12] {
                let sc = |v: u16| -> u16 { ((v as u32) << (depth - 8)) as u16 + if v == 255 { (1 << (depth - 8)) - 1 } else { 0 } };
                if depth != 8 && i % 3 != depth % 3 && !r.thorough {
                    continue;
                }
                // the scalar path (4:4:4), and 8 pixels wide 4:2:0, the vector path
                let pa = Pic::new(1, 1, Cs::Cs444, depth, |p, _, _| sc(a[p]));
                let pb = Pic::new(1, 1, Cs::Cs444, depth, |p, _, _| sc(b[p]));
                check_ciede(c, Metric::Ciede, &pa, &pb, || format!("colour {a:?} vs {b:?}"));
                let pa = Pic::new(8, 1, Cs::Cs420, depth, |p, _, _| sc(a[p]));
                let pb = Pic::new(8, 1, Cs::Cs420, depth, |p, _, _| sc(b[p]));
                check_ciede(c, Metric::Ciede, &pa, &pb, || format!("colour {a:?} vs {b:?}"));
            }
        }
    });
    // every gray level against its neighbours
    let t: Vec<(usize, u16)> = [8usize, 10, 12].iter().flat_map(|&d| (0..1u32 << d).map(move |v| (d, v as u16))).collect();
    r.par(&t, Some(1), |c, &(depth, v)| {
        let max = (1u16 << depth) - 1;
        for e in [1i32, 3, 17, 301] {
            let w = (v as i32 + e).min(max as i32) as u16;
            for (p, q) in [(v, w), (w, v)] {
                let n = 1 << (depth - 1);
                check_ciede(c, Metric::Ciede, &Pic::new(2, 1, Cs::Cs444, depth, |pl, _, _| if pl == 0 { p } else { n }), &Pic::new(2, 1, Cs::Cs444, depth, |pl, _, _| if pl == 0 { q } else { n }), || format!("gray {p}/{q}"));
            }
            if depth == 8 {
                // all chroma levels
                for pl in 1..3 {
                    check_ciede(c, Metric::Ciede, &Pic::new(8, 1, Cs::Cs420, 8, |p, _, _| if p == pl { v } else { 120 }), &Pic::new(8, 1, Cs::Cs420, 8, |p, _, _| if p == pl { w } else { 121 }), || format!("chroma plane {pl} {v}/{w}"));
                }
            }
        }
    });
    // large planes
    let mut t = vec![];
    for s in if r.thorough { vec![(1920, 1080), (1030, 70), (70, 1030), (640, 480), (257, 256), (4099, 3)] } else { vec![(1030, 70), (70, 1030), (257, 256), (4099, 3)] } {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                for m in [Metric::Ciede, Metric::CiedeScalar] {
                    t.push((s, cs, depth, m));
                }
            }
        }
    }
    r.par(&t, Some(1), |c, &((w, h), cs, depth, m)| {
        for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(1), Pat::LowNoise(2)), (Pat::HGrad, Pat::VGrad)] {
            check_ciede(c, m, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), || format!("{pa:?}/{pb:?}"));
        }
    });
    // positions: sizes, formats and single-pixel differences
    let mut t = vec![];
    let lim = if r.thorough { 26 } else { 19 };
    for w in 1..=lim {
        for h in 1..=if r.thorough { 9 } else { 4 } {
            for cs in ALL_CS {
                for m in [Metric::Ciede, Metric::CiedeScalar] {
                    t.push((w, h, cs, m));
                }
            }
        }
    }
    r.par(&t, Some(1), |c, &(w, h, cs, m)| {
        for depth in [8, 10, 12] {
            for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(1), Pat::LowNoise(2)), (Pat::Zero, Pat::Max), (Pat::Noise(1), Pat::Noise(1))] {
                check_ciede(c, m, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), || format!("{pa:?}/{pb:?}"));
            }
            if depth == 10 && !r.thorough {
                continue;
            }
            let a = Pat::Mid.pic(w, h, cs, depth);
            for p in 0..3 {
                for i in 0..a.p[p].d.len() {
                    let mut b = a.clone();
                    b.p[p].d[i] = a.max();
                    check_ciede(c, m, &a, &b, || format!("plane {p} sample {i} at maximum"));
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C15
pub fn c15(r: &Run) {
    let mut t = vec![];
    for w in 1..=if r.thorough { 50 } else { 34 } {
        for h in [1, 2, 3] {
            for cs in ALL_CS {
                for depth in [8, 10, 12] {
                    t.push((w, h, cs, depth));
                }
            }
        }
    }
    let cmp = |c: &mut Ctx, a: &Pic, b: &Pic, extra: &dyn Fn() -> String| {
        let (s, v) = (pic_metric(Metric::CiedeScalar, a, b), pic_metric(Metric::Ciede, a, b));
        let ok = match (&s, &v) {
            (Out::Ok(x), Out::Ok(y)) => {
                let (p, q) = (mean_of(x.v[3]), mean_of(y.v[3]));
                let d = (p - q).abs();
                c.dev(d / (1e-3 + 1e-4 * p));
                d <= 1e-3 + 1e-4 * p
            }
            (Out::Err(_), Out::Err(_)) => true,
            _ => false,
        };
        c.count(s.score().map(|s| h64(&[s.v[3].to_bits(), a.p[0].w as u64, a.p[0].h as u64, a.cs as u64, a.depth as u64])).unwrap_or(0));
        c.sample(|| format!("{{\"case\":{},\"scalar\":{},\"simd\":{}}}", jesc(&desc(a, Metric::Ciede, &extra())), jesc(&format!("{s:?}")), jesc(&format!("{v:?}"))));
        if !ok {
            viol(c, "vector and scalar CIEDE2000 disagree", desc(a, Metric::Ciede, &extra()), format!("simd {v:?}"), format!("scalar {s:?}"));
        }
    };
    r.par(&t, Some(1), |c, &(w, h, cs, depth)| {
        for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(1), Pat::LowNoise(2)), (Pat::Zero, Pat::Max), (Pat::HGrad, Pat::VGrad), (Pat::Max, Pat::Noise(4))] {
            cmp(c, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), &|| format!("{pa:?}/{pb:?}"));
        }
        // a single differing sample in every position of every plane
        for base in [Pat::Mid, Pat::Noise(5)] {
            let a = base.pic(w, h, cs, depth);
            for p in 0..3 {
                for i in 0..a.p[p].d.len() {
                    let mut b = a.clone();
                    b.p[p].d[i] = a.max() - a.p[p].d[i];
                    cmp(c, &a, &b, &|| format!("{base:?}, plane {p} sample {i} inverted"));
                }
            }
        }
    });
    // long rows, tall planes
    let mut t = vec![];
    for (w, h) in [(63, 5), (64, 5), (65, 5), (100, 9), (127, 2), (128, 3), (129, 4), (255, 2), (256, 2), (257, 3), (1023, 2), (1029, 2), (4099, 2), (3, 1029), (9, 300), (260, 70)] {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                t.push((w, h, cs, depth));
            }
        }
    }
    r.par(&t, Some(1), |c, &(w, h, cs, depth)| {
        for (pa, pb) in [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(1), Pat::LowNoise(2)), (Pat::HGrad, Pat::VGrad)] {
            cmp(c, &pa.pic(w, h, cs, depth), &pb.pic(w, h, cs, depth), &|| format!("{pa:?}/{pb:?}"));
        }
    });
    // every value of each component in a single lane, in a vector row
    let t: Vec<(usize, usize)> = [8usize, 10, 12].iter().flat_map(|&d| (0..1usize << d).map(move |v| (d, v))).collect();
    r.par(&t, Some(1), |c, &(depth, v)| {
        for p in 0..3 {
            for (cs, base) in [(Cs::Cs420, 100u16), (Cs::Cs422, 200)] {
                let k = (base as usize) << (depth - 8);
                let a = Pic::new(8, 1, cs, depth, |pl, _, _| if pl == p { v as u16 } else { k as u16 });
                let b = Pic::new(8, 1, cs, depth, |_, x, _| (k + x) as u16);
                cmp(c, &a, &b, &|| format!("plane {p} value {v}"));
            }
        }
    });
    // colour grid, eight distinct colours in the eight lanes
    let n = if r.thorough { 120_000 } else { 24_000 };
    let t: Vec<usize> = (0..n / 500).collect();
    r.par(&t, Some(1), |c, &i| {
        for j in 0..500 {
            let k = i * 500 + j;
            let depth = [8, 10, 12][k % 3];
            let max = (1u32 << depth) - 1;
            // a low-discrepancy walk through colour space (deterministic, no sampling of schedules or inputs beyond it)
            let f = |k: usize, p: usize, l: usize| ((k as u64 * [2654435761u64, 2246822519, 3266489917][p] + l as u64 * 0x9E3779B1) % (1 << 32) * (max as u64 + 1) >> 32) as u16;
            let a = Pic::new(8, 1, Cs::Cs422, depth, |p, x, _| f(k, p, x));
            let b = Pic::new(8, 1, Cs::Cs422, depth, |p, x, _| f(k + 31337, p, 7 - x));
            cmp(c, &a, &b, &|| format!("colour walk {k}"));
        }
    });
}

// ------------------------------------------------------------------ C16, C17
pub fn size_list(thorough: bool) -> Vec<(usize, usize)> {
    if thorough {
        let mut v = vec![];
        for w in 16..=40 {
            for h in 16..=40 {
                v.push((w, h));
            }
        }
        v.extend([(64, 64), (31, 128), (200, 33), (100, 257), (520, 300)]);
        v
    } else {
        vec![(16, 16), (17, 16), (16, 17), (19, 23), (24, 31), (31, 31), (32, 32), (33, 47), (64, 64), (20, 130), (260, 129)]
    }
}
/// luma size such that every plane is at least (w,h)
pub fn grow(cs: Cs, w: usize, h: usize) -> (usize, usize) {
    match cs {
        Cs::Cs420 => (2 * w - 1, 2 * h - 1),
        Cs::Cs422 => (2 * w - 1, h),
        _ => (w, h),
    }
}
pub fn c16(r: &Run) {
    let mut t = vec![];
    for s in size_list(r.thorough) {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                t.push((grow(cs, s.0, s.1), cs, depth));
            }
        }
    }
    t.sort_by_key(|x| std::cmp::Reverse(x.0 .0 * x.0 .1));
    let npats = PATS.len();
    r.par(&t, Some(1), |c, &(s, cs, depth)| {
        let pics: Vec<Pic> = PATS.iter().map(|p| p.pic(s.0, s.1, cs, depth)).collect();
        let mut go = |i: usize, j: usize, a: &Pic, b: &Pic| {
            for m in FRAME_METRICS {
                let out = pic_metric(m, a, b);
                let same = a == b;
                c.count(out.score().map(|s| sig(m as usize, &s)).unwrap_or(1));
                let bad = match &out {
                    Out::Ok(sc) => {
                        let mut bad = None;
                        for (k, &v) in sc.v.iter().enumerate() {
                            if !sc.planar && k < 3 {
                                continue;
                            }
                            if k < 3 && a.p[k].w == 0 {
                                // monochrome: the absent chroma planes only have to be well defined
                                if v.is_nan() {
                                    bad = Some(format!("NaN in value {k}"));
                                }
                                continue;
                            }
                            let eq = if k == 3 { same } else { a.p[k] == b.p[k] };
                            let capped = matches!(m, Metric::Psnr | Metric::Ciede | Metric::CiedeScalar);
                            if v.is_nan() {
                                bad = Some(format!("NaN in value {k}"));
                            } else if eq && capped && v != 100.0 {
                                bad = Some(format!("identical planes score {v} in value {k}"));
                            } else if eq && !capped && !(v > 100.0) {
                                bad = Some(format!("identical planes score {v} in value {k}"));
                            } else if capped && v > 100.0 {
                                bad = Some(format!("{v} above the cap in value {k}"));
                            }
                        }
                        bad
                    }
                    o => Some(format!("{o:?}")),
                };
                c.sample(|| format!("{{\"case\":{},\"outcome\":{}}}", jesc(&desc(a, m, &format!("{:?}/{:?}", PATS.get(i), PATS.get(j)))), jesc(&format!("{out:?}"))));
                if let Some(w) = bad {
                    viol(c, &w, desc(a, m, &format!("{:?}/{:?}", PATS.get(i), PATS.get(j))), format!("{out:?}"), "well defined, identity best".into());
                }
            }
        };
        for i in 0..npats {
            for j in 0..npats {
                if i != j && s.0 * s.1 > 2500 && (i + j) % 3 != 0 {
                    continue;
                }
                go(i, j, &pics[i], &pics[j]);
            }
        }
        // extreme single-sample differences (least different pairs)
        for p in 0..3 {
            if pics[0].p[p].w == 0 {
                continue;
            }
            let mut b = pics[0].clone();
            let n = b.p[p].d.len();
            b.p[p].d[n - 1] ^= 1;
            go(0, 99, &pics[0], &b);
        }
    });
    // identity for very many textures: rounding must never turn "identical" into anything else
    let n = if r.thorough { 40_000u32 } else { 4_000 };
    let t: Vec<u32> = (0..n / 50).collect();
    r.par(&t, Some(1), |c, &i| {
        for s in i * 50..i * 50 + 50 {
            let depth = [8, 10, 12][s as usize % 3];
            let w = 16 + (s as usize * 7) % 9;
            let h = 16 + (s as usize * 5) % 11;
            let p = if s % 2 == 0 { Pat::Noise(s) } else { Pat::LowNoise(s) }.pic(w, h, Cs::Cs444, depth);
            for m in FRAME_METRICS {
                let out = pic_metric(m, &p, &p);
                c.count(h64(&[99, m as u64, s as u64]));
                let ok = match &out {
                    Out::Ok(sc) => sc.vals().iter().all(|&v| if matches!(m, Metric::Psnr | Metric::Ciede | Metric::CiedeScalar) { v == 100.0 } else { v > 100.0 }),
                    _ => false,
                };
                if !ok {
                    viol(c, "identical frames do not get the best score", desc(&p, m, &format!("texture {s}")), format!("{out:?}"), "best score".into());
                }
            }
        }
    });
    // colour identity for CIEDE: every 8-bit colour on a grid
    let t: Vec<u16> = (0..256).collect();
    r.par(&t, Some(1), |c, &y| {
        let st = if r.thorough { 5 } else { 15 };
        for u in (0..256u16).step_by(st) {
            for cs in [Cs::Cs444, Cs::Cs420] {
                let p = Pic::new(18, 2, cs, 8, |pl, x, _| match pl { 0 => y, 1 => u, _ => ((x * st) % 256) as u16 });
                for m in [Metric::Ciede, Metric::CiedeScalar] {
                    let out = pic_metric(m, &p, &p);
                    c.count(h64(&[98, m as u64, y as u64, u as u64, cs as u64]));
                    if out != Out::Ok(single(100.0)) && !matches!(&out, Out::Ok(s) if s.v[3] == 100.0) {
                        viol(c, "identical colours do not get the best score", desc(&p, m, &format!("y {y} u {u}")), format!("{out:?}"), "100".into());
                    }
                }
            }
        }
    });
}
pub fn c17(r: &Run) {
    let mut t = vec![];
    for s in size_list(r.thorough) {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                t.push((grow(cs, s.0, s.1), cs, depth));
            }
        }
    }
    t.sort_by_key(|x| std::cmp::Reverse(x.0 .0 * x.0 .1));
    let symm = |c: &mut Ctx, a: &Pic, b: &Pic, m: Metric, extra: &dyn Fn() -> String| {
        let (p, q) = (pic_metric(m, a, b), pic_metric(m, b, a));
        c.count(p.score().map(|s| sig(m as usize, &s)).unwrap_or(0));
        let ok = match (&p, &q) {
            (Out::Ok(x), Out::Ok(y)) => x.vals().iter().zip(y.vals()).all(|(x, y)| {
                (x.is_nan() && y.is_nan()) || ddb(*x, *y) <= if matches!(m, Metric::Ciede | Metric::CiedeScalar) { 2e-3 + 1e-4 * x.abs() } else { 1e-7 } || (*x > 100.0 && *y > 100.0)
            }),
            (Out::Ok(_), _) | (_, Out::Ok(_)) => false,
            _ => true,
        };
        c.sample(|| format!("{{\"case\":{},\"ab\":{},\"ba\":{}}}", jesc(&desc(a, m, &extra())), jesc(&format!("{p:?}")), jesc(&format!("{q:?}"))));
        if !ok {
            viol(c, "not symmetric", desc(a, m, &extra()), format!("{q:?}"), format!("{p:?}"));
        }
    };
    r.par(&t, Some(1), |c, &(s, cs, depth)| {
        let pics: Vec<Pic> = PATS.iter().map(|p| p.pic(s.0, s.1, cs, depth)).collect();
        for i in 0..PATS.len() {
            for j in i + 1..PATS.len() {
                if s.0 * s.1 > 2000 && (i + j) % 4 != 0 {
                    continue;
                }
                for m in FRAME_METRICS {
                    symm(c, &pics[i], &pics[j], m, &|| format!("{:?}/{:?}", PATS[i], PATS[j]));
                }
            }
        }
        // pairs which differ in one plane / one sample / one quadrant only
        let a = &pics[0];
        for p in 0..3 {
            if a.p[p].w == 0 {
                continue;
            }
            for k in 0..3 {
                let mut b = a.clone();
                match k {
                    0 => b.p[p] = pics[1].p[p].clone(),
                    1 => b.p[p].d[0] = a.max() - b.p[p].d[0],
                    _ => {
                        let n = b.p[p].d.len();
                        for v in &mut b.p[p].d[n / 2..] {
                            *v = a.max() - *v;
                        }
                    }
                }
                for m in FRAME_METRICS {
                    symm(c, a, &b, m, &|| format!("Noise/variant {k} in plane {p}"));
                }
            }
        }
    });
    // colour pairs
    let t: Vec<u32> = (0..if r.thorough { 2000 } else { 300 }).collect();
    r.par(&t, Some(1), |c, &i| {
        for k in 0..100 {
            let depth = [8, 10, 12][k % 3];
            let max = (1u32 << depth) - 1;
            let px = |s: u32, p: usize| (hash3(s, i as usize, k, p) & max) as u16;
            for (m, cs, w) in [(Metric::CiedeScalar, Cs::Cs444, 1), (Metric::Ciede, Cs::Cs420, 8)] {
                symm(c, &Pic::new(w, 1, cs, depth, |p, _, _| px(1, p)), &Pic::new(w, 1, cs, depth, |p, _, _| px(2, p)), m, &|| format!("colour pair {i}.{k}"));
            }
        }
    });
}

// ------------------------------------------------------------------ C18
pub fn avg_want(m: Metric, s: &[f64; 4], cs: Cs) -> f64 {
    let w = cs_weight(cs);
    let l = |i: usize| if w == 0.0 && i > 0 { 0.0 } else { lin_of(m, s[i]) };
    let e = (l(0) + w * (l(1) + l(2))) / (1.0 + 2.0 * w);
    match m {
        Metric::Hvs => -10.0 * e.log10(),
        _ => -10.0 * (1.0 - e).max(0.0).log10(),
    }
}
/// The recorded finding: PSNR-HVS multiplies by (1+2w) where it should divide.
pub fn hvs_avg_known(s: &[f64; 4], cs: Cs) -> f64 {
    let w = cs_weight(cs);
    let l = |i: usize| if w == 0.0 && i > 0 { 0.0 } else { lin_of(Metric::Hvs, s[i]) };
    -10.0 * ((l(0) + w * (l(1) + l(2))) * (1.0 + 2.0 * w)).log10()
}
pub const HVS_KEY: &str = "psnr-hvs-average-weight";
pub fn check_avg(c: &mut Ctx, m: Metric, s: &Score, cs: Cs, case: &dyn Fn() -> String) {
    let want = avg_want(m, &s.v, cs);
    let near = |x: f64, y: f64| {
        if x > 90.0 && y > 90.0 && m != Metric::Hvs {
            true
        } else {
            ddb(x, y) <= 1e-6
        }
    };
    if near(s.v[3], want) {
        return;
    }
    if m == Metric::Hvs && cs != Cs::Cs400 && ddb(s.v[3], hvs_avg_known(&s.v, cs)) <= 1e-9 {
        c.known(HVS_KEY, || {
            format!("PSNR-HVS average of y={:.4} u={:.4} v={:.4} at {} is {:.4} instead of {want:.4} (weight sum multiplied instead of divided): {}", s.v[0], s.v[1], s.v[2], cs_name(cs), s.v[3], case())
        });
        return;
    }
    viol(c, "average does not use the chroma weights", case(), format!("{s:?}"), format!("avg {want}"));
}
pub fn c18(r: &Run) {
    let mut t = vec![];
    for s in if r.thorough { size_list(false) } else { vec![(16, 16), (17, 19), (32, 24)] } {
        for cs in ALL_CS {
            for depth in [8, 10, 12] {
                for m in [Metric::Psnr, Metric::Hvs, Metric::Ssim, Metric::Msssim] {
                    t.push((grow(cs, s.0, s.1), cs, depth, m));
                }
            }
        }
    }
    r.par(&t, Some(1), |c, &(s, cs, depth, m)| {
        // per plane: 4 pairs of contents; all 4^3 combinations
        let pairs = [(Pat::Noise(1), Pat::Noise(2)), (Pat::LowNoise(1), Pat::LowNoise(2)), (Pat::HGrad, Pat::HGrad), (Pat::Mid, Pat::VStripe3)];
        let pics: Vec<(Pic, Pic)> = pairs.iter().map(|(p, q)| (p.pic(s.0, s.1, cs, depth), q.pic(s.0, s.1, cs, depth))).collect();
        let np = if cs == Cs::Cs400 { 1 } else { 4 };
        let mut seen: [[Option<f64>; 4]; 3] = Default::default();
        for i in 0..4 {
            for j in 0..np {
                for k in 0..np {
                    let sel = [i, j, k];
                    let pick = |f: &dyn Fn(usize, usize) -> Img| Pic { depth, cs, p: [f(0, i), f(1, j), f(2, k)] };
                    let a = pick(&|p, q| pics[q].0.p[p].clone());
                    let b = pick(&|p, q| pics[q].1.p[p].clone());
                    let out = pic_metric(m, &a, &b);
                    let case = || desc(&a, m, &format!("planes {:?} {:?} {:?}", pairs[i], pairs[j], pairs[k]));
                    let Out::Ok(sc) = &out else {
                        viol(c, "no score", case(), format!("{out:?}"), "a score".into());
                        continue;
                    };
                    c.count(sig(m as usize, sc));
                    c.sample(|| format!("{{\"case\":{},\"score\":{}}}", jesc(&case()), jesc(&format!("{sc:?}"))));
                    for p in 0..3 {
                        if a.p[p].w == 0 {
                            continue;
                        }
                        match seen[p][sel[p]] {
                            None => seen[p][sel[p]] = Some(sc.v[p]),
                            Some(v) if ddb(v, sc.v[p]) <= 1e-9 => {}
                            Some(v) => viol(c, "a plane score depends on another plane", case(), format!("plane {p}: {}", sc.v[p]), format!("{v}")),
                        }
                    }
                    if m != Metric::Psnr {
                        check_avg(c, m, sc, cs, &case);
                    }
                }
            }
        }
    });
}
