//! Video-level sequential properties: C07, C10, C16-C18 on whole clips; the shared clip decoder.
use crate::common::*;
use crate::frames::{check_avg, hvs_avg_known, sig, viol};
use crate::refm;
use av_metrics::video::decode::*;
use av_metrics::video::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Clip {
    pub pics: Vec<Arc<Pic>>,
    pub details: VideoDetails,
    /// None: planes of the picture's true size; Some: `Frame::new_with_padding` geometry (rounded up to 8)
    pub aligned: bool,
    pub pos: usize,
}
pub fn details(w: usize, h: usize, cs: Cs, depth: usize) -> VideoDetails {
    VideoDetails {
        width: w,
        height: h,
        bit_depth: depth,
        chroma_sampling: cs,
        chroma_sample_position: ChromaSamplePosition::Unknown,
        time_base: Rational::new(1, 25),
        luma_padding: 0,
    }
}
impl Clip {
    pub fn new(pics: Vec<Arc<Pic>>) -> Clip {
        let p = &pics[0];
        Clip { details: details(p.p[0].w, p.p[0].h, p.cs, p.depth), pics, aligned: false, pos: 0 }
    }
}
impl Decoder for Clip {
    fn read_video_frame<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let pic = self.pics.get(self.pos)?.clone();
        self.pos += 1;
        if self.aligned {
            let mut f: Frame<T> = Frame::new_with_padding(self.details.width, self.details.height, pic.cs, 0);
            for i in 0..3 {
                let img = &pic.p[i];
                let stride = f.planes[i].cfg.stride;
                for y in 0..img.h {
                    for x in 0..img.w {
                        f.planes[i].data[y * stride + x] = T::cast_from(img.at(x, y));
                    }
                }
            }
            Some(f)
        } else {
            Some(mk_frame(&pic, [Layout::New; 3], &|_| 77))
        }
    }
    fn get_bit_depth(&self) -> usize {
        self.details.bit_depth
    }
    fn get_video_details(&self) -> VideoDetails {
        self.details
    }
}
pub fn video_metric<D: Decoder>(m: Metric, a: &mut D, b: &mut D, limit: Option<usize>) -> Out {
    let r = guard(|| -> Result<Score, String> {
        let cb = |_: usize| {};
        Ok(match m {
            Metric::Psnr => planar(psnr::calculate_video_psnr(a, b, limit, cb).map_err(|e| e.to_string())?),
            Metric::Apsnr => planar(psnr::calculate_video_apsnr(a, b, limit, cb).map_err(|e| e.to_string())?),
            Metric::Hvs => planar(psnr_hvs::calculate_video_psnr_hvs(a, b, limit, cb).map_err(|e| e.to_string())?),
            Metric::Ssim => planar(ssim::calculate_video_ssim(a, b, limit, cb).map_err(|e| e.to_string())?),
            Metric::Msssim => planar(ssim::calculate_video_msssim(a, b, limit, cb).map_err(|e| e.to_string())?),
            Metric::Ciede => single(ciede::calculate_video_ciede(a, b, limit, cb).map_err(|e| e.to_string())?),
            Metric::CiedeScalar => single(ciede::calculate_video_ciede_nosimd(a, b, limit, cb).map_err(|e| e.to_string())?),
        })
    });
    match r {
        Ok(Ok(s)) => Out::Ok(s),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

// ------------------------------------------------------------------ C07 (video level)
pub fn c07(r: &Run) {
    let mut sizes = vec![(32, 32), (33, 32), (40, 32), (32, 33), (39, 40), (288, 32), (32, 288)];
    if r.thorough {
        sizes.extend([(34, 32), (32, 40), (40, 39), (48, 16), (16, 48), (64, 32)]);
    }
    let mut fm = vec![];
    for &s in &sizes {
        for cs in ALL_CS {
            for d in [8, 10, 12] {
                fm.push((s, cs, d));
            }
        }
    }
    let mut t = vec![];
    for &a in &fm {
        for &b in &fm {
            t.push((a, b));
        }
    }
    r.par(&t, Some(1), |c, &(f1, f2)| {
        let (a, b) = (Arc::new(Pat::Noise(1).pic(f1.0 .0, f1.0 .1, f1.1, f1.2)), Arc::new(Pat::LowNoise(2).pic(f2.0 .0, f2.0 .1, f2.1, f2.2)));
        for m in VIDEO_METRICS {
            for aligned in [false, true] {
                for meta in 0..if f1 == f2 { 4 } else { 1 } {
                    let mut x = Clip::new(vec![a.clone()]);
                    let mut y = Clip::new(vec![b.clone()]);
                    x.aligned = aligned;
                    y.aligned = aligned;
                    // details which do not make clips incompatible
                    match meta {
                        1 => y.details.time_base = Rational::new(7, 3),
                        2 => y.details.chroma_sample_position = ChromaSamplePosition::Bilateral,
                        3 => y.details.luma_padding = 16,
                        _ => {}
                    }
                    let out = video_metric(m, &mut x, &mut y, None);
                    c.count(h64(&[7, m as u64, f1.0 .0 as u64, f1.0 .1 as u64, f1.1 as u64, f1.2 as u64, f2.0 .0 as u64, f2.0 .1 as u64, f2.1 as u64, f2.2 as u64, aligned as u64, meta]));
                    let good = match &out {
                        Out::Ok(_) => f1 == f2,
                        Out::Err(_) => f1 != f2,
                        Out::Panic(_) => false,
                    };
                    if !good {
                        viol(c, "clip acceptance", format!("video {m:?} {:?}/{}/{} vs {:?}/{}/{} aligned={aligned} meta={meta}", f1.0, cs_name(f1.1), f1.2, f2.0, cs_name(f2.1), f2.2), format!("{out:?}"), if f1 == f2 { "a score".into() } else { "an error".into() });
                    }
                }
            }
        }
    });
}

/// the alphabet of frame pairs from which clips are made
pub fn alphabet(w: usize, h: usize, cs: Cs, depth: usize) -> Vec<(Arc<Pic>, Arc<Pic>)> {
    [(Pat::Noise(1), Pat::Noise(2)), (Pat::HGrad, Pat::HGrad), (Pat::LowNoise(3), Pat::LowNoise(4)), (Pat::Zero, Pat::Max), (Pat::VGrad, Pat::HStripe2)]
        .iter()
        .map(|(a, b)| (Arc::new(a.pic(w, h, cs, depth)), Arc::new(b.pic(w, h, cs, depth))))
        .collect()
}
/// all sequences over 0..k of length 1..=n
pub fn seqs(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        cur = cur.iter().flat_map(|s| (0..k).map(move |x| { let mut t = s.clone(); t.push(x); t })).collect();
        out.extend(cur.iter().cloned());
    }
    out
}
fn formats() -> Vec<(usize, usize, Cs, usize)> {
    let mut v = vec![];
    for cs in ALL_CS {
        let (w, h) = crate::frames::grow(cs, 17, 16);
        for d in [8, 10, 12] {
            v.push((w, h, cs, d));
        }
    }
    v
}
fn close(a: f64, b: f64) -> bool {
    a.is_nan() && b.is_nan() || (a > 120.0 && b > 120.0) || ddb(a, b) <= 1e-6
}

// ------------------------------------------------------------------ C10
pub fn c10(r: &Run) {
    let (k, n) = if r.thorough { (5, 5) } else { (4, 4) };
    let mut t = vec![];
    for f in formats() {
        for m in VIDEO_METRICS {
            t.push((f, m));
        }
    }
    r.par(&t, Some(1), |c, &((w, h, cs, depth), m)| {
        let al = alphabet(w, h, cs, depth);
        // per pair: linear plane scores (reference), frame-level score (real)
        let lin: Vec<[f64; 3]> = al
            .iter()
            .map(|(a, b)| {
                std::array::from_fn(|p| {
                    if a.p[p].w == 0 {
                        return 0.0;
                    }
                    match m {
                        Metric::Hvs => refm::hvs_lin(&a.p[p], &b.p[p], p, depth),
                        Metric::Ssim => refm::ssim_lin(&a.p[p], &b.p[p], depth),
                        Metric::Msssim => refm::msssim_lin(&a.p[p], &b.p[p], depth),
                        _ => refm::sse(&a.p[p], &b.p[p]) as f64,
                    }
                })
            })
            .collect();
        let frame: Vec<Out> = al.iter().map(|(a, b)| pic_metric(m, a, b)).collect();
        let max = (1u64 << depth) - 1;
        let cnt: [u64; 3] = std::array::from_fn(|p| al[0].0.p[p].d.len() as u64);
        let wgt = cs_weight(cs);
        let mut list = seqs(k, n);
        // long clips with one pair that differs from all others, at every kind of position
        if (cs, depth) == (Cs::Cs420, 10) || (cs, depth) == (Cs::Cs444, 8) || r.thorough && depth == 8 {
            for l in [258, 700, 1500] {
                for (base, mark) in [(1, 3), (2, 0)] {
                    for at in [0, 1, l / 2, 256, l - 2, l - 1] {
                        let mut s = vec![base; l];
                        s[at] = mark;
                        list.push(s);
                    }
                }
            }
        }
        for s in list {
            let len = s.len() as f64;
            let mut a = Clip::new(s.iter().map(|&i| al[i].0.clone()).collect());
            let mut b = Clip::new(s.iter().map(|&i| al[i].1.clone()).collect());
            let out = video_metric(m, &mut a, &mut b, None);
            c.trans(s.len());
            let case = || {
                let pairs = match s.iter().position(|i| *i != s[s.len() / 3]) {
                    Some(at) if s.len() > 9 => format!("{} x {}, the one at {at} is {}", s.len(), s[s.len() / 3], s[at]),
                    _ => format!("{s:?}"),
                };
                format!("{m:?} {w}x{h} cs{} {depth}bit clip of pairs {pairs}", cs_name(cs))
            };
            let Out::Ok(sc) = &out else {
                viol(c, "no score", case(), format!("{out:?}"), "a score".into());
                continue;
            };
            c.count(sig(m as usize, sc));
            let mean = |p: usize| s.iter().map(|&i| lin[i][p]).sum::<f64>() / len;
            let mut want = [f64::NAN; 4];
            let mut alt = None;
            match m {
                Metric::Psnr => {
                    let tot = |p: usize| s.iter().map(|&i| lin[i][p] as u64).sum::<u64>();
                    for p in 0..3 {
                        want[p] = refm::psnr_db(max, cnt[p] * s.len() as u64, tot(p));
                    }
                    want[3] = refm::psnr_db(max, cnt.iter().sum::<u64>() * s.len() as u64, (0..3).map(tot).sum());
                }
                Metric::Apsnr | Metric::Ciede | Metric::CiedeScalar => {
                    for p in 0..4 {
                        want[p] = s.iter().map(|&i| frame[i].score().map_or(f64::NAN, |x| x.v[p])).sum::<f64>() / len;
                    }
                }
                Metric::Hvs => {
                    for p in 0..3 {
                        want[p] = -10.0 * mean(p).log10();
                    }
                    want[3] = -10.0 * ((mean(0) + wgt * (mean(1) + mean(2))) / (1.0 + 2.0 * wgt)).log10();
                    alt = Some(hvs_avg_known(&[want[0], want[1], want[2], 0.0], cs));
                }
                _ => {
                    for p in 0..3 {
                        want[p] = refm::to_db(mean(p));
                    }
                    want[3] = refm::to_db((mean(0) + wgt * (mean(1) + mean(2))) / (1.0 + 2.0 * wgt));
                }
            }
            for p in 0..4 {
                if (!sc.planar && p < 3) || (p < 3 && cnt[p] == 0) {
                    continue;
                }
                let ok = close(sc.v[p], want[p]) || p == 3 && alt.is_some_and(|x| close(x, sc.v[3]));
                if ok && want[p].is_finite() && ddb(sc.v[p], want[p]) < 1e-6 {
                    c.dev(ddb(sc.v[p], want[p]));
                }
                if !ok {
                    viol(c, "aggregation", case(), format!("value {p}: {}", sc.v[p]), format!("{}", want[p]));
                    break;
                }
                // a clip of one repeated pair scores like the frame
                if s.iter().all(|&i| i == s[0]) {
                    if let Out::Ok(f) = &frame[s[0]] {
                        if !close(f.v[p], sc.v[p]) {
                            viol(c, "repeated pair scores unlike the frame", case(), format!("value {p}: {}", sc.v[p]), format!("{}", f.v[p]));
                            break;
                        }
                    }
                }
            }
            c.sample(|| format!("{{\"case\":{},\"score\":{}}}", jesc(&case()), jesc(&format!("{:?}", sc.v))));
        }
    });
    // long clips: the aggregate must not lose accuracy or samples with the number of frames
    let lens: &[usize] = if r.thorough { &[9, 17, 64, 257, 1000, 3000] } else { &[9, 17, 64, 257] };
    let mut t = vec![];
    for m in VIDEO_METRICS {
        for &l in lens {
            t.push((m, l));
        }
    }
    r.par(&t, Some(1), |c, &(m, l)| {
        let al = alphabet(16, 16, Cs::Cs444, 8);
        let one = |i: usize| video_metric(m, &mut Clip::new(vec![al[i].0.clone()]), &mut Clip::new(vec![al[i].1.clone()]), None);
        for i in 0..al.len() {
            let out = video_metric(m, &mut Clip::new(vec![al[i].0.clone(); l]), &mut Clip::new(vec![al[i].1.clone(); l]), None);
            c.count(h64(&[1010, m as u64, l as u64, i as u64]));
            let ok = match (&out, &one(i)) {
                (Out::Ok(x), Out::Ok(y)) => x.vals().iter().zip(y.vals()).all(|(x, y)| close(*x, *y)),
                _ => false,
            };
            if !ok {
                viol(c, "repeating a pair changes the score", format!("{m:?} pair {i} x {l}"), format!("{out:?}"), format!("{:?}", one(i)));
            }
        }
    });
}

// ------------------------------------------------------------------ C16-C18 on clips
pub fn c16(r: &Run) {
    clips(r, |c, m, al, s, cs, case| {
        let out = score(m, al, s, false);
        let Out::Ok(sc) = &out else {
            viol(c, "no score", case(), format!("{out:?}"), "a score".into());
            return;
        };
        c.count(sig(m as usize, sc));
        let capped = matches!(m, Metric::Psnr | Metric::Apsnr | Metric::Ciede | Metric::CiedeScalar);
        for p in 0..4 {
            if !sc.planar && p < 3 {
                continue;
            }
            let v = sc.v[p];
            if p < 3 && cs == Cs::Cs400 && p > 0 {
                if v.is_nan() {
                    viol(c, "NaN", case(), format!("{out:?}"), "well defined".into());
                }
                continue;
            }
            let same = s.iter().all(|&i| if p == 3 { al[i].0 == al[i].1 } else { al[i].0.p[p] == al[i].1.p[p] });
            let bad = v.is_nan() || (capped && v > 100.0) || (same && if capped { v != 100.0 } else { !(v > 100.0) });
            if bad {
                viol(c, "score not well defined or identity not best", case(), format!("{out:?}"), "no NaN, identity best".into());
            }
        }
    });
}
pub fn c17(r: &Run) {
    clips(r, |c, m, al, s, _, case| {
        let (p, q) = (score(m, al, s, false), score(m, al, s, true));
        c.count(p.score().map_or(1, |x| sig(m as usize, &x)));
        let ok = match (&p, &q) {
            (Out::Ok(x), Out::Ok(y)) => x.vals().iter().zip(y.vals()).all(|(x, y)| {
                close(*x, *y) || matches!(m, Metric::Ciede | Metric::CiedeScalar) && ddb(*x, *y) <= 2e-3 + 1e-4 * x.abs()
            }),
            (Out::Ok(_), _) | (_, Out::Ok(_)) => false,
            _ => true,
        };
        if !ok {
            viol(c, "not symmetric", case(), format!("{q:?}"), format!("{p:?}"));
        }
    });
}
pub fn c18(r: &Run) {
    clips(r, |c, m, al, s, cs, case| {
        if matches!(m, Metric::Psnr | Metric::Apsnr | Metric::Ciede | Metric::CiedeScalar) {
            return;
        }
        let out = score(m, al, s, false);
        let Out::Ok(sc) = &out else {
            viol(c, "no score", case(), format!("{out:?}"), "a score".into());
            return;
        };
        c.count(sig(m as usize, sc));
        check_avg(c, m, sc, cs, &|| format!("video {}", case()));
        // a plane score depends on its own plane only: exchange the contents of the other planes
        for p in 0..3 {
            if al[0].0.p[p].w == 0 {
                continue;
            }
            let mix = |x: &Pic, y: &Pic| {
                let mut z = y.clone();
                z.p[p] = x.p[p].clone();
                Arc::new(z)
            };
            let n = al.len();
            let alt: Vec<_> = (0..n).map(|i| (mix(&al[i].0, &al[(i + 1) % n].0), mix(&al[i].1, &al[(i + 1) % n].1))).collect();
            if let Out::Ok(x) = score(m, &alt, s, false) {
                if !close(x.v[p], sc.v[p]) {
                    viol(c, "a plane score depends on another plane", case(), format!("plane {p}: {}", x.v[p]), format!("{}", sc.v[p]));
                }
            }
        }
    });
}
type Al = [(Arc<Pic>, Arc<Pic>)];
fn score(m: Metric, al: &Al, s: &[usize], swap: bool) -> Out {
    let mut a = Clip::new(s.iter().map(|&i| al[i].0.clone()).collect());
    let mut b = Clip::new(s.iter().map(|&i| al[i].1.clone()).collect());
    if swap {
        video_metric(m, &mut b, &mut a, None)
    } else {
        video_metric(m, &mut a, &mut b, None)
    }
}
fn clips(r: &Run, f: impl Fn(&mut Ctx, Metric, &Al, &[usize], Cs, &dyn Fn() -> String) + Sync) {
    let (k, n) = if r.thorough { (5, 4) } else { (4, 2) };
    let mut t = vec![];
    for x in formats() {
        for m in VIDEO_METRICS {
            t.push((x, m));
        }
    }
    r.par(&t, Some(1), |c, &((w, h, cs, depth), m)| {
        let al = alphabet(w, h, cs, depth);
        for s in seqs(k, n) {
            c.trans(s.len());
            f(c, m, &al, &s, cs, &|| format!("clip {m:?} {w}x{h} cs{} {depth}bit pairs {s:?}", cs_name(cs)));
        }
    });
}
