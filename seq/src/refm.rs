//! Reference models, written from the property texts: naive, f64 or exact integers.
use crate::common::*;

// ---------------------------------------------------------------- PSNR
pub fn sse(a: &Img, b: &Img) -> u64 {
    a.d.iter().zip(&b.d).map(|(&x, &y)| { let d = x as i64 - y as i64; (d * d) as u64 }).sum()
}
pub fn psnr_db(max: u64, n: u64, sse: u64) -> f64 {
    if sse == 0 {
        return 100.0;
    }
    (10.0 * ((max * max) as f64 * n as f64 / sse as f64).log10()).min(100.0)
}
pub fn psnr(a: &Pic, b: &Pic) -> [f64; 4] {
    let max = a.max() as u64;
    let mut r = [0.0; 4];
    let (mut n, mut s) = (0, 0);
    for i in 0..3 {
        let e = sse(&a.p[i], &b.p[i]);
        let k = (a.p[i].w * a.p[i].h) as u64;
        r[i] = psnr_db(max, k, e);
        n += k;
        s += e;
    }
    r[3] = psnr_db(max, n, s);
    r
}

// ---------------------------------------------------------------- SSIM
/// Gaussian of the given sigma quantised to weights of 1/unit, cut where a weight would round to 0
/// (error below half a unit), at most `cap` taps to each side, centre takes the remainder.
pub fn gauss(sigma: f64, cap: usize, unit: i64) -> Vec<i64> {
    use std::f64::consts::PI;
    let k = (PI / 2.0).sqrt() * sigma / unit as f64;
    let reach = if k >= 1.0 { 0 } else { (sigma * (-2.0 * k.ln()).sqrt()).floor() as usize };
    let reach = reach.min(cap);
    let w = |d: usize| -> i64 {
        (unit as f64 / ((2.0 * PI).sqrt() * sigma) * (-(d as f64 * d as f64) / (2.0 * sigma * sigma)).exp() + 0.5).floor() as i64
    };
    let side: Vec<i64> = (1..=reach).map(w).collect();
    let c = unit - 2 * side.iter().sum::<i64>();
    let mut v: Vec<i64> = side.iter().rev().copied().collect();
    v.push(c);
    v.extend(side);
    v
}
/// (mean ssim, mean contrast-structure), window-weighted over all positions
pub fn ssim_plane(a: &[u64], b: &[u64], w: usize, h: usize, max: u64, k: &[i64]) -> (f64, f64) {
    let r = (k.len() / 2) as i64;
    let (mut s, mut c, mut tot) = (0.0, 0.0, 0.0);
    // horizontal pass, exact
    let mut hz = vec![[0i128; 6]; w * h];
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, &kw) in k.iter().enumerate() {
                let xx = x as i64 + i as i64 - r;
                if xx < 0 || xx >= w as i64 {
                    continue;
                }
                let (p, q) = (a[y * w + xx as usize] as i128, b[y * w + xx as usize] as i128);
                let kw = kw as i128;
                m[0] += kw;
                m[1] += kw * p;
                m[2] += kw * q;
                m[3] += kw * p * p;
                m[4] += kw * q * q;
                m[5] += kw * p * q;
            }
            hz[y * w + x] = m;
        }
    }
    for y in 0..h {
        for x in 0..w {
            let mut m = [0i128; 6];
            for (i, &kw) in k.iter().enumerate() {
                let yy = y as i64 + i as i64 - r;
                if yy < 0 || yy >= h as i64 {
                    continue;
                }
                let l = &hz[yy as usize * w + x];
                for j in 0..6 {
                    m[j] += kw as i128 * l[j];
                }
            }
            let n = m[0] as f64;
            // exact central moments times n^2
            let (vx, vy, cov) = (m[3] * m[0] - m[1] * m[1], m[4] * m[0] - m[2] * m[2], m[5] * m[0] - m[1] * m[2]);
            let (mx, my) = (m[1] as f64 / n, m[2] as f64 / n);
            let n2 = n * n;
            let (vx, vy, cov) = (vx as f64 / n2, vy as f64 / n2, cov as f64 / n2);
            let c1 = (0.01 * max as f64).powi(2);
            let c2 = (0.03 * max as f64).powi(2);
            let l = (2.0 * mx * my + c1) / (mx * mx + my * my + c1);
            let cs = (2.0 * cov + c2) / (vx + vy + c2);
            s += n * l * cs;
            c += n * cs;
            tot += n;
        }
    }
    (s / tot, c / tot)
}
fn u(i: &Img) -> Vec<u64> {
    i.d.iter().map(|&v| v as u64).collect()
}
/// linear SSIM of one plane
pub fn ssim_lin(a: &Img, b: &Img, depth: usize) -> f64 {
    let k = gauss(a.h as f64 * 1.5 / 256.0, a.w.min(a.h) - 1, 256);
    ssim_plane(&u(a), &u(b), a.w, a.h, (1 << depth) - 1, &k).0
}
fn half(a: &[u64], w: usize, h: usize) -> Vec<u64> {
    let (ow, oh) = (w / 2, h / 2);
    let mut o = Vec::with_capacity(ow * oh);
    for y in 0..oh {
        for x in 0..ow {
            o.push(a[2 * y * w + 2 * x] + a[2 * y * w + 2 * x + 1] + a[(2 * y + 1) * w + 2 * x] + a[(2 * y + 1) * w + 2 * x + 1]);
        }
    }
    o
}
/// linear MS-SSIM of one plane (negative factors count as 0)
pub fn msssim_lin(a: &Img, b: &Img, depth: usize) -> f64 {
    const W: [f64; 5] = [0.0448, 0.2856, 0.3001, 0.2363, 0.1333];
    let k = gauss(1.5, 4, 1024);
    let (mut p, mut q, mut w, mut h, mut max) = (u(a), u(b), a.w, a.h, (1u64 << depth) - 1);
    let mut r = 1.0;
    for s in 0..5 {
        let (ss, cs) = ssim_plane(&p, &q, w, h, max, &k);
        let f: f64 = if s == 4 { ss } else { cs };
        r *= f.max(0.0).powf(W[s]);
        p = half(&p, w, h);
        q = half(&q, w, h);
        w /= 2;
        h /= 2;
        max *= 4;
    }
    r
}
pub fn to_db(lin: f64) -> f64 {
    -10.0 * (1.0 - lin).max(0.0).log10()
}

// ---------------------------------------------------------------- PSNR-HVS
#[rustfmt::skip]
const CSF: [[f64; 64]; 3] = [[
1.6193873005, 2.2901594831, 2.08509755623, 1.48366094411, 1.00227514334, 0.678296995242, 0.466224900598, 0.3265091542,
2.2901594831, 1.94321815382, 2.04793073064, 1.68731108984, 1.2305666963, 0.868920337363, 0.61280991668, 0.436405793551,
2.08509755623, 2.04793073064, 1.34329019223, 1.09205635862, 0.875748795257, 0.670882927016, 0.501731932449, 0.372504254596,
1.48366094411, 1.68731108984, 1.09205635862, 0.772819797575, 0.605636379554, 0.48309405692, 0.380429446972, 0.295774038565,
1.00227514334, 1.2305666963, 0.875748795257, 0.605636379554, 0.448996256676, 0.352889268808, 0.283006984131, 0.226951348204,
0.678296995242, 0.868920337363, 0.670882927016, 0.48309405692, 0.352889268808, 0.27032073436, 0.215017739696, 0.17408067321,
0.466224900598, 0.61280991668, 0.501731932449, 0.380429446972, 0.283006984131, 0.215017739696, 0.168869545842, 0.136153931001,
0.3265091542, 0.436405793551, 0.372504254596, 0.295774038565, 0.226951348204, 0.17408067321, 0.136153931001, 0.109083846276,
],[
1.91113096927, 2.46074210438, 1.18284184739, 1.14982565193, 1.05017074788, 0.898018824055, 0.74725392039, 0.615105596242,
2.46074210438, 1.58529308355, 1.21363250036, 1.38190029285, 1.33100189972, 1.17428548929, 0.996404342439, 0.830890433625,
1.18284184739, 1.21363250036, 0.978712413627, 1.02624506078, 1.03145147362, 0.960060382087, 0.849823426169, 0.731221236837,
1.14982565193, 1.38190029285, 1.02624506078, 0.861317501629, 0.801821139099, 0.751437590932, 0.685398513368, 0.608694761374,
1.05017074788, 1.33100189972, 1.03145147362, 0.801821139099, 0.676555426187, 0.605503172737, 0.55002013668, 0.495804539034,
0.898018824055, 1.17428548929, 0.960060382087, 0.751437590932, 0.605503172737, 0.514674450957, 0.454353482512, 0.407050308965,
0.74725392039, 0.996404342439, 0.849823426169, 0.685398513368, 0.55002013668, 0.454353482512, 0.389234902883, 0.342353999733,
0.615105596242, 0.830890433625, 0.731221236837, 0.608694761374, 0.495804539034, 0.407050308965, 0.342353999733, 0.295530605237,
],[
2.03871978502, 2.62502345193, 1.26180942886, 1.11019789803, 1.01397751469, 0.867069376285, 0.721500455585, 0.593906509971,
2.62502345193, 1.69112867013, 1.17180569821, 1.3342742857, 1.28513006198, 1.13381474809, 0.962064122248, 0.802254508198,
1.26180942886, 1.17180569821, 0.944981930573, 0.990876405848, 0.995903384143, 0.926972725286, 0.820534991409, 0.706020324706,
1.11019789803, 1.3342742857, 0.990876405848, 0.831632933426, 0.77418706195, 0.725539939514, 0.661776842059, 0.587716619023,
1.01397751469, 1.28513006198, 0.995903384143, 0.77418706195, 0.653238524286, 0.584635025748, 0.531064164893, 0.478717061273,
0.867069376285, 1.13381474809, 0.926972725286, 0.725539939514, 0.584635025748, 0.496936637883, 0.438694579826, 0.393021669543,
0.721500455585, 0.962064122248, 0.820534991409, 0.661776842059, 0.531064164893, 0.438694579826, 0.375820256136, 0.330555063063,
0.593906509971, 0.802254508198, 0.706020324706, 0.587716619023, 0.478717061273, 0.393021669543, 0.330555063063, 0.285345396658,
]];

/// The daala 8-point integer lifting DCT (one dimension), on an array of 8.
fn dct8(x: [i64; 8]) -> [i64; 8] {
    let hf = |a: i64| if a < 0 { (a + 1) >> 1 } else { a >> 1 }; // a/2 rounded towards zero
    let rs = |a: i64, m: i64, s: u32| (a * m + (1 << (s - 1))) >> s;
    let (mut t0, mut t4, mut t2, mut t6, mut t7, mut t3, mut t5, mut t1) = (x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    t1 = t0 - t1;
    let h1 = hf(t1);
    t0 -= h1;
    t4 += t5;
    let h4 = hf(t4);
    t5 -= h4;
    t3 = t2 - t3;
    t2 -= hf(t3);
    t6 += t7;
    let h6 = hf(t6);
    t7 = h6 - t7;
    t0 += h6;
    t6 = t0 - t6;
    t2 = h4 - t2;
    t4 = t2 - t4;
    t0 -= rs(t4, 13573, 15);
    t4 += rs(t0, 11585, 14);
    t0 -= rs(t4, 13573, 15);
    t6 -= rs(t2, 21895, 15);
    t2 += rs(t6, 15137, 14);
    t6 -= rs(t2, 21895, 15);
    t3 += rs(t5, 19195, 15);
    t5 += rs(t3, 11585, 14);
    t3 -= rs(t5, 7489, 13);
    t7 = hf(t5) - t7;
    t5 -= t7;
    t3 = h1 - t3;
    t1 -= t3;
    t7 += rs(t1, 3227, 15);
    t1 -= rs(t7, 6393, 15);
    t7 += rs(t1, 3227, 15);
    t5 += rs(t3, 2485, 13);
    t3 -= rs(t5, 18205, 15);
    t5 += rs(t3, 2485, 13);
    [t0, t1, t2, t3, t4, t5, t6, t7]
}
/// columns first, then rows, as the metric defines it
pub fn dct2(b: &[i64; 64]) -> [i64; 64] {
    let mut z = [0; 64];
    for c in 0..8 {
        let v = dct8(std::array::from_fn(|r| b[r * 8 + c]));
        for k in 0..8 {
            z[c * 8 + k] = v[k];
        }
    }
    let mut o = [0; 64];
    for k in 0..8 {
        let v = dct8(std::array::from_fn(|c| z[c * 8 + k]));
        for j in 0..8 {
            o[k * 8 + j] = v[j];
        }
    }
    o
}
/// textbook DCT-II with the same gain, used to validate `dct2` itself
pub fn dct2_float(b: &[i64; 64]) -> [f64; 64] {
    use std::f64::consts::PI;
    let mut o = [0.0; 64];
    for v in 0..8 {
        for u in 0..8 {
            let mut s = 0.0;
            for y in 0..8 {
                for x in 0..8 {
                    s += b[y * 8 + x] as f64
                        * ((2 * y + 1) as f64 * v as f64 * PI / 16.0).cos()
                        * ((2 * x + 1) as f64 * u as f64 * PI / 16.0).cos();
                }
            }
            let c = |k: usize| if k == 0 { (1.0f64 / 8.0).sqrt() } else { 0.5 };
            o[v * 8 + u] = s * c(u) * c(v);
        }
    }
    o
}
fn masking(blk: &[i64; 64], d: &[i64; 64], mask: &[f64; 64]) -> f64 {
    let mut e = 0.0;
    for i in 1..64 {
        e += (d[i] * d[i]) as f64 * mask[i];
    }
    let var = |idx: &mut dyn Iterator<Item = usize>| {
        let v: Vec<f64> = idx.map(|i| blk[i] as f64).collect();
        let n = v.len() as f64;
        let m = v.iter().sum::<f64>() / n;
        v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() * n / (n - 1.0)
    };
    let g = var(&mut (0..64));
    let mut s = 0.0;
    for q in 0..4 {
        let (qy, qx) = ((q / 2) * 4, (q % 2) * 4);
        s += var(&mut (0..16).map(|i| (qy + i / 4) * 8 + qx + i % 4));
    }
    let ratio = if g > 0.0 { s / g } else { g };
    (e * ratio).sqrt() / 32.0
}
/// linear PSNR-HVS error of one plane
pub fn hvs_lin(a: &Img, b: &Img, pi: usize, depth: usize) -> f64 {
    let csf = &CSF[pi];
    let mask: [f64; 64] = std::array::from_fn(|i| (csf[i] * 0.3885746225901003).powi(2));
    let (mut tot, mut n) = (0.0, 0usize);
    let mut y = 0;
    while y + 8 <= a.h {
        let mut x = 0;
        while x + 8 <= a.w {
            let p: [i64; 64] = std::array::from_fn(|i| a.at(x + i % 8, y + i / 8) as i64);
            let q: [i64; 64] = std::array::from_fn(|i| b.at(x + i % 8, y + i / 8) as i64);
            let (dp, dq) = (dct2(&p), dct2(&q));
            let m = masking(&p, &dp, &mask).max(masking(&q, &dq, &mask));
            for i in 0..64 {
                let mut e = (dp[i] - dq[i]).abs() as f64;
                if i > 0 {
                    e = (e - m / mask[i]).max(0.0);
                }
                tot += (e * csf[i]).powi(2);
                n += 1;
            }
            x += 7;
        }
        y += 7;
    }
    let max = ((1u64 << depth) - 1) as f64;
    tot / n as f64 / (max * max)
}

// ---------------------------------------------------------------- CIEDE2000
fn lab(y: f64, u: f64, v: f64, depth: usize, chroma: [f64; 2]) -> [f64; 3] {
    let s = (1u32 << (depth - 8)) as f64;
    let y = (y - 16.0 * s) / (219.0 * s);
    let u = (u - 128.0 * s) / (224.0 * s) * chroma[0];
    let v = (v - 128.0 * s) / (224.0 * s) * chroma[1];
    // BT.709 from Y'UV; Cb and Cr (-0.5..0.5) are U / 0.872 and V / 1.23
    let rgb = [y + 1.28033 * v, y - 0.21482 * u - 0.38059 * v, y + 2.12798 * u];
    let lin: Vec<f64> = rgb.iter().map(|&c| if c > 10.0 / 255.0 { ((c + 0.055) / 1.055).powf(2.4) } else { c / 12.92 }).collect();
    let m = [
        [0.4124564390896921, 0.357576077643909, 0.18043748326639894],
        [0.21267285140562248, 0.715152155287818, 0.07217499330655958],
        [0.019333895582329317, 0.119192025881303, 0.9503040785363677],
    ];
    let wp = [0.95047, 1.0, 1.08883];
    let f: Vec<f64> = (0..3)
        .map(|i| {
            let c = (m[i][0] * lin[0] + m[i][1] * lin[1] + m[i][2] * lin[2]) / wp[i];
            if c > 216.0 / 24389.0 { c.cbrt() } else { (24389.0 / 27.0 * c + 16.0) / 116.0 }
        })
        .collect();
    [116.0 * f[1] - 16.0, 500.0 * (f[0] - f[1]), 200.0 * (f[1] - f[2])]
}
pub fn de2000(a: [f64; 3], b: [f64; 3]) -> f64 {
    let deg = 180.0 / std::f64::consts::PI;
    let (kl, kc, kh) = (0.65, 1.0, 4.0);
    let p7 = |c: f64| (c.powi(7) / (c.powi(7) + 25f64.powi(7))).sqrt();
    let (c1, c2) = (a[1].hypot(a[2]), b[1].hypot(b[2]));
    let g = 0.5 * (1.0 - p7((c1 + c2) / 2.0));
    let (a1, a2) = ((1.0 + g) * a[1], (1.0 + g) * b[1]);
    let (cp1, cp2) = (a1.hypot(a[2]), a2.hypot(b[2]));
    let hue = |b: f64, a: f64| if a == 0.0 && b == 0.0 { 0.0 } else { (b.atan2(a) * deg).rem_euclid(360.0) };
    let (h1, h2) = (hue(a[2], a1), hue(b[2], a2));
    let (dl, dc) = (b[0] - a[0], cp2 - cp1);
    let mut dh = h2 - h1;
    if cp1 * cp2 == 0.0 {
        dh = 0.0;
    } else if dh > 180.0 {
        dh -= 360.0;
    } else if dh < -180.0 {
        dh += 360.0;
    }
    let dhh = 2.0 * (cp1 * cp2).sqrt() * (dh / 2.0 / deg).sin();
    let (lm, cm) = ((a[0] + b[0]) / 2.0, (cp1 + cp2) / 2.0);
    let hm = if cp1 * cp2 == 0.0 {
        h1 + h2
    } else if (h1 - h2).abs() <= 180.0 {
        (h1 + h2) / 2.0
    } else if h1 + h2 < 360.0 {
        (h1 + h2 + 360.0) / 2.0
    } else {
        (h1 + h2 - 360.0) / 2.0
    };
    let cosd = |d: f64| (d / deg).cos();
    let t = 1.0 - 0.17 * cosd(hm - 30.0) + 0.24 * cosd(2.0 * hm) + 0.32 * cosd(3.0 * hm + 6.0) - 0.20 * cosd(4.0 * hm - 63.0);
    let dth = 30.0 * (-((hm - 275.0) / 25.0).powi(2)).exp();
    let rc = 2.0 * p7(cm);
    let sl = 1.0 + 0.015 * (lm - 50.0).powi(2) / (20.0 + (lm - 50.0).powi(2)).sqrt();
    let sc = 1.0 + 0.045 * cm;
    let sh = 1.0 + 0.015 * cm * t;
    let rt = -(2.0 * dth / deg).sin() * rc;
    let (l, c, h) = (dl / (kl * sl), dc / (kc * sc), dhh / (kh * sh));
    (l * l + c * c + h * h + rt * c * h).max(0.0).sqrt()
}
pub const BT709: [f64; 2] = [0.872, 1.23];
/// The recorded finding: Cb and Cr are used as U and V without scaling.
pub const UNSCALED: [f64; 2] = [1.0, 1.0];
pub fn pix_de(a: [u16; 3], b: [u16; 3], depth: usize, chroma: [f64; 2]) -> f64 {
    let f = |p: [u16; 3]| lab(p[0] as f64, p[1] as f64, p[2] as f64, depth, chroma);
    de2000(f(a), f(b))
}
/// mean colour difference over all luma positions
pub fn ciede_mean(a: &Pic, b: &Pic, chroma: [f64; 2]) -> f64 {
    let (dx, dy) = cs_dec(a.cs);
    let neutral = 1u16 << (a.depth - 1);
    let px = |p: &Pic, x: usize, y: usize| {
        if p.cs == Cs::Cs400 {
            [p.p[0].at(x, y), neutral, neutral]
        } else {
            [p.p[0].at(x, y), p.p[1].at(x >> dx, y >> dy), p.p[2].at(x >> dx, y >> dy)]
        }
    };
    let (w, h) = (a.p[0].w, a.p[0].h);
    let mut s = 0.0;
    for y in 0..h {
        for x in 0..w {
            s += pix_de(px(a, x, y), px(b, x, y), a.depth, chroma);
        }
    }
    s / (w * h) as f64
}
pub fn ciede_db(mean: f64) -> f64 {
    (45.0 - 20.0 * mean.log10()).min(100.0)
}
