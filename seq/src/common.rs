//! Shared machinery: pictures, plane layouts, scores, the parallel exhaustive enumerator, reports.
use av_metrics::video::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use v_frame::plane::PlaneConfig;

pub use v_frame::frame::Frame;
pub use v_frame::plane::Plane;

pub type Cs = ChromaSampling;
pub const ALL_CS: [Cs; 4] = [Cs::Cs420, Cs::Cs422, Cs::Cs444, Cs::Cs400];
pub fn cs_name(c: Cs) -> &'static str {
    match c {
        Cs::Cs420 => "420",
        Cs::Cs422 => "422",
        Cs::Cs444 => "444",
        Cs::Cs400 => "400",
    }
}
pub fn cs_weight(c: Cs) -> f64 {
    match c {
        Cs::Cs420 => 0.25,
        Cs::Cs422 => 0.5,
        Cs::Cs444 => 1.0,
        Cs::Cs400 => 0.0,
    }
}
pub fn cs_dec(c: Cs) -> (usize, usize) {
    match c {
        Cs::Cs420 => (1, 1),
        Cs::Cs422 => (1, 0),
        Cs::Cs444 => (0, 0),
        Cs::Cs400 => (1, 1),
    }
}
pub fn chroma_dims(c: Cs, w: usize, h: usize) -> (usize, usize) {
    match c {
        Cs::Cs420 => ((w + 1) / 2, (h + 1) / 2),
        Cs::Cs422 => ((w + 1) / 2, h),
        Cs::Cs444 => (w, h),
        Cs::Cs400 => (0, 0),
    }
}

/// One plane of samples, tightly packed.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Img {
    pub w: usize,
    pub h: usize,
    pub d: Vec<u16>,
}
impl Img {
    pub fn new(w: usize, h: usize, f: impl Fn(usize, usize) -> u16) -> Img {
        let mut d = Vec::with_capacity(w * h);
        for y in 0..h {
            for x in 0..w {
                d.push(f(x, y));
            }
        }
        Img { w, h, d }
    }
    pub fn at(&self, x: usize, y: usize) -> u16 {
        self.d[y * self.w + x]
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pic {
    pub depth: usize,
    pub cs: Cs,
    pub p: [Img; 3],
}
impl Pic {
    pub fn max(&self) -> u16 {
        ((1usize << self.depth) - 1) as u16
    }
    /// Build from a function of (plane, x, y).
    pub fn new(w: usize, h: usize, cs: Cs, depth: usize, f: impl Fn(usize, usize, usize) -> u16) -> Pic {
        let (cw, ch) = chroma_dims(cs, w, h);
        Pic {
            depth,
            cs,
            p: [
                Img::new(w, h, |x, y| f(0, x, y)),
                Img::new(cw, ch, |x, y| f(1, x, y)),
                Img::new(cw, ch, |x, y| f(2, x, y)),
            ],
        }
    }
}

/// How a plane is laid out in memory.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    /// `Plane::new` without padding (stride aligned to 64 bytes)
    New,
    /// `Plane::new` with xpad, ypad
    Pad(usize, usize),
    /// no padding at all: stride == width
    Tight,
    /// hand-made: extra columns to the right / rows below, origin 0
    Crop(usize, usize),
    /// hand-made: origin (x,y), extra columns / rows after
    Origin(usize, usize, usize, usize),
}
pub const LAYOUTS: [Layout; 9] = [
    Layout::Tight,
    Layout::New,
    Layout::Pad(1, 0),
    Layout::Pad(0, 3),
    Layout::Pad(5, 2),
    Layout::Pad(80, 16),
    Layout::Crop(3, 2),
    Layout::Origin(1, 0, 0, 0),
    Layout::Origin(3, 5, 2, 1),
];

pub fn mk_plane<T: Pixel>(img: &Img, dec: (usize, usize), lay: Layout, fill: &dyn Fn(usize) -> u16) -> Plane<T> {
    let (w, h) = (img.w, img.h);
    if w == 0 || h == 0 {
        return Plane::new(0, 0, dec.0, dec.1, 0, 0);
    }
    let (stride, alloc_h, xo, yo, xpad, ypad) = match lay {
        Layout::New => {
            let c = PlaneConfig::new(w, h, dec.0, dec.1, 0, 0, std::mem::size_of::<T>());
            (c.stride, c.alloc_height, c.xorigin, c.yorigin, 0, 0)
        }
        Layout::Pad(x, y) => {
            let c = PlaneConfig::new(w, h, dec.0, dec.1, x, y, std::mem::size_of::<T>());
            (c.stride, c.alloc_height, c.xorigin, c.yorigin, x, y)
        }
        Layout::Tight => (w, h, 0, 0, 0, 0),
        Layout::Crop(a, b) => (w + a, h + b, 0, 0, 0, 0),
        Layout::Origin(ox, oy, a, b) => (ox + w + a, oy + h + b, ox, oy, a, b),
    };
    let mut buf: Vec<T> = (0..stride * alloc_h).map(|i| T::cast_from(fill(i))).collect();
    for y in 0..h {
        for x in 0..w {
            buf[(yo + y) * stride + xo + x] = T::cast_from(img.at(x, y));
        }
    }
    let mut p = Plane::from_slice(&buf, stride);
    p.cfg = PlaneConfig {
        stride,
        alloc_height: alloc_h,
        width: w,
        height: h,
        xdec: dec.0,
        ydec: dec.1,
        xpad,
        ypad,
        xorigin: xo,
        yorigin: yo,
    };
    p
}
pub fn mk_frame<T: Pixel>(pic: &Pic, lays: [Layout; 3], fill: &dyn Fn(usize) -> u16) -> Frame<T> {
    let d = cs_dec(pic.cs);
    Frame {
        planes: [
            mk_plane(&pic.p[0], (0, 0), lays[0], fill),
            mk_plane(&pic.p[1], d, lays[1], fill),
            mk_plane(&pic.p[2], d, lays[2], fill),
        ],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Metric {
    Psnr,
    Apsnr,
    Hvs,
    Ssim,
    Msssim,
    Ciede,
    CiedeScalar,
}
pub const FRAME_METRICS: [Metric; 6] =
    [Metric::Psnr, Metric::Hvs, Metric::Ssim, Metric::Msssim, Metric::Ciede, Metric::CiedeScalar];
pub const VIDEO_METRICS: [Metric; 7] = [
    Metric::Psnr,
    Metric::Apsnr,
    Metric::Hvs,
    Metric::Ssim,
    Metric::Msssim,
    Metric::Ciede,
    Metric::CiedeScalar,
];
/// y, u, v, avg (CIEDE: only avg, others NaN)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Score {
    pub v: [f64; 4],
    pub planar: bool,
}
impl Score {
    pub fn vals(&self) -> &[f64] {
        if self.planar {
            &self.v
        } else {
            &self.v[3..]
        }
    }
}
pub fn planar(p: PlanarMetrics) -> Score {
    Score { v: [p.y, p.u, p.v, p.avg], planar: true }
}
pub fn single(s: f64) -> Score {
    Score { v: [f64::NAN, f64::NAN, f64::NAN, s], planar: false }
}

/// What a call did.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Score),
    Err(String),
    Panic(String),
}
impl Out {
    pub fn score(&self) -> Option<Score> {
        if let Out::Ok(s) = self {
            Some(*s)
        } else {
            None
        }
    }
}
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        LAST_PANIC.with(|l| *l.borrow_mut() = s.replace('\n', " "));
    }));
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let mut s = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
            if s.is_empty() {
                s = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
            }
            Err(s)
        }
    }
}
pub fn frame_metric<T: Pixel>(m: Metric, a: &Frame<T>, b: &Frame<T>, depth: usize, cs: Cs) -> Out {
    let r = guard(|| -> Result<Score, String> {
        Ok(match m {
            Metric::Psnr | Metric::Apsnr => planar(psnr::calculate_frame_psnr(a, b, depth, cs).map_err(|e| e.to_string())?),
            Metric::Hvs => planar(psnr_hvs::calculate_frame_psnr_hvs(a, b, depth, cs).map_err(|e| e.to_string())?),
            Metric::Ssim => planar(ssim::calculate_frame_ssim(a, b, depth, cs).map_err(|e| e.to_string())?),
            Metric::Msssim => planar(ssim::calculate_frame_msssim(a, b, depth, cs).map_err(|e| e.to_string())?),
            Metric::Ciede => single(ciede::calculate_frame_ciede(a, b, depth, cs).map_err(|e| e.to_string())?),
            Metric::CiedeScalar => single(ciede::calculate_frame_ciede_nosimd(a, b, depth, cs).map_err(|e| e.to_string())?),
        })
    });
    match r {
        Ok(Ok(s)) => Out::Ok(s),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}
/// Score two pictures laid out without any padding (the base line layout).
pub fn pic_metric(m: Metric, a: &Pic, b: &Pic) -> Out {
    let l = some_layout(a, b);
    pic_metric_lay(m, a, b, [l; 3], &|i| (i * 37) as u16 & 255, &|i| (i * 101) as u16 & 255)
}
/// A layout that depends on the pictures but not on their order: the definitions hold in all of them.
pub fn some_layout(a: &Pic, b: &Pic) -> Layout {
    let sum = |p: &Pic| p.p[0].d.iter().step_by(p.p[0].d.len() / 16 + 1).map(|x| *x as usize).sum::<usize>();
    let k = a.p[0].w + 3 * a.p[0].h + a.depth + sum(a) + sum(b);
    [Layout::Tight, Layout::New, Layout::Crop(3, 2), Layout::Tight, Layout::Pad(5, 2), Layout::Origin(3, 5, 2, 1), Layout::Crop(0, 1)][k % 7]
}
pub fn pic_metric_lay(m: Metric, a: &Pic, b: &Pic, l: [Layout; 3], fa: &dyn Fn(usize) -> u16, fb: &dyn Fn(usize) -> u16) -> Out {
    pic_metric_lay2(m, (a, l), (b, l), fa, fb)
}
/// the two frames in layouts of their own
pub fn pic_metric_lay2(m: Metric, (a, l): (&Pic, [Layout; 3]), (b, k): (&Pic, [Layout; 3]), fa: &dyn Fn(usize) -> u16, fb: &dyn Fn(usize) -> u16) -> Out {
    if a.depth > 8 {
        frame_metric::<u16>(m, &mk_frame(a, l, fa), &mk_frame(b, k, fb), a.depth, a.cs)
    } else {
        frame_metric::<u8>(m, &mk_frame(a, l, fa), &mk_frame(b, k, fb), a.depth, a.cs)
    }
}

// ------------------------------------------------------------------ content patterns
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pat {
    Zero,
    Max,
    Mid,
    HGrad,
    VGrad,
    Checker,
    CheckerInv,
    VStripe3,
    HStripe2,
    Noise(u32),
    NoiseInv(u32),
    LowNoise(u32),
}
pub fn hash3(s: u32, x: usize, y: usize, p: usize) -> u32 {
    let mut h = s ^ 0x9e3779b9;
    for v in [x as u32, y as u32, p as u32] {
        h ^= v.wrapping_add(0x7f4a7c15).wrapping_mul(0x85ebca6b);
        h = h.rotate_left(13).wrapping_mul(0xc2b2ae35);
        h ^= h >> 15;
    }
    h = h.wrapping_mul(0x27d4eb2f);
    h ^ (h >> 16)
}
impl Pat {
    pub fn at(self, p: usize, x: usize, y: usize, depth: usize) -> u16 {
        let max = (1u32 << depth) - 1;
        let v = match self {
            Pat::Zero => 0,
            Pat::Max => max,
            Pat::Mid => (max + 1) / 2,
            Pat::HGrad => (x as u32 * 37 * (max + 1) / 256) & max,
            Pat::VGrad => (y as u32 * 23 * (max + 1) / 256) & max,
            Pat::Checker => if (x + y) & 1 == 0 { 0 } else { max },
            Pat::CheckerInv => if (x + y) & 1 == 1 { 0 } else { max },
            Pat::VStripe3 => if x % 3 == 0 { max } else { max / 5 },
            Pat::HStripe2 => if y % 2 == 0 { max / 3 } else { 2 * max / 3 },
            Pat::Noise(s) => hash3(s, x, y, p) & max,
            Pat::NoiseInv(s) => max - (hash3(s, x, y, p) & max),
            Pat::LowNoise(s) => (max + 1) / 2 - 3 + hash3(s, x, y, p) % 7,
        };
        v as u16
    }
    pub fn pic(self, w: usize, h: usize, cs: Cs, depth: usize) -> Pic {
        Pic::new(w, h, cs, depth, |p, x, y| self.at(p, x, y, depth))
    }
}
pub const PATS: [Pat; 12] = [
    Pat::Noise(1),
    Pat::LowNoise(2),
    Pat::Mid,
    Pat::Zero,
    Pat::Max,
    Pat::HGrad,
    Pat::VGrad,
    Pat::Checker,
    Pat::CheckerInv,
    Pat::VStripe3,
    Pat::HStripe2,
    Pat::NoiseInv(1),
];

// ------------------------------------------------------------------ report
pub fn jesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Shared {
    pub evals: AtomicUsize,
    pub transitions: AtomicUsize,
    pub capped: AtomicBool,
    pub stop: AtomicBool,
    pub inner: Mutex<Inner>,
    pub deadline: Instant,
    pub t0: Instant,
    pub cur: Mutex<Vec<String>>,
}
#[derive(Default)]
pub struct Inner {
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<String>,
    pub known: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub maxdev: f64,
}
/// per worker view
pub struct Ctx {
    pub sh: Arc<Shared>,
    pub id: usize,
    local_distinct: HashSet<u64>,
    evals: usize,
    trans: usize,
    samples: usize,
    pub maxdev: f64,
}
pub fn h64(s: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &v in s {
        h ^= v;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
    }
    h
}
impl Ctx {
    /// Count one evaluated case; `key` identifies it for the distinct count (0 = trivial case)
    pub fn count(&mut self, key: u64) {
        self.evals += 1;
        if key != 0 {
            self.local_distinct.insert(key);
        }
        if self.evals % 4096 == 0 {
            self.flush();
        }
    }
    pub fn trans(&mut self, n: usize) {
        self.trans += n;
    }
    pub fn flush(&mut self) {
        self.sh.evals.fetch_add(std::mem::take(&mut self.evals), SeqCst);
        self.sh.transitions.fetch_add(std::mem::take(&mut self.trans), SeqCst);
        let mut i = self.sh.inner.lock().unwrap();
        if i.distinct.len() < 20_000_000 {
            i.distinct.extend(self.local_distinct.drain());
        } else {
            self.local_distinct.clear();
        }
        if self.maxdev > i.maxdev {
            i.maxdev = self.maxdev;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples < 2 {
            self.samples += 1;
            let s = f();
            let mut i = self.sh.inner.lock().unwrap();
            if i.samples.len() < 12 {
                i.samples.push(s);
            }
        }
    }
    pub fn violation(&mut self, s: String) {
        let mut i = self.sh.inner.lock().unwrap();
        if i.violations.len() < 20 {
            i.violations.push(s);
        }
        if i.violations.len() >= 20 {
            self.sh.stop.store(true, SeqCst);
        }
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.sh.inner.lock().unwrap().known.iter().any(|k| k.0 == key)
    }
    pub fn known(&mut self, key: &str, s: impl FnOnce() -> String) {
        let mut i = self.sh.inner.lock().unwrap();
        if !i.known.iter().any(|k| k.0 == key) {
            let t = s();
            i.known.push((key.into(), t));
        }
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(SeqCst)
    }
    pub fn dev(&mut self, d: f64) {
        if d > self.maxdev {
            self.maxdev = d;
        }
    }
}
pub struct Run {
    pub sh: Arc<Shared>,
    pub thorough: bool,
    pub workers: usize,
}
impl Run {
    pub fn new(thorough: bool) -> Run {
        let secs = std::env::var("SEQ_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 700 } else { 150 });
        Run {
            sh: Arc::new(Shared {
                evals: AtomicUsize::new(0),
                transitions: AtomicUsize::new(0),
                capped: AtomicBool::new(false),
                stop: AtomicBool::new(false),
                inner: Mutex::new(Inner::default()),
                deadline: Instant::now() + Duration::from_secs(secs),
                t0: Instant::now(),
                cur: Mutex::new(vec![String::new(); 64]),
            }),
            thorough,
            workers: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        }
    }
    /// Run `f` once for every task, tasks handed out in order to all workers; each worker has a rayon
    /// pool of its own with `pool` threads in which the task runs (None: run outside any pool).
    pub fn par<S: Sync>(&self, tasks: &[S], pool: Option<usize>, f: impl Fn(&mut Ctx, &S) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for id in 0..self.workers {
                let (next, f) = (&next, &f);
                let sh = self.sh.clone();
                sc.spawn(move || {
                    let mut ctx = Ctx { sh: sh.clone(), id, local_distinct: HashSet::new(), evals: 0, trans: 0, samples: 0, maxdev: 0.0 };
                    let mut body = || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= tasks.len() || ctx.stopped() {
                            break;
                        }
                        if Instant::now() > sh.deadline {
                            sh.capped.store(true, SeqCst);
                            break;
                        }
                        f(&mut ctx, &tasks[i]);
                    };
                    match pool {
                        Some(n) => {
                            let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
                            // SAFETY of Send: body only used on the pool thread while we wait
                            struct W<F>(F);
                            unsafe impl<F> Send for W<F> {}
                            let mut w = W(&mut body);
                            p.install(move || {
                                let w = &mut w;
                                (w.0)()
                            });
                        }
                        None => body(),
                    }
                    ctx.flush();
                });
            }
        });
    }
    pub fn set_cur(&self, id: usize, s: String) {
        self.sh.cur.lock().unwrap()[id] = s;
    }
}
/// difference of two scores, treating equal infinities as equal and NaN as infinitely different
pub fn ddb(a: f64, b: f64) -> f64 {
    if a == b {
        0.0
    } else {
        let d = (a - b).abs();
        if d.is_nan() {
            f64::INFINITY
        } else {
            d
        }
    }
}
