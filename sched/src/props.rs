//! The configurations, monitors and verdicts of the concurrency properties.
use crate::common::*;
use crate::explore::*;
use av_metrics::video::decode::{Rational, VideoDetails};
use av_metrics_entry::{Source, Which};
use av_metrics::video::*;
use av_metrics::MetricsError;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ a comparison
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// pair i cannot be compared
    Bad(usize),
    /// the metric panics on pair i
    MetricPanic(usize),
    /// decoder 1 or 2 panics at read i
    Dec(u8, usize),
    /// the callback panics when called with i
    Cb(usize),
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub m: Metric,
    pub w: usize,
    pub h: usize,
    pub cs: Cs,
    pub depth: usize,
    pub pool: usize,
    /// called on a thread of the pool (otherwise from outside of the global pool)
    pub inside: bool,
    pub len: (usize, usize),
    pub limit: Option<usize>,
    pub fault: Fault,
    /// reads and callbacks are visible operations
    pub yields: bool,
    pub seed: u32,
    /// how to make the metric panic
    pub panics: Option<usize>,
}
/// Breaks a frame in a way that may make a metric panic.
fn malform<T: Pixel>(f: &mut Frame<T>, way: usize) {
    for p in f.planes.iter_mut() {
        match way {
            // more rows than there is data
            0 => p.cfg.height += if p.cfg.height == 1 { 1 } else { 8 },
            // rows that are not there
            1 => p.cfg.yorigin += 1 << 20,
            _ => p.cfg.xorigin += 1 << 40,
        }
    }
}
const WAYS: usize = 3;
/// Finds for every spec that needs it a malformed pair that makes the metric panic, in a process of
/// its own. A spec without one is left alone: a metric need not panic.
fn calibrate(specs: Vec<&mut Spec>) -> usize {
    let key = |s: &Spec| (s.m, s.w, s.h, s.cs, s.depth);
    let mut kinds: Vec<Spec> = vec![];
    for s in specs.iter().filter(|s| matches!(s.fault, Fault::MetricPanic(_))) {
        if !kinds.iter().any(|k| key(k) == key(s)) {
            kinds.push((*s).clone());
        }
    }
    let r = isolated(kinds.len() * WAYS, 1_000_000, &|i| {
        let s = &kinds[i / WAYS];
        let p = pool(1);
        let r = p.install(|| {
            catch_unwind(AssertUnwindSafe(|| {
                if s.depth > 8 {
                    let mut f: [Frame<u16>; 2] = [false, true].map(|b| mk_frame(&s.pic(0, b), [Layout::Tight; 3], &|_| 0));
                    f.iter_mut().for_each(|f| malform(f, i % WAYS));
                    let _ = av_metrics_entry::single16(which(s.m), &f[0], &f[1], s.depth, s.cs);
                } else {
                    let mut f: [Frame<u8>; 2] = [false, true].map(|b| mk_frame(&s.pic(0, b), [Layout::Tight; 3], &|_| 0));
                    f.iter_mut().for_each(|f| malform(f, i % WAYS));
                    let _ = av_metrics_entry::single8(which(s.m), &f[0], &f[1], s.depth, s.cs);
                }
            }))
            .is_err()
        });
        std::mem::forget(p);
        Ok(vec![r as u8 as f64])
    });
    let mut none = 0;
    for s in specs {
        if matches!(s.fault, Fault::MetricPanic(_)) {
            let k = kinds.iter().position(|k| key(k) == key(s)).expect("kind");
            s.panics = (0..WAYS).find(|w| matches!(&r[k * WAYS + w], Ok(v) if v[0] == 1.0));
            if s.panics.is_none() {
                none += 1;
                s.fault = Fault::None;
            }
        }
    }
    none
}
impl Spec {
    fn thin(pool: usize, inside: bool, n1: usize, n2: usize, limit: Option<usize>) -> Spec {
        Spec { m: Metric::Ciede, w: 23, h: 1, cs: Cs::Cs444, depth: 8, pool, inside, len: (n1, n2), limit, fault: Fault::None, yields: true, seed: 0, panics: None }
    }
    fn full(m: Metric, pool: usize, inside: bool, n1: usize, n2: usize) -> Spec {
        let (w, h) = if m == Metric::Msssim { (35, 33) } else { (17, 19) };
        Spec { m, w, h, cs: Cs::Cs420, depth: 8, pool, inside, len: (n1, n2), limit: None, fault: Fault::None, yields: false, seed: 0, panics: None }
    }
    fn fault(mut self, f: Fault) -> Spec {
        self.fault = f;
        self
    }
    fn name(&self) -> String {
        format!(
            "{:?} {}x{} cs{} {}bit pool {} called from {} lengths {:?} limit {:?} fault {:?}",
            self.m,
            self.w,
            self.h,
            cs_name(self.cs),
            self.depth,
            self.pool,
            if self.inside { "the pool" } else { "outside" },
            self.len,
            self.limit,
            self.fault
        )
    }
    fn pairs(&self) -> usize {
        self.len.0.min(self.len.1).min(self.limit.unwrap_or(usize::MAX))
    }
    /// the fault strikes
    fn struck(&self) -> bool {
        let n = self.pairs();
        match self.fault {
            Fault::None => false,
            Fault::Bad(i) | Fault::MetricPanic(i) => i < n,
            Fault::Dec(_, i) => i < n,
            Fault::Cb(i) => i <= n || i == usize::MAX,
        }
    }
    fn pic(&self, i: usize, second: bool) -> Pic {
        let s = self.seed * 1000 + 2 * (i % PERIOD) as u32 + second as u32 + 1;
        Pat::Noise(s).pic(self.w, self.h, self.cs, self.depth)
    }
}

/// What is observed of one comparison.
#[derive(Default)]
pub struct Mon {
    reads: [AtomicUsize; 2],
    calls: AtomicUsize,
    ended: AtomicUsize,
    returned: AtomicBool,
}
struct Dec {
    spec: Arc<Spec>,
    which: usize,
    pos: usize,
    pics: Arc<Vec<Pic>>,
    mon: Arc<Mon>,
}
impl Dec {
    fn read<T: Pixel>(&mut self) -> Option<Frame<T>> {
        let s = self.spec.clone();
        if s.yields {
            vsched::step(0xDEC0);
        }
        self.mon.reads[self.which].fetch_add(1, SeqCst);
        let i = self.pos;
        let n = if self.which == 0 { s.len.0 } else { s.len.1 };
        if matches!(s.fault, Fault::Dec(d, k) if d as usize == self.which + 1 && k == i) {
            panic!("the decoder fails");
        }
        if i >= n {
            return None;
        }
        self.pos += 1;
        match s.fault {
            Fault::Bad(k) if k == i && self.which == 1 => {
                let p = Pat::Mid.pic(s.w + 2, s.h, s.cs, s.depth);
                return Some(mk_frame(&p, [Layout::Tight; 3], &|_| 0));
            }
            _ => {}
        }
        let mut f: Frame<T> = mk_frame(&self.pics[i], [Layout::Tight; 3], &|_| 0);
        if s.fault == Fault::MetricPanic(i) {
            malform(&mut f, s.panics.expect("a way to make the metric panic"));
        }
        Some(f)
    }
}
impl Source for Dec {
    fn read8(&mut self) -> Option<Frame<u8>> {
        self.read()
    }
    fn read16(&mut self) -> Option<Frame<u16>> {
        self.read()
    }
    fn details(&self) -> VideoDetails {
        VideoDetails {
            width: self.spec.w,
            height: self.spec.h,
            bit_depth: self.spec.depth,
            chroma_sampling: self.spec.cs,
            chroma_sample_position: ChromaSamplePosition::Unknown,
            time_base: Rational::new(1, 25),
            luma_padding: 0,
        }
    }
}
/// Ok: the values; Err: (kind of error, text)
pub type Res = Result<Vec<f64>, (&'static str, String)>;
fn kind(e: Box<dyn std::error::Error>) -> (&'static str, String) {
    let k = match e.downcast_ref::<MetricsError>() {
        Some(MetricsError::ProcessError { .. }) => "process",
        Some(MetricsError::InputMismatch { .. }) => "mismatch",
        Some(MetricsError::UnsupportedInput { .. }) => "unsupported",
        Some(MetricsError::SendError { .. }) => "send",
        Some(_) => "other",
        None => "foreign",
    };
    (k, e.to_string())
}
fn which(m: Metric) -> Which {
    match m {
        Metric::Psnr => Which::Psnr,
        Metric::Apsnr => Which::Apsnr,
        Metric::Hvs => Which::Hvs,
        Metric::Ssim => Which::Ssim,
        Metric::Msssim => Which::Msssim,
        Metric::Ciede => Which::Ciede,
        Metric::CiedeScalar => Which::CiedeScalar,
    }
}
fn call(m: Metric, a: Dec, b: Dec, limit: Option<usize>, cb: impl Fn(usize) + Send + 'static) -> Res {
    let (mut a, mut b) = (av_metrics_entry::Dec(Box::new(a)), av_metrics_entry::Dec(Box::new(b)));
    let r = catch_unwind(AssertUnwindSafe(|| av_metrics_entry::call(which(m), &mut a, &mut b, limit, Box::new(cb))));
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(kind(e)),
        Err(p) => {
            let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            Err(("panic", s))
        }
    }
}
pub struct Job {
    spec: Arc<Spec>,
    mon: Arc<Mon>,
    pics: [Arc<Vec<Pic>>; 2],
}
impl Job {
    pub fn new(spec: &Spec) -> Job {
        let mk = |n: usize, second| Arc::new((0..n).map(|i| spec.pic(i, second)).collect::<Vec<_>>());
        Job { spec: Arc::new(spec.clone()), mon: Arc::default(), pics: [mk(spec.len.0, false), mk(spec.len.1, true)] }
    }
    fn fresh(&self) -> Job {
        Job { spec: self.spec.clone(), mon: Arc::default(), pics: self.pics.clone() }
    }
    fn compare(&self) -> Res {
        let s = &self.spec;
        let d = |which: usize| Dec { spec: s.clone(), which, pos: 0, pics: self.pics[which].clone(), mon: self.mon.clone() };
        let (a, b) = (d(0), d(1));
        let (mon, fault, yields) = (self.mon.clone(), s.fault, s.yields);
        let r = call(s.m, a, b, s.limit, move |k| {
            if yields {
                vsched::step(0xCB0);
            }
            if mon.returned.load(SeqCst) {
                vsched::violation(format!("progress callback called with {k} after the comparison returned"));
            }
            if mon.ended.load(SeqCst) > 0 {
                vsched::violation(format!("progress callback called with {k} after its end marker"));
            }
            if k == usize::MAX {
                mon.ended.fetch_add(1, SeqCst);
            } else {
                let n = mon.calls.fetch_add(1, SeqCst) + 1;
                if k != n {
                    vsched::violation(format!("progress callback called with {k} instead of {n}"));
                }
                let r = mon.reads[0].load(SeqCst).min(mon.reads[1].load(SeqCst));
                if k > r {
                    vsched::violation(format!("progress callback called with {k} when {r} pairs were decoded"));
                }
            }
            if fault == Fault::Cb(k) {
                panic!("the callback fails");
            }
        });
        self.mon.returned.store(true, SeqCst);
        r
    }
    /// the whole comparison on its own pool, as the first thing in the process
    fn run(&self) -> Res {
        let s = &self.spec;
        if s.inside {
            let pool = pool(s.pool);
            vsched::settle();
            vsched::go();
            let r = pool.install(|| self.compare());
            vsched::drain();
            vsched::quiet();
            std::mem::forget(pool);
            r
        } else {
            rayon::ThreadPoolBuilder::new().num_threads(s.pool).build_global().expect("pool");
            vsched::settle();
            vsched::go();
            let r = self.compare();
            vsched::drain();
            vsched::quiet();
            r
        }
    }
}
fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}

// ------------------------------------------------------------------ expected scores
/// The score of a sequence of pairs from the scores of one-pair clips, computed sequentially: the
/// mean of linear values (PSNR, SSIM, MS-SSIM, PSNR-HVS) or of the values themselves.
fn aggregate(m: Metric, per: &[&Vec<f64>]) -> Vec<f64> {
    let n = per.len() as f64;
    (0..per[0].len())
        .map(|p| {
            let lin = |f: &dyn Fn(f64) -> f64| per.iter().map(|v| f(v[p])).sum::<f64>() / n;
            match m {
                Metric::Apsnr | Metric::Ciede | Metric::CiedeScalar => lin(&|x| x),
                _ => -10.0 * lin(&|x| 10f64.powf(-x / 10.0)).log10(),
            }
        })
        .collect()
}
/// plane scores of PSNR-HVS and the average are related by a rule of its own (see C18)
fn values(m: Metric) -> usize {
    match m {
        Metric::Ciede | Metric::CiedeScalar => 1,
        Metric::Hvs => 3,
        _ => 4,
    }
}
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs()) || a.is_nan() && b.is_nan()
}
fn same(m: Metric, got: &[f64], want: &[f64]) -> bool {
    (0..values(m)).all(|p| near(got[p], want[p]))
}
type Key = (Metric, usize, usize, Cs, usize, u32, usize);
fn key(s: &Spec, i: usize) -> Key {
    (s.m, s.w, s.h, s.cs, s.depth, s.seed, i % PERIOD)
}
/// scores of all one-pair clips that the specs need, each computed in a process of its own
pub struct Base {
    v: Vec<(Key, Vec<f64>)>,
}
impl Base {
    pub fn new(specs: &[Spec]) -> Result<Base, String> {
        let mut need: Vec<(Key, Spec)> = vec![];
        for s in specs {
            for i in 0..s.pairs().min(PERIOD) {
                let k = key(s, i);
                if !need.iter().any(|x| x.0 == k) {
                    need.push((k, s.clone()));
                }
            }
        }
        let r = isolated(need.len(), 1_000_000, &|i| {
            let (k, s) = &need[i];
            let one = Spec { len: (1, 1), limit: None, fault: Fault::None, pool: 1, inside: true, yields: false, ..s.clone() };
            let job = Job { spec: Arc::new(one), mon: Arc::default(), pics: [Arc::new(vec![s.pic(k.6, false)]), Arc::new(vec![s.pic(k.6, true)])] };
            let p = pool(1);
            let r = p.install(|| job.compare());
            std::mem::forget(p);
            r.map_err(|e| format!("{}: {}", e.0, e.1))
        });
        let mut v = vec![];
        for ((k, s), r) in need.into_iter().zip(r) {
            v.push((k, r.map_err(|e| format!("{}: {e}", s.name()))?));
        }
        Ok(Base { v })
    }
    fn want(&self, s: &Spec) -> Vec<f64> {
        let n = s.pairs();
        let first: Vec<&Vec<f64>> = (0..n.min(PERIOD)).map(|i| &self.v.iter().find(|x| x.0 == key(s, i)).expect("base").1).collect();
        let per: Vec<&Vec<f64>> = first.iter().copied().cycle().take(n).collect();
        aggregate(s.m, &per)
    }
}

// ------------------------------------------------------------------ verdicts
fn judge(id: &str, job: &Job, r: &Res, want: Option<&Vec<f64>>) -> Result<(), String> {
    let (s, m) = (&job.spec, &job.mon);
    let n = s.pairs();
    let (calls, ended) = (m.calls.load(SeqCst), m.ended.load(SeqCst));
    let completes = !s.struck();
    match id {
        "C01" | "C03" => match (r, want) {
            (Ok(v), Some(w)) => {
                if !same(s.m, v, w) {
                    return Err(format!("score {v:?} instead of {w:?}"));
                }
            }
            (Ok(v), None) => return Err(format!("score {v:?} although there is no pair to compare")),
            (Err(e), Some(_)) => return Err(format!("no score: {e:?}")),
            (Err(e), None) => {
                if e.0 == "panic" {
                    return Err(format!("panic instead of an error: {e:?}"));
                }
            }
        },
        "C04" => {
            if completes {
                return Ok(());
            }
            match r {
                Ok(v) => return Err(format!("score {v:?} although the comparison failed")),
                Err(e) => {
                    let incomparable = matches!(s.fault, Fault::Bad(_));
                    if incomparable && !matches!(e.0, "process" | "mismatch") {
                        return Err(format!("the error does not name the cause: {e:?}"));
                    }
                }
            }
        }
        "C05" => {
            if r.is_ok() || s.fault == Fault::None && n == 0 {
                if calls != n || ended != 1 {
                    return Err(format!("{calls} calls and {ended} end markers for {n} pairs"));
                }
            }
        }
        _ => {}
    }
    if id == "C03" {
        if let Some(l) = s.limit {
            let (a, b) = (m.reads[0].load(SeqCst), m.reads[1].load(SeqCst));
            if a > l || b > l {
                return Err(format!("{a} and {b} frames were asked for, the limit is {l}"));
            }
        }
    }
    if id == "C06" {
        let peak = crate::PEAK.load(SeqCst);
        if peak > 2 * (2 * s.pool as i64 + 2) {
            return Err(format!("{peak} decoded frames alive at once, {} pairs are allowed", 2 * s.pool + 2));
        }
        if crate::LIVE.load(SeqCst) > 0 && r.is_ok() {
            return Err(format!("{} decoded frames still alive after the comparison", crate::LIVE.load(SeqCst)));
        }
    }
    Ok(())
}
fn luma_bytes(s: &Spec) -> usize {
    s.w * s.h * if s.depth > 8 { 2 } else { 1 }
}

// ------------------------------------------------------------------ the runs
/// Which schedules are explored.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bound {
    All,
    /// at most that many preemptions (switches at a blocked thread are free)
    Pre(u32),
    /// at most that many departures from the round-robin schedule
    Delay(u32),
}
use Bound::*;
#[derive(Clone)]
struct Case {
    s: Spec,
    bound: Bound,
    forget: bool,
    two: Option<Two>,
}
struct Sum {
    stats: Stats,
    notes: Vec<String>,
    samples: Vec<String>,
    capped: usize,
    opaque: usize,
    cases: usize,
    traces: u64,
}
struct Rep {
    id: String,
    root: String,
    thorough: bool,
}
impl Rep {
    fn fail(&self, (phase, case): (usize, usize), name: &str, msg: &str, trace: &[u8], words: &[String]) -> ! {
        let (id, root) = (&self.id, &self.root);
        let p = format!("{root}/evidence/replay/{id}.json");
        let w: Vec<String> = words.iter().map(|s| jesc(s)).collect();
        let _ = std::fs::write(
            &p,
            format!(
                "{{\"property\":\"{id}\",\"case\":{case},\"phase\":{phase},\"name\":{},\"what\":{},\"choices\":{trace:?},\"replay\":\"VERIF_TIER={} target/{}/release/{} {id} --replay <this file>\",\"schedule\":[{}]}}\n",
                jesc(name),
                jesc(msg),
                if self.thorough { "thorough" } else { "quick" },
                env!("CARGO_PKG_NAME"),
                env!("CARGO_PKG_NAME"),
                w.join(",\n")
            ),
        );
        println!("  {name}: {msg}");
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1)
    }
}
pub fn run(id: &str, args: &[String]) {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    // the stand-ins could not be built: the real rayon and crossbeam have to do
    let alone = REAL && std::env::var_os("VERIF_ONLY_REAL").is_some();
    let total = Duration::from_secs(match (REAL && !alone, thorough) {
        (true, false) => 30,
        (true, true) => 120,
        (false, false) => 220,
        (false, true) => 680,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    let only: Option<usize> = args.first().filter(|a| *a == "--case").and_then(|_| args.get(1)).and_then(|s| s.parse().ok());
    let replay_file = args.first().filter(|a| *a == "--replay").and_then(|_| args.get(1)).cloned();
    let mut cases = cases(id, thorough);
    if cases.is_empty() {
        eprintln!("usage: sched <property> [--case n | --replay file]");
        std::process::exit(2);
    }
    let rep = Rep { id: id.to_string(), root: root.clone(), thorough };
    let fail = |case: (usize, usize), name: &str, msg: &str, trace: &[u8], words: &[String]| -> ! { rep.fail(case, name, msg, trace, words) };
    let mut sum = Sum { stats: Stats::default(), notes: vec![], samples: vec![], capped: 0, opaque: 0, cases: 0, traces: 0 };
    let toothless = calibrate(cases.iter_mut().flat_map(|c| std::iter::once(&mut c.s).chain(c.two.iter_mut().flat_map(|t| [&mut t.a, &mut t.b]))).collect());
    if toothless > 0 {
        sum.notes.push(format!("{toothless} comparisons without the panic of the metric they are meant to have: nothing makes it panic"));
    }
    let mut specs: Vec<Spec> = vec![];
    for c in cases.iter().filter(|_| matches!(id, "C01" | "C03" | "C19")) {
        let both = c.two.as_ref().map_or(vec![&c.s], |t| vec![&t.a, &t.b]);
        specs.extend(both.into_iter().filter(|s| s.fault == Fault::None).cloned());
    }
    let base = match Base::new(&specs) {
        Ok(b) => b,
        Err(e) => fail((1, 0), "one-pair clip, one worker", &e, &[], &[]),
    };
    if id == "C19" {
        histories(thorough, &mut sum, &rep);
    }
    if REAL {
        cases.iter_mut().filter(|c| c.bound != Delay(0)).for_each(|c| c.bound = Delay(if thorough || alone { 2 } else { 1 }));
        vsched::UNHASHED.store(true, SeqCst);
    }
    // first every case with few departures from one schedule, then with other base schedules, then
    // every case to its bound
    let mut runs: Vec<(u32, usize, Bound)> = vec![];
    for (ci, c) in cases.iter().enumerate() {
        runs.push((0, ci, if c.bound == Delay(0) { Delay(0) } else { Delay(1) }));
    }
    for (ci, c) in cases.iter().enumerate() {
        if c.bound != All && c.s.len.0 <= 2000 {
            // the caller, the workers, one thread each for the decoder and a second comparison
            let threads = match &c.two {
                Some(t) => 3 + 2 * t.pool as u32,
                None => 2 + c.s.pool as u32,
            };
            for base in 1..4 + 2 * threads {
                runs.push((base, ci, Delay(if (thorough || matches!(id, "C01" | "C05" | "C06")) && c.bound != Delay(0) && base < 4 && !REAL { 1 } else { 0 })));
            }
        }
    }
    for (ci, c) in cases.iter().enumerate() {
        if c.bound != Delay(0) && c.bound != Delay(1) {
            runs.push((0, ci, c.bound));
        }
    }
    for (ri, (base_schedule, ci, bound)) in runs.iter().copied().enumerate() {
        let phase = ri;
        let c = &cases[ci];
        if only.is_some_and(|o| o != ci) {
            continue;
        }
        let name = c.two.as_ref().map_or(c.s.name(), |t| t.name());
        let want = if matches!(id, "C01" | "C03") && c.s.pairs() > 0 { Some(base.want(&c.s)) } else { None };
        let job = Job::new(&c.s);
        let two = c.two.as_ref().map(|t| {
            let want = |s: &Spec| (!s.struck() && s.pairs() > 0).then(|| base.want(s));
            Jobs { t: t.clone(), a: Job::new(&t.a), b: Job::new(&t.b), want: [want(&t.a), want(&t.b)] }
        });
        let body = || -> Result<(), String> {
            if let Some(t) = &two {
                return concurrent(t);
            }
            if id == "C06" {
                crate::PLANE.store(luma_bytes(&job.spec), SeqCst);
            }
            let r = job.run();
            judge(id, &job, &r, want.as_ref())
        };
        let o = Opt {
            bound: match bound {
                All => None,
                Pre(n) | Delay(n) => Some(n),
            },
            delays: matches!(bound, Delay(_)),
            base: base_schedule,
            forget: c.forget,
            prune: !REAL,
            opaque: REAL,
            max_execs: if alone { 100_000 } else if REAL { if thorough { 5000 } else { 400 } } else if thorough { 20_000_000 } else { 2_000_000 },
            max_steps: 20_000 + 200 * c.s.len.0.max(c.s.len.1).min(VERY) as u32,
            may_hang: matches!(id, "C05" | "C06"),
            deadline: (t0 + total).min(Instant::now() + (Duration::from_secs(if thorough { 60 } else { 20 })).max(total.saturating_sub(t0.elapsed()) / 10)),
        };
        if let Some(f) = &replay_file {
            let t = std::fs::read_to_string(f).expect("replay file");
            let num = |k: &str| t.split(&format!("\"{k}\":")).nth(1).unwrap_or("").to_string();
            let case: usize = num("case").split(',').next().unwrap().parse().unwrap();
            if case != ci || num("phase").split(',').next() != Some(&phase.to_string()) {
                continue;
            }
            let ch = num("choices");
            let tr: Vec<u8> = ch[1..ch.find(']').unwrap()].split(',').filter_map(|x| x.trim().parse().ok()).collect();
            let (verdict, words) = replay(&tr, o, &body);
            for w in words {
                println!("{w}");
            }
            println!("{name}: {verdict}");
            return;
        }
        let t = Instant::now();
        let r = explore(o, &body);
        match r {
            Ok(st) => {
                if std::env::var("SCHED_VERBOSE").is_ok() {
                    println!("{ci} [{:?} base {base_schedule} {}] {name}: {} execs, {} states, depth {}{} {:.2} s", bound, c.forget, st.execs, st.states, st.depth, if st.capped { " CAPPED" } else if st.opaque { " OPAQUE" } else { "" }, t.elapsed().as_secs_f64());
                }
                if sum.samples.len() < 12 && ri % (runs.len() / 12 + 1) == 0 {
                    sum.samples.push(format!("{{\"case\":{},\"bound\":{},\"executions\":{},\"states\":{}}}", jesc(&name), jesc(&format!("{:?}", bound)), st.execs, st.states));
                }
                sum.cases += (base_schedule == 0 && bound == c.bound) as usize;
                sum.capped += st.capped as usize;
                sum.opaque += st.opaque as usize;
                sum.stats.execs += st.execs;
                sum.stats.states += st.states;
                sum.stats.transitions += st.transitions;
                sum.stats.depth = sum.stats.depth.max(st.depth);
            }
            Err(f) => {
                let (_, words) = replay(&f.trace, o, &body);
                fail((phase, ci), &format!("{name} [bound {bound:?}, base schedule {base_schedule}]"), &f.msg, &f.trace, &words)
            }
        }
        if t0.elapsed() > total {
            sum.capped += runs.len() - ri - 1;
            sum.notes.push(format!("time is up after {ri} of {} explorations", runs.len()));
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if sum.opaque > 0 {
        sum.notes.push(format!("{} cases use synchronisation outside the hashed state: explored without merging, at most 2 preemptions", sum.opaque));
    }
    let conf = format!("{root}/evidence/replay/{id}.real");
    if alone {
        sum.notes.push("the stand-ins for rayon and crossbeam could not be built with this tree: the real ones ran, switched at their futex operations, without merging of states".into());
    } else if REAL {
        let t = format!("{} {} {}", sum.stats.execs, sum.cases, sum.stats.transitions);
        std::fs::write(&conf, &t).unwrap();
        println!("{id}: real rayon and crossbeam: {} executions of {} cases, {} switches, {:.1} s", sum.stats.execs, sum.cases, sum.stats.transitions, wall);
        return;
    }
    let real: Vec<u64> = std::fs::read_to_string(&conf).unwrap_or_default().split(' ').filter_map(|x| x.parse().ok()).collect();
    if let [e, c, _] = real[..] {
        sum.notes.push(format!("the stand-ins for rayon and crossbeam against the real ones: {e} executions of {c} of the cases with the real crates, switching at their futex operations, end in the same verdicts"));
        sum.traces += e;
    }
    let many = |f: fn(&Bound) -> bool| cases.iter().filter(|c| f(&c.bound)).count();
    let most = |f: fn(&Bound) -> u32| cases.iter().map(|c| f(&c.bound)).max().unwrap_or(0);
    sum.notes.push(format!(
        "{} cases: all schedules; {} cases: at most {} preemptions; {} cases: at most {} departures from the round-robin schedule (and the schedules of the other base orders: backwards, old or new threads first, each thread first, each thread last)",
        many(|b| *b == All),
        many(|b| matches!(b, Pre(_))),
        most(|b| if let Pre(n) = b { *n } else { 0 }),
        many(|b| matches!(b, Delay(_))),
        most(|b| if let Delay(n) = b { *n } else { 0 })
    ));
    let ev = format!(
        "{{\"property\":\"{id}\",\"tier\":\"{}\",\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"executions\":{},\"traces_validated_against_impl\":{},\"cases\":{},\"longest_execution_choices\":{},\"rule\":{},\"exhaustive\":{},\"samples\":[{}],\"notes\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":0}}\n",
        if thorough { "thorough" } else { "quick" },
        sum.stats.states,
        sum.stats.transitions,
        sum.stats.execs,
        sum.traces,
        sum.cases,
        sum.stats.depth,
        jesc("every execution runs the real library on real threads under the controlled scheduler; states = distinct hashed scheduler states with more than one enabled alternative (all expanded), transitions = visible operations executed, each case = one combination of clips, pool, call site, limit and fault"),
        sum.capped == 0,
        sum.samples.join(","),
        sum.notes.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(","),
        [
            "rayon's work-stealing deques, latches and sleeping, crossbeam's channel and std's mutex behave as specified (they are replaced by controlled equivalents)",
            "code between visible operations is free of data races",
        ]
        .iter()
        .map(|s| jesc(s))
        .collect::<Vec<_>>()
        .join(",")
    );
    std::fs::write(format!("{root}/evidence/{id}.json"), ev).unwrap();
    println!("{id}: {} cases, {} executions, {} states, {} transitions, capped={}, opaque={}, {wall:.1} s", sum.cases, sum.stats.execs, sum.stats.states, sum.stats.transitions, sum.capped, sum.opaque);
}

const REAL: bool = env!("CARGO_PKG_NAME").len() == 10;
const METRICS: [Metric; 7] = [Metric::Psnr, Metric::Apsnr, Metric::Hvs, Metric::Ssim, Metric::Msssim, Metric::Ciede, Metric::CiedeScalar];
/// the pictures of very long clips repeat
const PERIOD: usize = 1021;
/// more frames than two bytes count
const VERY: usize = 66_000;
const NOLIMIT: Option<usize> = None;

/// The schedules explored for the comparison that has no synchronisation inside of the metric.
fn thin_bound(pool: usize, n: usize, thorough: bool) -> Bound {
    match (pool, n, thorough) {
        (1 | 2, ..) => All,
        (3, 0..=4, _) | (3, 5..=6, true) | (4, 0..=1, _) | (4, 2..=3, true) => All,
        (_, 0..=12, true) => Delay(3),
        (_, 13..=30, true) | (_, 0..=12, false) => Delay(2),
        (_, 31.., true) | (_, 13.., false) => Delay(1),
    }
}
fn full_bound(pool: usize, thorough: bool) -> Bound {
    match (pool, thorough) {
        (1, _) => Pre(3),
        (2, false) | (3, true) => Pre(2),
        (2, true) => Pre(3),
        _ => Delay(1 + thorough as u32),
    }
}
fn cases(id: &str, thorough: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut add = |s: Spec, bound: Bound| v.push(Case { s, bound, forget: true, two: None });
    let thin = |pool, n| thin_bound(pool, n, thorough);
    let full = |pool| full_bound(pool, thorough);
    let sites = [true, false];
    // clips that are longer than any count a byte holds
    for inside in sites {
        for pool in 1..=4 {
            let long = |a: usize, b: usize, l| Spec::thin(pool, inside, a, b, l);
            let faults = |i: usize| [Fault::Bad(i), Fault::MetricPanic(i), Fault::Dec(1, i), Fault::Dec(2, i), Fault::Cb(i + 1)];
            let mut list = vec![];
            match id {
                "C01" => list.extend([70, 130, 300, 600].map(|n| long(n, n, None))),
                "C02" => {
                    list.extend([300, 600].map(|n| long(n, n, None)));
                    list.extend([(300, 290, None), (290, 300, None), (300, 300, Some(280))].map(|(a, b, l)| long(a, b, l)));
                    for i in [3, 260, 299] {
                        list.extend(faults(i).map(|f| long(300, 300, None).fault(f)));
                    }
                }
                "C03" => {
                    for l in [255, 256, 257, 258, 299, 300, 301] {
                        list.push(long(300, 300, Some(l)));
                    }
                    list.extend([(257, 256), (256, 257), (300, 1), (1, 300), (300, 299)].map(|(a, b)| long(a, b, None)));
                }
                "C04" => {
                    for i in [0, 100, 255, 256, 299] {
                        list.extend(faults(i).map(|f| long(300, 300, None).fault(f)));
                    }
                }
                "C05" => list.extend([(130, 130, None), (300, 310, None), (300, 300, Some(270))].map(|(a, b, l)| long(a, b, l))),
                "C06" => list.extend([(100, None), (300, None), (600, None), (300, Some(290))].map(|(n, l)| Spec { cs: Cs::Cs420, ..long(n, n, l) })),
                _ => {}
            }
            for s in list {
                add(s, Delay(0));
            }
        }
    }
    // and much longer
    for n in [1030, VERY] {
        let long = |a: usize, b: usize, l| Spec::thin(2, false, a, b, l);
        let list = match id {
            "C01" => vec![long(n, n, None)],
            "C02" => vec![long(n, n, None), long(n, n, None).fault(Fault::Bad(n - 1)), long(n, n, None).fault(Fault::Dec(1, n - 1))],
            "C03" => vec![long(n, n, Some(n - 1)), long(n, n - 1, None)],
            "C04" => vec![long(n, n, None).fault(Fault::Bad(n - 1)), long(n, n, None).fault(Fault::Cb(n))],
            "C05" => vec![long(n, n + 3, None), long(n, n, Some(n - 1))],
            "C06" => vec![Spec { cs: Cs::Cs420, ..long(n, n, None) }],
            _ => vec![],
        };
        for s in list {
            add(s, Delay(0));
        }
    }
    match id {
        "C01" => {
            for inside in sites {
                for pool in 1..=4 {
                    for n in [1, 2, 3, 4, 5, 6, 7, 12, 25, 40] {
                        add(Spec::thin(pool, inside, n, n, NOLIMIT), thin(pool, n));
                    }
                }
                for pool in [5, 8] {
                    for n in [3, 9, 20] {
                        add(Spec::thin(pool, inside, n, n, NOLIMIT), Delay(1 + thorough as u32));
                    }
                }
            }
            // the parallel work inside of the metrics themselves
            for m in METRICS {
                for pool in 1..=4 {
                    for (k, (cs, depth)) in [(Cs::Cs420, 8), (Cs::Cs444, 10), (Cs::Cs422, 8)].into_iter().enumerate() {
                        let n = [2, 3, 2][k];
                        let mut s = Spec::full(m, pool, (pool + k) % 2 == 0, n, n);
                        (s.cs, s.depth) = (cs, depth);
                        s.yields = k == 0;
                        add(s, full(pool));
                    }
                }
            }
        }
        "C02" => {
            for inside in sites {
                for pool in 1..=4 {
                    let mut f = vec![];
                    for n in 1..=4 {
                        f.push((n, n, NOLIMIT, Fault::None));
                        for i in 0..n {
                            f.push((n, n, NOLIMIT, Fault::Bad(i)));
                            f.push((n, n, NOLIMIT, Fault::MetricPanic(i)));
                            f.push((n, n, NOLIMIT, Fault::Cb(i + 1)));
                        }
                        for i in 0..=n {
                            f.push((n, n, NOLIMIT, Fault::Dec(1, i)));
                            f.push((n, n, NOLIMIT, Fault::Dec(2, i)));
                        }
                        f.push((n, n, NOLIMIT, Fault::Cb(usize::MAX)));
                    }
                    for (a, b) in [(0, 0), (0, 3), (3, 0), (1, 3), (3, 1), (2, 4), (4, 2)] {
                        for l in [None, Some(0), Some(1), Some(2), Some(usize::MAX)] {
                            f.push((a, b, l, Fault::None));
                        }
                    }
                    // plenty of frames are left when the fault strikes
                    for i in 0..4 {
                        for x in [Fault::Bad(i), Fault::MetricPanic(i), Fault::Dec(1, i), Fault::Dec(2, i), Fault::Cb(i + 1)] {
                            f.push((30, 30, None, x));
                            if thorough {
                                f.push((8, 8, None, x));
                            }
                        }
                    }
                    for (a, b, l, x) in f {
                        add(Spec::thin(pool, inside, a, b, l).fault(x), if a > 4 && pool < 4 && x != Fault::None { thin(pool, 4) } else { thin(pool, a.max(b)) });
                    }
                }
            }
            for m in METRICS {
                for pool in 1..=3 {
                    for inside in sites {
                        for f in [Fault::None, Fault::MetricPanic(0), Fault::MetricPanic(1), Fault::Bad(1)] {
                            let mut s = Spec::full(m, pool, inside, 3, 3).fault(f);
                            s.depth = if inside { 8 } else { 10 };
                            add(s, full(pool));
                        }
                    }
                }
            }
        }
        "C03" => {
            for inside in sites {
                for pool in 1..=4 {
                    for a in 0..=4 {
                        for b in 0..=4 {
                            let bd = if pool < 3 || thorough { thin(pool, a.min(b)) } else { Delay(2) };
                            add(Spec::thin(pool, inside, a, b, NOLIMIT), bd);
                            for l in [0, 1, 2, 3, 4, 5, 9, usize::MAX - 1, usize::MAX] {
                                add(Spec::thin(pool, inside, a, b, Some(l)), bd);
                            }
                        }
                    }
                }
            }
            for (k, m) in METRICS.into_iter().enumerate() {
                for (a, b, l) in [(0, 0, None), (2, 3, None), (3, 2, None), (3, 3, Some(2)), (2, 2, Some(2)), (2, 2, Some(3)), (2, 2, Some(0)), (0, 1, None), (1, 0, Some(1))] {
                    let mut s = Spec::full(m, 1 + k % 3, k % 2 == 0, a, b);
                    (s.limit, s.depth) = (l, [8, 10, 12][(k + a) % 3]);
                    add(s, Delay(1));
                }
            }
            for n in [15usize, 30] {
                for l in [n - 1, n, n + 1, n / 2] {
                    for pool in 1..=4 {
                        add(Spec::thin(pool, pool % 2 == 0, n, n + 3, Some(l)), thin(pool, n));
                    }
                }
            }
        }
        "C04" => {
            for inside in sites {
                for pool in 1..=4 {
                    for n in 1..=4 {
                        let mut f = vec![];
                        for i in 0..n {
                            f.extend([Fault::Bad(i), Fault::MetricPanic(i), Fault::Dec(1, i), Fault::Dec(2, i), Fault::Cb(i + 1)]);
                        }
                        f.push(Fault::Cb(usize::MAX));
                        for x in f {
                            add(Spec::thin(pool, inside, n, n, None).fault(x), thin(pool, n));
                            add(Spec::thin(pool, inside, n, n + 1, Some(n)).fault(x), if pool < 3 || thorough { thin(pool, n) } else { Delay(2) });
                        }
                    }
                    for n in [8usize, 20] {
                        for i in [0, n / 2, n - 1] {
                            for x in [Fault::Bad(i), Fault::MetricPanic(i), Fault::Dec(1, i), Fault::Dec(2, i), Fault::Cb(i + 1)] {
                                add(Spec::thin(pool, inside, n, n, None).fault(x), thin(pool, n));
                            }
                        }
                    }
                }
            }
            for m in METRICS {
                for pool in 1..=3 {
                    for f in [Fault::MetricPanic(0), Fault::MetricPanic(2), Fault::Bad(0), Fault::Bad(2), Fault::Dec(2, 1)] {
                        let mut s = Spec::full(m, pool, pool % 2 == 1, 3, 3).fault(f);
                        s.depth = if pool == 2 { 8 } else { 10 };
                        add(s, full(pool));
                    }
                }
            }
        }
        "C05" => {
            for inside in sites {
                for pool in 1..=4 {
                    for (a, b, l) in [(0, 0, None), (1, 1, None), (2, 2, None), (3, 3, None), (4, 4, None), (1, 3, None), (3, 1, None), (3, 2, Some(1)), (3, 3, Some(3)), (4, 4, Some(2)), (2, 2, Some(0)), (0, 2, Some(1)), (2, 3, Some(9))] {
                        add(Spec::thin(pool, inside, a, b, l), thin(pool, a.min(b)));
                    }
                    for n in [10, 24] {
                        add(Spec::thin(pool, inside, n, n, None), thin(pool, n));
                    }
                    // no callback after the return of a failed comparison
                    for i in 0..3 {
                        for x in [Fault::Bad(i), Fault::MetricPanic(i), Fault::Dec(1 + i as u8 % 2, i), Fault::Cb(i + 1)] {
                            add(Spec::thin(pool, inside, 5, 5, None).fault(x), thin(pool, if pool < 4 { 4 } else { 5 }));
                        }
                    }
                }
            }
            for (k, m) in METRICS.into_iter().enumerate() {
                for pool in 1..=3 {
                    let mut s = Spec::full(m, pool, k % 2 == 0, 3, 4);
                    s.yields = true;
                    add(s, full(pool));
                }
            }
        }
        "C06" => {
            // chroma planes must not have the size that is counted
            let mut add = |mut s: Spec, b: Bound| {
                s.cs = Cs::Cs420;
                add(s, b)
            };
            for inside in sites {
                for pool in 1..=4 {
                    for n in [4usize, 8, 12, 20, 40] {
                        add(Spec::thin(pool, inside, n, n, None), thin(pool, n));
                        if n == 12 {
                            add(Spec::thin(pool, inside, n, n + 3, None), thin(pool, n));
                            add(Spec::thin(pool, inside, n, n, Some(n - 1)), thin(pool, n));
                            for x in [Fault::Bad(5), Fault::MetricPanic(5), Fault::Cb(7)] {
                                add(Spec::thin(pool, inside, n, n, None).fault(x), thin(pool, n));
                            }
                        }
                    }
                }
                for pool in [6, 8] {
                    add(Spec::thin(pool, inside, 60, 60, None), Delay(thorough as u32));
                }
            }
            for (k, m) in METRICS.into_iter().enumerate() {
                for pool in 1..=3 {
                    let mut s = Spec::full(m, pool, k % 2 == 0, 12, 12);
                    s.yields = true;
                    s.depth = [8, 10][pool % 2];
                    add(s, Delay(thorough as u32));
                }
            }
        }
        "C19" => return two_cases(thorough),
        _ => {}
    }
    // the same schedules with workers that are told apart by what they ran before
    let mut more = vec![];
    for c in v.iter() {
        if c.s.fault == Fault::None && c.s.pool == 2 && c.s.len.0 == 3 && c.s.len.1 == 3 && matches!(c.s.limit, None | Some(2)) {
            more.push(Case { forget: false, ..c.clone() });
        }
    }
    v.extend(more);
    v
}

// ------------------------------------------------------------------ C19
/// How two comparisons run at the same time.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    /// both called from outside of the pool, which they share
    Global,
    /// two threads that enter the same pool
    SamePool,
    /// two branches of one fork-join in a pool
    Join,
    /// two threads that enter a pool each
    TwoPools,
    /// one inside of a pool, one outside of it, on the global pool
    Mixed,
}
#[derive(Clone, Debug)]
struct Two {
    how: How,
    pool: usize,
    a: Spec,
    b: Spec,
}
impl Two {
    fn name(&self) -> String {
        format!("two comparisons at once ({:?}, pool {}): [{}] and [{}]", self.how, self.pool, self.a.name(), self.b.name())
    }
}
struct Jobs {
    t: Two,
    a: Job,
    b: Job,
    want: [Option<Vec<f64>>; 2],
}
fn verdict2(which: &str, j: &Job, r: &Res, want: &Option<Vec<f64>>) -> Result<(), String> {
    match (r, want) {
        (Ok(v), Some(w)) if same(j.spec.m, v, w) => Ok(()),
        (Err(_), None) => Ok(()),
        _ => Err(format!("the {which} comparison yields {r:?} instead of {want:?}")),
    }
}
fn concurrent(j: &Jobs) -> Result<(), String> {
    let n = j.t.pool;
    let mut out: [Option<Res>; 2] = [None, None];
    let (x, y) = out.split_at_mut(1);
    let (x, y) = (&mut x[0], &mut y[0]);
    let mut keep = vec![];
    match j.t.how {
        How::Global | How::Mixed => rayon::ThreadPoolBuilder::new().num_threads(n).build_global().expect("pool"),
        How::TwoPools => keep.extend([pool(n), pool(n)]),
        _ => keep.push(pool(n)),
    }
    if j.t.how == How::Mixed {
        keep.push(pool(n));
    }
    vsched::settle();
    vsched::go();
    match j.t.how {
        How::Join => keep[0].install(|| {
            rayon::join(|| *x = Some(j.a.compare()), || *y = Some(j.b.compare()));
        }),
        h => {
            let (pa, pb) = match h {
                How::Global => (None, None),
                How::SamePool => (Some(&keep[0]), Some(&keep[0])),
                How::TwoPools => (Some(&keep[0]), Some(&keep[1])),
                _ => (Some(&keep[0]), None),
            };
            let go = |p: Option<&rayon::ThreadPool>, j: &Job| match p {
                Some(p) => p.install(|| j.compare()),
                None => j.compare(),
            };
            // joined before anything borrowed ends; a scoped thread would signal its end in a way
            // that the state hash does not cover
            let t = unsafe { std::thread::Builder::new().spawn_unchecked(|| *y = Some(go(pb, &j.b))) }.expect("thread");
            *x = Some(go(pa, &j.a));
            let _ = t.join();
        }
    }
    vsched::drain();
    vsched::quiet();
    std::mem::forget(keep);
    let [x, y] = out;
    verdict2("first", &j.a, &x.expect("first"), &j.want[0])?;
    verdict2("second", &j.b, &y.expect("second"), &j.want[1])
}
fn two_cases(thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let mut add = |how, pool, a: Spec, b: Spec, bound| v.push(Case { s: a.clone(), bound, forget: true, two: Some(Two { how, pool, a, b }) });
    for how in [How::Global, How::SamePool, How::Join, How::TwoPools, How::Mixed] {
        for pool in 1..=3 {
            let t = |n1, n2, f, seed| {
                let mut s = Spec::thin(pool, false, n1, n2, None).fault(f);
                (s.yields, s.seed) = (false, seed);
                s
            };
            let deep = |d: u32| Delay(d + thorough as u32);
            let all = |ok: bool, d: u32| if ok { All } else { deep(d) };
            let p = pool;
            add(how, p, t(1, 1, Fault::None, 0), t(1, 1, Fault::None, 1), all(p < 3 || thorough && how != How::TwoPools, 4));
            add(how, p, t(2, 2, Fault::None, 0), t(1, 1, Fault::None, 1), all(p < 3, 3));
            add(how, p, t(2, 2, Fault::None, 0), t(2, 2, Fault::None, 1), all(p < 3, 3));
            add(how, p, t(3, 3, Fault::None, 0), t(3, 3, Fault::None, 1), all(p < 2 || thorough && p == 2, 3));
            add(how, p, t(5, 5, Fault::None, 0), t(4, 4, Fault::None, 1), all(p < 2, 2));
            add(how, p, t(12, 12, Fault::None, 0), t(12, 12, Fault::None, 1), deep(1));
            for f in [Fault::Bad(0), Fault::Bad(1), Fault::MetricPanic(0), Fault::MetricPanic(1), Fault::Dec(1, 1), Fault::Dec(2, 0), Fault::Cb(2)] {
                add(how, p, t(3, 3, f, 0), t(3, 3, Fault::None, 1), all(p < 2 || thorough && p == 2, 2));
                add(how, p, t(2, 2, Fault::None, 0), t(9, 9, f, 1), deep(2));
            }
            for (k, m) in METRICS.into_iter().enumerate() {
                for l in 0..METRICS.len() {
                    if !thorough && (k + 2 * l + pool) % 3 != 0 {
                        continue;
                    }
                    let mut a = Spec::full(m, pool, false, 2, 2);
                    let mut b = Spec::full(METRICS[l], pool, false, 2, 2);
                    (a.seed, b.seed) = (2, 3);
                    (a.depth, b.depth) = ([8, 10][k % 2], [10, 8, 12][(k + l) % 3]);
                    (a.cs, b.cs) = ([Cs::Cs420, Cs::Cs422][l % 2], [Cs::Cs444, Cs::Cs420][k % 2]);
                    add(how, pool, a, b, deep(1));
                }
            }
        }
    }
    v
}
/// Sequential histories: every ordered pair (triple) of comparisons from an alphabet, each history
/// in a process of its own; every comparison must yield what it yields as the first one.
fn histories(thorough: bool, sum: &mut Sum, rep: &Rep) {
    let mut abc: Vec<Spec> = vec![];
    for m in METRICS {
        for (k, (cs, depth, w, h)) in [(Cs::Cs420, 8, 35, 33), (Cs::Cs444, 10, 35, 33), (Cs::Cs422, 8, 48, 40), (Cs::Cs420, 12, 64, 36)].into_iter().enumerate() {
            let mut s = Spec::full(m, 2, true, 2, 2);
            (s.cs, s.depth, s.w, s.h, s.seed) = (cs, depth, w, h, 10 + k as u32);
            abc.push(s);
        }
    }
    let mut s = abc[0].clone();
    s.limit = Some(1);
    abc.push(s);
    let mut s = abc[4].clone();
    s.len = (1, 3);
    abc.push(s);
    for f in [Fault::Bad(1), Fault::MetricPanic(0), Fault::Dec(1, 1), Fault::Cb(2)] {
        for k in [0, 13] {
            abc.push(abc[k].clone().fault(f));
        }
    }
    // triples of these in the thorough tier
    let core = abc.len();
    // pictures that share some of their dimensions, some narrower than the filter windows
    for m in METRICS {
        let least = if m == Metric::Msssim { 32 } else { 4 };
        for (k, (w, h, cs)) in [(least, 300, Cs::Cs444), (300, 300, Cs::Cs420), (300, least, Cs::Cs422), (300, least, Cs::Cs444), (40, 300, Cs::Cs422), (150, 150, Cs::Cs444)].into_iter().enumerate() {
            if k >= 4 && !matches!(m, Metric::Ssim | Metric::Msssim) {
                continue;
            }
            let mut s = Spec::full(m, 2, true, 1, 1);
            (s.cs, s.w, s.h, s.seed) = (cs, w, h, 20 + k as u32);
            abc.push(s);
        }
    }
    let _ = calibrate(abc.iter_mut().collect());
    let n = abc.len();
    let first = isolated(n, 4_000_000, &|i| history(&[&abc[i]]));
    let first: Vec<Vec<f64>> = first
        .into_iter()
        .enumerate()
        .map(|(i, r)| r.unwrap_or_else(|e| rep.fail((1, 0), &format!("history [{}]", abc[i].name()), &e, &[], &[])))
        .collect();
    let mut hs: Vec<Vec<usize>> = vec![];
    for a in 0..n {
        for b in 0..n {
            hs.push(vec![a, b]);
            if thorough && a < core && b < core {
                for c in 0..core {
                    hs.push(vec![a, b, c]);
                }
            }
        }
    }
    let rs = isolated(hs.len(), 4_000_000, &|i| history(&hs[i].iter().map(|&x| &abc[x]).collect::<Vec<_>>()));
    for (h, r) in hs.iter().zip(rs) {
        let name = format!("history {:?}", h.iter().map(|&x| abc[x].name()).collect::<Vec<_>>());
        match r {
            Err(e) => rep.fail((1, 0), &name, &e, &[], &[]),
            Ok(v) => {
                let last = *h.last().unwrap();
                let w = &first[last];
                let got = &v[v.len() - w.len()..];
                if !got.iter().zip(w).all(|(a, b)| near(*a, *b)) {
                    rep.fail((1, 0), &name, &format!("the last comparison yields {got:?} instead of {w:?}"), &[], &[]);
                }
            }
        }
    }
    sum.traces += hs.len() as u64;
    sum.notes.push(format!("{} sequential histories of up to {} comparisons over an alphabet of {n}{}", hs.len(), 2 + thorough as usize, if thorough { format!(" (triples over the first {core})") } else { String::new() }));
}
/// five numbers per comparison: 1 and the scores, or 0
fn history(specs: &[&Spec]) -> Result<Vec<f64>, String> {
    let p = pool(2);
    let mut v = vec![];
    for s in specs {
        let r = p.install(|| Job::new(s).compare());
        match r {
            Ok(x) => {
                v.push(1.0);
                v.extend(&x);
                v.resize(v.len() + 4 - x.len(), 0.0);
            }
            Err(_) => v.extend([0.0; 5]),
        }
    }
    std::mem::forget(p);
    Ok(v)
}
