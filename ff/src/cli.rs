//! C24, C25: the command line tool as a state machine of configuration, inputs and write faults.
use crate::common::*;

use crate::video::{seqs, video_metric};
use crate::y4m::{stream, Scratch};
use av_metrics_decoders::y4m::new_decoder_from_file;
use av_metrics_decoders::FfmpegDecoder;
use std::collections::HashMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Tool {
    Y4m,
    Ff,
}
const TOOLS: [Tool; 2] = [Tool::Y4m, Tool::Ff];
impl Tool {
    fn path(self) -> PathBuf {
        let v = match self {
            Tool::Y4m => "VERIF_TOOL",
            Tool::Ff => "VERIF_TOOL_FF",
        };
        std::env::var(v).expect("path of the tool").into()
    }
}
const METRICS: [(&str, &str, Metric, &str); 6] = [
    // --metric, JSON key, library metric, header in the text report
    ("psnr", "psnr", Metric::Psnr, "PSNR"),
    ("apsnr", "apsnr", Metric::Apsnr, "APSNR"),
    ("psnrhvs", "psnr_hvs", Metric::Hvs, "PSNR HVS"),
    ("ssim", "ssim", Metric::Ssim, "SSIM"),
    ("msssim", "msssim", Metric::Msssim, "MSSSIM"),
    ("ciede2000", "ciede2000", Metric::Ciede, "CIEDE2000"),
];
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Fmt {
    Text,
    Json,
    Csv,
    Md,
}
const FMTS: [(Fmt, &str); 4] = [(Fmt::Text, "--export-file"), (Fmt::Json, "--export-json"), (Fmt::Csv, "--export-csv"), (Fmt::Md, "--export-markdown")];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Std {
    File,
    Pipe,
    Tty,
    Full,
    ClosedPipe,
}
#[derive(Clone, Debug)]
struct Cfg {
    tool: Tool,
    base: String,
    files: Vec<String>,
    /// where each report goes
    outs: [Option<String>; 4],
    quiet: bool,
    metric: Option<usize>,
    frames: bool,
    std: Std,
    /// file size limit
    limit: Option<u64>,
    threads: usize,
    /// order of options and operands
    order: usize,
    env: Option<(&'static str, &'static str)>,
}
impl Cfg {
    fn new(tool: Tool, base: &str, files: &[&str]) -> Cfg {
        Cfg { tool, base: base.into(), files: files.iter().map(|s| s.to_string()).collect(), outs: [const { None }; 4], quiet: false, metric: None, frames: false, std: Std::File, limit: None, threads: 2, order: 0, env: None }
    }
    fn all_outs(mut self) -> Cfg {
        self.outs = ["o.txt", "o.json", "o.csv", "o.md"].map(|s| Some(s.to_string()));
        self
    }
    fn args(&self) -> Vec<String> {
        let mut o = vec![];
        for (i, p) in self.outs.iter().enumerate() {
            if let Some(p) = p {
                if self.order == 2 {
                    o.insert(0, format!("{}={p}", FMTS[i].1));
                } else {
                    o.push(FMTS[i].1.to_string());
                    o.push(p.clone());
                }
            }
        }
        if self.quiet {
            o.push("--quiet".into());
        }
        if self.frames {
            o.push("--frames".into());
        }
        if let Some(m) = self.metric {
            o.push("--metric".into());
            o.push(METRICS[m].0.into());
        }
        let mut ops = vec![self.base.clone()];
        ops.extend(self.files.iter().cloned());
        match self.order {
            0 => [ops, o].concat(),
            1 => [o, vec!["--".into()], ops].concat(),
            _ => [vec![ops[0].clone()], o, vec!["--".into()], ops[1..].to_vec()].concat(),
        }
    }
    fn show(&self) -> String {
        let extra = format!(
            "{:?}{}{}{}",
            self.std,
            self.limit.map_or(String::new(), |l| format!(" file size limit {l}")),
            if self.threads != 2 { format!(" threads {}", self.threads) } else { String::new() },
            self.env.map_or(String::new(), |e| format!(" {}={}", e.0, e.1))
        );
        let mut a = self.args();
        if a.len() > 24 {
            let n = a.len();
            a.truncate(24);
            a.push(format!("... {n} arguments"));
        }
        format!("{:?} build, stdout {extra}: av-metrics-tool {}", self.tool, a.join(" "))
    }
}
struct Ran {
    /// None: killed by a signal or did not finish
    code: Option<i32>,
    hung: bool,
    out: Vec<u8>,
    err: Vec<u8>,
    files: [Option<Vec<u8>>; 4],
}
impl Ran {
    fn loud(&self) -> bool {
        self.code != Some(0) || self.err.iter().any(|b| !b.is_ascii_whitespace())
    }
}
fn run(dir: &Path, c: &Cfg) -> Ran {
    let mut r = run_once(dir, c, 30);
    if r.hung {
        r = run_once(dir, c, 90);
    }
    r
}
fn run_once(dir: &Path, c: &Cfg, secs: u64) -> Ran {
    let mut cmd = Command::new(c.tool.path());
    cmd.args(c.args()).current_dir(dir).stdin(Stdio::null()).stderr(Stdio::piped());
    cmd.env_clear().env("PATH", "/usr/bin:/bin").env("TERM", "xterm").env("LANG", "C.UTF-8").env("RAYON_NUM_THREADS", c.threads.to_string());
    if let Some((k, v)) = c.env {
        cmd.env(k, v);
    }
    let outp = dir.join("stdout");
    let mut reader = None;
    let mut keep = None;
    match c.std {
        Std::File => {
            cmd.stdout(std::fs::File::create(&outp).unwrap());
        }
        Std::Full => {
            cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        Std::Pipe => {
            cmd.stdout(Stdio::piped());
        }
        Std::ClosedPipe => {
            let mut p = [0; 2];
            unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) };
            unsafe { libc::close(p[0]) };
            cmd.stdout(unsafe { Stdio::from_raw_fd(p[1]) });
        }
        Std::Tty => {
            let (mut m, mut s) = (0, 0);
            let mut ws = libc::winsize { ws_row: 50, ws_col: 250, ws_xpixel: 0, ws_ypixel: 0 };
            let rc = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), &mut ws) };
            assert_eq!(rc, 0, "openpty");
            unsafe {
                libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
                libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
                cmd.stdout(Stdio::from_raw_fd(libc::dup(s)));
                keep = Some(std::fs::File::from_raw_fd(s));
            }
            let mut f = unsafe { std::fs::File::from_raw_fd(m) };
            reader = Some(std::thread::spawn(move || {
                let mut v = vec![];
                let mut b = [0; 4096];
                while let Ok(n) = f.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    v.extend_from_slice(&b[..n]);
                }
                v
            }));
        }
    }
    let limit = c.limit;
    unsafe {
        cmd.pre_exec(move || {
            libc::setpgid(0, 0);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            if let Some(n) = limit {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            Ok(())
        });
    }
    let mut ch = cmd.spawn().expect("start the tool");
    drop(cmd);
    let drain = |p: Option<Box<dyn Read + Send>>| {
        p.map(|mut p| {
            std::thread::spawn(move || {
                let mut v = vec![];
                let _ = p.read_to_end(&mut v);
                v
            })
        })
    };
    let e = drain(ch.stderr.take().map(|x| Box::new(x) as _));
    let o = drain(ch.stdout.take().map(|x| Box::new(x) as _));
    let t0 = Instant::now();
    let mut nap = 200;
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() {
            break Some(s);
        }
        if t0.elapsed().as_secs() > secs {
            unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(2000);
    };
    drop(keep);
    let out = match (o, reader) {
        (Some(t), _) | (_, Some(t)) => t.join().unwrap(),
        _ if c.std == Std::File => std::fs::read(&outp).unwrap_or_default(),
        _ => vec![],
    };
    let err = e.map(|t| t.join().unwrap()).unwrap_or_default();
    let files = c.outs.clone().map(|p| {
        let p = dir.join(p?);
        std::fs::symlink_metadata(&p).ok().filter(|m| m.is_file())?;
        std::fs::read(p).ok()
    });
    Ran { code: st.and_then(|s| s.code()), hung: st.is_none(), out, err, files }
}

// ------------------------------------------------------------------ the oracle: the library itself
type Key = (Tool, PathBuf, PathBuf, usize);
fn lib(tool: Tool, dir: &Path, a: &str, b: &str, m: usize) -> Out {
    static MEMO: OnceLock<Mutex<HashMap<Key, Out>>> = OnceLock::new();
    let memo = MEMO.get_or_init(Default::default);
    let key = (tool, dir.join(a), dir.join(b), m);
    if let Some(o) = memo.lock().unwrap().get(&key) {
        return o.clone();
    }
    let o = lib_now(tool, &key.1, &key.2, m);
    memo.lock().unwrap().insert(key, o.clone());
    o
}
fn lib_now(tool: Tool, a: &Path, b: &Path, m: usize) -> Out {
    let m = METRICS[m].2;
    let r = guard(|| match tool {
        Tool::Y4m => match (new_decoder_from_file(a), new_decoder_from_file(b)) {
            (Ok(mut a), Ok(mut b)) => video_metric(m, &mut a, &mut b, None),
            (a, b) => Out::Err(format!("open: {:?} {:?}", a.err(), b.err())),
        },
        Tool::Ff => match (FfmpegDecoder::new(a), FfmpegDecoder::new(b)) {
            (Ok(mut a), Ok(mut b)) => video_metric(m, &mut a, &mut b, None),
            (a, b) => Out::Err(format!("open: {:?} {:?}", a.err(), b.err())),
        },
    });
    r.unwrap_or_else(Out::Panic)
}
/// expected scores of every compared file: None where the metric is not requested or has no score
type Want = Vec<(String, [Option<Out>; 6])>;
fn want(dir: &Path, c: &Cfg) -> Want {
    c.files
        .iter()
        .map(|f| {
            let mut v = [const { None }; 6];
            for m in 0..6 {
                if c.metric.is_none() || c.metric == Some(m) {
                    v[m] = Some(lib(c.tool, dir, &c.base, f, m));
                }
            }
            (f.clone(), v)
        })
        .collect()
}
fn failing(w: &Want) -> bool {
    w.iter().any(|f| f.1.iter().flatten().any(|o| o.score().is_none()))
}

// ------------------------------------------------------------------ readers of the reports
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            if it.peek() == Some(&'[') {
                it.next();
                for d in it.by_ref() {
                    if d.is_ascii_alphabetic() {
                        break;
                    }
                }
            }
        } else if c != '\r' {
            o.push(c);
        }
    }
    o
}
/// frames are summed up in the order in which the workers took them, so the last bits of a score vary
/// from run to run, and decibels magnify that for nearly equal clips
fn close(a: f64, b: f64, tol: f64) -> bool {
    let p = |x: f64| 10f64.powf(-x / 10.0);
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol || (p(a) - p(b)).abs() <= 1e-14
}
/// average per file and metric, as a report shows it
type Shown = Vec<(usize, usize, f64)>;
/// all reports of one run show the same numbers; the text reports have four decimals
fn agree(l: &[(&str, bool, Shown)]) -> Result<(), String> {
    for a in l {
        for b in l {
            for (x, y) in a.2.iter().zip(&b.2) {
                let tol = if a.1 == b.1 { 0.0 } else { 0.5001e-4 };
                // JSON has no infinities
                let skip = x.2.is_nan() || y.2.is_nan();
                if (x.0, x.1) != (y.0, y.1) || !(skip || x.2 == y.2 || (x.2 - y.2).abs() <= tol) {
                    return Err(format!("{} shows {x:?}, {} shows {y:?}", a.0, b.0));
                }
            }
        }
    }
    Ok(())
}
fn check_text(b: &[u8], base: &str, w: &Want) -> Result<Shown, String> {
    let mut shown = vec![];
    let t = strip(&String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?);
    if !t.contains(base) {
        return Err("the base file is not named".into());
    }
    // entries start with a line that names the file
    let mut entries: Vec<(String, Vec<String>)> = vec![];
    for l in t.lines() {
        let l = l.trim();
        if let Some(n) = l.strip_prefix("Results for ") {
            entries.push((n.trim_end().strip_suffix(':').unwrap_or(n).to_string(), vec![]));
        } else if l.contains('→') && METRICS.iter().any(|m| l.starts_with(m.3)) {
            match entries.last_mut() {
                Some(e) => e.1.push(l.to_string()),
                None => return Err(format!("a score before the first entry: {l}")),
            }
        }
    }
    if entries.len() != w.len() {
        return Err(format!("{} entries for {} compared files", entries.len(), w.len()));
    }
    for (fi, ((n, lines), (f, ms))) in entries.iter().zip(w).enumerate() {
        if n != f {
            return Err(format!("entry {n:?} where {f:?} is due"));
        }
        let mut seen = [false; 6];
        for l in lines {
            let (h, rest) = l.split_once('→').unwrap();
            let Some(m) = METRICS.iter().position(|m| m.3 == h.trim()) else {
                return Err(format!("unknown metric in {l:?}"));
            };
            if std::mem::replace(&mut seen[m], true) {
                return Err(format!("metric twice: {l:?}"));
            }
            let Some(s) = ms[m].as_ref().and_then(|o| o.score()) else {
                return Err(format!("{f}: a score that was not due: {l:?}"));
            };
            let toks: Vec<&str> = rest.split_whitespace().collect();
            let num = |k: &str| {
                let i = toks.iter().position(|t| *t == k || t.ends_with(k))?;
                toks.get(i + 1).map(|s| s.to_string())
            };
            let keys: &[&str] = if s.planar { &["Y:", "U/Cb:", "V/Cr:", "value:"] } else { &["Delta:"] };
            for (k, v) in keys.iter().zip(s.vals()) {
                match num(k) {
                    Some(x) if (x.split('.').nth(1).is_some_and(|d| d.len() >= 4) || !v.is_finite()) && x.parse::<f64>().is_ok_and(|x| close(x, *v, 0.501e-4)) => {
                        if *k == *keys.last().unwrap() {
                            shown.push((fi, m, x.parse().unwrap()));
                        }
                    }
                    x => return Err(format!("{f} {} {k} shows {x:?}, the library computes {v}", METRICS[m].0)),
                }
            }
        }
        for m in 0..6 {
            if ms[m].as_ref().is_some_and(|o| o.score().is_some()) && !seen[m] {
                return Err(format!("{f}: no {} entry", METRICS[m].0));
            }
        }
    }
    shown.sort_by_key(|s| (s.0, s.1));
    Ok(shown)
}
fn check_json(b: &[u8], base: &str, w: &Want) -> Result<Shown, String> {
    let mut shown = vec![];
    let j: serde_json::Value = serde_json::from_slice(b).map_err(|e| format!("not JSON: {e}"))?;
    if j["base"] != *base {
        return Err(format!("base is {}", j["base"]));
    }
    let e = j["comparisons"].as_array().ok_or("no comparisons")?;
    if e.len() != w.len() {
        return Err(format!("{} entries for {} compared files", e.len(), w.len()));
    }
    let same = |x: &serde_json::Value, v: f64| if v.is_finite() { x.as_f64().is_some_and(|x| close(x, v, 1e-7)) } else { x.is_null() };
    for (fi, (e, (f, ms))) in e.iter().zip(w).enumerate() {
        if e["filename"] != **f {
            return Err(format!("entry {} where {f:?} is due", e["filename"]));
        }
        for m in 0..6 {
            let x = &e[METRICS[m].1];
            match ms[m].as_ref().and_then(|o| o.score()) {
                None if x.is_null() => {}
                None => return Err(format!("{f} {}: {x} not due", METRICS[m].0)),
                Some(s) if s.planar => {
                    for (k, v) in ["y", "u", "v", "avg"].iter().zip(s.v) {
                        if !same(&x[k], v) {
                            return Err(format!("{f} {} {k}: {} where the library computes {v}", METRICS[m].0, x[k]));
                        }
                        if x.get(k).is_none() {
                            return Err(format!("{f} {} {k}: missing", METRICS[m].0));
                        }
                    }
                    shown.push((fi, m, x["avg"].as_f64().unwrap_or(f64::NAN)));
                }
                Some(s) => {
                    if !same(x, s.v[3]) || e.get(METRICS[m].1).is_none() {
                        return Err(format!("{f} {}: {x} where the library computes {}", METRICS[m].0, s.v[3]));
                    }
                    shown.push((fi, m, x.as_f64().unwrap_or(f64::NAN)));
                }
            }
        }
    }
    Ok(shown)
}
/// RFC 4180
fn csv_rows(t: &str) -> Result<Vec<Vec<String>>, String> {
    let (mut rows, mut row, mut cell) = (vec![], vec![], String::new());
    let mut it = t.chars().peekable();
    let (mut quoted, mut start) = (false, true);
    while let Some(c) = it.next() {
        if quoted {
            if c == '"' {
                if it.peek() == Some(&'"') {
                    it.next();
                    cell.push('"');
                } else {
                    quoted = false;
                }
            } else {
                cell.push(c);
            }
            continue;
        }
        match c {
            '"' if start => quoted = true,
            ',' => row.push(std::mem::take(&mut cell)),
            '\r' if it.peek() == Some(&'\n') => continue,
            '\n' => {
                row.push(std::mem::take(&mut cell));
                rows.push(std::mem::take(&mut row));
            }
            c => cell.push(c),
        }
        start = c == ',' || c == '\n';
        if quoted {
            start = false;
        }
    }
    if quoted || !row.is_empty() || !cell.is_empty() {
        return Err("the last line is not terminated".into());
    }
    Ok(rows)
}
/// backslash escapes of CommonMark
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match it.peek() {
            Some(d) if c == '\\' && d.is_ascii_punctuation() => o.push(it.next().unwrap()),
            _ => o.push(c),
        }
    }
    o
}
fn check_rows(rows: &[Vec<String>], w: &Want) -> Result<Shown, String> {
    let mut shown = vec![];
    let head = ["filename", "psnr", "apsnr", "psnr_hvs", "ssim", "msssim", "ciede2000"];
    let Some(h) = rows.first() else { return Err("empty".into()) };
    // columns are found by their header
    let col: Vec<usize> = head.iter().map(|n| h.iter().position(|c| c.trim() == *n).ok_or(format!("no column {n} in {h:?}"))).collect::<Result<_, _>>()?;
    if rows.len() != w.len() + 1 {
        return Err(format!("{} rows for {} compared files", rows.len() - 1, w.len()));
    }
    for (fi, (r, (f, ms))) in rows[1..].iter().zip(w).enumerate() {
        if r.len() != h.len() {
            return Err(format!("{} columns in {r:?}", r.len()));
        }
        if r[col[0]] != *f && unescape(&r[col[0]]) != *f {
            return Err(format!("entry {:?} where {f:?} is due", r[col[0]]));
        }
        for m in 0..6 {
            let x = r[col[m + 1]].trim();
            match ms[m].as_ref().and_then(|o| o.score()) {
                // the tool writes -0 where there is no score
                None if x.is_empty() || x.parse::<f64>().is_ok_and(|v| v == 0.0) => {}
                None => return Err(format!("{f} {}: {x} not due", METRICS[m].0)),
                Some(s) => {
                    let v = s.v[3];
                    let ok = x.parse::<f64>().is_ok_and(|x| close(x, v, 1e-7));
                    if !ok {
                        return Err(format!("{f} {}: {x} where the library computes {v}", METRICS[m].0));
                    }
                    shown.push((fi, m, x.parse().unwrap()));
                }
            }
        }
    }
    Ok(shown)
}
fn check_md(b: &[u8], w: &Want) -> Result<Shown, String> {
    let t = String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?;
    if !t.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    let mut rows = vec![];
    for (i, l) in t.lines().enumerate() {
        let inner = l.trim().strip_prefix('|').and_then(|l| l.strip_suffix('|')).ok_or(format!("not a table row: {l:?}"))?;
        // as GFM reads a table row: \| is a bar, any other bar separates cells
        let mut cells = vec![String::new()];
        let mut it = inner.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\\' if it.peek() == Some(&'|') => cells.last_mut().unwrap().push(it.next().unwrap()),
                '|' => cells.push(String::new()),
                c => cells.last_mut().unwrap().push(c),
            }
        }
        if i == 1 {
            if cells.iter().any(|c| c.trim().chars().any(|c| c != '-' && c != ':')) {
                return Err(format!("not a table: {l:?}"));
            }
            continue;
        }
        rows.push(cells);
    }
    check_rows(&rows, w)
}
fn check_report(f: Fmt, b: &[u8], base: &str, w: &Want) -> Result<Shown, String> {
    match f {
        Fmt::Text => check_text(b, base, w),
        Fmt::Json => check_json(b, base, w),
        Fmt::Csv => check_rows(&csv_rows(&String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?)?, w),
        Fmt::Md => check_md(b, w),
    }
}
/// the run must have succeeded with every report right
fn check_run(c: &Cfg, r: &Ran, w: &Want) -> Result<(), String> {
    let err = || String::from_utf8_lossy(&r.err).chars().take(300).collect::<String>();
    if r.hung {
        return Err("the tool did not finish".into());
    }
    if r.code != Some(0) {
        return Err(format!("exit status {:?}: {}", r.code, err()));
    }
    let mut all = vec![];
    for i in 0..4 {
        if c.outs[i].is_some() {
            let Some(b) = &r.files[i] else { return Err(format!("{} was not written", FMTS[i].1)) };
            let s = check_report(FMTS[i].0, b, &c.base, w).map_err(|e| format!("{}: {e}", FMTS[i].1))?;
            all.push((FMTS[i].1, i == 0, s));
        }
    }
    if c.quiet {
        if !r.out.is_empty() && c.std != Std::Tty {
            return Err(format!("{} bytes on standard output despite --quiet", r.out.len()));
        }
        if c.std == Std::Tty && strip(&String::from_utf8_lossy(&r.out)).contains("Results") {
            return Err("a report on the terminal despite --quiet".into());
        }
    } else {
        let s = check_text(&r.out, &c.base, w).map_err(|e| format!("standard output: {e}"))?;
        all.push(("standard output", true, s));
    }
    agree(&all)
}

// ------------------------------------------------------------------ inputs
fn header(w: usize, h: usize, space: &str) -> String {
    format!("YUV4MPEG2 W{w} H{h} F25:1 Ip A1:1 C{space}\n")
}
#[derive(Clone, Copy)]
struct Group {
    name: &'static str,
    space: &'static str,
    cs: Cs,
    depth: usize,
    w: usize,
    h: usize,
}
const GROUPS: [Group; 3] = [
    Group { name: "a", space: "420jpeg", cs: Cs::Cs420, depth: 8, w: 16, h: 16 },
    Group { name: "b", space: "444p10", cs: Cs::Cs444, depth: 10, w: 18, h: 10 },
    Group { name: "c", space: "mono", cs: Cs::Cs400, depth: 8, w: 12, h: 17 },
];
fn clip(g: &Group, kind: usize, n: usize) -> Vec<u8> {
    let pics: Vec<Pic> = (0..n)
        .map(|i| {
            let base = Pat::Noise(i as u32 + 1).pic(g.w, g.h, g.cs, g.depth);
            let mut p = base.clone();
            match kind {
                0 => {}
                1 => p.p[0].d[i] ^= 3,
                2 => {
                    for k in 0..3 {
                        for (j, v) in p.p[k].d.iter_mut().enumerate() {
                            *v ^= ((j + k) % 8) as u16;
                        }
                    }
                }
                _ => p = Pat::Noise(99 + i as u32).pic(g.w, g.h, g.cs, g.depth),
            }
            p
        })
        .collect();
    stream(&header(g.w, g.h, g.space), "FRAME\n", &pics)
}
const NAMES: [&str; 4] = ["same.y4m", "one.y4m", "low.y4m", "far.y4m"];
fn make_group(dir: &Path, g: &Group) {
    let d = dir.join(g.name);
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join("base.y4m"), clip(g, 0, 3)).unwrap();
    for (k, n) in NAMES.iter().enumerate() {
        std::fs::write(d.join(n), clip(g, k, if k == 2 { 2 } else { 3 })).unwrap();
    }
}
/// a private working directory for every worker that sees the common inputs as ../<group>
struct Dirs {
    s: Scratch,
}
impl Dirs {
    fn new(id: &str) -> Dirs {
        let s = Scratch::new(id);
        for g in &GROUPS {
            make_group(&s.0, g);
        }
        for w in 0..64 {
            let _ = std::fs::create_dir_all(s.0.join(format!("w{w}")));
        }
        Dirs { s }
    }
    fn w(&self, ctx: &Ctx) -> PathBuf {
        self.s.0.join(format!("w{}", ctx.id))
    }
}
fn clear(dir: &Path) {
    if let Ok(l) = std::fs::read_dir(dir) {
        for e in l.flatten() {
            let p = e.path();
            let _ = if e.file_type().is_ok_and(|t| t.is_dir()) { std::fs::remove_dir_all(p) } else { std::fs::remove_file(p) };
        }
    }
}
fn key(c: &Cfg, r: &Ran) -> u64 {
    let mut v = vec![c.tool as u64, c.quiet as u64, c.metric.map_or(9, |m| m as u64), c.files.len() as u64, c.limit.unwrap_or(0), c.std as u64, c.frames as u64, c.order as u64, c.threads as u64];
    v.extend(c.outs.iter().map(|o| o.is_some() as u64));
    for f in &c.files {
        v.extend(f.bytes().map(|b| b as u64));
    }
    for f in r.files.iter().flatten() {
        v.push(f.len() as u64);
        v.extend(f.iter().take(4000).map(|b| *b as u64));
    }
    h64(&v) | 1
}
fn judge(ctx: &mut Ctx, dir: &Path, c: &Cfg) {
    let r = run(dir, c);
    let w = want(dir, c);
    ctx.count(key(c, &r));
    ctx.sample(|| format!("{{\"case\":{},\"outcome\":{}}}", jesc(&c.show()), jesc(&String::from_utf8_lossy(&r.out).chars().take(200).collect::<String>())));
    if let Err(e) = check_run(c, &r, &w) {
        viol(ctx, &e, &c.show());
    }
}
fn subset(k: usize, mut c: Cfg) -> Cfg {
    for i in 0..4 {
        c.outs[i] = (k >> i & 1 == 1).then(|| ["o.txt", "o.json", "o.csv", "o.md"][i].to_string());
    }
    c.quiet = k >> 4 & 1 == 1;
    c
}

// ------------------------------------------------------------------ C24
pub fn c24(r: &Run) {
    let d = Dirs::new("c24");
    let mut cases: Vec<Cfg> = vec![];
    let t = r.thorough;
    // all output subsets x metric x lists of files
    for tool in TOOLS {
        for (gi, g) in GROUPS.iter().enumerate() {
            let (nf, maxlen) = match (gi, t) {
                (0, false) => (3, 2),
                (0, true) => (3, 3),
                (_, false) => (2, 1),
                (_, true) => (3, 2),
            };
            for len in 1..=maxlen {
                for l in seqs(nf, len) {
                    for m in 0..7 {
                        for k in 0..32 {
                            let files: Vec<String> = l.iter().map(|i| format!("../{}/{}", g.name, NAMES[*i])).collect();
                            let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
                            let mut c = subset(k, Cfg::new(tool, &format!("../{}/base.y4m", g.name), &files));
                            c.metric = (m < 6).then_some(m);
                            cases.push(c);
                        }
                    }
                }
            }
        }
    }
    // where standard output goes, --frames, colours, order of the arguments, threads
    for tool in TOOLS {
        for std in [Std::Pipe, Std::Tty] {
            for frames in [false, true] {
                for k in [0, 15, 16, 31] {
                    for m in 0..7 {
                        for l in [vec![0], vec![2], vec![1, 3], vec![3, 0, 2]] {
                            let files: Vec<String> = l.iter().map(|i| format!("../a/{}", NAMES[*i])).collect();
                            let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
                            let mut c = subset(k, Cfg::new(tool, "../a/base.y4m", &files));
                            c.metric = (m < 6).then_some(m);
                            c.frames = frames;
                            c.std = std;
                            cases.push(c);
                        }
                    }
                }
            }
        }
        for order in 0..3 {
            for env in [None, Some(("CLICOLOR_FORCE", "1")), Some(("NO_COLOR", "1")), Some(("LANG", "C"))] {
                for k in 0..32 {
                    for m in [0, 6] {
                        let mut c = subset(k, Cfg::new(tool, "../a/base.y4m", &["../a/one.y4m", "../a/far.y4m"]));
                        c.metric = (m < 6).then_some(m);
                        c.order = order;
                        c.env = env;
                        cases.push(c);
                    }
                }
            }
        }
        for threads in 1..=6 {
            for g in &GROUPS {
                for m in 0..7 {
                    let (b, f) = (format!("../{}/base.y4m", g.name), format!("../{}/low.y4m", g.name));
                    let mut c = Cfg::new(tool, &b, &[&f]).all_outs();
                    c.threads = threads;
                    c.metric = (m < 6).then_some(m);
                    cases.push(c);
                }
            }
        }
    }
    // the ffmpeg decoder does not take monochrome clips
    cases.retain(|c| c.tool == Tool::Y4m || !c.base.starts_with("../c/"));
    r.par(&cases, None, |ctx, c| {
        let dir = d.w(ctx);
        clear(&dir);
        judge(ctx, &dir, c);
    });
    // a file that cannot be compared among others: if the tool succeeds, the other entries are right
    bad_inputs(&d.s.0.join("a"));
    let mut mixed: Vec<Cfg> = vec![];
    for tool in TOOLS {
        for b in ["size", "depth", "sub", "header", "cut1"] {
            for len in 1..=3 {
                for at in 0..len {
                    for m in 0..7 {
                        for k in [15, 31, 0] {
                            let files: Vec<String> = (0..len).map(|i| format!("../a/{}", if i == at { format!("{b}.y4m") } else { NAMES[1 + i].to_string() })).collect();
                            let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
                            let mut c = subset(k, Cfg::new(tool, "../a/base.y4m", &files));
                            c.metric = (m < 6).then_some(m);
                            if t || tool == Tool::Y4m || len < 3 {
                                mixed.push(c);
                            }
                        }
                    }
                }
            }
        }
    }
    r.par(&mixed, None, |ctx, c| {
        let dir = d.w(ctx);
        clear(&dir);
        let (r, w) = (run(&dir, c), want(&dir, c));
        ctx.count(key(c, &r));
        if r.hung || r.code == Some(0) {
            if let Err(e) = check_run(c, &r, &w) {
                viol(ctx, &e, &c.show());
            }
        }
    });
    // the terminal and the counting of frames change nothing about such lists
    let mut shown: Vec<Cfg> = vec![];
    for tool in TOOLS {
        for b in ["size", "depth", "sub", "header", "cut1", "cut2", "mono", "p14"] {
            for len in 1..=2 {
                for at in 0..=len {
                    for m in [0, 5, 6] {
                        for (std, frames, quiet) in [(Std::Tty, false, false), (Std::Tty, true, false), (Std::Tty, true, true), (Std::Pipe, true, false)] {
                            let name = |i: usize| format!("../a/{}", if i == at { format!("{b}.y4m") } else { NAMES[1 + i].to_string() });
                            let files: Vec<String> = (0..len).map(name).collect();
                            let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
                            let base = if at == len { format!("../a/{b}.y4m") } else { "../a/base.y4m".into() };
                            let mut c = Cfg::new(tool, &base, &files).all_outs();
                            c.metric = (m < 6).then_some(m);
                            (c.std, c.frames, c.quiet) = (std, frames, quiet);
                            shown.push(c);
                        }
                    }
                }
            }
        }
    }
    r.par(&shown, None, |ctx, c| {
        let dir = d.w(ctx);
        clear(&dir);
        let plain = run(&dir, &Cfg { std: Std::File, frames: false, quiet: false, ..c.clone() });
        clear(&dir);
        let r = run(&dir, c);
        ctx.count(key(c, &r));
        if r.hung || r.code != plain.code {
            viol(ctx, &format!("exit status {:?} instead of {:?}: {}", r.code, plain.code, String::from_utf8_lossy(&r.err).chars().take(200).collect::<String>()), &c.show());
        } else if r.code == Some(0) {
            if let Err(e) = check_run(c, &r, &want(&dir, c)) {
                viol(ctx, &e, &c.show());
            }
        }
    });
    // existing longer or shorter files where the reports go
    let olds: Vec<(Tool, usize, usize)> = TOOLS.iter().flat_map(|t| (0..4).flat_map(move |f| [0, 1, 5000].map(|n| (*t, f, n)))).collect();
    r.par(&olds, None, |ctx, (tool, f, n)| {
        let dir = d.w(ctx);
        clear(&dir);
        let c = subset(1 << f, Cfg::new(*tool, "../a/base.y4m", &["../a/one.y4m"]));
        std::fs::write(dir.join(c.outs[*f].as_ref().unwrap()), "x".repeat(*n)).unwrap();
        judge(ctx, &dir, &c);
    });
    // names
    let names = ["x,y.y4m", "q\"q.y4m", "\"q\".y4m", "p|p.y4m", "s p.y4m", " lead.y4m", "üé→.y4m", "b\\s.y4m", "b\\|p.y4m", "'a'.y4m", "#h;.y4m", "{}.y4m", "%s%d.y4m", "<b>.y4m", "`t`.y4m", "*s_s*.y4m", "a:b.y4m", "t\tt.y4m", ",", "\"", "|", ":", "Results for a.y4m", "--.y4m"];
    let nm: Vec<(Tool, usize, bool)> = TOOLS.iter().flat_map(|t| (0..names.len()).flat_map(move |i| [false, true].map(|b| (*t, i, b)))).collect();
    r.par(&nm, None, |ctx, (tool, i, as_base)| {
        let dir = d.w(ctx);
        clear(&dir);
        let n = names[*i];
        let _ = std::fs::copy(d.s.0.join(if *as_base { "a/base.y4m" } else { "a/one.y4m" }), dir.join(n));
        let n = if n.contains(':') { format!("./{n}") } else { n.to_string() };
        let mut c = if *as_base { Cfg::new(*tool, &n, &["../a/one.y4m"]) } else { Cfg::new(*tool, "../a/base.y4m", &["../a/far.y4m", &n]) }.all_outs();
        c.metric = Some(0);
        c.order = 1;
        judge(ctx, &dir, &c);
    });
    // the same name in different places, the same file more than once and by different names, the
    // base among the compared files: every list
    let alias = ["u/base.y4m", "v/base.y4m", "../a/base.y4m", "./u/base.y4m", "u/../v/base.y4m", "v/base", "l.y4m"];
    let lists: Vec<Vec<usize>> = (1..=if t { 4 } else { 3 }).flat_map(|n| seqs(alias.len(), n)).collect();
    let al: Vec<(Tool, usize, usize)> = (0..lists.len()).flat_map(|i| TOOLS.iter().flat_map(move |t| [0, 6].map(|m| (*t, i, m)))).filter(|c| c.2 == 0 || lists[c.1].len() < 3).collect();
    r.par(&al, None, |ctx, (tool, i, m)| {
        let dir = d.w(ctx);
        clear(&dir);
        for s in ["u", "v"] {
            let _ = std::fs::create_dir_all(dir.join(s));
        }
        for (from, to) in [("one", "u/base.y4m"), ("far", "v/base.y4m"), ("low", "v/base")] {
            let _ = std::fs::copy(d.s.0.join(format!("a/{from}.y4m")), dir.join(to));
        }
        let _ = std::os::unix::fs::symlink("u/base.y4m", dir.join("l.y4m"));
        let files: Vec<&str> = lists[*i].iter().map(|k| alias[*k]).collect();
        let mut c = Cfg::new(*tool, "../a/base.y4m", &files).all_outs();
        c.metric = (*m < 6).then_some(*m);
        judge(ctx, &dir, &c);
    });
    // reports around the size of the output buffers: every number of files
    let top = if t { 120 } else { 60 };
    let nn: Vec<(Tool, usize, usize)> = (1..=top).flat_map(|n| TOOLS.iter().flat_map(move |t| [0, 5].map(|m| (*t, n, m)))).collect();
    r.par(&nn, None, |ctx, (tool, n, m)| {
        let dir = d.w(ctx);
        clear(&dir);
        let stem = "n".repeat(150);
        let files: Vec<String> = (0..*n).map(|i| format!("{stem}{}", NAMES[i % 4])).collect();
        for k in 0..4 {
            let _ = std::os::unix::fs::symlink(d.s.0.join("a").join(NAMES[k]), dir.join(format!("{stem}{}", NAMES[k])));
        }
        let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
        let mut c = Cfg::new(*tool, "../a/base.y4m", &files).all_outs();
        c.metric = Some(*m);
        c.std = [Std::File, Std::Pipe][n % 2];
        judge(ctx, &dir, &c);
    });
}

// ------------------------------------------------------------------ C25
/// inputs that cannot be used, or not with the base clip
fn bad_inputs(dir: &Path) -> Vec<&'static str> {
    let g = &GROUPS[0];
    let ok = clip(g, 1, 3);
    let put = |n: &str, b: &[u8]| std::fs::write(dir.join(n), b).unwrap();
    put("empty.y4m", b"");
    put("garbage.y4m", &(0..4000u32).map(|i| (i * 7919 >> 3) as u8).collect::<Vec<_>>());
    put("header.y4m", header(g.w, g.h, g.space).as_bytes());
    put("cuthead.y4m", &ok[..20]);
    put("cut1.y4m", &ok[..header(g.w, g.h, g.space).len() + 100]);
    put("cut2.y4m", &ok[..ok.len() - 5]);
    put("nolf.y4m", &ok[..ok.len() - 400]);
    put("size.y4m", &clip(&Group { w: 18, name: "", ..GROUPS[0] }, 0, 3));
    put("sub.y4m", &clip(&Group { cs: Cs::Cs444, space: "444", name: "", ..GROUPS[0] }, 0, 3));
    put("depth.y4m", &clip(&Group { depth: 10, space: "420p10", name: "", ..GROUPS[0] }, 0, 3));
    put("mono.y4m", &clip(&Group { cs: Cs::Cs400, space: "mono", name: "", ..GROUPS[0] }, 0, 3));
    put("p14.y4m", &clip(&Group { depth: 10, space: "420p14", name: "", ..GROUPS[0] }, 0, 3));
    put("badcs.y4m", &clip(&Group { space: "999", name: "", ..GROUPS[0] }, 0, 3));
    put("marker.y4m", &stream(&header(g.w, g.h, g.space), "FRUME\n", &[Pat::Noise(1).pic(g.w, g.h, g.cs, g.depth)]));
    put("secret.y4m", &ok);
    let _ = std::os::unix::fs::symlink("nowhere", dir.join("dangling.y4m"));
    let _ = std::os::unix::fs::symlink("loop.y4m", dir.join("loop.y4m"));
    let _ = std::fs::create_dir(dir.join("dir.y4m"));
    vec![
        "missing.y4m", "empty.y4m", "garbage.y4m", "header.y4m", "cuthead.y4m", "cut1.y4m", "cut2.y4m", "nolf.y4m", "size.y4m", "sub.y4m", "depth.y4m", "mono.y4m", "p14.y4m", "badcs.y4m", "marker.y4m", "dangling.y4m", "loop.y4m", "dir.y4m",
        "secret.y4m/x", "/proc/self/mem", "/dev/null",
    ]
}
/// all of the report, including the end of its last line (the last bits of the scores may differ)
fn complete(f: Fmt, base: &str, w: &Want, clean: Option<&[u8]>, got: Option<&[u8]>) -> bool {
    match (clean, got) {
        (Some(c), Some(g)) => c == g || (check_report(f, g, base, w).is_ok() && g.ends_with(b"\n") == c.ends_with(b"\n")),
        _ => false,
    }
}
/// no failure without a sign of it
fn silent(ctx: &mut Ctx, dir: &Path, c: &Cfg, clean: Option<&Ran>) {
    let r = run(dir, c);
    ctx.count(key(c, &r));
    ctx.sample(|| format!("{{\"case\":{},\"outcome\":{}}}", jesc(&c.show()), jesc(&format!("exit {:?}, stderr {:?}", r.code, String::from_utf8_lossy(&r.err).chars().take(120).collect::<String>()))));
    if r.hung {
        return viol(ctx, "the tool did not finish", &c.show());
    }
    if r.loud() {
        return;
    }
    // exit status 0 and nothing on standard error: everything must have been done
    let w = want(dir, c);
    if failing(&w) {
        let f = w.iter().find_map(|f| f.1.iter().flatten().find(|o| o.score().is_none()).map(|o| format!("{}: {o:?}", f.0))).unwrap();
        return viol(ctx, &format!("exit status 0 without a diagnostic although a comparison failed ({f})"), &c.show());
    }
    if let Some(n) = clean {
        for i in 0..4 {
            if c.outs[i].is_some() && !complete(FMTS[i].0, &c.base, &w, n.files[i].as_deref(), r.files[i].as_deref()) {
                return viol(ctx, &format!("exit status 0 without a diagnostic although the report {} is incomplete", FMTS[i].1), &c.show());
            }
        }
        if c.std == Std::File && !c.quiet && !complete(Fmt::Text, &c.base, &w, Some(&n.out), Some(&r.out)) {
            return viol(ctx, "exit status 0 without a diagnostic although standard output is incomplete", &c.show());
        }
        if matches!(c.std, Std::Full | Std::ClosedPipe) && !c.quiet {
            return viol(ctx, "exit status 0 without a diagnostic although nothing could be written to standard output", &c.show());
        }
    } else {
        let mut c2 = c.clone();
        for o in &mut c2.outs {
            if o.as_ref().is_some_and(|o| !o.starts_with("o.")) {
                return viol(ctx, &format!("exit status 0 without a diagnostic although {} cannot be written", o.as_ref().unwrap()), &c.show());
            }
        }
        if let Err(e) = check_run(&c2, &r, &w) {
            viol(ctx, &format!("exit status 0 without a diagnostic, but {e}"), &c.show());
        }
    }
}
pub fn c25(r: &Run) {
    let t = r.thorough;
    let d = Dirs::new("c25");
    let bad = bad_inputs(&d.s.0.join("a"));
    let at = |n: &str| if n.starts_with('/') { n.to_string() } else { format!("../a/{n}") };
    // unusable inputs at every position
    let mut cases: Vec<Cfg> = vec![];
    for tool in TOOLS {
        for b in &bad {
            for pos in 0..4 {
                // 0: the base; 1..=3: position in the list
                for len in 1..=if t { 3 } else { 2 } {
                    if pos > len {
                        continue;
                    }
                    for m in 0..7 {
                        for k in [0, 15, 16, 31, 2] {
                            for second in 0..if t && len > 1 && pos > 0 { bad.len() } else { 1 } {
                                if second > 0 && (m != 0 || k != 31) || (!t && tool == Tool::Ff && !matches!(m, 0 | 6)) {
                                    continue;
                                }
                                let mut files: Vec<String> = (0..len).map(|i| format!("../a/{}", NAMES[1 + i % 3])).collect();
                                let mut base = "../a/base.y4m".to_string();
                                if pos == 0 {
                                    base = at(b);
                                } else {
                                    files[pos - 1] = at(b);
                                    if second > 0 {
                                        files[pos % len] = at(bad[second]);
                                    }
                                }
                                let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
                                let mut c = subset(k, Cfg::new(tool, &base, &files));
                                c.metric = (m < 6).then_some(m);
                                cases.push(c);
                            }
                        }
                    }
                }
            }
        }
        // on a terminal, counting frames first
        for b in &bad {
            for frames in [false, true] {
                for base in [false, true] {
                    for quiet in [false, true] {
                        let mut c = if base { Cfg::new(tool, &at(b), &["../a/one.y4m"]) } else { Cfg::new(tool, "../a/base.y4m", &[&at(b)]) };
                        c.metric = Some(0);
                        c.frames = frames;
                        c.std = Std::Tty;
                        c.quiet = quiet;
                        cases.push(c);
                    }
                }
            }
        }
    }
    // unusable outputs: every report x every kind x the other reports
    for tool in TOOLS {
        for f in 0..4 {
            for o in ["nodir/o.x", "../a", "/dev/full", "../a/secret.y4m/x", "", "../a/loop.y4m", "/proc/version"] {
                for k in 0..32 {
                    let mut c = subset(k, Cfg::new(tool, "../a/base.y4m", &["../a/one.y4m"]));
                    c.metric = Some(0);
                    c.outs[f] = Some(o.to_string());
                    cases.push(c);
                }
            }
        }
    }
    r.par(&cases, None, |ctx, c| {
        let dir = d.w(ctx);
        clear(&dir);
        silent(ctx, &dir, c, None);
    });
    // writes that fail after every number of bytes
    let n_files = if t { vec![1, 2, 3] } else { vec![1, 2] };
    let mut jobs: Vec<(Cfg, Arc<Ran>)> = vec![];
    let dir0 = d.s.0.join("w63");
    for tool in TOOLS {
        for &n in n_files.iter().filter(|n| t || tool == Tool::Y4m || **n == 1) {
            for f in 0..5 {
                for m in if t { vec![0, 5, 6] } else { vec![6] } {
                    let files: Vec<String> = (0..n).map(|i| format!("../a/{}", NAMES[1 + i % 3])).collect();
                    let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
                    let mut c = subset(if f < 4 { 16 | 1 << f } else { 0 }, Cfg::new(tool, "../a/base.y4m", &files));
                    c.metric = (m < 6).then_some(m);
                    clear(&dir0);
                    let clean = Arc::new(run(&dir0, &c));
                    let len = if f < 4 { clean.files[f].as_ref().map_or(0, |b| b.len()) } else { clean.out.len() };
                    for l in 0..=len {
                        let mut c = c.clone();
                        c.limit = Some(l as u64);
                        jobs.push((c, clean.clone()));
                    }
                }
            }
        }
        // several reports at once, standard output among them
        let c = Cfg::new(tool, "../a/base.y4m", &["../a/one.y4m"]).all_outs();
        clear(&dir0);
        let clean = Arc::new(run(&dir0, &c));
        let len = clean.files.iter().flatten().map(|b| b.len()).max().unwrap_or(0).max(clean.out.len());
        for l in 0..=len {
            let mut c = c.clone();
            c.limit = Some(l as u64);
            jobs.push((c, clean.clone()));
        }
        // nothing can be written to standard output
        for k in 0..32 {
            for m in 0..7 {
                for std in [Std::Full, Std::ClosedPipe] {
                    let mut c = subset(k, Cfg::new(tool, "../a/base.y4m", &["../a/one.y4m"]));
                    c.metric = (m < 6).then_some(m);
                    let mut c0 = c.clone();
                    c0.std = Std::File;
                    c.std = std;
                    if k < 16 || m == 0 {
                        clear(&dir0);
                        jobs.push((c, Arc::new(run(&dir0, &c0))));
                    }
                }
            }
        }
        // reports larger than the output buffers
        let stem = "n".repeat(200);
        let files: Vec<String> = (0..60).map(|i| format!("../a/{stem}{}", NAMES[i % 4])).collect();
        for k in 0..4 {
            let _ = std::os::unix::fs::symlink(NAMES[k], d.s.0.join("a").join(format!("{stem}{}", NAMES[k])));
        }
        let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
        for f in 0..5 {
            let mut c = subset(if f < 4 { 16 | 1 << f } else { 0 }, Cfg::new(tool, "../a/base.y4m", &files));
            c.metric = Some(0);
            clear(&dir0);
            let clean = Arc::new(run(&dir0, &c));
            let len = if f < 4 { clean.files[f].as_ref().map_or(0, |b| b.len()) } else { clean.out.len() };
            for l in 0..=len {
                let buf = l % 4096 <= 2 || l % 4096 >= 4094;
                if buf || l + 300 > len || l % if t { 16 } else { 256 } == 0 {
                    let mut c = c.clone();
                    c.limit = Some(l as u64);
                    jobs.push((c, clean.clone()));
                }
            }
        }
    }
    r.par(&jobs, None, |ctx, (c, clean)| {
        let dir = d.w(ctx);
        clear(&dir);
        silent(ctx, &dir, c, Some(clean));
    });
    // inputs cut at every byte
    let mini = Group { name: "", w: 4, h: 2, ..GROUPS[0] };
    let (a, b) = (clip(&mini, 0, 2), clip(&mini, 2, 2));
    std::fs::write(d.s.0.join("a/minib.y4m"), &a).unwrap();
    std::fs::write(d.s.0.join("a/mini.y4m"), &b).unwrap();
    let mut cuts: Vec<(Tool, usize, bool, usize)> = vec![];
    for tool in TOOLS {
        for n in 0..a.len() {
            for base in [false, true] {
                for m in if t { 0..7 } else { 0..1 } {
                    cuts.push((tool, n, base, m));
                }
            }
        }
    }
    r.par(&cuts, None, |ctx, (tool, n, base, m)| {
        let dir = d.w(ctx);
        clear(&dir);
        let name = format!("cut{n}.y4m");
        std::fs::write(dir.join(&name), &(if *base { &a } else { &b })[..*n]).unwrap();
        let mut c = if *base { Cfg::new(*tool, &name, &["../a/mini.y4m"]) } else { Cfg::new(*tool, "../a/minib.y4m", &[&name]) }.all_outs();
        c.metric = (*m < 6).then_some(*m);
        silent(ctx, &dir, &c, None);
    });
}
fn viol(ctx: &mut Ctx, what: &str, case: &str) {
    ctx.violation(format!("{{\"what\":{},\"case\":{}}}", jesc(what), jesc(case)));
}
