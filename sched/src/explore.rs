//! The explorer: forks one process per execution, replays a prefix of choices, and enumerates all
//! alternatives of every later choice; states already visited are not expanded again.
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};
use vsched::{Choice, End, Hooks};

const STACK: usize = 1 << 31;
const TABLE: usize = 1 << 26;
const TRACE: usize = 1 << 15;
const MSG: usize = 4096;

#[repr(C)]
struct Slot {
    kind: AtomicU32,
    n: u32,
    steps: u32,
    used_out: u32,
    out: [f64; 64],
    trace: [Choice; TRACE],
    msg_len: u32,
    msg: [u8; MSG],
    labels_n: u32,
    labels: [(u16, u64, u16); TRACE],
}
#[repr(C)]
struct Sh {
    lock: AtomicU32,
    top: usize,
    outstanding: AtomicUsize,
    stop: AtomicU32,
    execs: AtomicU64,
    pruned: AtomicU64,
    steps: AtomicU64,
    points: AtomicU64,
    visited: AtomicU64,
    depth: AtomicU64,
    salt: AtomicU64,
    wn: AtomicUsize,
    wr: [AtomicUsize; 256],
    vlen: AtomicUsize,
    vmsg: [u8; MSG],
    vn: AtomicUsize,
    vtrace: [u8; TRACE],
    slots: [Slot; 16],
}
static mut SH: *mut Sh = std::ptr::null_mut();
static mut STK: *mut u8 = std::ptr::null_mut();
static mut TAB: *const AtomicU64 = std::ptr::null();
static mut MY: usize = 0;

unsafe fn map(n: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
pub fn init() {
    unsafe {
        SH = map(std::mem::size_of::<Sh>()) as *mut Sh;
        STK = map(STACK);
        TAB = map(TABLE * 8) as *const AtomicU64;
    }
}
fn sh() -> &'static mut Sh {
    unsafe { &mut *SH }
}
fn slot() -> &'static mut Slot {
    unsafe { &mut (*SH).slots[MY] }
}
fn lock() {
    while sh().lock.swap(1, SeqCst) != 0 {
        std::hint::spin_loop();
    }
}
fn unlock() {
    sh().lock.store(0, SeqCst);
}
fn push(items: &[(&[Choice], u8)], base: &[u8]) {
    // prefix = base ++ taken choices ++ alternative
    let s = sh();
    lock();
    let mut top = s.top;
    for (mid, alt) in items {
        let n = base.len() + mid.len() + 1;
        if top + n + 4 > STACK {
            s.stop.store(4, SeqCst);
            break;
        }
        unsafe {
            let p = STK.add(top);
            std::ptr::copy_nonoverlapping(base.as_ptr(), p, base.len());
            for (i, c) in mid.iter().enumerate() {
                *p.add(base.len() + i) = c.taken;
            }
            *p.add(n - 1) = *alt;
            (p.add(n) as *mut u32).write_unaligned(n as u32);
        }
        top += n + 4;
    }
    s.top = top;
    s.outstanding.fetch_add(items.len(), SeqCst);
    unlock();
}
fn pop() -> Option<Vec<u8>> {
    let s = sh();
    lock();
    let r = if s.top == 0 {
        None
    } else {
        unsafe {
            let n = (STK.add(s.top - 4) as *const u32).read_unaligned() as usize;
            s.top -= n + 4;
            Some(std::slice::from_raw_parts(STK.add(s.top), n).to_vec())
        }
    };
    unlock();
    r
}
fn visit(h: u64) -> bool {
    let s = sh();
    let h = vsched::mix(h, s.salt.load(SeqCst)) | 1;
    let mut i = (h >> 7) as usize & (TABLE - 1);
    unsafe {
        loop {
            let c = &*TAB.add(i);
            let v = c.load(SeqCst);
            if v == h {
                return false;
            }
            if v == 0 {
                match c.compare_exchange(0, h, SeqCst, SeqCst) {
                    Ok(_) => {
                        if s.visited.fetch_add(1, SeqCst) as usize > TABLE / 2 {
                            s.stop.store(4, SeqCst);
                        }
                        return true;
                    }
                    Err(x) if x == h => return false,
                    Err(_) => {}
                }
            }
            i = (i + 1) & (TABLE - 1);
        }
    }
}
fn is_written(a: usize) -> bool {
    let s = sh();
    (0..s.wn.load(SeqCst)).any(|i| s.wr[i].load(SeqCst) == a)
}
fn written(a: usize) {
    if is_written(a) {
        return;
    }
    let s = sh();
    lock();
    if !is_written(a) {
        let n = s.wn.load(SeqCst);
        if n < s.wr.len() {
            s.wr[n].store(a, SeqCst);
            s.wn.store(n + 1, SeqCst);
        }
    }
    unlock();
    // executions so far did not treat reads of this variable as visible: start over
    finish(7, "")
}
fn finish(kind: u32, msg: &str) -> ! {
    let sl = slot();
    let t = vsched::trace();
    if t.len() > TRACE {
        sl.kind.store(4, SeqCst);
        unsafe { libc::_exit(0) };
    }
    sl.n = t.len() as u32;
    sl.trace[..t.len()].copy_from_slice(t);
    sl.steps = vsched::steps();
    let m = &msg.as_bytes()[..msg.len().min(MSG)];
    sl.msg[..m.len()].copy_from_slice(m);
    sl.msg_len = m.len() as u32;
    let l = vsched::labels();
    let n = l.len().min(TRACE);
    sl.labels_n = 0;
    if kind == 3 || unsafe { MY } == 15 {
        sl.labels_n = n as u32;
        for i in 0..n {
            sl.labels[i] = (l[i].0 as u16, l[i].1, l[i].2 as u16);
        }
    }
    sl.kind.store(kind, SeqCst);
    unsafe { libc::_exit(0) }
}
fn end(e: End) -> ! {
    match e {
        End::Pruned => finish(2, ""),
        End::Violation(m) => finish(3, &m),
        End::Broken(m) => finish(5, &m),
        End::Opaque => finish(6, ""),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub bound: Option<u32>,
    pub delays: bool,
    pub base: u32,
    pub forget: bool,
    pub prune: bool,
    pub opaque: bool,
    pub max_execs: u64,
    pub max_steps: u32,
    pub may_hang: bool,
    pub deadline: Instant,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub execs: u64,
    pub states: u64,
    pub transitions: u64,
    pub depth: u64,
    pub capped: bool,
    pub opaque: bool,
}
pub struct Found {
    pub msg: String,
    pub trace: Vec<u8>,
}
pub type Body<'a> = &'a dyn Fn() -> Result<(), String>;

/// runs one execution in a child; returns (kind, exit status)
fn execute(prefix: &[u8], o: &Opt, body: Body) -> (u32, i32) {
    let sl = slot();
    sl.kind.store(0, SeqCst);
    sl.n = 0;
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::alarm(40);
            vsched::OPAQUE_OK.store(o.opaque, SeqCst);
            vsched::PRUNE.store(o.prune, SeqCst);
            vsched::start(Hooks { prefix: prefix.to_vec(), bound: o.bound, delays: o.delays, base: o.base, forget: o.forget, visit, end, max_steps: o.max_steps, is_written, written, may_hang: o.may_hang });
            let r = body();
            match r {
                Ok(()) => finish(1, ""),
                Err(m) => finish(3, &m),
            }
        }
        if pid < 0 {
            return (5, 0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        (slot().kind.load(SeqCst), st)
    }
}
fn worker(o: &Opt, body: Body) {
    let s = sh();
    loop {
        if s.stop.load(SeqCst) != 0 {
            return;
        }
        let Some(p) = pop() else {
            if s.outstanding.load(SeqCst) == 0 {
                return;
            }
            std::thread::sleep(Duration::from_micros(30));
            continue;
        };
        let (mut kind, mut st) = execute(&p, o, body);
        // executions are deterministic: what was seen once must be seen again
        let mut tries = 0;
        while matches!(kind, 0 | 3 | 4 | 5) && tries < 3 {
            let again = execute(&p, o, body);
            let same = again.0 == kind;
            (kind, st) = again;
            if same {
                break;
            }
            eprintln!("an execution ended in different ways");
            tries += 1;
        }
        let sl = slot();
        let n = s.execs.fetch_add(1, SeqCst) + 1;
        s.steps.fetch_add(sl.steps as u64, SeqCst);
        if n >= o.max_execs || n % 64 == 0 && Instant::now() > o.deadline {
            s.stop.compare_exchange(0, 2, SeqCst, SeqCst).ok();
        }
        let tr: Vec<Choice> = sl.trace[..sl.n as usize].to_vec();
        match kind {
            1 | 2 => {
                s.pruned.fetch_add((kind == 2) as u64, SeqCst);
                s.depth.fetch_max(tr.len() as u64, SeqCst);
                if tr.len() < p.len() {
                    report(&tr, &format!("internal: replay took {} of {} choices", tr.len(), p.len()), 4);
                } else {
                    let new = &tr[p.len()..];
                    s.points.fetch_add(new.len() as u64, SeqCst);
                    let mut items = vec![];
                    for (i, c) in new.iter().enumerate() {
                        for a in 1..c.alts {
                            items.push((&new[..i], a));
                        }
                    }
                    if !items.is_empty() {
                        push(&items, &p);
                    }
                }
            }
            3 => report(&tr, &String::from_utf8_lossy(&sl.msg[..sl.msg_len as usize]), 1),
            6 => {
                s.stop.compare_exchange(0, 3, SeqCst, SeqCst).ok();
            }
            7 => {
                s.stop.compare_exchange(0, 5, SeqCst, SeqCst).ok();
            }
            5 => report(&tr, &format!("internal: {}", String::from_utf8_lossy(&sl.msg[..sl.msg_len as usize])), 4),
            4 => report(&tr, "an execution took too many choices", 1),
            _ => {
                // the child died without a report: a crash or a hang of the code under test
                let pre: Vec<Choice> = p.iter().map(|&c| Choice { taken: c, alts: 0 }).collect();
                if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
                    s.stop.compare_exchange(0, 4, SeqCst, SeqCst).ok();
                } else if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM {
                    report(&pre, "a step does not end", 1)
                } else {
                    report(&pre, &format!("the process died: wait status {st}"), 1)
                }
            }
        }
        s.outstanding.fetch_sub(1, SeqCst);
    }
}
fn report(tr: &[Choice], m: &str, stop: u32) {
    let s = sh();
    lock();
    if s.vlen.load(SeqCst) == 0 {
        let b = &m.as_bytes()[..m.len().min(MSG)];
        s.vmsg[..b.len()].copy_from_slice(b);
        s.vlen.store(b.len().max(1), SeqCst);
        let n = tr.len().min(TRACE);
        for i in 0..n {
            s.vtrace[i] = tr[i].taken;
        }
        s.vn.store(n, SeqCst);
        s.stop.store(stop, SeqCst);
    }
    unlock();
}
pub fn cpus() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}
fn pin(i: usize) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) != 0 {
            return;
        }
        let on: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(on[i % on.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
}
/// Forks `cpus()` processes running `f(i)` and waits for them.
fn fan(n: usize, f: &dyn Fn(usize)) {
    unsafe {
        let mut pids = vec![];
        for i in 0..n {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                MY = i;
                pin(i);
                f(i);
                libc::_exit(0);
            }
            pids.push(pid);
        }
        for p in pids {
            let mut st = 0;
            while libc::waitpid(p, &mut st, 0) < 0 {}
            assert!(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0, "explorer process died: {st}");
        }
    }
}
pub fn explore(o: Opt, body: Body) -> Result<Stats, Found> {
    let s = sh();
    let r = explore1(&o, body);
    if let Ok(st) = &r {
        if st.opaque && !o.opaque {
            // synchronisation that the state hash does not cover: no merging, bounded preemptions
            let b = o.bound.map_or(2, |b| b.min(2));
            let mut p = Opt { opaque: true, prune: false, bound: Some(b), ..o };
            p.max_execs = 200_000;
            p.deadline = o.deadline.min(Instant::now() + Duration::from_secs(40));
            let r = explore1(&p, body);
            return r.map(|mut st| {
                st.opaque = true;
                st
            });
        }
        let _ = s;
    }
    r
}
fn explore1(o: &Opt, body: Body) -> Result<Stats, Found> {
    let s = sh();
    s.top = 0;
    for c in [&s.execs, &s.pruned, &s.steps, &s.points, &s.depth] {
        c.store(0, SeqCst);
    }
    s.stop.store(0, SeqCst);
    s.vlen.store(0, SeqCst);
    s.outstanding.store(1, SeqCst);
    s.salt.fetch_add(1, SeqCst);
    let v0 = s.visited.load(SeqCst);
    unsafe { (STK as *mut u32).write(0) };
    s.top = 4;
    fan(cpus(), &|_| worker(o, body));
    let stop = s.stop.load(SeqCst);
    if stop == 5 {
        return explore1(o, body);
    }
    if s.vlen.load(SeqCst) > 0 {
        let msg = String::from_utf8_lossy(&s.vmsg[..s.vlen.load(SeqCst)]).to_string();
        let trace = s.vtrace[..s.vn.load(SeqCst)].to_vec();
        if msg.starts_with("internal: ") {
            if o.prune {
                // Replays may diverge if the code's behaviour depends on something that is not
                // part of an execution; nothing can be concluded from that.
                eprintln!("{msg}");
            }
            return Ok(Stats { execs: s.execs.load(SeqCst), capped: true, ..Stats::default() });
        }
        return Err(Found { msg, trace });
    }
    Ok(Stats {
        execs: s.execs.load(SeqCst),
        states: if o.prune { s.visited.load(SeqCst) - v0 } else { s.points.load(SeqCst) },
        transitions: s.steps.load(SeqCst),
        depth: s.depth.load(SeqCst),
        capped: stop == 2 || stop == 4,
        opaque: stop == 3,
    })
}
/// One execution along a recorded trace; returns its verdict and the schedule in words.
pub fn replay(trace: &[u8], o: Opt, body: Body) -> (String, Vec<String>) {
    let out = std::cell::RefCell::new((String::new(), vec![]));
    unsafe { MY = 15 };
    let p = Opt { opaque: true, prune: false, ..o };
    let (kind, st) = execute(trace, &p, body);
    let sl = slot();
    let mut b = out.borrow_mut();
    b.0 = match kind {
        1 => "no violation".into(),
        0 => format!("died, wait status {st}"),
        _ => String::from_utf8_lossy(&sl.msg[..sl.msg_len as usize]).to_string(),
    };
    for i in 0..sl.labels_n as usize {
        let l = sl.labels[i];
        b.1.push(format!("thread {} does {} (alternative {})", l.0, name(l.1), l.2));
    }
    drop(b);
    out.into_inner()
}
pub fn name(l: u64) -> String {
    match l {
        0x57A7 => "start".into(),
        0x101.. if l == vsched::mix(0x101, 0) => "join thread".into(),
        0x1111 => "inject job".into(),
        0x1112 => "broadcast".into(),
        0x1113 => "push job".into(),
        0x1114 => "pop job".into(),
        0x1115 => "wait for latch or work".into(),
        0x1116 => "find work".into(),
        0x1A70 => "set latch".into(),
        0x1A71 => "wait for latch".into(),
        0x1A72 => "count down latch".into(),
        0x5E42 => "send".into(),
        0x4EC2 => "receive".into(),
        0xD705 => "drop sender".into(),
        0xD704 => "drop receiver".into(),
        0x6A7D => "scoped thread done".into(),
        0x6A77 => "wait for scoped threads".into(),
        0xA7 => "atomic operation".into(),
        0xF07E => "futex wait".into(),
        0xF07F => "futex wake".into(),
        0xDEC0 => "decode".into(),
        0xCB0 => "progress callback".into(),
        _ => format!("{l:#x}"),
    }
}
/// Runs `f(i)` for all i in fresh controlled processes (no exploration); returns what they put out.
pub fn isolated(n: usize, steps: u32, f: &(dyn Fn(usize) -> Result<Vec<f64>, String> + Sync)) -> Vec<Result<Vec<f64>, String>> {
    struct Res {
        ok: u32,
        n: u32,
        v: [f64; 62],
        msg: [u8; 512],
        len: u32,
    }
    let res = unsafe { map(n.max(1) * std::mem::size_of::<Res>()) } as *mut Res;
    let next = unsafe { &*(map(4096) as *const AtomicUsize) };
    let o = Opt { bound: None, delays: false, base: 0, forget: true, prune: false, opaque: true, max_execs: 1, max_steps: steps, may_hang: false, deadline: Instant::now() };
    fan(cpus(), &|_| loop {
        let i = next.fetch_add(1, SeqCst);
        if i >= n {
            return;
        }
        let r = unsafe { &mut *res.add(i) };
        let rp = r as *mut Res;
        let body = move || -> Result<(), String> {
            let r = unsafe { &mut *rp };
            let v = f(i)?;
            r.n = v.len() as u32;
            r.v[..v.len()].copy_from_slice(&v);
            Ok(())
        };
        let (mut kind, mut st) = execute(&[], &o, &body);
        let mut tries = 0;
        while kind == 7 || kind != 1 && tries < 2 {
            tries += (kind != 7) as u32;
            (kind, st) = execute(&[], &o, &body);
        }
        let sl = slot();
        let msg = match kind {
            1 => {
                r.ok = 1;
                continue;
            }
            0 => format!("the process died: wait status {st}"),
            _ => String::from_utf8_lossy(&sl.msg[..sl.msg_len as usize]).to_string(),
        };
        let b = &msg.as_bytes()[..msg.len().min(512)];
        r.msg[..b.len()].copy_from_slice(b);
        r.len = b.len() as u32;
    });
    let out = (0..n)
        .map(|i| {
            let r = unsafe { &*res.add(i) };
            if r.ok == 1 {
                Ok(r.v[..r.n as usize].to_vec())
            } else {
                Err(String::from_utf8_lossy(&r.msg[..r.len as usize]).to_string())
            }
        })
        .collect();
    unsafe {
        libc::munmap(res as *mut _, n.max(1) * std::mem::size_of::<Res>());
        libc::munmap(next as *const _ as *mut _, 4096);
    }
    out
}
