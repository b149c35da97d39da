//! Controlled scheduler: every thread created under it is a real OS thread, but exactly one runs
//! at a time and the hand-over happens only at `point`s, where the next (thread, alternative) is
//! chosen by the explorer. See DESIGN.md ("the scheduler").
#![allow(static_mut_refs)]
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

mod interpose;

#[inline]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.rotate_left(23) ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x2545_F491_4F6C_DD1D;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// What the explorer supplies.
pub struct Hooks {
    /// choices to replay
    pub prefix: Vec<u8>,
    /// maximal number of preemptions, None: unbounded
    pub bound: Option<u32>,
    /// the bound counts all departures from the base schedule, not only preemptions
    pub delays: bool,
    /// the base schedule: 0 continues the running thread and goes round robin from it, 1 the same
    /// backwards, 2 and 3 prefer old and new threads, 4 + 2 t always prefers thread t, 5 + 2 t runs
    /// thread t only when no other can run
    pub base: u32,
    /// false: worker threads remember every job they ran (distinguishes more states)
    pub forget: bool,
    /// returns false if the state was visited before (the execution then ends)
    pub visit: fn(u64) -> bool,
    /// ends the process; the trace is in `trace()`
    pub end: fn(End) -> !,
    pub max_steps: u32,
    /// static variables that are written during executions
    pub is_written: fn(usize) -> bool,
    /// notes such a variable; does not return if it was not known
    pub written: fn(usize),
    /// deadlocks and livelocks are not what is looked for
    pub may_hang: bool,
}
pub enum End {
    Pruned,
    Opaque,
    Violation(String),
    Broken(String),
}
#[derive(Clone, Copy)]
pub struct Choice {
    pub taken: u8,
    pub alts: u8,
}

type Alts = *const (dyn Fn() -> u32 + 'static);
struct Th {
    futex: AtomicU32,
    pend: Option<Alts>,
    label: u64,
    yielding: bool,
    finished: bool,
    /// stack of histories: the bottom one is the thread itself, the others nested jobs
    strands: Vec<u64>,
    past: u64,
    final_hash: u64,
    background: bool,
    pthread: usize,
    loads: u32,
    /// waits for something or until this time (nanoseconds of the virtual clock)
    until: Option<u64>,
}
struct ObjS {
    id: u64,
    state: u64,
    owner: usize,
}
struct State {
    on: bool,
    quiet: bool,
    h: Hooks,
    th: Vec<Box<Th>>,
    cur: usize,
    chosen: u32,
    used: u32,
    depth: usize,
    trace: Vec<Choice>,
    labels: Vec<(usize, u64, u32)>,
    objs: Vec<Option<ObjS>>,
    free: Vec<usize>,
    steps: u32,
    last_enabled: u32,
    opaque_seen: bool,
    clock: u64,
    clock_reads: u32,
    /// how often a timeout may still strike although another thread could go on
    early: u32,
}
static mut S: Option<Box<State>> = None;
static ON: AtomicBool = AtomicBool::new(false);
pub static OPAQUE_OK: AtomicBool = AtomicBool::new(false);
/// synchronisation other than through the stand-ins is not instrumented
pub static UNHASHED: AtomicBool = AtomicBool::new(false);
pub static PRUNE: AtomicBool = AtomicBool::new(true);
/// an alternative: the timeout strikes
const STRUCK: u32 = u32::MAX;
const EARLY: u32 = 1;
thread_local!(static TID: Cell<usize> = const { Cell::new(usize::MAX) });

fn s() -> &'static mut State {
    unsafe { S.as_mut().expect("no scheduler") }
}
#[inline]
pub fn controlled() -> bool {
    ON.load(SeqCst) && TID.with(|t| t.get()) != usize::MAX
}
fn me() -> &'static mut Th {
    let s = s();
    let t = TID.with(|t| t.get());
    if t == usize::MAX {
        broken("an uncontrolled thread used a controlled primitive");
    }
    &mut s.th[t]
}
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
fn end(e: End) -> ! {
    let f = s().h.end;
    f(e)
}
pub fn broken(m: &str) -> ! {
    end(End::Broken(m.to_string()))
}
pub fn violation(m: String) -> ! {
    end(End::Violation(m))
}

// ------------------------------------------------------------------ raw futex
#[cfg(target_arch = "x86_64")]
unsafe fn raw_futex(addr: *const AtomicU32, op: usize, val: usize) {
    std::arch::asm!("syscall", inlateout("rax") 202usize => _, in("rdi") addr, in("rsi") op, in("rdx") val, in("r10") 0usize, in("r8") 0usize, in("r9") 0usize, out("rcx") _, out("r11") _, options(nostack));
}
fn wait_turn(t: &Th) {
    loop {
        for _ in 0..100 {
            if t.futex.load(SeqCst) == 1 {
                break;
            }
        }
        if t.futex.swap(0, SeqCst) == 1 {
            return;
        }
        unsafe { raw_futex(&t.futex, 128, 0) };
    }
}
fn give_turn(t: &Th) {
    t.futex.store(1, SeqCst);
    unsafe { raw_futex(&t.futex, 129, 1) };
}

// ------------------------------------------------------------------ life cycle
/// Makes the calling thread the first controlled thread.
pub fn start(h: Hooks) {
    extern "C" {
        fn mallopt(p: i32, v: i32) -> i32;
    }
    unsafe {
        // memory that was in use once stays mapped
        mallopt(-3, 1 << 30);
        mallopt(-1, i32::MAX);
        S = Some(Box::new(State {
            on: true,
            quiet: true,
            h,
            th: vec![],
            cur: 0,
            chosen: 0,
            used: 0,
            depth: 0,
            trace: Vec::with_capacity(4096),
            labels: Vec::with_capacity(4096),
            objs: Vec::with_capacity(256),
            free: Vec::with_capacity(256),
            steps: 0,
            last_enabled: 0,
            opaque_seen: false,
            clock: 1_000_000_000_000,
            clock_reads: 0,
            early: EARLY,
        }));
    }
    let t = new_thread(1);
    TID.with(|x| x.set(t));
    ON.store(true, SeqCst);
}
fn new_thread(seed: u64) -> usize {
    let s = s();
    s.th.push(Box::new(Th {
        futex: AtomicU32::new(0),
        pend: None,
        label: 0,
        yielding: false,
        finished: false,
        strands: vec![seed],
        past: 0,
        final_hash: 0,
        background: false,
        pthread: 0,
        loads: 0,
        until: None,
    }));
    s.th.len() - 1
}
/// Called by the creating thread.
pub(crate) fn create() -> usize {
    fn one() -> u32 {
        1
    }
    let t = new_thread(fresh(0x7157));
    let th = &mut s().th[t];
    th.pend = Some(&(one as fn() -> u32) as &'static dyn Fn() -> u32 as *const _);
    th.label = 0x57A7;
    t
}
pub(crate) fn handle(t: usize) -> usize {
    &*s().th[t] as *const Th as usize
}
pub(crate) fn set_pthread(t: usize, p: usize) {
    s().th[t].pthread = p;
}
pub(crate) fn by_pthread(p: usize) -> Option<usize> {
    s().th.iter().rposition(|t| t.pthread == p)
}
/// First thing a created thread does.
pub(crate) fn begin(t: usize, th: usize) {
    // the creator is still running: nothing else of the scheduler's state may be touched
    wait_turn(unsafe { &*(th as *const Th) });
    TID.with(|x| x.set(t));
    s().th[t].pend = None;
}
/// Last thing a created thread does.
pub(crate) fn finish(t: usize) {
    let s = s();
    let th = &mut s.th[t];
    th.finished = true;
    th.final_hash = mix(th.strands[0], 0xF1);
    th.strands.clear();
    TID.with(|x| x.set(usize::MAX));
    let n = pick();
    give_turn(&s.th[n]);
}
pub fn join(t: usize) {
    point(mix(0x101, 0), &move || s().th[t].finished as u32);
    observe(s().th[t].final_hash);
}
/// The calling thread is a pool worker: it does not count as unfinished business.
pub fn background(seed: u64) {
    let m = me();
    m.background = true;
    m.strands = vec![seed];
}
/// Runs all other threads until they block, without exploring.
pub fn settle() {
    let t = tid();
    point(0x5E77, &move || {
        // only if nobody else can run
        s().th.iter().enumerate().all(|(i, o)| i == t || !runnable(o)) as u32
    });
}
/// Lets leftover threads run to completion before the execution ends; workers may stay blocked.
pub fn drain() {
    let t = tid();
    point(0xD7A1, &move || s().th.iter().enumerate().all(|(i, o)| i == t || !runnable(o)) as u32);
}
/// Exploration starts here.
pub fn go() {
    s().quiet = false;
}
pub fn quiet() {
    s().quiet = true;
}
pub fn trace() -> &'static [Choice] {
    &s().trace
}
pub fn labels() -> &'static [(usize, u64, u32)] {
    &s().labels
}
pub fn steps() -> u32 {
    s().steps
}
pub fn max_steps(n: u32) {
    s().h.max_steps = n;
}

// ------------------------------------------------------------------ histories and objects
pub fn observe(v: u64) {
    if !controlled() {
        return;
    }
    let m = me();
    let l = m.strands.last_mut().unwrap();
    *l = mix(*l, v);
}
pub fn fresh(label: u64) -> u64 {
    if !controlled() {
        return label;
    }
    observe(mix(0xF7E5, label));
    strand()
}
pub fn strand() -> u64 {
    if !controlled() {
        return 0;
    }
    *me().strands.last().unwrap()
}
pub fn enter(seed: u64) {
    me().strands.push(seed);
}
pub fn leave() -> u64 {
    let forget = s().h.forget;
    let m = me();
    let h = m.strands.pop().unwrap();
    if !forget {
        m.past = mix(m.past, h);
    }
    h
}
/// Shared state that is part of the hashed state.
#[derive(Debug)]
pub struct Obj(Cell<usize>);
unsafe impl Send for Obj {}
unsafe impl Sync for Obj {}
impl Obj {
    pub const fn dead() -> Obj {
        Obj(Cell::new(usize::MAX))
    }
    pub fn new(label: u64) -> Obj {
        if !controlled() {
            return Obj::dead();
        }
        let id = fresh(label);
        let o = ObjS { id, state: 0, owner: usize::MAX };
        let s = s();
        Obj(Cell::new(if let Some(i) = s.free.pop() {
            s.objs[i] = Some(o);
            i
        } else {
            s.objs.push(Some(o));
            s.objs.len() - 1
        }))
    }
    fn get(&self) -> Option<&'static mut ObjS> {
        if self.0.get() == usize::MAX || !controlled() {
            return None;
        }
        s().objs[self.0.get()].as_mut()
    }
    pub fn set(&self, v: u64) {
        if let Some(o) = self.get() {
            o.state = v;
        }
    }
    pub fn id(&self) -> u64 {
        self.get().map_or(0, |o| o.id)
    }
    /// counts as part of the calling thread's state from now on
    pub fn own(&self, id: u64) {
        if let Some(o) = self.get() {
            o.owner = tid();
            o.id = id;
        }
    }
}
impl Drop for Obj {
    fn drop(&mut self) {
        if self.0.get() != usize::MAX && controlled() {
            s().objs[self.0.get()] = None;
            s().free.push(self.0.get());
        }
    }
}

/// Synchronisation whose state is not part of the hash: states cannot be merged.
pub fn opaque() {
    if !controlled() {
        return;
    }
    let s = s();
    if !s.quiet && !s.opaque_seen {
        s.opaque_seen = true;
        if std::env::var_os("SCHED_OPAQUE").is_some() {
            s.quiet = true;
            eprintln!("opaque operation at {}", std::backtrace::Backtrace::force_capture());
            s.quiet = false;
        }
        if !OPAQUE_OK.load(SeqCst) {
            end(End::Opaque);
        }
    }
}

// ------------------------------------------------------------------ scheduling
/// its time is up
fn late(t: &Th) -> bool {
    t.until.is_some_and(|u| u <= s().clock)
}
fn n_alts(t: &Th) -> u32 {
    match t.pend {
        Some(p) if !t.finished => {
            let n = unsafe { (*p)() };
            if n == 0 {
                late(t) as u32
            } else {
                n
            }
        }
        _ => 0,
    }
}
fn runnable(t: &Th) -> bool {
    // settling/draining threads do not count for one another
    t.label != 0x5E77 && t.label != 0xD7A1 && n_alts(t) > 0
}
fn state_hash() -> u64 {
    let s = s();
    let mut sum = 0u64;
    for (i, t) in s.th.iter().enumerate() {
        if t.finished {
            sum = sum.wrapping_add(mix(t.final_hash, 0xDEAD));
            continue;
        }
        let mut h = mix(t.label, t.past);
        if s.h.delays {
            // what the base schedule depends on
            h = mix(h, (2 * i + t.yielding as usize) as u64);
        }
        for x in &t.strands {
            h = mix(h, *x);
        }
        for o in s.objs.iter().flatten() {
            if o.owner == i {
                h = mix(h, mix(o.id, o.state));
            }
        }
        if s.h.bound.is_some() && i == s.cur {
            h = mix(h, 0xC0);
        }
        if let Some(u) = t.until {
            h = mix(h, 0x71 + u.saturating_sub(s.clock));
        }
        if t.label == 0xF07E {
            h = mix(h, interpose::waiter_hash(i));
        }
        sum = sum.wrapping_add(mix(h, 0x7A));
    }
    for o in s.objs.iter().flatten() {
        if o.owner == usize::MAX {
            sum = sum.wrapping_add(mix(mix(o.id, o.state), 0x0B));
        }
    }
    sum = sum.wrapping_add(interpose::locs_hash()).wrapping_add(mix(s.clock, s.early as u64));
    match s.h.bound {
        Some(b) => mix(sum, (b - s.used) as u64),
        None => sum,
    }
}
/// Choose who runs next; sets `cur` and `chosen`.
fn pick() -> usize {
    let s = s();
    s.steps += 1;
    if s.steps > s.h.max_steps {
        if s.h.may_hang {
            end(End::Pruned);
        }
        end(End::Violation(format!("no end after {} steps: livelock", s.steps)));
    }
    let cur = s.cur;
    // (thread, alternative)
    let mut list: Vec<(usize, u32)> = Vec::with_capacity(16);
    let n = s.th.len();
    let mut cur_on = false;
    let base = s.h.base as usize;
    let mut pass2 = false;
    for pass in 0..2 {
        pass2 = pass == 1;
        for k in 0..n {
            let i = match base {
                1 => (cur + n - k) % n,
                2 => k,
                3 => n - 1 - k,
                b if b >= 4 && (b - 4) / 2 < n => {
                    // the others round robin
                    let x = (b - 4) / 2;
                    let last = (b - 4) % 2;
                    if k == last * (n - 1) {
                        x
                    } else {
                        let k = k - (1 - last);
                        let j = if cur == x { 1 } else { 0 };
                        // the k-th of cur, cur + 1, ... that is not x
                        let i = (cur + k + j) % n;
                        let skip = cur != x && (x + n - cur) % n <= k;
                        (i + skip as usize) % n
                    }
                }
                // the running thread first, then the others round robin
                _ => (cur + k) % n,
            };
            if s.th[i].yielding != (pass == 1) {
                continue;
            }
            let a = n_alts(&s.th[i]);
            if i == cur && a > 0 && pass == 0 {
                cur_on = true;
            }
            for x in 0..a {
                list.push((i, x));
            }
        }
        if !list.is_empty() {
            break;
        }
    }
    if base == 0 || pass2 {
        for t in s.th.iter_mut() {
            t.yielding = false;
        }
    }
    if list.is_empty() {
        // nothing happens until the first timeout strikes
        let first = s.th.iter().filter(|t| !t.finished).filter_map(|t| t.until).min();
        for k in 1..=n {
            let i = (cur + k) % n;
            if first.is_some() && !s.th[i].finished && s.th[i].until == first {
                list.push((i, STRUCK));
            }
        }
    }
    if list.is_empty() {
        if s.h.may_hang {
            end(End::Pruned);
        }
        let mut m = String::from("deadlock:");
        for (i, t) in s.th.iter().enumerate() {
            if !t.finished && !t.background {
                m += &format!(" thread {i} waits ({:x});", t.label);
            }
        }
        end(End::Violation(m));
    }
    s.last_enabled = list.len() as u32;
    let mut usual = list.len();
    let c = if s.quiet {
        0
    } else {
        if let Some(b) = s.h.bound {
            if s.h.delays {
                list.truncate((b - s.used + 1) as usize);
            } else if cur_on && s.used >= b {
                list.retain(|x| x.0 == cur);
            }
        }
        // a timeout strikes while others go on
        usual = list.len();
        if s.early > 0 && s.h.bound.map_or(true, |b| s.used < b) {
            for (i, t) in s.th.iter().enumerate() {
                if t.until.is_some() && !t.finished && !list.iter().any(|x| x.0 == i) {
                    if let Some(p) = t.pend {
                        if unsafe { (*p)() } == 0 {
                            list.push((i, STRUCK));
                        }
                    }
                }
            }
        }
        if list.len() == 1 {
            0
        } else {
            if list.len() > 255 {
                broken("too many alternatives");
            }
            let k = s.depth;
            s.depth += 1;
            let c = if k < s.h.prefix.len() {
                let c = s.h.prefix[k] as usize;
                if c >= list.len() {
                    broken("replay diverged");
                }
                c
            } else {
                if PRUNE.load(SeqCst) && !s.opaque_seen && !(s.h.visit)(state_hash()) {
                    end(End::Pruned);
                }
                0
            };
            s.trace.push(Choice { taken: c as u8, alts: list.len() as u8 });
            c
        }
    };
    let (t, mut a) = list[c];
    s.clock_reads = 0;
    if late(&s.th[t]) && s.th[t].pend.is_some_and(|p| unsafe { (*p)() } == 0) {
        a = STRUCK;
    }
    if a == STRUCK {
        s.clock = s.clock.max(s.th[t].until.unwrap());
    }
    if !s.quiet {
        if s.h.bound.is_some() {
            s.used += if c >= usual {
                1
            } else if s.h.delays {
                c as u32
            } else {
                (cur_on && t != cur) as u32
            };
        }
        if c >= usual {
            s.early -= 1;
        }
        s.labels.push((t, s.th[t].label, a));
    }
    s.cur = t;
    s.chosen = a;
    t
}
/// A visible operation: enabled iff `alts() > 0`; returns which alternative was chosen.
/// `alts` may be evaluated by other threads while this one is parked.
pub fn point(label: u64, alts: &dyn Fn() -> u32) -> u32 {
    point_y(label, alts, false)
}
/// A point of a loop that serves whatever comes: passing it leaves no trace in the history.
pub fn point_loop(label: u64, alts: &dyn Fn() -> u32) -> u32 {
    if !controlled() {
        return 0;
    }
    point1(label, alts, false)
}
pub fn point_y(label: u64, alts: &dyn Fn() -> u32, yielding: bool) -> u32 {
    if !controlled() {
        return 0;
    }
    let c = point1(label, alts, yielding);
    observe(mix(label, c as u64)); // the program counter
    c
}
fn point1(label: u64, alts: &dyn Fn() -> u32, yielding: bool) -> u32 {
    let t = tid();
    let s = s();
    let m = &mut s.th[t];
    m.label = label;
    m.yielding = yielding;
    m.pend = Some(unsafe { std::mem::transmute::<*const dyn Fn() -> u32, Alts>(alts) });
    let n = pick();
    if n != t {
        // nothing of the scheduler's state may be touched between giving and getting the turn
        let mine: *const Th = &*s.th[t];
        give_turn(&s.th[n]);
        wait_turn(unsafe { &*mine });
    }
    let s = self::s();
    s.th[t].pend = None;
    s.chosen
}
/// Enabled if `ready() > 0`, or when the clock reaches `until`: then the result is None. A timeout
/// strikes when nothing else can go on, and once per execution whenever it likes.
pub fn point_until(label: u64, ready: &dyn Fn() -> u32, until: u64) -> Option<u32> {
    if !controlled() {
        return Some(0);
    }
    s().th[tid()].until = Some(until);
    // one that asks again and again without waiting lets the others go on
    let c = point1(label, ready, until <= s().clock && ready() == 0);
    s().th[tid()].until = None;
    observe(mix(label, c as u64));
    (c != STRUCK).then_some(c)
}
/// Reads the virtual clock.
pub fn now() -> u64 {
    if !controlled() {
        return 0;
    }
    let s = s();
    // whoever watches the clock sees it move
    s.clock_reads += 1;
    if s.clock_reads > 500 {
        s.clock += 1_000_000;
    }
    s.clock
}
/// Time passes.
pub fn pass(ns: u64) {
    let s = s();
    s.clock = s.clock.saturating_add(ns);
}
/// A visible operation that is always enabled.
pub fn step(label: u64) {
    point(label, &|| 1);
}
pub fn yield_step() {
    if controlled() {
        point_y(0x71E1, &|| 1, true);
    }
}

// ------------------------------------------------------------------ a latch for ported code
/// Counts down; waiters continue at zero.
pub struct Gate {
    n: Cell<usize>,
    obj: Obj,
}
unsafe impl Send for Gate {}
unsafe impl Sync for Gate {}
impl Gate {
    pub fn new(n: usize) -> Gate {
        let g = Gate { n: Cell::new(n), obj: Obj::new(0x6A7E) };
        g.obj.set(n as u64);
        g
    }
    pub fn up(&self) {
        self.n.set(self.n.get() + 1);
        self.obj.set(self.n.get() as u64);
    }
    pub fn down(&self) {
        step(0x6A7D);
        self.n.set(self.n.get() - 1);
        self.obj.set(self.n.get() as u64);
    }
    pub fn wait(&self) {
        point(0x6A77, &|| (self.n.get() == 0) as u32);
    }
}
pub type Queue<T> = VecDeque<T>;
