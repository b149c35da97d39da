//! The C entry points through which std and libraries block or create threads.
use super::*;
use std::ffi::c_void;
use std::sync::atomic::AtomicUsize;

extern "C" {
    fn dlsym(h: *mut c_void, n: *const u8) -> *mut c_void;
    fn __errno_location() -> *mut i32;
    fn pthread_key_create(k: *mut u32, d: extern "C" fn(*mut c_void)) -> i32;
    fn pthread_setspecific(k: u32, v: *const c_void) -> i32;
}
fn real(slot: &AtomicUsize, name: &[u8]) -> usize {
    let p = slot.load(SeqCst);
    if p != 0 {
        return p;
    }
    let p = unsafe { dlsym(-1isize as *mut c_void, name.as_ptr()) } as usize;
    slot.store(p, SeqCst);
    p
}
static R_CREATE: AtomicUsize = AtomicUsize::new(0);
static R_JOIN: AtomicUsize = AtomicUsize::new(0);
static R_DETACH: AtomicUsize = AtomicUsize::new(0);
static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);

extern "C" fn at_exit(v: *mut c_void) {
    let t = v as usize - 1;
    finish(t);
}
struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    t: usize,
    th: usize,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    begin(st.t, st.th);
    unsafe { pthread_setspecific(KEY.load(SeqCst) as u32, (st.t + 1) as *const c_void) };
    (st.f)(st.arg)
}
/// # Safety
/// as pthread_create
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut usize, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> i32 {
    type F = unsafe extern "C" fn(*mut usize, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32;
    let r: F = std::mem::transmute(real(&R_CREATE, b"pthread_create\0"));
    if !controlled() {
        return r(th, attr, f, arg);
    }
    if KEY.load(SeqCst) == usize::MAX {
        let mut k = 0;
        pthread_key_create(&mut k, at_exit);
        KEY.store(k as usize, SeqCst);
    }
    let t = create();
    let st = Box::into_raw(Box::new(Start { f, arg, t, th: handle(t) }));
    let rc = r(th, attr, tramp, st as *mut c_void);
    if rc != 0 {
        broken("pthread_create failed");
    }
    set_pthread(t, *th);
    0
}
/// # Safety
/// as pthread_join; the stack of a finished thread stays mapped
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, ret: *mut *mut c_void) -> i32 {
    type F = unsafe extern "C" fn(usize, *mut *mut c_void) -> i32;
    let r: F = std::mem::transmute(real(&R_JOIN, b"pthread_join\0"));
    if controlled() {
        if let Some(t) = by_pthread(th) {
            join(t);
            if !ret.is_null() {
                *ret = std::ptr::null_mut();
            }
            return 0;
        }
    }
    r(th, ret)
}
/// # Safety
/// as pthread_detach
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: usize) -> i32 {
    type F = unsafe extern "C" fn(usize) -> i32;
    let r: F = std::mem::transmute(real(&R_DETACH, b"pthread_detach\0"));
    if controlled() && by_pthread(th).is_some() {
        return 0;
    }
    r(th)
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if controlled() {
        yield_step();
    }
    0
}

// ------------------------------------------------------------------ memory used for synchronisation
/// Every address used by an atomic operation of an instrumented crate or by a futex; its content
/// is part of the state.
struct Loc {
    addr: usize,
    bytes: u8,
    id: u64,
}
static mut LOCS: Vec<Loc> = Vec::new();
unsafe fn content(l: &Loc) -> u64 {
    match l.bytes {
        1 => *(l.addr as *const u8) as u64,
        2 => *(l.addr as *const u16) as u64,
        4 => *(l.addr as *const u32) as u64,
        _ => *(l.addr as *const u64),
    }
}
fn loc(addr: usize, bytes: u8) -> u64 {
    unsafe {
        if let Some(l) = LOCS.iter().find(|l| l.addr == addr) {
            return l.id;
        }
        // a static address names itself; others are named by what first used them
        let id = if is_static(addr) { mix(addr as u64, 0x57) } else { mix(strand(), 0x4EA) };
        LOCS.push(Loc { addr, bytes, id });
        id
    }
}
pub(crate) fn locs_hash() -> u64 {
    unsafe { LOCS.iter().fold(0u64, |s, l| s.wrapping_add(mix(l.id, content(l)))) }
}
extern "C" {
    static __executable_start: u8;
    static _end: u8;
}
fn is_static(a: usize) -> bool {
    unsafe { a >= &raw const __executable_start as usize && a < &raw const _end as usize }
}

struct Waiter {
    addr: usize,
    woken: bool,
    thread: usize,
    loc: u64,
}
static mut WAITERS: Vec<Waiter> = Vec::new();
pub(crate) fn waiter_hash(t: usize) -> u64 {
    unsafe { WAITERS.iter().find(|w| w.thread == t).map_or(0, |w| mix(w.loc, w.woken as u64 + 1)) }
}

unsafe fn futex(addr: *const AtomicU32, op: usize, val: u32, until: Option<u64>) -> isize {
    if UNHASHED.load(SeqCst) {
        opaque();
    }
    let id = loc(addr as usize, 4);
    match op & 0x7f {
        0 | 9 => {
            step(mix(0xF07D, id));
            if (*addr).load(SeqCst) != val {
                observe(0);
                *__errno_location() = 11;
                return -1;
            }
            let t = tid();
            WAITERS.push(Waiter { addr: addr as usize, woken: false, thread: t, loc: id });
            let woken = move || WAITERS.iter().find(|w| w.thread == t).unwrap().woken as u32;
            match until {
                Some(u) => {
                    point_until(0xF07E, &woken, u);
                }
                None => {
                    point(0xF07E, &woken);
                }
            }
            let i = WAITERS.iter().position(|w| w.thread == t).unwrap();
            let w = WAITERS.remove(i);
            observe(w.woken as u64);
            if !w.woken {
                *__errno_location() = 110;
                return -1;
            }
            0
        }
        1 | 10 => {
            let a = addr as usize;
            let sleeping = move || WAITERS.iter().filter(|w| w.addr == a && !w.woken).count().max(1) as u32;
            // any one of the sleepers may be the one that wakes
            let c = point(mix(0xF07F, id), &|| if val == 1 { sleeping() } else { 1 });
            let mut k = 0;
            let mut n = 0;
            for w in WAITERS.iter_mut() {
                if w.addr == a && !w.woken {
                    if val != 1 && n < val as isize || val == 1 && k == c {
                        w.woken = true;
                        n += 1;
                    }
                    k += 1;
                }
            }
            observe(n as u64);
            n
        }
        _ => broken("unknown futex operation"),
    }
}
/// # Safety
/// as syscall
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 202 && controlled() {
        let until = (d != 0 && matches!(b & 0x7f, 0 | 9)).then(|| {
            let ns = nanoseconds(d as *const i64);
            match b & 0x17f {
                0 => s().clock.saturating_add(ns),
                9 => ns,
                _ => ns.saturating_sub(WALL),
            }
        });
        return futex(a as *const AtomicU32, b, c as u32, until);
    }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// the wall clock starts at this time
const WALL: u64 = 1_600_000_000_000_000_000;
unsafe fn nanoseconds(t: *const i64) -> u64 {
    (*t as u64).saturating_mul(1_000_000_000).saturating_add(*t.add(1) as u64)
}
/// # Safety
/// as clock_gettime
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut i64) -> i32 {
    if controlled() {
        let n = now() + if clock == 0 { WALL } else { 0 };
        *t = (n / 1_000_000_000) as i64;
        *t.add(1) = (n % 1_000_000_000) as i64;
        return 0;
    }
    syscall(228, clock as usize, t as usize, 0, 0, 0, 0) as i32
}
// sleeping lets the others go on
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const i64, _: *mut c_void) -> i32 {
    if controlled() {
        yield_step();
        pass(nanoseconds(t));
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_: i32, absolute: i32, t: *const i64, _: *mut c_void) -> i32 {
    if controlled() {
        yield_step();
        let ns = nanoseconds(t);
        pass(if absolute & 1 != 0 { ns.saturating_sub(s().clock) } else { ns });
    }
    0
}

// ------------------------------------------------------------------ atomics of instrumented crates
macro_rules! atomics {
    ($($b:literal $t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cs:ident $cw:ident $cv:ident;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, _o: i32) -> $t { if !atomic(p as usize, $b, true) { return (*(p as *const $a)).load(SeqCst); } seen((*(p as *const $a)).load(SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _o: i32) { atomic(p as usize, $b, false); (*(p as *const $a)).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).swap(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).fetch_add(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).fetch_sub(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).fetch_and(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).fetch_or(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).fetch_xor(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _o: i32) -> $t { atomic(p as usize, $b, false); seen((*(p as *const $a)).fetch_nand(v, SeqCst) as u64) as $t }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *mut $t, e: *mut $t, v: $t, _o: i32, _f: i32) -> i32 { atomic(p as usize, $b, false); match (*(p as *const $a)).compare_exchange(*e, v, SeqCst, SeqCst) { Ok(x) => { seen(x as u64); 1 } Err(x) => { seen(x as u64); *e = x; 0 } } }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *mut $t, e: *mut $t, v: $t, o: i32, f: i32) -> i32 { $cs(p, e, v, o, f) }
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *mut $t, e: $t, v: $t, _o: i32, _f: i32) -> $t { atomic(p as usize, $b, false); match (*(p as *const $a)).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) | Err(x) => seen(x as u64) as $t } }
    )*};
}
use std::sync::atomic::{AtomicU16, AtomicU64, AtomicU8};
atomics! {
    1 u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    2 u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    4 u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    8 u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
fn seen(v: u64) -> u64 {
    observe(v);
    v
}
/// The scheduling point of an atomic operation; false: none is needed.
fn atomic(addr: usize, bytes: u8, load: bool) -> bool {
    if !controlled() {
        return false;
    }
    if is_static(addr) {
        // a variable that nobody writes while comparisons run is a constant
        if load && !(s().h.is_written)(addr) {
            return false;
        }
        if !load {
            (s().h.written)(addr);
        }
    }
    let id = loc(addr, bytes);
    let m = me();
    // a thread that does nothing but read is spinning: let the others go on
    m.loads = if load { m.loads + 1 } else { 0 };
    point_y(mix(0xA7, id), &|| 1, m.loads > 40);
    true
}
