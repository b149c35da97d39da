use std::marker::PhantomData;
use std::ops::Deref;
use std::cell::Cell;
use std::sync::Arc;

use crate::registry::{Registry, WorkerThread};

/// We define various kinds of latches, which are all a primitive signaling
/// mechanism. A latch starts as false. Eventually someone calls `set()` and
/// it becomes true. You can test if it has been set by calling `probe()`.
///
/// Some kinds of latches, but not all, support a `wait()` operation
/// that will wait until the latch is set, blocking efficiently. That
/// is not part of the trait since it is not possibly to do with all
/// latches.
///
/// The intention is that `set()` is called once, but `probe()` may be
/// called any number of times. Once `probe()` returns true, the memory
/// effects that occurred before `set()` become visible.
///
/// It'd probably be better to refactor the API into two paired types,
/// but that's a bit of work, and this is not a public API.
///
/// ## Memory ordering
///
/// Latches need to guarantee two things:
///
/// - Once `probe()` returns true, all memory effects from the `set()`
///   are visible (in other words, the set should synchronize-with
///   the probe).
/// - Once `set()` occurs, the next `probe()` *will* observe it.  This
///   typically requires a seq-cst ordering. See [the "tickle-then-get-sleepy" scenario in the sleep
///   README](/src/sleep/README.md#tickle-then-get-sleepy) for details.
pub(super) trait Latch {
    /// Set the latch, signalling others.
    ///
    /// # WARNING
    ///
    /// Setting a latch triggers other threads to wake up and (in some
    /// cases) complete. This may, in turn, cause memory to be
    /// deallocated and so forth. One must be very careful about this,
    /// and it's typically better to read all the fields you will need
    /// to access *before* a latch is set!
    ///
    /// This function operates on `*const Self` instead of `&self` to allow it
    /// to become dangling during this call. The caller must ensure that the
    /// pointer is valid upon entry, and not invalidated during the call by any
    /// actions other than `set` itself.
    unsafe fn set(this: *const Self);
}

pub(super) trait AsCoreLatch {
    fn as_core_latch(&self) -> &CoreLatch;
}

#[derive(Debug)]
pub(super) struct CoreLatch {
    set: Cell<bool>,
    /// history of what set the latch
    hash: Cell<u64>,
    obj: vsched::Obj,
}
unsafe impl Sync for CoreLatch {}

impl CoreLatch {
    fn new() -> Self {
        Self { set: Cell::new(false), hash: Cell::new(0), obj: vsched::Obj::new(0x1A7C) }
    }
    unsafe fn set_to(this: *const Self, hash: u64) {
        (*this).hash.set(hash);
        (*this).set.set(true);
        (*this).obj.set(vsched::mix(hash, 1));
    }
    unsafe fn set(this: *const Self) -> bool {
        vsched::step(0x1A70);
        Self::set_to(this, vsched::strand());
        true
    }
    pub(super) fn is_set(&self) -> bool {
        self.set.get()
    }
    /// Test if this latch has been set.
    pub(super) fn probe(&self) -> bool {
        if self.set.get() {
            vsched::observe(self.hash.get());
        }
        self.set.get()
    }
}

/// Spin latches are the simplest, most efficient kind, but they do
/// not support a `wait()` operation. They just have a boolean flag
/// that becomes true when `set()` is called.
pub(super) struct SpinLatch<'r> {
    core_latch: CoreLatch,
    registry: &'r Arc<Registry>,
    target_worker_index: usize,
    cross: bool,
}

impl<'r> SpinLatch<'r> {
    /// Creates a new spin latch that is owned by `thread`. This means
    /// that `thread` is the only thread that should be blocking on
    /// this latch -- it also means that when the latch is set, we
    /// will wake `thread` if it is sleeping.
    #[inline]
    pub(super) fn new(thread: &'r WorkerThread) -> SpinLatch<'r> {
        SpinLatch {
            core_latch: CoreLatch::new(),
            registry: thread.registry(),
            target_worker_index: thread.index(),
            cross: false,
        }
    }

    /// Creates a new spin latch for cross-threadpool blocking.  Notably, we
    /// need to make sure the registry is kept alive after setting, so we can
    /// safely call the notification.
    #[inline]
    pub(super) fn cross(thread: &'r WorkerThread) -> SpinLatch<'r> {
        SpinLatch {
            cross: true,
            ..SpinLatch::new(thread)
        }
    }

    #[inline]
    pub(super) fn probe(&self) -> bool {
        self.core_latch.probe()
    }
}

impl<'r> AsCoreLatch for SpinLatch<'r> {
    #[inline]
    fn as_core_latch(&self) -> &CoreLatch {
        &self.core_latch
    }
}

impl<'r> Latch for SpinLatch<'r> {
    #[inline]
    unsafe fn set(this: *const Self) {
        let cross_registry;

        let registry: &Registry = if (*this).cross {
            // Ensure the registry stays alive while we notify it.
            // Otherwise, it would be possible that we set the spin
            // latch and the other thread sees it and exits, causing
            // the registry to be deallocated, all before we get a
            // chance to invoke `registry.notify_worker_latch_is_set`.
            cross_registry = Arc::clone((*this).registry);
            &cross_registry
        } else {
            // If this is not a "cross-registry" spin-latch, then the
            // thread which is performing `set` is itself ensuring
            // that the registry stays alive. However, that doesn't
            // include this *particular* `Arc` handle if the waiting
            // thread then exits, so we must completely dereference it.
            (*this).registry
        };
        let target_worker_index = (*this).target_worker_index;

        // NOTE: Once we `set`, the target may proceed and invalidate `this`!
        if CoreLatch::set(&(*this).core_latch) {
            // Subtle: at this point, we can no longer read from
            // `self`, because the thread owning this spin latch may
            // have awoken and deallocated the latch. Therefore, we
            // only use fields whose values we already read.
            registry.notify_worker_latch_is_set(target_worker_index);
        }
    }
}

/// A latch for threads outside of the pool.
#[derive(Debug)]
pub(super) struct LockLatch(CoreLatch);

impl LockLatch {
    pub(super) fn new() -> LockLatch {
        LockLatch(CoreLatch::new())
    }
    /// Block until latch is set, then resets this lock latch so it can be reused again.
    pub(super) fn wait_and_reset(&self) {
        self.wait();
        self.0.set.set(false);
        self.0.obj.set(0);
    }
    /// Block until latch is set.
    pub(super) fn wait(&self) {
        vsched::point(0x1A71, &|| self.0.is_set() as u32);
        self.0.probe();
    }
}

impl Latch for LockLatch {
    unsafe fn set(this: *const Self) {
        CoreLatch::set(&(*this).0);
    }
}

/// A latch that is set when its counter reaches zero; its history is that of all who counted
/// down, in no particular order.
#[derive(Debug)]
pub(super) struct CountLatch {
    core_latch: CoreLatch,
    counter: Cell<usize>,
    acc: Cell<u64>,
}
unsafe impl Sync for CountLatch {}

impl CountLatch {
    pub(super) fn new() -> CountLatch {
        Self::with_count(1)
    }
    pub(super) fn with_count(n: usize) -> CountLatch {
        let l = CountLatch { core_latch: CoreLatch::new(), counter: Cell::new(n), acc: Cell::new(0) };
        l.upd();
        l
    }
    fn upd(&self) {
        self.core_latch.obj.set(vsched::mix(self.acc.get(), self.counter.get() as u64));
    }
    pub(super) fn increment(&self) {
        self.counter.set(self.counter.get() + 1);
        self.upd();
    }
    /// Something whose order matters happened, e.g. the first panic.
    pub(super) fn note(&self, v: u64) {
        self.acc.set(self.acc.get().wrapping_add(v));
        self.upd();
    }
    /// Decrements the latch counter by one; returns whether the latch was set.
    pub(super) unsafe fn set(this: *const Self) -> bool {
        vsched::step(0x1A72);
        let l = &*this;
        l.acc.set(l.acc.get().wrapping_add(vsched::mix(vsched::strand(), 0xACC)));
        l.counter.set(l.counter.get().wrapping_sub(1));
        if l.counter.get() == 0 {
            CoreLatch::set_to(&l.core_latch, l.acc.get());
            true
        } else {
            l.upd();
            false
        }
    }
    pub(super) unsafe fn set_and_tickle_one(this: *const Self, _registry: &Registry, _target_worker_index: usize) {
        Self::set(this);
    }
}

impl AsCoreLatch for CountLatch {
    fn as_core_latch(&self) -> &CoreLatch {
        &self.core_latch
    }
}

#[derive(Debug)]
pub(super) struct CountLockLatch(CountLatch);

impl CountLockLatch {
    pub(super) fn with_count(n: usize) -> CountLockLatch {
        CountLockLatch(CountLatch::with_count(n))
    }
    pub(super) fn increment(&self) {
        self.0.increment();
    }
    pub(super) fn note(&self, v: u64) {
        self.0.note(v);
    }
    pub(super) fn wait(&self) {
        vsched::point(0x1A71, &|| self.0.core_latch.is_set() as u32);
        self.0.core_latch.probe();
    }
}

impl Latch for CountLockLatch {
    unsafe fn set(this: *const Self) {
        CountLatch::set(&(*this).0);
    }
}

/// `&L` without any implication of `dereferenceable` for `Latch::set`
pub(super) struct LatchRef<'a, L> {
    inner: *const L,
    marker: PhantomData<&'a L>,
}

impl<L> LatchRef<'_, L> {
    pub(super) fn new(inner: &L) -> LatchRef<'_, L> {
        LatchRef {
            inner,
            marker: PhantomData,
        }
    }
}

unsafe impl<L: Sync> Sync for LatchRef<'_, L> {}

impl<L> Deref for LatchRef<'_, L> {
    type Target = L;

    fn deref(&self) -> &L {
        // SAFETY: if we have &self, the inner latch is still alive
        unsafe { &*self.inner }
    }
}

impl<L: Latch> Latch for LatchRef<'_, L> {
    #[inline]
    unsafe fn set(this: *const Self) {
        L::set((*this).inner);
    }
}
