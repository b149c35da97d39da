//! Deques under the controlled scheduler: the semantics of crossbeam-deque (owner LIFO or FIFO,
//! thieves FIFO) without internal races; every job carries the identity its creator gave it.
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::Arc;

use crate::job::JobRef;

pub(super) type Item = (JobRef, u64);
struct In {
    q: UnsafeCell<VecDeque<Item>>,
    obj: vsched::Obj,
}
#[derive(Clone)]
pub(super) struct Q(Arc<In>, bool);
unsafe impl Send for In {}
unsafe impl Sync for In {}

impl Q {
    pub(super) fn new(lifo: bool) -> Q {
        let q = Q(Arc::new(In { q: UnsafeCell::new(VecDeque::new()), obj: vsched::Obj::new(0xDE) }), lifo);
        q.upd();
        q
    }
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<Item> {
        unsafe { &mut *self.0.q.get() }
    }
    fn upd(&self) {
        let h = self.q().iter().fold(0xDE, |h, i| vsched::mix(h, i.1));
        self.0.obj.set(h);
    }
    pub(super) fn own(&self, label: u64) {
        self.0.obj.own(label);
    }
    pub(super) fn is_empty(&self) -> bool {
        self.q().is_empty()
    }
    pub(super) fn push(&self, j: JobRef) {
        let id = vsched::fresh(0x10B);
        self.q().push_back((j, id));
        self.upd();
    }
    pub(super) fn pop(&self) -> Option<Item> {
        let r = if self.1 { self.q().pop_back() } else { self.q().pop_front() };
        self.upd();
        r
    }
    pub(super) fn steal(&self) -> Option<Item> {
        let r = self.q().pop_front();
        self.upd();
        r
    }
}
