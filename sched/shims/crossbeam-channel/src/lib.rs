//! crossbeam-channel's channels under the controlled scheduler.
#![allow(missing_docs)]
mod err;
pub use err::*;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::fmt;
use std::iter::FusedIterator;
use std::rc::Rc;
use std::time::{Duration, Instant};
use vsched::{mix, observe, point, Obj};

struct Chan<T> {
    q: UnsafeCell<VecDeque<(T, u64)>>,
    cap: Option<usize>,
    senders: Cell<usize>,
    receivers: Cell<usize>,
    /// receivers blocked in recv (matters for rendezvous channels)
    waiting: Cell<usize>,
    taken: Cell<u64>,
    pushed: Cell<u64>,
    never: bool,
    obj: Obj,
}
impl<T> Chan<T> {
    #[allow(clippy::mut_from_ref)]
    fn q(&self) -> &mut VecDeque<(T, u64)> {
        unsafe { &mut *self.q.get() }
    }
    fn upd(&self) {
        let mut h = mix(self.senders.get() as u64, self.receivers.get() as u64);
        for i in self.q().iter() {
            h = mix(h, i.1);
        }
        if self.cap == Some(0) {
            h = mix(h, self.waiting.get() as u64);
        }
        self.obj.set(h);
    }
    fn room(&self) -> bool {
        match self.cap {
            None => true,
            Some(0) => self.q().len() < self.waiting.get(),
            Some(n) => self.q().len() < n,
        }
    }
    fn push(&self, t: T) {
        let id = vsched::fresh(0x5E4D);
        self.q().push_back((t, id));
        self.pushed.set(self.pushed.get() + 1);
        self.upd();
    }
    fn pop(&self) -> Option<T> {
        let (t, id) = self.q().pop_front()?;
        self.taken.set(self.taken.get() + 1);
        observe(id);
        self.upd();
        Some(t)
    }
}
fn make<T>(cap: Option<usize>, never: bool) -> (Sender<T>, Receiver<T>) {
    let c = Rc::new(Chan {
        q: UnsafeCell::new(VecDeque::new()),
        cap,
        senders: Cell::new(1),
        receivers: Cell::new(1),
        waiting: Cell::new(0),
        taken: Cell::new(0),
        pushed: Cell::new(0),
        never,
        obj: Obj::new(0xC4A),
    });
    c.upd();
    (Sender { c: c.clone() }, Receiver { c })
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap), false)
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None, false)
}
fn until(t: Duration) -> u64 {
    vsched::now().saturating_add(t.as_nanos().min(u64::MAX as u128) as u64)
}
pub fn never<T>() -> Receiver<T> {
    let (s, r) = make(None, true);
    std::mem::forget(s);
    r
}
pub struct Sender<T> {
    c: Rc<Chan<T>>,
}
pub struct Receiver<T> {
    c: Rc<Chan<T>>,
}
// only one controlled thread runs at a time
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

impl<T> Sender<T> {
    fn dead(&self) -> bool {
        self.c.receivers.get() == 0
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        point(0x5E41, &|| 1);
        if self.dead() {
            observe(1);
            return Err(TrySendError::Disconnected(msg));
        }
        if !self.c.room() {
            observe(2);
            return Err(TrySendError::Full(msg));
        }
        observe(3);
        self.c.push(msg);
        Ok(())
    }
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        if self.c.cap == Some(0) {
            return self.meet(msg, None).map_err(|e| SendError(e.into_inner()));
        }
        point(0x5E42, &|| (self.dead() || self.c.room()) as u32);
        if self.dead() {
            observe(1);
            return Err(SendError(msg));
        }
        observe(3);
        self.c.push(msg);
        Ok(())
    }
    /// rendezvous: offer the message and wait until it is taken
    fn meet(&self, msg: T, until: Option<u64>) -> Result<(), SendTimeoutError<T>> {
        point(0x5E43, &|| 1);
        if self.dead() {
            observe(1);
            return Err(SendTimeoutError::Disconnected(msg));
        }
        self.c.push(msg);
        let mine = self.c.pushed.get();
        let gone = || self.c.taken.get() >= mine;
        let over = || (gone() || self.dead()) as u32;
        match until {
            Some(u) => {
                vsched::point_until(0x5E44, &over, u);
            }
            None => {
                point(0x5E44, &over);
            }
        }
        if gone() {
            observe(3);
            return Ok(());
        }
        observe(if self.dead() { 1 } else { 2 });
        let i = (mine - self.c.taken.get() - 1) as usize;
        let m = self.c.q().remove(i).expect("offer").0;
        self.c.pushed.set(self.c.pushed.get() - 1);
        self.c.upd();
        if self.dead() {
            Err(SendTimeoutError::Disconnected(m))
        } else {
            vsched::opaque();
            Err(SendTimeoutError::Timeout(m))
        }
    }
    pub fn send_timeout(&self, msg: T, t: Duration) -> Result<(), SendTimeoutError<T>> {
        if self.c.cap == Some(0) {
            return self.meet(msg, Some(until(t)));
        }
        vsched::point_until(0x5E45, &|| (self.dead() || self.c.room()) as u32, until(t));
        if self.dead() {
            observe(1);
            return Err(SendTimeoutError::Disconnected(msg));
        }
        if !self.c.room() {
            observe(2);
            return Err(SendTimeoutError::Timeout(msg));
        }
        observe(3);
        self.c.push(msg);
        Ok(())
    }
    pub fn send_deadline(&self, msg: T, d: Instant) -> Result<(), SendTimeoutError<T>> {
        self.send_timeout(msg, d.saturating_duration_since(Instant::now()))
    }
}
impl<T> Receiver<T> {
    fn dead(&self) -> bool {
        self.c.senders.get() == 0
    }
    fn ready(&self) -> bool {
        !self.c.never && (!self.c.q().is_empty() || self.dead())
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        point(0x4EC1, &|| 1);
        if let Some(t) = self.c.pop() {
            return Ok(t);
        }
        if self.dead() {
            observe(1);
            Err(TryRecvError::Disconnected)
        } else {
            observe(2);
            Err(TryRecvError::Empty)
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.c.waiting.set(self.c.waiting.get() + 1);
        self.c.upd();
        point(0x4EC2, &|| self.ready() as u32);
        self.c.waiting.set(self.c.waiting.get() - 1);
        self.c.upd();
        match self.c.pop() {
            Some(t) => Ok(t),
            None => {
                observe(1);
                Err(RecvError)
            }
        }
    }
    pub fn recv_timeout(&self, t: Duration) -> Result<T, RecvTimeoutError> {
        self.c.waiting.set(self.c.waiting.get() + 1);
        self.c.upd();
        vsched::point_until(0x4EC3, &|| self.ready() as u32, until(t));
        self.c.waiting.set(self.c.waiting.get() - 1);
        self.c.upd();
        if let Some(t) = self.c.pop() {
            return Ok(t);
        }
        if self.dead() {
            observe(1);
            Err(RecvTimeoutError::Disconnected)
        } else {
            observe(2);
            Err(RecvTimeoutError::Timeout)
        }
    }
    pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(d.saturating_duration_since(Instant::now()))
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { r: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter { r: self }
    }
}
macro_rules! common {
    ($t:ident, $n:ident, $l:literal) => {
        impl<T> $t<T> {
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn is_full(&self) -> bool {
                Some(self.len()) == self.c.cap
            }
            pub fn len(&self) -> usize {
                point(0x1E4, &|| 1);
                let n = if self.c.cap == Some(0) { 0 } else { self.c.q().len() };
                observe(n as u64);
                n
            }
            pub fn capacity(&self) -> Option<usize> {
                self.c.cap
            }
            pub fn same_channel(&self, o: &$t<T>) -> bool {
                Rc::ptr_eq(&self.c, &o.c)
            }
        }
        impl<T> Clone for $t<T> {
            fn clone(&self) -> Self {
                self.c.$n.set(self.c.$n.get() + 1);
                self.c.upd();
                $t { c: self.c.clone() }
            }
        }
        impl<T> Drop for $t<T> {
            fn drop(&mut self) {
                if self.c.$n.get() == 1 {
                    point($l, &|| 1);
                }
                self.c.$n.set(self.c.$n.get() - 1);
                self.c.upd();
            }
        }
        impl<T> fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad(concat!(stringify!($t), " { .. }"))
            }
        }
    };
}
common!(Sender, senders, 0xD705);
common!(Receiver, receivers, 0xD704);

pub struct Iter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> FusedIterator for Iter<'_, T> {}
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
pub struct TryIter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.try_recv().ok()
    }
}
pub struct IntoIter<T> {
    r: Receiver<T>,
}
impl<T> FusedIterator for IntoIter<T> {}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { r: self }
    }
}
#[macro_export]
macro_rules! select {
    ($($t:tt)*) => {
        compile_error!("select! is not modelled")
    };
}
