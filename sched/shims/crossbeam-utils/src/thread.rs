//! Scoped threads, as crossbeam-utils 0.8.15, with synchronisation the explorer knows.
#![allow(missing_docs, unreachable_pub)]
use std::cell::UnsafeCell;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::mem;
use std::panic;
use std::rc::Rc;
use std::thread;
use vsched::Gate;

// only one controlled thread runs at a time
struct Sh<T>(Rc<UnsafeCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
    fn clone(&self) -> Self {
        Sh(self.0.clone())
    }
}
impl<T> Sh<T> {
    fn new(t: T) -> Self {
        Sh(Rc::new(UnsafeCell::new(t)))
    }
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
trait Handle {
    fn join(self: Box<Self>) -> thread::Result<()>;
    fn thread(&self) -> &thread::Thread;
    fn raw(&self) -> usize;
}
impl Handle for thread::JoinHandle<()> {
    fn join(self: Box<Self>) -> thread::Result<()> {
        thread::JoinHandle::join(*self)
    }
    fn thread(&self) -> &thread::Thread {
        thread::JoinHandle::thread(self)
    }
    fn raw(&self) -> usize {
        std::os::unix::thread::JoinHandleExt::as_pthread_t(self) as usize
    }
}
trait HasThread {
    fn t(&self) -> &thread::Thread;
}
impl HasThread for thread::Thread {
    fn t(&self) -> &thread::Thread {
        self
    }
}
type H = Sh<Option<Box<dyn Handle>>>;

pub fn scope<'env, F, R>(f: F) -> thread::Result<R>
where
    F: FnOnce(&Scope<'env>) -> R,
{
    let gate = Sh::new(Gate::new(0));
    let scope = Scope::<'env> { handles: Sh::new(vec![]), gate: gate.clone(), _marker: PhantomData };
    let result = panic::catch_unwind(panic::AssertUnwindSafe(|| f(&scope)));
    gate.get().wait();
    let handles = mem::take(scope.handles.get());
    let panics: Vec<_> = handles.into_iter().filter_map(|h: H| h.get().take()).filter_map(|h| h.join().err()).collect();
    match result {
        Err(err) => panic::resume_unwind(err),
        Ok(res) => {
            if panics.is_empty() {
                Ok(res)
            } else {
                Err(Box::new(panics))
            }
        }
    }
}
/// A scope for spawning threads.
pub struct Scope<'env> {
    handles: Sh<Vec<H>>,
    gate: Sh<Gate>,
    _marker: PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_> {}

impl<'env> Scope<'env> {
    pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce(&Scope<'env>) -> T,
        F: Send + 'env,
        T: Send + 'env,
    {
        self.builder().spawn(f).expect("failed to spawn scoped thread")
    }
    pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> {
        ScopedThreadBuilder { scope: self, builder: thread::Builder::new() }
    }
}
impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Scope { .. }")
    }
}
#[derive(Debug)]
pub struct ScopedThreadBuilder<'scope, 'env> {
    scope: &'scope Scope<'env>,
    builder: thread::Builder,
}
// counts the thread out when its closure is gone, also after a panic
struct Out(Sh<Gate>);
impl Drop for Out {
    fn drop(&mut self) {
        self.0.get().down();
    }
}
#[inline(never)]
fn spawn_boxed(b: thread::Builder, f: Box<dyn FnOnce() + Send + 'static>) -> io::Result<Box<dyn Handle>> {
    Ok(Box::new(b.spawn(f)?))
}
#[inline(never)]
fn thread_of(h: &dyn Handle) -> Box<dyn HasThread> {
    Box::new(h.thread().clone())
}
impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
    pub fn name(mut self, name: String) -> ScopedThreadBuilder<'scope, 'env> {
        self.builder = self.builder.name(name);
        self
    }
    pub fn stack_size(mut self, size: usize) -> ScopedThreadBuilder<'scope, 'env> {
        self.builder = self.builder.stack_size(size);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce(&Scope<'env>) -> T,
        F: Send + 'env,
        T: Send + 'env,
    {
        let result: Sh<Option<T>> = Sh::new(None);
        let inner = Scope::<'env> { handles: self.scope.handles.clone(), gate: self.scope.gate.clone(), _marker: PhantomData };
        let gate = Sh(self.scope.gate.0.clone());
        gate.get().up();
        let out = Out(gate);
        let r2 = result.clone();
        let closure = move || {
            let (out, inner, r2) = (out, inner, r2);
            let res = f(&inner);
            *r2.get() = Some(res);
            drop(inner);
            drop(r2);
            drop(out);
        };
        let closure: Box<dyn FnOnce() + Send + 'env> = Box::new(closure);
        let closure: Box<dyn FnOnce() + Send + 'static> = unsafe { mem::transmute(closure) };
        let h = spawn_boxed(self.builder, closure)?;
        let thread = thread_of(&*h);
        let handle = Sh::new(Some(h));
        self.scope.handles.get().push(handle.clone());
        Ok(ScopedJoinHandle { handle, result, thread, _marker: PhantomData })
    }
}
unsafe impl<T> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T> Sync for ScopedJoinHandle<'_, T> {}
pub struct ScopedJoinHandle<'scope, T> {
    handle: H,
    result: Sh<Option<T>>,
    thread: Box<dyn HasThread>,
    _marker: PhantomData<&'scope ()>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> thread::Result<T> {
        let handle = self.handle.get().take().unwrap();
        handle.join().map(|()| self.result.get().take().unwrap())
    }
    pub fn thread(&self) -> &thread::Thread {
        self.thread.t()
    }
}
impl<T> std::os::unix::thread::JoinHandleExt for ScopedJoinHandle<'_, T> {
    fn as_pthread_t(&self) -> std::os::unix::thread::RawPthread {
        self.handle.get().as_ref().unwrap().raw() as _
    }
    fn into_pthread_t(self) -> std::os::unix::thread::RawPthread {
        self.as_pthread_t()
    }
}
impl<T> fmt::Debug for ScopedJoinHandle<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("ScopedJoinHandle { .. }")
    }
}
