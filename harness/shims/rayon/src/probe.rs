//! Controlled scheduling of `join` and `scope` (verification shim; everything else is the real rayon).
//!
//! A thread that has called [`start`] executes the tasks it forks in an order, and on threads, picked by a
//! list of choices, so that a caller can enumerate every schedule of the tasks. Without it, the real
//! work-stealing pool is used.
#![allow(missing_docs, missing_debug_implementations)]
use std::cell::RefCell;
use std::marker::PhantomData;
use std::sync::Mutex;

#[derive(Clone, Default)]
struct Script {
    choices: Vec<usize>,
    arity: Vec<usize>,
}
thread_local! { static S: RefCell<Option<Script>> = const { RefCell::new(None) }; }

/// Control the tasks forked from this thread: the i-th decision is `choices[i]`, 0 past the end.
pub fn start(choices: Vec<usize>) {
    S.with(|s| *s.borrow_mut() = Some(Script { choices, arity: vec![] }))
}
/// Back to the real pool; returns the number of alternatives each decision had.
pub fn stop() -> Vec<usize> {
    S.with(|s| s.borrow_mut().take().map(|x| x.arity).unwrap_or_default())
}
fn active() -> bool {
    S.with(|s| s.borrow().is_some())
}
fn choose(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    S.with(|s| {
        let mut b = s.borrow_mut();
        let sc = b.as_mut().expect("script");
        let k = sc.arity.len();
        sc.arity.push(n);
        sc.choices.get(k).copied().unwrap_or(0).min(n - 1)
    })
}
fn take() -> Option<Script> {
    S.with(|s| s.borrow_mut().take())
}
fn put(x: Option<Script>) {
    S.with(|s| *s.borrow_mut() = x)
}
/// Run `f` on a thread of its own, under the same script, and wait for it.
fn elsewhere<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let script = take();
    let (r, script) = std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                put(script);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                (r, take())
            })
            .expect("thread");
        h.join().expect("joined")
    });
    put(script);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !active() {
        return rayon_core::join(a, b);
    }
    match choose(4) {
        0 => {
            let ra = a();
            (ra, b())
        }
        1 => {
            let rb = b();
            (a(), rb)
        }
        2 => {
            let rb = elsewhere(b);
            (a(), rb)
        }
        _ => {
            let ra = a();
            (ra, elsewhere(b))
        }
    }
}

type Task<'scope> = Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>;
enum Inner<'scope> {
    Real(*const rayon_core::Scope<'scope>),
    /// 0: deferred to the end, 1: at once, 2: at once on another thread
    Script(usize, Mutex<Vec<Task<'scope>>>),
}
pub struct Scope<'scope> {
    inner: Inner<'scope>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
// SAFETY: the pointer is to a rayon scope, which is Sync and outlives the tasks it is handed to
unsafe impl Send for Scope<'_> {}
unsafe impl Sync for Scope<'_> {}
impl<'scope> Scope<'scope> {
    fn real(s: &rayon_core::Scope<'scope>) -> Self {
        Scope { inner: Inner::Real(s), marker: PhantomData }
    }
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        match &self.inner {
            // SAFETY: a Scope lives only as long as the rayon scope it was made from
            Inner::Real(s) => unsafe { &**s }.spawn(move |s| body(&Scope::real(s))),
            Inner::Script(1, _) => body(self),
            Inner::Script(2, _) => elsewhere(|| body(self)),
            Inner::Script(_, tasks) => tasks.lock().unwrap().push(Box::new(body)),
        }
    }
    fn drain(&self) {
        if let Inner::Script(_, tasks) = &self.inner {
            loop {
                let n = tasks.lock().unwrap().len();
                if n == 0 {
                    return;
                }
                let t = tasks.lock().unwrap().remove(choose(n));
                t(self);
            }
        }
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    if !active() {
        return rayon_core::scope(|s| op(&Scope::real(s)));
    }
    let s = Scope { inner: Inner::Script(choose(3), Mutex::new(vec![])), marker: PhantomData };
    let r = op(&s);
    s.drain();
    r
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    if !active() {
        return rayon_core::in_place_scope(|s| op(&Scope::real(s)));
    }
    let s = Scope { inner: Inner::Script(choose(3), Mutex::new(vec![])), marker: PhantomData };
    let r = op(&s);
    s.drain();
    r
}
