//! Scoped threads under the controlled scheduler.
use crate::mc;
use crossbeam_utils::thread as cb;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
pub type Result<T> = std::thread::Result<T>;

#[repr(transparent)]
pub struct Scope<'env>(cb::Scope<'env>);

impl<'env> std::fmt::Debug for Scope<'env> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad("Scope { .. }")
    }
}

fn wrap<'a, 'env>(s: &'a cb::Scope<'env>) -> &'a Scope<'env> {
    // Same representation (repr(transparent)).
    unsafe { &*(s as *const cb::Scope<'env> as *const Scope<'env>) }
}

pub fn scope<'env, F, R>(f: F) -> Result<R>
where
    F: FnOnce(&Scope<'env>) -> R,
{
    match mc::current() {
        None => cb::scope(|s| f(wrap(s))),
        Some((ctl, me)) => cb::scope(|s| {
            let first = ctl.next_id();
            let r = catch_unwind(AssertUnwindSafe(|| f(wrap(s))));
            ctl.join_from(me, first);
            match r {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            }
        }),
    }
}

pub struct ScopedJoinHandle<'scope, T> {
    inner: cb::ScopedJoinHandle<'scope, T>,
    id: Option<usize>,
    _p: PhantomData<&'scope ()>,
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        if let (Some((ctl, me)), Some(id)) = (mc::current(), self.id) {
            ctl.join_one(me, id);
        }
        self.inner.join()
    }
    pub fn thread(&self) -> &std::thread::Thread {
        self.inner.thread()
    }
}

pub struct ScopedThreadBuilder<'scope, 'env> {
    scope: &'scope Scope<'env>,
}

impl<'scope, 'env> ScopedThreadBuilder<'scope, 'env> {
    pub fn name(self, _: String) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce(&Scope<'env>) -> T + Send + 'env,
        T: Send + 'env,
    {
        Ok(self.scope.spawn(f))
    }
}

impl<'env> Scope<'env> {
    pub fn spawn<'scope, F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce(&Scope<'env>) -> T + Send + 'env,
        T: Send + 'env,
    {
        match mc::current() {
            None => ScopedJoinHandle {
                inner: self.0.spawn(move |s| f(wrap(s))),
                id: None,
                _p: PhantomData,
            },
            Some((ctl, me)) => {
                let id = ctl.register();
                let c2 = ctl.clone();
                let inner = self.0.spawn(move |s| {
                    mc::install(Some((c2.clone(), id)));
                    c2.wait_turn(id);
                    let r = catch_unwind(AssertUnwindSafe(|| f(wrap(s))));
                    c2.finish(id);
                    mc::install(None);
                    match r {
                        Ok(r) => r,
                        Err(e) => resume_unwind(e),
                    }
                });
                ctl.yield_point(me);
                ScopedJoinHandle {
                    inner,
                    id: Some(id),
                    _p: PhantomData,
                }
            }
        }
    }

    pub fn builder<'scope>(&'scope self) -> ScopedThreadBuilder<'scope, 'env> {
        ScopedThreadBuilder { scope: self }
    }
}
