//! The controlled scheduler: one baton, explicit choices, depth first search over the choices.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    /// Waits until all participants with an id >= the first and < the second value are finished.
    Join(usize, usize),
    Finished,
}

/// One decision of the scheduler.
#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    /// Index into the list of enabled participants (the running one first if it is enabled).
    pub choice: usize,
    pub enabled: usize,
    /// Whether leaving choice 0 would have been a preemption.
    pub preemptive: bool,
}

struct State {
    current: usize,
    st: Vec<St>,
    prefix: Vec<usize>,
    points: Vec<Point>,
    progress: u64,
    diverged: bool,
    stalled: bool,
    deadlock: bool,
    max_live: usize,
}

pub struct Controller {
    m: Mutex<State>,
    c: Condvar,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Controller>, usize)>> = RefCell::new(None);
}

pub fn current() -> Option<(Arc<Controller>, usize)> {
    CUR.with(|c| c.borrow().clone())
}
pub fn install(v: Option<(Arc<Controller>, usize)>) {
    CUR.with(|c| *c.borrow_mut() = v);
}
/// A scheduling point inside of user code (callbacks given to the library).
pub fn yield_here() {
    if let Some((c, me)) = current() {
        c.yield_point(me);
    }
}

/// Outcome of one execution.
#[derive(Clone, Debug)]
pub struct Trace {
    pub points: Vec<Point>,
    pub participants: usize,
    pub max_live: usize,
    /// The recorded prefix could not be replayed.
    pub diverged: bool,
    /// A participant blocked on something the scheduler does not control.
    pub stalled: bool,
    pub deadlock: bool,
}

impl Controller {
    fn new(prefix: Vec<usize>) -> Controller {
        Controller {
            m: Mutex::new(State {
                current: 0,
                st: vec![St::Runnable],
                prefix,
                points: Vec::new(),
                progress: 0,
                diverged: false,
                stalled: false,
                deadlock: false,
                max_live: 1,
            }),
            c: Condvar::new(),
        }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        match self.m.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn next_id(&self) -> usize {
        self.lock().st.len()
    }
    pub fn register(&self) -> usize {
        let mut s = self.lock();
        s.st.push(St::Runnable);
        let live = s.st.iter().filter(|x| **x != St::Finished).count();
        s.max_live = s.max_live.max(live);
        s.st.len() - 1
    }
    fn enabled(s: &State, me: usize) -> Vec<usize> {
        let ok = |i: usize| match s.st[i] {
            St::Runnable => true,
            St::Finished => false,
            St::Join(a, b) => (a..b).all(|j| j == i || s.st[j] == St::Finished),
        };
        let mut v = Vec::new();
        if ok(me) {
            v.push(me);
        }
        for i in 0..s.st.len() {
            if i != me && ok(i) {
                v.push(i);
            }
        }
        v
    }
    /// Chooses who runs next, `me` is the participant which runs now.
    fn choose(s: &mut State, me: usize) {
        let en = Self::enabled(s, me);
        if en.is_empty() {
            s.deadlock = true;
            s.current = usize::MAX;
            return;
        }
        let k = s.points.len();
        let mut ch = if k < s.prefix.len() { s.prefix[k] } else { 0 };
        if ch >= en.len() {
            s.diverged = true;
            ch = 0;
        }
        s.points.push(Point {
            choice: ch,
            enabled: en.len(),
            preemptive: en[0] == me,
        });
        s.current = en[ch];
        s.progress += 1;
    }
    fn wait(&self, mut s: std::sync::MutexGuard<'_, State>, me: usize) {
        let mut seen = s.progress;
        let mut idle = 0;
        while s.current != me {
            if s.deadlock {
                return;
            }
            let (g, t) = match self.c.wait_timeout(s, Duration::from_millis(500)) {
                Ok(x) => x,
                Err(e) => e.into_inner(),
            };
            s = g;
            if t.timed_out() && s.current != me {
                if s.progress == seen {
                    idle += 1;
                } else {
                    idle = 0;
                    seen = s.progress;
                }
                // The owner of the baton makes no progress: most likely it waits for a lock which
                // a preempted participant holds. Let somebody else run.
                if idle >= 6 {
                    let en = Self::enabled(&s, me);
                    if en.first() == Some(&me) {
                        s.stalled = true;
                        s.current = me;
                        s.progress += 1;
                        self.c.notify_all();
                        return;
                    }
                    idle = 0;
                }
            }
        }
    }
    pub fn yield_point(&self, me: usize) {
        let mut s = self.lock();
        if s.stalled {
            return;
        }
        Self::choose(&mut s, me);
        self.c.notify_all();
        self.wait(s, me);
    }
    pub fn wait_turn(&self, me: usize) {
        let s = self.lock();
        if s.stalled {
            return;
        }
        self.wait(s, me);
    }
    pub fn finish(&self, me: usize) {
        let mut s = self.lock();
        s.st[me] = St::Finished;
        if s.current == me || s.stalled {
            Self::choose(&mut s, me);
        }
        self.c.notify_all();
    }
    pub fn join_from(&self, me: usize, first: usize) {
        let mut s = self.lock();
        let last = s.st.len();
        if first == last {
            return;
        }
        if !s.stalled {
            s.st[me] = St::Join(first, last);
            Self::choose(&mut s, me);
            self.c.notify_all();
            self.wait(s, me);
            s = self.lock();
        }
        s.st[me] = St::Runnable;
    }
    pub fn join_one(&self, me: usize, id: usize) {
        let mut s = self.lock();
        if !s.stalled {
            s.st[me] = St::Join(id, id + 1);
            Self::choose(&mut s, me);
            self.c.notify_all();
            self.wait(s, me);
            s = self.lock();
        }
        s.st[me] = St::Runnable;
    }
}

/// Runs `f` once with the given choices (0 after the end of the list).
pub fn run_once<R>(prefix: Vec<usize>, f: impl FnOnce() -> R) -> (R, Trace) {
    let c = Arc::new(Controller::new(prefix));
    let old = current();
    install(Some((c.clone(), 0)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    install(old);
    let r = match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    let s = c.lock();
    let t = Trace {
        points: s.points.clone(),
        participants: s.st.len(),
        max_live: s.max_live,
        diverged: s.diverged,
        stalled: s.stalled,
        deadlock: s.deadlock,
    };
    (r, t)
}

/// Statistics of an exploration.
#[derive(Clone, Debug, Default)]
pub struct Explored {
    pub schedules: u64,
    pub points: u64,
    pub max_live: usize,
    /// All schedules within the preemption bound were executed.
    pub complete: bool,
}

/// Executes `f` under all schedules with at most `bound` preemptions (at most `cap` schedules).
/// `f` gets the choices of the schedule so that it can report them, and returns an error to stop.
pub fn explore<E>(
    bound: usize,
    cap: u64,
    mut f: impl FnMut(&[usize]) -> (Result<(), E>, Trace),
) -> (Result<Explored, E>, Vec<usize>) {
    let mut ex = Explored::default();
    ex.complete = true;
    let mut stack: Vec<Vec<usize>> = vec![Vec::new()];
    while let Some(prefix) = stack.pop() {
        if ex.schedules >= cap {
            ex.complete = false;
            break;
        }
        let (r, t) = f(&prefix);
        ex.schedules += 1;
        ex.points += t.points.len() as u64;
        ex.max_live = ex.max_live.max(t.max_live);
        let choices: Vec<usize> = t.points.iter().map(|p| p.choice).collect();
        if let Err(e) = r {
            return (Err(e), choices);
        }
        if t.stalled {
            ex.complete = false;
        }
        let mut used = 0;
        for (i, p) in t.points.iter().enumerate() {
            if i >= prefix.len() {
                let cost = if p.preemptive { 1 } else { 0 };
                if used + cost <= bound {
                    for alt in 1..p.enabled {
                        let mut n = choices[..i].to_vec();
                        n.push(alt);
                        stack.push(n);
                    }
                }
            }
            if p.preemptive && p.choice != 0 {
                used += 1;
            }
        }
    }
    (Ok(ex), Vec::new())
}
