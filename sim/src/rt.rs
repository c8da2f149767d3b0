//! The simulated world: one recorded choice sequence, one virtual clock, and tasks that run one at a time.
//!
//! Tasks are real threads, parked and released one by one: the world decides at every yield point (each simulated
//! i/o operation) which of them goes on, or whether the next timer fires first. Nothing else decides an order.

use crate::src::{hash_bytes, mix, Rng, Src};
mod hints {
    include!(concat!(env!("OUT_DIR"), "/hints.rs"));
}

use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// What kind of violation. Shrinking keeps it.
    pub class: String,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Violation>;

pub fn violation<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::rt::violation($class, format!($($arg)*));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Runnable,
    Blocked,
    Sleeping(u64),
    Done,
}

type TimerFn = Box<dyn FnOnce(&mut Core) + Send>;

pub struct Core {
    pub src: Src,
    pub now: u64,
    seq: u64,
    pub log: Option<Vec<String>>,
    pub hash: u64,
    pub events: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub findings: BTreeMap<&'static str, String>,
    tasks: Vec<TState>,
    cur: usize,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    timer_fns: BTreeMap<u64, TimerFn>,
    /// Chance (per mille) that a yield point is a scheduling decision
    pub preempt: u64,
    steps: u64,
    step_cap: u64,
    /// The run is being torn down: every blocking operation fails
    pub abort: Option<&'static str>,
    failed: Option<Violation>,
    idle: bool,
}

struct Inner {
    m: Mutex<Core>,
    cvs: Vec<Condvar>,
    main: Condvar,
}

#[derive(Clone)]
pub struct World(Arc<Inner>);

thread_local! {
    static TASK: Cell<Option<usize>> = const { Cell::new(None) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub const MAX_TASKS: usize = 12;

/// Panics are reported by guard, not printed
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let what = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| p.set(Some(format!("{what} at {at}"))));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.take()).unwrap_or_default()
}

/// Run code of the library. A panic in it is a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    crate::sys::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::sys::leave();
    let side = crate::sys::side();
    let out = r.or_else(|_| violation("panic", format!("{what} panicked: {}", last_panic())))?;
    match side {
        Some(call) => violation("side", format!("{what} called {call}")),
        None => Ok(out),
    }
}

impl Core {
    pub fn at(&mut self, when: u64, f: TimerFn) {
        self.seq += 1;
        self.timers.push(Reverse((when.max(self.now), self.seq)));
        self.timer_fns.insert(self.seq, f);
    }

    pub fn wake(&mut self, task: usize) {
        if self.tasks[task] == TState::Blocked {
            self.tasks[task] = TState::Runnable;
        }
    }

    fn mark(&mut self, kind: &'static str, a: u64, b: u64) {
        self.events += 1;
        let mut h = hash_bytes(self.hash, kind.as_bytes());
        h = mix(h ^ a.wrapping_mul(0x9E3779B97F4A7C15));
        self.hash = mix(h ^ b);
        if let Some(log) = &mut self.log {
            if log.len() < 5000 {
                log.push(format!("t={} {} {} {}", self.now, kind, a, b));
            }
        }
    }

    fn fire_timer(&mut self) {
        if let Some(Reverse((when, seq))) = self.timers.pop() {
            self.now = self.now.max(when);
            let f = self.timer_fns.remove(&seq).expect("timer");
            f(self);
        }
    }

    fn abort_all(&mut self, why: &'static str) {
        if self.abort.is_none() {
            self.abort = Some(why);
        }
        for t in self.tasks.iter_mut() {
            if matches!(t, TState::Blocked | TState::Sleeping(_)) {
                *t = TState::Runnable;
            }
        }
    }

    /// Who runs next. None when all tasks are done.
    fn next(&mut self) -> Option<usize> {
        self.steps += 1;
        if self.steps > self.step_cap {
            self.abort_all("step cap");
        }
        loop {
            let runnable: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i] == TState::Runnable).collect();
            let timer = !self.timers.is_empty() && self.abort.is_none();
            if runnable.is_empty() {
                let sleeper = self
                    .tasks
                    .iter()
                    .enumerate()
                    .filter_map(|(i, t)| match t {
                        TState::Sleeping(w) => Some((*w, i)),
                        _ => None,
                    })
                    .min();
                let next_timer = self.timers.peek().map(|Reverse((w, _))| *w);
                match (sleeper, next_timer) {
                    (Some((w, i)), Some(t)) if w <= t => {
                        self.now = self.now.max(w);
                        self.tasks[i] = TState::Runnable;
                    }
                    (Some((w, i)), None) => {
                        self.now = self.now.max(w);
                        self.tasks[i] = TState::Runnable;
                    }
                    (_, Some(_)) => self.fire_timer(),
                    (None, None) => {
                        if self.tasks.iter().all(|t| *t == TState::Done) {
                            return None;
                        }
                        self.abort_all("deadlock");
                    }
                }
                continue;
            }
            let n = runnable.len() as u64 + timer as u64;
            let c = self.src.draw(n) as usize;
            if c < runnable.len() {
                if n > 1 {
                    self.mark("run", runnable[c] as u64, n);
                }
                return Some(runnable[c]);
            }
            self.fire_timer();
        }
    }
}

impl World {
    pub fn new(src: Src, log: bool) -> Self {
        World(Arc::new(Inner {
            m: Mutex::new(Core {
                src,
                now: 0,
                seq: 0,
                log: if log { Some(vec![]) } else { None },
                hash: 0xcbf29ce484222325,
                events: 0,
                stats: BTreeMap::new(),
                findings: BTreeMap::new(),
                tasks: vec![],
                cur: usize::MAX,
                timers: BinaryHeap::new(),
                timer_fns: BTreeMap::new(),
                preempt: 300,
                steps: 0,
                step_cap: 4_000_000,
                abort: None,
                failed: None,
                idle: false,
            }),
            cvs: (0..MAX_TASKS).map(|_| Condvar::new()).collect(),
            main: Condvar::new(),
        }))
    }

    pub fn core(&self) -> MutexGuard<'_, Core> {
        self.0.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn draw(&self, n: u64) -> u64 {
        self.core().src.draw(n)
    }

    /// Two things that are made by the same choices, except for one or a few
    pub fn twins<T>(&self, make: impl Fn() -> T) -> (T, T) {
        let from = self.core().src.rec.len();
        let one = make();
        self.core().src.again(from);
        let other = make();
        self.core().src.anew();
        (one, other)
    }

    /// lo..=hi
    pub fn range(&self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }

    pub fn chance(&self, num: u64, den: u64) -> bool {
        num > 0 && self.draw(den) >= den - num
    }

    pub fn pick<T: Clone>(&self, items: &[T]) -> T {
        items[self.draw(items.len() as u64) as usize].clone()
    }

    pub fn bytes(&self, len: usize) -> Vec<u8> {
        if len == 0 {
            return vec![];
        }
        if len <= 4 {
            return (0..len).map(|_| self.draw(256) as u8).collect();
        }
        // many bytes are one choice: 0 is all zeroes
        let seed = self.draw(1 << 40);
        if seed == 0 {
            return vec![0; len];
        }
        let mut rng = Rng::new(seed);
        let mut data: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
        // data with a structure, now and then
        let (kind, b, n) = (rng.next() % 24, rng.next() as u8, rng.next() as usize % len);
        match kind {
            0 => data.fill(if b < 128 { 0xFF } else { b }),
            1 => data[n..].fill(0),
            2 => data[..n].fill(0),
            3 => (0..len).for_each(|i| data[i] = b.wrapping_add(i as u8)),
            _ => {}
        }
        data
    }

    /// A number up to max that the library's source mentions, or one next to it, now and then
    pub fn hint(&self, max: u64) -> Option<u64> {
        if self.draw(16) != 15 {
            return None;
        }
        let list = if hints::FRESH.is_empty() || self.draw(3) == 2 { hints::ALL } else { hints::FRESH };
        let v = self.pick(list);
        let v = match self.draw(4) {
            2 => v.wrapping_add(1),
            3 => v.wrapping_sub(1),
            _ => v,
        };
        (v <= max).then_some(v)
    }

    pub fn now(&self) -> u64 {
        self.core().now
    }

    pub fn count(&self, key: &'static str) {
        *self.core().stats.entry(key).or_insert(0) += 1;
    }

    pub fn count_n(&self, key: &'static str, n: u64) {
        *self.core().stats.entry(key).or_insert(0) += n;
    }

    /// An event of the run: part of its trace hash, and of the log of a replay
    pub fn mark(&self, kind: &'static str, a: u64, b: u64) {
        self.core().mark(kind, a, b);
    }

    /// A fault that was injected
    pub fn fault(&self, kind: &'static str, a: u64) {
        let mut c = self.core();
        *c.stats.entry(kind).or_insert(0) += 1;
        c.mark(kind, a, 0);
    }

    pub fn logf(&self, f: impl FnOnce() -> String) {
        let mut c = self.core();
        if c.log.is_some() {
            let line = format!("t={} {}", c.now, f());
            if let Some(log) = &mut c.log {
                if log.len() < 5000 {
                    log.push(line);
                }
            }
        }
    }

    pub fn note_bytes(&self, kind: &'static str, data: &[u8]) {
        let h = hash_bytes(0, data);
        self.core().mark(kind, data.len() as u64, h);
        self.logf(|| format!("{kind} = {}", hex(data)));
    }

    /// A violation that is to be looked up among the known findings. The run goes on.
    pub fn finding(&self, key: &'static str, what: String) {
        self.core().findings.entry(key).or_insert(what);
    }

    pub fn aborted(&self) -> Option<&'static str> {
        self.core().abort
    }

    // ---------------------------------------------------------------- tasks

    pub fn task() -> Option<usize> {
        TASK.with(|t| t.get())
    }

    fn switch(&self, mut core: MutexGuard<'_, Core>, me: usize) {
        match core.next() {
            Some(n) if n == me => return,
            Some(n) => {
                core.cur = n;
                self.0.cvs[n].notify_one();
            }
            None => {
                core.idle = true;
                core.cur = usize::MAX;
                self.0.main.notify_one();
                return;
            }
        }
        if core.tasks[me] == TState::Done {
            return;
        }
        while core.cur != me {
            core = self.0.cvs[me].wait(core).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// A point where another task may run. Does nothing outside of tasks.
    pub fn yield_point(&self) {
        if let Some(me) = Self::task() {
            let mut core = self.core();
            if core.tasks.len() <= 1 && core.timers.is_empty() {
                core.steps += 1;
                if core.steps > core.step_cap {
                    core.abort_all("step cap");
                }
                return;
            }
            let p = core.preempt;
            if p < 1000 && core.src.draw(1000) < 1000 - p {
                core.steps += 1;
                if core.steps > core.step_cap {
                    core.abort_all("step cap");
                }
                return;
            }
            self.switch(core, me);
        }
    }

    /// Wait to be woken. Err when the run is torn down.
    pub fn block(&self) -> Result<(), &'static str> {
        let me = Self::task().expect("only a task can block");
        let mut core = self.core();
        if let Some(why) = core.abort {
            return Err(why);
        }
        core.tasks[me] = TState::Blocked;
        self.switch(core, me);
        match self.core().abort {
            Some(why) => Err(why),
            None => Ok(()),
        }
    }

    pub fn sleep(&self, dt: u64) {
        let me = Self::task().expect("only a task can sleep");
        let mut core = self.core();
        if core.abort.is_some() {
            return;
        }
        let until = core.now + dt;
        core.tasks[me] = TState::Sleeping(until);
        self.switch(core, me);
    }

    /// Run tasks to completion, interleaved as the choices say
    pub fn run_tasks(&self, jobs: Vec<Box<dyn FnOnce() -> Res + Send>>) -> Res {
        assert!(jobs.len() <= MAX_TASKS && !jobs.is_empty());
        {
            let mut core = self.core();
            core.tasks = vec![TState::Runnable; jobs.len()];
            core.idle = false;
            core.cur = usize::MAX;
        }
        let mut handles = vec![];
        for (id, job) in jobs.into_iter().enumerate() {
            let w = self.clone();
            handles.push(
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        TASK.with(|t| t.set(Some(id)));
                        {
                            let mut core = w.core();
                            while core.cur != id {
                                core = w.0.cvs[id].wait(core).unwrap_or_else(|e| e.into_inner());
                            }
                        }
                        let out = catch_unwind(AssertUnwindSafe(job)).unwrap_or_else(|_| {
                            violation("harness", format!("task {id} panicked: {}", last_panic()))
                        });
                        let mut core = w.core();
                        if let Err(v) = out {
                            if core.failed.is_none() {
                                core.failed = Some(v);
                            }
                            core.abort_all("another task failed");
                        }
                        core.tasks[id] = TState::Done;
                        w.switch(core, id);
                    })
                    .expect("spawn"),
            );
        }
        let mut core = self.core();
        if let Some(n) = core.next() {
            core.cur = n;
            self.0.cvs[n].notify_one();
        }
        let mut seen = (0, 0);
        while !core.idle {
            let (c, timeout) =
                self.0.main.wait_timeout(core, Duration::from_secs(10)).unwrap_or_else(|e| e.into_inner());
            core = c;
            if timeout.timed_out() && !core.idle {
                let mark = (core.steps, core.events);
                if mark == seen {
                    return violation(
                        "hang",
                        "a task neither proceeds nor reaches an i/o operation: it waits for something that a suspended task holds",
                    );
                }
                seen = mark;
            }
        }
        let failed = core.failed.take();
        let abort = core.abort;
        core.tasks.clear();
        drop(core);
        for h in handles {
            let _ = h.join();
        }
        if let Some(v) = failed {
            return Err(v);
        }
        match abort {
            Some("deadlock") => violation("deadlock", "every task waits for data that never comes"),
            Some(why) => violation("livelock", why),
            None => Ok(()),
        }
    }
}

pub fn hex(data: &[u8]) -> String {
    let mut s = String::with_capacity(data.len() * 2);
    for b in data.iter().take(400) {
        s.push_str(&format!("{b:02X}"));
    }
    if data.len() > 400 {
        s.push_str(&format!("...({} bytes)", data.len()));
    }
    s
}
