//! Simulated time. One tick is one coordinate operation, one clone or
//! comparison of an index, or one callback from the library into user code.
//! Every tick can be a crash point, a scheduling point or a nested call.

use std::cell::{Cell, RefCell};

/// Payload of a simulated stop.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Stop {
    /// The step budget is used up.
    Budget,
    /// An injected crash (a panic in user code).
    Crash,
}

type Hook = Box<dyn FnMut(u64) -> u64>;

pub struct Saved {
    ticks: u64,
    next: u64,
    budget: u64,
    crash: u64,
    hook_at: u64,
    hook: Option<Hook>,
}

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static CRASH: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static CRASHES: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

fn arm() {
    NEXT.set(BUDGET.get().min(CRASH.get()).min(HOOK_AT.get()));
}

/// Begin a run: `budget` ticks at most, and a crash at tick `crash` (u64::MAX: none).
pub fn start(budget: u64, crash: u64) {
    TOTAL.set(TOTAL.get() + TICKS.get());
    TICKS.set(0);
    BUDGET.set(budget);
    CRASH.set(crash);
    arm();
}

/// `hook(now)` runs at tick `at` and returns the tick of its next run.
pub fn set_hook(at: u64, hook: Option<Hook>) {
    HOOK_AT.set(if hook.is_some() { at } else { u64::MAX });
    HOOK.with(|h| *h.borrow_mut() = hook);
    arm();
}

pub fn ticks() -> u64 {
    TICKS.get()
}
/// Ticks of all runs of this thread so far, and crashes delivered.
pub fn totals() -> (u64, u64) {
    (TOTAL.get() + TICKS.get(), CRASHES.get())
}

/// Set the current run aside, to run another one inside it.
pub fn save() -> Saved {
    let s = Saved {
        ticks: TICKS.get(),
        next: NEXT.get(),
        budget: BUDGET.get(),
        crash: CRASH.get(),
        hook_at: HOOK_AT.get(),
        hook: HOOK.with(|h| h.borrow_mut().take()),
    };
    TICKS.set(0);
    BUDGET.set(u64::MAX);
    CRASH.set(u64::MAX);
    HOOK_AT.set(u64::MAX);
    arm();
    s
}
pub fn restore(s: Saved) {
    TOTAL.set(TOTAL.get() + TICKS.get());
    TICKS.set(s.ticks);
    NEXT.set(s.next);
    BUDGET.set(s.budget);
    CRASH.set(s.crash);
    HOOK_AT.set(s.hook_at);
    HOOK.with(|h| *h.borrow_mut() = s.hook);
}

#[cold]
#[inline(never)]
fn slow(n: u64) {
    if n >= HOOK_AT.get() {
        let hook = HOOK.with(|h| h.borrow_mut().take());
        HOOK_AT.set(u64::MAX);
        arm();
        if let Some(mut f) = hook {
            let at = f(n);
            // the hook may have replaced itself
            HOOK.with(|h| {
                let mut h = h.borrow_mut();
                if h.is_none() {
                    *h = Some(f);
                    HOOK_AT.set(at);
                }
            });
            arm();
        }
    }
    if std::thread::panicking() {
        return;
    }
    if n >= CRASH.get() {
        CRASH.set(u64::MAX);
        arm();
        CRASHES.set(CRASHES.get() + 1);
        std::panic::resume_unwind(Box::new(Stop::Crash));
    }
    if n >= BUDGET.get() {
        BUDGET.set(u64::MAX);
        arm();
        std::panic::resume_unwind(Box::new(Stop::Budget));
    }
}

#[inline(always)]
pub fn tick() {
    let n = TICKS.get() + 1;
    TICKS.set(n);
    if n >= NEXT.get() {
        slow(n);
    }
}

/// How a guarded run ended.
#[derive(Debug)]
pub enum Out<T> {
    Done(T),
    Panic(String),
    Crash,
    Budget,
}

impl<T> Out<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Done(t) => Out::Done(f(t)),
            Out::Panic(s) => Out::Panic(s),
            Out::Crash => Out::Crash,
            Out::Budget => Out::Budget,
        }
    }
}

pub fn guarded<T>(budget: u64, crash: u64, f: impl FnOnce() -> T) -> Out<T> {
    start(budget, crash);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    BUDGET.set(u64::MAX);
    CRASH.set(u64::MAX);
    arm();
    match r {
        Ok(t) => Out::Done(t),
        Err(e) => {
            if let Some(s) = e.downcast_ref::<Stop>() {
                match s {
                    Stop::Budget => Out::Budget,
                    Stop::Crash => Out::Crash,
                }
            } else if let Some(s) = e.downcast_ref::<String>() {
                Out::Panic(s.clone())
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Out::Panic(s.to_string())
            } else {
                Out::Panic("?".into())
            }
        }
    }
}

/// Code regions executed so far (instrumented build only): a measure of work
/// which sees loops that touch no user code.
#[cfg(vsim_cov)]
pub fn regions() -> u64 {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *const u64;
        fn __llvm_profile_end_counters() -> *const u64;
    }
    let mut n = 0u64;
    // SAFETY: the counters lie between the two, and no other thread runs instrumented code
    unsafe {
        let (mut p, end) = (__llvm_profile_begin_counters(), __llvm_profile_end_counters());
        while p < end {
            n = n.wrapping_add(p.read_volatile());
            p = p.add(1);
        }
    }
    n
}
#[cfg(not(vsim_cov))]
pub fn regions() -> u64 {
    0
}
