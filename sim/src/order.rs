//! The insertion-order schedule: every word the library draws.

use crate::prng::{Fold, Prng};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Order {
    /// 0: uniform. 1: (nearly) the identity. 2: (nearly) always the first choice.
    /// 3: identity with a random word now and then. 4: first choice with a random word now and then.
    pub mode: u8,
    pub seed: u64,
    /// Words handed out first.
    pub words: Vec<u64>,
}

pub const MODES: u64 = 5;

impl Order {
    pub fn random(seed: u64) -> Self {
        Order { mode: 0, seed, words: vec![] }
    }
    pub fn any(r: &mut Prng) -> Self {
        let mode = if r.chance(3, 4) { 0 } else { r.below(MODES) as u8 };
        Order { mode, seed: r.next(), words: vec![] }
    }
    pub fn adversarial(r: &mut Prng) -> Self {
        Order { mode: r.below(MODES) as u8, seed: r.next(), words: vec![] }
    }
    pub fn describe(&self) -> &'static str {
        ["uniform", "identity", "first", "identity+", "first+"][self.mode as usize % 5]
    }
}

pub struct Handle {
    fold: Rc<Cell<Fold>>,
    drawn: Rc<Cell<u64>>,
    rec: Option<Rc<RefCell<Vec<u64>>>>,
}
impl Handle {
    /// A hash of the schedule actually taken, and its length.
    pub fn taken(&self) -> (u64, u64) {
        (self.fold.get().0, self.drawn.get())
    }
    pub fn recorded(&self) -> Vec<u64> {
        self.rec.as_ref().map(|r| r.borrow().clone()).unwrap_or_default()
    }
}

impl Order {
    /// Make this the schedule of the calling thread.
    pub fn install(&self) -> Handle {
        self.install_with(RECORD.with(|r| r.get()))
    }
    fn install_with(&self, record: bool) -> Handle {
        let fold = Rc::new(Cell::new(Fold::default()));
        let drawn = Rc::new(Cell::new(0u64));
        let rec = record.then(|| Rc::new(RefCell::new(vec![])));
        let (f2, d2, r2) = (fold.clone(), drawn.clone(), rec.clone());
        let me = self.clone();
        let mut r = Prng::new(self.seed ^ 0x0DDE_5EED);
        getrandom::sim_seed(self.seed ^ 0xE17);
        rand::sim_install(Some(Box::new(move || {
            let k = d2.get() as usize;
            let x = r.next();
            let low = x & ((1 << 40) - 1);
            let w = if k < me.words.len() {
                me.words[k]
            } else {
                match me.mode {
                    1 => low | (0xFF_FFFF << 40),
                    2 => low,
                    3 if r.chance(7, 8) => low | (0xFF_FFFF << 40),
                    4 if r.chance(7, 8) => low,
                    _ => x,
                }
            };
            d2.set(k as u64 + 1);
            let mut f = f2.get();
            f.add(w >> 32);
            f2.set(f);
            if let Some(rec) = &r2 {
                if k < 2_000_000 {
                    rec.borrow_mut().push(w);
                }
            }
            w
        })));
        if let Some(rec) = &rec {
            LAST.with(|l| *l.borrow_mut() = Some(rec.clone()));
        }
        Handle { fold, drawn, rec }
    }
}

thread_local! {
    static RECORD: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<Option<Rc<RefCell<Vec<u64>>>>> = const { RefCell::new(None) };
}
/// Record the words drawn from now on (used when a failing run is minimised).
pub fn record(on: bool) {
    RECORD.with(|r| r.set(on));
    LAST.with(|l| *l.borrow_mut() = None);
}
/// Hand a recording made on another thread to this one.
pub fn put_recorded(w: Vec<u64>) {
    LAST.with(|l| *l.borrow_mut() = Some(Rc::new(RefCell::new(w))));
}
/// Words drawn under the schedule installed last.
pub fn last_recorded() -> Vec<u64> {
    LAST.with(|l| l.borrow().as_ref().map(|r| r.borrow().clone()).unwrap_or_default())
}
