//! Registry of tracked elements and the fuse for injected panics.
//!
//! A tracked element carries the index of its registry entry.  Every use of an element checks that
//! it is alive, and dropping it marks it dead, so double drops, uses after drop, lost elements and
//! torn elements are all noticed.
use std::any::Any;
use std::cell::{Cell, RefCell};

const TAG: u32 = 0x5C10_0000;
const MASK: u32 = 0x000F_FFFF;

#[derive(Clone, Copy)]
struct Ent {
    pay: u64,
    live: bool,
}

thread_local! {
    static ENTS: RefCell<Vec<Ent>> = const { RefCell::new(Vec::new()) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static FUSE: Cell<(u8, u32)> = const { Cell::new((0, 0)) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub const CLONE: u8 = 1;
pub const DROP: u8 = 2;
pub const EQ: u8 = 4;
pub const HASH: u8 = 8;
pub const FMT: u8 = 16;

struct Injected;

pub fn is_injected(p: &(dyn Any + Send)) -> bool {
    p.is::<Injected>()
}

pub fn reset() {
    ENTS.with(|e| e.borrow_mut().clear());
    LIVE.with(|l| l.set(0));
    BAD.with(|b| *b.borrow_mut() = None);
    FUSE.with(|f| f.set((0, 0)));
}

/// Make the `n`th (from 0) of the following calls of the given kinds panic.
pub fn arm(kinds: u8, n: u32) {
    FUSE.with(|f| f.set((kinds, n + 1)));
}
pub fn disarm() {
    FUSE.with(|f| f.set((0, 0)));
}
/// Whether the fuse has not gone off yet.
pub fn armed() -> bool {
    FUSE.with(|f| f.get().1 > 0)
}

pub fn tick(kind: u8) {
    CALLS.with(|c| c.set(c.get() + 1));
    let go = FUSE.with(|f| {
        let (k, n) = f.get();
        if n > 0 && k & kind != 0 {
            f.set((k, n - 1));
            n == 1
        } else {
            false
        }
    });
    if go && !std::thread::panicking() {
        std::panic::panic_any(Injected);
    }
}

pub fn violate(m: String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(m);
        }
    });
}
pub fn violation() -> Option<String> {
    BAD.with(|b| b.borrow().clone())
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub fn birth(pay: u64) -> u32 {
    LIVE.with(|l| l.set(l.get() + 1));
    ENTS.with(|e| {
        let mut e = e.borrow_mut();
        e.push(Ent { pay, live: true });
        let i = (e.len() - 1) as u32;
        assert!(i < MASK, "too many tracked elements in one case");
        TAG | i
    })
}

/// The payload of a live element.
pub fn look(id: u32, what: &str) -> Option<u64> {
    let r = ENTS.with(|e| {
        if id & !MASK != TAG {
            return Err("something that is not an element");
        }
        match e.borrow().get((id & MASK) as usize) {
            None => Err("something that is not an element"),
            Some(x) if !x.live => Err("an element that has been dropped"),
            Some(x) => Ok(x.pay),
        }
    });
    match r {
        Ok(p) => Some(p),
        Err(m) => {
            violate(format!("{} of {} ({:#x})", what, m, id));
            None
        }
    }
}

pub fn set_pay(id: u32, pay: u64) {
    ENTS.with(|e| {
        if let Some(x) = e.borrow_mut().get_mut((id & MASK) as usize) {
            x.pay = pay;
        }
    });
}

pub fn death(id: u32) {
    if look(id, "drop").is_some() {
        LIVE.with(|l| l.set(l.get() - 1));
        ENTS.with(|e| e.borrow_mut()[(id & MASK) as usize].live = false);
    }
}

/// An element without a size.
pub fn birth0() {
    LIVE.with(|l| l.set(l.get() + 1));
}
pub fn death0() {
    LIVE.with(|l| l.set(l.get() - 1));
}

/// A bit set of the payloads of all live elements, sorted (for tests of the harness itself).
pub fn live_pays() -> Vec<u64> {
    let mut v: Vec<u64> = ENTS.with(|e| e.borrow().iter().filter(|x| x.live).map(|x| x.pay).collect());
    v.sort();
    v
}
