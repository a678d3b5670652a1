//! Data is only accessible as the type it was stored with.
//!
//! Every type of the list is an agent: it makes containers of its type, and tries to use any
//! container as its type.  Which of the attempts are granted must depend only on whether the
//! container was made by the same agent.
use dync::traits::*;
use dync::*;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use vh::elts::*;
use vh::engine::*;
use vh::reg;
use vh::src::Src;
use vh::vt::*;
use vh::{ck, cke};

type P = PartVTable;

trait Ty: 'static + Clone + PartialEq + Debug {
    const TRACKED: bool;
    fn mk(p: u64) -> Self;
    fn rd(&self) -> u64;
}

macro_rules! via {
    ($($t:ty),* $(,)?) => { $(
        impl Ty for $t {
            const TRACKED: bool = <$t as Elt>::TRACKED;
            fn mk(p: u64) -> Self { <$t as Elt>::make(p) }
            fn rd(&self) -> u64 { Elt::pay(self) }
        }
    )* };
}
macro_rules! ty {
    ($($t:ty, |$p:ident| $mk:expr, |$x:ident| $rd:expr;)*) => { $(
        impl Ty for $t {
            const TRACKED: bool = false;
            fn mk($p: u64) -> Self { $mk }
            fn rd(&self) -> u64 { let $x = self; ($rd) as u64 }
        }
    )* };
}
via!(
    u8,
    i8,
    bool,
    W<u8>,
    u32,
    i32,
    f32,
    char,
    W<u32>,
    u64,
    i64,
    usize,
    isize,
    f64,
    W<u64>,
    u128,
    i128,
    [u32; 2],
    [u64; 2],
    W<[u64; 2]>,
    [u64; 1],
    String,
    W<String>,
    [u64; 3],
    [i64; 3],
    [f64; 3],
    Tk24,
    W<Tk24>,
    TkBox,
    W<TkBox>,
    TkWord,
    W<TkWord>,
    Tk8,
    Tk4,
    W<Tk4>,
    A64,
    W<A64>,
);

static WORDS: [&str; 5] = ["", "a", "bc", "def", "ghij"];
fn add1(x: u64) -> u64 {
    x + 1
}
fn add2(x: u64) -> u64 {
    x + 2
}
fn neg1(x: i64) -> i64 {
    -x
}
fn neg2(x: i64) -> i64 {
    -x - 1
}
static CALLED: AtomicU64 = AtomicU64::new(0);
fn any1<'a>(_: &'a u8) {
    CALLED.store(0, SeqCst)
}
fn any2<'a>(_: &'a u8) {
    CALLED.store(1, SeqCst)
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Empty;

ty! {
    [u8; 4], |p| (p as u32).to_le_bytes(), |x| u32::from_le_bytes(*x);
    [u16; 2], |p| [p as u16, (p >> 16) as u16], |x| x[0] as u64 | (x[1] as u64) << 16;
    (u16, u16), |p| (p as u16, (p >> 16) as u16), |x| x.0 as u64 | (x.1 as u64) << 16;
    [u8; 24], |p| { let mut a = [7; 24]; a[..8].copy_from_slice(&p.to_le_bytes()); a }, |x| u64::from_le_bytes(x[..8].try_into().unwrap());
    &'static u8, |p| &WORDS[4].as_bytes()[p as usize % 4], |x| *x as *const u8 as usize - WORDS[4].as_ptr() as usize;
    *const u8, |p| p as usize as *const u8, |x| *x as usize;
    *mut u8, |p| p as usize as *mut u8, |x| *x as usize;
    fn(u64) -> u64, |p| if p % 2 == 0 { add1 } else { add2 }, |x| x(5);
    fn(i64) -> i64, |p| if p % 2 == 0 { neg2 } else { neg1 }, |x| x(5);
    for<'a> fn(&'a u8), |p| if p % 2 == 0 { any1 } else { any2 }, |x| { x(&0); CALLED.load(SeqCst) };
    fn(&'static u8), |p| if p % 2 == 0 { any1 } else { any2 }, |x| { x(&0); CALLED.load(SeqCst) };
    Box<u64>, |p| Box::new(p), |x| **x;
    Box<i64>, |p| Box::new(p as i64), |x| **x;
    Option<Box<u64>>, |p| if p % 5 == 0 { None } else { Some(Box::new(p)) }, |x| x.as_ref().map_or(0, |x| **x);
    Rc<u64>, |p| Rc::new(p), |x| **x;
    Arc<u64>, |p| Arc::new(p), |x| **x;
    &'static str, |p| WORDS[p as usize % 5], |x| x.len();
    &'static [u8], |p| WORDS[p as usize % 5].as_bytes(), |x| x.len();
    Box<str>, |p| format!("{}", p).into(), |x| x.parse::<u64>().unwrap();
    Box<[u8]>, |p| p.to_le_bytes().into(), |x| u64::from_le_bytes(x[..].try_into().unwrap());
    Vec<u8>, |p| p.to_le_bytes().into(), |x| u64::from_le_bytes(x[..].try_into().unwrap());
    Vec<i8>, |p| p.to_le_bytes().iter().map(|&x| x as i8).collect(), |x| x.iter().rev().fold(0u64, |a, &b| a << 8 | b as u8 as u64);
    Option<String>, |p| if p % 5 == 0 { None } else { Some(p.to_string()) }, |x| x.as_ref().map_or(0, |x| x.parse::<u64>().unwrap());
    (), |p| { let _ = p; }, |x| { let _ = x; 0 };
    Empty, |p| { let _ = p; Empty }, |x| { let _ = x; 0 };
    PhantomData<u8>, |p| { let _ = p; PhantomData }, |x| { let _ = x; 0 };
}

fn canon<T: Ty>(p: u64) -> u64 {
    T::mk(p).rd()
}
fn rds<T: Ty>(s: &[T]) -> Vec<u64> {
    s.iter().map(|x| x.rd()).collect()
}

/// How many live tracked elements there should be besides those held by the operands.
fn no_leak(before: i64, what: &str) -> R {
    cke!(reg::live(), before, "live elements after {}", what);
    Ok(())
}

/// Typed storage that someone else made, to be viewed untyped.
trait Store {
    fn slice(&self) -> Slice<'_, P>;
    fn slice_mut(&mut self) -> SliceMut<'_, P>;
    fn value(&self, i: usize) -> ValueRef<'_, P>;
    fn value_mut(&mut self, i: usize) -> ValueMut<'_, P>;
    fn rds(&self) -> Vec<u64>;
}
struct Kept<T>(Vec<T>);
impl<T: Ty> Store for Kept<T> {
    fn slice(&self) -> Slice<'_, P> {
        Slice::from_slice(&self.0)
    }
    fn slice_mut(&mut self) -> SliceMut<'_, P> {
        SliceMut::from_slice(&mut self.0)
    }
    fn value(&self, i: usize) -> ValueRef<'_, P> {
        ValueRef::new(&self.0[i])
    }
    fn value_mut(&mut self, i: usize) -> ValueMut<'_, P> {
        ValueMut::new(&mut self.0[i])
    }
    fn rds(&self) -> Vec<u64> {
        rds(&self.0)
    }
}
trait CStore {
    fn slice(&self) -> SliceCopy<'_, P>;
    fn slice_mut(&mut self) -> SliceCopyMut<'_, P>;
    fn value(&self, i: usize) -> CopyValueRef<'_, P>;
    fn value_mut(&mut self, i: usize) -> CopyValueMut<'_, P>;
    fn rds(&self) -> Vec<u64>;
}
impl<T: Ty + Copy> CStore for Kept<T> {
    fn slice(&self) -> SliceCopy<'_, P> {
        SliceCopy::from_slice(&self.0)
    }
    fn slice_mut(&mut self) -> SliceCopyMut<'_, P> {
        SliceCopyMut::from_slice(&mut self.0)
    }
    fn value(&self, i: usize) -> CopyValueRef<'_, P> {
        CopyValueRef::new(&self.0[i])
    }
    fn value_mut(&mut self, i: usize) -> CopyValueMut<'_, P> {
        CopyValueMut::new(&mut self.0[i])
    }
    fn rds(&self) -> Vec<u64> {
        rds(&self.0)
    }
}

// What an attempt does with the container: nothing that lasts, or replace an element or all.
#[derive(Debug, PartialEq, Clone)]
enum Eff {
    None,
    Push,
    Set(usize),
    All,
    Len(usize),
}
type Got = (bool, Eff);

/// Attempts on a vector as a vector of `U`; index `i` is in range when `n > 0`.
const VEC_ANY: usize = 22;
fn vec_any<U: Ty, V: ?Sized + HasDrop + HasClone>(k: usize, v: &mut VecDyn<V>, i: usize, p: u64) -> Got {
    let n = v.len();
    let none = Eff::None;
    match k {
        0 => (v.as_slice_as::<U>().is_some(), none),
        1 => (v.as_mut_slice_as::<U>().is_some(), none),
        2 => (v.iter_as::<U>().is_some(), none),
        3 => (v.iter_mut_as::<U>().is_some(), none),
        4 => (v.check_ref::<U>().is_some(), none),
        5 => (v.check_mut::<U>().is_some(), none),
        6 => (v.clone_into_vec::<U>().is_some(), none),
        7 => {
            let mut o = vec![U::mk(p)];
            let g = v.append_cloned_to_vec(&mut o).is_some();
            // A refusal leaves the target alone as well.
            (g || o.len() != 1, none)
        }
        8 => (v.push_as(U::mk(p)).is_some(), Eff::Push),
        9 => (v.push(BoxValue::<P>::new(U::mk(p))).is_some(), Eff::Push),
        10 => (v.resize(n + 1, U::mk(p)).is_some(), Eff::Push),
        11 => (v.resize(n / 2, U::mk(p)).is_some(), Eff::Len(n / 2)),
        12 => (v.fill(U::mk(p)).is_some(), Eff::All),
        13 => (v.as_slice().as_slice::<U>().is_some(), none),
        14 => (v.as_mut_slice().as_slice::<U>().is_some(), none),
        15 => (v.resize(n, U::mk(p)).is_some(), none),
        16 => (v.as_slice().iter_as::<U>().is_some(), none),
        _ if n == 0 => (v.as_mut_slice().iter_as::<U>().is_some(), none),
        17 => (v.get_ref_as::<U>(i).is_some(), none),
        18 => (v.get_mut_as::<U>(i).map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        19 => (v.get(i).downcast::<U>().is_some(), none),
        20 => (v.get_mut(i).downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        _ => {
            let a = v.get(i).is::<U>();
            let b = v.get_mut(i).is::<U>();
            let c = v.iter().nth(i).map_or(false, |x| x.downcast::<U>().is_some());
            let d = v.iter_mut().nth(i).map_or(false, |x| x.downcast::<U>().is_some());
            (if a { b && c && d } else { b || c || d }, none)
        }
    }
}
/// Attempts that need values with the vector's own table.
const VEC_OWN: usize = 10;
fn vec_own<U: Ty>(k: usize, v: &mut VecDyn<P>, i: usize, p: u64) -> Got {
    let n = v.len();
    let mut w: VecDyn<P> = VecDyn::from_vec(vec![U::mk(p)]);
    match k {
        0 => (v.push_cloned(w.get(0)).is_some(), Eff::Push),
        1 => {
            let g = v.append(&mut w).is_some();
            (g || w.len() != 1, Eff::Push)
        }
        2 => {
            let g = v.push_cloned(BoxValue::<P>::new(U::mk(p)).as_ref()).is_some();
            (g, Eff::Push)
        }
        3 => {
            // Vectors of different types are never equal, unless both are empty.
            if n == 0 {
                return (v.check_ref::<U>().is_some(), Eff::None);
            }
            let w = VecDyn::<P>::from_vec(vec![U::mk(p); n]);
            let e = *v == w || w == *v || v.as_slice() == w.as_slice() || v.get(i) == w.get(i);
            let t = v.check_ref::<U>().is_some();
            (e || t, Eff::None)
        }
        _ if n == 0 => (v.push(BoxValue::<DropVTable>::new(U::mk(p))).is_some(), Eff::Push),
        4 => {
            let mut m = w.get_mut(0);
            v.get_mut(i).swap(&mut m);
            let back = w.as_slice_as::<U>().map(|x| x[0].rd());
            let t = v.check_ref::<U>().is_some();
            // Refused: the partner has still what it had.
            (t || back != Some(canon::<U>(p)), Eff::Set(i))
        }
        5 => {
            v.get_mut(i).assign(BoxValue::<P>::new(U::mk(p)));
            (v.check_ref::<U>().is_some(), Eff::Set(i))
        }
        6 => (v.get_mut(i).clone_from_other(w.get(0)).is_ok(), Eff::Set(i)),
        7 => {
            let o = vec![U::mk(p); n];
            (v.as_mut_slice().clone_from_slice(&o).is_some(), Eff::All)
        }
        8 => {
            if let Some(x) = SmallValue::<P>::try_new(U::mk(p)) {
                v.get_mut(i).assign(x);
                (v.check_ref::<U>().is_some(), Eff::Set(i))
            } else {
                (v.push_as(U::mk(p)).is_some(), Eff::Push)
            }
        }
        _ => (v.get_mut(i).clone_from_other(ValueRef::new(&U::mk(p))).is_ok(), Eff::Set(i)),
    }
}

const SLICE: usize = 9;
fn slice_any<U: Ty, V: ?Sized + HasDrop + HasClone>(k: usize, v: Slice<V>, i: usize) -> bool {
    match k {
        0 => v.as_slice::<U>().is_some(),
        1 => v.check::<U>().is_some(),
        2 => v.iter_as::<U>().is_some(),
        3 => v.clone_into_vec::<U>().is_some(),
        4 => {
            let mut o = vec![];
            v.append_clone_to_vec::<U>(&mut o).is_some() || !o.is_empty()
        }
        5 => v.reborrow().as_slice::<U>().is_some(),
        6 => v.into_subslice(..).as_slice::<U>().is_some(),
        _ if v.len() == 0 => v.split_at(0).0.as_slice::<U>().is_some(),
        7 => v.get_as::<U>(i).is_some(),
        _ => v.get(i).downcast::<U>().is_some(),
    }
}
const SLICE_MUT: usize = 14;
fn slice_mut_any<U: Ty>(k: usize, mut v: SliceMut<P>, i: usize, p: u64) -> Got {
    let none = Eff::None;
    let n = v.len();
    match k {
        0 => (v.as_slice::<U>().is_some(), none),
        1 => (v.check::<U>().is_some(), none),
        2 => (v.iter_as::<U>().is_some(), none),
        3 => (v.clone_into_vec::<U>().is_some(), none),
        4 => {
            let mut o = vec![];
            (v.append_clone_to_vec::<U>(&mut o).is_some() || !o.is_empty(), none)
        }
        5 => (v.reborrow().as_slice::<U>().is_some(), none),
        6 => (v.reborrow_mut().as_slice::<U>().is_some(), none),
        7 => (v.into_subslice(..).as_slice::<U>().is_some(), none),
        8 => (v.clone_from_slice(&vec![U::mk(p); n]).is_some(), Eff::All),
        9 => (Slice::from(&v).as_slice::<U>().is_some(), none),
        _ if n == 0 => (v.split_at(0).1.as_slice::<U>().is_some(), none),
        10 => (v.get_as::<U>(i).map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        11 => (v.get(i).downcast::<U>().is_some(), none),
        12 => (v.get_mut(i).downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        _ => (
            v.into_iter().nth(i).map_or(false, |x| x.downcast::<U>().map(|x| *x = U::mk(p)).is_some()),
            Eff::Set(i),
        ),
    }
}

const VALUE: usize = 5;
fn value_any<U: Ty>(k: usize, v: ValueRef<P>) -> bool {
    match k {
        0 => v.is::<U>(),
        1 => v.reborrow().downcast::<U>().is_some(),
        2 => v.clone_value().downcast::<U>().is_some(),
        3 => v.upcast::<DropVTable>().downcast::<U>().is_some(),
        _ => v.downcast::<U>().is_some(),
    }
}
const VALUE_MUT: usize = 8;
fn value_mut_any<U: Ty>(k: usize, mut v: ValueMut<P>, p: u64) -> Got {
    let is = v.is::<U>();
    match k {
        0 => (v.reborrow().downcast::<U>().is_some(), Eff::None),
        1 => (v.reborrow_mut().downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(0)),
        2 => (v.clone_value().downcast::<U>().is_some(), Eff::None),
        3 => (v.upcast::<DropVTable>().downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(0)),
        4 => {
            let mut u = U::mk(p);
            v.swap(&mut ValueMut::new(&mut u));
            (is || u.rd() != canon::<U>(p), Eff::Set(0))
        }
        5 => {
            v.assign(BoxValue::<P>::new(U::mk(p)));
            (is, Eff::Set(0))
        }
        6 => (v.clone_from_other(ValueRef::new(&U::mk(p))).is_ok(), Eff::Set(0)),
        _ => (v.downcast::<U>().is_some(), Eff::None),
    }
}

/// A type as seen by the cases.
trait Agent: Sync {
    fn name(&self) -> &'static str;
    fn tracked(&self) -> bool;
    fn zst(&self) -> bool;
    fn word(&self) -> bool;
    fn canon(&self, p: u64) -> u64;
    fn vec(&self, m: &[u64]) -> VecDyn<P>;
    fn read(&self, v: &VecDyn<P>) -> Option<Vec<u64>>;
    fn take(&self, v: VecDyn<P>) -> Option<Vec<u64>>;
    fn take_dyn(&self, v: VecDyn<dyn HasPart>) -> Option<Vec<u64>>;
    fn take_drop(&self, v: VecDyn<DropVTable>) -> Option<Vec<u64>>;
    fn store(&self, m: &[u64]) -> Box<dyn Store>;
    fn boxed(&self, p: u64) -> BoxValue<P>;
    fn small(&self, p: u64) -> Option<SmallValue<P>>;
    fn unbox(&self, v: BoxValue<P>) -> Option<u64>;
    fn unsmall(&self, v: SmallValue<P>) -> Option<u64>;
    fn on_vec(&self, k: usize, v: &mut VecDyn<P>, i: usize, p: u64) -> Got;
    fn on_vec_dyn(&self, k: usize, v: &mut VecDyn<dyn HasPart>, i: usize, p: u64) -> Got;
    fn on_slice(&self, k: usize, v: Slice<P>, i: usize) -> bool;
    fn on_slice_dyn(&self, k: usize, v: Slice<dyn HasPart>, i: usize) -> bool;
    fn on_slice_mut(&self, k: usize, v: SliceMut<P>, i: usize, p: u64) -> Got;
    fn on_value(&self, k: usize, v: ValueRef<P>) -> bool;
    fn on_value_mut(&self, k: usize, v: ValueMut<P>, p: u64) -> Got;
}
struct Ag<T>(PhantomData<fn() -> T>);
impl<T: Ty> Agent for Ag<T> {
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn tracked(&self) -> bool {
        T::TRACKED
    }
    fn zst(&self) -> bool {
        std::mem::size_of::<T>() == 0
    }
    fn word(&self) -> bool {
        std::mem::size_of::<T>() == std::mem::size_of::<usize>()
    }
    fn canon(&self, p: u64) -> u64 {
        canon::<T>(p)
    }
    fn vec(&self, m: &[u64]) -> VecDyn<P> {
        VecDyn::from_vec(m.iter().map(|&p| T::mk(p)).collect())
    }
    fn read(&self, v: &VecDyn<P>) -> Option<Vec<u64>> {
        v.as_slice_as::<T>().map(rds)
    }
    fn take(&self, v: VecDyn<P>) -> Option<Vec<u64>> {
        v.into_vec::<T>().map(|x| rds(&x))
    }
    fn take_dyn(&self, v: VecDyn<dyn HasPart>) -> Option<Vec<u64>> {
        v.check::<T>()?.into_vec::<T>().map(|x| rds(&x))
    }
    fn take_drop(&self, v: VecDyn<DropVTable>) -> Option<Vec<u64>> {
        v.into_vec::<T>().map(|x| rds(&x))
    }
    fn store(&self, m: &[u64]) -> Box<dyn Store> {
        Box::new(Kept(m.iter().map(|&p| T::mk(p)).collect()))
    }
    fn boxed(&self, p: u64) -> BoxValue<P> {
        BoxValue::new(T::mk(p))
    }
    fn small(&self, p: u64) -> Option<SmallValue<P>> {
        SmallValue::try_new(T::mk(p))
    }
    fn unbox(&self, v: BoxValue<P>) -> Option<u64> {
        v.downcast::<T>().map(|x| x.rd())
    }
    fn unsmall(&self, v: SmallValue<P>) -> Option<u64> {
        v.downcast::<T>().map(|x| x.rd())
    }
    fn on_vec(&self, k: usize, v: &mut VecDyn<P>, i: usize, p: u64) -> Got {
        if k < VEC_ANY {
            vec_any::<T, P>(k, v, i, p)
        } else {
            vec_own::<T>(k - VEC_ANY, v, i, p)
        }
    }
    fn on_vec_dyn(&self, k: usize, v: &mut VecDyn<dyn HasPart>, i: usize, p: u64) -> Got {
        vec_any::<T, dyn HasPart>(k, v, i, p)
    }
    fn on_slice(&self, k: usize, v: Slice<P>, i: usize) -> bool {
        slice_any::<T, P>(k, v, i)
    }
    fn on_slice_dyn(&self, k: usize, v: Slice<dyn HasPart>, i: usize) -> bool {
        slice_any::<T, dyn HasPart>(k, v, i)
    }
    fn on_slice_mut(&self, k: usize, v: SliceMut<P>, i: usize, p: u64) -> Got {
        slice_mut_any::<T>(k, v, i, p)
    }
    fn on_value(&self, k: usize, v: ValueRef<P>) -> bool {
        value_any::<T>(k, v)
    }
    fn on_value_mut(&self, k: usize, v: ValueMut<P>, p: u64) -> Got {
        value_mut_any::<T>(k, v, p)
    }
}

/// Groups of types of equal size and alignment.
macro_rules! agents {
    ($name:ident : $tr:ident $ag:ident; $( [ $($t:ty),* $(,)? ] )*) => {
        static $name: &[&[&dyn $tr]] = &[ $( &[ $( &$ag::<$t>(PhantomData) ),* ] ),* ];
    };
}
agents! { ALL: Agent Ag;
    [u8, i8, bool, W<u8>]
    [[u16; 2], (u16, u16)]
    [u32, i32, f32, char, W<u32>]
    [u64, i64, usize, isize, f64, W<u64>, [u64; 1], &'static u8, *const u8, *mut u8, fn(u64) -> u64, fn(i64) -> i64, for<'a> fn(&'a u8),
     fn(&'static u8), Box<u64>, Box<i64>, Option<Box<u64>>, Rc<u64>, Arc<u64>, TkWord, W<TkWord>]
    [[u64; 2], W<[u64; 2]>, &'static str, &'static [u8], Box<str>, Box<[u8]>]
    [u128, i128]
    [String, W<String>, Vec<u8>, Vec<i8>, Option<String>, [u64; 3], [i64; 3], [f64; 3]]
    [Tk24, W<Tk24>, TkBox, W<TkBox>]
    [Tk4, W<Tk4>]
    [[u8; 4]]
    [[u32; 2], Tk8]
    [[u8; 24]]
    [A64, W<A64>]
    [(), Empty, PhantomData<u8>]
}

/// Choose the type of the data and the type used on it: often the same, mostly of the same layout.
fn two<A: ?Sized>(s: &mut Src, all: &'static [&'static [&'static A]], skip_last: bool) -> (&'static A, &'static A, bool) {
    let groups = all.len() - skip_last as usize;
    let g = s.weighted(&[1, 1, 1, 6, 2, 1, 3, 2, 1, 1, 1, 1, 1, 1][..groups]);
    let i = s.below(all[g].len());
    match s.below(8) {
        0 | 1 => (all[g][i], all[g][i], true),
        2 => {
            let h = s.below(groups);
            let j = s.below(all[h].len());
            (all[g][i], all[h][j], (g, i) == (h, j))
        }
        _ => {
            let j = s.below(all[g].len());
            (all[g][i], all[g][j], i == j)
        }
    }
}

fn contents(s: &mut Src) -> Vec<u64> {
    s.pays(5)
}
fn apply(m: &mut Vec<u64>, e: &Eff, p: u64) {
    match e {
        Eff::None => {}
        Eff::Push => m.push(p),
        Eff::Set(i) => m[*i] = p,
        Eff::All => m.iter_mut().for_each(|x| *x = p),
        Eff::Len(l) => m.truncate(*l),
    }
}
fn verdict(same: bool, g: bool, what: &str) -> R {
    ck!(
        g == same,
        "{}: {}",
        what,
        if g { "granted for another type" } else { "refused for the right type" }
    );
    Ok(())
}

/// Attempts on vectors in generated states.
fn vectors(s: &mut Src) -> R {
    let (a, b, same) = two(s, ALL, true);
    let mut m: Vec<u64> = contents(s).iter().map(|&p| a.canon(p)).collect();
    s.log(|| format!("vector {:?} of {}, used as {}", m, a.name(), b.name()));
    s.count(if same { "same type" } else { "other type" });
    let mut v = a.vec(&m);
    // Some history, which may involve the other type.
    for _ in 0..s.below(4) {
        let k = s.below(8);
        s.log(|| format!("history {}", k));
        match k {
            0 => v = v.clone(),
            1 => {
                // Clone over a vector of the other type.
                let q: Vec<u64> = contents(s);
                let mut w = b.vec(&q);
                w.clone_from(&v);
                v = w;
            }
            2 => {
                let mut w = b.vec(&contents(s));
                std::mem::swap(&mut v, &mut w);
                std::mem::swap(&mut v, &mut w);
            }
            3 => {
                let mut w = VecDyn::with_type_from(&v);
                ck!(w.append(&mut v).is_some(), "append to a vector of the same type was refused");
                v = w;
            }
            4 => {
                v.clear();
                m.clear();
            }
            5 => {
                let mut w = VecDyn::with_type_from(v.as_slice());
                for x in v.iter() {
                    ck!(w.push_cloned(x).is_some(), "push_cloned to a vector of the same type was refused");
                }
                v = w;
            }
            6 => {
                let mut w = b.vec(&[1]);
                w.clear();
                w = v.clone();
                v = w;
            }
            _ => {
                let h = into_dyn![VecDyn<dyn HasPart>](v);
                v = from_dyn![VecDyn<dyn HasPart as PartVTable>](h);
            }
        }
    }
    for _ in 0..s.range(1, 10) {
        let n = m.len();
        let p = s.pay();
        let i = s.below(n.max(1));
        let k = s.below(VEC_ANY + VEC_OWN + 8);
        s.log(|| format!("attempt {} at {} with {}", k, i, p));
        let before = reg::live();
        if k < VEC_ANY + VEC_OWN {
            let (g, e) = b.on_vec(k, &mut v, i, p);
            verdict(same, g, &format!("attempt {}", k))?;
            if same {
                apply(&mut m, &e, a.canon(p));
            }
        } else {
            match k - VEC_ANY - VEC_OWN {
                0 => cke!(b.take(v.clone()), if same { Some(m.clone()) } else { None }, "into_vec"),
                1 => {
                    let mut h = into_dyn![VecDyn<dyn HasPart>](v);
                    let k = s.below(VEC_ANY);
                    s.log(|| format!("attempt {} while hidden", k));
                    let (g, e) = b.on_vec_dyn(k, &mut h, i, p);
                    verdict(same, g, &format!("attempt {} while hidden", k))?;
                    if same {
                        apply(&mut m, &e, a.canon(p));
                    }
                    v = from_dyn![VecDyn<dyn HasPart as PartVTable>](h);
                }
                2 => cke!(
                    b.take_dyn(into_dyn![VecDyn<dyn HasPart>](v.clone())),
                    if same { Some(m.clone()) } else { None },
                    "into_vec while hidden"
                ),
                3 => cke!(
                    b.take_drop(v.clone().upcast()),
                    if same { Some(m.clone()) } else { None },
                    "into_vec after upcast"
                ),
                4 => {
                    let k = s.below(SLICE);
                    verdict(same, b.on_slice(k, v.as_slice(), i), &format!("attempt {} on its slice", k))?;
                }
                5 => {
                    let k = s.below(SLICE);
                    verdict(
                        same,
                        b.on_slice_dyn(k, into_dyn![Slice<dyn HasPart>](v.as_slice()), i),
                        &format!("attempt {} on its hidden slice", k),
                    )?;
                }
                6 => {
                    let k = s.below(SLICE_MUT);
                    let (g, e) = b.on_slice_mut(k, v.as_mut_slice(), i, p);
                    verdict(same, g, &format!("attempt {} on its mut slice", k))?;
                    if same {
                        apply(&mut m, &e, a.canon(p));
                    }
                }
                _ => ck!((v.element_type_id() == b.vec(&[]).element_type_id()) == same, "element_type_id"),
            }
        }
        if !same {
            no_leak(before, "a refused request")?;
        }
        cke!(a.read(&v), Some(m.clone()), "contents after attempt {}", k);
        if !same {
            cke!(b.read(&v), None, "read as another type");
        }
    }
    cke!(a.take(v), Some(m.clone()), "contents at the end");
    s.nontrivial = !same;
    Ok(())
}

/// Slices and references of typed storage.
fn stores(s: &mut Src) -> R {
    let (a, b, same) = two(s, ALL, true);
    let mut m: Vec<u64> = contents(s).iter().map(|&p| a.canon(p)).collect();
    m.push(a.canon(9));
    let n = m.len();
    s.log(|| format!("slice {:?} of {}, used as {}", m, a.name(), b.name()));
    s.count(if same { "same type" } else { "other type" });
    let mut st = a.store(&m);
    for _ in 0..s.range(1, 10) {
        let p = s.pay();
        let i = s.below(n);
        let t = s.below(8);
        let k = s.below([SLICE, SLICE_MUT, VALUE, VALUE_MUT, 3, SLICE, SLICE_MUT, 4][t]);
        s.log(|| format!("attempt {} {} at {} with {}", t, k, i, p));
        let before = reg::live();
        let (g, e) = match t {
            0 => (b.on_slice(k, st.slice(), i), Eff::None),
            1 => b.on_slice_mut(k, st.slice_mut(), i, p),
            2 => (b.on_value(k, st.value(i)), Eff::None),
            3 => {
                let (g, e) = b.on_value_mut(k, st.value_mut(i), p);
                (g, if e == Eff::None { e } else { Eff::Set(i) })
            }
            4 => {
                // A pair of references.
                let mut o = b.store(&[p]);
                let r = match k {
                    0 => {
                        st.value_mut(i).swap(&mut o.value_mut(0));
                        same
                    }
                    1 => {
                        o.value_mut(0).swap(&mut st.value_mut(i));
                        same
                    }
                    _ => st.value_mut(i).clone_from_other(o.value_mut(0)).is_ok(),
                };
                if !same {
                    cke!(o.rds(), vec![b.canon(p)], "the partner after a refused request");
                } else if k < 2 {
                    cke!(o.rds(), vec![m[i]], "the partner");
                }
                (r, Eff::Set(i))
            }
            5 => {
                // A window on a part.
                let l = s.below(i + 1);
                (b.on_slice(k, st.slice().into_subslice(l..i + 1), i - l), Eff::None)
            }
            6 => {
                let l = s.below(i + 1);
                let (g, e) = b.on_slice_mut(k, st.slice_mut().into_subslice(l..=i), i - l, p);
                let e = match e {
                    Eff::Set(j) => Eff::Set(l + j),
                    Eff::All => {
                        if same {
                            m[l..=i].iter_mut().for_each(|x| *x = a.canon(p));
                        }
                        Eff::None
                    }
                    e => e,
                };
                (g, e)
            }
            _ => {
                // Comparisons between types.
                let o = b.store(&vec![p; n]);
                let e = match k {
                    0 => st.slice() == o.slice(),
                    1 => st.value(i) == o.value(i),
                    2 => st.slice_mut() == b.store(&vec![p; n]).slice_mut(),
                    _ => {
                        let x = st.value(i).clone_value();
                        x == b.boxed(p) || x.as_ref() == o.value(0)
                    }
                };
                ck!(same || !e, "contents of different types are equal");
                (same, Eff::None)
            }
        };
        verdict(same, g, &format!("attempt {} {}", t, k))?;
        if same {
            apply(&mut m, &e, a.canon(p));
        } else {
            no_leak(before, "a refused request")?;
        }
        cke!(st.rds(), m, "data after attempt {} {}", t, k);
    }
    s.nontrivial = !same;
    Ok(())
}

/// Owned values.
fn values(s: &mut Src) -> R {
    let (a, b, same) = two(s, ALL, false);
    let mut q = a.canon(s.pay());
    s.log(|| format!("value {} of {}, used as {}", q, a.name(), b.name()));
    s.count(if same { "same type" } else { "other type" });
    for _ in 0..s.range(1, 5) {
        let p = s.pay();
        let k = s.below(14);
        s.log(|| format!("value attempt {} with {}", k, p));
        let before = reg::live();
        {
            let mut x = a.boxed(q);
            let held = reg::live();
            match k {
                0 => cke!(b.unbox(x), if same { Some(q) } else { None }, "downcast of a boxed value"),
                1 => {
                    drop(x);
                    let y = a.small(q);
                    ck!(y.is_some() == a.word(), "try_new of a value of {}", a.name());
                    if let Some(y) = y {
                        cke!(b.unsmall(y), if same { Some(q) } else { None }, "downcast of a small value");
                    }
                }
                2 | 3 => {
                    let j = s.below(VALUE);
                    verdict(same, b.on_value(j, x.as_ref()), "reference to a boxed value")?;
                    cke!(a.unbox(x), Some(q), "boxed value after an attempt");
                }
                4 | 5 => {
                    let j = s.below(VALUE_MUT);
                    let (g, e) = b.on_value_mut(j, x.as_mut(), p);
                    verdict(same, g, "mutable reference to a boxed value")?;
                    if same && e != Eff::None {
                        q = a.canon(p);
                    }
                    if !same {
                        cke!(reg::live(), held, "live elements after a refused request");
                    }
                    cke!(a.unbox(x), Some(q), "boxed value after an attempt");
                }
                6 => {
                    if let Some(mut y) = a.small(q) {
                        drop(x);
                        let j = s.below(VALUE_MUT);
                        let (g, e) = b.on_value_mut(j, y.as_mut(), p);
                        verdict(same, g, "mutable reference to a small value")?;
                        if same && e != Eff::None {
                            q = a.canon(p);
                        }
                        cke!(a.unsmall(y), Some(q), "small value after an attempt");
                    }
                }
                7 => {
                    let y = b.boxed(p);
                    ck!(same || (x != y && y != x && x.as_ref() != y.as_ref()), "values of different types are equal");
                    ck!((x.value_type_id() == y.value_type_id()) == same, "value_type_id");
                }
                8 => {
                    let mut y = b.boxed(p);
                    x.as_mut().swap(&mut y.as_mut());
                    let (x, y) = (a.unbox(x), b.unbox(y));
                    if same {
                        cke!((x, y), (Some(a.canon(p)), Some(q)), "swapped values");
                        q = a.canon(p);
                    } else {
                        cke!((x, y), (Some(q), Some(b.canon(p))), "values after a refused swap");
                    }
                }
                9 => {
                    let y = b.boxed(p);
                    x.as_mut().assign(y);
                    q = if same { a.canon(p) } else { q };
                    if !same {
                        cke!(reg::live(), held, "live elements after a refused assignment");
                    }
                    cke!(a.unbox(x), Some(q), "value after an assignment");
                }
                10 => {
                    let y = b.boxed(p);
                    ck!(x.as_mut().clone_from_other(&y).is_ok() == same, "clone_from_other of a boxed value");
                    cke!(b.unbox(y), Some(b.canon(p)), "source of clone_from_other");
                    q = if same { a.canon(p) } else { q };
                    cke!(a.unbox(x), Some(q), "value after clone_from_other");
                }
                11 => {
                    // Clones have the same type.
                    let y = x.clone();
                    drop(x);
                    cke!(b.unbox(y), if same { Some(q) } else { None }, "downcast of a clone");
                }
                12 => {
                    let y = x.as_ref().clone_value();
                    cke!(a.unbox(y), Some(q), "downcast of a cloned value");
                    if a.word() {
                        let z = x.as_ref().clone_small_value();
                        cke!(b.unsmall(z), if same { Some(q) } else { None }, "downcast of a cloned small value");
                    }
                }
                _ => {
                    // Into a vector of the other type.
                    if !b.zst() {
                        let w: Vec<u64> = contents(s).iter().map(|&p| b.canon(p)).collect();
                        let mut v = b.vec(&w);
                        verdict(same, v.push_cloned(x.as_ref()).is_some(), "push_cloned of a value")?;
                        verdict(same, v.push(x).is_some(), "push of a value")?;
                        let mut w = w;
                        if same {
                            w.extend([q, q]);
                        }
                        cke!(b.take(v), Some(w), "vector after pushes of values");
                    }
                }
            }
        }
        no_leak(before, "the attempt on a value")?;
    }
    s.nontrivial = !same;
    Ok(())
}

// Plain data.

const CVEC: usize = 25;
fn cvec<U: Ty + Copy, V: ?Sized>(k: usize, v: &mut VecCopy<V>, i: usize, p: u64) -> Got {
    let n = v.len();
    let none = Eff::None;
    match k {
        0 => (v.as_slice_as::<U>().is_some(), none),
        1 => (v.as_mut_slice_as::<U>().is_some(), none),
        2 => (v.iter_as::<U>().is_some(), none),
        3 => (v.iter_mut_as::<U>().is_some(), none),
        4 => (v.check_ref::<U>().is_some(), none),
        5 => (v.check_mut::<U>().is_some(), none),
        6 => (v.copy_into_vec::<U>().is_some(), none),
        7 => {
            let mut o = vec![U::mk(p)];
            let g = v.append_copy_to_vec(&mut o).is_some();
            (g || o.len() != 1, none)
        }
        8 => (v.push_as(U::mk(p)).is_some(), Eff::Push),
        9 => {
            let u = U::mk(p);
            // Elements of another size are refused by a panic.
            (caught(|| v.push(CopyValueRef::<P>::new(&u)).is_some()).unwrap_or(false), Eff::Push)
        }
        10 => (v.resize(n + 1, U::mk(p)).is_some(), Eff::Push),
        11 => (v.resize(n / 2, U::mk(p)).is_some(), Eff::Len(n / 2)),
        12 => (v.fill(U::mk(p)).is_some(), Eff::All),
        13 => (v.as_slice().as_slice::<U>().is_some(), none),
        14 => (v.as_mut_slice().as_slice::<U>().is_some(), none),
        15 => (v.copy_from_slice(&vec![U::mk(p); n]).is_some(), Eff::All),
        16 => (v.copy_from_slice(&vec![U::mk(p); n + 1]).is_some(), Eff::Push),
        _ if n == 0 => (v.as_mut_slice().iter_as::<U>().is_some(), none),
        17 => (v.get_ref_as::<U>(i).is_some(), none),
        18 => (v.get_mut_as::<U>(i).map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        19 => (v.get_ref(i).downcast::<U>().is_some(), none),
        20 => (v.get_mut(i).downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        21 => (v.get_as::<U>(i).is_some(), none),
        22 => {
            let a = v.get_ref(i).is::<U>();
            let b = v.get_mut(i).is::<U>();
            let c = v.iter().nth(i).map_or(false, |x| x.downcast::<U>().is_some());
            let d = v.iter_mut().nth(i).map_or(false, |x| x.downcast::<U>().is_some());
            (if a { b && c && d } else { b || c || d }, none)
        }
        23 => {
            let g = v.as_mut_slice().copy_from_slice(&vec![U::mk(p); n]).is_some();
            (g, Eff::All)
        }
        _ => (v.as_slice().get_as::<U>(i).is_some(), none),
    }
}
const CVEC_OWN: usize = 7;
fn cvec_own<U: Ty + Copy>(k: usize, v: &mut VecCopy<P>, i: usize, p: u64) -> Got {
    let mut w: VecCopy<P> = VecCopy::from_vec(vec![U::mk(p)]);
    match k {
        0 => {
            let g = v.append(&mut w).is_some();
            (g || w.len() != 1, Eff::Push)
        }
        // These panic on a mismatch.
        1 => (caught(|| v.extend(w.iter())).is_some(), Eff::Push),
        2 => (caught(|| v.extend(Some(CopyValueRef::<P>::new(&U::mk(p))))).is_some(), Eff::Push),
        6 => {
            // Values of the right type before the one in question.
            let c = v.clone();
            let n = c.len();
            let k = n.min(1 + i % 3);
            let g = caught(|| v.extend(c.iter().take(k).chain(w.iter()).chain(c.iter()))).is_some();
            let at = n + k;
            // What was stored before the refusal came from this very vector.
            let same = |a: CopyValueRef<P>, b: CopyValueRef<P>| a == b || (a != a.clone() && b != b.clone());
            let own = v.len() <= at && (0..v.len()).all(|j| same(v.get_ref(j), c.get_ref(if j < n { j } else { j - n })));
            let whole = g && v.len() == at + 1 + n;
            let t = c.check_ref::<U>().is_some();
            *v = c;
            (if t { whole } else { g || !own }, Eff::None)
        }
        _ if v.is_empty() => (v.check_ref::<U>().is_some(), Eff::None),
        3 => {
            let u = U::mk(p);
            let g = v.get_mut(i).copy(CopyValueRef::new(&u)).is_some();
            (g, Eff::Set(i))
        }
        4 => {
            let t = v.check_ref::<U>().is_some();
            v.get_mut(i).swap(&mut w.get_mut(0));
            let back = w.as_slice_as::<U>().map(|x| x[0].rd());
            (t || back != Some(canon::<U>(p)), Eff::Set(i))
        }
        _ => (v.get_mut(i).copy(w.get_ref(0)).is_some(), Eff::Set(i)),
    }
}
const CSLICE: usize = 10;
fn cslice<U: Ty + Copy>(k: usize, v: SliceCopy<P>, i: usize) -> bool {
    match k {
        0 => v.as_slice::<U>().is_some(),
        1 => v.check::<U>().is_some(),
        2 => v.iter_as::<U>().is_some(),
        3 => v.copy_into_vec::<U>().is_some(),
        4 => {
            let mut o = vec![];
            v.append_copy_to_vec::<U>(&mut o).is_some() || !o.is_empty()
        }
        5 => v.reborrow().as_slice::<U>().is_some(),
        6 => v.into_subslice(..).as_slice::<U>().is_some(),
        _ if v.len() == 0 => v.split_at(0).0.as_slice::<U>().is_some(),
        7 => v.get_as::<U>(i).is_some(),
        8 => v.get(i).downcast::<U>().is_some(),
        _ => v.get(i).is::<U>(),
    }
}
const CSLICE_MUT: usize = 14;
fn cslice_mut<U: Ty + Copy>(k: usize, mut v: SliceCopyMut<P>, i: usize, p: u64) -> Got {
    let none = Eff::None;
    let n = v.len();
    match k {
        0 => (v.as_slice::<U>().is_some(), none),
        1 => (v.check::<U>().is_some(), none),
        2 => (v.iter_as::<U>().is_some(), none),
        3 => (v.copy_into_vec::<U>().is_some(), none),
        4 => {
            let mut o = vec![];
            (v.append_copy_to_vec::<U>(&mut o).is_some() || !o.is_empty(), none)
        }
        5 => (v.reborrow().as_slice::<U>().is_some(), none),
        6 => (v.reborrow_mut().as_slice::<U>().is_some(), none),
        7 => (v.into_subslice(..).as_slice::<U>().is_some(), none),
        8 => (v.copy_from_slice(&vec![U::mk(p); n]).is_some(), Eff::All),
        9 => (SliceCopy::from(&v).as_slice::<U>().is_some(), none),
        _ if n == 0 => (v.split_at(0).1.as_slice::<U>().is_some(), none),
        10 => (v.get_as::<U>(i).map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        11 => (v.get(i).downcast::<U>().is_some(), none),
        12 => (v.get_mut(i).downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(i)),
        _ => (
            v.into_iter().nth(i).map_or(false, |x| x.downcast::<U>().map(|x| *x = U::mk(p)).is_some()),
            Eff::Set(i),
        ),
    }
}
const CVALUE_MUT: usize = 4;
fn cvalue_mut<U: Ty + Copy>(k: usize, mut v: CopyValueMut<P>, p: u64) -> Got {
    let is = v.is::<U>();
    match k {
        0 => (v.upcast::<P>().downcast::<U>().map(|x| *x = U::mk(p)).is_some(), Eff::Set(0)),
        1 => (v.copy(CopyValueRef::new(&U::mk(p))).is_some(), Eff::Set(0)),
        2 => {
            let mut u = U::mk(p);
            v.swap(&mut CopyValueMut::new(&mut u));
            (is || u.rd() != canon::<U>(p), Eff::Set(0))
        }
        _ => (v.downcast::<U>().is_some(), Eff::None),
    }
}

trait CAgent: Sync {
    fn name(&self) -> &'static str;
    fn zst(&self) -> bool;
    fn canon(&self, p: u64) -> u64;
    fn vec(&self, m: &[u64]) -> VecCopy<P>;
    fn read(&self, v: &VecCopy<P>) -> Option<Vec<u64>>;
    fn take(&self, v: VecCopy<P>) -> Option<Vec<u64>>;
    fn take_dyn(&self, v: VecCopy<dyn HasPart>) -> Option<Vec<u64>>;
    fn store(&self, m: &[u64]) -> Box<dyn CStore>;
    fn on_vec(&self, k: usize, v: &mut VecCopy<P>, i: usize, p: u64) -> Got;
    fn on_vec_dyn(&self, k: usize, v: &mut VecCopy<dyn HasPart>, i: usize, p: u64) -> Got;
    fn on_slice(&self, k: usize, v: SliceCopy<P>, i: usize) -> bool;
    fn on_slice_mut(&self, k: usize, v: SliceCopyMut<P>, i: usize, p: u64) -> Got;
    fn on_value(&self, v: CopyValueRef<P>) -> bool;
    fn on_value_mut(&self, k: usize, v: CopyValueMut<P>, p: u64) -> Got;
}
struct Cg<T>(PhantomData<fn() -> T>);
impl<T: Ty + Copy> CAgent for Cg<T> {
    fn name(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn zst(&self) -> bool {
        std::mem::size_of::<T>() == 0
    }
    fn canon(&self, p: u64) -> u64 {
        canon::<T>(p)
    }
    fn vec(&self, m: &[u64]) -> VecCopy<P> {
        VecCopy::from_vec(m.iter().map(|&p| T::mk(p)).collect())
    }
    fn read(&self, v: &VecCopy<P>) -> Option<Vec<u64>> {
        v.as_slice_as::<T>().map(rds)
    }
    fn take(&self, v: VecCopy<P>) -> Option<Vec<u64>> {
        v.into_vec::<T>().map(|x| rds(&x))
    }
    fn take_dyn(&self, v: VecCopy<dyn HasPart>) -> Option<Vec<u64>> {
        v.check::<T>()?.into_vec::<T>().map(|x| rds(&x))
    }
    fn store(&self, m: &[u64]) -> Box<dyn CStore> {
        Box::new(Kept(m.iter().map(|&p| T::mk(p)).collect()))
    }
    fn on_vec(&self, k: usize, v: &mut VecCopy<P>, i: usize, p: u64) -> Got {
        if k < CVEC {
            cvec::<T, P>(k, v, i, p)
        } else {
            cvec_own::<T>(k - CVEC, v, i, p)
        }
    }
    fn on_vec_dyn(&self, k: usize, v: &mut VecCopy<dyn HasPart>, i: usize, p: u64) -> Got {
        cvec::<T, dyn HasPart>(k, v, i, p)
    }
    fn on_slice(&self, k: usize, v: SliceCopy<P>, i: usize) -> bool {
        cslice::<T>(k, v, i)
    }
    fn on_slice_mut(&self, k: usize, v: SliceCopyMut<P>, i: usize, p: u64) -> Got {
        cslice_mut::<T>(k, v, i, p)
    }
    fn on_value(&self, v: CopyValueRef<P>) -> bool {
        let (a, b) = (v.is::<T>(), v.upcast_ref::<P>().downcast::<T>().is_some());
        let c = v.downcast::<T>().is_some();
        if a {
            b && c
        } else {
            b || c
        }
    }
    fn on_value_mut(&self, k: usize, v: CopyValueMut<P>, p: u64) -> Got {
        cvalue_mut::<T>(k, v, p)
    }
}
agents! { COPY: CAgent Cg;
    [u8, i8, bool, W<u8>]
    [[u16; 2], (u16, u16)]
    [u32, i32, f32, char, W<u32>]
    [u64, i64, usize, isize, f64, W<u64>, [u64; 1], &'static u8, *const u8, *mut u8, fn(u64) -> u64, fn(i64) -> i64, for<'a> fn(&'a u8), fn(&'static u8)]
    [[u64; 2], W<[u64; 2]>, &'static str, &'static [u8]]
    [u128, i128]
    [[u64; 3], [i64; 3], [f64; 3]]
    [[u8; 4]]
    [[u32; 2]]
    [[u8; 24]]
    [A64, W<A64>]
    [(), Empty, PhantomData<u8>]
}

fn plain_vectors(s: &mut Src) -> R {
    let (a, b, same) = two(s, COPY, true);
    let mut m: Vec<u64> = contents(s).iter().map(|&p| a.canon(p)).collect();
    s.log(|| format!("plain vector {:?} of {}, used as {}", m, a.name(), b.name()));
    s.count(if same { "same type, plain" } else { "other type, plain" });
    let mut v = a.vec(&m);
    for _ in 0..s.below(4) {
        let k = s.below(7);
        s.log(|| format!("history {}", k));
        match k {
            0 => v = v.clone(),
            1 => {
                let mut w = b.vec(&contents(s));
                w.clone_from(&v);
                v = w;
            }
            2 => {
                let mut w = VecCopy::with_type_from(&v);
                ck!(w.append(&mut v).is_some(), "append to a vector of the same type was refused");
                v = w;
            }
            3 => {
                v.clear();
                m.clear();
            }
            4 => {
                let mut w = VecCopy::with_type_from(v.as_slice());
                w.extend(v.iter());
                v = w;
            }
            5 if !m.is_empty() => v = v.iter().collect(),
            _ => {
                let h = into_dyn![VecCopy<dyn HasPart>](v);
                v = from_dyn![VecCopy<dyn HasPart as PartVTable>](h);
            }
        }
    }
    for _ in 0..s.range(1, 10) {
        let n = m.len();
        let p = s.pay();
        let i = s.below(n.max(1));
        let k = s.below(CVEC + CVEC_OWN + 6);
        s.log(|| format!("attempt {} at {} with {}", k, i, p));
        if k < CVEC + CVEC_OWN {
            let (g, e) = b.on_vec(k, &mut v, i, p);
            verdict(same, g, &format!("attempt {}", k))?;
            if same {
                apply(&mut m, &e, a.canon(p));
                if k == 16 {
                    // All of it was copied over, and more.
                    m.iter_mut().for_each(|x| *x = a.canon(p));
                }
            }
        } else {
            match k - CVEC - CVEC_OWN {
                0 => cke!(b.take(v.clone()), if same { Some(m.clone()) } else { None }, "into_vec"),
                1 => {
                    let mut h = into_dyn![VecCopy<dyn HasPart>](v);
                    let k = s.below(CVEC);
                    s.log(|| format!("attempt {} while hidden", k));
                    let (g, e) = b.on_vec_dyn(k, &mut h, i, p);
                    verdict(same, g, &format!("attempt {} while hidden", k))?;
                    if same {
                        apply(&mut m, &e, a.canon(p));
                        if k == 16 {
                            m.iter_mut().for_each(|x| *x = a.canon(p));
                        }
                    }
                    v = from_dyn![VecCopy<dyn HasPart as PartVTable>](h);
                }
                2 => cke!(
                    b.take_dyn(into_dyn![VecCopy<dyn HasPart>](v.clone())),
                    if same { Some(m.clone()) } else { None },
                    "into_vec while hidden"
                ),
                3 => {
                    let k = s.below(CSLICE);
                    verdict(same, b.on_slice(k, v.as_slice(), i), &format!("attempt {} on its slice", k))?;
                }
                4 => {
                    let k = s.below(CSLICE_MUT);
                    let (g, e) = b.on_slice_mut(k, v.as_mut_slice(), i, p);
                    verdict(same, g, &format!("attempt {} on its mut slice", k))?;
                    if same {
                        apply(&mut m, &e, a.canon(p));
                    }
                }
                _ => ck!((v.element_type_id() == b.vec(&[]).element_type_id()) == same, "element_type_id"),
            }
        }
        cke!(a.read(&v), Some(m.clone()), "contents after attempt {}", k);
        if !same {
            cke!(b.read(&v), None, "read as another type");
        }
    }
    cke!(a.take(v), Some(m.clone()), "contents at the end");
    s.nontrivial = !same;
    Ok(())
}

fn plain_stores(s: &mut Src) -> R {
    let (a, b, same) = two(s, COPY, false);
    let mut m: Vec<u64> = contents(s).iter().map(|&p| a.canon(p)).collect();
    m.push(a.canon(9));
    let n = m.len();
    s.log(|| format!("plain slice {:?} of {}, used as {}", m, a.name(), b.name()));
    s.count(if same { "same type, plain" } else { "other type, plain" });
    let mut st = a.store(&m);
    for _ in 0..s.range(1, 10) {
        let p = s.pay();
        let i = s.below(n);
        // Slices of elements without size do not work at all.
        let t = if a.zst() { s.range(2, 4) } else { s.below(5) };
        let k = s.below([CSLICE, CSLICE_MUT, 1, CVALUE_MUT, 3][t]);
        s.log(|| format!("attempt {} {} at {} with {}", t, k, i, p));
        let (g, e) = match t {
            0 => {
                let l = s.below(i + 1);
                (b.on_slice(k, st.slice().into_subslice(l..i + 1), i - l), Eff::None)
            }
            1 => b.on_slice_mut(k, st.slice_mut(), i, p),
            2 => (b.on_value(st.value(i)), Eff::None),
            3 => {
                let (g, e) = b.on_value_mut(k, st.value_mut(i), p);
                (g, if e == Eff::None { e } else { Eff::Set(i) })
            }
            _ => {
                let mut o = b.store(&[p]);
                let r = match k {
                    0 => {
                        st.value_mut(i).swap(&mut o.value_mut(0));
                        same
                    }
                    1 => {
                        o.value_mut(0).swap(&mut st.value_mut(i));
                        same
                    }
                    _ => st.value_mut(i).copy(o.value(0)).is_some(),
                };
                if !same {
                    cke!(o.rds(), vec![b.canon(p)], "the partner after a refused request");
                } else if k < 2 {
                    cke!(o.rds(), vec![m[i]], "the partner");
                }
                (r, Eff::Set(i))
            }
        };
        verdict(same, g, &format!("attempt {} {}", t, k))?;
        if same {
            apply(&mut m, &e, a.canon(p));
        }
        cke!(st.rds(), m, "data after attempt {} {}", t, k);
    }
    s.nontrivial = !same;
    Ok(())
}

fn case(s: &mut Src) -> R {
    match s.below(8) {
        0 | 1 => vectors(s),
        2 => stores(s),
        3 => values(s),
        4 | 5 => plain_vectors(s),
        _ => plain_stores(s),
    }
}
fn main() {
    vh::engine::main(&[("C04", case)])
}
