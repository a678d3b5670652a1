use dync::traits::*;
use dync::*;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};

thread_local! { pub static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); pub static LIVE: RefCell<std::collections::BTreeMap<&'static str, i64>> = RefCell::new(Default::default()); }
pub fn note(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
pub fn live(n: &'static str, d: i64) { LIVE.with(|l| *l.borrow_mut().entry(n).or_insert(0) += d); }
/// The calls of user code that `f` makes.
pub fn logged<R>(f: impl FnOnce() -> R) -> (R, Vec<String>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}
pub fn sorted(mut l: Vec<String>) -> Vec<String> { l.sort(); l }
pub type R = Result<(), String>;
pub fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> R {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}

/// Equal results, from nothing but calls of one kind.
pub fn asked<A: PartialEq + std::fmt::Debug>(what: &str, kind: &str, got: (A, Vec<String>), want: A) -> R {
    for c in &got.1 { if !c.starts_with(kind) { return Err(format!("{}: unexpected call: {}", what, c)); } }
    eq(what, got.0, want)
}

/// Elements with an identity of their own.
pub trait El: 'static + Sized { fn el(k: u64) -> Self; fn id(&self) -> String; fn dup(&self) -> Self; }
pub fn els<T: El>(ks: &[u64]) -> Vec<T> { ks.iter().map(|k| T::el(*k)).collect() }
pub fn ids<T: El>(s: &[T]) -> Vec<String> { s.iter().map(T::id).collect() }

/// Types that tell what is done with them, each in its own way.
macro_rules! noted {
    ($(#[$a:meta])* $n:ident { $($f:ident: $t:ty = |$k:ident| $e:expr),* ; key |$s:ident| $key:expr ; same |$x:ident, $y:ident| $same:expr ; salt $salt:expr }) => {
        $(#[$a])* pub struct $n { $($f: $t),* }
        impl $n { pub fn new(key: u64) -> Self { live(stringify!($n), 1); $n { $($f: { let $k = key; $e }),* } } pub fn key(&self) -> u64 { let $s = self; $key } }
        impl El for $n { fn el(k: u64) -> Self { $n::new(k) } fn id(&self) -> String { format!("{}#{}", stringify!($n), self.key()) } fn dup(&self) -> Self { $n::new(self.key()) } }
        impl Clone for $n {
            fn clone(&self) -> Self { note(format!("clone {}", self.id())); $n::new(self.key()) }
            fn clone_from(&mut self, o: &Self) { note(format!("clone_from {} {}", self.id(), o.id())); let $n { $($f),* } = self; let key = o.key(); $(*$f = { let $k = key; $e };)* }
        }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { note(format!("eq {} {}", self.id(), o.id())); let ($x, $y) = (self.key(), o.key()); $same } }
        impl Eq for $n {}
        impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { note(format!("hash {}", self.id())); h.write_u64(self.key() / 2 * $salt); h.write_u8($salt as u8); } }
        impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { note(format!("fmt {}", self.id())); f.debug_tuple(stringify!($n)).field(&self.key()).finish() } }
        impl Drop for $n { fn drop(&mut self) { note(format!("drop {}", self.id())); live(stringify!($n), -1); } }
    };
}
noted!(Word { a: u64 = |k| k * 3; key |s| s.a / 3; same |x, y| x / 2 == y / 2; salt 7 });
noted!(Owner { a: Box<u64> = |k| Box::new(k); key |s| *s.a; same |x, y| x / 2 == y / 2; salt 11 });
noted!(Huge { a: [u32; 5] = |k| [k as u32, 1, 2, 3, 4], b: Box<u8> = |k| Box::new(1) ; key |s| s.a[0] as u64; same |x, y| x == y; salt 13 });
noted!(Tiny { a: u8 = |k| k as u8; key |s| s.a as u64; same |x, y| x / 2 == y / 2; salt 17 });
noted!(Empty {; key |s| 0; same |x, y| true; salt 19 });
noted!(#[repr(align(32))] Wide { a: u16 = |k| k as u16; key |s| s.a as u64; same |x, y| false; salt 23 });

/// Plain data with a behaviour of its own.
macro_rules! plain {
    ($n:ident($t:ty)) => {
        #[derive(Clone, Copy)]
        pub struct $n($t);
        impl El for $n { fn el(k: u64) -> Self { $n(k as $t) } fn id(&self) -> String { format!("{}#{}", stringify!($n), self.0) } fn dup(&self) -> Self { *self } }
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { note(format!("eq {} {}", self.id(), o.id())); self.0 / 2 == o.0 / 2 } }
        impl Eq for $n {}
        impl Hash for $n { fn hash<H: Hasher>(&self, h: &mut H) { note(format!("hash {}", self.id())); h.write_u32(self.0 as u32 / 2); } }
        impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { note(format!("fmt {}", self.id())); f.debug_list().entry(&self.0).finish() } }
    };
}
plain!(Pu(usize));
plain!(Ps(u16));
plain!(Pl(u128));

macro_rules! ready { ($t:ty, |$k:ident| $e:expr) => { impl El for $t { fn el($k: u64) -> Self { $e } fn id(&self) -> String { format!("{:?}", self) } fn dup(&self) -> Self { self.clone() } } } }
ready!(u64, |k| k);
ready!(u8, |k| k as u8);
ready!(f32, |k| if k == 3 { f32::NAN } else { k as f32 / 2.0 });
ready!(f64, |k| if k == 3 { f64::NAN } else { k as f64 / 2.0 });
ready!(char, |k| (65 + k as u8) as char);
ready!(String, |k| format!("s{}", k));
ready!(Vec<u8>, |k| vec![k as u8; k as usize % 4]);
ready!(Option<Box<u16>>, |k| if k % 2 == 0 { None } else { Some(Box::new(k as u16)) });
ready!((u8, u32), |k| (k as u8, 9));
ready!([u16; 3], |k| [1, k as u16, 3]);
ready!(&'static str, |k| ["a", "bb", "", "dddd", "e"][k as usize % 5]);
ready!(std::rc::Rc<u8>, |k| std::rc::Rc::new(k as u8));
ready!(std::cell::Cell<u32>, |k| std::cell::Cell::new(k as u32));
ready!(std::sync::Arc<str>, |k| format!("arc{}", k).into());
ready!((), |k| ());

/// Remembers all it is given.
#[derive(Default, PartialEq, Debug, Clone)]
pub struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 { self.0.len() as u64 }
    fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend(b); }
}
pub fn hash_of<X: Hash + ?Sized>(x: &X) -> Tape { let mut h = Tape::default(); x.hash(&mut h); h }
pub fn hash_each<X: Hash>(x: &[X]) -> Tape { let mut h = Tape::default(); for x in x { x.hash(&mut h); } h }

// --- vectors
pub fn v_same<V: ?Sized + HasDrop, T: El>(v: &VecDyn<V>, w: &[T]) -> R {
    eq("length", v.len(), w.len())?;
    eq("contents", ids(v.as_slice_as::<T>().ok_or("the type is lost")?), ids(w))?;
    for i in 0..w.len() { eq("element", v.get(i).downcast::<T>().ok_or("the type of an element is lost")?.id(), w[i].id())?; }
    Ok(())
}
pub fn v_clone<V: HasDrop + HasClone + Clone, T: El + Clone>(v: &VecDyn<V>, w: &[T], other: VecDyn<V>) -> R {
    let (c, l) = logged(|| v.clone());
    let (d, m) = logged(|| w.to_vec());
    eq("calls of cloning", sorted(l), sorted(m))?;
    v_same(&c, &d)?;
    v_same(v, w)?;
    let mut o = other;
    o.clone_from(v);
    v_same(&o, w)?;
    let mut p: VecDyn<V> = o.clone();
    for i in 0..v.len() { p.push_cloned(v.get(i)).ok_or("push_cloned")?; }
    eq("pushed clones", p.len(), 2 * w.len())?;
    for i in 0..p.len() { eq("pushed clone", p.get(i).downcast::<T>().unwrap().id(), w[i % w.len()].id())?; }
    eq("cloned into a vector", ids(&v.clone_into_vec::<T>().ok_or("clone_into_vec")?), ids(w))?;
    let (_, l) = logged(|| drop(c));
    let (_, m) = logged(|| drop(d));
    eq("calls of dropping the clone", sorted(l), sorted(m))
}
pub fn v_eq<V: ?Sized + HasDrop + HasPartialEq, T: El + PartialEq>(v: &VecDyn<V>, w: &Vec<T>, v2: &VecDyn<V>, w2: &Vec<T>) -> R {
    asked("equality", "eq ", logged(|| v == v2), w == w2)?;
    asked("equality to itself", "eq ", logged(|| v == v), w == w)?;
    asked("inequality", "eq ", logged(|| v2 != v), w2 != w)
}
pub fn v_hash<V: ?Sized + HasDrop + HasHash, T: El + Hash>(v: &VecDyn<V>, w: &[T]) -> R { asked("hash", "hash ", logged(|| hash_of(v)), hash_each(w)) }
pub fn v_fmt<V: ?Sized + HasDrop + HasDebug, T: El + std::fmt::Debug>(v: &VecDyn<V>, w: &Vec<T>) -> R {
    asked("printing", "fmt ", logged(|| format!("{:?}", v)), format!("{:?}", w))?;
    asked("alternate printing", "fmt ", logged(|| format!("{:#?}", v)), format!("{:#?}", w))
}
pub fn v_drop<V: ?Sized + HasDrop, T: El>(v: VecDyn<V>, w: Vec<T>) -> R {
    let (_, l) = logged(|| drop(v));
    let (_, m) = logged(|| drop(w));
    eq("calls of dropping", sorted(l), sorted(m))
}

// --- slices
macro_rules! slices {
    ($Sl:ident, $same:ident, $eq:ident, $fmt:ident, $view:ident) => {
        pub fn $same<V: ?Sized + HasDrop, T: El>(v: &mut $Sl<V>, w: &[T]) -> R {
            eq("length", v.len(), w.len())?;
            eq("contents", ids(v.as_slice::<T>().ok_or("the type is lost")?), ids(w))?;
            for i in 0..w.len() { eq("element", v.get(i).downcast::<T>().ok_or("the type of an element is lost")?.id(), w[i].id())?; }
            Ok(())
        }
        pub fn $eq<V: ?Sized + HasDrop + HasPartialEq, T: El + PartialEq>(v: &mut $Sl<V>, w: &[T], v2: &mut $Sl<V>, w2: &[T]) -> R {
            asked("equality", "eq ", logged(|| *v == *v2), w == w2)?;
            asked("inequality", "eq ", logged(|| *v2 != *v), w2 != w)
        }
        pub fn $fmt<V: ?Sized + HasDrop + HasDebug, T: El + std::fmt::Debug>(v: &mut $Sl<V>, w: &[T]) -> R { asked("printing", "fmt ", logged(|| format!("{:?}", v)), format!("{:?}", w)) }
    };
}
slices!(Slice, s_same, s_eq, s_fmt, get);
slices!(SliceMut, m_same, m_eq, m_fmt, get);
pub fn s_clone<V: HasDrop + HasClone + Clone, T: El + Clone>(v: &Slice<V>, w: &[T]) -> R {
    eq("cloned into a vector", ids(&v.clone_into_vec::<T>().ok_or("clone_into_vec")?), ids(w))?;
    for i in 0..w.len() {
        let (b, l) = logged(|| v.get(i).clone_value());
        let (x, m) = logged(|| w[i].clone());
        eq("calls of cloning an element", l, m)?;
        eq("cloned element", b.downcast::<T>().ok_or("downcast")?.id(), x.id())?;
    }
    Ok(())
}

// --- references
macro_rules! refs {
    ($eq:ident, $hash:ident, $fmt:ident, $Vr:ident, $($b:ident)?) => {
        pub fn $eq<V: ?Sized $(+ $b)? + HasPartialEq, T: El + PartialEq>(a: &$Vr<V>, x: &T, b: &$Vr<V>, y: &T) -> R {
            asked("equality of values", "eq ", logged(|| a == b), x == y)?;
            asked("inequality of values", "eq ", logged(|| b != a), y != x)
        }
        pub fn $hash<V: ?Sized $(+ $b)? + HasHash, T: El + Hash>(a: &$Vr<V>, x: &T) -> R { asked("hash of a value", "hash ", logged(|| hash_of(a)), hash_of(x)) }
        pub fn $fmt<V: ?Sized $(+ $b)? + HasDebug, T: El + std::fmt::Debug>(a: &$Vr<V>, x: &T) -> R {
            asked("printing a value", "fmt ", logged(|| format!("{:?}", a)), format!("{:?}", x))?;
            asked("alternate printing of a value", "fmt ", logged(|| format!("{:#?}", a)), format!("{:#?}", x))
        }
    };
}
refs!(r_eq, r_hash, r_fmt, ValueRef, HasDrop);
refs!(x_eq, x_hash, x_fmt, ValueMut, HasDrop);
refs!(c_eq, c_hash, c_fmt, CopyValueRef,);
refs!(d_eq, d_hash, d_fmt, CopyValueMut,);
refs!(b_eq, b_hash, b_fmt, BoxValue, HasDrop);
refs!(a_eq, a_hash, a_fmt, SmallValue, HasDrop);
pub fn r_clone<V: HasDrop + HasClone + Clone, T: El + Clone>(a: &ValueRef<V>, x: &T) -> R {
    let (b, l) = logged(|| a.clone().clone_value());
    let (y, m) = logged(|| x.clone());
    eq("calls of cloning a value", l, m)?;
    eq("cloned value", b.as_ref().downcast::<T>().ok_or("downcast")?.id(), y.id())?;
    let (_, l) = logged(|| drop(b));
    let (_, m) = logged(|| drop(y));
    eq("calls of dropping a cloned value", l, m)?;
    if std::mem::size_of::<T>() == std::mem::size_of::<usize>() {
        let (b, l) = logged(|| a.clone().clone_small_value());
        let (y, m) = logged(|| x.clone());
        eq("calls of cloning a small value", l, m)?;
        eq("cloned small value", b.as_ref().downcast::<T>().ok_or("downcast")?.id(), y.id())?;
        let (_, l) = logged(|| drop(b));
        let (_, m) = logged(|| drop(y));
        eq("calls of dropping a cloned small value", l, m)?;
    }
    Ok(())
}
pub fn x_clone_from<V: HasDrop + HasClone + Clone, T: El + Clone>(mut a: ValueMut<V>, b: ValueRef<V>, x: &mut T, y: &T) -> R {
    let (r, l) = logged(|| a.clone_from_other(b).map_err(|e| e.to_string()));
    r?;
    let (_, m) = logged(|| x.clone_from(y));
    eq("calls of cloning over a value", l, m)?;
    eq("value cloned from another", a.downcast::<T>().ok_or("downcast")?.id(), x.id())
}
macro_rules! owned {
    ($clone:ident, $drop:ident, $down:ident, $B:ident) => {
        pub fn $clone<V: HasDrop + HasClone + Clone, T: El + Clone>(a: &$B<V>, x: &T) -> R {
            let (b, l) = logged(|| a.clone());
            let (y, m) = logged(|| x.clone());
            eq("calls of cloning", sorted(l), sorted(m))?;
            $down(b, y)?;
            r_clone(&a.as_ref(), x)
        }
        pub fn $drop<V: HasDrop, T: El>(a: $B<V>, x: T) -> R {
            let (_, l) = logged(|| drop(a));
            let (_, m) = logged(|| drop(x));
            eq("calls of dropping a value", l, m)
        }
        pub fn $down<V: HasDrop, T: El>(a: $B<V>, x: T) -> R {
            let (b, l) = logged(|| a.downcast::<T>());
            eq("calls of recovering", l, vec![])?;
            let b = b.ok_or("the type is lost")?;
            eq("recovered value", b.id(), x.id())?;
            let (_, l) = logged(|| drop(b));
            let (_, m) = logged(|| drop(x));
            eq("calls of dropping a recovered value", l, m)
        }
    };
}
owned!(b_clone, b_drop, b_down, BoxValue);
owned!(a_clone, a_drop, a_down, SmallValue);

/// Nothing may be left over.
pub fn balanced(f: impl FnOnce() -> R) -> R {
    LIVE.with(|l| l.borrow_mut().clear());
    f()?;
    let left: Vec<(&'static str, i64)> = LIVE.with(|l| l.borrow().iter().filter(|(_, c)| **c != 0).map(|(n, c)| (*n, *c)).collect());
    eq("elements not dropped exactly once", left, vec![])
}
