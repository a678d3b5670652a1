//! Element types of the generated cases.
//!
//! Every type is made from a 64 bit payload, all its bytes depend on the payload, and reading the
//! payload back verifies them.
use crate::reg;
use crate::src::mix;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// Marks a payload read from an inconsistent element.
pub const TORN: u64 = 0xBAD0_7042_BAD0_7042;

pub trait Elt: 'static + Clone + Debug + PartialEq {
    /// A different type with the same size, alignment and valid bit patterns.
    type Other: Elt;
    /// Elements of this type are counted in the registry.
    const TRACKED: bool = false;
    fn make(p: u64) -> Self;
    fn pay(&self) -> u64;
    /// What `make(p).pay()` should be.
    fn canon(p: u64) -> u64;
    fn name() -> &'static str {
        std::any::type_name::<Self>()
    }
}

/// Element types with all of the standard behaviours.
pub trait FullElt0: Elt + Eq + Hash {}
impl<T: Elt + Eq + Hash> FullElt0 for T {}
pub trait FullElt: FullElt0 + Elt<Other: FullElt0> {}
impl<T: FullElt0 + Elt<Other: FullElt0>> FullElt for T {}

/// Plain data.
pub trait CopyElt0: Elt + Copy {}
impl<T: Elt + Copy> CopyElt0 for T {}
pub trait CopyElt: CopyElt0 + Elt<Other: CopyElt0> {}
impl<T: CopyElt0 + Elt<Other: CopyElt0>> CopyElt for T {}

/// Same layout as `T`, but not `T`.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct W<T>(pub T);
impl<T: Debug> Debug for W<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "W")?;
        self.0.fmt(f)
    }
}
impl<T: Elt<Other = W<T>>> Elt for W<T> {
    type Other = T;
    const TRACKED: bool = T::TRACKED;
    fn make(p: u64) -> Self {
        W(T::make(p))
    }
    fn pay(&self) -> u64 {
        self.0.pay()
    }
    fn canon(p: u64) -> u64 {
        T::canon(p)
    }
}

macro_rules! elt {
    ($t:ty, |$p:ident| $make:expr, |$s:ident| $pay:expr, |$c:ident| $canon:expr) => {
        impl Elt for $t {
            type Other = W<$t>;
            fn make($p: u64) -> Self {
                $make
            }
            fn pay(&self) -> u64 {
                let $s = self;
                $pay
            }
            fn canon($c: u64) -> u64 {
                $canon
            }
        }
    };
}

macro_rules! ints {
    ($($t:ty)*) => { $( elt!($t, |p| p as $t, |s| *s as u64, |p| p as $t as u64); )* }
}
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);

fn wide(p: u64) -> u128 {
    (mix(p) as u128) << 64 | p as u128
}
elt!(u128, |p| wide(p), |s| if wide(*s as u64) == *s { *s as u64 } else { TORN }, |p| p);
elt!(i128, |p| wide(p) as i128, |s| if wide(*s as u64) as i128 == *s { *s as u64 } else { TORN }, |p| p);
elt!(f32, |p| f32::from_bits(p as u32), |s| s.to_bits() as u64, |p| p as u32 as u64);
elt!(f64, |p| f64::from_bits(p), |s| s.to_bits(), |p| p);
elt!((), |p| { let _ = p; }, |s| { let _ = s; 0 }, |p| { let _ = p; 0 });
elt!(bool, |p| p & 1 == 1, |s| *s as u64, |p| p & 1);
fn chr(p: u64) -> u64 {
    let x = p % 0x11_0000;
    if (0xD800..0xE000).contains(&x) {
        x - 0xD800
    } else {
        x
    }
}
elt!(char, |p| char::from_u32(chr(p) as u32).unwrap(), |s| *s as u64, |p| chr(p));

/// Composite payloads: `n` parts, all derived from the payload.
fn part(p: u64, i: usize) -> u64 {
    if i == 0 {
        p
    } else {
        mix(p.wrapping_add((i as u64).wrapping_mul(0x1234_5678_9ABC_DEF1)))
    }
}

macro_rules! arrays {
    ($($t:ty, $n:expr;)*) => { $(
        elt!([$t; $n],
            |p| { let q = p as $t as u64; let mut a = [0 as $t; $n]; for i in 0..$n { a[i] = part(q, i) as $t } a },
            |s| { let q = s[0] as u64; if (0..$n).all(|i| s[i] == part(q, i) as $t) { q } else { TORN } },
            |p| p as $t as u64);
    )* }
}
arrays!(
    u8, 1; u8, 3; u8, 5; u8, 7; u8, 8; u8, 9; u8, 16; u8, 100; u16, 3; u16, 4; u32, 3; u32, 2; u64, 1; u64, 2; u64, 3; u64, 5; u64, 33; i64, 3;
    u8, 4096;
);
elt!([f64; 3],
    |p| [f64::from_bits(p), f64::from_bits(part(p, 1)), f64::from_bits(part(p, 2))],
    |s| { let p = s[0].to_bits(); if (0..3).all(|i| s[i].to_bits() == part(p, i)) { p } else { TORN } },
    |p| p);

// Tuples and structs with padding.
elt!((u8, u32), |p| (p as u8, part(p as u8 as u64, 1) as u32),
    |s| if s.1 == part(s.0 as u64, 1) as u32 { s.0 as u64 } else { TORN }, |p| p as u8 as u64);
elt!((u64, u8), |p| (p, part(p, 1) as u8), |s| if s.1 == part(s.0, 1) as u8 { s.0 } else { TORN }, |p| p);
elt!((u8, u16, u8), |p| (p as u8, part(p as u8 as u64, 1) as u16, part(p as u8 as u64, 2) as u8),
    |s| { let q = s.0 as u64; if s.1 == part(q, 1) as u16 && s.2 == part(q, 2) as u8 { q } else { TORN } },
    |p| p as u8 as u64);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(C)]
pub struct Pad(pub u8, pub u64, pub u16);
elt!(Pad, |p| Pad(part(p, 1) as u8, p, part(p, 2) as u16),
    |s| if s.0 == part(s.1, 1) as u8 && s.2 == part(s.1, 2) as u16 { s.1 } else { TORN }, |p| p);

// Niches.
elt!(Option<u32>, |p| if p >> 63 == 1 || p as u32 % 5 == 4 { None } else { Some(p as u32) },
    |s| match s { None => u64::MAX, Some(x) => *x as u64 },
    |p| if p >> 63 == 1 || p as u32 % 5 == 4 { u64::MAX } else { p as u32 as u64 });
elt!(Option<bool>, |p| [None, Some(false), Some(true)][(p % 3) as usize],
    |s| match s { None => 0, Some(false) => 1, Some(true) => 2 }, |p| p % 3);
elt!(std::num::NonZeroU64, |p| std::num::NonZeroU64::new(p | 1).unwrap(), |s| s.get(), |p| p | 1);
elt!(std::num::NonZeroU8, |p| std::num::NonZeroU8::new(p as u8 | 1).unwrap(), |s| s.get() as u64, |p| (p as u8 | 1) as u64);
elt!(Option<std::num::NonZeroU16>, |p| std::num::NonZeroU16::new(p as u16),
    |s| s.map_or(0, |x| x.get()) as u64, |p| p as u16 as u64);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Shape {
    Dot,
    Bar(u16),
    Box { w: u32, h: u32 },
    Deep(u8, u64),
}
elt!(Shape, |p| match p % 4 {
        0 => Shape::Dot,
        1 => Shape::Bar((p >> 2) as u16),
        2 => Shape::Box { w: (p >> 2) as u32, h: part((p >> 2) as u32 as u64, 1) as u32 },
        _ => Shape::Deep(part(p >> 2, 1) as u8, p >> 2),
    },
    |s| match *s {
        Shape::Dot => 0,
        Shape::Bar(x) => 1 | (x as u64) << 2,
        Shape::Box { w, h } => if h == part(w as u64, 1) as u32 { 2 | (w as u64) << 2 } else { TORN },
        Shape::Deep(a, b) => if a == part(b, 1) as u8 { 3 | b << 2 } else { TORN },
    },
    |p| match p % 4 { 0 => 0, 1 => 1 | ((p >> 2) as u16 as u64) << 2, 2 => 2 | ((p >> 2) as u32 as u64) << 2, _ => p });

const STRS: [&str; 6] = ["", "a", "dync", "longer than a word of memory", "\u{1F980} crab", "b"];
elt!(&'static str, |p| STRS[(p % 6) as usize], |s| STRS.iter().position(|x| x == s).map_or(TORN, |i| i as u64), |p| p % 6);
fn fn_a(x: u64) -> u64 {
    x ^ 0xA
}
fn fn_b(x: u64) -> u64 {
    x ^ 0xB
}
#[derive(Clone, Copy, Debug)]
pub struct Fun(fn(u64) -> u64);
impl PartialEq for Fun {
    fn eq(&self, o: &Fun) -> bool {
        (self.0)(0) == (o.0)(0)
    }
}
impl Eq for Fun {}
impl Hash for Fun {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0)(0).hash(h)
    }
}
elt!(Fun, |p| Fun(if p & 1 == 0 { fn_a } else { fn_b }), |s| match (s.0)(0) { 0xA => 0, 0xB => 1, _ => TORN }, |p| p & 1);

macro_rules! aligned {
    ($($n:ident $a:expr;)*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        #[repr(align($a))]
        pub struct $n(pub u64);
        elt!($n, |p| $n(p), |s| if s as *const _ as usize % $a == 0 { s.0 } else { TORN }, |p| p);
    )* }
}
aligned!(A16 16; A32 32; A64 64; A128 128; A256 256; A512 512; A1024 1024; A2048 2048; A4096 4096; A8192 8192; A16384 16384;
    A32768 32768; A65536 65536;);
/// Larger than its alignment.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(C, align(32))]
pub struct B32(pub u64, pub [u64; 9]);
elt!(B32, |p| { let mut a = [0; 9]; for i in 0..9 { a[i] = part(p, i + 1) } B32(p, a) },
    |s| if (0..9).all(|i| s.1[i] == part(s.0, i + 1)) { s.0 } else { TORN }, |p| p);

// Owning types.
elt!(String, |p| format!("s{}", p), |s| s.strip_prefix('s').and_then(|x| x.parse().ok()).unwrap_or(TORN), |p| p);
elt!(Box<u64>, |p| Box::new(p), |s| **s, |p| p);
elt!(Rc<u64>, |p| Rc::new(p), |s| **s, |p| p);
elt!(Vec<u32>, |p| (0..(p % 4) as u32).map(|i| i ^ (p >> 2) as u32).collect(),
    |s| if s.is_empty() { 0 } else if s.iter().enumerate().all(|(i, &x)| x == i as u32 ^ s[0]) { (s[0] as u64) << 2 | s.len() as u64 } else { TORN },
    |p| if p % 4 == 0 { 0 } else { ((p >> 2) as u32 as u64) << 2 | p % 4 });
elt!(Option<Box<u64>>, |p| if p % 3 == 0 { None } else { Some(Box::new(p)) }, |s| s.as_ref().map_or(0, |b| **b), |p| if p % 3 == 0 { 0 } else { p });
elt!((String, u8), |p| (format!("{}", p), part(p, 1) as u8),
    |s| match s.0.parse::<u64>() { Ok(p) if part(p, 1) as u8 == s.1 => p, _ => TORN }, |p| p);
elt!([String; 3], |p| [format!("{}", p), String::new(), format!("{}", part(p, 2))],
    |s| match s[0].parse::<u64>() { Ok(p) if s[1].is_empty() && s[2] == format!("{}", part(p, 2)) => p, _ => TORN }, |p| p);

/// A tracked element of `N` words.
macro_rules! tracked {
    ($($n:ident $a:expr, $w:expr;)*) => { $(
        #[repr(C, align($a))]
        pub struct $n { w: [u32; $w] }
        impl $n {
            fn fill(id: u32, p: u64) -> [u32; $w] {
                let mut w = [0; $w];
                for i in 0..$w { w[i] = if i == 0 { id } else { part(p ^ id as u64, i) as u32 } }
                w
            }
            fn check(&self, what: &str) -> u64 {
                match reg::look(self.w[0], what) {
                    None => TORN,
                    Some(p) => {
                        if self.w != Self::fill(self.w[0], p) || self as *const _ as usize % $a != 0 {
                            reg::violate(format!("{} of a torn element", what));
                            return TORN;
                        }
                        p
                    }
                }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                self.check("drop");
                reg::death(self.w[0]);
                reg::tick(reg::DROP);
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                let p = self.check("clone");
                reg::tick(reg::CLONE);
                $n::make(p)
            }
            fn clone_from(&mut self, o: &Self) {
                let p = o.check("clone_from source");
                self.check("clone_from target");
                reg::tick(reg::CLONE);
                // Reuse the identity, like a vector that reuses its allocation.
                reg::set_pay(self.w[0], p);
                self.w = Self::fill(self.w[0], p);
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                let (a, b) = (self.check("eq"), o.check("eq"));
                reg::tick(reg::EQ);
                a == b
            }
        }
        impl Eq for $n {}
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                let p = self.check("hash");
                reg::tick(reg::HASH);
                p.hash(h)
            }
        }
        impl Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let p = self.check("fmt");
                reg::tick(reg::FMT);
                f.debug_tuple("Tk").field(&p).finish()
            }
        }
        impl Elt for $n {
            type Other = W<$n>;
            const TRACKED: bool = true;
            fn make(p: u64) -> Self { let id = reg::birth(p); $n { w: Self::fill(id, p) } }
            fn pay(&self) -> u64 { self.check("read") }
            fn canon(p: u64) -> u64 { p }
        }
    )* }
}
tracked!(Tk4 4, 1; Tk8 8, 2; Tk12 4, 3; Tk24 8, 6; Tk40 8, 10; Tk64 64, 16; Tk128 64, 32; Tk256 256, 64; Tk4k 4096, 1024;);

/// A tracked element that also owns memory.
pub struct TkBox {
    t: Tk8,
    b: Box<u64>,
}
impl TkBox {
    fn check(&self, what: &str) -> u64 {
        let p = self.t.check(what);
        if *self.b != p && p != TORN {
            reg::violate(format!("{} of a torn element", what));
            return TORN;
        }
        p
    }
}
impl Clone for TkBox {
    fn clone(&self) -> Self {
        self.check("clone");
        TkBox { t: self.t.clone(), b: self.b.clone() }
    }
}
impl PartialEq for TkBox {
    fn eq(&self, o: &Self) -> bool {
        self.check("eq");
        o.check("eq");
        self.t == o.t
    }
}
impl Eq for TkBox {}
impl Hash for TkBox {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hash");
        self.t.hash(h)
    }
}
impl Debug for TkBox {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.check("fmt");
        self.t.fmt(f)
    }
}
impl Elt for TkBox {
    type Other = W<TkBox>;
    const TRACKED: bool = true;
    fn make(p: u64) -> Self {
        TkBox { t: Tk8::make(p), b: Box::new(p) }
    }
    fn pay(&self) -> u64 {
        self.check("read")
    }
    fn canon(p: u64) -> u64 {
        p
    }
}
/// Tracked and exactly one word: fits a `SmallValue`.
pub struct TkWord(Box<Tk24>);
impl Clone for TkWord {
    fn clone(&self) -> Self {
        TkWord(self.0.clone())
    }
}
impl PartialEq for TkWord {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for TkWord {}
impl Hash for TkWord {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Debug for TkWord {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Elt for TkWord {
    type Other = W<TkWord>;
    const TRACKED: bool = true;
    fn make(p: u64) -> Self {
        TkWord(Box::new(Tk24::make(p)))
    }
    fn pay(&self) -> u64 {
        self.0.pay()
    }
    fn canon(p: u64) -> u64 {
        p
    }
}

/// Tracked elements without any size: only their number is known.
macro_rules! tracked0 {
    ($($n:ident $a:expr;)*) => { $(
        #[repr(align($a))]
        pub struct $n(());
        impl $n {
            fn check(&self, what: &str) {
                if self as *const _ as usize % $a != 0 {
                    reg::violate(format!("{} of a misaligned element", what));
                }
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                self.check("drop");
                reg::death0();
                reg::tick(reg::DROP);
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                self.check("clone");
                reg::tick(reg::CLONE);
                Self::make(0)
            }
            fn clone_from(&mut self, o: &Self) {
                self.check("clone_from target");
                o.check("clone_from source");
                reg::tick(reg::CLONE);
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                self.check("eq");
                o.check("eq");
                reg::tick(reg::EQ);
                true
            }
        }
        impl Eq for $n {}
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.check("hash");
                reg::tick(reg::HASH);
                h.write_u8(1)
            }
        }
        impl Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                self.check("fmt");
                reg::tick(reg::FMT);
                write!(f, "Tk0")
            }
        }
        impl Elt for $n {
            type Other = W<$n>;
            const TRACKED: bool = true;
            fn make(_: u64) -> Self { reg::birth0(); $n(()) }
            fn pay(&self) -> u64 { self.check("read"); 0 }
            fn canon(_: u64) -> u64 { 0 }
        }
    )* }
}
tracked0!(Tk0 1; Tk0a 64;);

pub fn pays<T: Elt>(s: &[T]) -> Vec<u64> {
    s.iter().map(|x| x.pay()).collect()
}
pub fn make_all<T: Elt>(p: &[u64]) -> Vec<T> {
    p.iter().map(|&p| T::make(p)).collect()
}
pub fn canon_all<T: Elt>(p: &[u64]) -> Vec<u64> {
    p.iter().map(|&p| T::canon(p)).collect()
}

// Types with unusual comparison, hashing and formatting.
/// Equal when the payloads agree modulo 7, hashed accordingly; prints every formatting option.
#[derive(Clone, Copy)]
pub struct Fancy(pub u64);
impl PartialEq for Fancy {
    fn eq(&self, o: &Fancy) -> bool {
        self.0 % 7 == o.0 % 7
    }
}
impl Eq for Fancy {}
impl Hash for Fancy {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8((self.0 % 7) as u8);
        h.write(b"xyz");
        h.write_usize((self.0 % 7) as usize + 1);
    }
}
impl Debug for Fancy {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let align = match f.align() {
            None => '-',
            Some(fmt::Alignment::Left) => 'l',
            Some(fmt::Alignment::Right) => 'r',
            Some(fmt::Alignment::Center) => 'c',
        };
        write!(f, "<{} {:?} {:?} {}{}{}{} {:?} ", self.0 % 7, f.width(), f.precision(), f.alternate(), f.sign_plus(), f.sign_minus(),
            f.sign_aware_zero_pad(), f.fill())?;
        f.pad("ab")?;
        write!(f, "{}>", align)
    }
}
elt!(Fancy, |p| Fancy(p), |s| s.0, |p| p);
/// The same idea in other sizes: equality, hashing and text that ignore a part of the value.
macro_rules! folds {
    ($($n:ident $t:ty, |$p:ident| $make:expr, |$s:ident| $pay:expr, |$c:ident| $canon:expr;)*) => { $(
        #[derive(Clone, Copy)]
        pub struct $n(pub $t);
        impl $n {
            fn class(&self) -> u8 {
                (self.pay() % 5) as u8
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &$n) -> bool {
                self.class() == o.class()
            }
        }
        impl Eq for $n {}
        impl Hash for $n {
            fn hash<H: Hasher>(&self, h: &mut H) {
                h.write_u16(self.class() as u16 * 3 + 1);
                h.write_i8(self.class() as i8);
            }
        }
        impl Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Display::fmt(&(self.class() as u16 + 100), f)
            }
        }
        elt!($n, |$p| $n($make), |x| { let $s = x.0; $pay }, |$c| $canon);
    )* }
}
folds!(
    Fold1 u8, |p| p as u8, |s| s as u64, |p| p as u8 as u64;
    Fold2 u16, |p| p as u16, |s| s as u64, |p| p as u16 as u64;
    Fold3 [u8; 3], |p| <[u8; 3]>::make(p), |s| s.pay(), |p| <[u8; 3]>::canon(p);
    Fold4 u32, |p| p as u32, |s| s as u64, |p| p as u32 as u64;
    Fold8 u64, |p| p, |s| s, |p| p;
    Fold16 u128, |p| u128::make(p), |s| s.pay(), |p| p;
    FoldF f64, |p| f64::from_bits(p), |s| s.to_bits(), |p| p;
);
/// No data, but behaviour: never equal to anything, with a hash and a text.
#[derive(Clone, Copy)]
pub struct Nil;
impl PartialEq for Nil {
    fn eq(&self, _: &Nil) -> bool {
        false
    }
}
impl Eq for Nil {}
impl Hash for Nil {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(0xA11);
    }
}
impl Debug for Nil {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.pad("nil")
    }
}
/// No data, with an alignment.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(align(32))]
pub struct Z32;
elt!(Z32, |p| { let _ = p; Z32 }, |s| if s as *const _ as usize % 32 == 0 { 0 } else { TORN }, |p| { let _ = p; 0 });
/// Comparison depends on the order of the operands.
#[derive(Clone, Copy, Debug)]
pub struct Lop(pub u64);
impl PartialEq for Lop {
    fn eq(&self, o: &Lop) -> bool {
        self.0 <= o.0
    }
}
elt!(Lop, |p| Lop(p), |s| s.0, |p| p);
/// Equal by address only.
#[derive(Clone, Debug)]
pub struct Never(pub Box<u64>);
impl PartialEq for Never {
    fn eq(&self, _: &Never) -> bool {
        false
    }
}
elt!(Never, |p| Never(Box::new(p)), |s| *s.0, |p| p);
/// Much text, with nesting.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Deep {
    pub id: u64,
    pub name: String,
    pub list: Vec<Option<(i8, bool)>>,
    pub shape: Shape,
}
elt!(Deep, |p| Deep { id: p, name: format!("n\"{}", p % 10), list: (0..p % 4).map(|i| if i == 1 { None } else { Some((i as i8 - 1, i > 1)) }).collect(), shape: Shape::make(p) },
    |s| if s.name == format!("n\"{}", s.id % 10) && s.list.len() as u64 == s.id % 4 && s.shape == Shape::make(s.id) { s.id } else { TORN }, |p| p);
