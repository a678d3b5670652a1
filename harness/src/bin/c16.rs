//! Numeric conversion, display and dispatch.
use dync::*;
use std::any::TypeId;
use std::fmt::{Debug, Display};
use vh::elts::*;
use vh::engine::*;
use vh::src::Src;
use vh::vt::*;
use vh::{ck, cke};

/// A number as the mathematics sees it.
#[derive(Clone, Copy, Debug)]
enum Num {
    Int(i128),
    /// Of `f32` or `f64`.
    Real(f64),
}

trait Number: 'static + Copy + Debug + Display + PartialEq + std::str::FromStr {
    const NAME: &'static str;
    fn num(self) -> Num;
    /// The value nearest to the number if it is representable (reals lose their fraction).
    fn rep(n: Num) -> Option<Self>;
    fn zero() -> Self;
    fn from_choice(s: &mut Src) -> Self;
    fn same(self, o: Self) -> bool;
}

/// The integer part of a finite real of reasonable size, without relying on `as` to integers.
fn trunc(x: f64) -> Option<i128> {
    if !x.is_finite() {
        return None;
    }
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    if e == 0 {
        return Some(0);
    }
    let m = (b & ((1 << 52) - 1) | 1 << 52) as i128;
    let sh = e - 1075;
    let v = if sh >= 70 {
        return None;
    } else if sh >= 0 {
        m << sh
    } else if sh > -64 {
        m >> -sh
    } else {
        0
    };
    Some(if x < 0.0 { -v } else { v })
}

macro_rules! ints {
    ($($t:ident)*) => { $(
        impl Number for $t {
            const NAME: &'static str = stringify!($t);
            fn num(self) -> Num { Num::Int(self as i128) }
            fn rep(n: Num) -> Option<Self> {
                let i = match n { Num::Int(i) => i, Num::Real(x) => trunc(x)? };
                if i < <$t>::MIN as i128 || i > <$t>::MAX as i128 { None } else { Some(i as $t) }
            }
            fn zero() -> Self { 0 }
            fn from_choice(s: &mut Src) -> Self {
                match s.below(6) {
                    0 => <$t>::MIN.wrapping_add(s.below(3) as $t),
                    1 => <$t>::MAX.wrapping_sub(s.below(3) as $t),
                    2 => (0 as $t).wrapping_sub(s.below(3) as $t),
                    // Around the bounds of smaller types.
                    3 => ((1u128 << s.below(64)) as $t).wrapping_add(s.below(5) as $t).wrapping_sub(2),
                    4 => (0 as $t).wrapping_sub((1u128 << s.below(64)) as $t).wrapping_add(s.below(5) as $t).wrapping_sub(2),
                    _ => s.pay() as $t,
                }
            }
            fn same(self, o: Self) -> bool { self == o }
        }
    )* };
}
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);

macro_rules! reals {
    ($($t:ident $bits:ident)*) => { $(
        impl Number for $t {
            const NAME: &'static str = stringify!($t);
            fn num(self) -> Num { Num::Real(self as f64) }
            fn rep(n: Num) -> Option<Self> {
                Some(match n { Num::Int(i) => i as $t, Num::Real(x) => x as $t })
            }
            fn zero() -> Self { 0.0 }
            fn from_choice(s: &mut Src) -> Self {
                let near = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.99999, -0.99999, 127.0, 128.0, -128.0, -129.0, 255.0, 256.0, 32767.0, 32768.0, -32768.0,
                    -32769.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
                    9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551615.0,
                    18446744073709549568.0, 18446744073709551616.0, 1e30, -1e30, 1e300, 3.4028235e38, 3.5e38, 1e-320];
                match s.below(6) {
                    0 => [<$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, <$t>::EPSILON][s.below(7)],
                    1 | 2 => near[s.below(near.len())] as $t + [0.0, 0.5, -0.5, 0.25, -0.999][s.below(5)] as $t,
                    3 => {
                        // The neighbours of bounds.
                        let x = near[s.below(near.len())] as $t;
                        <$t>::from_bits(x.to_bits().wrapping_add(s.below(3) as $bits).wrapping_sub(1))
                    }
                    4 => (s.pay() as i64 >> s.below(64)) as $t / 16.0,
                    _ => <$t>::from_bits(s.pay() as $bits),
                }
            }
            fn same(self, o: Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
        }
    )* };
}
reals!(f32 u32 f64 u64);

fn data<I: Number>(s: &mut Src) -> Vec<I> {
    if s.one_in(100) {
        // Many numbers from few choices.
        let n = s.long(3000);
        let few: Vec<I> = (0..s.range(1, 40)).map(|_| I::from_choice(s)).collect();
        let z = s.u64();
        return (0..n as u64).map(|i| few[vh::src::mix(z ^ i) as usize % few.len()]).collect();
    }
    let n = s.len(12);
    (0..n).map(|_| I::from_choice(s)).collect()
}

fn cmp<I: Number, O: Number>(v: &[I], got: &[O], what: &str) -> R {
    cke!(got.len(), v.len(), "length of {}", what);
    for (i, (&x, &g)) in v.iter().zip(got).enumerate() {
        let e = O::rep(x.num()).unwrap_or(O::zero());
        ck!(g.same(e), "{}: element {} was {:?} and became {:?}, expected {:?}", what, i, x, g, e);
    }
    Ok(())
}

fn cast<I: Number, O: Number + numeric::Target>(s: &mut Src, supported: bool) -> R
where
    DropV: VTable<I>,
    PartVTable: VTable<I>,
{
    let v: Vec<I> = data(s);
    s.log(|| format!("cast {:?} from {} to {}", v, I::NAME, O::NAME));
    s.count("cast");
    let w: &[I] = if supported { &v } else { &[] };
    let c: VecCopy<()> = match s.below(4) {
        0 => VecCopy::from_vec(v.clone()),
        1 => VecCopy::from_slice(&v),
        2 => {
            let mut c = VecCopy::with_type::<I>();
            for &x in &v {
                c.push_as(x);
            }
            c
        }
        _ => {
            let mut c: VecCopy<()> = VecCopy::from_vec(v.clone());
            c.reserve(s.below(10));
            c.rotate_left(0);
            c
        }
    };
    cmp::<I, O>(w, &numeric::cast_copy::<O>(&c), &format!("VecCopy of {} cast to {}", I::NAME, O::NAME))?;
    // It only looks.
    ck!(c.as_slice_as::<I>().map_or(false, |x| x.iter().zip(&v).all(|(a, b)| a.same(*b))), "the cast vector changed");
    let d: VecDyn<PartVTable> = VecDyn::from_vec(v.clone());
    match numeric::cast_dyn::<O, _>(&d) {
        Some(g) => {
            ck!(supported, "VecDyn of {} was cast to {}", I::NAME, O::NAME);
            cmp::<I, O>(w, &g, &format!("VecDyn of {} cast to {}", I::NAME, O::NAME))?
        }
        None => ck!(!supported, "VecDyn of {} was not cast to {}", I::NAME, O::NAME),
    }
    s.nontrivial = v.len() > 0;
    Ok(())
}

/// What the macro is for: running code with the actual element type.
#[derive(Debug, PartialEq)]
struct Saw {
    id: Option<TypeId>,
    text: String,
    arg: u32,
    extra: Option<TypeId>,
}
fn saw<T: 'static + Debug, V>(b: &VecCopy<V>, arg: u32, extra: Option<TypeId>) -> Saw {
    Saw { id: Some(TypeId::of::<T>()), text: format!("{:?}", b.as_slice_as::<T>().expect("dispatched to another type")), arg, extra }
}
fn none() -> Saw {
    Saw { id: None, text: String::new(), arg: 0, extra: None }
}
unsafe fn f_arg<T: 'static + Debug>(b: &VecCopy<()>, arg: u32) -> Saw {
    saw::<T, _>(b, arg, None)
}
unsafe fn f_data<T: 'static + Debug, A: 'static>(b: &VecCopy<()>) -> Saw {
    saw::<T, _>(b, 0, Some(TypeId::of::<A>()))
}
unsafe fn f_both<T: 'static + Debug, A: 'static>(b: &VecCopy<()>, arg: u32, more: u32) -> Saw {
    saw::<T, _>(b, arg * 1000 + more, Some(TypeId::of::<A>()))
}
trait Meth {
    unsafe fn m_arg<T: 'static + Debug>(&self, arg: u32) -> Saw;
    unsafe fn m_both<T: 'static + Debug, A: 'static>(&self, arg: u32, more: u32) -> Saw;
}
impl Meth for VecCopy<()> {
    unsafe fn m_arg<T: 'static + Debug>(&self, arg: u32) -> Saw {
        saw::<T, _>(self, arg, None)
    }
    unsafe fn m_both<T: 'static + Debug, A: 'static>(&self, arg: u32, more: u32) -> Saw {
        saw::<T, _>(self, arg * 1000 + more, Some(TypeId::of::<A>()))
    }
}

#[allow(unused_unsafe)]
fn dispatch<T: 'static + Copy + Debug>(s: &mut Src, v: Vec<T>, supported: bool) -> R {
    let c: VecCopy<()> = VecCopy::from_vec(v.clone());
    let d = &c;
    let arg = s.below(1000) as u32;
    let more = s.below(1000) as u32;
    let k = s.below(10);
    s.log(|| format!("dispatch {} of {:?} ({})", k, v, std::any::type_name::<T>()));
    s.count("dispatch");
    let (got, arg, extra) = match k {
        0 | 1 => (call_numeric_buffer_fn!(f_arg::<_>(d, arg) or { none() }), arg, None),
        2 => (call_numeric_buffer_fn!(f_data::<_, u8>(d) or { none() }), 0, Some(TypeId::of::<u8>())),
        3 => (call_numeric_buffer_fn!(f_data::<_, String>(d) or { none() }), 0, Some(TypeId::of::<String>())),
        4 => (call_numeric_buffer_fn!(f_both::<_, f32>(d, arg, more) or { none() }), arg * 1000 + more, Some(TypeId::of::<f32>())),
        5 => (call_numeric_buffer_fn!(f_both::<_, i64>(d, more, arg) or { none() }), more * 1000 + arg, Some(TypeId::of::<i64>())),
        6 | 7 => (call_numeric_buffer_fn!(d.m_arg::<_>(arg) or { none() }), arg, None),
        8 => (call_numeric_buffer_fn!(d.m_both::<_, u16>(arg, more) or { none() }), arg * 1000 + more, Some(TypeId::of::<u16>())),
        _ => (call_numeric_buffer_fn!(d.m_both::<_, char>(more, arg) or { none() }), more * 1000 + arg, Some(TypeId::of::<char>())),
    };
    let want = if supported { Saw { id: Some(TypeId::of::<T>()), text: format!("{:?}", v), arg, extra } } else { none() };
    cke!(got, want, "dispatch {} of {}", k, std::any::type_name::<T>());
    s.nontrivial = v.len() > 0;
    Ok(())
}

fn display<I: Number>(s: &mut Src) -> R {
    let v: Vec<I> = data(s);
    s.log(|| format!("display {:?} of {}", v, I::NAME));
    s.count("display");
    let c: VecCopy<()> = VecCopy::from_vec(v.clone());
    let t = format!("{}", c);
    // The elements, in order, each as its own type prints it.
    let want: Vec<String> = v.iter().map(|x| format!("{}", x)).collect();
    cke!(t.split_whitespace().collect::<Vec<_>>(), want, "display of {}", I::NAME);
    // Numbers can be read back.
    for (x, w) in v.iter().zip(t.split_whitespace()) {
        ck!(w.parse::<I>().map_or(false, |y| y.same(*x)), "display of {}: {:?} is shown as {}", I::NAME, x, w);
    }
    s.nontrivial = v.len() > 0;
    Ok(())
}

mod numeric {
    use super::*;
    use dync::traits::HasDrop;
    /// Types that casts can be asked to produce.
    pub trait Target: Sized {
        fn cc(v: &VecCopy<()>) -> Vec<Self>;
        fn cd<V: HasDrop>(v: &VecDyn<V>) -> Option<Vec<Self>>;
    }
    macro_rules! target {
        ($($t:ty)*) => { $(
            impl Target for $t {
                fn cc(v: &VecCopy<()>) -> Vec<$t> { v.cast_into_vec::<$t>() }
                fn cd<V: HasDrop>(v: &VecDyn<V>) -> Option<Vec<$t>> { v.cast_into_vec::<$t>() }
            }
        )* };
    }
    target!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 usize isize);
    pub fn cast_copy<O: Target>(v: &VecCopy<()>) -> Vec<O> {
        O::cc(v)
    }
    pub fn cast_dyn<O: Target, V: HasDrop>(v: &VecDyn<V>) -> Option<Vec<O>> {
        O::cd(v)
    }
}
type DropV = dync::traits::DropVTable;

/// Other element types are not converted.
fn other<T: Elt + Copy + Debug>(s: &mut Src) -> R {
    let v: Vec<T> = make_all(&s.pays(6));
    s.count("other type");
    s.log(|| format!("other: {} of {}", v.len(), T::name()));
    let c: VecCopy<()> = VecCopy::from_vec(v.clone());
    ck!(c.cast_into_vec::<u8>().is_empty() && c.cast_into_vec::<f64>().is_empty() && c.cast_into_vec::<i64>().is_empty(), "VecCopy of {} was cast", T::name());
    let d: VecDyn<DropV> = VecDyn::from_vec(v.clone());
    ck!(d.cast_into_vec::<u8>().is_none() && d.cast_into_vec::<f32>().is_none() && d.cast_into_vec::<u64>().is_none(), "VecDyn of {} was cast", T::name());
    if s.bool() {
        return dispatch::<T>(s, v, false);
    }
    s.nontrivial = v.len() > 0;
    Ok(())
}

fn from<I: Number>(s: &mut Src, supported: bool) -> R {
    match s.below(18) {
        0 => cast::<I, u8>(s, supported),
        1 => cast::<I, i8>(s, supported),
        2 => cast::<I, u16>(s, supported),
        3 => cast::<I, i16>(s, supported),
        4 => cast::<I, u32>(s, supported),
        5 => cast::<I, i32>(s, supported),
        6 => cast::<I, u64>(s, supported),
        7 => cast::<I, i64>(s, supported),
        8 => cast::<I, f32>(s, supported),
        9 => cast::<I, f64>(s, supported),
        10 => cast::<I, usize>(s, supported),
        11 => cast::<I, isize>(s, supported),
        12..=14 if supported => display::<I>(s),
        _ => {
            let v = data::<I>(s);
            dispatch::<I>(s, v, supported)
        }
    }
}

fn case(s: &mut Src) -> R {
    match s.below(24) {
        0 | 1 => from::<u8>(s, true),
        2 | 3 => from::<i8>(s, true),
        4 | 5 => from::<u16>(s, true),
        6 | 7 => from::<i16>(s, true),
        8 | 9 => from::<u32>(s, true),
        10 | 11 => from::<i32>(s, true),
        12 | 13 => from::<u64>(s, true),
        14 | 15 => from::<i64>(s, true),
        16 | 17 => from::<f32>(s, true),
        18 | 19 => from::<f64>(s, true),
        20 => from::<usize>(s, false),
        21 => from::<isize>(s, false),
        _ => match s.below(7) {
            0 => other::<bool>(s),
            1 => other::<char>(s),
            2 => other::<W<u8>>(s),
            3 => other::<W<f64>>(s),
            4 => other::<[u32; 3]>(s),
            5 => other::<u128>(s),
            _ => other::<[u64; 1]>(s),
        },
    }
}
fn main() {
    vh::engine::main(&[("C16", case)])
}
