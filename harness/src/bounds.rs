//! Positions outside of vectors and slices, compared with what native slices do.
use crate::elts::*;
use crate::engine::*;
use crate::hist_copy::Tab;
use crate::src::{mix, Src};
#[cfg(feature = "traits")]
use crate::vt::*;
#[cfg(feature = "traits")]
use dync::traits::*;
use dync::*;
use std::mem::size_of;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(feature = "traits")]
pub type P = PartVTable;

/// A position, mostly out of range; many of them are such that multiplying them with the element
/// size wraps around to a position within the data.
fn pos(s: &mut Src, n: usize, size: usize) -> usize {
    let k = s.below(12);
    let in_range = s.below(n + 1);
    let tz = size.max(1).trailing_zeros();
    match k {
        0 => n,
        1 => n + 1,
        2 => usize::MAX,
        3 => usize::MAX - in_range,
        // 2^64 / size, rounded both ways, plus something in range.
        4 => ((1u128 << 64) / size.max(1) as u128) as usize,
        5 => (((1u128 << 64) / size.max(1) as u128) as usize).wrapping_add(1).wrapping_add(in_range),
        // i * size is exactly in_range * size modulo 2^64.
        6 if tz > 0 => in_range.wrapping_add(1usize << (64 - tz)),
        7 if tz > 0 => in_range.wrapping_add((1usize << (64 - tz)).wrapping_mul(1 + s.below(size))),
        8 => isize::MAX as usize / size.max(1) + s.below(3),
        9 => 1usize << 63 | in_range,
        10 => n + s.below(10),
        _ => in_range,
    }
}

#[derive(Clone, Debug)]
pub enum Rg {
    To(usize),
    From(usize),
    Half(usize, usize),
    Incl(usize, usize),
    ToIncl(usize),
    /// An inclusive range that has been iterated over.
    Spent(usize),
    Full,
}

fn rg(s: &mut Src, n: usize, size: usize) -> Rg {
    let k = s.below(8);
    let a = pos(s, n, size);
    let b = if s.bool() { pos(s, n, size) } else { s.below(n + 1) };
    match k {
        0 => Rg::To(a),
        1 => Rg::From(a),
        2 => Rg::Half(a, b),
        3 => Rg::Half(b, a),
        4 => Rg::Incl(a, b),
        5 => Rg::Incl(b, a),
        6 => Rg::ToIncl(a),
        _ if s.bool() => Rg::Spent(if s.one_in(5) { usize::MAX } else { s.below(n + 2) }),
        _ => Rg::Full,
    }
}
fn spent(i: usize) -> std::ops::RangeInclusive<usize> {
    let mut r = i..=i;
    r.next();
    r
}

macro_rules! in_range {
    ($rg:expr, |$r:ident| $e:expr) => {
        match $rg {
            Rg::To(a) => { let $r = ..a; $e }
            Rg::From(a) => { let $r = a..; $e }
            Rg::Half(a, b) => { let $r = a..b; $e }
            Rg::Incl(a, b) => { let $r = a..=b; $e }
            Rg::ToIncl(a) => { let $r = ..=a; $e }
            Rg::Spent(a) => { let $r = spent(a); $e }
            Rg::Full => { let $r = ..; $e }
        }
    };
}

pub fn cat<X>(f: impl FnOnce() -> X) -> Option<X> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// The native result and the one got, where a rejection is `None`.
macro_rules! same {
    ($s:expr, $what:expr, $native:expr, $got:expr) => {{
        let native: Option<Vec<u64>> = cat(|| $native);
        let got: Option<Vec<u64>> = cat(|| $got).and_then(|x: Option<Vec<u64>>| x);
        if native.is_none() {
            $s.count("rejection"); $s.nontrivial = true;
        }
        $s.obs(got.as_ref().map_or(!0, |x| x.iter().fold(x.len() as u64, |h, &y| mix(h ^ y))));
        if got != native {
            let show = |x: &Option<Vec<u64>>| x.as_ref().map_or("a rejection".to_string(), |x| format!("{:?}", x));
            return Err(format!("{}: got {}, expected {}", $what, show(&got), show(&native)));
        }
    }};
}
/// The same for an operation that changes the model.
macro_rules! same_mut {
    ($s:expr, $what:expr, $m:expr, |$n:ident| $native:expr, $got:expr) => {{
        let after: Option<Vec<u64>> = {
            let mut copy: Vec<u64> = $m.to_vec();
            cat(|| { let $n: &mut [u64] = &mut copy; $native; }).map(|_| copy)
        };
        let ok = after.is_some();
        match after {
            Some(x) => $m.copy_from_slice(&x),
            None => { $s.count("rejection"); $s.nontrivial = true; }
        }
        let got = cat(|| $got).is_some();
        $s.obs(got as u64);
        if got != ok {
            return Err(format!("{}: {}", $what, if got { "was not rejected" } else { "was rejected" }));
        }
    }};
}

fn one<T: Elt>(x: Option<&T>) -> Option<Vec<u64>> {
    x.map(|x| vec![x.pay()])
}

macro_rules! views {
    ($reads:ident, $writes:ident, $Slice:ident, $Mut:ident, [$($bound:tt)*], [$($vbound:tt)*], $append:ident, $from_slice:ident) => {
        /// Reading at positions that may be outside of a shared slice.
        pub fn $reads<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: &$Slice<V>, m: &[u64]) -> R {
            let (n, size) = (m.len(), size_of::<T>());
            let k = s.below(8);
            let i = pos(s, n, size);
            let r = rg(s, n, size);
            s.log(|| format!("slice read {} at {} / {:?} of {}", k, i, r, n));
            match k {
                0 => same!(s, format!("get({})", i), vec![m[i]], one::<T>(v.get(i).downcast())),
                1 => same!(s, format!("get_as({})", i), vec![m[i]], one::<T>(v.get_as::<T>(i))),
                2 | 3 => same!(s, format!("subslice({:?})", r), in_range!(r.clone(), |r| m[r].to_vec()),
                    in_range!(r.clone(), |r| v.subslice(r).as_slice::<T>().map(pays))),
                4 => same!(s, format!("into_subslice({:?})", r), in_range!(r.clone(), |r| m[r].to_vec()),
                    in_range!(r.clone(), |r| v.reborrow().into_subslice(r).as_slice::<T>().map(pays))),
                5 => same!(s, format!("split_at({})", i), { let (a, b) = m.split_at(i); [b, a].concat() }, {
                    let (a, b) = v.split_at(i);
                    Some([pays(b.as_slice::<T>().unwrap()), pays(a.as_slice::<T>().unwrap())].concat())
                }),
                6 => {
                    let c = if s.one_in(3) { 0 } else { i };
                    same!(s, format!("chunks_exact({})", c), m.chunks_exact(c).flat_map(|c| c.to_vec()).collect(),
                        Some(v.chunks_exact(c).flat_map(|c| pays(c.as_slice::<T>().unwrap())).collect()))
                }
                _ => {
                    // Far into an iterator.
                    same!(s, format!("iter().nth({})", i), m.iter().nth(i).map_or(vec![], |&x| vec![x]),
                        Some(v.iter().nth(i).map_or(vec![], |x| vec![x.downcast::<T>().unwrap().pay()])))
                }
            }
            Ok(())
        }

        /// Positions that may be outside of a mutable slice.
        pub fn $writes<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: &mut $Mut<V>, m: &mut Vec<u64>) -> R {
            let (n, size) = (m.len(), size_of::<T>());
            let k = s.below(16);
            let i = pos(s, n, size);
            let j = if s.bool() { pos(s, n, size) } else { s.below(n + 1) };
            let r = rg(s, n, size);
            let p = T::canon(s.pay());
            s.log(|| format!("mut slice op {} at {}, {} / {:?} of {}", k, i, j, r, n));
            match k {
                0 => same!(s, format!("mut get({})", i), vec![m[i]], one::<T>(v.get(i).downcast())),
                1 => same_mut!(s, format!("get_mut({})", i), m, |m| m[i] = p, *v.get_mut(i).downcast::<T>().unwrap() = T::make(p)),
                2 => same_mut!(s, format!("mut get_as({})", i), m, |m| m[i] = p, *v.get_as::<T>(i).unwrap() = T::make(p)),
                3 => same!(s, format!("mut subslice({:?})", r), in_range!(r.clone(), |r| m[r].to_vec()),
                    in_range!(r.clone(), |r| v.subslice(r).as_slice::<T>().map(pays))),
                4 | 5 => same_mut!(s, format!("subslice_mut({:?})", r), m,
                    |m| in_range!(r.clone(), |r| if let Some(x) = m[r].first_mut() { *x = p }),
                    in_range!(r.clone(), |r| if let Some(x) = v.subslice_mut(r).as_slice::<T>().unwrap().first_mut() { *x = T::make(p) })),
                6 => same_mut!(s, format!("mut into_subslice({:?})", r), m,
                    |m| in_range!(r.clone(), |r| if let Some(x) = m[r].last_mut() { *x = p }),
                    in_range!(r.clone(), |r| if let Some(x) = v.reborrow_mut().into_subslice(r).as_slice::<T>().unwrap().last_mut() { *x = T::make(p) })),
                7 => same_mut!(s, format!("mut split_at({})", i), m,
                    |m| { let (a, b) = m.split_at_mut(i); if let Some(x) = a.last_mut() { *x = p } if let Some(x) = b.last_mut() { *x = p } },
                    {
                        let (mut a, mut b) = v.split_at(i);
                        if let Some(x) = a.as_slice::<T>().unwrap().last_mut() { *x = T::make(p) }
                        if let Some(x) = b.as_slice::<T>().unwrap().last_mut() { *x = T::make(p) }
                    }),
                8 => {
                    let c = if s.one_in(3) { 0 } else { i };
                    same_mut!(s, format!("chunks_exact_mut({})", c), m,
                        |m| for x in m.chunks_exact_mut(c) { x[0] = p },
                        for mut x in v.chunks_exact_mut(c) { x.as_slice::<T>().unwrap()[0] = T::make(p) });
                    same!(s, format!("mut chunks_exact({})", c), m.chunks_exact(c).flat_map(|c| c.to_vec()).collect(),
                        Some(v.chunks_exact(c).flat_map(|c| pays(c.as_slice::<T>().unwrap())).collect()))
                }
                // Swapping an element with itself is documented to do nothing.
                9 | 10 if i != j => same_mut!(s, format!("swap({}, {})", i, j), m, |m| m.swap(i, j), v.swap(i, j)),
                11 | 12 => same_mut!(s, format!("rotate_left({})", i), m, |m| m.rotate_left(i), v.rotate_left(i)),
                13 | 14 => same_mut!(s, format!("rotate_right({})", i), m, |m| m.rotate_right(i), v.rotate_right(i)),
                _ => {
                    let l = if s.bool() { s.below(n + 3) } else { n };
                    let d: Vec<u64> = (0..l).map(|_| T::canon(s.pay())).collect();
                    let src: Vec<T> = make_all(&d);
                    same_mut!(s, format!("writing {} elements over {}", l, n), m, |m| m.copy_from_slice(&d),
                        { v.$from_slice(&src).unwrap(); });
                }
            }
            Ok(())
        }
    };
}

pub trait CTab<T: CopyElt>: Clone + 'static + VTable<T> {}
impl<T: CopyElt, V: Clone + 'static + VTable<T>> CTab<T> for V {}
#[cfg(feature = "traits")]
pub trait DTab<T: Elt>: Clone + 'static + HasDrop + HasClone + VTable<T> {}
#[cfg(feature = "traits")]
impl<T: Elt, V: Clone + 'static + HasDrop + HasClone + VTable<T>> DTab<T> for V {}

views!(creads, cwrites, SliceCopy, SliceCopyMut, [CopyElt], [CTab<T>], append_copy_to_vec, copy_from_slice);
#[cfg(feature = "traits")]
views!(dreads, dwrites, Slice, SliceMut, [Elt], [DTab<T>], append_clone_to_vec, clone_from_slice);

fn content<T: Elt>(s: &mut Src) -> Vec<u64> {
    let n = if s.one_in(16) { s.below(100) } else { s.len(12) };
    (0..n).map(|_| T::canon(s.pay())).collect()
}

/// More elements than can exist.
fn too_many(s: &mut Src, size: usize) -> usize {
    let least = isize::MAX as usize / size + 1;
    match s.below(5) {
        0 => usize::MAX,
        1 => least,
        2 => usize::MAX / size,
        3 => (usize::MAX / size).saturating_add(1),
        _ => usize::MAX / 2 + 1,
    }
    .max(least)
}

#[cfg(feature = "traits")]
pub fn vec_dyn<T: Elt>(s: &mut Src) -> R {
    let mut m = content::<T>(s);
    let size = size_of::<T>();
    s.log(|| format!("vector {:?} of {}", m, T::name()));
    s.count("vector");
    let mut v: VecDyn<P> = make_all::<T>(&m).into();
    for step in 0..s.range(1, 8) {
        let n = m.len();
        let k = s.below(14);
        let i = pos(s, n, size);
        let p = T::canon(s.pay());
        s.log(|| format!("vector op {} at {} of {}", k, i, n));
        match k {
            0 => same!(s, format!("get({})", i), vec![m[i]], one::<T>(v.get(i).downcast())),
            1 => same!(s, format!("get_ref_as({})", i), vec![m[i]], one::<T>(v.get_ref_as::<T>(i))),
            2 => {
                let m = &mut m;
                same_mut!(s, format!("get_mut({})", i), m, |m| m[i] = p, *v.get_mut(i).downcast::<T>().unwrap() = T::make(p))
            }
            3 => {
                let m = &mut m;
                same_mut!(s, format!("get_mut_as({})", i), m, |m| m[i] = p, *v.get_mut_as::<T>(i).unwrap() = T::make(p))
            }
            4 if std::mem::align_of::<T>() <= 8192 => {
                let m = &mut m;
                same_mut!(s, format!("rotate_left({})", i), m, |m| m.rotate_left(i), v.rotate_left(i))
            }
            5 if std::mem::align_of::<T>() <= 8192 => {
                let m = &mut m;
                same_mut!(s, format!("rotate_right({})", i), m, |m| m.rotate_right(i), v.rotate_right(i))
            }
            6 => {
                let l = too_many(s, size);
                ck!(cat(|| v.resize(l, T::make(p)).is_some()).is_none(), "resize({}) was not rejected", l);
                s.count("rejection"); s.nontrivial = true;
            }
            7 => {
                let l = too_many(s, size);
                ck!(cat(|| VecDyn::<P>::with_capacity::<T>(l)).is_none(), "with_capacity({}) was not rejected", l);
                ck!(cat(|| VecDyn::<P>::with_size(l, T::make(p))).is_none(), "with_size({}) was not rejected", l);
                s.count("rejection"); s.nontrivial = true;
            }
            8 | 9 => dreads::<T, P>(s, &v.as_slice(), &m)?,
            10..=12 => dwrites::<T, P>(s, &mut v.as_mut_slice(), &mut m)?,
            _ => {
                // A window keeps its own bounds.
                let a = s.below(n + 1);
                let b = a + s.below(n - a + 1);
                let mut w = m[a..b].to_vec();
                dwrites::<T, P>(s, &mut v.as_mut_slice().into_subslice(a..b), &mut w)?;
                m[a..b].copy_from_slice(&w);
                dreads::<T, P>(s, &v.as_slice().into_subslice(a..b), &w)?;
            }
        }
        cke!(v.len(), m.len(), "length after step {}", step);
        cke!(v.as_slice_as::<T>().map(pays), Some(m.clone()), "contents after step {}", step);
    }
    let p = T::canon(s.pay());
    ck!(v.push_as(T::make(p)).is_some(), "push_as: refused after rejections");
    m.push(p);
    cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "contents at the end");

    Ok(())
}

pub fn vec_copy<T: CopyElt>(s: &mut Src) -> R {
    let mut m = content::<T>(s);
    let size = size_of::<T>();
    s.log(|| format!("plain vector {:?} of {}", m, T::name()));
    s.count("plain vector");
    let mut v: VecCopy<Tab> = make_all::<T>(&m).into();
    for step in 0..s.range(1, 8) {
        let n = m.len();
        let k = s.below(17);
        let i = pos(s, n, size);
        let p = T::canon(s.pay());
        s.log(|| format!("plain vector op {} at {} of {}", k, i, n));
        match k {
            0 => same!(s, format!("get_ref({})", i), vec![m[i]], one::<T>(v.get_ref(i).downcast())),
            1 => same!(s, format!("get_ref_as({})", i), vec![m[i]], one::<T>(v.get_ref_as::<T>(i))),
            2 => same!(s, format!("get_as({})", i), vec![m[i]], one::<T>(v.get_as::<T>(i).as_ref())),
            3 => {
                let m = &mut m;
                same_mut!(s, format!("get_mut({})", i), m, |m| m[i] = p, *v.get_mut(i).downcast::<T>().unwrap() = T::make(p))
            }
            4 => {
                let m = &mut m;
                same_mut!(s, format!("get_mut_as({})", i), m, |m| m[i] = p, *v.get_mut_as::<T>(i).unwrap() = T::make(p))
            }
            5 if std::mem::align_of::<T>() <= 8192 => {
                let m = &mut m;
                same_mut!(s, format!("rotate_left({})", i), m, |m| m.rotate_left(i), v.rotate_left(i))
            }
            6 if std::mem::align_of::<T>() <= 8192 => {
                let m = &mut m;
                same_mut!(s, format!("rotate_right({})", i), m, |m| m.rotate_right(i), v.rotate_right(i))
            }
            7 => {
                let l = too_many(s, size);
                ck!(cat(|| v.resize(l, T::make(p)).is_some()).is_none(), "resize({}) was not rejected", l);
                s.count("rejection"); s.nontrivial = true;
            }
            8 => {
                let l = too_many(s, size);
                ck!(cat(|| VecCopy::<Tab>::with_capacity::<T>(l)).is_none(), "with_capacity({}) was not rejected", l);
                ck!(cat(|| VecCopy::<Tab>::with_size(l, T::make(p))).is_none(), "with_size({}) was not rejected", l);
                s.count("rejection"); s.nontrivial = true;
            }
            9 => {
                let l = too_many(s, size);
                ck!(cat(|| v.reserve(l)).is_none(), "reserve({}) was not rejected", l);
                s.count("rejection"); s.nontrivial = true;
            }
            10 => {
                let (d, _) = v.clone().into_raw_parts();
                same!(s, format!("get_bytes({})", i), vec![m[i]], {
                    let b = d.get_bytes(i);
                    assert!(b.len() == size);
                    let x = unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) };
                    one(Some(&x))
                });
            }
            11 | 12 => creads::<T, Tab>(s, &v.as_slice(), &m)?,
            13..=15 => cwrites::<T, Tab>(s, &mut v.as_mut_slice(), &mut m)?,
            _ => {
                let a = s.below(n + 1);
                let b = a + s.below(n - a + 1);
                let mut w = m[a..b].to_vec();
                cwrites::<T, Tab>(s, &mut v.as_mut_slice().into_subslice(a..b), &mut w)?;
                m[a..b].copy_from_slice(&w);
                creads::<T, Tab>(s, &v.as_slice().into_subslice(a..b), &w)?;
            }
        }
        cke!(v.len(), m.len(), "length after step {}", step);
        cke!(v.as_slice_as::<T>().map(pays), Some(m.clone()), "contents after step {}", step);
    }
    let p = T::canon(s.pay());
    ck!(v.push_as(T::make(p)).is_some(), "push_as: refused after rejections");
    m.push(p);
    s.obs(v.len() as u64);
    cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "contents at the end");

    Ok(())
}

/// Zero-sized elements are rejected by every constructor.
pub fn zero<T: Clone + PartialEq + std::fmt::Debug + Copy + 'static>(s: &mut Src, x: T) -> R {
    let n = s.below(5);
    let v = vec![x; n];
    s.log(|| format!("{} elements of {}", n, std::any::type_name::<T>()));
    s.count("zero-sized");
    let k = s.below(16);
    let b = match k {
        #[cfg(feature = "traits")]
        0 => cat(|| VecDyn::<P>::with_type::<T>()).is_some(),
        #[cfg(feature = "traits")]
        1 => cat(|| VecDyn::<P>::with_capacity::<T>(n)).is_some(),
        #[cfg(feature = "traits")]
        2 => cat(|| VecDyn::<P>::with_size(n, x)).is_some(),
        #[cfg(feature = "traits")]
        3 => cat(|| VecDyn::<P>::from_vec(v)).is_some(),
        #[cfg(feature = "traits")]
        4 => cat(|| VecDyn::<P>::from_slice(&v)).is_some(),
        #[cfg(feature = "traits")]
        5 => cat(|| VecDyn::<P>::from(v)).is_some(),
        #[cfg(feature = "traits")]
        6 => cat(|| VecDyn::<P>::from(&v[..])).is_some(),
        #[cfg(feature = "traits")]
        7 => cat(|| VecDyn::<P>::with_type_from(ValueRef::<P>::new(&x))).is_some(),
        8 => cat(|| VecCopy::<Tab>::with_type::<T>()).is_some(),
        9 => cat(|| VecCopy::<Tab>::with_capacity::<T>(n)).is_some(),
        10 => cat(|| VecCopy::<Tab>::with_size(n, x)).is_some(),
        11 => cat(|| VecCopy::<Tab>::from_vec(v)).is_some(),
        12 => cat(|| VecCopy::<Tab>::from_slice(&v)).is_some(),
        13 => cat(|| VecCopy::<Tab>::from(v)).is_some(),
        14 => cat(|| VecCopy::<Tab>::from(&v[..])).is_some(),
        _ => cat(|| VecCopy::<Tab>::with_type_from(CopyValueRef::<Tab>::new(&x))).is_some(),
    };
    ck!(!b, "constructor {} accepted zero-sized elements", k);
    s.count("rejection"); s.nontrivial = true;

    Ok(())
}
