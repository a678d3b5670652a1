//! Untyped slices against native slices: nested views of every kind, written through at every level.
use crate::elts::*;
use crate::engine::*;
use crate::src::Src;
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};
use std::ops::Range;

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// With rotations.
    pub rotate: bool,
}

fn range(s: &mut Src, n: usize) -> (usize, usize) {
    match s.below(8) {
        0 => (0, n),
        1 => {
            let a = s.below(n + 1);
            (a, a)
        }
        _ => {
            let a = s.below(n + 1);
            (a, a + s.below(n - a + 1))
        }
    }
}

/// Apply a view operation that takes a range, with a range of some kind.
macro_rules! with_range {
    ($s:expr, $n:expr, |$r:ident| $e:expr) => {{
        let (a, b) = range($s, $n);
        let k = $s.below(7);
        $s.log(|| format!("range kind {} for {}..{} of {}", k, a, b, $n));
        match k {
            0 => { let $r = ..b; ($e, 0..b) }
            1 => { let $r = a..; ($e, a..$n) }
            2 => { let $r = ..; ($e, 0..$n) }
            3 if b > a => { let $r = a..=b - 1; ($e, a..b) }
            4 if b > 0 => { let $r = ..=b - 1; ($e, 0..b) }
            5 if a == b && a > 0 => { let $r = a..=a - 1; ($e, a..a) }
            _ => { let $r = a..b; ($e, a..b) }
        }
    }};
}

macro_rules! read_walk {
    ($walk:ident, $read:ident, $Slice:ident, $Val:ident, [$($bound:tt)*], [$($vbound:tt)*], $append:ident, $into_vec:ident) => {
        /// Every way of reading a view.
        fn $read<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: &$Slice<V>, m: &[u64]) -> R {
            let n = m.len();
            cke!(v.len(), n, "len");
            cke!(v.is_empty(), n == 0, "is_empty");
            cke!(v.element_size(), size_of::<T>(), "element_size");
            ck!(v.element_type_id() == TypeId::of::<T>(), "element_type_id");
            ck!(v.check::<T>().is_some() && v.check::<T::Other>().is_none(), "check");
            let k = s.below(10);
            s.log(|| format!("read {} of {:?}", k, m));
            match k {
                0 => cke!(v.as_slice::<T>().map(pays), Some(m.to_vec()), "as_slice"),
                1 => cke!(v.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect::<Vec<_>>()), Some(m.to_vec()), "iter_as"),
                2 => {
                    let mut i = 0;
                    for x in v.iter() {
                        ck!(i < n, "iter: too many");
                        ck!(x.is::<T>() && x.size() == size_of::<T>() && x.value_alignment() == align_of::<T>(), "iter: value type");
                        cke!(x.downcast::<T>().map(|x| x.pay()), Some(m[i]), "iter: {}", i);
                        i += 1;
                    }
                    cke!(i, n, "iter: count");
                }
                3 => {
                    for i in 0..n {
                        cke!(seen!(T, v.get(i)), m[i], "get({})", i);
                    }
                }
                4 => {
                    for i in 0..n {
                        cke!(v.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "get_as({})", i);
                    }
                }
                5 => {
                    let c = s.range(1, n + 2);
                    let want: Vec<Vec<u64>> = m.chunks_exact(c).map(|c| c.to_vec()).collect();
                    let mut got = Vec::new();
                    for ch in v.chunks_exact(c) {
                        cke!(ch.len(), c, "chunks_exact({}): chunk length", c);
                        got.push(ch.as_slice::<T>().map(pays).ok_or("chunks_exact: type lost")?);
                    }
                    cke!(got, want, "chunks_exact({})", c);
                }
                6 => {
                    let k = s.below(n + 1);
                    let (a, b) = v.split_at(k);
                    cke!(a.as_slice::<T>().map(pays), Some(m[..k].to_vec()), "split_at({}): left", k);
                    cke!(b.as_slice::<T>().map(pays), Some(m[k..].to_vec()), "split_at({}): right", k);
                }
                7 => {
                    let mut out: Vec<T> = make_all(&[5]);
                    ck!(v.$append(&mut out).is_some(), "appending to a vector: refused");
                    cke!(pays(&out), [canon_all::<T>(&[5]), m.to_vec()].concat(), "appended");
                    cke!(v.$into_vec::<T>().map(|x| pays(&x)), Some(m.to_vec()), "copied to a vector");
                }
                8 => {
                    // The iterators can be stepped like any other.
                    let k = s.below(n + 2);
                    cke!(v.iter().nth(k).map(|x| x.downcast::<T>().map(|x| x.pay())), m.get(k).map(|&p| Some(p)), "iter: nth({})", k);
                    cke!(v.iter().skip(k).step_by(2).map(|x| seen!(T, x)).collect::<Vec<_>>(),
                        m.iter().skip(k).step_by(2).copied().collect::<Vec<_>>(), "iter: stepping");
                    cke!(v.iter().fold(Vec::new(), |mut a, x| { a.push(seen!(T, x)); a }), m, "iter: fold");
                    let mut it = v.iter();
                    let left = it.by_ref().take(k).count();
                    let (lo, hi) = it.size_hint();
                    cke!((left, it.count()), (k.min(n), n - k.min(n)), "iter: counts");
                    ck!(lo <= n - k.min(n) && hi.map_or(true, |h| n - k.min(n) <= h), "iter: size_hint {:?} with {} left", (lo, hi), n - k.min(n));
                    cke!(v.iter().last().map(|x| seen!(T, x)), m.last().copied(), "iter: last");
                }
                _ => {
                    let p = v.as_slice::<T>().ok_or("as_slice: refused")?.as_ptr();
                    ck!(n == 0 || p as usize % align_of::<T>() == 0, "misaligned");
                    for i in 0..n {
                        let q = v.get(i).downcast::<T>().map(|x| x as *const T);
                        ck!(q == Some(p.wrapping_add(i)), "get({}): not the viewed element itself", i);
                    }
                }
            }
            Ok(())
        }

        /// Nested views of a shared slice.
        pub fn $walk<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: $Slice<V>, m: &[u64], depth: usize) -> R {
            $read::<T, V>(s, &v, m)?;
            if depth == 0 {
                return Ok(());
            }
            let n = m.len();
            let k = s.below(7);
            s.log(|| format!("view {} of {} elements", k, n));
            match k {
                0 => {
                    let (w, r) = with_range!(s, n, |r| v.subslice(r));
                    $walk::<T, V>(s, w, &m[r], depth - 1)?;
                    $read::<T, V>(s, &v, m)
                }
                1 => {
                    let (w, r) = with_range!(s, n, |r| v.into_subslice(r));
                    $walk::<T, V>(s, w, &m[r], depth - 1)
                }
                2 => {
                    let k = s.below(n + 1);
                    let (a, b) = v.split_at(k);
                    $walk::<T, V>(s, a, &m[..k], depth - 1)?;
                    $walk::<T, V>(s, b, &m[k..], depth - 1)
                }
                3 => {
                    let c = s.range(1, n.max(1));
                    let k = s.below(n / c + 1);
                    for (i, ch) in v.chunks_exact(c).enumerate() {
                        if i == k {
                            $walk::<T, V>(s, ch, &m[i * c..(i + 1) * c], depth - 1)?;
                        }
                    }
                    Ok(())
                }
                4 => $walk::<T, V>(s, v.reborrow(), m, depth - 1),
                5 => {
                    let (w, r) = with_range!(s, n, |r| v.subslice(r));
                    let got: Vec<u64> = w.into_iter().map(|x| seen!(T, x)).collect();
                    cke!(got, m[r].to_vec(), "into_iter");
                    Ok(())
                }
                _ => $walk::<T, V>(s, v, m, depth - 1),
            }
        }
    };
}

macro_rules! write_walk {
    ($walk:ident, $write:ident, $readall:ident, $rwalk:ident, $Slice:ident, $Mut:ident, $Val:ident, $ValMut:ident, [$($bound:tt)*], [$($vbound:tt)*],
     $into_vec:ident, $from_slice:ident, $assign:ident, $append:ident) => {
        /// Every way of reading a mutable view.
        fn $readall<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: &mut $Mut<V>, m: &[u64]) -> R {
            let n = m.len();
            cke!(v.len(), n, "mut: len");
            cke!(v.is_empty(), n == 0, "mut: is_empty");
            ck!(v.element_type_id() == TypeId::of::<T>(), "mut: element_type_id");
            ck!(v.check::<T>().is_some() && v.check::<T::Other>().is_none(), "mut: check");
            let k = s.below(11);
            s.log(|| format!("mut read {} of {:?}", k, m));
            match k {
                0 => cke!(v.as_slice::<T>().map(|x| pays(x)), Some(m.to_vec()), "mut: as_slice"),
                1 => cke!(v.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect::<Vec<_>>()), Some(m.to_vec()), "mut: iter_as"),
                2 => cke!(v.iter().map(|x| seen!(T, x)).collect::<Vec<_>>(), m, "mut: iter"),
                9 => {
                    at_once!(T, v.iter(), m, "mut: iter");
                    let (w, r) = with_range!(s, n, |r| v.subslice_mut(r));
                    at_once!(T, w.into_iter(), &m[r], "mut: into_iter");
                }
                3 => {
                    for i in 0..n {
                        cke!(seen!(T, v.get(i)), m[i], "mut: get({})", i);
                        cke!(seen!(T, v.get_mut(i)), m[i], "mut: get_mut({})", i);
                    }
                }
                4 => {
                    for i in 0..n {
                        cke!(v.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "mut: get_as({})", i);
                    }
                }
                5 => {
                    let c = s.range(1, n + 2);
                    let want: Vec<Vec<u64>> = m.chunks_exact(c).map(|c| c.to_vec()).collect();
                    let got: Option<Vec<Vec<u64>>> = v.chunks_exact(c).map(|c| c.as_slice::<T>().map(pays)).collect();
                    cke!(got, Some(want.clone()), "mut: chunks_exact({})", c);
                    chunks_at_once!(T, v.chunks_exact_mut(c), c, m, "chunks_exact_mut");
                    let got: Option<Vec<Vec<u64>>> = v.chunks_exact_mut(c).map(|mut c| c.as_slice::<T>().map(|x| pays(x))).collect();
                    cke!(got, Some(want), "chunks_exact_mut({})", c);
                }
                6 => {
                    let h: Vec<u64> = (0..s.below(3)).map(|_| T::canon(s.pay())).collect();
                    let mut out: Vec<T> = make_all(&h);
                    ck!(v.$append(&mut out).is_some(), "mut: appending to a vector refused");
                    cke!(pays(&out), [h, m.to_vec()].concat(), "mut: appended");
                    cke!(v.reborrow_mut().$into_vec::<T>().map(|x| pays(&x)), Some(m.to_vec()), "mut: copied to a vector");
                }
                7 => {
                    let (w, r) = with_range!(s, n, |r| v.subslice(r));
                    $rwalk::<T, V>(s, w, &m[r], 1)?;
                }
                8 => $rwalk::<T, V>(s, v.reborrow(), m, 1)?,
                _ => $rwalk::<T, V>(s, $Slice::from(&*v), m, 1)?,
            }
            Ok(())
        }

        /// Every way of writing through a mutable view.
        fn $write<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: &mut $Mut<V>, m: &mut [u64], cfg: Cfg) -> R {
            let n = m.len();
            let k = s.below(16);
            let p = T::canon(s.pay());
            let q = T::canon(s.pay());
            s.log(|| format!("write {} ({}, {}) to {:?}", k, p, q, m));
            s.count("write");
            match k {
                0 if n > 0 => {
                    let i = s.below(n);
                    v.as_slice::<T>().ok_or("as_slice")?[i] = T::make(p);
                    m[i] = p;
                }
                1 if n > 0 => {
                    let i = s.below(n);
                    *v.get_as::<T>(i).ok_or("get_as")? = T::make(p);
                    m[i] = p;
                }
                2 if n > 0 => {
                    let i = s.below(n);
                    *v.get_mut(i).downcast::<T>().ok_or("get_mut")? = T::make(p);
                    m[i] = p;
                }
                3 if n > 0 => {
                    let i = s.below(n);
                    *v.iter_as::<T>().ok_or("iter_as")?.nth(i).ok_or("iter_as: too few")? = T::make(p);
                    m[i] = p;
                }
                4 => {
                    // Every k-th element through the untyped iterator.
                    let st = s.range(1, 3);
                    for (i, x) in v.iter().enumerate() {
                        if i % st == 0 {
                            *x.downcast::<T>().ok_or("iter")? = T::make(p);
                            m[i] = p;
                        }
                    }
                }
                5 if n > 0 => {
                    let (i, j) = (s.below(n), s.below(n));
                    v.swap(i, j);
                    m.swap(i, j);
                }
                6 if cfg.rotate => {
                    let k = s.below(n + 1);
                    v.rotate_left(k);
                    m.rotate_left(k);
                }
                7 if cfg.rotate => {
                    let k = s.below(n + 1);
                    v.rotate_right(k);
                    m.rotate_right(k);
                }
                8 => {
                    let d: Vec<u64> = s.many(n).into_iter().map(T::canon).collect();
                    let src: Vec<T> = make_all(&d);
                    ck!(v.$from_slice(&src).is_some(), "writing a slice: refused");
                    m.copy_from_slice(&d);
                }
                9 if n > 0 => {
                    let i = s.below(n);
                    let x = T::make(p);
                    let mut w = v.get_mut(i);
                    $assign!(w, x, V);
                    m[i] = p;
                }
                10 if n > 0 => {
                    // Swap with an element outside the view.
                    let i = s.below(n);
                    let mut out: [T; 1] = [T::make(p)];
                    {
                        let mut o = $Mut::<V>::from_slice(&mut out);
                        v.get_mut(i).swap(&mut o.get_mut(0));
                    }
                    cke!(out[0].pay(), m[i], "swap with an element outside");
                    m[i] = p;
                }
                11 if n > 1 => {
                    // Swap elements of the two halves.
                    let k = s.range(1, n - 1);
                    let (i, j) = (s.below(k), s.below(n - k));
                    let (mut a, mut b) = v.split_at(k);
                    a.get_mut(i).swap(&mut b.get_mut(j));
                    m.swap(i, k + j);
                }
                12 if n > 0 => {
                    let c = s.range(1, n);
                    let st = s.below(3);
                    for (i, mut ch) in v.chunks_exact_mut(c).enumerate() {
                        let r = i * c..(i + 1) * c;
                        match st {
                            0 => {
                                ch.swap(0, c - 1);
                                m[r].swap(0, c - 1);
                            }
                            1 if cfg.rotate => {
                                ch.rotate_left(c / 2);
                                m[r].rotate_left(c / 2);
                            }
                            _ => {
                                *ch.get_as::<T>(i % c).ok_or("chunk")? = T::make(p);
                                m[r][i % c] = p;
                            }
                        }
                    }
                }
                13 if n > 0 => {
                    // Consume a view of the view.
                    let (w, r) = with_range!(s, n, |r| v.subslice_mut(r));
                    let r: Range<usize> = r;
                    for (i, x) in w.into_iter().enumerate() {
                        if i % 2 == 1 {
                            *x.downcast::<T>().ok_or("into_iter")? = T::make(q);
                            m[r.start + i] = q;
                        }
                    }
                }
                14 => {
                    // A slice of another length is rejected like by a native slice, with nothing written.
                    let mut l = s.below(n + 3);
                    if l >= n {
                        l += 1;
                    }
                    let src: Vec<T> = (0..l).map(|_| T::make(p)).collect();
                    s.log(|| format!("  writing {} elements", l));
                    s.count("write of another length");
                    let r = caught(|| v.$from_slice(&src).is_some());
                    ck!(r != Some(true), "writing {} elements to {}: not rejected", l, n);
                }
                _ => {
                    // A write that is refused.
                    let src: Vec<T::Other> = (0..n).map(|_| <T::Other>::make(p)).collect();
                    ck!(v.$from_slice(&src).is_none(), "a slice of another type was accepted");
                }
            }
            Ok(())
        }

        /// Nested mutable views, with writes at every level.
        pub fn $walk<T: $($bound)*, V: $($vbound)*>(s: &mut Src, v: $Mut<V>, m: &mut [u64], depth: usize, cfg: Cfg) -> R {
            let mut v = v;
            for _ in 0..s.below(4) {
                $write::<T, V>(s, &mut v, m, cfg)?;
            }
            $readall::<T, V>(s, &mut v, m)?;
            if depth == 0 {
                return Ok(());
            }
            let n = m.len();
            let k = s.below(9);
            s.log(|| format!("mut view {} of {} elements", k, n));
            match k {
                0 => {
                    {
                        let (w, r) = with_range!(s, n, |r| v.subslice_mut(r));
                        $walk::<T, V>(s, w, &mut m[r], depth - 1, cfg)?;
                    }
                    $readall::<T, V>(s, &mut v, m)
                }
                1 => {
                    let (w, r) = with_range!(s, n, |r| v.into_subslice(r));
                    $walk::<T, V>(s, w, &mut m[r], depth - 1, cfg)
                }
                2 => {
                    let k = s.below(n + 1);
                    {
                        let (a, b) = v.split_at(k);
                        let (ma, mb) = m.split_at_mut(k);
                        if s.bool() {
                            $walk::<T, V>(s, a, ma, depth - 1, cfg)?;
                            $walk::<T, V>(s, b, mb, depth - 1, cfg)?;
                        } else {
                            $walk::<T, V>(s, b, mb, depth - 1, cfg)?;
                            $walk::<T, V>(s, a, ma, depth - 1, cfg)?;
                        }
                    }
                    $readall::<T, V>(s, &mut v, m)
                }
                3 => {
                    let c = s.range(1, n.max(1));
                    let k = s.below(n / c + 1);
                    for (i, ch) in v.chunks_exact_mut(c).enumerate() {
                        if i == k {
                            $walk::<T, V>(s, ch, &mut m[i * c..(i + 1) * c], depth - 1, cfg)?;
                        }
                    }
                    $readall::<T, V>(s, &mut v, m)
                }
                4 => {
                    $walk::<T, V>(s, v.reborrow_mut(), m, depth - 1, cfg)?;
                    $readall::<T, V>(s, &mut v, m)
                }
                5 => $rwalk::<T, V>(s, v.reborrow(), m, depth - 1),
                6 => $rwalk::<T, V>(s, $Slice::from(v), m, depth - 1),
                7 => {
                    let got: Vec<u64> = v.into_iter().map(|x| seen!(T, x)).collect();
                    cke!(got, m, "mut: into_iter");
                    Ok(())
                }
                _ => $walk::<T, V>(s, v, m, depth - 1, cfg),
            }
        }
    };
}

macro_rules! copy_assign {
    ($w:expr, $x:expr, $V:ty) => {{
        ck!($w.copy(CopyValueRef::<$V>::new(&$x)).is_some(), "copy: refused");
    }};
}

pub trait CTab<T: CopyElt>: Clone + 'static + VTable<T> + VTable<T::Other> {}
impl<T: CopyElt, V: Clone + 'static + VTable<T> + VTable<T::Other>> CTab<T> for V {}

read_walk!(cwalk, cread, SliceCopy, CopyValueRef, [CopyElt], [CTab<T>], append_copy_to_vec, copy_into_vec);
write_walk!(cwalk_mut, cwrite, creadall, cwalk, SliceCopy, SliceCopyMut, CopyValueRef, CopyValueMut, [CopyElt], [CTab<T>],
    copy_into_vec, copy_from_slice, copy_assign, append_copy_to_vec);

#[cfg(feature = "traits")]
mod dynamic {
    use super::*;
    use dync::traits::*;

    macro_rules! dyn_assign {
        ($w:expr, $x:expr, $V:ty) => {{
            $w.assign(BoxValue::<$V>::new($x));
        }};
    }

    pub trait DTab<T: Elt>: Clone + 'static + HasDrop + HasClone + VTable<T> + VTable<T::Other> {}
    impl<T: Elt, V: Clone + 'static + HasDrop + HasClone + VTable<T> + VTable<T::Other>> DTab<T> for V {}

    read_walk!(dwalk, dread, Slice, ValueRef, [Elt], [DTab<T>], append_clone_to_vec, clone_into_vec);
    write_walk!(dwalk_mut, dwrite, dreadall, dwalk, Slice, SliceMut, ValueRef, ValueMut, [Elt], [DTab<T>],
        clone_into_vec, clone_from_slice, dyn_assign, append_clone_to_vec);
}
#[cfg(feature = "traits")]
pub use dynamic::*;
