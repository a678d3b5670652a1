//! Histories of operations on `VecCopy`, its slices and values, against a model on `Vec`.
//!
//! Everything here but the parts marked with the feature is available without the `traits` feature.
//! All observable results go into the digest of the case, so that builds can be compared.
use crate::elts::*;
use crate::engine::*;
use crate::src::{mix, Src};
use dync::*;
use std::any::TypeId;
use std::mem::{align_of, size_of};

/// A table that is not generated by the macros.
#[derive(Clone, Debug, PartialEq)]
pub struct Tab {
    pub size: Box<usize>,
    pub id: TypeId,
}
impl<T: Copy + 'static> VTable<T> for Tab {
    fn build_vtable() -> Self {
        Tab { size: Box::new(size_of::<T>()), id: TypeId::of::<T>() }
    }
}
/// What it is upcast to.
#[derive(Clone, Debug, PartialEq)]
pub struct SubTab {
    pub size: usize,
}
impl From<Tab> for SubTab {
    fn from(t: Tab) -> SubTab {
        SubTab { size: *t.size }
    }
}
impl<T: Copy + 'static> VTable<T> for SubTab {
    fn build_vtable() -> Self {
        SubTab { size: size_of::<T>() }
    }
}
#[cfg(feature = "traits")]
pub trait HasTab: dync::downcast::Downcast {
    fn size(&self) -> usize;
}
#[cfg(feature = "traits")]
dync::downcast::impl_downcast!(HasTab);
#[cfg(feature = "traits")]
impl HasTab for Tab {
    fn size(&self) -> usize {
        *self.size
    }
}
#[cfg(feature = "traits")]
impl HasTab for SubTab {
    fn size(&self) -> usize {
        self.size
    }
}

pub type Vc = VecCopy<Tab>;

/// Types no register ever holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ghost(pub u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Odd(pub [u8; 11]);

/// Relative weights of the groups of operations.
#[derive(Clone, Copy)]
pub struct CProfile {
    pub create: u32,
    pub push: u32,
    pub bulk: u32,
    pub write: u32,
    pub slice: u32,
    pub clone: u32,
    pub convert: u32,
    pub refuse: u32,
    pub meta: u32,
    pub reserve: u32,
    pub max_ops: usize,
    pub max_len: usize,
}
impl CProfile {
    /// Some histories have few operations on long vectors.
    pub fn stretched<T>(&self, s: &mut Src) -> CProfile {
        if cfg!(miri) || size_of::<T>() > 64 || !s.one_in(100) {
            return CProfile { ..*self };
        }
        s.count("history of long vectors");
        CProfile { max_len: [150, 400, 1200][s.below(3)], max_ops: self.max_ops.min(12), ..*self }
    }
}
pub const CBALANCED: CProfile = CProfile {
    create: 3, push: 6, bulk: 7, write: 5, slice: 6, clone: 3, convert: 3, refuse: 4, meta: 3, reserve: 2,
    max_ops: 40, max_len: 24,
};

pub struct CWorld<T: CopyElt> {
    pub v: Vec<(Vc, Vec<u64>)>,
    pub o: (Vc, Vec<u64>),
    pub step: usize,
    pub t: std::marker::PhantomData<T>,
}

pub fn cval_ok<T: CopyElt, V>(v: CopyValueRef<V>, p: u64, what: &str) -> R
where
    V: Clone,
{
    ck!(v.is::<T>() && !v.is::<T::Other>() && v.value_type_id() == TypeId::of::<T>(), "{}: wrong value type", what);
    cke!(v.size(), size_of::<T>(), "{}: value size", what);
    cke!(v.value_alignment(), align_of::<T>(), "{}: value alignment", what);
    ck!(v.clone().downcast::<T::Other>().is_none(), "{}: value downcast to another type", what);
    match v.downcast::<T>() {
        Some(x) => cke!(x.pay(), p, "{}: value", what),
        None => return Err(format!("{}: value does not downcast to its type", what)),
    }
    Ok(())
}
fn mval_ok<T: CopyElt>(v: CopyValueMut<Tab>, p: u64, what: &str) -> R {
    ck!(v.is::<T>() && !v.is::<T::Other>() && v.value_type_id() == TypeId::of::<T>(), "{}: wrong value type", what);
    cke!(v.size(), size_of::<T>(), "{}: value size", what);
    cke!(v.value_alignment(), align_of::<T>(), "{}: value alignment", what);
    cke!(v.downcast::<T>().map(|x| x.pay()), Some(p), "{}: value", what);
    Ok(())
}

fn down<T: CopyElt>(v: CopyValueRef<Tab>) -> u64 {
    seen!(T, v)
}
fn downm<T: CopyElt>(v: CopyValueMut<Tab>) -> u64 {
    seen!(T, v)
}

pub fn ccheck_slice<T: CopyElt>(s: &SliceCopy<Tab>, m: &[u64], what: &str) -> R {
    cke!(s.len(), m.len(), "{}: len", what);
    cke!(s.is_empty(), m.is_empty(), "{}: is_empty", what);
    cke!(s.element_size(), size_of::<T>(), "{}: element_size", what);
    ck!(s.element_type_id() == TypeId::of::<T>(), "{}: element_type_id", what);
    cke!(s.as_slice::<T>().map(pays), Some(m.to_vec()), "{}: as_slice", what);
    ck!(s.as_slice::<T::Other>().is_none(), "{}: as_slice gave another type", what);
    Ok(())
}

/// Look at the vector in every way; `k` chooses the more expensive ones.
pub fn ccheck_vec<T: CopyElt>(v: &mut Vc, m: &[u64], k: usize) -> R {
    cke!(v.len(), m.len(), "len");
    cke!(v.is_empty(), m.is_empty(), "is_empty");
    ck!(v.element_type_id() == TypeId::of::<T>(), "element_type_id");
    ck!(v.capacity() >= v.len(), "capacity {} of {} elements", v.capacity(), v.len());
    match v.as_slice_as::<T>() {
        Some(s) => {
            ck!(s.as_ptr() as usize % align_of::<T>() == 0, "data is misaligned");
            cke!(pays(s), m, "contents")
        }
        None => return Err("as_slice_as: refused the right type".into()),
    }
    ck!(v.as_slice_as::<T::Other>().is_none(), "as_slice_as: gave another type");
    let n = m.len();
    let all = || Some(m.to_vec());
    match k % 22 {
        0 => {
            cke!(v.iter().count(), n, "iter: count");
            for (i, x) in v.iter().enumerate() {
                cval_ok::<T, _>(x, m[i], "iter")?;
            }
        }
        1 => {
            for i in 0..n {
                cval_ok::<T, _>(v.get_ref(i), m[i], "get_ref")?;
                mval_ok::<T>(v.get_mut(i), m[i], "get_mut")?;
            }
        }
        2 => {
            let s = v.as_slice();
            ccheck_slice::<T>(&s, m, "as_slice")?;
            cke!(s.iter().count(), n, "as_slice.iter: count");
            for (i, x) in s.iter().enumerate() {
                cval_ok::<T, _>(x, m[i], "as_slice.iter")?;
            }
            let got: Vec<u64> = s.clone().into_iter().map(down::<T>).collect();
            cke!(got, m, "as_slice.into_iter");
        }
        3 => {
            let s = v.as_slice();
            for i in 0..n {
                cval_ok::<T, _>(s.get(i), m[i], "as_slice.get")?;
                cke!(s.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "as_slice.get_as");
                ck!(s.get_as::<T::Other>(i).is_none(), "as_slice.get_as: gave another type");
            }
        }
        4 => {
            let s = v.as_slice();
            ck!(s.check::<T>().is_some() && s.check::<T::Other>().is_none() && s.check::<Ghost>().is_none(), "as_slice.check");
            cke!(s.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect::<Vec<_>>()), all(), "as_slice.iter_as");
            ck!(s.iter_as::<T::Other>().is_none(), "as_slice.iter_as: gave another type");
            cke!(s.copy_into_vec::<T>().map(|x| pays(&x)), all(), "as_slice.copy_into_vec");
            ck!(s.copy_into_vec::<T::Other>().is_none(), "as_slice.copy_into_vec: gave another type");
            ccheck_slice::<T>(&s.reborrow(), m, "reborrow")?;
        }
        5 => {
            cke!(v.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect::<Vec<_>>()), all(), "iter_as");
            ck!(v.iter_as::<T::Other>().is_none(), "iter_as: gave another type");
            cke!(v.iter_mut_as::<T>().map(|i| i.map(|x| x.pay()).collect::<Vec<_>>()), all(), "iter_mut_as");
            cke!(v.as_mut_slice_as::<T>().map(|x| pays(x)), all(), "as_mut_slice_as");
            ck!(v.iter_mut_as::<T::Other>().is_none() && v.as_mut_slice_as::<T::Other>().is_none(), "iter_mut_as: gave another type");
        }
        6 => {
            for i in 0..n {
                cke!(v.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "get_as");
                cke!(v.get_ref_as::<T>(i).map(|x| x.pay()), Some(m[i]), "get_ref_as");
                cke!(v.get_mut_as::<T>(i).map(|x| x.pay()), Some(m[i]), "get_mut_as");
                ck!(v.get_as::<T::Other>(i).is_none() && v.get_ref_as::<T::Other>(i).is_none() && v.get_mut_as::<T::Other>(i).is_none(),
                    "get_as: gave another type");
                cke!(unsafe { v.get_unchecked_ref::<T>(i) }.pay(), m[i], "get_unchecked_ref");
                cke!(unsafe { v.get_unchecked_mut::<T>(i) }.pay(), m[i], "get_unchecked_mut");
            }
        }
        7 => {
            cke!(v.copy_into_vec::<T>().map(|x| pays(&x)), all(), "copy_into_vec");
            ck!(v.copy_into_vec::<T::Other>().is_none(), "copy_into_vec: gave another type");
            let mut out: Vec<T> = make_all(&[1, 2]);
            let e = [canon_all::<T>(&[1, 2]), m.to_vec()].concat();
            ck!(v.append_copy_to_vec(&mut out).is_some(), "append_copy_to_vec: refused");
            cke!(pays(&out), e, "append_copy_to_vec");
            ck!(v.as_slice().append_copy_to_vec(&mut out).is_some(), "slice append_copy_to_vec: refused");
            let e = [e, m.to_vec()].concat();
            cke!(pays(&out), e, "slice append_copy_to_vec");
            ck!(v.as_mut_slice().append_copy_to_vec(&mut out).is_some(), "mut append_copy_to_vec: refused");
            cke!(pays(&out), [e, m.to_vec()].concat(), "mut append_copy_to_vec");
            let mut no: Vec<T::Other> = Vec::new();
            ck!(v.append_copy_to_vec(&mut no).is_none() && v.as_slice().append_copy_to_vec(&mut no).is_none()
                && v.as_mut_slice().append_copy_to_vec(&mut no).is_none() && no.is_empty(), "append_copy_to_vec: gave another type");
        }
        8 => {
            let c = 1 + k / 24 % 4;
            let mut got = Vec::new();
            for ch in v.as_slice().chunks_exact(c) {
                cke!(ch.len(), c, "chunks_exact: chunk length");
                got.extend(ch.as_slice::<T>().map(pays).ok_or("chunks_exact: type lost")?);
            }
            cke!(got, m[..n / c * c], "chunks_exact({})", c);
        }
        9 => {
            let mid = (k / 24) % (n + 1);
            let s = v.as_slice();
            let (a, b) = s.split_at(mid);
            ccheck_slice::<T>(&a, &m[..mid], "split_at left")?;
            ccheck_slice::<T>(&b, &m[mid..], "split_at right")?;
        }
        10 => {
            let a = (k / 24) % (n + 1);
            let b = a + (k / 7) % (n - a + 1);
            ccheck_slice::<T>(&v.as_slice().subslice(a..b), &m[a..b], "subslice(..)")?;
            ccheck_slice::<T>(&v.as_slice().into_subslice(a..), &m[a..], "into_subslice(a..)")?;
            ccheck_slice::<T>(&v.as_slice().subslice(..b), &m[..b], "subslice(..b)")?;
            ccheck_slice::<T>(&v.as_slice().subslice(..), m, "subslice(..)")?;
            if b > a {
                ccheck_slice::<T>(&v.as_slice().subslice(a..=b - 1), &m[a..b], "subslice(a..=b)")?;
                ccheck_slice::<T>(&v.as_slice().into_subslice(..=b - 1), &m[..b], "into_subslice(..=b)")?;
            }
        }
        11 => {
            let mut i = 0;
            for x in v.iter_mut() {
                ck!(i < n, "iter_mut: too many");
                mval_ok::<T>(x, m[i], "iter_mut")?;
                i += 1;
            }
            cke!(i, n, "iter_mut: count");
            at_once!(T, v.iter_mut(), m, "iter_mut");
        }
        12 => {
            let mut s = v.as_mut_slice();
            cke!(s.len(), n, "as_mut_slice: len");
            cke!(s.is_empty(), n == 0, "as_mut_slice: is_empty");
            ck!(s.element_type_id() == TypeId::of::<T>(), "as_mut_slice: element_type_id");
            cke!(s.as_slice::<T>().map(|x| pays(x)), all(), "as_mut_slice.as_slice");
            ck!(s.as_slice::<T::Other>().is_none() && s.iter_as::<T::Other>().is_none(), "as_mut_slice: gave another type");
            ck!(s.check::<T>().is_some() && s.check::<T::Other>().is_none(), "as_mut_slice.check");
            cke!(s.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect::<Vec<_>>()), all(), "as_mut_slice.iter_as");
            let got: Vec<u64> = s.iter().map(downm::<T>).collect();
            cke!(got, m, "as_mut_slice.iter");
            at_once!(T, s.iter(), m, "as_mut_slice.iter");
            if k / 24 % 2 == 0 {
                at_once!(T, s.into_iter(), m, "as_mut_slice.into_iter");
            } else {
                let got: Vec<u64> = s.into_iter().map(downm::<T>).collect();
                cke!(got, m, "as_mut_slice.into_iter");
            }
        }
        13 => {
            let mut s = v.as_mut_slice();
            for i in 0..n {
                cval_ok::<T, _>(s.get(i), m[i], "as_mut_slice.get")?;
                mval_ok::<T>(s.get_mut(i), m[i], "as_mut_slice.get_mut")?;
                cke!(s.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "as_mut_slice.get_as");
                ck!(s.get_as::<T::Other>(i).is_none(), "as_mut_slice.get_as: gave another type");
            }
            cke!(s.copy_into_vec::<T>().map(|x| pays(&x)), all(), "mut copy_into_vec");
            ck!(v.as_mut_slice().copy_into_vec::<T::Other>().is_none(), "mut copy_into_vec: gave another type");
        }
        14 => {
            let c = 1 + k / 24 % 4;
            let mut s = v.as_mut_slice();
            let mut got = Vec::new();
            for ch in s.chunks_exact(c) {
                cke!(ch.len(), c, "mut chunks_exact: chunk length");
                got.extend(ch.as_slice::<T>().map(pays).ok_or("mut chunks_exact: type lost")?);
            }
            cke!(got, m[..n / c * c], "mut chunks_exact({})", c);
            let mut got = Vec::new();
            for mut ch in s.chunks_exact_mut(c) {
                cke!(ch.len(), c, "chunks_exact_mut: chunk length");
                got.extend(ch.as_slice::<T>().map(|x| pays(x)).ok_or("chunks_exact_mut: type lost")?);
            }
            cke!(got, m[..n / c * c], "chunks_exact_mut({})", c);
            chunks_at_once!(T, s.chunks_exact_mut(c), c, m, "chunks_exact_mut");
            let mid = (k / 24) % (n + 1);
            let (a, b) = s.split_at(mid);
            ccheck_slice::<T>(&SliceCopy::from(&a), &m[..mid], "mut split_at left")?;
            ccheck_slice::<T>(&SliceCopy::from(b), &m[mid..], "mut split_at right")?;
        }
        15 => {
            let a = (k / 24) % (n + 1);
            let b = a + (k / 7) % (n - a + 1);
            let mut s = v.as_mut_slice();
            ccheck_slice::<T>(&s.subslice(a..b), &m[a..b], "mut subslice")?;
            ccheck_slice::<T>(&SliceCopy::from(s.subslice_mut(a..b)), &m[a..b], "subslice_mut")?;
            ccheck_slice::<T>(&s.reborrow(), m, "mut reborrow")?;
            ccheck_slice::<T>(&SliceCopy::from(s.reborrow_mut()), m, "reborrow_mut")?;
            ccheck_slice::<T>(&SliceCopy::from(s.into_subslice(..b)), &m[..b], "mut into_subslice")?;
        }
        16 => {
            ck!(v.check_ref::<T>().is_some() && v.check_mut::<T>().is_some(), "check: refused the right type");
            ck!(v.check_ref::<T::Other>().is_none() && v.check_mut::<T::Other>().is_none(), "check: took another type");
            ck!(v.check_ref::<Ghost>().is_none() && v.check_ref::<Odd>().is_none(), "check: took another type");
        }
        17 => {
            // Upcasts of everything that is borrowed.
            let s: SliceCopy<SubTab> = v.as_slice().upcast();
            cke!(s.as_slice::<T>().map(pays), all(), "slice upcast");
            ck!(s.element_type_id() == TypeId::of::<T>() && s.element_size() == size_of::<T>(), "slice upcast: type");
            for i in 0..n.min(3) {
                let r: CopyValueRef<SubTab> = v.get_ref(i).upcast();
                cval_ok::<T, _>(r, m[i], "value upcast")?;
                let r = v.get_ref(i);
                let r: CopyValueRef<SubTab> = r.upcast_ref();
                cval_ok::<T, _>(r, m[i], "value upcast_ref")?;
                let mut r = v.get_mut(i);
                let r: CopyValueMut<SubTab> = r.upcast();
                ck!(r.is::<T>() && r.size() == size_of::<T>() && r.value_alignment() == align_of::<T>(), "mut value upcast: type");
                cke!(r.downcast::<T>().map(|x| x.pay()), Some(m[i]), "mut value upcast");
                let r = CopyValueRef::from(v.get_mut(i));
                cval_ok::<T, _>(r, m[i], "value from mut value")?;
            }
            let mut s: SliceCopyMut<SubTab> = v.as_mut_slice().upcast();
            cke!(s.as_slice::<T>().map(|x| pays(x)), all(), "mut slice upcast");
        }
        18 => {
            // Slices and values of typed data.
            let mut x: Vec<T> = make_all(m);
            ccheck_slice::<T>(&SliceCopy::from_slice(&x), m, "SliceCopy::from_slice")?;
            ccheck_slice::<T>(&SliceCopy::from(x.as_slice()), m, "SliceCopy::from")?;
            ccheck_slice::<T>(&SliceCopy::from(SliceCopyMut::from_slice(&mut x)), m, "SliceCopyMut::from_slice")?;
            ccheck_slice::<T>(&SliceCopy::from(SliceCopyMut::from(x.as_mut_slice())), m, "SliceCopyMut::from")?;
            for i in 0..n.min(3) {
                cval_ok::<T, _>(CopyValueRef::<Tab>::new(&x[i]), m[i], "CopyValueRef::new")?;
                mval_ok::<T>(CopyValueMut::<Tab>::new(&mut x[i]), m[i], "CopyValueMut::new")?;
            }
        }
        19 => {
            let (d, e, t) = v.as_slice().into_raw_parts();
            cke!(d.len(), n * size_of::<T>(), "into_raw_parts: bytes");
            let s: SliceCopy<Tab> = unsafe { SliceCopy::from_raw_parts(d, e, t.into_owned()) };
            ccheck_slice::<T>(&s, m, "slice from_raw_parts")?;
            let s: SliceCopyMut<Tab> = unsafe {
                let (d, e, t) = v.as_mut_slice().into_raw_parts();
                SliceCopyMut::from_raw_parts(d, e, t.into_owned())
            };
            ccheck_slice::<T>(&SliceCopy::from(s), m, "mut slice from_raw_parts")?;
        }
        #[cfg(feature = "traits")]
        20 => {
            let s = into_dyn![SliceCopy<dyn HasTab>](v.as_slice());
            cke!(s.as_slice::<T>().map(pays), all(), "into_dyn slice");
            let s = from_dyn![SliceCopy<dyn HasTab as Tab>](s);
            ccheck_slice::<T>(&s, m, "from_dyn slice")?;
            let mut s = into_dyn![SliceCopyMut<dyn HasTab>](v.as_mut_slice());
            cke!(s.as_slice::<T>().map(|x| pays(x)), all(), "into_dyn mut slice");
            let s = from_dyn![SliceCopyMut<dyn HasTab as Tab>](s);
            ccheck_slice::<T>(&SliceCopy::from(s), m, "from_dyn mut slice")?;
        }
        _ => {
            // The table is that of the type.
            let mut seen = None;
            let c = v.clone().upcast_with(|t| {
                seen = Some((*t.size, t.id));
                t
            });
            cke!(seen, Some((size_of::<T>(), TypeId::of::<T>())), "table");
            cke!(c.as_slice_as::<T>().map(pays), all(), "clone");
        }
    }
    Ok(())
}

impl<T: CopyElt> CWorld<T>
where
    T::Other: CopyElt,
{
    pub fn new() -> Self {
        let r = || (Vc::with_type::<T>(), Vec::new());
        CWorld {
            v: vec![r(), r(), r()],
            o: (Vc::with_type::<T::Other>(), Vec::new()),
            step: 0,
            t: std::marker::PhantomData,
        }
    }

    pub fn check(&mut self, s: &mut Src) -> R {
        for i in 0..self.v.len() {
            let k = self.step.wrapping_mul(7).wrapping_add(i * 5);
            let (v, m) = &mut self.v[i];
            ccheck_vec::<T>(v, m, k).map_err(|e| format!("register {}: {}", i, e))?;
            s.obs(v.len() as u64);
            for x in v.as_slice_as::<T>().unwrap() {
                s.obs(x.pay());
            }
        }
        ccheck_vec::<T::Other>(&mut self.o.0, &self.o.1, self.step).map_err(|e| format!("other register: {}", e))?;
        s.obs(self.o.0.len() as u64);
        Ok(())
    }

    fn pick(&self, s: &mut Src) -> usize {
        s.below(self.v.len())
    }
    fn idx(&self, s: &mut Src, r: usize) -> Option<usize> {
        let n = self.v[r].1.len();
        if n == 0 {
            None
        } else {
            Some(s.below(n))
        }
    }
    fn pay(&self, s: &mut Src) -> u64 {
        T::canon(s.pay())
    }
    fn pays(&self, s: &mut Src, p: &CProfile) -> Vec<u64> {
        let mut v = s.pays(p.max_len);
        for x in &mut v {
            *x = T::canon(*x);
        }
        v
    }
    fn full(&self, r: usize, p: &CProfile) -> bool {
        self.v[r].1.len() > 3 * p.max_len
    }
    fn two(&mut self, a: usize, b: usize) -> (&mut (Vc, Vec<u64>), &mut (Vc, Vec<u64>)) {
        assert!(a != b);
        if a < b {
            let (x, y) = self.v.split_at_mut(b);
            (&mut x[a], &mut y[0])
        } else {
            let (x, y) = self.v.split_at_mut(a);
            (&mut y[0], &mut x[b])
        }
    }

    fn op_create(&mut self, s: &mut Src, pr: &CProfile) -> R {
        let r = self.pick(s);
        let k = s.below(10);
        let k = if k < 2 && s.below(3) > 0 { k + 2 } else { k };
        let m = if k < 2 { Vec::new() } else { self.pays(s, pr) };
        s.log(|| format!("v{} = create kind {} {:?}", r, k, m));
        s.count("create");
        let x = make_all::<T>(&m);
        let (v, m): (Vc, Vec<u64>) = match k {
            0 => (Vc::with_type::<T>(), m),
            1 => {
                let c = s.below(pr.max_len * 2);
                let v = Vc::with_capacity::<T>(c);
                ck!(v.capacity() >= c, "with_capacity({}): capacity {}", c, v.capacity());
                (v, m)
            }
            2 => (Vc::from_vec(x), m),
            3 => {
                let mut y = Vec::with_capacity(x.len() + s.below(9));
                y.extend(x);
                (y.into(), m)
            }
            4 => (Vc::from_slice(&x), m),
            5 => (Vc::from(x.as_slice()), m),
            6 if !m.is_empty() => (hinted(s, x.iter().map(|e| CopyValueRef::new(e))).collect(), m),
            7 => {
                let mut v = Vc::with_capacity::<T>(s.below(4));
                v.extend(hinted(s, x.iter().map(|e| CopyValueRef::new(e))));
                (v, m)
            }
            8 => {
                let p = self.pay(s);
                let n = s.below(pr.max_len);
                (Vc::with_size(n, T::make(p)), vec![p; n])
            }
            _ => {
                let mut v = Vc::with_type::<T>();
                ck!(v.copy_from_slice(&x).is_some(), "copy_from_slice: refused");
                (v, m)
            }
        };
        self.v[r] = (v, m);
        Ok(())
    }

    fn op_push(&mut self, s: &mut Src, pr: &CProfile) -> R {
        let r = self.pick(s);
        if self.full(r, pr) {
            return Ok(());
        }
        let p = self.pay(s);
        let k = s.below(9);
        s.log(|| format!("v{}.push kind {} of {:x}", r, k, p));
        s.count("push");
        match k {
            0 | 1 => {
                ck!(self.v[r].0.push_as(T::make(p)).is_some(), "push_as: refused");
                self.v[r].1.push(p);
            }
            2 | 3 => {
                let x = T::make(p);
                ck!(self.v[r].0.push(CopyValueRef::<Tab>::new(&x)).is_some(), "push: refused");
                self.v[r].1.push(p);
            }
            4 => {
                // The tables need not match.
                let mut x = T::make(p);
                ck!(self.v[r].0.push(CopyValueRef::from(CopyValueMut::<()>::new(&mut x))).is_some(), "push: refused");
                self.v[r].1.push(p);
            }
            5 | 6 => {
                let q = self.pick(s);
                if let (true, Some(i)) = (q != r, self.idx(s, q)) {
                    let (a, b) = self.two(r, q);
                    ck!(a.0.push(b.0.get_ref(i)).is_some(), "push: refused");
                    a.1.push(b.1[i]);
                }
            }
            7 => {
                let q = self.pick(s);
                if q != r {
                    let (a, b) = self.two(r, q);
                    a.0.extend(hinted(s, b.0.iter()));
                    a.1.extend(b.1.iter());
                }
            }
            _ => {
                // An iterator that knows nothing about its length.
                let q = self.pick(s);
                if q != r {
                    let step = s.range(1, 3);
                    let (a, b) = self.two(r, q);
                    let mut i = 0;
                    let sl = b.0.as_slice();
                    a.0.extend(std::iter::from_fn(|| {
                        if i < sl.len() {
                            i += step;
                            Some(sl.get(i - step))
                        } else {
                            None
                        }
                    }));
                    a.1.extend(b.1.iter().step_by(step));
                }
            }
        }
        Ok(())
    }

    fn op_bulk(&mut self, s: &mut Src, pr: &CProfile) -> R {
        let r = self.pick(s);
        let k = s.below(11);
        s.log(|| format!("v{} bulk kind {} (len {})", r, k, self.v[r].1.len()));
        s.count("bulk");
        match k {
            0 => {
                self.v[r].0.clear();
                self.v[r].1.clear();
            }
            1 | 2 => {
                let n = s.below(2 * pr.max_len + 1);
                let p = self.pay(s);
                s.log(|| format!("  resize {} with {:x}", n, p));
                ck!(self.v[r].0.resize(n, T::make(p)).is_some(), "resize: refused");
                self.v[r].1.resize(n, p);
            }
            3 => {
                let p = self.pay(s);
                ck!(self.v[r].0.fill(T::make(p)).is_some(), "fill: refused");
                self.v[r].1.iter_mut().for_each(|x| *x = p);
            }
            4 | 5 => {
                let q = self.pick(s);
                if q != r && !self.full(r, pr) {
                    s.log(|| format!("  append v{}", q));
                    let (a, b) = self.two(r, q);
                    ck!(a.0.append(&mut b.0).is_some(), "append: refused");
                    a.1.append(&mut b.1);
                    cke!(b.0.len(), 0, "append: the source keeps elements");
                }
            }
            6 | 7 => {
                if align_of::<T>() <= 8192 {
                    let n = s.below(self.v[r].1.len() + 1);
                    s.log(|| format!("  rotate by {}", n));
                    if k == 6 {
                        self.v[r].0.rotate_left(n);
                        self.v[r].1.rotate_left(n);
                    } else {
                        self.v[r].0.rotate_right(n);
                        self.v[r].1.rotate_right(n);
                    }
                }
            }
            8 | 9 => {
                // Equal or larger lengths only: the vector is extended.
                let n = self.v[r].1.len();
                let more = s.below(5);
                let m: Vec<u64> = s.many(n + more).into_iter().map(T::canon).collect();
                s.log(|| format!("  copy_from_slice {:?}", m));
                if m.len() <= 4 * pr.max_len {
                    ck!(self.v[r].0.copy_from_slice(&make_all::<T>(&m)).is_some(), "copy_from_slice: refused");
                    self.v[r].1 = m;
                }
            }
            _ => {
                let q = self.pick(s);
                self.v.swap(r, q);
            }
        }
        Ok(())
    }

    fn op_write(&mut self, s: &mut Src) -> R {
        let r = self.pick(s);
        let i = match self.idx(s, r) {
            None => return Ok(()),
            Some(i) => i,
        };
        let k = s.below(8);
        let p = self.pay(s);
        s.log(|| format!("v{}[{}] write kind {} {:x}", r, i, k, p));
        s.count("write");
        match k {
            0 => *self.v[r].0.get_mut_as::<T>(i).ok_or("get_mut_as: refused")? = T::make(p),
            1 => self.v[r].0.as_mut_slice_as::<T>().ok_or("as_mut_slice_as: refused")?[i] = T::make(p),
            2 => *self.v[r].0.iter_mut_as::<T>().ok_or("iter_mut_as: refused")?.nth(i).ok_or("iter_mut_as: short")? = T::make(p),
            3 => {
                let x = T::make(p);
                ck!(self.v[r].0.get_mut(i).copy(CopyValueRef::new(&x)).is_some(), "copy: refused");
            }
            4 => {
                let mut x = T::make(p);
                self.v[r].0.get_mut(i).swap(&mut CopyValueMut::new(&mut x));
                cke!(x.pay(), self.v[r].1[i], "swap: value given out");
            }
            5 => {
                let mut x = self.v[r].0.iter_mut().nth(i).ok_or("iter_mut: short")?;
                if s.bool() {
                    let mut y = T::make(p);
                    x.swap(&mut CopyValueMut::new(&mut y));
                    cke!(y.pay(), self.v[r].1[i], "iter_mut: swap: value given out");
                } else {
                    *x.downcast::<T>().ok_or("iter_mut: type lost")? = T::make(p);
                }
            }
            _ => {
                let q = self.pick(s);
                if let (true, Some(j)) = (q != r, self.idx(s, q)) {
                    let (a, b) = self.two(r, q);
                    if k == 6 {
                        ck!(a.0.get_mut(i).copy(b.0.get_ref(j)).is_some(), "copy: refused");
                        a.1[i] = b.1[j];
                    } else {
                        a.0.get_mut(i).swap(&mut b.0.get_mut(j));
                        std::mem::swap(&mut a.1[i], &mut b.1[j]);
                    }
                }
                return Ok(());
            }
        }
        self.v[r].1[i] = p;
        Ok(())
    }

    fn op_slice(&mut self, s: &mut Src) -> R {
        let r = self.pick(s);
        let n = self.v[r].1.len();
        let a = s.below(n + 1);
        let b = a + s.below(n - a + 1);
        let k = s.below(8);
        s.log(|| format!("v{}[{}..{}] slice op kind {}", r, a, b, k));
        s.count("slice");
        let l = b - a;
        let fresh: Vec<u64> = if k == 4 { (0..l).map(|_| self.pay(s)).collect() } else { Vec::new() };
        let (v, m) = &mut self.v[r];
        let mut sl = match s.below(3) {
            0 => v.as_mut_slice().into_subslice(a..b),
            1 => v.as_mut_slice().into_subslice(a..).into_subslice(..l),
            _ if b < n => v.as_mut_slice().into_subslice(..=b).into_subslice(a..b),
            _ => v.as_mut_slice().into_subslice(..b).into_subslice(a..),
        };
        cke!(sl.len(), l, "into_subslice: len");
        let m = &mut m[a..b];
        match k {
            0 | 1 if l > 0 => {
                let (i, j) = (s.below(l), s.below(l));
                sl.swap(i, j);
                m.swap(i, j);
            }
            2 => {
                let k = s.below(l + 1);
                sl.rotate_left(k);
                m.rotate_left(k);
            }
            3 => {
                let k = s.below(l + 1);
                sl.rotate_right(k);
                m.rotate_right(k);
            }
            4 => {
                ck!(sl.copy_from_slice(&make_all::<T>(&fresh)).is_some(), "copy_from_slice: refused");
                m.copy_from_slice(&fresh);
            }
            5 => {
                let mid = s.below(l + 1);
                let (mut x, mut y) = sl.split_at(mid);
                if mid > 0 && mid < l {
                    let (i, j) = (s.below(mid), s.below(l - mid));
                    x.get_mut(i).swap(&mut y.get_mut(j));
                    m.swap(i, mid + j);
                }
            }
            6 => {
                let c = s.range(1, 3);
                for (i, mut ch) in sl.chunks_exact_mut(c).enumerate() {
                    ch.swap(0, c - 1);
                    m.swap(i * c, i * c + c - 1);
                }
            }
            _ => {
                let mut i = 0;
                let mut it = sl.into_iter();
                while let (Some(mut x), Some(mut y)) = (it.next(), it.next()) {
                    x.swap(&mut y);
                    m.swap(i, i + 1);
                    i += 2;
                }
            }
        }
        Ok(())
    }

    fn op_clone(&mut self, s: &mut Src) -> R {
        let (r, q) = (self.pick(s), self.pick(s));
        let k = s.below(6);
        s.log(|| format!("v{} clone of v{} kind {}", r, q, k));
        s.count("clone");
        match k {
            0 | 1 => {
                let c = self.v[q].0.clone();
                ck!(c.len() == 0 || c.as_slice_as::<T>().map(|x| x.as_ptr()) != self.v[q].0.as_slice_as::<T>().map(|x| x.as_ptr()),
                    "clone: shares its storage");
                self.v[r] = (c, self.v[q].1.clone());
            }
            2 if r != q => {
                let (a, b) = self.two(r, q);
                a.0.clone_from(&b.0);
                a.1 = b.1.clone();
            }
            3 | 4 if r != q => {
                // Of the untyped data alone.
                let new = || Vc::with_type::<T>();
                let (a, ta) = std::mem::replace(&mut self.v[r].0, new()).into_raw_parts();
                let (b, tb) = std::mem::replace(&mut self.v[q].0, new()).into_raw_parts();
                let mut a = a;
                a.clone_from(&b);
                self.v[r] = unsafe { (Vc::from_raw_parts(a, ta), self.v[q].1.clone()) };
                self.v[q].0 = unsafe { Vc::from_raw_parts(b, tb) };
            }
            5 => {
                // Over a vector of other elements, and back.
                let (o, _) = Vc::with_size(s.below(5), T::Other::make(1)).into_raw_parts();
                let (b, tb) = std::mem::replace(&mut self.v[q].0, Vc::with_type::<T>()).into_raw_parts();
                let mut o = o;
                o.clone_from(&b);
                self.v[q].0 = unsafe { Vc::from_raw_parts(o, tb) };
                let (o, _) = Vc::with_size(s.below(5), Odd([1; 11])).into_raw_parts();
                let mut o = o;
                o.clone_from(&b);
                unsafe {
                    let (m, t) = (self.v[q].1.clone(), <Tab as VTable<T>>::build_vtable());
                    self.v[r] = (Vc::from_raw_parts(o, Box::new(t.clone())), m);
                    drop(Vc::from_raw_parts(b, Box::new(t)));
                }
            }
            _ => {
                let m = self.v[q].1.clone();
                let x = self.v[q].0.copy_into_vec::<T>().ok_or("copy_into_vec: refused")?;
                self.v[r] = (x.into(), m);
            }
        }
        Ok(())
    }

    fn op_convert(&mut self, s: &mut Src) -> R {
        let r = self.pick(s);
        let k = s.below(8);
        s.log(|| format!("v{} convert kind {}", r, k));
        s.count("convert");
        let (v, mut m) = std::mem::replace(&mut self.v[r], (Vc::with_type::<T>(), Vec::new()));
        let nv: Vc = match k {
            0 | 1 => {
                let mut x = v.into_vec::<T>().ok_or("into_vec: refused")?;
                cke!(pays(&x), m, "into_vec");
                let p = self.pay(s);
                match s.below(5) {
                    0 => {
                        x.push(T::make(p));
                        m.push(p);
                    }
                    1 => {
                        let i = s.below(m.len() + 1);
                        x.insert(i, T::make(p));
                        m.insert(i, p);
                    }
                    2 if !m.is_empty() => {
                        let i = s.below(m.len());
                        x.remove(i);
                        m.remove(i);
                    }
                    3 => x.shrink_to_fit(),
                    _ => x.reserve(s.below(20)),
                }
                x.into()
            }
            2 => {
                let o: Option<Vec<T>> = v.into();
                let x = o.ok_or("Option::from: refused")?;
                cke!(pays(&x), m, "Option::from");
                Vc::from_vec(x)
            }
            3 => {
                let u: VecCopy<SubTab> = v.upcast();
                cke!(u.len(), m.len(), "upcast: len");
                let mut size = 0;
                let u: VecCopy<()> = u.upcast_with(|t| size = t.size);
                cke!(size, size_of::<T>(), "upcast: table");
                let x = u.into_vec::<T>().ok_or("upcast: type lost")?;
                cke!(pays(&x), m, "upcast");
                x.into()
            }
            4 => {
                #[cfg(feature = "traits")]
                {
                    let d = into_dyn![VecCopy<dyn HasTab>](v);
                    cke!(d.len(), m.len(), "into_dyn: len");
                    cke!(d.as_slice_as::<T>().map(pays), Some(m.clone()), "into_dyn");
                    from_dyn![VecCopy<dyn HasTab as Tab>](d)
                }
                #[cfg(not(feature = "traits"))]
                v
            }
            5 => {
                let (a, b) = v.into_raw_parts();
                unsafe { Vc::from_raw_parts(a, b) }
            }
            6 => v.check::<T>().ok_or("check: refused the right type")?,
            _ => {
                let o = match s.below(3) {
                    0 => v.into_vec::<T::Other>().is_some(),
                    1 => v.check::<T::Other>().is_some(),
                    _ => {
                        let o: Option<Vec<T::Other>> = v.into();
                        o.is_some()
                    }
                };
                ck!(!o, "converted to a vector of another type");
                m = Vec::new();
                Vc::with_type::<T>()
            }
        };
        self.v[r] = (nv, m);
        Ok(())
    }

    fn op_refuse(&mut self, s: &mut Src) -> R {
        let r = self.pick(s);
        let k = s.below(19);
        let p = s.pay();
        s.log(|| format!("v{} refused op kind {}", r, k));
        s.count("refused");
        let n = self.v[r].1.len();
        let far = match s.below(5) {
            0 => n,
            1 => n + 1,
            2 => n + s.below(100),
            3 => usize::MAX,
            _ => (usize::MAX / size_of::<T>()).saturating_add(1 + s.below(n + 1)),
        };
        let beyond = far.max(n + 1);
        let v = &mut self.v[r].0;
        let other = T::Other::make(p);
        let odd = Odd([p as u8; 11]);
        match k {
            0 => {
                ck!(v.push_as(other).is_none(), "push_as: took another type");
                ck!(v.push_as(odd).is_none() || size_of::<T>() == 0, "push_as: took another type");
            }
            1 => {
                ck!(v.push(CopyValueRef::<Tab>::new(&other)).is_none(), "push: took another type");
                let was = caught(|| v.push(CopyValueRef::<Tab>::new(&odd)).is_some());
                ck!(was != Some(true), "push: took another type");
                s.obs(was.is_none() as u64);
            }
            2 => ck!(v.append(&mut self.o.0).is_none(), "append: took another type"),
            3 => ck!(self.o.0.append(v).is_none(), "append: took another type"),
            4 => ck!(v.resize(s.below(9), other).is_none() && v.resize(3, odd).is_none(), "resize: took another type"),
            5 => ck!(v.fill(other).is_none() && v.fill(odd).is_none(), "fill: took another type"),
            6 => ck!(v.copy_from_slice(&vec![other; n]).is_none() && v.copy_from_slice(&[odd]).is_none(), "copy_from_slice: took another type"),
            7 | 8 => {
                // The foreign value may come after some of the right type, which may be kept.
                let right: Vec<T> = make_all(&vec![p; s.below(3)]);
                let it = right.iter().map(|x| CopyValueRef::new(x));
                let was = if k == 7 {
                    caught(|| v.extend(it.chain(std::iter::once(CopyValueRef::new(&other)))))
                } else {
                    caught(|| v.extend(it.chain(std::iter::once(CopyValueRef::new(&odd)))))
                };
                s.obs(was.is_none() as u64);
                let k = v.len().wrapping_sub(n);
                ck!(k <= right.len(), "extend: took another type");
                self.v[r].1.extend(vec![T::canon(p); k]);
            }
            9 => {
                // The length may not match; nothing then changes beyond what was matched.
                let sl = make_all::<T>(&vec![p; n + 1 + s.below(3)]);
                ck!(panics(|| v.as_mut_slice().copy_from_slice(&sl).is_some()), "slice copy_from_slice with another length");
                ck!(v.as_mut_slice().copy_from_slice(&vec![other; n]).is_none(), "slice copy_from_slice: took another type");
            }
            10 if n > 0 => {
                let i = s.below(n);
                ck!(v.get_mut(i).copy(CopyValueRef::new(&other)).is_none(), "copy: took another type");
                ck!(v.get_mut(i).copy(CopyValueRef::new(&odd)).is_none(), "copy: took another type");
                let mut x = other;
                let q = x.pay();
                v.get_mut(i).swap(&mut CopyValueMut::new(&mut x));
                cke!(x.pay(), q, "swap: swapped with another type");
                let mut x = odd;
                v.get_mut(i).swap(&mut CopyValueMut::new(&mut x));
                cke!(x, odd, "swap: swapped with another type");
                ck!(v.get_mut(i).downcast::<T::Other>().is_none() && v.get_mut(i).downcast::<Odd>().is_none(), "downcast to another type");
            }
            11 => {
                ck!(panics(|| v.get_ref(far).is::<T>()), "get_ref({}) of {}", far, n);
                ck!(panics(|| v.get_mut(far).is::<T>()), "get_mut({}) of {}", far, n);
            }
            12 => {
                ck!(panics(|| v.get_as::<T>(far).is_some()), "get_as({}) of {}", far, n);
                ck!(panics(|| v.get_ref_as::<T>(far).is_some()), "get_ref_as({}) of {}", far, n);
                ck!(panics(|| v.get_mut_as::<T>(far).is_some()), "get_mut_as({}) of {}", far, n);
            }
            13 => {
                ck!(panics(|| v.rotate_left(beyond)), "rotate_left({}) of {}", beyond, n);
                ck!(panics(|| v.rotate_right(beyond)), "rotate_right({}) of {}", beyond, n);
                ck!(panics(|| v.as_mut_slice().rotate_left(beyond)), "slice rotate_left({}) of {}", beyond, n);
                ck!(panics(|| v.as_mut_slice().rotate_right(beyond)), "slice rotate_right({}) of {}", beyond, n);
            }
            14 => {
                ck!(panics(|| v.as_slice().subslice(..beyond).len()), "subslice(..{}) of {}", beyond, n);
                ck!(panics(|| v.as_mut_slice().subslice_mut(beyond..).len()), "subslice_mut({}..) of {}", beyond, n);
                ck!(panics(|| v.as_slice().into_subslice(..=far).len()), "into_subslice(..={}) of {}", far, n);
                ck!(panics(|| v.as_mut_slice().into_subslice(0..=far).len()), "into_subslice(0..={}) of {}", far, n);
            }
            15 => {
                ck!(panics(|| v.as_slice().split_at(beyond).0.len()), "split_at({}) of {}", beyond, n);
                ck!(panics(|| v.as_mut_slice().split_at(beyond).0.len()), "mut split_at({}) of {}", beyond, n);
                ck!(panics(|| v.as_slice().chunks_exact(0).count()), "chunks_exact(0)");
                ck!(panics(|| v.as_mut_slice().chunks_exact_mut(0).count()), "chunks_exact_mut(0)");
            }
            16 => {
                if n > 0 {
                    let i = s.below(n);
                    ck!(panics(|| v.as_mut_slice().swap(i, far)), "swap({}, {}) of {}", i, far, n);
                    ck!(panics(|| v.as_mut_slice().swap(far, i)), "swap({}, {}) of {}", far, i, n);
                }
                ck!(panics(|| v.as_slice().get(far).is::<T>()), "slice get({}) of {}", far, n);
                ck!(panics(|| v.as_mut_slice().get(far).is::<T>()), "mut slice get({}) of {}", far, n);
                ck!(panics(|| v.as_mut_slice().get_mut(far).is::<T>()), "mut slice get_mut({}) of {}", far, n);
            }
            17 => {
                ck!(panics(|| v.as_slice().get_as::<T>(far).is_some()), "slice get_as({}) of {}", far, n);
                ck!(panics(|| v.as_mut_slice().get_as::<T>(far).is_some()), "mut slice get_as({}) of {}", far, n);
            }
            _ => {
                // Too large: refused before anything happens.
                let huge = (isize::MAX as usize / size_of::<T>()).saturating_add(1 + s.below(3));
                ck!(panics(|| v.reserve(huge)), "reserve({})", huge);
                ck!(panics(|| v.reserve(usize::MAX - s.below(3))), "reserve(almost MAX)");
                ck!(panics(|| v.resize(huge, T::make(p)).is_some()), "resize({})", huge);
                ck!(panics(|| Vc::with_capacity::<T>(huge).len()), "with_capacity({})", huge);
                ck!(panics(|| Vc::with_type::<()>().len()), "with_type of nothing");
                ck!(panics(|| Vc::from_vec(vec![[0u64; 0]; 2]).len()), "from_vec of nothing");
                ck!(panics(|| std::iter::empty::<CopyValueRef<Tab>>().collect::<Vc>().len()), "collect of nothing");
            }
        }
        Ok(())
    }

    fn op_meta(&mut self, s: &mut Src, pr: &CProfile) -> R {
        let (r, q) = (self.pick(s), self.pick(s));
        let k = s.below(6);
        s.log(|| format!("v{} = with_type_from v{} kind {}", r, q, k));
        s.count("meta");
        let i = self.idx(s, q);
        let src = &mut self.v[q].0;
        let x = T::make(1);
        let mut a = [x; 2];
        let mut n: Vc = match (k, i) {
            (0, _) => Vc::with_type_from(&*src),
            (1, _) => Vc::with_type_from(src.as_slice()),
            (2, _) => Vc::with_type_from(src.as_mut_slice()),
            (3, Some(i)) => Vc::with_type_from(src.get_ref(i)),
            (4, _) => Vc::with_type_from(SliceCopyMut::<Tab>::from_slice(&mut a)),
            _ => Vc::with_type_from(CopyValueRef::<Tab>::new(&x)),
        };
        ck!(n.is_empty() && n.element_type_id() == TypeId::of::<T>(), "with_type_from: type");
        let m = self.pays(s, pr);
        let way = s.below(3);
        for &p in &m {
            let x = T::make(p);
            ck!(match way {
                0 => n.push_as(x).is_some(),
                1 => n.push(CopyValueRef::<Tab>::new(&x)).is_some(),
                _ => {
                    let l = n.len();
                    n.resize(l + 1, x).is_some()
                }
            }, "with_type_from: refused the right type");
        }
        ck!(n.push_as(T::Other::make(1)).is_none() && n.push_as(Odd([0; 11])).is_none(), "with_type_from: took another type");
        let mut seen = None;
        let n = n.upcast_with(|t| {
            seen = Some((*t.size, t.id));
            t
        });
        cke!(seen, Some((size_of::<T>(), TypeId::of::<T>())), "with_type_from: table");
        self.v[r] = (n, m);
        Ok(())
    }

    fn op_reserve(&mut self, s: &mut Src, pr: &CProfile) -> R {
        let r = self.pick(s);
        if self.full(r, pr) {
            return Ok(());
        }
        let extra = if pr.max_len > 100 { s.long(pr.max_len) } else { s.len(40) };
        let use_ = if extra == 0 { 0 } else { s.below(extra + 1) };
        let way = s.below(5);
        s.log(|| format!("v{} reserve {} use {} way {}", r, extra, use_, way));
        s.count("reserve");
        let p = self.pay(s);
        let (v, m) = &mut self.v[r];
        v.reserve(extra);
        ck!(v.capacity() >= m.len() + extra, "reserve({}): capacity {} with {} elements", extra, v.capacity(), m.len());
        let ptr = v.as_slice_as::<T>().map(|x| x.as_ptr());

        let x = T::make(p);
        match way {
            0 => for _ in 0..use_ { v.push_as(x); },
            1 => for _ in 0..use_ { v.push(CopyValueRef::<Tab>::new(&x)); },
            2 => { v.resize(m.len() + use_, x); }
            3 => v.extend((0..use_).map(|_| CopyValueRef::new(&x))),
            _ => {
                let mut b = Vc::with_size(use_, x);
                v.append(&mut b);
                ck!(b.is_empty() && b.push_as(x).is_some() && b.len() == 1, "append: source unusable");
            }
        }
        for _ in 0..use_ {
            m.push(p);
        }
        ck!(v.as_slice_as::<T>().map(|x| x.as_ptr()) == ptr, "the data moved although room was reserved");
        Ok(())
    }

    pub fn step(&mut self, s: &mut Src, p: &CProfile) -> R {
        self.step += 1;
        let w = [p.create, p.push, p.bulk, p.write, p.slice, p.clone, p.convert, p.refuse, p.meta, p.reserve, 1];
        match s.weighted(&w) {
            0 => self.op_create(s, p),
            1 => self.op_push(s, p),
            2 => self.op_bulk(s, p),
            3 => self.op_write(s),
            4 => self.op_slice(s),
            5 => self.op_clone(s),
            6 => self.op_convert(s),
            7 => self.op_refuse(s),
            8 => self.op_meta(s, p),
            9 => self.op_reserve(s, p),
            _ => {
                if self.o.1.len() < 12 {
                    let p = <T::Other>::canon(s.pay());
                    ck!(self.o.0.push_as(<T::Other>::make(p)).is_some(), "push_as: refused");
                    self.o.1.push(p);
                } else {
                    self.o.0.clear();
                    self.o.1.clear();
                }
                Ok(())
            }
        }
    }
}

/// One history over elements of type `T`.
pub fn chistory<T: CopyElt>(s: &mut Src, p: &CProfile) -> R
where
    T::Other: CopyElt,
{
    s.log(|| format!("elements: {}", T::name()));
    let p = &p.stretched::<T>(s);
    s.obs(mix(size_of::<T>() as u64));
    let mut w = CWorld::<T>::new();
    for i in 0..2 {
        let m = w.pays(s, p);
        w.v[i] = (make_all::<T>(&m).into(), m);
    }
    let n = s.range(1, p.max_ops);
    let mut most = 0;
    for _ in 0..n {
        w.step(s, p)?;
        w.check(s)?;
        most = most.max(w.v.iter().map(|x| x.1.len()).max().unwrap());
    }
    if most >= 2 && n >= 4 {
        s.nontrivial = true;
    }
    Ok(())
}
