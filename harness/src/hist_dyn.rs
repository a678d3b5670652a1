//! Histories of operations on `VecDyn`, its slices and values, against a model on `Vec`.
use crate::elts::*;
use crate::engine::*;
use crate::reg;
use crate::src::Src;
use crate::vt::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};

pub type V = FullVTable;
pub type Vd = VecDyn<V>;

/// A type no container ever holds.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Alien(pub u64);

pub enum Val {
    Box(BoxValue<V>),
    Small(SmallValue<V>),
}

/// What is known about a vector after a panic in the middle of an operation on it.
#[derive(Clone)]
pub enum After {
    /// It is unchanged.
    Same,
    /// Its first elements are unchanged, the others have the given payload.
    Prefix(usize, u64),
    /// Its first elements are unchanged (it may be shorter).
    Shorter(usize),
    /// The length is unchanged, each element is unchanged or the corresponding one of these.
    Mixed(Vec<u64>),
    /// Anything that is well formed.
    Any,
}

pub struct World<T: FullElt> {
    pub v: Vec<(Vd, Vec<u64>)>,
    pub o: (Vd, Vec<u64>),
    pub pool: Vec<(Val, u64)>,
    pub step: usize,
    /// What the current operation may do to register `i` if it panics.
    pub after: Vec<After>,
    pub t: std::marker::PhantomData<T>,
}

/// Relative weights of the groups of operations.
#[derive(Clone, Copy)]
pub struct Profile {
    pub create: u32,
    pub push: u32,
    pub bulk: u32,
    pub write: u32,
    pub slice: u32,
    pub value: u32,
    pub clone: u32,
    pub convert: u32,
    pub refuse: u32,
    pub meta: u32,
    pub look: u32,
    pub max_ops: usize,
    pub max_len: usize,
    /// One in so many operations has a panic injected (0: none).
    pub panics: usize,
}
impl Profile {
    /// Some histories have few operations on long vectors.
    pub fn stretched<T>(&self, s: &mut Src) -> Profile {
        if cfg!(miri) || size_of::<T>() > 64 || !s.one_in(100) {
            return Profile { ..*self };
        }
        s.count("history of long vectors");
        Profile { max_len: [150, 400, 1200][s.below(3)], max_ops: self.max_ops.min(12), ..*self }
    }
}
pub const BALANCED: Profile = Profile {
    create: 3, push: 6, bulk: 6, write: 5, slice: 6, value: 5, clone: 3, convert: 3, refuse: 4, meta: 2, look: 0,
    max_ops: 40, max_len: 24, panics: 0,
};

fn hash_seq<T: Hash>(s: impl IntoIterator<Item = T>) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for x in s {
        x.hash(&mut h);
    }
    h.finish()
}

pub fn val_ok<T: Elt>(v: ValueRef<V>, p: u64, what: &str) -> R {
    ck!(v.is::<T>() && !v.is::<T::Other>() && v.value_type_id() == TypeId::of::<T>(), "{}: wrong value type", what);
    cke!(v.size(), size_of::<T>(), "{}: value size", what);
    cke!(v.value_alignment(), align_of::<T>(), "{}: value alignment", what);
    ck!(v.clone().downcast::<T::Other>().is_none(), "{}: value downcast to another type", what);
    match v.downcast::<T>() {
        Some(x) => cke!(x.pay(), p, "{}: value", what),
        None => return Err(format!("{}: value does not downcast to its type", what)),
    }
    Ok(())
}

/// Look at the vector in every way; `k` chooses the more expensive ones.
pub fn check_vec<T: FullElt>(v: &mut Vd, m: &[u64], k: usize) -> R {
    cke!(v.len(), m.len(), "len");
    cke!(v.is_empty(), m.is_empty(), "is_empty");
    ck!(v.element_type_id() == TypeId::of::<T>(), "element_type_id");
    cke!(v.element_size(), size_of::<T>(), "element_size");
    match v.as_slice_as::<T>() {
        Some(s) => {
            ck!(s.as_ptr() as usize % align_of::<T>() == 0, "data is misaligned");
            cke!(pays(s), m, "contents")
        }
        None => return Err("as_slice_as: refused the right type".into()),
    }
    ck!(v.as_slice_as::<T::Other>().is_none(), "as_slice_as: gave another type");
    let n = m.len();
    match k % 24 {
        0 => {
            cke!(v.iter().count(), n, "iter: count");
            for (i, x) in v.iter().enumerate() {
                val_ok::<T>(x, m[i], "iter")?;
            }
        }
        1 => {
            for i in 0..n {
                val_ok::<T>(v.get(i), m[i], "get")?;
            }
        }
        2 => {
            let s = v.as_slice();
            cke!(s.len(), n, "as_slice: len");
            cke!(s.is_empty(), n == 0, "as_slice: is_empty");
            cke!(s.element_size(), size_of::<T>(), "as_slice: element_size");
            ck!(s.element_type_id() == TypeId::of::<T>(), "as_slice: element_type_id");
            cke!(s.iter().count(), n, "as_slice.iter: count");
            for (i, x) in s.iter().enumerate() {
                val_ok::<T>(x, m[i], "as_slice.iter")?;
            }
        }
        3 => {
            let got: Vec<u64> = v.as_slice().into_iter().map(|x| seen!(T, x)).collect();
            cke!(got, m, "as_slice.into_iter");
        }
        4 => {
            let s = v.as_slice();
            cke!(s.as_slice::<T>().map(pays), Some(m.to_vec()), "as_slice.as_slice");
            ck!(s.as_slice::<T::Other>().is_none(), "as_slice.as_slice: gave another type");
            ck!(s.check::<T>().is_some() && s.check::<Alien>().is_none(), "as_slice.check");
            for i in 0..n {
                cke!(s.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "as_slice.get_as");
            }
        }
        5 => {
            let got: Option<Vec<u64>> = v.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect());
            cke!(got, Some(m.to_vec()), "iter_as");
            ck!(v.iter_as::<T::Other>().is_none(), "iter_as: gave another type");
        }
        6 => {
            for i in 0..n {
                cke!(v.get_ref_as::<T>(i).map(|x| x.pay()), Some(m[i]), "get_ref_as");
                ck!(v.get_ref_as::<T::Other>(i).is_none(), "get_ref_as: gave another type");
                cke!(unsafe { v.get_unchecked_ref::<T>(i) }.pay(), m[i], "get_unchecked_ref");
                cke!(unsafe { v.get_unchecked_mut::<T>(i) }.pay(), m[i], "get_unchecked_mut");
            }
        }
        7 => {
            cke!(v.clone_into_vec::<T>().map(|x| pays(&x)), Some(m.to_vec()), "clone_into_vec");
            ck!(v.clone_into_vec::<T::Other>().is_none(), "clone_into_vec: gave another type");
        }
        8 => {
            let c = 1 + k / 24 % 4;
            let mut got = Vec::new();
            for ch in v.as_slice().chunks_exact(c) {
                cke!(ch.len(), c, "chunks_exact: chunk length");
                got.extend(ch.as_slice::<T>().map(pays).ok_or("chunks_exact: type lost")?);
            }
            cke!(got, m[..n / c * c], "chunks_exact({})", c);
        }
        9 => {
            let mid = (k / 24) % (n + 1);
            let s = v.as_slice();
            let (a, b) = s.split_at(mid);
            cke!(a.as_slice::<T>().map(pays), Some(m[..mid].to_vec()), "split_at left");
            cke!(b.as_slice::<T>().map(pays), Some(m[mid..].to_vec()), "split_at right");
        }
        10 => {
            let a = (k / 24) % (n + 1);
            let b = a + (k / 7) % (n - a + 1);
            cke!(v.as_slice().subslice(a..b).as_slice::<T>().map(pays), Some(m[a..b].to_vec()), "subslice({}..{})", a, b);
            cke!(v.as_slice().into_subslice(a..).as_slice::<T>().map(pays), Some(m[a..].to_vec()), "into_subslice({}..)", a);
            if b > a {
                cke!(v.as_slice().subslice(a..=b - 1).as_slice::<T>().map(pays), Some(m[a..b].to_vec()), "subslice({}..={})", a, b - 1);
            }
        }
        11 => {
            let t: Vec<T> = make_all(m);
            cke!(format!("{:?}", v), format!("{:?}", t), "debug");
            cke!(format!("{:#?}", v.as_slice()), format!("{:#?}", t), "debug of slice");
        }
        12 => {
            let t: Vec<T> = make_all(m);
            cke!(hash_seq(v.iter()), hash_seq(t.iter()), "hash of values");
            let mut h = std::collections::hash_map::DefaultHasher::new();
            Hash::hash(&*v, &mut h);
            let again: Vd = make_all::<T>(m).into();
            let mut h2 = std::collections::hash_map::DefaultHasher::new();
            Hash::hash(&again, &mut h2);
            cke!(h.finish(), h2.finish(), "hash of equal vectors");
        }
        13 => {
            let again: Vd = make_all::<T>(m).into();
            ck!(*v == again && again == *v, "a vector with equal elements is unequal");
            ck!(v.as_slice() == again.as_slice(), "slices with equal elements are unequal");
        }
        14 => {
            let mut i = 0;
            for x in v.iter_mut() {
                ck!(x.is::<T>() && x.size() == size_of::<T>() && x.value_alignment() == align_of::<T>(), "iter_mut: value type");
                ck!(i < n, "iter_mut: too many");
                cke!(x.downcast::<T>().map(|x| x.pay()), Some(m[i]), "iter_mut");
                i += 1;
            }
            cke!(i, n, "iter_mut: count");
            at_once!(T, v.iter_mut(), m, "iter_mut");
        }
        15 => {
            for i in 0..n {
                cke!(seen!(T, v.get_mut(i)), m[i], "get_mut");
                ck!(v.get_mut(i).downcast::<T::Other>().is_none(), "get_mut: gave another type");
                cke!(v.get_mut_as::<T>(i).map(|x| x.pay()), Some(m[i]), "get_mut_as");
                ck!(v.get_mut_as::<T::Other>(i).is_none(), "get_mut_as: gave another type");
            }
        }
        16 => {
            let got: Option<Vec<u64>> = v.iter_mut_as::<T>().map(|i| i.map(|x| x.pay()).collect());
            cke!(got, Some(m.to_vec()), "iter_mut_as");
            cke!(v.as_mut_slice_as::<T>().map(|x| pays(x)), Some(m.to_vec()), "as_mut_slice_as");
            ck!(v.iter_mut_as::<T::Other>().is_none() && v.as_mut_slice_as::<T::Other>().is_none(), "iter_mut_as: gave another type");
        }
        17 => {
            let mut s = v.as_mut_slice();
            cke!(s.len(), n, "as_mut_slice: len");
            cke!(s.is_empty(), n == 0, "as_mut_slice: is_empty");
            cke!(s.element_size(), size_of::<T>(), "as_mut_slice: element_size");
            ck!(s.element_type_id() == TypeId::of::<T>(), "as_mut_slice: element_type_id");
            cke!(s.as_slice::<T>().map(|x| pays(x)), Some(m.to_vec()), "as_mut_slice.as_slice");
            ck!(s.as_slice::<T::Other>().is_none() && s.iter_as::<T::Other>().is_none(), "as_mut_slice: gave another type");
            let got: Option<Vec<u64>> = s.iter_as::<T>().map(|i| i.map(|x| x.pay()).collect());
            cke!(got, Some(m.to_vec()), "as_mut_slice.iter_as");
            let got: Vec<u64> = s.iter().map(|x| seen!(T, x)).collect();
            cke!(got, m, "as_mut_slice.iter");
            at_once!(T, s.iter(), m, "as_mut_slice.iter");
            if k / 24 % 2 == 0 {
                at_once!(T, s.into_iter(), m, "as_mut_slice.into_iter");
            } else {
                let got: Vec<u64> = s.into_iter().map(|x| seen!(T, x)).collect();
                cke!(got, m, "as_mut_slice.into_iter");
            }
        }
        18 => {
            let mut s = v.as_mut_slice();
            for i in 0..n {
                val_ok::<T>(s.get(i), m[i], "as_mut_slice.get")?;
                cke!(s.get_mut(i).downcast::<T>().map(|x| x.pay()), Some(m[i]), "as_mut_slice.get_mut");
                cke!(s.get_as::<T>(i).map(|x| x.pay()), Some(m[i]), "as_mut_slice.get_as");
                ck!(s.get_as::<T::Other>(i).is_none(), "as_mut_slice.get_as: gave another type");
            }
        }
        19 => {
            let c = 1 + k / 24 % 4;
            let mut s = v.as_mut_slice();
            let mut got = Vec::new();
            for ch in s.chunks_exact(c) {
                cke!(ch.len(), c, "mut chunks_exact: chunk length");
                got.extend(ch.as_slice::<T>().map(pays).ok_or("mut chunks_exact: type lost")?);
            }
            cke!(got, m[..n / c * c], "mut chunks_exact({})", c);
            let mut got = Vec::new();
            for mut ch in s.chunks_exact_mut(c) {
                got.extend(ch.as_slice::<T>().map(|x| pays(x)).ok_or("chunks_exact_mut: type lost")?);
            }
            cke!(got, m[..n / c * c], "chunks_exact_mut({})", c);
            chunks_at_once!(T, s.chunks_exact_mut(c), c, m, "chunks_exact_mut");
            let mid = (k / 24) % (n + 1);
            let (mut a, mut b) = s.split_at(mid);
            cke!(a.as_slice::<T>().map(|x| pays(x)), Some(m[..mid].to_vec()), "mut split_at left");
            cke!(b.as_slice::<T>().map(|x| pays(x)), Some(m[mid..].to_vec()), "mut split_at right");
        }
        20 => {
            let a = (k / 24) % (n + 1);
            let b = a + (k / 7) % (n - a + 1);
            let mut s = v.as_mut_slice();
            cke!(s.subslice(a..b).as_slice::<T>().map(pays), Some(m[a..b].to_vec()), "mut subslice({}..{})", a, b);
            cke!(s.subslice_mut(a..b).as_slice::<T>().map(|x| pays(x)), Some(m[a..b].to_vec()), "subslice_mut({}..{})", a, b);
            cke!(s.reborrow().as_slice::<T>().map(pays), Some(m.to_vec()), "mut reborrow");
            cke!(s.reborrow_mut().as_slice::<T>().map(|x| pays(x)), Some(m.to_vec()), "reborrow_mut");
            cke!(Slice::from(&s).as_slice::<T>().map(pays), Some(m.to_vec()), "Slice::from(&SliceMut)");
            cke!(s.into_subslice(..b).as_slice::<T>().map(|x| pays(x)), Some(m[..b].to_vec()), "mut into_subslice(..{})", b);
            cke!(Slice::from(v.as_mut_slice()).as_slice::<T>().map(pays), Some(m.to_vec()), "Slice::from(SliceMut)");
            cke!(v.as_slice().reborrow().as_slice::<T>().map(pays), Some(m.to_vec()), "reborrow");
        }
        21 => {
            ck!(v.check_ref::<T>().is_some() && v.check_mut::<T>().is_some(), "check: refused the right type");
            ck!(v.check_ref::<T::Other>().is_none() && v.check_mut::<T::Other>().is_none(), "check: took another type");
            ck!(v.check_ref::<Alien>().is_none(), "check: took another type");
        }
        22 => {
            let mut out: Vec<T> = make_all(&[1, 2]);
            let e = [canon_all::<T>(&[1, 2]), m.to_vec()].concat();
            ck!(v.append_cloned_to_vec(&mut out).is_some(), "append_cloned_to_vec: refused");
            cke!(pays(&out), e, "append_cloned_to_vec");
            ck!(v.as_slice().append_clone_to_vec(&mut out).is_some(), "append_clone_to_vec: refused");
            let e = [e, m.to_vec()].concat();
            cke!(pays(&out), e, "append_clone_to_vec");
            ck!(v.as_mut_slice().append_clone_to_vec(&mut out).is_some(), "mut append_clone_to_vec: refused");
            cke!(pays(&out), [e, m.to_vec()].concat(), "mut append_clone_to_vec");
            cke!(v.as_slice().clone_into_vec::<T>().map(|x| pays(&x)), Some(m.to_vec()), "slice clone_into_vec");
            cke!(v.as_mut_slice().clone_into_vec::<T>().map(|x| pays(&x)), Some(m.to_vec()), "mut clone_into_vec");
            let mut no: Vec<T::Other> = Vec::new();
            ck!(v.append_cloned_to_vec(&mut no).is_none() && no.is_empty(), "append_cloned_to_vec: gave another type");
            ck!(v.as_slice().append_clone_to_vec(&mut no).is_none() && no.is_empty(), "append_clone_to_vec: gave another type");
            ck!(v.as_mut_slice().append_clone_to_vec(&mut no).is_none() && no.is_empty(), "mut append_clone_to_vec: gave another type");
        }
        _ => {
            // Equality notices every difference.
            if n > 0 {
                let i = (k / 24) % n;
                let mut m2 = m.to_vec();
                m2[i] = T::canon(m2[i].wrapping_add(1));
                let t: Vd = make_all::<T>(&m2).into();
                cke!(*v == t, m2 == m, "equality with element {} changed", i);
                m2 = m[..n - 1].to_vec();
                let t: Vd = make_all::<T>(&m2).into();
                ck!(*v != t && t != *v, "a vector is equal to its prefix");
            }
        }
    }
    Ok(())
}

impl<T: FullElt> World<T>
where
    T::Other: FullElt,
{
    pub fn new() -> Self {
        let r = || (Vd::with_type::<T>(), Vec::new());
        World {
            v: vec![r(), r(), r()],
            o: (Vd::with_type::<T::Other>(), Vec::new()),
            pool: Vec::new(),
            step: 0,
            after: vec![After::Same; 4],
            t: std::marker::PhantomData,
        }
    }

    pub fn total(&self) -> i64 {
        (self.v.iter().map(|x| x.1.len()).sum::<usize>() + self.o.1.len() + self.pool.len()) as i64
    }

    pub fn check(&mut self) -> R {
        for i in 0..self.v.len() {
            let k = self.step.wrapping_mul(7).wrapping_add(i * 5);
            let (v, m) = &mut self.v[i];
            check_vec::<T>(v, m, k).map_err(|e| format!("register {}: {}", i, e))?;
        }
        check_vec::<T::Other>(&mut self.o.0, &self.o.1, self.step).map_err(|e| format!("other register: {}", e))?;
        for (v, p) in &self.pool {
            match v {
                Val::Box(b) => val_ok::<T>(b.as_ref(), *p, "boxed value")?,
                Val::Small(b) => val_ok::<T>(b.as_ref(), *p, "small value")?,
            }
        }
        if T::TRACKED {
            cke!(reg::live(), self.total(), "number of live elements");
        }
        Ok(())
    }

    fn pick(&self, s: &mut Src) -> usize {
        s.below(self.v.len())
    }
    /// An index into register `r` if it is not empty.
    fn idx(&self, s: &mut Src, r: usize) -> Option<usize> {
        let n = self.v[r].1.len();
        if n == 0 {
            None
        } else {
            Some(s.below(n))
        }
    }
    fn pay(&self, s: &mut Src) -> u64 {
        T::canon(s.pay())
    }
    fn pays(&self, s: &mut Src, p: &Profile) -> Vec<u64> {
        let mut v = s.pays(p.max_len);
        for x in &mut v {
            *x = T::canon(*x);
        }
        v
    }
    fn full(&self, r: usize, p: &Profile) -> bool {
        self.v[r].1.len() > 3 * p.max_len
    }
    /// Two different registers.
    fn two(&mut self, a: usize, b: usize) -> (&mut (Vd, Vec<u64>), &mut (Vd, Vec<u64>)) {
        assert!(a != b);
        if a < b {
            let (x, y) = self.v.split_at_mut(b);
            (&mut x[a], &mut y[0])
        } else {
            let (x, y) = self.v.split_at_mut(a);
            (&mut y[0], &mut x[b])
        }
    }

    // --- operations -----------------------------------------------------------------------

    fn op_create(&mut self, s: &mut Src, pr: &Profile) -> R {
        let r = self.pick(s);
        let k = s.below(9);
        let k = if k < 2 && s.below(3) > 0 { k + 2 } else { k };
        let m = if k == 0 || k == 1 { Vec::new() } else { self.pays(s, pr) };
        self.after[r] = After::Same;
        s.log(|| format!("v{} = create kind {} {:?}", r, k, m));
        s.count("create");
        let new: Vd = match k {
            0 => Vd::with_type::<T>(),
            1 => Vd::with_capacity::<T>(s.below(pr.max_len * 2)),
            2 => Vd::from_vec(make_all::<T>(&m)),
            3 => {
                let mut x = Vec::with_capacity(m.len() + s.below(9));
                x.extend(make_all::<T>(&m));
                x.into()
            }
            4 => {
                let x = make_all::<T>(&m);
                Vd::from_slice(&x)
            }
            5 => {
                let x = make_all::<T>(&m);
                Vd::from(x.as_slice())
            }
            6 => {
                let x = make_all::<T>(&m);
                let mut n = Vd::with_capacity::<T>(s.below(4));
                for e in x {
                    ck!(n.push_as(e).is_some(), "push_as: refused");
                }
                n
            }
            7 => {
                // With capacity left over by removed elements.
                let mut x = make_all::<T>(&m);
                x.push(T::make(0));
                x.pop();
                x.into()
            }
            _ => {
                let p = self.pay(s);
                let n = s.below(pr.max_len);
                let new = Vd::with_size(n, T::make(p));
                self.after[r] = After::Any;
                self.v[r] = (new, vec![p; n]);
                return Ok(());
            }
        };
        self.after[r] = After::Any;
        self.v[r] = (new, m);
        Ok(())
    }

    fn op_push(&mut self, s: &mut Src, pr: &Profile) -> R {
        let r = self.pick(s);
        if self.full(r, pr) {
            return Ok(());
        }
        let p = self.pay(s);
        let k = s.below(8);
        s.log(|| format!("v{}.push kind {} of {:x}", r, k, p));
        s.count("push");
        match k {
            0 | 1 => {
                ck!(self.v[r].0.push_as(T::make(p)).is_some(), "push_as: refused");
                self.v[r].1.push(p);
            }
            2 => {
                let b: BoxValue<V> = BoxValue::new(T::make(p));
                ck!(self.v[r].0.push(b).is_some(), "push: refused");
                self.v[r].1.push(p);
            }
            3 => {
                // The tables need not match.
                let b: BoxValue<DropVTable> = BoxValue::new(T::make(p));
                ck!(self.v[r].0.push(b).is_some(), "push: refused");
                self.v[r].1.push(p);
            }
            4 => {
                let x = T::make(p);
                let e = ValueRef::new(&x);
                ck!(self.v[r].0.push_cloned(e).is_some(), "push_cloned: refused");
                self.v[r].1.push(p);
            }
            5 | 6 => {
                let q = self.pick(s);
                if let (true, Some(i)) = (q != r, self.idx(s, q)) {
                    let (a, b) = self.two(r, q);
                    ck!(a.0.push_cloned(b.0.get(i)).is_some(), "push_cloned: refused");
                    a.1.push(b.1[i]);
                }
            }
            _ => {
                if let Some((v, p)) = self.pool.pop() {
                    if let Val::Box(b) = v {
                        ck!(self.v[r].0.push(b).is_some(), "push: refused");
                        self.v[r].1.push(p);
                    } else if let Val::Small(b) = v {
                        let x = b.downcast::<T>().ok_or("small value does not downcast to its type")?;
                        ck!(self.v[r].0.push_as(x).is_some(), "push_as: refused");
                        self.v[r].1.push(p);
                    }
                }
            }
        }
        Ok(())
    }

    fn op_bulk(&mut self, s: &mut Src, pr: &Profile) -> R {
        let r = self.pick(s);
        let k = s.below(9);
        s.log(|| format!("v{} bulk kind {} (len {})", r, k, self.v[r].1.len()));
        s.count("bulk");
        match k {
            0 => {
                self.after[r] = After::Shorter(0);
                self.v[r].0.clear();
                self.v[r].1.clear();
            }
            1 | 2 => {
                let n = s.below(2 * pr.max_len + 1);
                let p = self.pay(s);
                s.log(|| format!("  resize {} with {:x}", n, p));
                let l = self.v[r].1.len();
                self.after[r] = if n >= l { After::Prefix(l, p) } else { After::Shorter(n) };
                ck!(self.v[r].0.resize(n, T::make(p)).is_some(), "resize: refused");
                self.v[r].1.resize(n, p);
            }
            3 => {
                let p = self.pay(s);
                self.after[r] = After::Mixed(vec![p; self.v[r].1.len()]);
                ck!(self.v[r].0.fill(T::make(p)).is_some(), "fill: refused");
                self.v[r].1.iter_mut().for_each(|x| *x = p);
            }
            4 | 5 => {
                let q = self.pick(s);
                if q != r && !self.full(r, pr) {
                    s.log(|| format!("  append v{}", q));
                    let (a, b) = self.two(r, q);
                    ck!(a.0.append(&mut b.0).is_some(), "append: refused");
                    a.1.append(&mut b.1);
                }
            }
            6 | 7 => {
                if align_of::<T>() <= 8192 {
                    let n = s.below(self.v[r].1.len() + 1);
                    if k == 6 {
                        self.v[r].0.rotate_left(n);
                        self.v[r].1.rotate_left(n);
                    } else {
                        self.v[r].0.rotate_right(n);
                        self.v[r].1.rotate_right(n);
                    }
                    s.log(|| format!("  rotate by {}", n));
                }
            }
            _ => {
                let q = self.pick(s);
                self.v.swap(r, q);
            }
        }
        Ok(())
    }

    fn op_write(&mut self, s: &mut Src, _pr: &Profile) -> R {
        let r = self.pick(s);
        let i = match self.idx(s, r) {
            None => return Ok(()),
            Some(i) => i,
        };
        let k = s.below(10);
        let p = self.pay(s);
        s.log(|| format!("v{}[{}] write kind {} {:x}", r, i, k, p));
        s.count("write");
        let mut mixed = self.v[r].1.clone();
        mixed[i] = p;
        self.after[r] = After::Mixed(mixed);
        match k {
            0 => *self.v[r].0.get_mut_as::<T>(i).ok_or("get_mut_as: refused")? = T::make(p),
            1 => self.v[r].0.as_mut_slice_as::<T>().ok_or("as_mut_slice_as: refused")?[i] = T::make(p),
            2 => *self.v[r].0.iter_mut_as::<T>().ok_or("iter_mut_as: refused")?.nth(i).ok_or("iter_mut_as: short")? = T::make(p),
            3 => {
                let b: BoxValue<V> = BoxValue::new(T::make(p));
                self.v[r].0.get_mut(i).assign(b);
            }
            4 => {
                let x = T::make(p);
                let e = ValueRef::new(&x);
                ck!(self.v[r].0.get_mut(i).clone_from_other(e).is_ok(), "clone_from_other: refused");
            }
            5 => {
                let mut x = T::make(p);
                let mut e = ValueMut::new(&mut x);
                self.v[r].0.get_mut(i).swap(&mut e);
                drop(e);
                cke!(x.pay(), self.v[r].1[i], "swap: value given out");
            }
            6 => {
                let mut x = self.v[r].0.iter_mut().nth(i).ok_or("iter_mut: short")?;
                if s.bool() {
                    let mut y = T::make(p);
                    x.swap(&mut ValueMut::new(&mut y));
                    drop(x);
                    cke!(y.pay(), self.v[r].1[i], "iter_mut: swap: value given out");
                } else {
                    *x.downcast::<T>().ok_or("iter_mut: type lost")? = T::make(p);
                }
            }
            7 => {
                if size_of::<T>() == size_of::<usize>() {
                    let b: SmallValue<V> = SmallValue::new(T::make(p));
                    self.v[r].0.get_mut(i).assign(b);
                } else {
                    return Ok(());
                }
            }
            8 => {
                // From another vector.
                let q = self.pick(s);
                if let (true, Some(j)) = (q != r, self.idx(s, q)) {
                    let a2 = self.v[q].1[j];
                    if let After::Mixed(m) = &mut self.after[r] {
                        m[i] = a2;
                    }
                    let (a, b) = self.two(r, q);
                    if p & 1 == 0 {
                        ck!(a.0.get_mut(i).clone_from_other(b.0.get(j)).is_ok(), "clone_from_other: refused");
                        a.1[i] = a2;
                    } else {
                        a.0.get_mut(i).swap(&mut b.0.get_mut(j));
                        std::mem::swap(&mut a.1[i], &mut b.1[j]);
                    }
                }
                return Ok(());
            }
            _ => {
                // Into and from the pool.
                if self.pool.is_empty() {
                    return Ok(());
                }
                let j = s.below(self.pool.len());
                let mut x = self.v[r].0.get_mut(i);
                match &mut self.pool[j].0 {
                    Val::Box(b) => x.swap(&mut b.as_mut()),
                    Val::Small(b) => x.swap(&mut b.as_mut()),
                }
                std::mem::swap(&mut self.pool[j].1, &mut self.v[r].1[i]);
                return Ok(());
            }
        }
        self.v[r].1[i] = p;
        Ok(())
    }

    fn op_slice(&mut self, s: &mut Src, _pr: &Profile) -> R {
        let r = self.pick(s);
        let n = self.v[r].1.len();
        let a = s.below(n + 1);
        let b = a + s.below(n - a + 1);
        let k = s.below(8);
        s.log(|| format!("v{}[{}..{}] slice op kind {}", r, a, b, k));
        s.count("slice");
        let l = b - a;
        let fresh: Vec<u64> = if k == 4 { s.many(l).into_iter().map(T::canon).collect() } else { Vec::new() };
        if k == 4 {
            let mut e = self.v[r].1.clone();
            e[a..b].copy_from_slice(&fresh);
            self.after[r] = After::Mixed(e);
        }
        let (v, m) = &mut self.v[r];
        let mut sl = match s.below(3) {
            0 => v.as_mut_slice().into_subslice(a..b),
            1 => {
                let x = v.as_mut_slice();
                x.into_subslice(a..).into_subslice(..l)
            }
            _ => {
                if b < n {
                    v.as_mut_slice().into_subslice(..=b).into_subslice(a..b)
                } else {
                    v.as_mut_slice().into_subslice(a..b)
                }
            }
        };
        cke!(sl.len(), l, "into_subslice: len");
        let m = &mut m[a..b];
        match k {
            0 | 1 if l > 0 => {
                let (i, j) = (s.below(l), s.below(l));
                sl.swap(i, j);
                m.swap(i, j);
            }
            2 => {
                let k = s.below(l + 1);
                sl.rotate_left(k);
                m.rotate_left(k);
            }
            3 => {
                let k = s.below(l + 1);
                sl.rotate_right(k);
                m.rotate_right(k);
            }
            4 => {
                let x = make_all::<T>(&fresh);
                ck!(sl.clone_from_slice(&x).is_some(), "clone_from_slice: refused");
                m.copy_from_slice(&fresh);
            }
            5 => {
                let mid = s.below(l + 1);
                let (mut x, mut y) = sl.split_at(mid);
                if mid > 0 && mid < l {
                    let (i, j) = (s.below(mid), s.below(l - mid));
                    x.get_mut(i).swap(&mut y.get_mut(j));
                    m.swap(i, mid + j);
                }
            }
            6 => {
                let c = s.range(1, 3);
                for (i, mut ch) in sl.chunks_exact_mut(c).enumerate() {
                    ch.swap(0, c - 1);
                    m.swap(i * c, i * c + c - 1);
                }
            }
            _ => {
                // Swap neighbours through the iterator.
                let mut i = 0;
                let mut it = sl.into_iter();
                while let (Some(mut x), Some(mut y)) = (it.next(), it.next()) {
                    x.swap(&mut y);
                    m.swap(i, i + 1);
                    i += 2;
                }
            }
        }
        Ok(())
    }

    fn op_value(&mut self, s: &mut Src, _pr: &Profile) -> R {
        let r = self.pick(s);
        let k = s.below(11);
        s.log(|| format!("value op kind {} (pool of {})", k, self.pool.len()));
        s.count("value");
        let word = size_of::<T>() == size_of::<usize>();
        match k {
            0 | 1 if self.pool.len() < 6 => {
                if let Some(i) = self.idx(s, r) {
                    let p = self.v[r].1[i];
                    let v = if k == 0 { Val::Box(self.v[r].0.get(i).clone_value()) } else { Val::Box(self.v[r].0.get_mut(i).clone_value()) };
                    self.pool.push((v, p));
                }
            }
            2 | 3 if self.pool.len() < 6 => {
                if let (true, Some(i)) = (word, self.idx(s, r)) {
                    let p = self.v[r].1[i];
                    let v = if k == 2 { Val::Small(self.v[r].0.get(i).clone_small_value()) } else { Val::Small(self.v[r].0.get_mut(i).clone_small_value()) };
                    self.pool.push((v, p));
                }
            }
            4 if self.pool.len() < 6 => {
                let p = self.pay(s);
                let v = if word && s.bool() { Val::Small(SmallValue::new(T::make(p))) } else { Val::Box(BoxValue::new(T::make(p))) };
                self.pool.push((v, p));
            }
            5 => {
                if let Some((v, p)) = self.pool.pop() {
                    let x = match v {
                        Val::Box(b) => *b.downcast::<T>().ok_or("boxed value does not downcast to its type")?,
                        Val::Small(b) => b.downcast::<T>().ok_or("small value does not downcast to its type")?,
                    };
                    cke!(x.pay(), p, "downcast");
                }
            }
            6 => {
                // Refused: the contents are dropped.
                if let Some((v, _)) = self.pool.pop() {
                    match v {
                        Val::Box(b) => ck!(b.downcast::<T::Other>().is_none(), "boxed value: downcast to another type"),
                        Val::Small(b) => ck!(b.downcast::<T::Other>().is_none(), "small value: downcast to another type"),
                    }
                }
            }
            7 => {
                if !self.pool.is_empty() {
                    let i = s.below(self.pool.len());
                    drop(self.pool.swap_remove(i));
                }
            }
            8 if self.pool.len() < 6 => {
                if let Some((v, p)) = self.pool.last() {
                    let c = match v {
                        Val::Box(b) => Val::Box(b.clone()),
                        Val::Small(b) => Val::Small(b.clone()),
                    };
                    self.pool.push((c, *p));
                }
            }
            9 => {
                // Upcast and look.
                if let Some((v, p)) = self.pool.pop() {
                    match v {
                        Val::Box(b) => {
                            let u: BoxValue<PartVTable> = b.upcast();
                            ck!(u == u.clone(), "upcast value: unequal to its clone");
                            let u: BoxValue<DropVTable> = u.upcast();
                            ck!(u.is::<T>(), "upcast value: type lost");
                            cke!(u.downcast::<T>().map(|x| x.pay()), Some(p), "upcast value");
                        }
                        Val::Small(b) => {
                            let u: SmallValue<PartVTable> = b.upcast();
                            ck!(u == u.clone(), "upcast value: unequal to its clone");
                            let u: SmallValue<DropVTable> = u.upcast();
                            cke!(u.downcast::<T>().map(|x| x.pay()), Some(p), "upcast value");
                        }
                    }
                }
            }
            10 => {
                let p = self.pay(s);
                let fit = SmallValue::<V>::try_new(T::make(p));
                cke!(fit.is_some(), word, "SmallValue::try_new: accepted");
                if let Some(f) = fit {
                    cke!(f.as_ref().downcast::<T>().map(|x| x.pay()), Some(p), "SmallValue::try_new");
                }
            }
            _ => {}
        }
        Ok(())
    }

    fn op_clone(&mut self, s: &mut Src, _pr: &Profile) -> R {
        let (r, q) = (self.pick(s), self.pick(s));
        let k = s.below(8);
        s.log(|| format!("v{} clone of v{} kind {}", r, q, k));
        s.count("clone");
        match k {
            0 | 1 => {
                let c = self.v[q].0.clone();
                self.after[r] = After::Any;
                self.v[r] = (c, self.v[q].1.clone());
            }
            2 | 3 => {
                if r != q {
                    self.after[r] = After::Any;
                    let (a, b) = self.two(r, q);
                    a.0.clone_from(&b.0);
                    a.1 = b.1.clone();
                }
            }
            4 => {
                // Over a vector of other elements, and back.
                let (v, m) = &mut self.v[q];
                let mut o: Vd = make_all::<T::Other>(&m[..m.len().min(3)]).into();
                o.clone_from(v);
                ck!(o == *v && o.element_type_id() == TypeId::of::<T>(), "clone_from over another type");
                let mut o2: Vd = make_all::<T::Other>(m).into();
                o2.clone_from(&o);
                ck!(o2 == *v, "clone_from over another type");
                *v = o2;
            }
            5 => {
                // The clone lives on, the original goes.
                let (v, _) = &mut self.v[q];
                let c = v.clone();
                *v = c;
            }
            6 => {
                // The clone is changed, then goes.
                let (v, m) = &mut self.v[q];
                let mut c = v.clone();
                let p = T::canon(s.pay());
                ck!(c.push_as(T::make(p)).is_some(), "push_as: refused");
                ck!(c.fill(T::make(p)).is_some(), "fill: refused");
                if align_of::<T>() <= 8192 {
                    c.as_mut_slice().rotate_left(m.len() / 2);
                }
                if s.bool() {
                    c.clear();
                }
            }
            _ => {
                let m = self.v[q].1.clone();
                let x = self.v[q].0.clone_into_vec::<T>().ok_or("clone_into_vec: refused")?;
                self.after[r] = After::Any;
                self.v[r] = (x.into(), m);
            }
        }
        Ok(())
    }

    fn op_convert(&mut self, s: &mut Src, _pr: &Profile) -> R {
        let r = self.pick(s);
        let k = s.below(8);
        s.log(|| format!("v{} convert kind {}", r, k));
        s.count("convert");
        let (v, mut m) = std::mem::replace(&mut self.v[r], (Vd::with_type::<T>(), Vec::new()));
        self.after[r] = After::Any;
        let nv: Vd = match k {
            0 | 1 => {
                let mut x = v.into_vec::<T>().ok_or("into_vec: refused")?;
                cke!(pays(&x), m, "into_vec");
                let p = self.pay(s);
                match s.below(5) {
                    0 => {
                        x.push(T::make(p));
                        m.push(p);
                    }
                    1 => {
                        let i = s.below(m.len() + 1);
                        x.insert(i, T::make(p));
                        m.insert(i, p);
                    }
                    2 if !m.is_empty() => {
                        let i = s.below(m.len());
                        x.remove(i);
                        m.remove(i);
                    }
                    3 => x.shrink_to_fit(),
                    _ => x.reserve(s.below(20)),
                }
                x.into()
            }
            2 => {
                let o: Option<Vec<T>> = v.into();
                let x = o.ok_or("Option::from: refused")?;
                cke!(pays(&x), m, "Option::from");
                Vd::from_vec(x)
            }
            3 => {
                let u: VecDyn<PartVTable> = v.upcast();
                cke!(u.len(), m.len(), "upcast: len");
                cke!(u.element_size(), size_of::<T>(), "upcast: element_size");
                ck!(u.element_type_id() == TypeId::of::<T>() && u.check_ref::<T>().is_some(), "upcast: type");
                ck!(u == u.clone(), "upcast: unequal to its clone");
                let w: VecDyn<DropVTable> = u.upcast();
                let x = w.into_vec::<T>().ok_or("upcast: type lost")?;
                cke!(pays(&x), m, "upcast");
                x.into()
            }
            4 => {
                let d = into_dyn![VecDyn<dyn HasFull>](v);
                cke!(d.len(), m.len(), "into_dyn: len");
                cke!(d.as_slice_as::<T>().map(pays), Some(m.clone()), "into_dyn");
                from_dyn![VecDyn<dyn HasFull as FullVTable>](d)
            }
            5 => {
                let (a, b) = v.into_raw_parts();
                unsafe { Vd::from_raw_parts(a, b) }
            }
            6 => v.check::<T>().ok_or("check: refused the right type")?,
            _ => {
                // Refused: everything is dropped.
                let o = match s.below(3) {
                    0 => v.into_vec::<T::Other>().is_some(),
                    1 => v.check::<T::Other>().is_some(),
                    _ => {
                        let o: Option<Vec<T::Other>> = v.into();
                        o.is_some()
                    }
                };
                ck!(!o, "converted to a vector of another type");
                m = Vec::new();
                Vd::with_type::<T>()
            }
        };
        self.v[r] = (nv, m);
        Ok(())
    }

    fn op_refuse(&mut self, s: &mut Src, _pr: &Profile) -> R {
        let r = self.pick(s);
        let k = s.below(16);
        let p = s.pay();
        s.log(|| format!("v{} refused op kind {}", r, k));
        s.count("refused");
        let n = self.v[r].1.len();
        let far = match s.below(5) {
            0 => n,
            1 => n + 1,
            2 => n + s.below(100),
            3 => usize::MAX,
            _ => (usize::MAX / size_of::<T>()).saturating_add(1 + s.below(n + 1)),
        };
        let v = &mut self.v[r].0;
        match k {
            0 => ck!(v.push_as(<T::Other>::make(p)).is_none(), "push_as: took another type"),
            1 => {
                let b: BoxValue<V> = BoxValue::new(<T::Other>::make(p));
                ck!(v.push(b).is_none(), "push: took another type");
            }
            2 => {
                let x = <T::Other>::make(p);
                ck!(v.push_cloned(ValueRef::new(&x)).is_none(), "push_cloned: took another type");
            }
            3 => ck!(v.append(&mut self.o.0).is_none(), "append: took another type"),
            4 => ck!(self.o.0.append(v).is_none(), "append: took another type"),
            5 => ck!(v.resize(s.below(9), <T::Other>::make(p)).is_none(), "resize: took another type"),
            6 => ck!(v.fill(<T::Other>::make(p)).is_none(), "fill: took another type"),
            7 if n > 0 => {
                let x = <T::Other>::make(p);
                let i = s.below(n);
                ck!(v.get_mut(i).clone_from_other(ValueRef::new(&x)).is_err(), "clone_from_other: took another type");
                let mut x = x;
                let q = x.pay();
                v.get_mut(i).swap(&mut ValueMut::new(&mut x));
                cke!(x.pay(), q, "swap: swapped with another type");
            }
            8 if n > 0 => {
                // The value is dropped.
                let i = s.below(n);
                let b: BoxValue<V> = BoxValue::new(<T::Other>::make(p));
                v.get_mut(i).assign(b);
            }
            9 => {
                let x = make_all::<T::Other>(&vec![p; n]);
                ck!(v.as_mut_slice().clone_from_slice(&x).is_none(), "clone_from_slice: took another type");
            }
            10 => ck!(panics(|| drop(v.get(far).downcast::<T>().map(|x| x.pay()))), "get({}) of {}", far, n),
            11 => ck!(panics(|| drop(v.get_mut(far).downcast::<T>().map(|x| x.pay()))), "get_mut({}) of {}", far, n),
            12 => {
                let far = far.max(n + 1);
                ck!(panics(|| v.rotate_left(far)), "rotate_left({}) of {}", far, n);
                ck!(panics(|| v.rotate_right(far)), "rotate_right({}) of {}", far, n);
            }
            13 => {
                let far = far.max(n + 1);
                ck!(panics(|| v.as_slice().subslice(..far).len()), "subslice(..{}) of {}", far, n);
                ck!(panics(|| v.as_mut_slice().subslice_mut(far..).len()), "subslice_mut({}..) of {}", far, n);
                ck!(panics(|| v.as_slice().split_at(far).0.len()), "split_at({}) of {}", far, n);
            }
            14 => {
                if n > 0 {
                    let i = s.below(n);
                    ck!(panics(|| v.as_mut_slice().swap(i, far)), "swap({}, {}) of {}", i, far, n);
                }
                ck!(panics(|| v.as_slice().get(far).is::<T>()), "slice get({}) of {}", far, n);
            }
            _ => {
                ck!(panics(|| v.as_slice().chunks_exact(0).count()), "chunks_exact(0)");
                let x = make_all::<T>(&vec![p; n + 1]);
                ck!(panics(|| v.as_mut_slice().clone_from_slice(&x).is_some()), "clone_from_slice with another length");
            }
        }
        Ok(())
    }

    fn op_meta(&mut self, s: &mut Src, pr: &Profile) -> R {
        let (r, q) = (self.pick(s), self.pick(s));
        let k = s.below(8);
        s.log(|| format!("v{} = with_type_from v{} kind {}", r, q, k));
        s.count("meta");
        let i = self.idx(s, q);
        let src = &mut self.v[q].0;
        let mut n: Vd = match (k, i) {
            (0, _) => Vd::with_type_from(&*src),
            (1, _) => Vd::with_type_from(src.as_slice()),
            (2, _) => Vd::with_type_from(src.as_mut_slice()),
            (3, Some(i)) => Vd::with_type_from(src.get(i)),
            (4, Some(i)) => Vd::with_type_from(src.get_mut(i)),
            (5, _) => match self.pool.last() {
                Some((Val::Box(b), _)) => Vd::with_type_from(b.as_ref()),
                Some((Val::Small(b), _)) => Vd::with_type_from(b.as_ref()),
                None => return Ok(()),
            },
            (6, _) => {
                let x = make_all::<T>(&[1]);
                Vd::with_type_from(Slice::<V>::from_slice(&x))
            }
            _ => {
                let mut x = T::make(1);
                Vd::with_type_from(ValueMut::<V>::new(&mut x))
            }
        };
        let m = self.pays(s, pr);
        ck!(n.is_empty(), "with_type_from: not empty");
        for &p in &m {
            ck!(n.push_as(T::make(p)).is_some(), "with_type_from: refused the right type");
        }
        ck!(n.push_as(Alien(1)).is_none() && n.check_ref::<T::Other>().is_none(), "with_type_from: took another type");
        self.after[r] = After::Any;
        self.v[r] = (n, m);
        Ok(())
    }

    fn op_look(&mut self, s: &mut Src) -> R {
        let r = self.pick(s);
        let k = [7, 11, 12, 13, 22, 23, 7, 11, 12, 13, 22, 23, 0, 1, 20, 8][s.below(16)] + 24 * s.below(20);
        s.log(|| format!("look at v{} kind {}", r, k));
        s.count("look");
        let (v, m) = &mut self.v[r];
        check_vec::<T>(v, m, k)
    }

    fn op_other(&mut self, s: &mut Src) -> R {
        if self.o.1.len() < 12 {
            let p = <T::Other>::canon(s.pay());
            ck!(self.o.0.push_as(<T::Other>::make(p)).is_some(), "push_as: refused");
            self.o.1.push(p);
        } else {
            self.after[3] = After::Shorter(0);
            self.o.0.clear();
            self.o.1.clear();
        }
        Ok(())
    }

    pub fn step(&mut self, s: &mut Src, p: &Profile) -> R {
        self.step += 1;
        let w = [p.create, p.push, p.bulk, p.write, p.slice, p.value, p.clone, p.convert, p.refuse, p.meta, p.look, 1];
        match s.weighted(&w) {
            0 => self.op_create(s, p),
            1 => self.op_push(s, p),
            2 => self.op_bulk(s, p),
            3 => self.op_write(s, p),
            4 => self.op_slice(s, p),
            5 => self.op_value(s, p),
            6 => self.op_clone(s, p),
            7 => self.op_convert(s, p),
            8 => self.op_refuse(s, p),
            9 => self.op_meta(s, p),
            10 => self.op_look(s),
            _ => self.op_other(s),
        }
    }

    /// After an injected panic: everything is well formed, and what was not touched is unchanged.
    pub fn recover(&mut self) -> R {
        for i in 0..self.v.len() {
            let (v, m) = &mut self.v[i];
            recover_one::<T>(v, m, &self.after[i]).map_err(|e| format!("register {}: {}", i, e))?;
        }
        recover_one::<T::Other>(&mut self.o.0, &mut self.o.1, &self.after[3]).map_err(|e| format!("other register: {}", e))?;
        for (v, p) in &mut self.pool {
            let now = match v {
                Val::Box(b) => b.as_ref().downcast::<T>().map(|x| x.pay()),
                Val::Small(b) => b.as_ref().downcast::<T>().map(|x| x.pay()),
            };
            let now = now.ok_or("value lost its type after a panic")?;
            ck!(now != TORN, "value is dead after a panic");
            *p = now;
        }
        Ok(())
    }
}

fn recover_one<T: FullElt0>(v: &mut Vd, m: &mut Vec<u64>, after: &After) -> R {
    ck!(v.element_type_id() == TypeId::of::<T>(), "element_type_id after a panic");
    cke!(v.element_size(), size_of::<T>(), "element_size after a panic");
    let now = pays(v.as_slice_as::<T>().ok_or("type lost after a panic")?);
    cke!(now.len(), v.len(), "len after a panic");
    if let Some(e) = reg::violation() {
        return Err(format!("after a panic: {}", e));
    }
    ck!(!now.contains(&TORN), "holds a dead element after a panic");
    match after {
        After::Same => cke!(now, *m, "after a panic"),
        After::Prefix(l, p) => {
            ck!(now.len() >= *l && now[..*l] == m[..*l], "elements changed by a panic: {:?} was {:?}", now, m);
            ck!(now[*l..].iter().all(|x| x == p), "elements made up by a panic: {:?} was {:?}", now, m);
        }
        After::Shorter(l) => {
            ck!(now.len() >= *l && now.len() <= m.len() && now[..] == m[..now.len()],
                "elements changed by a panic: {:?} was {:?}", now, m);
        }
        After::Mixed(e) => {
            cke!(now.len(), m.len(), "length changed by a panic");
            ck!((0..now.len()).all(|j| now[j] == m[j] || now[j] == e[j]),
                "elements changed by a panic: {:?} was {:?}", now, m);
        }
        After::Any => {}
    }
    *m = now;
    Ok(())
}

/// One history over elements of type `T`.
pub fn history<T: FullElt>(s: &mut Src, p: &Profile) -> R
where
    T::Other: FullElt,
{
    s.log(|| format!("elements: {}", T::name()));
    let p = &p.stretched::<T>(s);
    let mut w = World::<T>::new();
    for i in 0..2 {
        let m = w.pays(s, p);
        w.v[i] = (make_all::<T>(&m).into(), m);
    }
    let n = s.range(1, p.max_ops);
    let mut most = 0;
    for _ in 0..n {
        w.after = vec![After::Same; 4];
        if p.panics > 0 && s.one_in(p.panics) {
            let kinds = [reg::CLONE, reg::DROP, reg::EQ | reg::HASH | reg::FMT, reg::CLONE | reg::DROP][s.below(4)];
            let at = s.len(8) as u32;
            s.log(|| format!("(panic at call {} of kinds {:x})", at, kinds));
            reg::arm(kinds, at);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(s, p)));
            let fired = !reg::armed();
            reg::disarm();
            match r {
                Ok(r) if !fired => r?,
                Ok(_) => {
                    // Caught by the operation itself (an expected rejection).
                    s.leak_ok = true;
                    w.recover()?;
                }
                Err(e) => {
                    if !reg::is_injected(&*e) {
                        std::panic::resume_unwind(e);
                    }
                    drop(e);
                    s.count("panicked");
                    s.log(|| "panicked".to_string());
                    s.leak_ok = true;
                    s.nontrivial = true;
                    w.recover()?;
                }
            }
            if s.leak_ok {
                // Elements may have been leaked: only what is held counts.
                if let Some(v) = reg::violation() {
                    return Err(v);
                }
                for i in 0..w.v.len() {
                    let (v, m) = &mut w.v[i];
                    check_vec::<T>(v, m, w.step + i).map_err(|e| format!("register {} after a panic: {}", i, e))?;
                }
                continue;
            }
        } else {
            w.step(s, p)?;
        }
        if s.leak_ok {
            let k = w.step;
            for i in 0..w.v.len() {
                let (v, m) = &mut w.v[i];
                check_vec::<T>(v, m, k + i).map_err(|e| format!("register {}: {}", i, e))?;
            }
        } else {
            w.check()?;
        }
        most = most.max(w.v.iter().map(|x| x.1.len()).max().unwrap());
    }
    if p.panics == 0 && most >= 2 && n >= 4 {
        s.nontrivial = true;
    }
    Ok(())
}
