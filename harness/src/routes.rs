//! Ways of erasing a type and recovering it.
use crate::elts::*;
use crate::engine::*;
use crate::src::Src;
use crate::vt::*;
use dync::traits::*;
use dync::*;
use std::mem::size_of;

/// Hides any table.
pub trait Hidden {}
impl<T> Hidden for T {}

pub type P = PartVTable;
type Pd = VecDyn<P>;

fn lengths(s: &mut Src, size: usize) -> usize {
    let long = if size <= 4 { 70_000 } else { 60_000 / size.max(16) + 1 };
    match s.below(24) {
        0 => 0,
        1 => 1,
        2 | 3 => s.below(65),
        4 if s.one_in(8) => s.below(long),
        4 => s.below(300.min(long)),
        _ => s.len(16),
    }
}

/// Payloads of a sequence.
fn content<T: Elt>(s: &mut Src) -> Vec<u64> {
    let n = lengths(s, size_of::<T>());
    let kind = s.below(5);
    let first = s.pay();
    (0..n as u64)
        .map(|i| match kind {
            0 => first,
            1 => first.wrapping_add(i),
            2 if n <= 64 => s.pay(),
            _ => crate::src::mix(first.wrapping_add(i)),
        })
        .map(T::canon)
        .collect()
}

pub enum Form<T: Elt> {
    Typed(Vec<T>),
    Dyn(Pd),
    Boxes(Vec<BoxValue<P>>),
    Smalls(Vec<SmallValue<P>>),
}
use Form::*;

impl<T: Elt> Form<T> {
    fn len(&self) -> usize {
        match self {
            Typed(v) => v.len(),
            Dyn(v) => v.len(),
            Boxes(v) => v.len(),
            Smalls(v) => v.len(),
        }
    }
}

fn no(what: &str) -> String {
    format!("{}: refused", what)
}

fn erase<T: Elt>(s: &mut Src, v: Vec<T>) -> Result<Form<T>, String> {
    let n = v.len();
    let k = s.below(16);
    s.log(|| format!("typed -> {}", k));
    Ok(match k {
        0 => Dyn(Pd::from_vec(v)),
        1 => Dyn(v.into()),
        2 => Dyn(v.as_slice().into()),
        3 => Dyn(Pd::from_slice(&v)),
        4 => {
            let mut d = Pd::with_type::<T>();
            for x in v {
                d.push_as(x).ok_or(no("push_as"))?;
            }
            Dyn(d)
        }
        5 => {
            let mut d = Pd::with_capacity::<T>(s.below(n + 3));
            for x in v {
                d.push(BoxValue::<P>::new(x)).ok_or(no("push"))?;
            }
            Dyn(d)
        }
        6 => {
            let mut d = Pd::with_type::<T>();
            for x in &v {
                d.push_cloned(ValueRef::new(x)).ok_or(no("push_cloned"))?;
            }
            Dyn(d)
        }
        7 if n > 0 => {
            let mut d = Pd::with_size(n, v[n - 1].clone());
            d.as_mut_slice().clone_from_slice(&v).ok_or(no("clone_from_slice"))?;
            Dyn(d)
        }
        8 if n > 0 => {
            let mut d = Pd::with_type::<T>();
            d.resize(n, v[0].clone()).ok_or(no("resize"))?;
            for (i, x) in v.into_iter().enumerate() {
                *d.get_mut_as::<T>(i).ok_or(no("get_mut_as"))? = x;
            }
            Dyn(d)
        }
        9 if n > 0 => {
            let mut d = Pd::with_size(n, v[0].clone());
            for (i, x) in v.into_iter().enumerate() {
                d.get_mut(i).assign(BoxValue::<P>::new(x));
            }
            Dyn(d)
        }
        10 if n > 0 => {
            let mut d = Pd::with_size(n, v[0].clone());
            for (x, y) in d.iter_mut().zip(&v) {
                let mut x = x;
                x.clone_from_other(ValueRef::new(y)).map_err(|_| no("clone_from_other"))?;
            }
            Dyn(d)
        }
        11 if n > 0 => {
            let mut d = Pd::with_size(n, v[0].clone());
            let mut v = v;
            for (x, y) in d.iter_mut().zip(&mut v) {
                let mut x = x;
                x.swap(&mut ValueMut::new(y));
            }
            Dyn(d)
        }
        12 => {
            let mut d = Pd::with_type::<T>();
            for x in Slice::<P>::from_slice(&v).iter() {
                d.push(x.clone_value()).ok_or(no("push"))?;
            }
            Dyn(d)
        }
        13 => {
            let mid = s.below(n + 1);
            let mut v = v;
            let tail = v.split_off(mid);
            let mut d = Pd::from_vec(v);
            d.append(&mut Pd::from_vec(tail)).ok_or(no("append"))?;
            Dyn(d)
        }
        14 if size_of::<T>() == size_of::<usize>() && std::mem::align_of::<T>() <= std::mem::align_of::<usize>() => {
            if s.bool() {
                Smalls(v.into_iter().map(SmallValue::new).collect())
            } else {
                Smalls(v.into_iter().map(|x| SmallValue::try_new(x).ok_or(no("try_new"))).collect::<Result<_, _>>()?)
            }
        }
        _ => Boxes(v.into_iter().map(BoxValue::new).collect()),
    })
}

/// A typed vector that may hold something already, to append to.
fn begun<T: Elt>(s: &mut Src) -> (Vec<T>, Vec<u64>) {
    let h: Vec<u64> = (0..s.below(4)).map(|_| T::canon(s.pay())).collect();
    s.log(|| format!("  appending to a typed vector that holds {:?}", h));
    (make_all(&h), h)
}

/// What was appended to `h`.
fn rest_of<T: Elt>(mut v: Vec<T>, h: Vec<u64>) -> Result<Vec<T>, String> {
    ck!(v.len() >= h.len(), "appending lost what the vector held: {:?}", pays(&v));
    let r = v.split_off(h.len());
    cke!(pays(&v), h, "what the vector held before appending");
    Ok(r)
}

fn recover<T: Elt>(s: &mut Src, d: Pd) -> Result<Vec<T>, String> {
    let n = d.len();
    let mut d = d;
    let k = s.below(26);
    s.log(|| format!("vector -> typed {}", k));
    let fail = no(&format!("recovery route {}", k));
    Ok(match k {
        0 => d.into_vec::<T>().ok_or(fail)?,
        1 => Option::<Vec<T>>::from(d).ok_or(fail)?,
        2 => d.clone_into_vec::<T>().ok_or(fail)?,
        3 => d.as_slice_as::<T>().ok_or(fail)?.to_vec(),
        4 => d.as_mut_slice_as::<T>().ok_or(fail)?.to_vec(),
        5 => d.iter_as::<T>().ok_or(fail)?.cloned().collect(),
        6 => d.iter_mut_as::<T>().ok_or(fail)?.map(|x| x.clone()).collect(),
        7 => (0..n).map(|i| d.get_ref_as::<T>(i).cloned()).collect::<Option<_>>().ok_or(fail)?,
        8 => (0..n).map(|i| d.get(i).downcast::<T>().cloned()).collect::<Option<_>>().ok_or(fail)?,
        9 => (0..n).map(|i| d.get_mut(i).downcast::<T>().cloned()).collect::<Option<_>>().ok_or(fail)?,
        10 => d.iter().map(|x| x.downcast::<T>().cloned()).collect::<Option<_>>().ok_or(fail)?,
        11 => d.iter_mut().map(|x| x.downcast::<T>().cloned()).collect::<Option<_>>().ok_or(fail)?,
        12 => d.iter().map(|x| x.clone_value().downcast::<T>().map(|x| *x)).collect::<Option<_>>().ok_or(fail)?,
        13 => {
            // After whatever the vector holds already.
            let (mut out, h) = begun::<T>(s);
            d.append_cloned_to_vec(&mut out).ok_or(fail)?;
            rest_of(out, h)?
        }
        14 => d.as_slice().clone_into_vec::<T>().ok_or(fail)?,
        15 => d.as_mut_slice().clone_into_vec::<T>().ok_or(fail)?,
        16 => d.as_slice().as_slice::<T>().ok_or(fail)?.to_vec(),
        17 => d.as_slice().into_iter().map(|x| x.downcast::<T>().cloned()).collect::<Option<_>>().ok_or(fail)?,
        18 => d.as_mut_slice().into_iter().map(|x| x.downcast::<T>().cloned()).collect::<Option<_>>().ok_or(fail)?,
        19 => {
            // In chunks, with a rest.
            let c = s.range(1, 7);
            let sl = d.as_slice();
            let (mut out, h) = begun::<T>(s);
            for ch in sl.chunks_exact(c) {
                ch.append_clone_to_vec(&mut out).ok_or(fail.clone())?;
            }
            sl.subslice(n / c * c..).append_clone_to_vec(&mut out).ok_or(fail)?;
            rest_of(out, h)?
        }
        20 => {
            let mid = s.below(n + 1);
            let mut sl = d.as_mut_slice();
            let (mut a, b) = sl.split_at(mid);
            let mut out = a.as_slice::<T>().ok_or(fail.clone())?.to_vec();
            out.extend(b.clone_into_vec::<T>().ok_or(fail)?);
            out
        }
        21 => d.upcast::<DropVTable>().into_vec::<T>().ok_or(fail)?,
        22 => {
            let d = into_dyn![VecDyn<dyn HasDrop>](d);
            let d = from_dyn![VecDyn<dyn HasDrop as PartVTable>](d);
            d.into_vec::<T>().ok_or(fail)?
        }
        23 => into_dyn![VecDyn<dyn HasDrop>](d).into_vec::<T>().ok_or(fail)?,
        24 => d.check::<T>().ok_or(fail.clone())?.into_vec::<T>().ok_or(fail)?,
        _ => unsafe { (0..n).map(|i| d.get_unchecked_ref::<T>(i).clone()).collect() },
    })
}

fn step<T: Elt>(s: &mut Src, f: Form<T>) -> Result<Form<T>, String> {
    Ok(match f {
        Typed(v) => return erase(s, v),
        Dyn(d) => {
            let k = s.below(11);
            s.log(|| format!("vector -> {}", k));
            let mut d = d;
            match k {
                0 => Dyn(d.clone()),
                1 => {
                    let mut e = Pd::with_type_from(&d);
                    if s.bool() {
                        // In two parts.
                        let mid = s.below(d.len() + 1);
                        for x in d.as_slice().subslice(mid..).iter() {
                            e.push_cloned(x).ok_or(no("push_cloned"))?;
                        }
                        let mut f = Pd::with_type_from(&d);
                        for x in d.as_slice().subslice(..mid).iter() {
                            f.push(x.clone_value()).ok_or(no("push"))?;
                        }
                        f.append(&mut e).ok_or(no("append"))?;
                        ck!(e.is_empty(), "append left elements behind");
                        e = f;
                    } else {
                        e.append(&mut d).ok_or(no("append"))?;
                        ck!(d.is_empty(), "append left elements behind");
                    }
                    Dyn(e)
                }
                2 => {
                    let mut e = Pd::with_type_from(d.as_slice());
                    for x in d.iter() {
                        e.push_cloned(x).ok_or(no("push_cloned"))?;
                    }
                    Dyn(e)
                }
                3 => Boxes(d.iter().map(|x| x.clone_value()).collect()),
                4 => Boxes(d.iter_mut().map(|x| x.clone_value()).collect()),
                5 if size_of::<T>() == size_of::<usize>() => Smalls(d.iter().map(|x| x.clone_small_value()).collect()),
                6 if size_of::<T>() == size_of::<usize>() => Smalls(d.iter_mut().map(|x| x.clone_small_value()).collect()),
                7 => {
                    let mut e = Pd::with_type::<T>();
                    e.clone_from(&d);
                    Dyn(e)
                }
                8 => {
                    let n = d.len();
                    // (Rotation is only offered up to this alignment.)
                    if n > 0 && std::mem::align_of::<T>() <= 8192 {
                        let k = s.below(n + 1);
                        d.rotate_left(k);
                        d.rotate_right(k);
                    }
                    Dyn(d)
                }
                _ => Typed(recover(s, d)?),
            }
        }
        Boxes(v) => {
            let k = s.below(6);
            s.log(|| format!("boxes -> {}", k));
            match k {
                0 => Boxes(v.clone()),
                1 => {
                    let mut d = Pd::with_type::<T>();
                    for x in v {
                        d.push(x).ok_or(no("push"))?;
                    }
                    Dyn(d)
                }
                2 => {
                    let mut d = Pd::with_type::<T>();
                    for x in &v {
                        d.push_cloned(x.as_ref()).ok_or(no("push_cloned"))?;
                    }
                    Dyn(d)
                }
                3 => Typed(v.iter().map(|x| x.as_ref().downcast::<T>().cloned().ok_or(no("as_ref"))).collect::<Result<_, _>>()?),
                4 => Typed(
                    v.into_iter().map(|mut x| x.as_mut().downcast::<T>().map(|x| x.clone()).ok_or(no("as_mut"))).collect::<Result<_, _>>()?,
                ),
                _ => Typed(v.into_iter().map(|x| x.downcast::<T>().map(|x| *x).ok_or(no("downcast"))).collect::<Result<_, _>>()?),
            }
        }
        Smalls(v) => {
            let k = s.below(5);
            s.log(|| format!("small values -> {}", k));
            match k {
                0 => Smalls(v.clone()),
                1 => {
                    let mut d = Pd::with_type::<T>();
                    for x in &v {
                        d.push_cloned(x.as_ref()).ok_or(no("push_cloned"))?;
                    }
                    Dyn(d)
                }
                2 => Boxes(v.iter().map(|x| x.as_ref().clone_value()).collect()),
                3 => Typed(v.iter().map(|x| x.as_ref().downcast::<T>().cloned().ok_or(no("as_ref"))).collect::<Result<_, _>>()?),
                _ => Typed(v.into_iter().map(|x| x.downcast::<T>().ok_or(no("downcast"))).collect::<Result<_, _>>()?),
            }
        }
    })
}

fn back<T: Elt>(s: &mut Src, f: Form<T>) -> Result<Vec<T>, String> {
    let mut f = f;
    loop {
        f = match f {
            Typed(v) => return Ok(v),
            Dyn(d) => Typed(recover(s, d)?),
            f => step(s, f)?,
        };
        // A tape of zeros must end as well.
        if let Boxes(v) = f {
            f = Typed(v.into_iter().map(|x| x.downcast::<T>().map(|x| *x).ok_or(no("downcast"))).collect::<Result<_, _>>()?);
        } else if let Smalls(v) = f {
            f = Typed(v.into_iter().map(|x| x.downcast::<T>().ok_or(no("downcast"))).collect::<Result<_, _>>()?);
        }
    }
}

/// A chain of erased forms that ends where it began.
pub fn chain<T: Elt>(s: &mut Src) -> R {
    let m = content::<T>(s);
    let n = if m.len() > 400 { s.range(1, 2) } else { s.range(1, 6) };
    s.log(|| format!("{} elements of {}: {:?}", m.len(), T::name(), m));
    s.count("chain");
    let mut f: Form<T> = Typed(make_all(&m));
    for i in 0..n {
        f = step(s, f).map_err(|e| format!("step {}: {}", i, e))?;
        cke!(f.len(), m.len(), "number of elements after step {}", i);
    }
    let v = back(s, f)?;
    cke!(pays(&v), m, "elements after {} steps", n);
    s.nontrivial = !m.is_empty();
    Ok(())
}

// --- plain data ---------------------------------------------------------------------------

pub enum CForm<T: CopyElt> {
    CTyped(Vec<T>),
    Tabled(VecCopy<P>),
    Bare(VecCopy),
}
use CForm::*;

fn cerase<T: CopyElt, V: VTable<T> + Clone>(s: &mut Src, v: Vec<T>) -> Result<VecCopy<V>, String> {
    let n = v.len();
    let k = s.below(15);
    s.log(|| format!("typed -> plain {}", k));
    Ok(match k {
        0 => VecCopy::from_vec(v),
        1 => v.into(),
        2 => v.as_slice().into(),
        3 => VecCopy::from_slice(&v),
        4 => {
            let mut d = VecCopy::with_type::<T>();
            for x in v {
                d.push_as(x).ok_or(no("push_as"))?;
            }
            d
        }
        5 => {
            let mut d = VecCopy::with_capacity::<T>(s.below(n + 3));
            for x in &v {
                d.push(CopyValueRef::<V>::new(x)).ok_or(no("push"))?;
            }
            d
        }
        6 => {
            let mut d = VecCopy::with_type::<T>();
            d.extend(hinted(s, SliceCopy::<V>::from_slice(&v).iter()));
            d
        }
        7 if n > 0 => hinted(s, SliceCopy::<V>::from_slice(&v).iter()).collect(),
        8 if n > 0 => {
            let mut d = VecCopy::with_size(n, v[n - 1]);
            d.as_mut_slice().copy_from_slice(&v).ok_or(no("copy_from_slice"))?;
            d
        }
        9 => {
            let mut d = VecCopy::with_type::<T>();
            d.copy_from_slice(&v).ok_or(no("copy_from_slice"))?;
            d
        }
        10 if n > 0 => {
            let mut d = VecCopy::with_type::<T>();
            d.resize(n, v[0]).ok_or(no("resize"))?;
            for (i, x) in v.into_iter().enumerate() {
                *d.get_mut_as::<T>(i).ok_or(no("get_mut_as"))? = x;
            }
            d
        }
        11 if n > 0 => {
            let mut d = VecCopy::with_size(n, v[0]);
            for (x, y) in d.iter_mut().zip(&v) {
                x.copy(CopyValueRef::new(y)).ok_or(no("copy"))?;
            }
            d
        }
        12 if n > 0 => {
            let mut d: VecCopy<V> = VecCopy::with_size(n, v[0]);
            let mut v = v;
            let mut w = SliceCopyMut::<V>::from_slice(&mut v);
            for i in 0..n {
                d.get_mut(i).swap(&mut w.get_mut(i));
            }
            d
        }
        13 => {
            let mid = s.below(n + 1);
            let mut d: VecCopy<V> = VecCopy::from_slice(&v[..mid]);
            d.append(&mut VecCopy::from_slice(&v[mid..])).ok_or(no("append"))?;
            d
        }
        _ => {
            let mut d: VecCopy<V> = VecCopy::with_type::<T>();
            d.reserve(n / 2);
            for x in SliceCopy::<V>::from_slice(&v).into_iter() {
                d.push(x).ok_or(no("push"))?;
            }
            d
        }
    })
}

fn crecover<T: CopyElt, V: Clone + std::any::Any>(s: &mut Src, d: VecCopy<V>) -> Result<Vec<T>, String> {
    let n = d.len();
    let mut d = d;
    let k = s.below(24);
    s.log(|| format!("plain -> typed {}", k));
    let fail = no(&format!("recovery route {}", k));
    Ok(match k {
        0 => d.into_vec::<T>().ok_or(fail)?,
        1 => Option::<Vec<T>>::from(d).ok_or(fail)?,
        2 => d.copy_into_vec::<T>().ok_or(fail)?,
        3 => d.as_slice_as::<T>().ok_or(fail)?.to_vec(),
        4 => d.as_mut_slice_as::<T>().ok_or(fail)?.to_vec(),
        5 => d.iter_as::<T>().ok_or(fail)?.copied().collect(),
        6 => d.iter_mut_as::<T>().ok_or(fail)?.map(|x| *x).collect(),
        7 => (0..n).map(|i| d.get_as::<T>(i)).collect::<Option<_>>().ok_or(fail)?,
        8 => (0..n).map(|i| d.get_ref_as::<T>(i).copied()).collect::<Option<_>>().ok_or(fail)?,
        9 => (0..n).map(|i| d.get_ref(i).downcast::<T>().copied()).collect::<Option<_>>().ok_or(fail)?,
        10 => (0..n).map(|i| d.get_mut(i).downcast::<T>().map(|x| *x)).collect::<Option<_>>().ok_or(fail)?,
        11 => d.iter().map(|x| x.downcast::<T>().copied()).collect::<Option<_>>().ok_or(fail)?,
        12 => d.iter_mut().map(|x| x.downcast::<T>().map(|x| *x)).collect::<Option<_>>().ok_or(fail)?,
        13 => {
            let (mut out, h) = begun::<T>(s);
            d.append_copy_to_vec(&mut out).ok_or(fail)?;
            rest_of(out, h)?
        }
        14 => d.as_slice().copy_into_vec::<T>().ok_or(fail)?,
        15 => d.as_mut_slice().copy_into_vec::<T>().ok_or(fail)?,
        16 => d.as_slice().into_iter().map(|x| x.downcast::<T>().copied()).collect::<Option<_>>().ok_or(fail)?,
        17 => d.as_mut_slice().into_iter().map(|x| x.downcast::<T>().map(|x| *x)).collect::<Option<_>>().ok_or(fail)?,
        18 => {
            let c = s.range(1, 7);
            let sl = d.as_slice();
            let (mut out, h) = begun::<T>(s);
            for ch in sl.chunks_exact(c) {
                ch.append_copy_to_vec(&mut out).ok_or(fail.clone())?;
            }
            sl.subslice(n / c * c..).append_copy_to_vec(&mut out).ok_or(fail)?;
            rest_of(out, h)?
        }
        19 => {
            let mid = s.below(n + 1);
            let mut sl = d.as_mut_slice();
            let (mut a, b) = sl.split_at(mid);
            let mut out = a.as_slice::<T>().ok_or(fail.clone())?.to_vec();
            out.extend(b.copy_into_vec::<T>().ok_or(fail)?);
            out
        }
        20 => d.check::<T>().ok_or(fail.clone())?.into_vec::<T>().ok_or(fail)?,
        21 => d.upcast_with(|_| 3u8).into_vec::<T>().ok_or(fail)?,
        22 => {
            let d = into_dyn![VecCopy<dyn Hidden>](d);
            d.into_vec::<T>().ok_or(fail)?
        }
        _ => {
            // The raw bytes of each element.
            let mut out = Vec::new();
            let (d, _) = d.into_raw_parts();
            for i in 0..n {
                let b = d.get_bytes(i);
                ck!(b.len() == size_of::<T>(), "get_bytes: length");
                out.push(unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) });
            }
            ck!(d.byte_chunks().count() == n, "byte_chunks: count");
            out
        }
    })
}

fn cstep<T: CopyElt>(s: &mut Src, f: CForm<T>) -> Result<CForm<T>, String> {
    Ok(match f {
        CTyped(v) => {
            if s.bool() {
                Tabled(cerase(s, v)?)
            } else {
                Bare(cerase(s, v)?)
            }
        }
        Tabled(d) => match s.below(6) {
            0 => Tabled(d.clone()),
            1 => {
                let mut d = d;
                let mut e = VecCopy::with_type_from(&d);
                let mid = if s.bool() { s.below(d.len() + 1) } else { 0 };
                e.extend(d.as_slice().subslice(..mid).iter());
                let mut f = VecCopy::with_type_from(&d);
                f.extend(d.as_slice().subslice(mid..).iter());
                if mid == 0 {
                    std::mem::swap(&mut d, &mut f);
                }
                e.append(&mut f).ok_or(no("append"))?;
                ck!(f.is_empty(), "append left elements behind");
                Tabled(e)
            }
            2 => Bare(d.upcast_with(|_| ())),
            3 => {
                let mut e = VecCopy::<()>::with_type::<T>();
                for x in d.iter() {
                    e.push(x).ok_or(no("push"))?;
                }
                Bare(e)
            }
            _ => CTyped(crecover(s, d)?),
        },
        Bare(d) => match s.below(6) {
            0 => Bare(d.clone()),
            1 => {
                let mut e = VecCopy::with_type_from(d.as_slice());
                e.extend(d.iter());
                Bare(e)
            }
            2 => {
                let mut e = VecCopy::<P>::with_type::<T>();
                for x in d.iter() {
                    e.push(x).ok_or(no("push"))?;
                }
                Tabled(e)
            }
            _ => CTyped(crecover(s, d)?),
        },
    })
}

pub fn cchain<T: CopyElt>(s: &mut Src) -> R {
    let m = content::<T>(s);
    let n = if m.len() > 400 { s.range(1, 2) } else { s.range(1, 6) };
    s.log(|| format!("{} plain elements of {}: {:?}", m.len(), T::name(), m));
    s.count("plain chain");
    let mut f: CForm<T> = CTyped(make_all(&m));
    for i in 0..n {
        f = cstep(s, f).map_err(|e| format!("step {}: {}", i, e))?;
        let l = match &f {
            CTyped(v) => v.len(),
            Tabled(v) => v.len(),
            Bare(v) => v.len(),
        };
        cke!(l, m.len(), "number of elements after step {}", i);
    }
    let v: Vec<T> = match f {
        CTyped(v) => v,
        Tabled(d) => crecover(s, d)?,
        Bare(d) => crecover(s, d)?,
    };
    cke!(pays(&v), m, "elements after {} steps", n);
    s.nontrivial = !m.is_empty();
    Ok(())
}
