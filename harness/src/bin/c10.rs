use dync::traits::*;
use dync::*;
use std::cell::Cell;
use std::rc::Rc;
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::hist_dyn::*;
use vh::src::Src;
use vh::values::*;
use vh::vt::*;
use vh::{ck, cke, pick};

/// Counts its generation: a clone is one generation later than its original.
#[derive(Debug, PartialEq, Eq, Hash)]
struct Gen<const N: usize> {
    pay: u64,
    gen: [u32; N],
}
impl<const N: usize> Gen<N> {
    fn new(pay: u64) -> Self {
        Gen { pay, gen: [0; N] }
    }
}
impl<const N: usize> Clone for Gen<N> {
    fn clone(&self) -> Self {
        let mut gen = self.gen;
        for g in &mut gen {
            *g += 1;
        }
        Gen { pay: self.pay, gen }
    }
}

fn same<const N: usize>(x: &[Gen<N>], m: &[(u64, u32)], what: &str) -> R {
    let got: Vec<(u64, u32)> = x.iter().map(|x| (x.pay, if x.gen == [x.gen[0]; N] { x.gen[0] } else { u32::MAX })).collect();
    cke!(got, m, "{}: (payload, number of clone calls)", what);
    Ok(())
}

/// Clones come from the type's own clone, called once for each element.
fn generations<const N: usize>(s: &mut Src) -> R {
    let mut m: Vec<(u64, u32)> = (if s.one_in(50) { s.pays(1500) } else { s.pays(10) }).into_iter().map(|p| (p, 0)).collect();
    let mut v: Vd = m.iter().map(|p| Gen::<N>::new(p.0)).collect::<Vec<_>>().into();
    s.log(|| format!("{} elements counting clones", m.len()));
    let up = |m: &[(u64, u32)]| m.iter().map(|x| (x.0, x.1 + 1)).collect::<Vec<_>>();
    for _ in 0..s.range(1, 8) {
        let k = s.below(13);
        s.log(|| format!("clone op {}", k));
        s.count("generation");
        match k {
            0 => {
                v = v.clone();
                m = up(&m);
            }
            1 => {
                let mut w: Vd = vec![Gen::<N>::new(1); s.below(12)].into();
                w.clone_from(&v);
                v = w;
                m = up(&m);
            }
            2 => {
                let mut w = Vd::with_type_from(&v);
                for e in v.iter() {
                    w.push_cloned(e);
                }
                v = w;
                m = up(&m);
            }
            3 => {
                let w: Vec<BoxValue<V>> = if s.bool() { v.iter().map(|x| x.clone_value()).collect() } else { v.iter_mut().map(|x| x.clone_value()).collect() };
                let c: Vec<BoxValue<V>> = w.iter().map(|x| x.clone()).collect();
                v.clear();
                for x in c {
                    v.push(x);
                }
                m = up(&up(&m));
                let x: Vec<Gen<N>> = w.into_iter().map(|x| *x.downcast().unwrap()).collect();
                same(&x, &m.iter().map(|x| (x.0, x.1 - 1)).collect::<Vec<_>>(), "clone_value")?;
            }
            4 => {
                let mut x = vec![Gen::<N>::new(5); m.len()];
                for (a, b) in x.iter_mut().zip(v.iter()) {
                    ck!(ValueMut::<V>::new(a).clone_from_other(b).is_ok(), "clone_from_other: refused");
                }
                same(&x, &up(&m), "clone_from_other")?;
            }
            5 => {
                let x = v.clone_into_vec::<Gen<N>>().ok_or("clone_into_vec: refused")?;
                same(&x, &up(&m), "clone_into_vec")?;
                let x = v.as_slice().clone_into_vec::<Gen<N>>().ok_or("clone_into_vec: refused")?;
                same(&x, &up(&m), "slice clone_into_vec")?;
                let x = v.as_mut_slice().clone_into_vec::<Gen<N>>().ok_or("clone_into_vec: refused")?;
                same(&x, &up(&m), "mutable slice clone_into_vec")?;
            }
            6 => {
                let mut x: Vec<Gen<N>> = Vec::new();
                v.append_cloned_to_vec(&mut x);
                v.as_slice().append_clone_to_vec(&mut x);
                v.as_mut_slice().append_clone_to_vec(&mut x);
                same(&x, &[up(&m), up(&m), up(&m)].concat(), "append of clones")?;
            }
            7 => {
                let x = v.into_vec::<Gen<N>>().ok_or("into_vec: refused")?;
                same(&x, &m, "into_vec")?;
                v = Vd::from_slice(&x);
                m = up(&m);
                if s.bool() {
                    v = Vd::from(v.as_slice_as::<Gen<N>>().ok_or("type lost")?);
                    m = up(&m);
                }
            }
            8 => {
                let x = v.into_vec::<Gen<N>>().ok_or("into_vec: refused")?;
                v = vec![Gen::<N>::new(5); m.len()].into();
                ck!(v.as_mut_slice().clone_from_slice(&x).is_some(), "clone_from_slice: refused");
                m = up(&m);
            }
            9 => {
                // Moves do not clone.
                let mut w: Vd = vec![Gen::<N>::new(77)].into();
                w.append(&mut v);
                w.rotate_left(1);
                v = w;
                m.push((77, 0));
                let x: VecDyn<PartVTable> = v.upcast();
                let x = x.into_vec::<Gen<N>>().ok_or("type lost")?;
                v = x.into();
            }
            10 => {
                let x: VecDyn<PartVTable> = v.upcast();
                let y = x.clone();
                same(y.as_slice_as::<Gen<N>>().ok_or("type lost")?, &up(&m), "clone of an upcast vector")?;
                v = x.into_vec::<Gen<N>>().ok_or("type lost")?.into();
            }
            11 => {
                // Clones of owned values into owned values of this or another type.
                for (j, e) in v.iter().enumerate() {
                    let b = e.clone_value();
                    let mut c = if s.bool() { BoxValue::<V>::new(Gen::<N>::new(7)) } else { BoxValue::<V>::new(Gen::<5>::new(7)) };
                    c.clone_from(&b);
                    let x = [*b.downcast::<Gen<N>>().ok_or("type lost")?, *c.downcast::<Gen<N>>().ok_or("type lost by clone_from")?];
                    same(&x, &[(m[j].0, m[j].1 + 1), (m[j].0, m[j].1 + 2)], "clone_from of an owned value")?;
                }
            }
            _ => {
                if N == 0 {
                    continue;
                }
                if let (Some(a), true) = (m.first(), std::mem::size_of::<Gen<N>>() == 8) {
                    let x = v.get(0).clone_small_value().downcast::<Gen<N>>().ok_or("type lost")?;
                    same(&[x], &up(&[*a]), "clone_small_value")?;
                }
            }
        }
        same(v.as_slice_as::<Gen<N>>().ok_or("type lost")?, &m, "contents")?;
    }
    s.nontrivial = m.len() > 1;
    Ok(())
}

/// Shared pointers: the number of owners says how many clones there are.
fn owners(s: &mut Src) -> R {
    let n = s.range(1, 8);
    let src: Vec<Rc<Cell<u64>>> = (0..n).map(|i| Rc::new(Cell::new(i as u64))).collect();
    let mut pool: Vec<VecDyn<CloneVTable>> = vec![VecDyn::from_slice(&src)];
    let mut counts = vec![2; n];
    for _ in 0..s.range(1, 12) {
        let i = s.below(pool.len());
        let k = s.below(10);
        s.log(|| format!("owner op {} on {}", k, i));
        s.count("owners");
        match k {
            0 | 1 if pool.len() < 5 => {
                let c = pool[i].clone();
                counts.iter_mut().for_each(|c| *c += 1);
                pool.push(c);
            }
            2 if pool.len() > 1 => {
                drop(pool.remove(i));
                counts.iter_mut().for_each(|c| *c -= 1);
            }
            3 if pool.len() > 1 => {
                let c = pool.remove(i);
                let j = s.below(pool.len());
                pool[j].clone_from(&c);
                pool.push(c);
            }
            4 => {
                // A change behind the pointer is seen by all, as for the typed vector.
                let j = s.below(n);
                let x = pool[i].get_ref_as::<Rc<Cell<u64>>>(j).ok_or("type lost")?;
                x.set(x.get() + 100);
                let e = x.get();
                for p in &pool {
                    cke!(p.get_ref_as::<Rc<Cell<u64>>>(j).map(|x| x.get()), Some(e), "value behind a shared pointer");
                }
            }
            5 | 6 => {
                // The value that was there before is released.
                let (j, l) = (s.below(n), s.below(n));
                let b = pool[i].get(j).clone_value();
                let mut c = pool[i].get(l).clone_value();
                if s.bool() {
                    c = BoxValue::new([1u8; 40]);
                    let mut d = BoxValue::<CloneVTable>::new(Rc::clone(&src[j]));
                    d.clone_from(&c);
                    ck!(d.is::<[u8; 40]>(), "clone_from of an owned value: type");
                }
                c.clone_from(&b);
                cke!(Rc::strong_count(&src[j]), counts[j] + 2, "owners after clone_from of an owned value");
                if j != l {
                    cke!(Rc::strong_count(&src[l]), counts[l], "owners of the value replaced by clone_from");
                }
                drop(b);
                ck!(c.downcast::<Rc<Cell<u64>>>().map_or(false, |x| Rc::ptr_eq(&x, &src[j])), "clone_from of an owned value");
            }
            7 => {
                let (j, l) = (s.below(n), s.below(n));
                let b = pool[i].get(j).clone_small_value();
                let mut c = pool[i].get(l).clone_small_value();
                if s.bool() {
                    c = SmallValue::new(1usize);
                    let mut d = SmallValue::<CloneVTable>::new(Rc::clone(&src[j]));
                    d.clone_from(&c);
                    ck!(d.is::<usize>(), "clone_from of a small value: type");
                }
                c.clone_from(&b);
                cke!(Rc::strong_count(&src[j]), counts[j] + 2, "owners after clone_from of a small value");
                if j != l {
                    cke!(Rc::strong_count(&src[l]), counts[l], "owners of the value replaced by clone_from");
                }
                drop(b);
                ck!(c.downcast::<Rc<Cell<u64>>>().map_or(false, |x| Rc::ptr_eq(&x, &src[j])), "clone_from of a small value");
            }
            8 => {
                // Over an element of another vector.
                let (j, l) = (s.below(n), s.below(n));
                let mut w = pool[i].clone();
                ck!(w.get_mut(j).clone_from_other(pool[i].get(l)).is_ok(), "clone_from_other: refused");
                cke!(Rc::strong_count(&src[j]), counts[j] + (j == l) as usize, "owners of the value cloned over");
                cke!(Rc::strong_count(&src[l]), counts[l] + 1 + (j != l) as usize, "owners of the value cloned");
                ck!(w.get_ref_as::<Rc<Cell<u64>>>(j).map_or(false, |x| Rc::ptr_eq(x, &src[l])), "clone_from_other: value");
            }
            _ => {
                let j = s.below(n);
                let b = pool[i].get(j).clone_value();
                let c = b.clone();
                cke!(Rc::strong_count(&src[j]), counts[j] + 2, "owners with two clones of a value");
                drop(b);
                drop(c);
            }
        }
        let got: Vec<usize> = src.iter().map(|x| Rc::strong_count(x)).collect();
        cke!(got, counts, "owners of each element");
    }
    drop(pool);
    ck!(src.iter().all(|x| Rc::strong_count(x) == 1), "clones left over");
    s.nontrivial = true;
    Ok(())
}

fn gens(s: &mut Src) -> R {
    match s.below(4) {
        0 => generations::<1>(s),
        1 => generations::<2>(s),
        2 => generations::<3>(s),
        _ => generations::<9>(s),
    }
}

fn case(s: &mut Src) -> R {
    match s.below(10) {
        0 => gens(s),
        1 => owners(s),
        2 | 3 => {
            let p = VProfile { clone: 9, ..VBALANCED };
            pick!(s, vhistory(&p); u64, [u8; 3], Tk12, TkBox, TkWord, [String; 3], Option<Box<u64>>, A4096, Tk64)
        }
        4 | 5 => {
            let c = CProfile { clone: 12, push: 6, bulk: 6, write: 6, ..CBALANCED };
            pick!(s, chistory(&c); u8, u64, [u8; 3], [u64; 3], Pad, A64, B32, (u8, u32))
        }
        _ => {
            let p = Profile { clone: 12, value: 6, write: 7, push: 6, bulk: 6, max_ops: 30, max_len: 14, ..BALANCED };
            pick!(s, history(&p); u64, [u8; 3], Tk4, Tk12, Tk24, TkBox, TkWord, Tk64, [String; 3], Option<Box<u64>>, Vec<u32>, A4096)
        }
    }
}
fn main() {
    vh::engine::main(&[("C10", case)])
}
