//! Ownership under tables of every kind: the built-in ones, generated ones, and the pair table.
use crate::elts::*;
use crate::engine::*;
use crate::hist_dyn::Alien;
use crate::reg;
use crate::src::Src;
use crate::vt::*;
use dync::traits::*;
use dync::*;
use std::mem::size_of;

fn live(n: usize, what: &str) -> R {
    cke!(reg::live(), n as i64, "live elements after {}", what);
    Ok(())
}

/// A life of vectors, slices and values of `T` with a table that is only known to drop.
pub fn life<T: FullElt, V>(s: &mut Src) -> R
where
    V: HasDrop + VTable<T> + VTable<Alien> + 'static,
{
    let m = s.pays(8);
    s.log(|| format!("{} elements of {} with {}", m.len(), T::name(), std::any::type_name::<V>()));
    s.count("table life");
    let mut n = m.len();
    let mut m = canon_all::<T>(&m);
    let mut v: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&m));
    live(n, "creation")?;
    for _ in 0..s.below(8) {
        let k = s.below(12);
        let p = T::canon(s.pay());
        s.log(|| format!("life op {}", k));
        match k {
            0 => {
                ck!(v.push_as(T::make(p)).is_some(), "push_as: refused");
                m.push(p);
                n += 1;
            }
            1 => {
                let b: BoxValue<V> = BoxValue::new(T::make(p));
                ck!(v.push(b).is_some(), "push: refused");
                m.push(p);
                n += 1;
            }
            2 => {
                v.clear();
                m.clear();
                n = 0;
            }
            3 => ck!(v.push_as(Alien(p)).is_none(), "push_as: took another type"),
            4 if n > 0 => {
                let i = s.below(n);
                let b: BoxValue<V> = BoxValue::new(T::make(p));
                v.get_mut(i).assign(b);
                m[i] = p;
            }
            5 if n > 0 => {
                let i = s.below(n);
                let b: BoxValue<V> = BoxValue::new(Alien(p));
                v.get_mut(i).assign(b);
            }
            6 => {
                let mut w: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&[p]));
                ck!(v.append(&mut w).is_some() && w.is_empty(), "append: refused");
                m.push(p);
                n += 1;
            }
            7 => {
                let b: BoxValue<V> = BoxValue::new(T::make(p));
                live(n + 1, "boxing a value")?;
                if s.bool() {
                    ck!(b.downcast::<Alien>().is_none(), "downcast to another type");
                    live(n, "a refused downcast")?;
                } else {
                    let b = b.downcast::<T>().ok_or("boxed value does not downcast to its type")?;
                    live(n + 1, "a downcast")?;
                    cke!(b.pay(), p, "downcast");
                }
            }
            8 => {
                let fits = size_of::<T>() == size_of::<usize>();
                let b = SmallValue::<V>::try_new(T::make(p));
                cke!(b.is_some(), fits, "SmallValue::try_new: accepted");
                live(n + fits as usize, "making a small value")?;
                if let Some(b) = b {
                    if s.bool() {
                        ck!(b.downcast::<Alien>().is_none(), "downcast to another type");
                        live(n, "a refused downcast")?;
                    } else {
                        let b = b.downcast::<T>().ok_or("small value does not downcast to its type")?;
                        live(n + 1, "a downcast")?;
                        cke!(b.pay(), p, "downcast");
                    }
                }
            }
            9 => {
                let x = v.into_vec::<T>().ok_or("into_vec: refused")?;
                cke!(pays(&x), m, "into_vec");
                live(n, "into_vec")?;
                v = x.into();
            }
            10 => {
                let (i, j) = (s.below(n.max(1)), s.below(n.max(1)));
                if n > 0 {
                    v.as_mut_slice().swap(i, j);
                    m.swap(i, j);
                }
                let mut x: Vec<T> = make_all(&[p, p]);
                {
                    let mut sl = SliceMut::<V>::from_slice(&mut x);
                    sl.rotate_left(1);
                    if n > 0 {
                        sl.get_mut(0).swap(&mut v.get_mut(0));
                    }
                    ck!(Slice::from(sl).get(1).is::<T>(), "slice: type lost");
                }
                if n > 0 {
                    cke!(x[0].pay(), m[0], "swap with a slice");
                    m[0] = p;
                }
                live(n + 2, "slice operations")?;
            }
            _ => {
                let ok = match s.below(3) {
                    0 => v.into_vec::<Alien>().is_some(),
                    1 => v.check::<Alien>().is_some(),
                    _ => {
                        let o: Option<Vec<Alien>> = v.into();
                        o.is_some()
                    }
                };
                ck!(!ok, "converted to a vector of another type");
                live(0, "a refused conversion")?;
                v = VecDyn::with_type::<T>();
                m.clear();
                n = 0;
            }
        }
        live(n, "the operation")?;
        cke!(v.as_slice_as::<T>().map(pays), Some(m.clone()), "contents");
    }
    if n >= 1 {
        s.nontrivial = true;
    }
    if s.bool() {
        drop(v);
        live(0, "dropping the vector")?;
    }
    Ok(())
}

pub fn any_life<T: FullElt>(s: &mut Src) -> R {
    match s.below(10) {
        0 => life::<T, DropVTable>(s),
        1 => life::<T, CloneVTable>(s),
        2 => life::<T, PartialEqVTable>(s),
        3 => life::<T, EqVTable>(s),
        4 => life::<T, HashVTable>(s),
        5 => life::<T, DebugVTable>(s),
        6 => life::<T, FullVTable>(s),
        7 => life::<T, PartVTable>(s),
        8 => life::<T, (DropFn, FullVTable)>(s),
        _ => life::<T, (DropFn, CloneVTable)>(s),
    }
}
