use dync::traits::*;
use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::hist_dyn::*;
use vh::reg;
use vh::src::Src;
use vh::values::*;
use vh::{ck, cke, pick};

/// A panic that is not the element's.
struct Foreign;

fn foreign<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) if p.is::<Foreign>() => Err(()),
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn boom() -> ! {
    std::panic::panic_any(Foreign)
}

/// A table whose construction from another one panics.
#[derive(Clone)]
struct Bad(DropVTable);
impl From<V> for Bad {
    fn from(_: V) -> Bad {
        boom()
    }
}
impl HasDrop for Bad {
    fn drop_fn(&self) -> &DropFn {
        self.0.drop_fn()
    }
}
/// A table whose construction for an element type panics.
struct NoBuild(DropVTable);
impl<T> VTable<T> for NoBuild {
    fn build_vtable() -> Self {
        boom()
    }
}
impl HasDrop for NoBuild {
    fn drop_fn(&self) -> &DropFn {
        self.0.drop_fn()
    }
}
thread_local! {
    static CLONES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// A table whose clone panics when its count runs out.
struct OneShot(CloneVTable);
impl Clone for OneShot {
    fn clone(&self) -> Self {
        let n = CLONES.with(|c| c.replace(c.get().saturating_sub(1)));
        if n == 1 {
            boom()
        }
        OneShot(self.0.clone())
    }
}
impl<T: Clone + 'static> VTable<T> for OneShot {
    fn build_vtable() -> Self {
        OneShot(<CloneVTable as VTable<T>>::build_vtable())
    }
}
impl HasDrop for OneShot {
    fn drop_fn(&self) -> &DropFn {
        self.0.drop_fn()
    }
}
impl HasClone for OneShot {
    fn clone_fn(&self) -> &CloneFn {
        self.0.clone_fn()
    }
    fn clone_from_fn(&self) -> &CloneFromFn {
        self.0.clone_from_fn()
    }
    fn clone_into_raw_fn(&self) -> &CloneIntoRawFn {
        self.0.clone_into_raw_fn()
    }
}

fn sane(what: &str) -> R {
    match reg::violation() {
        Some(v) => Err(format!("after {}: {}", what, v)),
        None => Ok(()),
    }
}

/// Panics in what else a user supplies: iterators, closures, tables.
fn others<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let m = canon_all::<T>(&s.pays(8));
    let x: Vec<T> = make_all(&m);
    let k = s.below(9);
    s.log(|| format!("foreign panic {} with {} elements of {}", k, m.len(), T::name()));
    s.count("foreign panic");
    s.leak_ok = true;
    s.nontrivial = true;
    let n = m.len() as i64;
    match k {
        0 => {
            let v: Vd = x.into();
            ck!(foreign(|| v.upcast::<Bad>()).is_err(), "upcast: the panic was lost");
            ck!((0..=n).contains(&reg::live()), "{} live elements of {}", reg::live(), n);
        }
        1 => {
            ck!(foreign(|| VecDyn::<NoBuild>::from_vec(x)).is_err(), "from_vec: the panic was lost");
            ck!((0..=n).contains(&reg::live()), "{} live elements of {}", reg::live(), n);
        }
        2 => {
            let p = T::make(1);
            ck!(foreign(|| BoxValue::<NoBuild>::new(p)).is_err(), "BoxValue::new: the panic was lost");
            ck!((0..=n + 1).contains(&reg::live()), "{} live elements of {}", reg::live(), n + 1);
            if std::mem::size_of::<T>() == 8 {
                let p = T::make(1);
                ck!(foreign(|| SmallValue::<NoBuild>::new(p)).is_err(), "SmallValue::new: the panic was lost");
            }
            cke!(pays(&x), m, "bystanders");
        }
        3 => {
            let mut x = x;
            ck!(foreign(|| Slice::<NoBuild>::from_slice(&x).len()).is_err(), "from_slice: the panic was lost");
            ck!(foreign(|| SliceMut::<NoBuild>::from_slice(&mut x).len()).is_err(), "from_slice: the panic was lost");
            ck!(foreign(|| Slice::<V>::from_slice(&x).upcast::<Bad>().len()).is_err(), "slice upcast: the panic was lost");
            ck!(foreign(|| SliceMut::<V>::from_slice(&mut x).upcast::<Bad>().len()).is_err(), "slice upcast: the panic was lost");
            for i in 0..x.len() {
                ck!(foreign(|| ValueRef::<V>::new(&x[i]).upcast::<Bad>().size()).is_err(), "value upcast: the panic was lost");
                ck!(foreign(|| ValueMut::<V>::new(&mut x[i]).upcast_mut::<Bad>().size()).is_err(), "value upcast: the panic was lost");
            }
            cke!(pays(&x), m, "elements of the slice");
            cke!(reg::live(), n, "live elements");
        }
        4 => {
            let p = T::make(1);
            let b: BoxValue<V> = BoxValue::new(p);
            ck!(foreign(|| b.upcast::<Bad>()).is_err(), "boxed value upcast: the panic was lost");
            ck!((n..=n + 1).contains(&reg::live()), "{} live elements of {}", reg::live(), n + 1);
            if std::mem::size_of::<T>() == 8 {
                let b: SmallValue<V> = SmallValue::new(T::make(1));
                ck!(foreign(|| b.upcast::<Bad>()).is_err(), "small value upcast: the panic was lost");
            }
            sane("an upcast")?;
            cke!(pays(&x), m, "bystanders");
        }
        5 | 6 => {
            // The table's own clone panics while elements are cloned.
            let v: VecDyn<OneShot> = x.into();
            let at = s.range(1, 3) as u32;
            CLONES.with(|c| c.set(at));
            let r = foreign(|| if k == 5 {
                let w = v.clone();
                let z = v.clone();
                let y = v.clone();
                w.len() + z.len() + y.len()
            } else {
                v.iter().map(|x| x.clone_value().size()).sum::<usize>() + VecDyn::<OneShot>::with_type_from(v.as_slice()).len()
            });
            CLONES.with(|c| c.set(0));
            let _ = r;
            sane("a clone")?;
            cke!(v.as_slice_as::<T>().map(pays), Some(m.clone()), "original after a panic in a clone");
            let w = v.clone();
            cke!(w.as_slice_as::<T>().map(pays), Some(m.clone()), "clone after a panic in a clone");
        }
        7 => {
            // Plain data vectors.
            let q = s.pays(8);
            let mut v: Vc = make_all::<[u8; 3]>(&q).into();
            let q = canon_all::<[u8; 3]>(&q);
            let add = make_all::<[u8; 3]>(&s.pays(8));
            let at = s.below(add.len() + 1);
            let mut i = 0;
            let mut it = add.iter().map(|e| {
                if i == at {
                    boom()
                }
                i += 1;
                CopyValueRef::<Tab>::new(e)
            });
            let it = std::iter::from_fn(|| match it.next() {
                None => boom(),
                x => x,
            });
            if s.bool() {
                ck!(foreign(|| v.extend(it)).is_err(), "extend: the panic was lost");
                let now = pays(v.as_slice_as::<[u8; 3]>().ok_or("type lost")?);
                let all = [q.clone(), pays(&add)].concat();
                ck!(now.len() >= q.len() && now.len() <= q.len() + at && now[..] == all[..now.len()], "extend with a panic: {:?} of {:?}", now, all);
            } else {
                ck!(foreign(|| it.collect::<Vc>().len()).is_err(), "collect: the panic was lost");
                cke!(v.as_slice_as::<[u8; 3]>().map(pays), Some(q), "bystander");
            }
            ck!(v.push_as([1u8; 3]).is_some() && v.capacity() >= v.len(), "unusable after a panic");
        }
        _ => {
            let v: Vc = make_all::<[u64; 3]>(&m).into();
            ck!(foreign(|| v.upcast_with(|_| -> () { boom() })).is_err(), "upcast_with: the panic was lost");
            let mut y = make_all::<[u64; 3]>(&m);
            ck!(foreign(|| SliceCopyMut::<NoBuild>::from_slice(&mut y).len()).is_err(), "from_slice: the panic was lost");
            ck!(foreign(|| VecCopy::<NoBuild>::from_slice(&y).len()).is_err(), "from_slice: the panic was lost");
            ck!(foreign(|| VecCopy::<NoBuild>::from_vec(y.clone()).len()).is_err(), "from_vec: the panic was lost");
            cke!(pays(&y), m, "bystander");
        }
    }
    sane("a foreign panic")
}

fn case(s: &mut Src) -> R {
    match s.below(10) {
        0 => pick!(s, others(); Tk8, Tk12, TkBox, TkWord, Tk64),
        1 | 2 => {
            let p = VProfile { panics: 2, max_ops: 24, ..VBALANCED };
            pick!(s, vhistory(&p); Tk4, Tk8, Tk12, Tk24, TkBox, TkWord, Tk64, Tk0, Tk0a)
        }
        _ => {
            let p = Profile { panics: 2, look: 6, refuse: 2, meta: 1, max_ops: 24, max_len: 12, ..BALANCED };
            pick!(s, history(&p); Tk8, Tk4, Tk12, Tk24, Tk64, TkBox, TkWord, Tk256, Tk40)
        }
    }
}
fn main() {
    vh::engine::main(&[("C14", case)])
}
