//! Histories of operations on untyped values and references to values, against typed values.
use crate::elts::*;
use crate::engine::*;
use crate::hist_copy::{SubTab, Tab};
use crate::hist_dyn::{Alien, Vd, V};
use crate::reg;
use crate::src::Src;
use crate::vt::*;
use dync::traits::*;
use dync::*;
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};

/// Where a value lives.
enum Spot<T: FullElt> {
    A(T),
    B(T::Other),
    U(()),
    S(String),
    Box(BoxValue<V>),
    Small(SmallValue<V>),
    /// The only element of a vector.
    Vec(Vd),
}

/// A value, its type and its payload.
struct Place<T: FullElt> {
    spot: Spot<T>,
    kind: usize,
    pay: u64,
}

macro_rules! with_kind {
    ($k:expr, $t:ident, $K:ident => $e:expr) => {
        match $k {
            0 => {
                type $K<$t> = $t;
                $e
            }
            1 => {
                type $K<$t> = <$t as Elt>::Other;
                $e
            }
            2 => {
                #[allow(type_alias_bounds)]
                type $K<$t> = <Fixed<(), $t> as Pick>::Out;
                $e
            }
            _ => {
                #[allow(type_alias_bounds)]
                type $K<$t> = <Fixed<String, $t> as Pick>::Out;
                $e
            }
        }
    };
}
/// Everything a value says about its type.
macro_rules! typed {
    ($v:expr, $T:ty, $what:expr) => {
        cke!($v.size(), size_of::<$T>(), "{}: size", $what);
        cke!($v.value_alignment(), align_of::<$T>(), "{}: alignment", $what);
        ck!($v.value_type_id() == TypeId::of::<$T>() && $v.is::<$T>() && !$v.is::<Alien>(), "{}: type", $what);
    };
}
pub struct Fixed<A, T>(std::marker::PhantomData<(A, T)>);
pub trait Pick {
    type Out;
}
impl<A, T> Pick for Fixed<A, T> {
    type Out = A;
}

impl<T: FullElt> Place<T> {
    fn val(&mut self) -> ValueMut<'_, V> {
        match &mut self.spot {
            Spot::A(x) => ValueMut::new(x),
            Spot::B(x) => ValueMut::new(x),
            Spot::U(x) => ValueMut::new(x),
            Spot::S(x) => ValueMut::new(x),
            Spot::Box(b) => b.as_mut(),
            Spot::Small(b) => b.as_mut(),
            Spot::Vec(v) => v.get_mut(0),
        }
    }
    fn get(&self) -> ValueRef<'_, V> {
        match &self.spot {
            Spot::A(x) => ValueRef::new(x),
            Spot::B(x) => ValueRef::new(x),
            Spot::U(x) => ValueRef::new(x),
            Spot::S(x) => ValueRef::new(x),
            Spot::Box(b) => b.as_ref(),
            Spot::Small(b) => b.into(),
            Spot::Vec(v) => v.get(0),
        }
    }
    /// Read without going through an untyped value where there is another way.
    fn typed(&self) -> Result<u64, String> {
        Ok(match &self.spot {
            Spot::A(x) => x.pay(),
            Spot::B(x) => x.pay(),
            Spot::U(_) => 0,
            Spot::S(x) => x.pay(),
            Spot::Vec(v) => with_kind!(self.kind, T, K => v.as_slice_as::<K<T>>().ok_or("vector lost its type")?[0].pay()),
            _ => with_kind!(self.kind, T, K => self.get().downcast::<K<T>>().ok_or("value lost its type")?.pay()),
        })
    }
    fn tracked(&self) -> bool {
        self.kind < 2 && T::TRACKED
    }
}

fn hash1(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn canon<T: FullElt>(kind: usize, p: u64) -> u64 {
    with_kind!(kind, T, K => <K<T> as Elt>::canon(p))
}

fn make_val<T: FullElt>(kind: usize, p: u64, small: bool) -> (Spot<T>, bool)
where
    T::Other: FullElt,
{
    with_kind!(kind, T, K => if small && size_of::<K<T>>() == size_of::<usize>() {
        (Spot::Small(SmallValue::new(<K<T> as Elt>::make(p))), true)
    } else {
        (Spot::Box(BoxValue::new(<K<T> as Elt>::make(p))), false)
    })
}

fn check_ref<T: FullElt>(v: ValueRef<V>, kind: usize, pay: u64, what: &str) -> R
where
    T::Other: FullElt,
{
    with_kind!(kind, T, K => {
        cke!(v.size(), size_of::<K<T>>(), "{}: size", what);
        cke!(v.value_alignment(), align_of::<K<T>>(), "{}: alignment", what);
        ck!(v.value_type_id() == TypeId::of::<K<T>>(), "{}: type id", what);
        ck!(v.is::<K<T>>(), "{}: is", what);
        ck!(!v.is::<Alien>() && v.clone().downcast::<Alien>().is_none(), "{}: taken for another type", what);
        for k in 0..4 {
            if k != kind {
                with_kind!(k, T, L => ck!(!v.is::<L<T>>() && v.clone().downcast::<L<T>>().is_none(), "{}: taken for another type", what));
            }
        }
        match v.downcast::<K<T>>() {
            Some(x) => {
                ck!(x as *const _ as usize % align_of::<K<T>>() == 0, "{}: misaligned", what);
                cke!(x.pay(), pay, "{}: value", what)
            }
            None => return Err(format!("{}: does not downcast to its type", what)),
        }
    });
    Ok(())
}

fn check_mut<T: FullElt>(v: ValueMut<V>, kind: usize, pay: u64, what: &str) -> R
where
    T::Other: FullElt,
{
    with_kind!(kind, T, K => {
        cke!(v.size(), size_of::<K<T>>(), "{}: size", what);
        cke!(v.value_alignment(), align_of::<K<T>>(), "{}: alignment", what);
        ck!(v.value_type_id() == TypeId::of::<K<T>>(), "{}: type id", what);
        ck!(v.is::<K<T>>() && !v.is::<Alien>(), "{}: is", what);
        match v.downcast::<K<T>>() {
            Some(x) => cke!(x.pay(), pay, "{}: value", what),
            None => return Err(format!("{}: does not downcast to its type", what)),
        }
    });
    Ok(())
}

#[derive(Clone, Copy)]
pub struct VProfile {
    pub max_ops: usize,
    pub panics: usize,
    /// Weight of clones.
    pub clone: u32,
    /// Weight of refused and consuming operations.
    pub refuse: u32,
    /// Weight of upcasts of owners among these.
    pub upcast: u32,
}
pub const VBALANCED: VProfile = VProfile { max_ops: 40, panics: 0, clone: 3, refuse: 2, upcast: 1 };

struct Pool<T: FullElt> {
    p: Vec<Place<T>>,
    step: usize,
    /// What place `i` may hold after a panic, besides what it held.
    may: Vec<(usize, Option<u64>)>,
}

impl<T: FullElt> Pool<T>
where
    T::Other: FullElt,
{
    fn two(&mut self, a: usize, b: usize) -> (&mut Place<T>, &mut Place<T>) {
        if a < b {
            let (x, y) = self.p.split_at_mut(b);
            (&mut x[a], &mut y[0])
        } else {
            let (x, y) = self.p.split_at_mut(a);
            (&mut y[0], &mut x[b])
        }
    }
    fn pay(&self, s: &mut Src, kind: usize) -> u64 {
        canon::<T>(kind, s.pay())
    }

    fn new_place(&mut self, s: &mut Src) -> Place<T> {
        let kind = [0, 0, 0, 1, 1, 2, 3][s.below(7)];
        let pay = self.pay(s, kind);
        let spot = match s.below(5) {
            0 => match kind {
                0 => Spot::A(T::make(pay)),
                1 => Spot::B(<T::Other>::make(pay)),
                2 => Spot::U(()),
                _ => Spot::S(String::make(pay)),
            },
            1 if with_kind!(kind, T, K => size_of::<K<T>>()) > 0 => Spot::Vec(with_kind!(kind, T, K => Vd::from_vec(vec![<K<T> as Elt>::make(pay)]))),
            2 => make_val::<T>(kind, pay, true).0,
            _ => make_val::<T>(kind, pay, false).0,
        };
        Place { spot, kind, pay }
    }

    fn check(&mut self) -> R {
        let k = self.step;
        for (i, p) in self.p.iter_mut().enumerate() {
            cke!(p.typed()?, p.pay, "place {}", i);
            let (kind, pay) = (p.kind, p.pay);
            match (k + i) % 6 {
                0 => check_ref::<T>(p.get(), kind, pay, "value")?,
                1 => check_mut::<T>(p.val(), kind, pay, "mutable value")?,
                2 => {
                    let mut v = p.val();
                    check_ref::<T>(v.reborrow(), kind, pay, "reborrow of a mutable value")?;
                    check_mut::<T>(v.reborrow_mut(), kind, pay, "reborrow_mut")?;
                    check_mut::<T>(v.reborrow_mut().reborrow_mut(), kind, pay, "reborrow_mut twice")?;
                    check_ref::<T>(v.into(), kind, pay, "conversion of a mutable value")?;
                }
                3 => {
                    let v = p.get();
                    check_ref::<T>(v.reborrow(), kind, pay, "reborrow")?;
                    check_ref::<T>(v.clone(), kind, pay, "clone of a reference")?;
                    let e = with_kind!(kind, T, K => hash1(&<K<T> as Elt>::make(pay)));
                    cke!(hash1(&v), e, "hash of a value");
                    let e = with_kind!(kind, T, K => format!("{:?}", <K<T> as Elt>::make(pay)));
                    cke!(format!("{:?}", v), e, "text of a value");
                }
                4 => match &mut p.spot {
                    Spot::Box(b) => {
                        with_kind!(kind, T, K => {
                            ck!(b.size() == size_of::<K<T>>() && b.value_alignment() == align_of::<K<T>>(), "boxed value: layout");
                            ck!(b.is::<K<T>>() && b.value_type_id() == TypeId::of::<K<T>>(), "boxed value: type");
                        });
                        ck!(!b.is::<Alien>(), "boxed value: taken for another type");
                        check_ref::<T>((&*b).into(), kind, pay, "reference to a boxed value")?;
                    }
                    Spot::Small(b) => {
                        with_kind!(kind, T, K => {
                            ck!(b.size() == size_of::<K<T>>() && b.value_alignment() == align_of::<K<T>>(), "small value: layout");
                            ck!(b.is::<K<T>>() && b.value_type_id() == TypeId::of::<K<T>>(), "small value: type");
                        });
                        ck!(!b.is::<Alien>(), "small value: taken for another type");
                    }
                    _ => {}
                },
                _ => {
                    let u: ValueRef<PartVTable> = p.get().upcast();
                    let w: ValueRef<DropVTable> = u.upcast_ref();
                    with_kind!(kind, T, K => {
                        typed!(w, K<T>, "upcast reference");
                        cke!(w.downcast::<K<T>>().map(|x| x.pay()), Some(pay), "upcast reference");
                    });
                    ck!(u == u.clone(), "upcast reference: unequal to itself");
                    let mut v = p.val();
                    {
                        let u: ValueMut<PartVTable> = v.upcast_mut();
                        with_kind!(kind, T, K => {
                            typed!(u, K<T>, "upcast_mut");
                            cke!(u.downcast::<K<T>>().map(|x| x.pay()), Some(pay), "upcast_mut");
                        });
                    }
                    let u: ValueMut<DropVTable> = v.upcast();
                    with_kind!(kind, T, K => {
                        typed!(u, K<T>, "upcast of a mutable value");
                        cke!(u.downcast::<K<T>>().map(|x| x.pay()), Some(pay), "upcast of a mutable value");
                    });
                }
            }
        }
        if T::TRACKED {
            let n = self.p.iter().filter(|p| p.tracked()).count() as i64;
            cke!(reg::live(), n, "number of live elements");
        }
        Ok(())
    }

    fn step(&mut self, s: &mut Src, pr: &VProfile) -> R {
        self.step += 1;
        let n = self.p.len();
        if n < 2 {
            let p = self.new_place(s);
            s.log(|| format!("new place of type {} holding {:x}", p.kind, p.pay));
            self.p.push(p);
            return Ok(());
        }
        let i = s.below(n);
        let mut j = s.below(n - 1);
        if j >= i {
            j += 1;
        }
        let same = self.p[i].kind == self.p[j].kind;
        let op = s.weighted(&[2, 4, 3, 3, pr.clone, pr.refuse, 2, 2, 1, 2, pr.refuse]);
        s.log(|| format!("value op {} on places {} (type {}) and {} (type {})", op, i, self.p[i].kind, j, self.p[j].kind));
        s.count("value");
        let (pi, pj) = (self.p[i].pay, self.p[j].pay);
        match op {
            0 => {
                let p = self.new_place(s);
                s.log(|| format!("  new place of type {} holding {:x}", p.kind, p.pay));
                if n < 7 {
                    self.p.push(p);
                } else {
                    self.p[i] = p;
                }
            }
            1 => {
                // Swap, directly or through re-borrowed or upcast references.
                let k = s.below(3);
                let (a, b) = self.two(i, j);
                {
                    let (mut x, mut y) = (a.val(), b.val());
                    match k {
                        0 => x.swap(&mut y),
                        1 => x.reborrow_mut().swap(&mut y.reborrow_mut()),
                        _ => {
                            let mut x: ValueMut<PartVTable> = x.upcast();
                            x.swap(&mut y.upcast_mut());
                        }
                    }
                }
                if same {
                    std::mem::swap(&mut a.pay, &mut b.pay);
                }
            }
            2 => {
                // Assign a fresh value, which is dropped if it has another type.
                let kind = if s.one_in(4) { [0, 1, 2, 3][s.below(4)] } else { self.p[i].kind };
                let p = self.pay(s, kind);
                self.may.push((i, Some(p)));
                let pl = &mut self.p[i];
                match make_val::<T>(kind, p, s.bool()).0 {
                    Spot::Box(b) => pl.val().assign(b),
                    Spot::Small(b) => pl.val().assign(b),
                    _ => unreachable!(),
                }
                if kind == pl.kind {
                    pl.pay = p;
                }
            }
            3 => {
                // Assign the value of another place.
                if matches!(self.p[j].spot, Spot::Box(_) | Spot::Small(_)) {
                    let q = self.p.remove(j);
                    let i = if j < i { i - 1 } else { i };
                    self.may.clear();
                    self.may.push((i, Some(pj)));
                    let pl = &mut self.p[i];
                    match q.spot {
                        Spot::Box(b) => pl.val().assign(b),
                        Spot::Small(b) => pl.val().assign(b),
                        _ => {}
                    }
                    if same {
                        pl.pay = pj;
                    }
                }
            }
            4 if (same || !reg::armed()) && s.one_in(4) => {
                // Clone over a place of any type.
                self.may.push((j, Some(pi)));
                let (a, b) = self.two(i, j);
                match (&a.spot, &mut b.spot) {
                    (Spot::Box(x), Spot::Box(y)) => y.clone_from(x),
                    (Spot::Small(x), Spot::Small(y)) => y.clone_from(x),
                    _ => return Ok(()),
                }
                b.kind = a.kind;
                b.pay = pi;
            }
            4 => {
                // Clone into a new place.
                let pl = &self.p[i];
                let small = s.bool() && with_kind!(pl.kind, T, K => size_of::<K<T>>() == size_of::<usize>());
                let k = s.below(4);
                let kind = pl.kind;
                let spot = match (&pl.spot, k, small) {
                    (Spot::Box(b), 0, _) => Spot::Box(b.clone()),
                    (Spot::Small(b), 0, _) => Spot::Small(b.clone()),
                    (_, _, true) => {
                        if k == 1 {
                            Spot::Small(self.p[i].val().clone_small_value())
                        } else {
                            Spot::Small(pl.get().clone_small_value())
                        }
                    }
                    _ => {
                        if k == 1 {
                            Spot::Box(self.p[i].val().clone_value())
                        } else {
                            Spot::Box(pl.get().clone_value())
                        }
                    }
                };
                let c = Place { spot, kind, pay: pi };
                if n < 7 {
                    self.p.push(c);
                } else {
                    self.p[j] = c;
                }
            }
            5 => {
                // clone_from_other
                self.may.push((i, Some(pj)));
                let k = s.below(3);
                let (a, b) = self.two(i, j);
                let r = match (k, &b.spot) {
                    (0, Spot::Box(x)) => a.val().clone_from_other(x),
                    (0, Spot::Small(x)) => a.val().clone_from_other(x),
                    (1, _) => a.val().clone_from_other(b.val()),
                    _ => a.val().clone_from_other(b.get()),
                };
                match r {
                    Ok(()) => {
                        ck!(same, "clone_from_other: took another type");
                        a.pay = b.pay;
                    }
                    Err(e) => {
                        ck!(!same, "clone_from_other: refused the right type");
                        ck!(!e.to_string().is_empty(), "error without text");
                        let (x, y) = (a.get().value_type_id(), b.get().value_type_id());
                        ck!(matches!(e, dync::Error::MismatchedTypes { expected, actual } if expected == x && actual == y),
                            "clone_from_other: an error of other types: {:?}", e);
                    }
                }
            }
            6 => {
                // Take the value out and put it somewhere else.
                if matches!(self.p[i].spot, Spot::Box(_) | Spot::Small(_)) {
                    let pl = self.p.remove(i);
                    let (kind, pay) = (pl.kind, pl.pay);
                    self.may.clear();
                    let k = s.below(4);
                    let spot = with_kind!(kind, T, K => {
                        if let (0, Spot::Box(_), true) = (k, &pl.spot, size_of::<K<T>>() > 0) {
                            // Into a vector without the type.
                            let mut v = Vd::with_type::<K<T>>();
                            let b = match pl.spot { Spot::Box(b) => b, _ => unreachable!() };
                            ck!(v.push(b).is_some(), "push: refused the right type");
                            Spot::Vec(v)
                        } else {
                            let x: K<T> = match pl.spot {
                                Spot::Box(b) => *b.downcast::<K<T>>().ok_or("boxed value does not downcast to its type")?,
                                Spot::Small(b) => b.downcast::<K<T>>().ok_or("small value does not downcast to its type")?,
                                _ => unreachable!(),
                            };
                            cke!(x.pay(), pay, "downcast");
                            if size_of::<K<T>>() == size_of::<usize>() && k < 3 {
                                Spot::Small(SmallValue::new(x))
                            } else {
                                Spot::Box(BoxValue::new(x))
                            }
                        }
                    });
                    self.p.push(Place { spot, kind, pay });
                }
            }
            7 => {
                // Compare with another value.
                let (a, b) = (&self.p[i], &self.p[j]);
                let e = same && pi == pj;
                cke!(a.get() == b.get(), e, "equality of references");
                match (&a.spot, &b.spot) {
                    (Spot::Box(x), Spot::Box(y)) => cke!(x == y, e, "equality of boxed values"),
                    (Spot::Small(x), Spot::Small(y)) => cke!(x == y, e, "equality of small values"),
                    _ => {}
                }
                let twin: BoxValue<V> = with_kind!(a.kind, T, K => BoxValue::new(<K<T> as Elt>::make(pi)));
                ck!(a.get() == twin.as_ref(), "a value is unequal to one of equal contents");
                cke!(hash1(&a.get()), hash1(&twin), "hash of equal values");
                let (a, b) = self.two(i, j);
                cke!(a.val() == b.val(), e, "equality of mutable references");
            }
            8 => drop(self.p.remove(i)),
            9 => {
                // Write through the reference.
                let p = self.pay(s, self.p[i].kind);
                self.may.push((i, Some(p)));
                let pl = &mut self.p[i];
                with_kind!(pl.kind, T, K => *pl.val().downcast::<K<T>>().ok_or("mutable value does not downcast to its type")? = <K<T> as Elt>::make(p));
                pl.pay = p;
            }
            _ => match s.weighted(&[1, 1, pr.upcast, 1, 1, 1]) {
                0 => {
                    // A refused downcast drops the value.
                    if matches!(self.p[i].spot, Spot::Box(_) | Spot::Small(_)) {
                        let pl = self.p.remove(i);
                        self.may.clear();
                        let k = (pl.kind + 1 + s.below(3)) % 4;
                        let some = with_kind!(k, T, L => match pl.spot {
                            Spot::Box(b) => b.downcast::<L<T>>().is_some(),
                            Spot::Small(b) => b.downcast::<L<T>>().is_some(),
                            _ => unreachable!(),
                        });
                        ck!(!some, "downcast to another type");
                    }
                }
                1 => {
                    let kind = self.p[i].kind;
                    let p = self.pay(s, kind);
                    with_kind!(kind, T, K => {
                        let word = size_of::<K<T>>() == size_of::<usize>();
                        let x = SmallValue::<V>::try_new(<K<T> as Elt>::make(p));
                        cke!(x.is_some(), word, "SmallValue::try_new: accepted");
                        if let Some(x) = x {
                            cke!(x.downcast::<K<T>>().map(|x| x.pay()), Some(p), "SmallValue::try_new");
                        } else {
                            let r = std::panic::catch_unwind(|| SmallValue::<V>::new(<K<T> as Elt>::make(p)));
                            match r {
                                Ok(_) => return Err("SmallValue::new: took a value that is not a word".into()),
                                Err(e) => if reg::is_injected(&*e) { std::panic::resume_unwind(e) },
                            }
                        }
                    });
                }
                2 => {
                    // Upcast the owner.
                    if matches!(self.p[i].spot, Spot::Box(_) | Spot::Small(_)) {
                        let pl = self.p.remove(i);
                        self.may.clear();
                        with_kind!(pl.kind, T, K => match pl.spot {
                            Spot::Box(b) => {
                                let u: BoxValue<PartVTable> = b.upcast();
                                ck!(u == u.clone() && u.size() == size_of::<K<T>>(), "upcast boxed value");
                                let u: BoxValue<DropVTable> = u.upcast();
                                typed!(u, K<T>, "upcast boxed value");
                                cke!(u.downcast::<K<T>>().map(|x| x.pay()), Some(pl.pay), "upcast boxed value");
                            }
                            Spot::Small(b) => {
                                let u: SmallValue<PartVTable> = b.upcast();
                                ck!(u == u.clone() && u.value_alignment() == align_of::<K<T>>(), "upcast small value");
                                let u: SmallValue<DropVTable> = u.upcast();
                                typed!(u, K<T>, "upcast small value");
                                cke!(u.downcast::<K<T>>().map(|x| x.pay()), Some(pl.pay), "upcast small value");
                            }
                            _ => {}
                        });
                    }
                }
                3 => {
                    // A push of another type is refused and drops the value.
                    let kind = self.p[i].kind;
                    let p = self.pay(s, kind);
                    let b: BoxValue<V> = with_kind!(kind, T, K => BoxValue::new(<K<T> as Elt>::make(p)));
                    let mut v = Vd::from_vec(vec![Alien(1)]);
                    ck!(v.push(b).is_none() && v.len() == 1, "push: took another type");
                    ck!(v.push_cloned(self.p[i].get()).is_none() && v.len() == 1, "push_cloned: took another type");
                }
                4 => {
                    // A small clone of what is not a word is refused.
                    let pl = &self.p[i];
                    if with_kind!(pl.kind, T, K => size_of::<K<T>>() != size_of::<usize>()) {
                        let live = reg::live();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pl.get().clone_small_value()));
                        match r {
                            Ok(_) => return Err("clone_small_value: took a value that is not a word".into()),
                            Err(e) => if reg::is_injected(&*e) { std::panic::resume_unwind(e) },
                        }
                        cke!(reg::live(), live, "live elements after a refused clone");
                    }
                }
                _ => {
                    // Into a vector and back.
                    let kind = self.p[i].kind;
                    if with_kind!(kind, T, K => size_of::<K<T>>()) > 0 {
                        let b = self.p[i].get().clone_value();
                        with_kind!(kind, T, K => {
                            let mut v = Vd::with_type_from(b.as_ref());
                            ck!(v.push(b).is_some(), "push: refused the right type");
                            ck!(v.push_cloned(self.p[i].get()).is_some(), "push_cloned: refused the right type");
                            let x = v.into_vec::<K<T>>().ok_or("into_vec: refused the right type")?;
                            cke!(pays(&x), vec![pi; 2], "values moved into a vector");
                        });
                    }
                }
            },
        }
        Ok(())
    }

    fn recover(&mut self) -> R {
        for (i, p) in self.p.iter_mut().enumerate() {
            let now = p.typed().map_err(|e| format!("place {} after a panic: {}", i, e))?;
            if let Some(e) = reg::violation() {
                return Err(format!("after a panic: {}", e));
            }
            ck!(now == p.pay || self.may.iter().any(|m| m.0 == i && m.1 == Some(now)), "place {} changed by a panic: {:x} was {:x}", i, now, p.pay);
            p.pay = now;
        }
        Ok(())
    }
}

/// One history over values of type `T`, its other type, the unit type and strings.
pub fn vhistory<T: FullElt>(s: &mut Src, pr: &VProfile) -> R
where
    T::Other: FullElt,
{
    s.log(|| format!("values of {}", T::name()));
    let mut w = Pool::<T> { p: Vec::new(), step: 0, may: Vec::new() };
    let n = s.range(1, pr.max_ops);
    for _ in 0..n {
        w.may.clear();
        if pr.panics > 0 && w.p.len() >= 2 && s.one_in(pr.panics) {
            let kinds = [reg::CLONE, reg::DROP, reg::EQ | reg::HASH | reg::FMT, reg::CLONE | reg::DROP][s.below(4)];
            let at = s.below(4) as u32;
            s.log(|| format!("(panic at call {} of kinds {:x})", at, kinds));
            reg::arm(kinds, at);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(s, pr)));
            let fired = !reg::armed();
            reg::disarm();
            match r {
                Ok(r) if !fired => r?,
                Ok(_) => {
                    s.leak_ok = true;
                    w.recover()?;
                }
                Err(e) => {
                    if !reg::is_injected(&*e) {
                        std::panic::resume_unwind(e);
                    }
                    drop(e);
                    s.count("panicked");
                    s.leak_ok = true;
                    s.nontrivial = true;
                    w.recover()?;
                }
            }
        } else {
            w.step(s, pr)?;
        }
        if s.leak_ok {
            if let Some(v) = reg::violation() {
                return Err(v);
            }
            for (i, p) in w.p.iter_mut().enumerate() {
                cke!(p.typed()?, p.pay, "place {}", i);
            }
        } else {
            w.check()?;
        }
    }
    if pr.panics == 0 && n >= 6 {
        s.nontrivial = true;
    }
    Ok(())
}

/// Plain values: references to variables of type `T` and its other type.
pub fn cvhistory<T: CopyElt + FullElt>(s: &mut Src, max_ops: usize) -> R {
    s.log(|| format!("plain values of {}", T::name()));
    let mut a: Vec<T> = make_all(&[1, 2, 3]);
    let mut ma = canon_all::<T>(&[1, 2, 3]);
    let mut b: Vec<T::Other> = make_all(&[4, 5]);
    let mb = canon_all::<T::Other>(&[4, 5]);
    let n = s.range(1, max_ops);
    for step in 0..n {
        let i = s.below(3);
        let j = (i + 1 + s.below(2)) % 3;
        let k = s.below(2);
        let op = s.below(12);
        s.log(|| format!("plain value op {} on {} and {}", op, i, j));
        s.count("plain value");
        let (x, y) = {
            let (lo, hi) = (i.min(j), i.max(j));
            let (p, q) = a.split_at_mut(hi);
            if i < j { (&mut p[lo], &mut q[0]) } else { (&mut q[0], &mut p[lo]) }
        };
        let z = &mut b[k];
        match op {
            0 => {
                CopyValueMut::<Tab>::new(x).swap(&mut CopyValueMut::new(y));
                ma.swap(i, j);
            }
            1 => {
                let r = CopyValueMut::<Tab>::new(x).copy(CopyValueRef::new(&*y));
                match r {
                    None => return Err("copy: refused the right type".into()),
                    Some(v) => cke!(v.downcast::<T>().map(|x| x.pay()), Some(ma[j]), "copy: returned value"),
                }
                ma[i] = ma[j];
            }
            2 => CopyValueMut::<Tab>::new(x).swap(&mut CopyValueMut::new(z)),
            3 => ck!(CopyValueMut::<Tab>::new(x).copy(CopyValueRef::new(&*z)).is_none(), "copy: took another type"),
            4 => {
                let mut v = CopyValueMut::<Tab>::new(x);
                {
                    let mut u: CopyValueMut<SubTab> = v.upcast();
                    ck!(u.is::<T>() && u.size() == size_of::<T>() && u.value_alignment() == align_of::<T>(), "upcast of a plain value: type");
                    let mut w = CopyValueMut::<SubTab>::new(y);
                    u.swap(&mut w);
                }
                cke!(v.downcast::<T>().map(|x| x.pay()), Some(ma[j]), "upcast of a plain value");
                ma.swap(i, j);
            }
            5 => {
                let v = CopyValueRef::<Tab>::new(&*x);
                {
                    let u: CopyValueRef<SubTab> = v.upcast_ref();
                    typed!(u, T, "upcast_ref of a plain value");
                    cke!(u.downcast::<T>().map(|x| x.pay()), Some(ma[i]), "upcast_ref of a plain value");
                }
                let u: CopyValueRef<SubTab> = v.clone().upcast();
                typed!(u, T, "upcast of a plain value");
                ck!(!u.is::<T::Other>() && u.clone().downcast::<T::Other>().is_none(), "upcast of a plain value: taken for another type");
                cke!(u.downcast::<T>().map(|x| x.pay()), Some(ma[i]), "upcast of a plain value");
            }
            6 => {
                let v = CopyValueMut::<Tab>::new(x);
                ck!(v.is::<T>() && v.value_type_id() == TypeId::of::<T>() && !v.is::<T::Other>(), "mutable plain value: type");
                cke!((v.size(), v.value_alignment()), (size_of::<T>(), align_of::<T>()), "mutable plain value: layout");
                let r: CopyValueRef<Tab> = v.into();
                crate::hist_copy::cval_ok::<T, Tab>(r, ma[i], "conversion of a plain value")?;
            }
            7 => {
                let p = T::canon(s.pay());
                *CopyValueMut::<Tab>::new(x).downcast::<T>().ok_or("mutable plain value does not downcast to its type")? = T::make(p);
                ck!(CopyValueMut::<Tab>::new(x).downcast::<T::Other>().is_none(), "mutable plain value: gave another type");
                ma[i] = p;
            }
            8 => {
                // As a value that may be cloned.
                let v: ValueRef<(DropFn, V)> = CopyValueRef::<V>::new(&*x).into();
                ck!(v.is::<T>() && v.size() == size_of::<T>() && v.value_alignment() == align_of::<T>(), "plain value as a value: type");
                let c = v.clone_value();
                ck!(c.as_ref() == v && hash1(&c) == hash1(&T::make(ma[i])), "clone of a plain value");
                cke!(format!("{:?}", c), format!("{:?}", T::make(ma[i])), "text of a plain value");
                let mut w: ValueMut<(DropFn, V)> = CopyValueMut::<V>::new(y).into();
                if s.bool() {
                    w.assign(c);
                } else {
                    ck!(w.clone_from_other(v).is_ok(), "clone_from_other of plain values");
                    cke!(c.downcast::<T>().map(|x| x.pay()), Some(ma[i]), "downcast of a cloned plain value");
                }
                ma[j] = ma[i];
            }
            9 => {
                let mut v: ValueMut<(DropFn, V)> = CopyValueMut::<V>::new(x).into();
                let mut w: ValueMut<(DropFn, V)> = CopyValueMut::<V>::new(z).into();
                v.swap(&mut w);
                let e = v.clone_from_other(w.reborrow());
                ck!(matches!(e, Err(dync::Error::MismatchedTypes { expected, actual }) if expected == v.value_type_id() && actual == w.value_type_id()) && v != w,
                    "plain values of different types");
            }
            10 => {
                // Equality, hash and text of plain value references.
                let (v, w) = (CopyValueRef::<V>::new(&*x), CopyValueRef::<V>::new(&*y));
                cke!(v == w, ma[i] == ma[j], "equality of plain values");
                cke!(hash1(&v), hash1(&T::make(ma[i])), "hash of a plain value");
                cke!(format!("{:?} {:#?}", v, w), format!("{:?} {:#?}", T::make(ma[i]), T::make(ma[j])), "text of plain values");
                let o = CopyValueRef::<Tab>::new(&*z);
                ck!(o.value_type_id() != v.value_type_id(), "type of plain values");
            }
            _ => {
                // Into vectors.
                if size_of::<T>() > 0 {
                    let v = CopyValueRef::<Tab>::new(&*x);
                    let mut c = VecCopy::<Tab>::with_type_from(v.clone());
                    ck!(c.push(v.clone()).is_some() && c.push(v).is_some(), "push of a plain value: refused");
                    cke!(c.as_slice_as::<T>().map(pays), Some(vec![ma[i]; 2]), "push of a plain value");
                    let t: CopyValueRef<()> = CopyValueRef::new(&*z);
                    ck!(c.push(t).is_none() && c.len() == 2, "push of a plain value: took another type");
                    c.get_mut(0).swap(&mut CopyValueMut::new(y));
                    cke!(c.get_as::<T>(0).map(|x| x.pay()), Some(ma[j]), "swap with a vector");
                    ma[j] = ma[i];
                }
            }
        }
        cke!(pays(&a), ma, "variables");
        cke!(pays(&b), mb, "variables of the other type");
        let _ = step;
    }
    if n >= 4 {
        s.nontrivial = true;
    }
    Ok(())
}

/// An owned value under tables of decreasing power.
enum Own {
    BV(BoxValue<V>),
    BP(BoxValue<PartVTable>),
    BD(BoxValue<DropVTable>),
    SV(SmallValue<V>),
    SP(SmallValue<PartVTable>),
    SD(SmallValue<DropVTable>),
}
macro_rules! own {
    ($o:expr, $b:ident => $e:expr) => {
        match $o {
            Own::BV($b) => $e,
            Own::BP($b) => $e,
            Own::BD($b) => $e,
            Own::SV($b) => $e,
            Own::SP($b) => $e,
            Own::SD($b) => $e,
        }
    };
}

fn own_new<T: FullElt>(s: &mut Src, x: T) -> Own {
    if size_of::<T>() == size_of::<usize>() && s.below(3) < 2 {
        match s.below(4) {
            0 | 1 => Own::SV(SmallValue::new(x)),
            2 => Own::SP(SmallValue::new(x)),
            _ => Own::SD(SmallValue::new(x)),
        }
    } else {
        match s.below(4) {
            0 | 1 => Own::BV(BoxValue::new(x)),
            2 => Own::BP(BoxValue::new(x)),
            _ => Own::BD(BoxValue::new(x)),
        }
    }
}

/// The life of one owned value: moved, upcast, cloned, written and taken apart.
pub fn own_life<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let mut m = T::canon(s.pay());
    s.log(|| format!("an owned value of {} holding {:x}", T::name(), m));
    s.count("owned value");
    let mut o = own_new(s, T::make(m));
    let live = |n: i64, what: &str| -> R {
        if T::TRACKED {
            cke!(reg::live(), n, "live elements after {}", what);
        }
        Ok(())
    };
    for _ in 0..s.range(1, 8) {
        let k = s.below(9);
        let p = T::canon(s.pay());
        s.log(|| format!("owner op {} ({:x})", k, p));
        match k {
            0 | 1 => {
                let a = s.bool();
                o = match o {
                    Own::BV(b) if a => Own::BP(b.upcast()),
                    Own::BV(b) => Own::BD(b.upcast()),
                    Own::BP(b) => Own::BD(b.upcast()),
                    Own::SV(b) if a => Own::SP(b.upcast()),
                    Own::SV(b) => Own::SD(b.upcast()),
                    Own::SP(b) => Own::SD(b.upcast()),
                    o => o,
                };
                live(1, "an upcast")?;
                s.nontrivial = true;
            }
            2 => {
                let c = match &o {
                    Own::BV(b) => Own::BV(b.clone()),
                    Own::BP(b) => Own::BP(b.clone()),
                    Own::SV(b) => Own::SV(b.clone()),
                    Own::SP(b) => Own::SP(b.clone()),
                    _ => own_new(s, T::make(m)),
                };
                live(2, "a clone")?;
                let c = match (s.below(3), c, &o) {
                    (0, Own::BV(mut c), Own::BV(b)) => {
                        c.clone_from(b);
                        Own::BV(c)
                    }
                    (0, Own::BP(mut c), Own::BP(b)) => {
                        c.clone_from(b);
                        Own::BP(c)
                    }
                    (0, Own::SV(mut c), Own::SV(b)) => {
                        c.clone_from(b);
                        Own::SV(c)
                    }
                    (0, Own::SP(mut c), Own::SP(b)) => {
                        c.clone_from(b);
                        Own::SP(c)
                    }
                    (_, c, _) => c,
                };
                live(2, "a clone over a clone")?;
                if s.bool() {
                    o = c;
                } else {
                    cke!(own!(c, b => b.downcast::<T>().map(|x| x.pay())), Some(m), "downcast of a clone");
                }
            }
            3 => {
                let x: T = match o {
                    Own::BV(b) => *b.downcast::<T>().ok_or("downcast: refused")?,
                    Own::BP(b) => *b.downcast::<T>().ok_or("downcast: refused")?,
                    Own::BD(b) => *b.downcast::<T>().ok_or("downcast: refused")?,
                    Own::SV(b) => b.downcast::<T>().ok_or("downcast: refused")?,
                    Own::SP(b) => b.downcast::<T>().ok_or("downcast: refused")?,
                    Own::SD(b) => b.downcast::<T>().ok_or("downcast: refused")?,
                };
                live(1, "a downcast")?;
                cke!(x.pay(), m, "downcast");
                o = own_new(s, x);
            }
            4 => {
                ck!(own!(o, b => b.downcast::<T::Other>().is_none()), "downcast to another type");
                live(0, "a refused downcast")?;
                m = p;
                o = own_new(s, T::make(m));
            }
            5 => {
                own!(&mut o, b => *b.as_mut().downcast::<T>().ok_or("as_mut: refused")? = T::make(p));
                m = p;
            }
            6 => {
                match (&mut o, s.bool()) {
                    (Own::BV(b), true) => b.as_mut().assign(BoxValue::new(T::make(p))),
                    (Own::BP(b), true) => b.as_mut().assign(BoxValue::new(T::make(p))),
                    (Own::BD(b), true) => b.as_mut().assign(BoxValue::new(T::make(p))),
                    (Own::BV(b), _) => b.as_mut().clone_from_other(ValueRef::<V>::new(&T::make(p))).map_err(|_| "refused")?,
                    (Own::SV(b), true) if size_of::<T>() == size_of::<usize>() => b.as_mut().assign(SmallValue::new(T::make(p))),
                    (Own::SV(b), _) => b.as_mut().assign(BoxValue::new(T::make(p))),
                    (o, _) => own!(o, b => *b.as_mut().downcast::<T>().ok_or("as_mut: refused")? = T::make(p)),
                }
                m = p;
            }
            7 => {
                let mut x = T::make(p);
                match &mut o {
                    Own::BV(b) => b.as_mut().swap(&mut ValueMut::new(&mut x)),
                    Own::SV(b) => b.as_mut().swap(&mut ValueMut::new(&mut x)),
                    Own::BP(b) => b.as_mut().swap(&mut ValueMut::new(&mut x)),
                    Own::SP(b) => b.as_mut().swap(&mut ValueMut::new(&mut x)),
                    Own::BD(b) => b.as_mut().swap(&mut ValueMut::new(&mut x)),
                    Own::SD(b) => b.as_mut().swap(&mut ValueMut::new(&mut x)),
                }
                cke!(x.pay(), m, "swapped out");
                m = p;
                // Through upcast references too.
                if s.bool() {
                    let mut x = T::make(p);
                    match &mut o {
                        Own::BV(b) => {
                            let mut v = b.as_mut();
                            let mut u: ValueMut<PartVTable> = v.upcast_mut();
                            typed!(u, T, "upcast_mut of an owned value");
                            u.swap(&mut ValueMut::new(&mut x));
                        }
                        Own::SV(b) => {
                            let mut u: ValueMut<PartVTable> = b.as_mut().upcast();
                            typed!(u, T, "upcast of the contents of an owned value");
                            u.swap(&mut ValueMut::new(&mut x));
                        }
                        Own::BP(b) => {
                            let mut u: ValueMut<DropVTable> = b.as_mut().upcast();
                            typed!(u, T, "upcast of the contents of an owned value");
                            u.swap(&mut ValueMut::new(&mut x));
                        }
                        o => {
                            let _ = own!(o, b => b.as_mut().size());
                        }
                    }
                    cke!(x.pay(), m, "swapped out through an upcast reference");
                }
            }
            _ => {
                // Into another kind of owner.
                o = match o {
                    Own::SV(b) => Own::BV(b.as_ref().clone_value()),
                    Own::SP(b) => Own::BP(b.as_ref().clone_value()),
                    Own::BV(b) if size_of::<T>() == size_of::<usize>() => Own::SV(b.as_ref().clone_small_value()),
                    o => o,
                };
            }
        }
        live(1, "the operation")?;
        own!(&o, b => {
            ck!(b.is::<T>() && !b.is::<T::Other>() && b.size() == size_of::<T>() && b.value_alignment() == align_of::<T>(), "owned value: type");
            match b.as_ref().downcast::<T>() {
                Some(x) => {
                    ck!(x as *const _ as usize % align_of::<T>() == 0, "owned value: misaligned");
                    cke!(x.pay(), m, "owned value")
                }
                None => return Err("owned value: does not downcast".into()),
            }
        });
    }
    drop(o);
    live(0, "dropping the value")?;
    s.nontrivial = true;
    Ok(())
}
