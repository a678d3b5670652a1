//! Elements that change behind a shared reference, for Miri: `c19i ROUTE TYPE SEED`.
use dync::traits::*;
use dync::*;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Mutex;

#[dync_trait(dync_crate_name = "dync")]
pub trait Full: Clone + PartialEq + std::fmt::Debug {}
impl<T> Full for T where T: Clone + PartialEq + std::fmt::Debug {}

trait In: 'static + Sized {
    fn mk(p: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&self, p: u32);
}
impl In for Cell<u64> {
    fn mk(p: u32) -> Self { Cell::new(p as u64) }
    fn get(&self) -> u32 { Cell::get(self) as u32 }
    fn set(&self, p: u32) { Cell::set(self, p as u64) }
}
impl In for RefCell<String> {
    fn mk(p: u32) -> Self { RefCell::new(p.to_string()) }
    fn get(&self) -> u32 { self.borrow().parse().unwrap() }
    fn set(&self, p: u32) { *self.borrow_mut() = p.to_string() }
}
impl In for AtomicU32 {
    fn mk(p: u32) -> Self { AtomicU32::new(p) }
    fn get(&self) -> u32 { self.load(Ordering::Relaxed) }
    fn set(&self, p: u32) { self.store(p, Ordering::Relaxed) }
}
impl In for Mutex<Box<u32>> {
    fn mk(p: u32) -> Self { Mutex::new(Box::new(p)) }
    fn get(&self) -> u32 { **self.lock().unwrap() }
    fn set(&self, p: u32) { *self.lock().unwrap() = Box::new(p) }
}

type D = DropVTable;
type F = FullVTable;

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as usize % n
    }
}

fn same<T: In>(v: &[T], m: &[u32]) {
    assert_eq!(v.iter().map(|x| x.get()).collect::<Vec<_>>(), m);
}

/// What any type can do.
fn any<T: In>(route: &str, r: &mut Rng) -> bool {
    let n = 1 + r.below(4);
    let mut m: Vec<u32> = (0..n as u32).collect();
    let a: Vec<T> = m.iter().map(|&p| T::mk(p)).collect();
    let i = r.below(n);
    match route {
        // The owner's typed access.
        "owner/as_slice_as" => {
            let v = VecDyn::<D>::from_vec(a);
            v.as_slice_as::<T>().unwrap()[i].set(90);
            m[i] = 90;
            same(v.as_slice_as::<T>().unwrap(), &m);
        }
        "owner/get_ref_as" => {
            let v = VecDyn::<D>::from_vec(a);
            let x = v.get_ref_as::<T>(i).unwrap();
            let y = v.get_ref_as::<T>(i).unwrap();
            x.set(90);
            assert_eq!(y.get(), 90);
        }
        "owner/iter_as" => {
            let v = VecDyn::<D>::from_vec(a);
            for (k, x) in v.iter_as::<T>().unwrap().enumerate() {
                x.set(k as u32 + 7);
                m[k] = k as u32 + 7;
            }
            same(&v.into_vec::<T>().unwrap(), &m);
        }
        // Exclusive access, and moves.
        "mut/moves" => {
            let mut v = VecDyn::<D>::from_vec(a);
            v.push_as(T::mk(50)).unwrap();
            v.push(BoxValue::<D>::new(T::mk(51))).unwrap();
            m.extend([50, 51]);
            v.as_mut_slice().swap(0, n);
            m.swap(0, n);
            v.rotate_left(1);
            m.rotate_left(1);
            v.as_mut_slice_as::<T>().unwrap()[i].set(60);
            m[i] = 60;
            let mut w = VecDyn::<D>::with_type::<T>();
            w.append(&mut v).unwrap();
            let w = w.into_vec::<T>().unwrap();
            same(&w, &m);
            w[0].set(1);
        }
        "mut/slice" => {
            let mut a = a;
            let mut s = SliceMut::<D>::from_slice(&mut a);
            s.swap(0, i);
            m.swap(0, i);
            s.get_as::<T>(i).unwrap().set(70);
            m[i] = 70;
            s.get_mut(0).downcast::<T>().unwrap().set(71);
            m[0] = 71;
            s.reborrow_mut().into_subslice(0..1).get_as::<T>(0).unwrap().set(72);
            m[0] = 72;
            same(&a, &m);
        }
        "mut/value" => {
            let mut a = a;
            ValueMut::<D>::new(&mut a[i]).downcast::<T>().unwrap().set(70);
            m[i] = 70;
            let mut b = BoxValue::<D>::new(T::mk(5));
            b.as_mut().downcast::<T>().unwrap().set(6);
            ValueMut::<D>::new(&mut a[0]).swap(&mut b.as_mut());
            m[0] = 6;
            ValueMut::<D>::new(&mut a[n - 1]).assign(BoxValue::<D>::new(T::mk(8)));
            m[n - 1] = 8;
            same(&a, &m);
        }
        // Shared views: bytes that cannot change, to the language.
        "view/slice" => {
            let s = Slice::<D>::from_slice(&a);
            s.as_slice::<T>().unwrap()[i].set(90);
            s.get_as::<T>(i).unwrap().set(91);
            assert_eq!(a[i].get(), 91);
        }
        "view/alive" => {
            let s = Slice::<D>::from_slice(&a);
            a[i].set(90);
            assert_eq!(s.get_as::<T>(i).unwrap().get(), 90);
        }
        "view/of-vector" => {
            let v = VecDyn::<D>::from_vec(a);
            let s = v.as_slice();
            v.get_ref_as::<T>(i).unwrap().set(90);
            assert_eq!(s.as_slice::<T>().unwrap()[i].get(), 90);
        }
        "value/element" => {
            let v = VecDyn::<D>::from_vec(a);
            v.get(i).downcast::<T>().unwrap().set(90);
            assert_eq!(v.get_ref_as::<T>(i).unwrap().get(), 90);
        }
        "value/new" => {
            ValueRef::<D>::new(&a[i]).downcast::<T>().unwrap().set(90);
            assert_eq!(a[i].get(), 90);
        }
        "value/box" => {
            let b = BoxValue::<D>::new(T::mk(5));
            b.as_ref().downcast::<T>().unwrap().set(90);
            assert_eq!(b.downcast::<T>().map(|x| x.get()), Some(90));
        }
        _ => return false,
    }
    true
}

/// What takes a table with more.
fn full<T: In + Full + Clone + PartialEq + std::fmt::Debug>(route: &str, r: &mut Rng) {
    let n = 1 + r.below(4);
    let m: Vec<u32> = (0..n as u32).collect();
    let a: Vec<T> = m.iter().map(|&p| T::mk(p)).collect();
    let v = VecDyn::<F>::from_vec(a.clone());
    match route {
        "table/eq" => assert!(v == VecDyn::<F>::from_vec(a)),
        "table/clone" => same(&v.clone().into_vec::<T>().unwrap(), &m),
        "table/clone-value" => assert_eq!(BoxValue::<F>::new(T::mk(9)).clone().downcast::<T>().map(|x| x.get()), Some(9)),
        "table/debug" => assert!(format!("{:?}", v).len() > 2),
        _ => panic!("route {}", route),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "none" {
        return;
    }
    let mut r = Rng(a[3].parse().unwrap());
    r.below(2);
    match a[2].as_str() {
        "cell" => any::<Cell<u64>>(&a[1], &mut r) || { full::<Cell<u64>>(&a[1], &mut r); true },
        "refcell" => any::<RefCell<String>>(&a[1], &mut r) || { full::<RefCell<String>>(&a[1], &mut r); true },
        "atomic" => any::<AtomicU32>(&a[1], &mut r),
        _ => any::<Mutex<Box<u32>>>(&a[1], &mut r),
    };
}
