use dync::traits::*;
use dync::*;
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::hist_dyn::*;
use vh::src::Src;
use vh::{ck, cke, pick};

/// Room asked for at construction is there, and too much room is refused.
fn room<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let n = if std::mem::size_of::<T>() <= 64 && s.one_in(30) { s.long(1500) } else { s.len(60) };
    let use_ = s.below(n + 1);
    let m: Vec<u64> = s.many(use_).into_iter().map(T::canon).collect();
    s.log(|| format!("room for {} of {}, use {}", n, T::name(), use_));
    s.count("with_capacity");
    let mut v = Vd::with_capacity::<T>(n);
    ck!(v.is_empty() && v.len() == 0, "with_capacity: not empty");
    let at = v.as_slice_as::<T>().map(|x| x.as_ptr());
    let mut src: Vd = make_all::<T>(&m).into();
    let way = s.below(5);
    match way {
        0 => for &p in &m { v.push_as(T::make(p)); },
        1 => for &p in &m { v.push(BoxValue::<V>::new(T::make(p))); },
        2 => for e in src.iter() { v.push_cloned(e); },
        3 => { v.append(&mut src); }
        _ => {
            if let Some(&p) = m.first() {
                v.resize(m.len(), T::make(p));
            }
        }
    }
    if n > 0 {
        ck!(v.as_slice_as::<T>().map(|x| x.as_ptr()) == at, "the data moved although there was room for {} and only {} were added", n, use_);
    }
    if way == 3 {
        ck!(src.is_empty() && src.push_as(T::make(1)).is_some() && src.len() == 1, "append: source unusable");
        src.append(&mut v);
        cke!(src.len(), m.len() + 1, "append to the emptied source");
    } else {
        let e = if way == 4 { vec![m.first().copied().unwrap_or(0); m.len()] } else { m.clone() };
        cke!(v.as_slice_as::<T>().map(pays), Some(e), "contents");
        let l = m.len();
        let x = v.into_vec::<T>().ok_or("into_vec: refused")?;
        ck!(x.capacity() >= n.max(l) && x.len() == l, "into_vec: capacity {} for {}", x.capacity(), n);
    }
    s.nontrivial = use_ > 0;
    Ok(())
}

/// A chain of vectors made from each other's type information.
fn chain<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let m: Vec<u64> = (if std::mem::size_of::<T>() <= 64 && s.one_in(50) { s.pays(1000) } else { s.pays(8) }).iter().map(|&p| T::canon(p)).collect();
    let mut v: Vd = make_all::<T>(&m).into();
    let n = s.range(1, 6);
    s.log(|| format!("chain of {} from {} of {}", n, m.len(), T::name()));
    s.count("chain");
    for _ in 0..n {
        let x: Vec<T> = make_all(&[7]);
        let mut y: Vec<T> = make_all(&[8]);
        let k = s.below(9);
        s.log(|| format!("type information {}", k));
        let mut w = match k {
            0 => Vd::with_type_from(&v),
            1 => Vd::with_type_from(v.as_slice()),
            2 => Vd::with_type_from(v.as_mut_slice()),
            3 if v.len() > 0 => Vd::with_type_from(v.get(0)),
            4 if v.len() > 0 => Vd::with_type_from(v.get_mut(0)),
            5 => Vd::with_type_from(Slice::<V>::from_slice(&x)),
            6 => Vd::with_type_from(SliceMut::<V>::from_slice(&mut y)),
            7 => Vd::with_type_from(BoxValue::<V>::new(T::make(9)).as_ref()),
            _ => Vd::with_type_from(ValueRef::<V>::new(&x[0])),
        };
        ck!(w.is_empty() && w.len() == 0 && w.as_slice().is_empty(), "with_type_from: not empty");
        ck!(w.element_type_id() == std::any::TypeId::of::<T>(), "with_type_from: type");
        cke!(w.element_size(), std::mem::size_of::<T>(), "with_type_from: size");
        ck!(w.check_ref::<T>().is_some() && w.check_ref::<T::Other>().is_none(), "with_type_from: check");
        ck!(w.push_as(<T::Other>::make(1)).is_none() && w.is_empty(), "with_type_from: took another type");
        ck!(w == Vd::with_type::<T>(), "with_type_from: unequal to an empty vector");
        let way = s.below(5);
        match way {
            0 => ck!(w.append(&mut v).is_some(), "append: refused"),
            1 => {
                for e in v.iter() {
                    ck!(w.push_cloned(e).is_some(), "push_cloned: refused");
                }
            }
            2 => {
                for e in v.as_slice().into_iter() {
                    ck!(w.push(e.clone_value()).is_some(), "push: refused");
                }
            }
            3 => {
                for x in v.into_vec::<T>().ok_or("into_vec: refused")? {
                    ck!(w.push_as(x).is_some(), "push_as: refused");
                }
            }
            _ => w.clone_from(&v),
        }
        cke!(w.as_slice_as::<T>().map(pays), Some(m.clone()), "contents");
        cke!(format!("{:?}", w), format!("{:?}", make_all::<T>(&m)), "text");
        ck!(w == w.clone(), "unequal to its clone");
        v = w;
    }
    s.nontrivial = !m.is_empty();
    Ok(())
}

/// More room than there can be is refused, and nothing is lost.
fn huge<T: CopyElt>(s: &mut Src) -> R
where
    T::Other: CopyElt,
{
    let m: Vec<u64> = (if std::mem::size_of::<T>() <= 64 && s.one_in(50) { s.pays(1000) } else { s.pays(8) }).iter().map(|&p| T::canon(p)).collect();
    let mut v: Vc = make_all::<T>(&m).into();
    let size = std::mem::size_of::<T>();
    for _ in 0..s.range(1, 3) {
        let n = match s.below(4) {
            0 => usize::MAX,
            1 => usize::MAX - m.len(),
            2 => (usize::MAX / size).saturating_add(1),
            _ => isize::MAX as usize / size + 1,
        }.max(isize::MAX as usize / size + 1);
        s.log(|| format!("reserve {} for {} of {}", n, m.len(), T::name()));
        s.count("huge");
        ck!(panics(|| v.reserve(n)), "reserve({}) of {} byte elements was not refused", n, size);
        ck!(v.capacity() >= v.len() && v.capacity() < n, "capacity {} after a refused reserve", v.capacity());
        cke!(v.as_slice_as::<T>().map(pays), Some(m.clone()), "contents after a refused reserve");
    }
    let x = T::make(3);
    v.reserve(5);
    ck!(v.capacity() >= m.len() + 5, "capacity {} after reserving 5", v.capacity());
    for _ in 0..5 {
        v.push_as(x);
    }
    cke!(v.len(), m.len() + 5, "len");
    s.nontrivial = true;
    Ok(())
}

fn case(s: &mut Src) -> R {
    match s.below(10) {
        0 | 1 => {
            pick!(s, room(); u8, u64, [u8; 3], [u16; 3], [u64; 3], Pad, B32, String, Tk12, TkBox, Tk64, A4096, u128, (u8, u32), [u8; 100])
        }
        2 | 3 => {
            pick!(s, chain(); u8, u64, [u8; 3], [u64; 3], Pad, B32, String, Tk12, TkBox, TkWord, Tk64, A4096, [String; 3], (u8, u32))
        }
        4 => pick!(s, huge(); u8, u64, [u8; 3], [u64; 3], Pad, B32, (u8, u32), A4096, u16, [u8; 100]),
        5 => {
            let p = Profile { meta: 10, bulk: 8, push: 8, convert: 4, max_ops: 24, ..BALANCED };
            pick!(s, history(&p); u64, [u8; 3], Tk12, TkBox, B32, String)
        }
        _ => {
            let c = CProfile { create: 4, push: 7, bulk: 9, meta: 8, reserve: 10, refuse: 1, write: 1, slice: 1, max_ops: 24, ..CBALANCED };
            pick!(s, chistory(&c); u8, u16, u64, u128, [u8; 3], [u8; 7], [u8; 100], [u16; 3], [u64; 3], Pad, (u8, u32), A16, A64, B32, Shape, [u64; 33])
        }
    }
}
fn main() {
    vh::engine::main(&[("C15", case)])
}
