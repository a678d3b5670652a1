//! Everything in small, for Miri.
use dync::traits::CloneVTable;
use dync::*;
use vh::bounds;
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::hist_dyn::*;
use vh::routes::*;
use vh::src::Src;
use vh::tabs::*;
use vh::values::*;
use vh::views::*;
use vh::vt::*;
use vh::{cke, pick};

fn views<T: CopyElt>(s: &mut Src) -> R {
    let mut m: Vec<u64> = s.pays(6).iter().map(|&p| T::canon(p)).collect();
    let n = m.len();
    let a = s.below(n + 1);
    let b = a + s.below(n - a + 1);
    let depth = s.below(4);
    s.nontrivial = n > 0;
    s.log(|| format!("plain views of {:?} of {}, {}..{}", m, T::name(), a, b));
    s.count("views");
    let cfg = Cfg { rotate: true };
    match s.below(4) {
        0 => {
            let v: Vec<T> = make_all(&m);
            cwalk::<T, Tab>(s, SliceCopy::from_slice(&v[a..b]), &m[a..b], depth)?;
            cke!(pays(&v), m, "data");
        }
        1 => {
            let mut v: Vec<T> = make_all(&m);
            cwalk_mut::<T, SubTab>(s, SliceCopyMut::<Tab>::from(&mut v[a..b]).upcast(), &mut m[a..b], depth, cfg)?;
            cke!(pays(&v), m, "data");
        }
        k => {
            let mut v: VecCopy<Tab> = make_all::<T>(&m).into();
            if k == 2 {
                cwalk::<T, Tab>(s, v.as_slice().into_subslice(a..b), &m[a..b], depth)?;
            } else {
                cwalk_mut::<T, Tab>(s, v.as_mut_slice().into_subslice(a..b), &mut m[a..b], depth, cfg)?;
            }
            cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "data");
        }
    }
    Ok(())
}

fn dviews<T: Elt>(s: &mut Src) -> R {
    let mut m: Vec<u64> = s.pays(6).iter().map(|&p| T::canon(p)).collect();
    let n = m.len();
    let a = s.below(n + 1);
    let b = a + s.below(n - a + 1);
    let depth = s.below(4);
    s.nontrivial = n > 0;
    s.log(|| format!("views of {:?} of {}, {}..{}", m, T::name(), a, b));
    s.count("views");
    let cfg = Cfg { rotate: true };
    match s.below(4) {
        0 => {
            let v: Vec<T> = make_all(&m);
            dwalk::<T, PartVTable>(s, Slice::from_slice(&v[a..b]), &m[a..b], depth)?;
            cke!(pays(&v), m, "data");
        }
        1 => {
            let mut v: Vec<T> = make_all(&m);
            dwalk_mut::<T, CloneVTable>(s, SliceMut::<PartVTable>::from(&mut v[a..b]).upcast(), &mut m[a..b], depth, cfg)?;
            cke!(pays(&v), m, "data");
        }
        k => {
            let mut v: VecDyn<PartVTable> = make_all::<T>(&m).into();
            if k == 2 {
                dwalk::<T, PartVTable>(s, v.as_slice().into_subslice(a..b), &m[a..b], depth)?;
            } else {
                dwalk_mut::<T, PartVTable>(s, v.as_mut_slice().into_subslice(a..b), &mut m[a..b], depth, cfg)?;
            }
            cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "data");
        }
    }
    Ok(())
}

/// Longer vectors, whose elements move in large blocks.
fn far<T: Elt>(s: &mut Src) -> R {
    let n = s.range(8, 40);
    let mut m: Vec<u64> = (0..n).map(|i| T::canon(i as u64 * 3)).collect();
    let mut v: VecDyn<CloneVTable> = make_all::<T>(&m).into();
    s.log(|| format!("{} elements of {}", n, T::name()));
    s.count("long");
    s.nontrivial = true;
    for _ in 0..s.range(1, 3) {
        let n = m.len();
        let k = s.below(n + 1);
        match s.below(6) {
            0 => {
                v.rotate_left(k);
                m.rotate_left(k);
            }
            1 => {
                v.as_mut_slice().rotate_right(k);
                m.rotate_right(k);
            }
            2 => {
                v = v.clone();
            }
            3 => {
                let mut w: VecDyn<CloneVTable> = make_all::<T>(&m[..k]).into();
                v.append(&mut w);
                m.extend_from_within(..k);
            }
            4 => {
                let (a, b) = (s.below(n), s.below(n));
                let lo = a.min(b);
                v.as_mut_slice().subslice_mut(lo..).rotate_left((n - lo) / 2);
                m[lo..].rotate_left((n - lo) / 2);
            }
            _ => {
                let mut sl = v.as_mut_slice();
                let (mut a, mut b) = sl.split_at(n / 2);
                for (mut x, mut y) in a.iter().zip(b.iter()) {
                    x.swap(&mut y);
                }
                for i in 0..n / 2 {
                    m.swap(i, n / 2 + i);
                }
            }
        }
    }
    cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "data");
    Ok(())
}
fn cfar<T: CopyElt>(s: &mut Src) -> R {
    let n = s.range(8, 40);
    let mut m: Vec<u64> = (0..n).map(|i| T::canon(i as u64 * 3)).collect();
    let mut v: VecCopy<Tab> = make_all::<T>(&m).into();
    s.log(|| format!("{} plain elements of {}", n, T::name()));
    s.count("long");
    s.nontrivial = true;
    for _ in 0..s.range(1, 3) {
        let n = m.len();
        let k = s.below(n + 1);
        match s.below(6) {
            0 => {
                v.rotate_left(k);
                m.rotate_left(k);
            }
            1 => {
                v.as_mut_slice().rotate_right(k);
                m.rotate_right(k);
            }
            2 => {
                let mut w = VecCopy::with_type_from(v.as_slice());
                w.extend(v.iter());
                v = w;
            }
            3 => {
                v.resize(n + k, T::make(5)).ok_or("refused")?;
                m.resize(n + k, T::canon(5));
            }
            4 => {
                let mut w: VecCopy<Tab> = make_all::<T>(&m[..k]).into();
                v.append(&mut w).ok_or("refused")?;
                m.extend_from_within(..k);
            }
            _ => {
                let mut sl = v.as_mut_slice();
                sl.swap(k % n, n / 2);
                m.swap(k % n, n / 2);
            }
        }
    }
    cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "data");
    Ok(())
}

fn copies<T: CopyElt + FullElt>(s: &mut Src) -> R {
    cvhistory::<T>(s, 6)
}

fn case(s: &mut Src) -> R {
    let p = Profile { max_ops: 8, max_len: 5, ..BALANCED };
    let pp = Profile { max_ops: 6, max_len: 4, panics: 2, look: 6, refuse: 2, meta: 1, ..BALANCED };
    let c = CProfile { max_ops: 8, max_len: 5, ..CBALANCED };
    let v = VProfile { max_ops: 8, ..VBALANCED };
    let vp = VProfile { max_ops: 6, panics: 2, ..VBALANCED };
    match s.below(20) {
        0..=3 => pick!(s, history(&p); u8, u64, Pad, (u8, u32), [u8; 3], String, Option<Box<u64>>, [String; 3], u128, A64, Tk8, Tk12, TkBox, TkWord),
        4 => pick!(s, history(&pp); Tk8, Tk12, TkBox, TkWord, Tk64),
        5 | 6 => pick!(s, chistory(&c); u8, u64, f32, bool, char, Pad, (u8, u32), (u64, u8), [u8; 3], u128, A64, &'static str, Shape, Option<u32>),
        7 | 8 => pick!(s, vhistory(&v); u8, u64, Pad, (u8, u32), [u8; 3], Box<u64>, [String; 3], Option<Box<u64>>, A64, Tk8, Tk12, TkBox, TkWord),
        9 => pick!(s, vhistory(&vp); Tk8, Tk12, TkBox, TkWord),
        10 => pick!(s, copies(); u64, u8, Pad, (u8, u32), &'static str, Shape, [u64; 3], usize),
        11 => pick!(s, any_life(); Tk8, TkBox, TkWord, Tk12),
        12 => pick!(s, views(); u8, u64, [u8; 3], Pad, (u8, u32), &'static str, char, A16),
        13 => pick!(s, dviews(); u8, u64, Pad, String, Box<u64>, TkBox, Tk12, TkWord),
        14 => match s.below(2) {
            0 => pick!(s, cchain(); u8, u64, f64, bool, char, [u8; 3], [u16; 3], (u8, u32), Pad, Option<u32>, Shape, &'static str, A16, Fun),
            _ => pick!(s, chain(); u8, (u8, u32), Pad, String, Box<u64>, Option<Box<u64>>, [String; 3], TkBox, TkWord, Tk12, Fun),
        },
        16 | 17 => pick!(s, own_life(); (u8, u32), Box<u64>, Option<Box<u64>>, TkWord, u64, [u16; 4], [u8; 8], (u8, u16, u8), String, TkBox, Tk0, Pad),
        18 => pick!(s, far(); A64, A16, (u8, u32), Pad, Option<Box<u64>>, String, [String; 3], TkWord),
        19 => pick!(s, cfar(); A64, A16, B32, (u8, u32), Pad, [u64; 3], u128, &'static str, Option<u32>),
        _ => match s.below(2) {
            0 => {
                fn b<T: CopyElt>(s: &mut Src) -> R {
                    bounds::vec_copy::<T>(s)
                }
                pick!(s, b(); u8, u64, [u8; 3], Pad, (u8, u32), Shape)
            }
            _ => {
                fn b<T: Elt>(s: &mut Src) -> R {
                    bounds::vec_dyn::<T>(s)
                }
                pick!(s, b(); u8, u64, Pad, String, Box<u64>, Tk12)
            }
        },
    }
}
fn main() {
    vh::engine::main(&[("C19", case)])
}
