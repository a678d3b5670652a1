use dync::traits::CloneVTable;
use dync::*;
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::{SubTab, Tab};
use vh::src::Src;
use vh::views::*;
use vh::vt::*;
use vh::{cke, pick};

/// Where the data lives, the window into it, and the payloads.
fn frame<T: Elt>(s: &mut Src) -> (Vec<u64>, usize, usize, Cfg) {
    let m: Vec<u64> = if std::mem::size_of::<T>() <= 64 && s.one_in(50) { s.pays(1500) } else if s.one_in(20) { s.pays(200) } else { s.pays(24) };
    let m: Vec<u64> = m.into_iter().map(T::canon).collect();
    let n = m.len();
    let (a, b) = match s.below(3) {
        0 => (0, n),
        _ => {
            let a = s.below(n + 1);
            (a, a + s.below(n - a + 1))
        }
    };
    s.log(|| format!("{} of {:?}, window {}..{}", T::name(), m, a, b));
    s.nontrivial = b > a + 1;
    (m, a, b, Cfg { rotate: true })
}

fn plain<T: CopyElt>(s: &mut Src) -> R {
    let (mut m, a, b, cfg) = frame::<T>(s);
    let depth = s.below(5);
    let kind = s.below(8);
    s.log(|| format!("plain kind {}", kind));
    s.count("plain views");
    match kind {
        0 => {
            let v: Vec<T> = make_all(&m);
            cwalk::<T, Tab>(s, SliceCopy::from_slice(&v[a..b]), &m[a..b], depth)?;
            cke!(pays(&v), m, "data after reading");
        }
        1 => {
            let v: Vec<T> = make_all(&m);
            cwalk::<T, SubTab>(s, SliceCopy::<Tab>::from(&v[a..b]).upcast(), &m[a..b], depth)?;
            cke!(pays(&v), m, "data after reading");
        }
        2 => {
            let v: VecCopy<Tab> = make_all::<T>(&m).into();
            cwalk::<T, Tab>(s, v.as_slice().into_subslice(a..b), &m[a..b], depth)?;
            cke!(v.as_slice_as::<T>().map(pays), Some(m), "data after reading");
        }
        3 => {
            let mut v: Vec<T> = make_all(&m);
            cwalk_mut::<T, ()>(s, SliceCopyMut::from_slice(&mut v[a..b]), &mut m[a..b], depth, cfg)?;
            cke!(pays(&v), m, "data after writing");
        }
        4 => {
            let mut v: Vec<T> = make_all(&m);
            cwalk_mut::<T, SubTab>(s, SliceCopyMut::<Tab>::from(&mut v[a..b]).upcast(), &mut m[a..b], depth, cfg)?;
            cke!(pays(&v), m, "data after writing");
        }
        _ => {
            let mut v: VecCopy<Tab> = make_all::<T>(&m).into();
            cwalk_mut::<T, Tab>(s, v.as_mut_slice().into_subslice(a..b), &mut m[a..b], depth, cfg)?;
            cke!(v.as_slice_as::<T>().map(pays), Some(m), "data after writing");
        }
    }
    Ok(())
}

fn owning<T: Elt>(s: &mut Src) -> R {
    let (mut m, a, b, cfg) = frame::<T>(s);
    let depth = s.below(5);
    let kind = s.below(8);
    s.log(|| format!("kind {}", kind));
    s.count("views");
    match kind {
        0 => {
            let v: Vec<T> = make_all(&m);
            dwalk::<T, PartVTable>(s, Slice::from_slice(&v[a..b]), &m[a..b], depth)?;
            cke!(pays(&v), m, "data after reading");
        }
        1 => {
            let v: Vec<T> = make_all(&m);
            dwalk::<T, CloneVTable>(s, Slice::<PartVTable>::from(&v[a..b]).upcast(), &m[a..b], depth)?;
            cke!(pays(&v), m, "data after reading");
        }
        2 => {
            let v: VecDyn<PartVTable> = make_all::<T>(&m).into();
            dwalk::<T, PartVTable>(s, v.as_slice().into_subslice(a..b), &m[a..b], depth)?;
            cke!(v.as_slice_as::<T>().map(pays), Some(m), "data after reading");
        }
        3 => {
            let mut v: Vec<T> = make_all(&m);
            dwalk_mut::<T, PartVTable>(s, SliceMut::from_slice(&mut v[a..b]), &mut m[a..b], depth, cfg)?;
            cke!(pays(&v), m, "data after writing");
        }
        4 => {
            let mut v: Vec<T> = make_all(&m);
            dwalk_mut::<T, CloneVTable>(s, SliceMut::<PartVTable>::from(&mut v[a..b]).upcast(), &mut m[a..b], depth, cfg)?;
            cke!(pays(&v), m, "data after writing");
        }
        _ => {
            let mut v: VecDyn<PartVTable> = make_all::<T>(&m).into();
            dwalk_mut::<T, PartVTable>(s, v.as_mut_slice().into_subslice(a..b), &mut m[a..b], depth, cfg)?;
            cke!(v.as_slice_as::<T>().map(pays), Some(m), "data after writing");
        }
    }
    Ok(())
}

fn case(s: &mut Src) -> R {
    match s.below(2) {
        0 => pick!(s, plain(); u8, u16, u64, u128, f32, [u8; 3], [u8; 7], [u8; 100], [u16; 3], [u64; 3], Pad, (u8, u32), A16, A4096, A16384, B32, Shape, char, &'static str),
        _ => pick!(s, owning(); u8, u64, [u8; 3], [u64; 3], Pad, A64, A16384, String, Box<u64>, Option<Box<u64>>, [String; 3],
            Tk4, Tk8, Tk12, Tk24, Tk64, Tk256, TkBox, TkWord),
    }
}
fn main() {
    vh::engine::main(&[("C07", case)])
}
