//! The same histories of plain data in every configuration.  All observable results go into the
//! digest of each case, which the check compares between configurations.
use vh::bounds::vec_copy;
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::pick;
use vh::src::Src;
use vh::views::*;
use vh::cke;

fn hist<T: CopyElt>(s: &mut Src) -> R
where
    T::Other: CopyElt,
{
    chistory::<T>(s, &CBALANCED)
}

fn windows<T: CopyElt>(s: &mut Src) -> R {
    let m0: Vec<u64> = s.pays(24).iter().map(|&p| T::canon(p)).collect();
    let mut m = m0.clone();
    let n = m.len();
    let a = s.below(n + 1);
    let b = a + s.below(n - a + 1);
    let depth = s.below(5);
    s.nontrivial = b > a + 1;
    s.log(|| format!("views of {:?} of {}, {}..{}", m, T::name(), a, b));
    s.count("views");
    let mut v: dync::VecCopy<Tab> = make_all::<T>(&m).into();
    if s.bool() {
        cwalk::<T, Tab>(s, v.as_slice().into_subslice(a..b), &m[a..b], depth)?;
    } else {
        cwalk_mut::<T, Tab>(s, v.as_mut_slice().into_subslice(a..b), &mut m[a..b], depth, Cfg { rotate: true })?;
    }
    for x in v.as_slice_as::<T>().unwrap() {
        s.obs(x.pay());
    }
    cke!(v.into_vec::<T>().map(|x| pays(&x)), Some(m), "data");
    Ok(())
}

/// Conversions of numbers, where the feature is on.
#[cfg(feature = "numbers")]
mod numbers {
    use super::*;
    use dync::VecCopy;
    fn one<T: Elt + Copy>(s: &mut Src) -> R {
        let m: Vec<u64> = s.pays(10);
        let v: VecCopy<()> = VecCopy::from_vec(make_all::<T>(&m));
        s.log(|| format!("numbers {:?} of {}", m, T::name()));
        s.count("numbers");
        s.nontrivial = m.len() > 0;
        let text: String = format!("{}", v);
        text.bytes().for_each(|b| s.obs(b as u64));
        v.cast_into_vec::<u8>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<i8>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<u16>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<i16>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<u32>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<i32>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<u64>().iter().for_each(|&x| s.obs(x as u64));
        v.cast_into_vec::<i64>().iter().for_each(|&x| s.obs(x as u64));
        // The sign and payload of not-a-number are not specified.
        v.cast_into_vec::<f32>().iter().for_each(|&x| s.obs(if x.is_nan() { 1 } else { x.to_bits() as u64 }));
        v.cast_into_vec::<f64>().iter().for_each(|&x| s.obs(if x.is_nan() { 1 } else { x.to_bits() as u64 }));
        Ok(())
    }
    pub fn case(s: &mut Src) -> R {
        pick!(s, one(); u8, i8, u16, i16, u32, i32, u64, i64, f32, f64)
    }
}

fn case(s: &mut Src) -> R {
    match s.below(6) {
        0..=2 => pick!(s, hist(); u64, u8, f32, u128, [u8; 3], [u64; 3], Pad, (u8, u32), A16, A4096, B32, [u8; 100], &'static str, Shape, Option<u32>, char, u16, [u16; 3], [u64; 33], bool),
        3 | 4 => pick!(s, vec_copy(); u8, u16, u64, u128, [u8; 3], [u8; 7], [u16; 3], [u64; 3], [u8; 100], Pad, (u8, u32), A64, A4096, A16384, B32, Shape, bool, char),
        _ => pick!(s, windows(); u8, u64, u128, [u8; 3], [u8; 100], [u16; 3], [u64; 3], Pad, A16, A16384, B32, Shape, char, &'static str),
    }
}
fn main() {
    vh::engine::main(&[
        ("C20", case),
        #[cfg(feature = "numbers")]
        ("C20N", numbers::case),
    ])
}
