use std::num::*;
use vh::elts::*;
use vh::engine::*;
use vh::pick;
use vh::routes::*;
use vh::src::Src;

fn case(s: &mut Src) -> R {
    match s.below(5) {
        0 | 1 => pick!(s, cchain();
            u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, bool, char,
            [u8; 1], [u8; 3], [u8; 5], [u8; 7], [u8; 9], [u8; 16], [u8; 100], [u8; 4096], [u16; 3], [u32; 2], [u32; 3], [u64; 3], [u64; 33],
            [f64; 3], (u8, u32), (u64, u8), (u8, u16, u8), Pad, Option<u32>, Option<bool>, NonZeroU64, NonZeroU8, Option<NonZeroU16>,
            Shape, &'static str, Fun, A16, A64, A256, A1024, A4096, A16384, B32),
        2 => pick!(s, chain();
            u8, i16, u32, i64, u128, f32, f64, bool, char, usize, [u8; 3], [u8; 5], [u8; 9], [u8; 100], [u16; 3], [u16; 4], [u64; 2], [u64; 33],
            [f64; 3], (u8, u32), (u64, u8), Pad, Option<u32>, NonZeroU64, Shape, &'static str, Fun, A16, A64, A512, A4096, A32768, B32),
        _ => pick!(s, chain();
            String, Box<u64>, std::rc::Rc<u64>, Vec<u32>, Option<Box<u64>>, (String, u8), [String; 3],
            Tk4, Tk8, Tk12, Tk24, Tk40, Tk64, Tk128, Tk256, Tk4k, TkBox, TkWord, W<Tk8>, W<String>),
    }
}
fn main() {
    vh::engine::main(&[("C01", case)])
}
