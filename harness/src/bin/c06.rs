use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::hist_dyn::*;
use vh::pick;
use vh::src::Src;
use vh::values::*;

fn case(s: &mut Src) -> R {
    let p = Profile { create: 4, push: 9, bulk: 9, clone: 5, convert: 6, value: 6, meta: 3, refuse: 3, write: 3, slice: 2, max_ops: 30, max_len: 16, ..BALANCED };
    let big = Profile { max_ops: 14, max_len: 5, ..p };
    let c = CProfile { create: 4, push: 9, bulk: 9, clone: 5, convert: 6, meta: 3, refuse: 3, write: 3, slice: 2, reserve: 6, max_ops: 30, max_len: 16, ..CBALANCED };
    let cbig = CProfile { max_ops: 14, max_len: 5, ..c };
    match s.below(17) {
        0..=5 => {
            pick!(s, history(&p); u8, u16, u64, u128, [u8; 3], [u8; 7], [u8; 100], [u16; 3], [u32; 3], [u64; 5], [u64; 33],
                (u8, u16, u8), Pad, B32, A16, A32, A64, A128, A256, A512, String, TkBox, Tk12, Tk128, Option<Box<u64>>, Vec<u32>, W<B32>)
        }
        6 => pick!(s, history(&big); A1024, A2048, A4096, A8192, A16384, Tk256, Tk4k, [u8; 4096]),
        7..=11 => {
            pick!(s, chistory(&c); u8, u16, u64, u128, f32, [u8; 3], [u8; 5], [u8; 9], [u8; 100], [u16; 3], [u32; 3], [u64; 2], [u64; 3],
                [u64; 33], Pad, (u64, u8), B32, A16, A32, A64, A128, A256, A512, Shape)
        }
        12 => pick!(s, chistory(&cbig); A1024, A2048, A4096, A8192, A16384, [u8; 4096]),
        13 if s.one_in(4) => {
            let huge = Profile { max_ops: 6, max_len: 3, ..p };
            pick!(s, history(&huge); A32768, A65536)
        }
        16 => pick!(s, own_life(); u64, u8, [u8; 3], A64, A4096, [String; 3], TkBox, TkWord, Tk0a, B32, Box<u64>, [u16; 4], (u8, u32)),
        _ => {
            let v = VBALANCED;
            pick!(s, vhistory(&v); u8, u16, u64, u128, [u8; 3], [u8; 100], A64, A4096, A16384, [String; 3], TkBox, TkWord, B32, Box<u64>, [u16; 4])
        }
    }
}
fn main() {
    vh::engine::main(&[("C06", case)])
}
