use vh::bounds::*;
use vh::elts::*;
use vh::engine::*;
use vh::pick;
use vh::src::Src;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Nothing;
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(64))]
struct Wide;

fn case(s: &mut Src) -> R {
    match s.below(16) {
        0..=7 => pick!(s, vec_copy(); u8, u16, u64, u128, [u8; 3], [u8; 7], [u16; 3], [u64; 3], [u8; 100], Pad, (u8, u32), A64, A4096, A16384, B32, Shape, bool, char),
        8..=14 => pick!(s, vec_dyn(); u8, u64, [u8; 3], [u64; 3], Pad, A64, A16384, String, [String; 3], Box<u64>, Tk4, Tk8, Tk12, Tk24, Tk40, TkBox),
        _ => match s.below(5) {
            0 => zero(s, ()),
            1 => zero(s, [0u64; 0]),
            2 => zero(s, Nothing),
            3 => zero(s, Wide),
            _ => zero(s, std::marker::PhantomData::<String>),
        },
    }
}
fn main() {
    vh::engine::main(&[("C08", case)])
}
