use vh::elts::*;
use vh::engine::*;
use vh::src::Src;
use vh::values::*;

fn case(s: &mut Src) -> R {
    let p = VBALANCED;
    if s.below(4) == 0 {
        return match s.below(15) {
            0 => cvhistory::<u64>(s, 24),
            1 => cvhistory::<u8>(s, 24),
            2 => cvhistory::<u128>(s, 24),
            3 => cvhistory::<[u8; 3]>(s, 24),
            4 => cvhistory::<[u64; 3]>(s, 24),
            5 => cvhistory::<Pad>(s, 24),
            6 => cvhistory::<(u8, u32)>(s, 24),
            7 => cvhistory::<A64>(s, 24),
            8 => cvhistory::<A4096>(s, 24),
            9 => cvhistory::<&'static str>(s, 24),
            10 => cvhistory::<Shape>(s, 24),
            11 => cvhistory::<()>(s, 24),
            13 => cvhistory::<Z32>(s, 24),
            12 => cvhistory::<Option<u32>>(s, 24),
            _ => cvhistory::<B32>(s, 24),
        };
    }
    if s.below(6) == 0 {
        return vh::pick!(s, own_life(); u64, u8, [u8; 3], A4096, [String; 3], Tk8, TkBox, TkWord, Tk0, Z32, B32, Box<u64>, [u16; 4], (u8, u32));
    }
    match s.below(24) {
        0 => vhistory::<u64>(s, &p),
        1 => vhistory::<u8>(s, &p),
        2 => vhistory::<Tk8>(s, &p),
        3 => vhistory::<Tk4>(s, &p),
        4 => vhistory::<Tk12>(s, &p),
        5 => vhistory::<Tk24>(s, &p),
        6 => vhistory::<Tk64>(s, &p),
        7 => vhistory::<TkBox>(s, &p),
        8 => vhistory::<TkWord>(s, &p),
        9 => vhistory::<Pad>(s, &p),
        10 => vhistory::<[u8; 3]>(s, &p),
        11 => vhistory::<A4096>(s, &p),
        12 => vhistory::<[String; 3]>(s, &p),
        13 => vhistory::<Option<Box<u64>>>(s, &p),
        14 => vhistory::<(u8, u32)>(s, &p),
        15 => vhistory::<u128>(s, &p),
        16 => vhistory::<Box<u64>>(s, &p),
        17 => vhistory::<std::num::NonZeroU64>(s, &p),
        18 => vhistory::<[u16; 4]>(s, &p),
        19 => vhistory::<Tk0>(s, &p),
        20 => vhistory::<Tk0a>(s, &p),
        21 => vhistory::<[u8; 8]>(s, &p),
        22 => vhistory::<Z32>(s, &p),
        _ => vhistory::<usize>(s, &p),
    }
}
fn main() {
    vh::engine::main(&[("C11", case)])
}
