use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::*;
use vh::src::Src;

fn case(s: &mut Src) -> R {
    let p = CBALANCED;
    match s.below(22) {
        0 => chistory::<u64>(s, &p),
        1 => chistory::<u8>(s, &p),
        2 => chistory::<f32>(s, &p),
        3 => chistory::<u128>(s, &p),
        4 => chistory::<[u8; 3]>(s, &p),
        5 => chistory::<[u64; 3]>(s, &p),
        6 => chistory::<Pad>(s, &p),
        7 => chistory::<(u8, u32)>(s, &p),
        8 => chistory::<A16>(s, &p),
        9 => chistory::<A4096>(s, &p),
        10 => chistory::<B32>(s, &p),
        11 => chistory::<[u8; 100]>(s, &p),
        12 => chistory::<&'static str>(s, &p),
        13 => chistory::<Shape>(s, &p),
        14 => chistory::<Fun>(s, &p),
        15 => chistory::<Option<u32>>(s, &p),
        16 => chistory::<char>(s, &p),
        17 => chistory::<u16>(s, &p),
        18 => chistory::<[u16; 3]>(s, &p),
        19 => chistory::<f64>(s, &p),
        20 => chistory::<[u64; 33]>(s, &p),
        _ => chistory::<bool>(s, &p),
    }
}
fn main() {
    vh::engine::main(&[("C03", case)])
}
