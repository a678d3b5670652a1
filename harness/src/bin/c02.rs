use vh::elts::*;
use vh::engine::*;
use vh::hist_dyn::*;
use vh::src::Src;

fn case(s: &mut Src) -> R {
    let p = BALANCED;
    match s.below(18) {
        0 => history::<u64>(s, &p),
        1 => history::<u8>(s, &p),
        2 => history::<String>(s, &p),
        3 => history::<Tk8>(s, &p),
        4 => history::<Tk12>(s, &p),
        5 => history::<Tk24>(s, &p),
        6 => history::<Tk64>(s, &p),
        7 => history::<TkBox>(s, &p),
        8 => history::<TkWord>(s, &p),
        9 => history::<Pad>(s, &p),
        10 => history::<[u8; 3]>(s, &p),
        11 => history::<A4096>(s, &p),
        12 => history::<[String; 3]>(s, &p),
        13 => history::<Option<Box<u64>>>(s, &p),
        14 => history::<(u8, u32)>(s, &p),
        15 => history::<u128>(s, &p),
        16 => history::<[u8; 100]>(s, &p),
        _ => history::<Vec<u32>>(s, &p),
    }
}
fn main() {
    vh::engine::main(&[("C02", case)])
}
