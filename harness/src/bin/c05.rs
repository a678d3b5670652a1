use vh::elts::*;
use vh::engine::*;
use vh::hist_dyn::*;
use vh::pick;
use vh::src::Src;
use vh::tabs::*;
use vh::values::*;

fn case(s: &mut Src) -> R {
    match s.below(10) {
        0 => {
            let p = VProfile { refuse: 5, ..VBALANCED };
            pick!(s, vhistory(&p); Tk8, Tk12, Tk64, TkBox, TkWord, Tk4, Tk0, Tk0a)
        }
        2 => pick!(s, own_life(); Tk8, Tk12, Tk64, TkBox, TkWord, Tk4, Tk0, Tk0a),
        1 => {
            pick!(s, any_life(); Tk8, Tk24, Tk64, TkBox, TkWord)
        }
        3 => {
            // Panics on the way: nothing is dropped twice.
            let p = Profile { panics: 3, max_ops: 20, max_len: 10, clone: 4, write: 4, bulk: 4, value: 6, ..BALANCED };
            pick!(s, history(&p); Tk8, Tk12, TkBox, TkWord)
        }
        _ => {
            let p = Profile { value: 7, convert: 6, refuse: 6, clone: 4, write: 6, max_ops: 30, max_len: 14, ..BALANCED };
            pick!(s, history(&p); Tk4, Tk8, Tk12, Tk24, Tk40, Tk64, Tk128, Tk256, TkBox, TkWord)
        }
    }
}
fn main() {
    vh::engine::main(&[("C05", case)])
}
