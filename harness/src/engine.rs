//! Case execution and the command line of the check binaries.
use crate::{alloc, reg, src::*};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Src) -> R;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! cke {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

/// Call one of the instances of a generic function.
#[macro_export]
macro_rules! pick {
    ($s:expr, $f:ident ( $a:expr ); $($t:ty),+ $(,)?) => {{
        let fs: &[fn(&mut $crate::src::Src, &_) -> $crate::engine::R] = &[$( $f::<$t> ),+];
        let k = $s.below(fs.len());
        fs[k]($s, $a)
    }};
    ($s:expr, $f:ident ( ); $($t:ty),+ $(,)?) => {{
        let fs: &[fn(&mut $crate::src::Src) -> $crate::engine::R] = &[$( $f::<$t> ),+];
        let k = $s.below(fs.len());
        fs[k]($s)
    }};
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run something that is expected to panic, or not.
pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    caught(f).is_none()
}

fn run_once(f: CaseFn, s: &mut Src) -> R {
    reg::reset();
    alloc::reset();
    let before = alloc::live();
    let r = catch_unwind(AssertUnwindSafe(|| f(s)));
    reg::disarm();
    let r = match r {
        Ok(r) => r,
        Err(p) => {
            let m = if reg::is_injected(&*p) { "injected panic escaped" } else { "unexpected panic" };
            drop(p);
            Err(format!("{}: {}", m, LAST.with(|l| l.borrow().clone())))
        }
    };
    if let Some(v) = reg::violation() {
        return Err(format!("{}{}", v, r.err().map(|e| format!(" [{}]", e)).unwrap_or_default()));
    }
    if let Some(v) = alloc::violation() {
        return Err(format!("{}{}", v, r.err().map(|e| format!(" [{}]", e)).unwrap_or_default()));
    }
    r?;
    if !s.leak_ok {
        let n = reg::live();
        if n != 0 {
            return Err(format!("{} elements were never dropped", n));
        }
        let after = alloc::live();
        if after != before && !cfg!(miri) {
            return Err(format!("LEAK {} blocks of memory left allocated", after - before));
        }
    }
    Ok(())
}

pub fn run_case(f: CaseFn, s: &mut Src, seed: Option<u64>, tape: &[u64]) -> R {
    let go = |s: &mut Src| {
        match seed {
            Some(x) => s.start_random(x),
            None => s.start_replay(tape.to_vec()),
        }
        run_once(f, s)
    };
    let r = go(s);
    if let Err(m) = &r {
        if m.starts_with("LEAK") {
            // Allocations that are made only once (by the standard library or this harness) are
            // not leaks.
            return go(s);
        }
    }
    r
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(seed ^ 0xD1CE);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(i))
}

pub fn main(props: &[(&str, CaseFn)]) {
    let dflt = std::panic::take_hook();
    let verbose = std::env::var("VH_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if verbose {
            dflt(i);
        }
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let m = format!("{} ({})", m, i.location().map(|l| l.to_string()).unwrap_or_default());
        LAST.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = m;
            }
        });
    }));
    let a: Vec<String> = std::env::args().collect();
    let f = match props.iter().find(|p| Some(p.0) == a.get(2).map(|s| s.as_str())) {
        Some(p) => p.1,
        None => {
            eprintln!("usage: (range PROP SEED START END STEP STATE | tape PROP FILE)");
            std::process::exit(2);
        }
    };
    let mut s = Src::new(1 << 14);
    match a[1].as_str() {
        "range" => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let (seed, start, end, step) = (n(3), n(4), n(5), n(6));
            let samples_wanted = n(8);
            // Only crashes matter.
            let keep = std::env::var("VH_KEEP").is_ok();
            let mut state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&a[7]).ok();
            let mut cases = 0u64;
            let mut nontrivial = std::collections::HashSet::new();
            let mut samples: Vec<String> = Vec::new();
            let mut digests: Vec<(u64, u64)> = Vec::new();
            let mut i = start;
            while i < end {
                if let Some(st) = &mut state {
                    use std::io::{Seek, SeekFrom};
                    let _ = st.seek(SeekFrom::Start(0)).and_then(|_| st.write_all(format!("{:20}", i).as_bytes()));
                }
                let cs = case_seed(seed, &a[2], i);
                let r = run_case(f, &mut s, Some(cs), &[]);
                cases += 1;
                if let Err(_) = &r {
                    if keep {
                        s.count("disagreement with the model");
                        i += step;
                        continue;
                    }
                }
                if let Err(m) = r {
                    println!("{{\"fail\":{},\"index\":{},\"tape\":{:?}}}", json_str(&m), i, s.rec);
                    std::io::stdout().flush().unwrap();
                    std::process::exit(3);
                }
                digests.push((i, s.trace));
                if s.nontrivial {
                    let mut h = 7u64;
                    for &c in &s.rec {
                        h = mix(h ^ c);
                    }
                    let new = nontrivial.insert(h);
                    if new && (samples.len() as u64) < samples_wanted && s.rec.len() > 12 {
                        let keep = s.counts.clone();
                        s.logging = true;
                        let _ = run_case(f, &mut s, Some(cs), &[]);
                        s.logging = false;
                        s.counts = keep;
                        samples.push(s.logs.chars().take(1500).collect());
                        s.logs = String::new();
                    }
                }
                i += step;
            }
            let mut o = String::from("{\"ok\":true,");
            o += &format!("\"cases\":{},\"counts\":{{", cases);
            o += &s.counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
            o += "},\"samples\":[";
            o += &samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
            o += "],\"hashes\":[";
            o += &nontrivial.iter().map(|x| format!("\"{:x}\"", x)).collect::<Vec<_>>().join(",");
            o += "]";
            if std::env::var("VH_DIGESTS").is_ok() {
                o += ",\"digests\":[";
                o += &digests.iter().map(|x| format!("[{},\"{:x}\"]", x.0, x.1)).collect::<Vec<_>>().join(",");
                o += "]";
            }
            o += "}";
            println!("{}", o);
        }
        "one" => {
            // one PROP SEED INDEX FILE: run one case, writing its choices to the file.
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            s.tee = std::fs::File::create(&a[5]).ok();
            let r = run_case(f, &mut s, Some(case_seed(n(3), &a[2], n(4))), &[]);
            match r {
                Ok(()) => println!("PASS"),
                Err(m) => {
                    println!("FAIL {}", m);
                    std::process::exit(3);
                }
            }
        }
        "tape" => {
            let t = std::fs::read_to_string(&a[3]).expect("tape file");
            let tape: Vec<u64> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            s.logging = std::env::var("VH_LOG").is_ok();
            let r = run_case(f, &mut s, None, &tape);
            if s.logging {
                println!("{}", s.logs);
                println!("digest {:x}", s.trace);
            }
            println!("TAPE {:?}", s.rec);
            match r {
                Ok(()) => println!("PASS"),
                Err(m) => {
                    println!("FAIL {}", m);
                    std::process::exit(3);
                }
            }
        }
        _ => std::process::exit(2),
    }
}

/// An iterator that says too much, too little or nothing about its length.
pub struct Hinted<I> {
    i: I,
    k: usize,
}
pub fn hinted<I: Iterator>(s: &mut crate::src::Src, i: I) -> Hinted<I> {
    let k = s.below(8);
    s.log(|| format!("  iterator with hint {}", k));
    Hinted { i, k }
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.i.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (l, h) = self.i.size_hint();
        match self.k {
            0 | 1 => (l, h),
            2 => (0, None),
            3 => (0, Some(0)),
            4 => (l / 2, Some(l / 2)),
            5 => (l + 5, Some(l + 5)),
            6 => (l / 2, None),
            _ => (0, h.map(|h| h * 2 + 3)),
        }
    }
}

/// The payload of the value that a reference shows; torn if the reference is mistaken about it.
#[macro_export]
macro_rules! seen {
    ($T:ty, $v:expr) => {{
        let v = $v;
        if v.is::<$T>() && v.size() == std::mem::size_of::<$T>() && v.value_alignment() == std::mem::align_of::<$T>() {
            v.downcast::<$T>().map_or($crate::elts::TORN, |x| x.pay())
        } else {
            $crate::elts::TORN
        }
    }};
}

/// Mutable values that are all alive at the same time: read, exchanged and read again.
#[macro_export]
macro_rules! at_once {
    ($T:ty, $all:expr, $m:expr, $what:expr) => {{
        let mut all: Vec<_> = $all.collect();
        let m: &[u64] = $m;
        $crate::cke!(all.len(), m.len(), "{}: number of values at once", $what);
        for (i, x) in all.iter().enumerate().rev() {
            $crate::ck!(x.is::<$T>() && x.size() == std::mem::size_of::<$T>() && x.value_alignment() == std::mem::align_of::<$T>(), "{}: value {} of all: type", $what, i);
        }
        let n = all.len();
        for i in 0..n / 2 {
            let (a, b) = all.split_at_mut(n - 1 - i);
            a[i].swap(&mut b[0]);
        }
        let mut all: Vec<&mut $T> = all.into_iter().filter_map(|x| x.downcast::<$T>()).collect();
        let got: Vec<u64> = all.iter().rev().map(|x| x.pay()).collect();
        for i in 0..n / 2 {
            let (a, b) = all.split_at_mut(n - 1 - i);
            std::mem::swap(&mut *a[i], &mut *b[0]);
        }
        $crate::cke!(got, m, "{}: all values at once, exchanged", $what);
        let got: Vec<u64> = all.iter().map(|x| x.pay()).collect();
        $crate::cke!(got, m, "{}: all values at once", $what);
    }};
}
/// The same for mutable chunks.
#[macro_export]
macro_rules! chunks_at_once {
    ($T:ty, $all:expr, $c:expr, $m:expr, $what:expr) => {{
        let mut all: Vec<_> = $all.collect();
        let m: &[u64] = $m;
        let c: usize = $c;
        $crate::cke!(all.len(), m.len() / c, "{}: number of chunks at once", $what);
        for (i, x) in all.iter_mut().enumerate().rev() {
            $crate::cke!(x.as_slice::<$T>().map(|x| $crate::elts::pays(x)), Some(m[i * c..(i + 1) * c].to_vec()), "{}: chunk {} of all", $what, i);
        }
        let all: Vec<&mut $T> = all.into_iter().map(|x| x.into_subslice(c - 1..)).flat_map(|x| x.into_iter()).filter_map(|x| x.downcast::<$T>()).collect();
        let got: Vec<u64> = all.iter().map(|x| x.pay()).collect();
        let want: Vec<u64> = m.chunks_exact(c).map(|x| x[c - 1]).collect();
        $crate::cke!(got, want, "{}: all chunks at once", $what);
    }};
}
