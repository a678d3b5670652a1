"""Programs that move and share containers between threads, with what they must hold afterwards."""

PRELUDE = """
use dync::*;
use dync::traits::*;
use std::sync::atomic::{AtomicIsize, Ordering};
#[dync_trait(dync_crate_name = "dync")]
pub trait Both: Clone + PartialEq + std::fmt::Debug + Send + Sync {}
impl<T> Both for T where T: Clone + PartialEq + std::fmt::Debug + Send + Sync {}
#[dync_trait(dync_crate_name = "dync")]
pub trait Sends: Send + Clone {}
impl<T> Sends for T where T: Clone + Send {}
#[dync_trait(dync_crate_name = "dync")]
pub trait Syncs: std::fmt::Debug + Sync + Clone {}
impl<T> Syncs for T where T: Sync + Clone + std::fmt::Debug {}

pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub trait El: Clone + PartialEq + std::fmt::Debug + 'static { fn el(i: u64) -> Self; fn change(&mut self); }
macro_rules! el { ($t:ty, $i:ident, $e:expr, $s:ident, $c:expr) => { impl El for $t { fn el($i: u64) -> Self { $e } fn change(&mut self) { let $s = self; $c } } } }
el!(u64, i, i * 0x0101_0101, s, *s ^= 0xff00);
el!(u8, i, i as u8, s, *s = s.wrapping_add(1));
el!((u8, u16), i, (i as u8, i as u16 * 7), s, s.1 += 1);
el!([u32; 3], i, [i as u32, 1, 2], s, s[2] += 5);
el!(usize, i, i as usize + 1, s, *s *= 2);
el!(String, i, format!("element {}", i), s, s.push('!'));
el!(Vec<u8>, i, vec![i as u8; i as usize % 5], s, s.push(9));
el!(Box<u32>, i, Box::new(i as u32), s, **s += 3);
el!(Option<Box<u8>>, i, if i % 3 == 0 { None } else { Some(Box::new(i as u8)) }, s, *s = Some(Box::new(1)));
/// Counted.
#[derive(PartialEq, Debug)]
pub struct Tr(Box<u64>);
impl Tr { fn new(x: u64) -> Tr { LIVE.fetch_add(1, Ordering::SeqCst); Tr(Box::new(x)) } }
impl Clone for Tr { fn clone(&self) -> Tr { Tr::new(*self.0) } }
impl Drop for Tr { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
el!(Tr, i, Tr::new(i), s, *s.0 += 1);
/// May be sent but not shared.
#[derive(PartialEq, Debug, Clone)]
pub struct Ce(std::cell::Cell<u64>);
el!(Ce, i, Ce(std::cell::Cell::new(i)), s, s.0.set(s.0.get() + 2));
/// May be shared but not sent.
#[derive(PartialEq, Debug, Clone, Copy)]
pub struct Sh(u64, std::marker::PhantomData<*const u8>);
unsafe impl Sync for Sh {}
el!(Sh, i, Sh(i, std::marker::PhantomData), s, s.0 += 2);

pub fn els<T: El>(a: u64, n: u64) -> Vec<T> { (a..a + n).map(T::el).collect() }
pub fn same<T: El>(got: &[T], want: &[T], what: &str) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {:?}", what, got, want)) }
}
"""

# type: (may be sent, may be shared, plain)
TYPES = {"u64": (1, 1, 1), "u8": (1, 1, 1), "(u8, u16)": (1, 1, 1), "[u32; 3]": (1, 1, 1), "usize": (1, 1, 1), "String": (1, 1, 0), "Vec<u8>": (1, 1, 0),
         "Box<u32>": (1, 1, 0), "Option<Box<u8>>": (1, 1, 0), "Tr": (1, 1, 0), "Ce": (1, 0, 0), "Sh": (0, 1, 1)}
# table: (certifies sending, sharing, clones, has)
TABLES = {"BothVTable": (1, 1, 1, "HasBoth"), "SendsVTable": (1, 0, 1, "HasSends"), "SyncsVTable": (0, 1, 1, "HasSyncs"), "SendVTable": (1, 0, 0, None), "SyncVTable": (0, 1, 0, None)}

# Steps: what they need (S sends, Y shares, B both, C clones, H hidden), whether for D(yn), P(lain) or both; code with v the container, want the model.
STEPS = [
    ("S", "DP", "let mut v = std::thread::spawn(move || { let mut v = v; for x in v.as_mut_slice_as::<T>().unwrap() { x.change(); } v }).join().unwrap(); for x in want.iter_mut() { x.change(); }"),
    ("S", "DP", "let mut v = std::thread::spawn(move || { let mut v = v; for i in 0..N { v.push_as(T::el(100 + i)).unwrap(); } v }).join().unwrap(); for i in 0..N { want.push(T::el(100 + i)); }"),
    ("S", "DP", "{ let mut s = v.as_mut_slice(); let m = s.len() / 2; let (mut a, mut b) = s.split_at(m); std::thread::scope(|t| { t.spawn(move || { for x in a.iter_as::<T>().unwrap() { x.change(); } }); t.spawn(move || { for x in b.as_slice::<T>().unwrap() { x.change(); x.change(); } }); }); let (a, b) = want.split_at_mut(m); for x in a { x.change(); } for x in b { x.change(); x.change(); } }"),
    ("Y", "DP", "std::thread::scope(|t| -> Result<(), String> { let hs: Vec<_> = (0..3).map(|_| { let v = &v; t.spawn(move || { let g = v.as_slice_as::<T>().unwrap(); g.len() }) }).collect(); for h in hs { if h.join().unwrap() != want.len() { return Err(\"shared length\".into()); } } Ok(()) })?;"),
    ("Y", "DP", "{ let s = v.as_slice(); let s2 = s.clone(); let n = std::thread::scope(|t| { let a = t.spawn(move || s.as_slice::<T>().unwrap().iter().map(|x| format!(\"{:?}\", x)).collect::<Vec<_>>()); let b = t.spawn(move || (0..s2.len()).map(|i| format!(\"{:?}\", s2.get(i).downcast::<T>().unwrap())).collect::<Vec<_>>()); (a.join().unwrap(), b.join().unwrap()) }); let w: Vec<_> = want.iter().map(|x| format!(\"{:?}\", x)).collect(); if n.0 != w || n.1 != w { return Err(format!(\"views in threads: {:?} {:?}\", n, w)); } }"),
    ("S", "DP", "{ std::thread::scope(|t| { for x in v.iter_mut() { t.spawn(move || x.downcast::<T>().unwrap().change()); } }); for x in want.iter_mut() { x.change(); } }"),
    ("S", "DP", "{ let mut s = v.as_mut_slice(); std::thread::scope(|t| { for mut c in s.chunks_exact_mut(2) { t.spawn(move || { for x in c.iter_as::<T>().unwrap() { x.change(); } }); } }); let n = want.len() / 2 * 2; for x in want[..n].iter_mut() { x.change(); } }"),
    ("Y", "DP", "{ let n = std::thread::scope(|t| { let hs: Vec<_> = (0..v.len()).map(|i| { let r = GET; t.spawn(move || format!(\"{:?}\", r.downcast::<T>().unwrap())) }).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>() }); let w: Vec<_> = want.iter().map(|x| format!(\"{:?}\", x)).collect(); if n != w { return Err(format!(\"values in threads: {:?} {:?}\", n, w)); } }"),
    ("S", "DP", "let mut v = { let m = std::sync::Mutex::new(v); std::thread::scope(|t| { for k in 0..4 { let m = &m; t.spawn(move || { for i in 0..N { m.lock().unwrap().push_as(T::el(500)).unwrap(); } }); } }); m.into_inner().unwrap() }; for _ in 0..4 * N { want.push(T::el(500)); }"),
    ("B", "DP", "let mut v = { let a = std::sync::Arc::new(v); let hs: Vec<_> = (0..3).map(|_| { let a = a.clone(); std::thread::spawn(move || format!(\"{:?}\", a.as_slice_as::<T>().unwrap())) }).collect(); for h in hs { let x = h.join().unwrap(); if x != format!(\"{:?}\", want) { return Err(x); } } std::sync::Arc::try_unwrap(a).ok().unwrap() };"),
    ("B", "DP", "{ let l = std::sync::RwLock::new(&mut v); std::thread::scope(|t| { for k in 0..3 { let l = &l; t.spawn(move || { let n = l.read().unwrap().len(); l.write().unwrap().push_as(T::el(7)).unwrap(); n }); } }); } for _ in 0..3 { want.push(T::el(7)); }"),
    ("SC", "D", "{ let (s, r) = std::sync::mpsc::channel(); let h = std::thread::spawn(move || { let mut o = Vec::new(); for x in r { let x: BoxValue<V> = x; o.push(format!(\"{:?}\", x.downcast::<T>().unwrap())); } o }); for x in v.iter() { s.send(x.clone_value()).unwrap(); } drop(s); let g = h.join().unwrap(); let w: Vec<_> = want.iter().map(|x| format!(\"{:?}\", x)).collect(); if g != w { return Err(format!(\"sent clones: {:?}\", g)); } }"),
    ("SC", "D", "{ let c = v.clone(); let d = std::thread::spawn(move || { let mut c = c; for x in c.iter_mut_as::<T>().unwrap() { x.change(); } c.clone() }).join().unwrap(); let mut w = want.clone(); for x in w.iter_mut() { x.change(); } same(d.as_slice_as::<T>().unwrap(), &w, \"the clone of a clone\")?; }"),
    ("SC", "D", "{ let c = v.clone(); std::thread::spawn(move || drop(c)).join().unwrap(); }"),
    ("S", "D", "{ let mut o = VecDyn::<V>::from_vec(els::<T>(300, N)); std::thread::scope(|t| { let v = &mut v; t.spawn(move || { v.append(&mut o).unwrap(); }); }); want.extend(els::<T>(300, N)); }"),
    ("S", "D", "{ let b = BoxValue::<V>::new(T::el(400)); let b = std::thread::spawn(move || b).join().unwrap(); v.push(b).unwrap(); want.push(T::el(400)); }"),
    ("SH", "D", "let h = into_dyn![VecDyn<dyn HAS>](v); let h = std::thread::spawn(move || { let mut h = h; for x in h.as_mut_slice_as::<T>().unwrap() { x.change(); } h }).join().unwrap(); let mut v = from_dyn![VecDyn<dyn HAS as V>](h); for x in want.iter_mut() { x.change(); }"),
    ("YH", "D", "let h = into_dyn![VecDyn<dyn HAS>](v); let n = std::thread::scope(|t| { let h = &h; t.spawn(move || h.as_slice().len()).join().unwrap() }); if n != want.len() { return Err(\"hidden length\".into()); } let mut v = from_dyn![VecDyn<dyn HAS as V>](h);"),
    ("S", "D", "if want.len() > 0 { let mut b = BoxValue::<V>::new(T::el(401)); std::thread::scope(|t| { let m = b.as_mut(); t.spawn(move || m.downcast::<T>().unwrap().change()); }); let mut w = T::el(401); w.change(); let g = b.downcast::<T>().unwrap(); if *g != w { return Err(\"the boxed value\".into()); } }"),
]


def program(rng):
    t = rng.choice(sorted(TYPES))
    s, y, p = TYPES[t]
    tabs = [v for v in sorted(TABLES) if (s or not TABLES[v][0]) and (y or not TABLES[v][1])]
    v = rng.choice(tabs)
    vs, vy, vc, has = TABLES[v]
    kind = "P" if p and rng.random() < 0.35 else "D"

    def ok(st):
        n = st[0]
        if kind not in st[1]:
            return False
        return not (("S" in n and not vs) or ("Y" in n and not vy) or ("B" in n and not (vs and vy)) or ("C" in n and not vc) or ("H" in n and not has))
    src = "use super::*;\npub type T = %s;\npub type V = %s;\n" % (t, v)
    src += "pub fn go() -> Result<(), String> {\n    let mut want = els::<T>(%d, %d);\n" % (rng.randrange(50), rng.choice((0, 1, 2, 5, 9)))
    if kind == "D" and v in ("BothVTable",) and rng.random() < 0.35:
        # Converted from a table with more.
        u = rng.choice(["SendVTable", "SyncVTable", "BothVTable"])
        src = src.replace("pub type V = %s" % v, "pub type V = %s" % u)
        src += "    let mut v: VecDyn<V> = VecDyn::<%s>::from_vec(want.clone()).upcast();\n" % v
        vs, vy, vc, has = TABLES[u]
    else:
        src += "    let mut v = %s::<V>::from_vec(want.clone());\n" % ("VecDyn" if kind == "D" else "VecCopy")
    for _ in range(rng.randint(1, 6)):
        c = [st for st in STEPS if ok(st)]
        if not c:
            break
        src += "    " + rng.choice(c)[2].replace("GET", "v.get(i)" if kind == "D" else "v.get_ref(i)").replace("HAS", str(has)).replace("N", str(rng.randrange(1, 6))) + "\n"
        src += "    same(v.as_slice_as::<T>().unwrap(), &want, \"contents\")?;\n"
    end = rng.random()
    if end < 0.3 and vs:
        src += "    std::thread::spawn(move || drop(v)).join().unwrap();\n"
    elif end < 0.6:
        src += "    same(&v.into_vec::<T>().unwrap(), &want, \"recovered\")?;\n"
    src += "    Ok(())\n}\n"
    src += "pub fn run() -> Result<(), String> { let before = LIVE.load(Ordering::SeqCst); go()?; let after = LIVE.load(Ordering::SeqCst); if before != after { return Err(format!(\"{} elements were not dropped once\", after - before)); } Ok(()) }\n"
    return src
