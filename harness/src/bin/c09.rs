use dync::traits::*;
use dync::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Write};
use std::hash::{Hash, Hasher};
use vh::elts::*;
use vh::engine::*;
use vh::src::{mix, Src};
use vh::vt::*;
use vh::{ck, cke, pick};

/// Records what it is given.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
}
/// Treats the kinds of writes differently.
#[derive(Default)]
struct Picky(u64);
impl Hasher for Picky {
    fn write(&mut self, b: &[u8]) {
        self.0 = b.iter().fold(mix(self.0), |h, &x| mix(h ^ x as u64))
    }
    fn write_u8(&mut self, x: u8) {
        self.0 = mix(self.0 ^ 0x11 ^ (x as u64) << 8)
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = mix(self.0 ^ 0x22 ^ (x as u64) << 8)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix(self.0 ^ 0x33).wrapping_add(mix(x))
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = mix(self.0 ^ 0x44).wrapping_add(mix(x as u64))
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn hashed<T: Hash + ?Sized>(x: &T) -> (Vec<u8>, u64, u64) {
    let (mut a, mut b, mut c) = (Tape::default(), Picky::default(), DefaultHasher::new());
    x.hash(&mut a);
    x.hash(&mut b);
    x.hash(&mut c);
    (a.0, b.0, c.finish())
}
/// The elements one after the other.
struct Seq<'a, T>(&'a [T]);
impl<'a, T: Hash> Hash for Seq<'a, T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        for x in self.0 {
            x.hash(h)
        }
    }
}

/// The text of something under a formatting option.
fn text(k: usize, w: usize, p: usize, x: &dyn Debug) -> String {
    let mut o = String::new();
    let r = match k {
        0 => write!(o, "{:?}", x),
        1 => write!(o, "{:#?}", x),
        2 => write!(o, "{:5?}", x),
        3 => write!(o, "{:<8?}", x),
        4 => write!(o, "{:^9?}", x),
        5 => write!(o, "{:>7?}", x),
        6 => write!(o, "{:08?}", x),
        7 => write!(o, "{:.2?}", x),
        8 => write!(o, "{:+?}", x),
        9 => write!(o, "{:x?}", x),
        10 => write!(o, "{:X?}", x),
        11 => write!(o, "{:#x?}", x),
        12 => write!(o, "{:*^12.3?}", x),
        13 => write!(o, "{:#08.1?}", x),
        14 => write!(o, "{:+.3?}", x),
        15 => write!(o, "{:w$?}", x, w = w),
        16 => write!(o, "{:.p$?}", x, p = p),
        17 => write!(o, "{:_>+#w$.p$?}", x, w = w, p = p),
        _ => write!(o, "{:#010X?}", x),
    };
    if r.is_err() {
        o.push_str(" ERR");
    }
    o
}

/// A sequence and one that is related to it.
fn related<T: Elt>(s: &mut Src) -> (Vec<u64>, Vec<u64>) {
    let long = std::mem::size_of::<T>() <= 64 && s.one_in(50);
    let most = if long { [200, 1200][s.below(2)] } else { 12 };
    let m: Vec<u64> = s.pays(most).iter().map(|&p| T::canon(p)).collect();
    let mut w = m.clone();
    let n = m.len();
    match s.below(9) {
        0 | 1 => {}
        2 => {
            w.pop();
        }
        3 => w.push(T::canon(s.pay())),
        4 if n > 0 => {
            let i = s.below(n);
            w[i] = T::canon(s.pay());
        }
        5 if n > 0 => {
            let i = s.below(n);
            w[i] = T::canon(w[i].wrapping_add(7));
        }
        6 if n > 1 => {
            let (i, j) = (s.below(n), s.below(n));
            w.swap(i, j);
        }
        7 if n > 0 => {
            w.remove(0);
        }
        8 => {
            w = s.pays(most).iter().map(|&p| T::canon(p)).collect();
        }
        _ => {
            if let Some(x) = w.last_mut() {
                *x = T::canon(*x ^ 1 << 40);
            }
        }
    }
    s.log(|| format!("{}: {:?} and {:?}", T::name(), m, w));
    s.nontrivial = n > 0;
    if s.bool() {
        (w, m)
    } else {
        (m, w)
    }
}

/// Comparison of containers and values.
fn equal<T: Elt, V>(s: &mut Src) -> R
where
    V: HasDrop + HasPartialEq + VTable<T> + VTable<T::Other> + 'static,
{
    s.count("comparison");
    let (ma, mb) = related::<T>(s);
    let (mut a, mut b): (Vec<T>, Vec<T>) = (make_all(&ma), make_all(&mb));
    let e = a == b;
    let mut va: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&ma));
    let mut vb: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&mb));
    ck!((va == vb) == e && (va != vb) != e, "vectors: expected equal = {}", e);
    ck!((va.as_slice() == vb.as_slice()) == e && (va.as_slice() != vb.as_slice()) != e, "slices: expected equal = {}", e);
    ck!((va.as_mut_slice() == vb.as_mut_slice()) == e, "mut slices: expected equal = {}", e);
    ck!((Slice::<V>::from_slice(&a) == vb.as_slice()) == e, "borrowed slices: expected equal = {}", e);
    ck!((SliceMut::<V>::from_slice(&mut a) == vb.as_mut_slice()) == e, "borrowed mut slices: expected equal = {}", e);
    // Parts of them.
    let (i, j) = (s.below(a.len() + 1), s.below(b.len() + 1));
    let (k, l) = (i + s.below(a.len() - i + 1), j + s.below(b.len() - j + 1));
    let e = a[i..k] == b[j..l];
    ck!((va.as_slice().subslice(i..k) == vb.as_slice().subslice(j..l)) == e, "subslices {}..{} and {}..{}: expected equal = {}", i, k, j, l, e);
    ck!((va.as_mut_slice().subslice_mut(i..k) == vb.as_mut_slice().subslice_mut(j..l)) == e, "mut subslices: expected equal = {}", e);
    // With itself.
    let e = a == *a.as_slice();
    ck!((va == va) == e && (va != va) != e, "vector and itself: expected equal = {}", e);
    let sa = Slice::<V>::from_slice(&a);
    ck!((sa == sa) == e && (sa.reborrow() == sa) == e && (sa == sa.subslice(..)) == e, "slice and itself: expected equal = {}", e);
    let mut c: Vec<T> = make_all(&ma);
    let mut sc = SliceMut::<V>::from_slice(&mut c);
    ck!((sc == sc) == e && (sc != sc) != e, "mut slice and itself: expected equal = {}", e);
    ck!((sc.reborrow() == sc.reborrow()) == e, "mut slice reborrowed twice: expected equal = {}", e);
    let (j, l) = match s.below(3) {
        0 => (i, k),
        1 => (i, i + s.below(a.len() - i + 1)),
        _ => {
            let j = s.below(a.len() + 1);
            (j, j + s.below(a.len() - j + 1))
        }
    };
    let e = a[i..k] == a[j..l];
    ck!((sa.subslice(i..k) == sa.subslice(j..l)) == e, "parts {}..{} and {}..{} of the same slice: expected equal = {}", i, k, j, l, e);
    if !a.is_empty() {
        let i = s.below(a.len());
        let j = if s.bool() { i } else { s.below(a.len()) };
        let e = a[i] == a[j];
        ck!((va.get(i) == va.get(j)) == e && (sa.get(i) == sa.get(j)) == e, "elements {} and {} of the same vector: expected equal = {}", i, j, e);
        let x = BoxValue::<V>::new(T::make(ma[i]));
        let (e, r) = (a[i] == a[i], x.as_ref());
        ck!((x == x) == e && (r == r.reborrow()) == e && (r == r) == e, "boxed value and itself: expected equal = {}", e);
        if let Some(x) = SmallValue::<V>::try_new(T::make(ma[i])) {
            ck!((x == x) == e && (x.as_ref() == x.as_ref()) == e, "small value and itself: expected equal = {}", e);
        }
        let m = sc.get_mut(i);
        ck!((m == m) == e && (m.reborrow() == m.reborrow()) == e, "mut value and itself: expected equal = {}", e);
    }
    // Values.
    for _ in 0..4 {
        if a.is_empty() || b.is_empty() {
            break;
        }
        let (i, j) = (s.below(a.len()), s.below(b.len()));
        let e = a[i] == b[j];
        ck!((va.get(i) == vb.get(j)) == e && (va.get(i) != vb.get(j)) != e, "values {} and {}: expected equal = {}", i, j, e);
        ck!((va.get_mut(i) == vb.get_mut(j)) == e, "mut values: expected equal = {}", e);
        ck!((BoxValue::<V>::new(T::make(ma[i])) == BoxValue::<V>::new(T::make(mb[j]))) == e, "boxed values: expected equal = {}", e);
        let small = |p| SmallValue::<V>::try_new(T::make(p));
        if let (Some(x), Some(y)) = (small(ma[i]), small(mb[j])) {
            ck!((x == y) == e && (x != y) != e, "small values: expected equal = {}", e);
            ck!((x.as_ref() == vb.get(j)) == e, "small value and element: expected equal = {}", e);
        }
        ck!((ValueRef::<V>::new(&a[i]) == vb.get(j)) == e, "borrowed value and element: expected equal = {}", e);
        ck!((ValueMut::<V>::new(&mut b[j]) == ValueMut::<V>::new(&mut T::make(mb[j]))) == (T::make(mb[j]) == T::make(mb[j])), "mut values of the same");
    }
    // Other types are never equal.
    let vo: VecDyn<V> = VecDyn::from_vec(make_all::<T::Other>(&ma));
    // (Empty ones have no contents to tell them apart.)
    if !ma.is_empty() {
        ck!(va != vo && !(va == vo) && !(vo == va), "vectors of different types are equal");
        ck!(va.as_slice() != vo.as_slice() && !(vo.as_slice() == va.as_slice()), "slices of different types are equal");
    }
    for i in 0..ma.len().min(3) {
        ck!(va.get(i) != vo.get(i) && !(vo.get(i) == va.get(i)), "values of different types are equal");
        ck!(BoxValue::<V>::new(T::make(ma[i])) != BoxValue::<V>::new(<T::Other>::make(ma[i])), "boxed values of different types are equal");
        if let (Some(x), Some(y)) = (SmallValue::<V>::try_new(T::make(ma[i])), SmallValue::<V>::try_new(<T::Other>::make(ma[i]))) {
            ck!(x != y && !(y == x), "small values of different types are equal");
        }
    }
    Ok(())
}

/// Text of containers and values.
fn texts<T: Elt, V>(s: &mut Src) -> R
where
    V: HasDrop + HasDebug + VTable<T> + 'static,
{
    s.count("text");
    let (m, _) = related::<T>(s);
    let mut a: Vec<T> = make_all(&m);
    let mut v: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&m));
    for _ in 0..4 {
        let (k, w, p) = (s.below(19), s.below(20), s.below(6));
        s.log(|| format!("formatting option {} {} {}", k, w, p));
        let t = |x: &dyn Debug| text(k, w, p, x);
        cke!(t(&v), t(&a), "text of a vector");
        cke!(t(&v.as_slice()), t(&a), "text of a slice");
        cke!(t(&v.as_mut_slice()), t(&a), "text of a mut slice");
        let b = a.clone();
        cke!(t(&SliceMut::<V>::from_slice(&mut a)), t(&b), "text of a borrowed mut slice");
        let i = s.below(a.len() + 1);
        cke!(t(&v.as_slice().subslice(i..)), t(&&a[i..]), "text of a subslice");
        if i < a.len() {
            cke!(t(&v.get(i)), t(&a[i]), "text of a value");
            cke!(t(&v.get_mut(i)), t(&a[i]), "text of a mut value");
            cke!(t(&BoxValue::<V>::new(T::make(m[i]))), t(&a[i]), "text of a boxed value");
            if let Some(x) = SmallValue::<V>::try_new(T::make(m[i])) {
                cke!(t(&x), t(&a[i]), "text of a small value");
            }
            // Inside of something else.
            cke!(t(&Some((1, v.get(i)))), t(&Some((1, &a[i]))), "text of a value inside a tuple");
            cke!(t(&vec![v.as_slice(), v.as_slice()]), t(&vec![&a, &a]), "text of a vector of slices");
        }
    }
    Ok(())
}

/// Plain values under a table.
fn plain<T: CopyElt>(s: &mut Src) -> R {
    s.count("plain");
    let (ma, mb) = related::<T>(s);
    let (a, mut b): (Vec<T>, Vec<T>) = (make_all(&ma), make_all(&mb));
    type P = PartVTable;
    let mut va: VecCopy<P> = VecCopy::from_vec(a.clone());
    let vo: VecCopy<P> = VecCopy::from_vec(make_all::<T::Other>(&ma));
    for _ in 0..4 {
        if a.is_empty() || b.is_empty() {
            break;
        }
        let (i, j) = (s.below(a.len()), s.below(b.len()));
        let e = a[i] == b[j];
        ck!((va.get_ref(i) == CopyValueRef::<P>::new(&b[j])) == e, "plain values: expected equal = {}", e);
        ck!((va.get_mut(i) == CopyValueMut::<P>::new(&mut b[j])) == e, "plain mut values: expected equal = {}", e);
        ck!((va.as_slice().get(i) != CopyValueRef::<P>::new(&b[j])) != e, "plain slice values: expected equal = {}", e);
        let e = a[i] == a[i];
        ck!((va.get_ref(i) == va.get_ref(i)) == e, "plain value and itself: expected equal = {}", e);
        let m = va.get_mut(i);
        ck!((m == m) == e && (m != m) != e, "plain mut value and itself: expected equal = {}", e);
        ck!(va.get_ref(i) != vo.get_ref(i), "plain values of different types are equal");
        let (k, w, p) = (s.below(19), s.below(20), s.below(6));
        cke!(text(k, w, p, &va.get_ref(i)), text(k, w, p, &a[i]), "text of a plain value");
        cke!(text(k, w, p, &va.get_mut(i)), text(k, w, p, &a[i]), "text of a plain mut value");
        let c: Vec<CopyValueRef<P>> = va.iter().collect();
        cke!(text(k, w, p, &c), text(k, w, p, &a), "text of all plain values");
    }
    Ok(())
}

/// Hashes of containers and values.
fn hashes<T: FullElt, V>(s: &mut Src) -> R
where
    T::Other: FullElt,
    V: HasDrop + HasHash + VTable<T> + VTable<T::Other> + 'static,
{
    s.count("hash");
    let (ma, mb) = related::<T>(s);
    let (a, b): (Vec<T>, Vec<T>) = (make_all(&ma), make_all(&mb));
    let mut va: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&ma));
    let vb: VecDyn<V> = VecDyn::from_vec(make_all::<T>(&mb));
    let h = hashed(&va);
    ck!(h == hashed(&Seq(&a)) || h == hashed(&a) || h.0.ends_with(&hashed(&Seq(&a)).0), "hash of a vector: got {:?} for {:?}", h, a);
    if a == b {
        ck!(h == hashed(&vb), "equal vectors have different hashes");
    }
    for i in 0..a.len().min(4) {
        let e = hashed(&a[i]);
        let what = "hash of a value";
        ck!(hashed(&va.get(i)) == e, "{}", what);
        ck!(hashed(&va.get_mut(i)) == e, "{} (mut)", what);
        ck!(hashed(&BoxValue::<V>::new(T::make(ma[i]))) == e, "{} (boxed)", what);
        ck!(hashed(&ValueRef::<V>::new(&a[i])) == e, "{} (borrowed)", what);
        if let Some(x) = SmallValue::<V>::try_new(T::make(ma[i])) {
            ck!(hashed(&x) == e, "{} (small)", what);
        }
    }
    let t = (hashed(&va.iter().collect::<Vec<_>>()), hashed(&a.iter().collect::<Vec<_>>()));
    ck!(t.0 == t.1, "hash of all values");
    Ok(())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key<T: FullElt>
where
    T::Other: FullElt,
{
    This(T),
    Other(T::Other),
}

/// Hash maps keyed by values of two types behave as if keyed by the typed values.
fn maps<T: FullElt, V>(s: &mut Src) -> R
where
    T::Other: FullElt,
    V: HasDrop + HasHash + HasEq + VTable<T> + VTable<T::Other> + 'static,
{
    s.count("map");
    let small = s.bool() && std::mem::size_of::<T>() == std::mem::size_of::<usize>();
    let mut boxed: HashMap<BoxValue<V>, usize> = HashMap::new();
    let mut word: HashMap<SmallValue<V>, usize> = HashMap::new();
    let mut model: HashMap<Key<T>, usize> = HashMap::new();
    let space = s.range(1, 20);
    let n = s.range(1, 30);
    s.log(|| format!("map of {} ({} keys)", T::name(), space));
    for i in 0..n {
        let p = s.below(space) as u64;
        let other = s.one_in(3);
        let mkey = if other { Key::Other(<T::Other>::make(p)) } else { Key::This(T::make(p)) };
        let k = s.below(5);
        s.log(|| format!("map op {} on {} {}", k, other, p));
        macro_rules! go {
            ($map:ident, $new:ident) => {{
                let key = || if other { $new::<V>::new(<T::Other>::make(p)) } else { $new::<V>::new(T::make(p)) };
                match k {
                    0 | 1 => cke!($map.insert(key(), i), model.insert(mkey, i), "insert"),
                    2 => cke!($map.remove(&key()), model.remove(&mkey), "remove"),
                    3 => cke!($map.get(&key()).copied(), model.get(&mkey).copied(), "get"),
                    _ => {
                        *$map.entry(key()).or_insert(0) += i;
                        *model.entry(mkey).or_insert(0) += i;
                    }
                }
                cke!($map.len(), model.len(), "number of keys");
            }};
        }
        if small {
            go!(word, SmallValue)
        } else {
            go!(boxed, BoxValue)
        }
    }
    let mut got: Vec<(bool, u64, usize)> = Vec::new();
    let mut see = |v: ValueRef<V>, n: usize| {
        let x = v.reborrow().downcast::<T>().map(|x| (false, x.pay(), n));
        got.push(x.or_else(|| v.downcast::<T::Other>().map(|x| (true, x.pay(), n))).unwrap_or((true, TORN, n)));
    };
    boxed.iter().for_each(|(k, n)| see(k.as_ref(), *n));
    word.iter().for_each(|(k, n)| see(k.as_ref(), *n));
    let mut want: Vec<_> = model
        .iter()
        .map(|(k, n)| match k {
            Key::This(x) => (false, x.pay(), *n),
            Key::Other(x) => (true, x.pay(), *n),
        })
        .collect();
    got.sort();
    want.sort();
    cke!(got, want, "contents of the map");
    // A set of vectors.
    let mut set: HashSet<VecDyn<V>> = HashSet::new();
    let mut mset: HashSet<Vec<T>> = HashSet::new();
    for _ in 0..s.below(8) {
        let l = s.below(4);
        let m: Vec<u64> = (0..l).map(|_| s.below(3) as u64).collect();
        cke!(set.insert(VecDyn::from_vec(make_all::<T>(&m))), mset.insert(make_all::<T>(&m)), "inserting {:?} into a set of vectors", m);
    }
    // A set of borrowed values.
    let keep: Vec<T> = (0..s.below(8)).map(|_| T::make(s.below(space) as u64)).collect();
    let set: HashSet<ValueRef<V>> = keep.iter().map(ValueRef::new).collect();
    let mset: HashSet<&T> = keep.iter().collect();
    cke!(set.len(), mset.len(), "set of borrowed values");
    for p in 0..space as u64 {
        let x = T::make(p);
        cke!(set.contains(&ValueRef::new(&x)), mset.contains(&x), "set of borrowed values: {}", p);
    }
    s.nontrivial = n > 1;
    Ok(())
}

/// Values without data still have behaviours.
fn nothing(s: &mut Src) -> R {
    s.count("no data");
    s.nontrivial = true;
    let (k, w, p) = (s.below(19), s.below(20), s.below(6));
    s.log(|| format!("values without data, formatting option {} {} {}", k, w, p));
    type V = FullVTable;
    let (n, z) = (Nil, Z32);
    let (mut n2, mut z2) = (Nil, Z32);
    let (bn, bz) = (BoxValue::<V>::new(Nil), BoxValue::<V>::new(Z32));
    let (rn, rz) = (ValueRef::<V>::new(&n), ValueRef::<V>::new(&z));
    cke!(rn == rn, false, "an element never equal to itself");
    cke!(rn == ValueRef::new(&n2), false, "elements that are never equal");
    cke!(bn == bn, false, "a boxed element never equal to itself");
    cke!(rz == rz, true, "an element equal to itself");
    cke!(bz == bz, true, "a boxed element equal to itself");
    ck!(rn != rz && bn != bz && rz != bn.as_ref(), "values of different types are equal");
    for r in [rn.reborrow(), bn.as_ref(), ValueRef::from(ValueMut::<V>::new(&mut n2))] {
        ck!(hashed(&r) == hashed(&n), "hash of a value without data");
        cke!(text(k, w, p, &r), text(k, w, p, &n), "text of a value without data");
    }
    for r in [rz, bz.as_ref(), ValueRef::from(ValueMut::<V>::new(&mut z2))] {
        ck!(hashed(&r) == hashed(&z), "hash of a value without data");
        cke!(text(k, w, p, &r), text(k, w, p, &z), "text of a value without data");
    }
    ck!(hashed(&bn) == hashed(&n) && hashed(&bz) == hashed(&z), "hash of a boxed value without data");
    cke!(text(k, w, p, &bn), text(k, w, p, &n), "text of a boxed value without data");
    ck!(ValueMut::<V>::new(&mut n2) != ValueMut::<V>::new(&mut Nil), "mut values that are never equal");
    let mut set: HashSet<BoxValue<V>> = HashSet::new();
    for _ in 0..3 {
        set.insert(BoxValue::new(Nil));
        set.insert(BoxValue::new(Z32));
    }
    cke!(set.len(), 4, "set of values without data");
    let (c, d) = (CopyValueRef::<V>::new(&n), CopyValueRef::<V>::new(&z));
    ck!(c != c && d == d && c != d, "plain values without data");
    cke!(text(k, w, p, &c), text(k, w, p, &n), "text of a plain value without data");
    Ok(())
}

// With fixed tables, for `pick!`.
fn equal_p<T: Elt>(s: &mut Src) -> R {
    match s.below(4) {
        0 => equal::<T, PartialEqVTable>(s),
        _ => equal::<T, PartVTable>(s),
    }
}
fn equal_f<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    match s.below(2) {
        0 => equal::<T, EqVTable>(s),
        _ => equal::<T, FullVTable>(s),
    }
}
fn texts_p<T: Elt>(s: &mut Src) -> R {
    match s.below(3) {
        0 => texts::<T, DebugVTable>(s),
        _ => texts::<T, PartVTable>(s),
    }
}
fn hashes_f<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    match s.below(3) {
        0 => hashes::<T, HashVTable>(s),
        _ => hashes::<T, FullVTable>(s),
    }
}
fn maps_f<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    maps::<T, FullVTable>(s)
}

fn case(s: &mut Src) -> R {
    match s.below(7) {
        0 => pick!(s, equal_p(); f32, f64, [f64; 3], Lop, Never, Fancy, u8, Shape, String, Tk12, TkBox, (u8, u32), Deep, char, Fold1, Fold2, Fold3, Fold4, Fold8, Fold16, FoldF),
        1 => pick!(s, equal_f(); u8, u64, [u8; 3], Pad, String, Fancy, Deep, Tk12, TkWord, Option<u32>, B32, A4096, Vec<u32>, Fold1, Fold2, Fold3, Fold4, Fold8, Fold16, FoldF),
        2 => pick!(s, texts_p(); f32, f64, Fancy, Deep, u8, i64, String, &'static str, char, Shape, Option<Box<u64>>, [u16; 3], (String, u8), TkWord, Lop, Fold1, Fold4, Fold8, FoldF),
        3 => pick!(s, hashes_f(); u8, u64, [u8; 3], Pad, String, Fancy, Deep, Tk12, TkWord, Option<u32>, B32, &'static str, Vec<u32>, (u8, u16, u8), u128, Fold1, Fold2, Fold3, Fold4, Fold8, Fold16, FoldF),
        4 => pick!(s, maps_f(); u8, u64, [u8; 3], Pad, String, Fancy, Deep, TkWord, Tk12, &'static str, Vec<u32>, Fold1, Fold3, Fold8, FoldF),
        5 => nothing(s),
        _ => pick!(s, plain(); f32, f64, [f64; 3], Lop, Fancy, u8, u64, Shape, Pad, char, &'static str, (u8, u32), A64, Fold1, Fold2, Fold3, Fold4, Fold8, Fold16, FoldF),
    }
}
fn main() {
    vh::engine::main(&[("C09", case)])
}
