use dync::traits::*;
use dync::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vh::elts::*;
use vh::engine::*;
use vh::hist_copy::{ccheck_slice, ccheck_vec, HasTab, SubTab, Tab};
use vh::hist_dyn::{check_vec, Alien};
use vh::reg;
use vh::src::Src;
use vh::vt::*;
use vh::{ck, cke, pick, seen};

type V = FullVTable;
type Hid = VecDyn<dyn HasFull>;

fn hash1(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn live<T: Elt>(n: usize, what: &str) -> R {
    if T::TRACKED {
        cke!(reg::live(), n as i64, "live elements after {}", what);
    }
    Ok(())
}

/// One use of a vector whose table is hidden.
fn use_hidden<T: FullElt>(s: &mut Src, v: &mut Hid, m: &mut Vec<u64>) -> R
where
    T::Other: FullElt,
{
    let n = m.len();
    let p = T::canon(s.pay());
    let k = s.below(24);
    s.log(|| format!("hidden use {} ({}) of {:?}", k, p, m));
    s.count("hidden use");
    match k {
        0 => {
            ck!(v.push_as(T::make(p)).is_some(), "hidden push_as: refused");
            m.push(p);
        }
        1 => {
            ck!(v.push(BoxValue::<V>::new(T::make(p))).is_some(), "hidden push: refused");
            m.push(p);
        }
        2 => {
            ck!(v.push_as(<T::Other>::make(p)).is_none(), "hidden push_as: took another type");
            ck!(v.push(BoxValue::<DropVTable>::new(Alien(p))).is_none(), "hidden push: took another type");
        }
        3 => {
            // Push clones of the elements of another hidden vector.
            let w: Vec<u64> = s.pays(4).iter().map(|&p| T::canon(p)).collect();
            let o: VecDyn<V> = make_all::<T>(&w).into();
            let o = into_dyn![VecDyn<dyn HasFull>](o);
            for x in o.iter() {
                ck!(v.push_cloned(x).is_some(), "hidden push_cloned: refused");
            }
            m.extend(w);
        }
        4 => {
            let w: Vec<u64> = s.pays(6).iter().map(|&p| T::canon(p)).collect();
            let o: VecDyn<V> = make_all::<T>(&w).into();
            let mut o = into_dyn![VecDyn<dyn HasFull>](o);
            ck!(v.append(&mut o).is_some() && o.is_empty(), "hidden append: refused");
            m.extend(w);
        }
        5 => {
            let l = s.below(n + 5);
            ck!(v.resize(l, T::make(p)).is_some(), "hidden resize: refused");
            m.resize(l, p);
        }
        6 => {
            ck!(v.fill(T::make(p)).is_some(), "hidden fill: refused");
            m.iter_mut().for_each(|x| *x = p);
        }
        7 if n > 0 => {
            let (i, j) = (s.below(n), s.below(n));
            v.as_mut_slice().swap(i, j);
            m.swap(i, j);
        }
        8 => {
            let k = s.below(n + 1);
            v.rotate_left(k);
            m.rotate_left(k);
        }
        9 if n > 0 => {
            let i = s.below(n);
            *v.get_mut(i).downcast::<T>().ok_or("hidden get_mut: refused")? = T::make(p);
            m[i] = p;
        }
        10 if n > 1 => {
            let k = s.range(1, n - 1);
            let (i, j) = (s.below(k), s.below(n - k));
            let mut sl = v.as_mut_slice();
            let (mut a, mut b) = sl.split_at(k);
            a.get_mut(i).swap(&mut b.get_mut(j));
            m.swap(i, k + j);
        }
        11 if n > 1 => {
            // Clone an element of another hidden vector over one of this.
            let i = s.below(n);
            let o: VecDyn<V> = make_all::<T>(&[p]).into();
            let o = into_dyn![VecDyn<dyn HasFull>](o);
            ck!(v.get_mut(i).clone_from_other(o.get(0)).is_ok(), "hidden clone_from_other: refused");
            m[i] = p;
        }
        12 => {
            v.clear();
            m.clear();
        }
        13 => {
            let t: Vec<T> = make_all(m);
            cke!(format!("{:?} {:#?}", v, v.as_slice()), format!("{:?} {:#?}", t, t), "hidden text");
        }
        14 => {
            let t: VecDyn<V> = make_all::<T>(m).into();
            cke!(hash1(v), hash1(&t), "hidden hash");
            for (x, &p) in v.iter().zip(m.iter()) {
                cke!(hash1(&x), hash1(&T::make(p)), "hidden hash of a value");
            }
        }
        15 => {
            let t: VecDyn<V> = make_all::<T>(m).into();
            let t = into_dyn![VecDyn<dyn HasFull>](t);
            ck!(*v == t && t == *v && v.as_slice() == t.as_slice(), "hidden equality: equal ones differ");
            let mut m2 = m.clone();
            m2.push(p);
            let t: VecDyn<V> = make_all::<T>(&m2).into();
            ck!(*v != into_dyn![VecDyn<dyn HasFull>](t), "hidden equality: different ones are equal");
        }
        16 => {
            cke!(v.iter().map(|x| seen!(T, x)).collect::<Vec<_>>(), *m, "hidden iter");
            cke!(v.iter_mut().map(|x| seen!(T, x)).collect::<Vec<_>>(), *m, "hidden iter_mut");
            cke!(v.as_slice().iter().map(|x| seen!(T, x)).collect::<Vec<_>>(), *m, "hidden slice iter");
        }
        17 => {
            cke!(v.clone_into_vec::<T>().map(|x| pays(&x)), Some(m.clone()), "hidden clone_into_vec");
            ck!(v.clone_into_vec::<T::Other>().is_none() && v.iter_as::<T::Other>().is_none(), "hidden vector: gave another type");
        }
        18 if n > 0 => {
            let a = s.below(n);
            let b = a + s.below(n - a + 1);
            cke!(v.as_slice().subslice(a..b).as_slice::<T>().map(pays), Some(m[a..b].to_vec()), "hidden subslice");
            let c = s.range(1, n);
            let got: Option<Vec<Vec<u64>>> = v.as_mut_slice().chunks_exact_mut(c).map(|mut x| x.as_slice::<T>().map(|x| pays(x))).collect();
            cke!(got, Some(m.chunks_exact(c).map(|x| x.to_vec()).collect::<Vec<_>>()), "hidden chunks");
        }
        19 => {
            ck!(v.element_type_id() == std::any::TypeId::of::<T>() && v.element_size() == std::mem::size_of::<T>(), "hidden type information");
            ck!(v.check_ref::<T>().is_some() && v.check_ref::<T::Other>().is_none(), "hidden check");
        }
        20 => {
            let t = &*v.vtable();
            ck!(t.downcast_ref::<V>().is_some(), "hidden table: identity");
        }
        21 => {
            // A slice can be restored on its own.
            let sl = from_dyn![Slice<dyn HasFull as FullVTable>](v.as_slice());
            cke!(sl.as_slice::<T>().map(pays), Some(m.clone()), "slice restored from a hidden vector");
            let mut w = VecDyn::<V>::with_type_from(sl);
            ck!(w.push_as(T::make(p)).is_some() && w.push_as(<T::Other>::make(p)).is_none(), "vector made from a restored slice");
            check_vec::<T>(&mut w, &[p], s.below(48))?;
        }
        22 => {
            let mut sl = from_dyn![SliceMut<dyn HasFull as FullVTable>](v.as_mut_slice());
            if n > 0 {
                let i = s.below(n);
                sl.get_mut(i).assign(BoxValue::<V>::new(T::make(p)));
                m[i] = p;
            }
            cke!(sl.as_slice::<T>().map(|x| pays(x)), Some(m.clone()), "mut slice restored from a hidden vector");
        }
        _ => {
            if let Some(i) = n.checked_sub(1) {
                cke!(seen!(T, v.get(i)), m[i], "hidden get");
                cke!(v.get_ref_as::<T>(0).map(|x| x.pay()), Some(m[0]), "hidden get_ref_as");
            }
        }
    }
    Ok(())
}

/// Hiding and restoring vectors over and over.
fn vector<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let mut m: Vec<u64> = s.pays(8).iter().map(|&p| T::canon(p)).collect();
    s.log(|| format!("vector of {} of {}", m.len(), T::name()));
    s.count("vector");
    let mut v: VecDyn<V> = make_all::<T>(&m).into();
    for round in 0..s.range(1, 4) {
        let at = v.as_slice_as::<T>().map(|x| x.as_ptr());
        let mut h: Hid = into_dyn![VecDyn<dyn HasFull>](v);
        live::<T>(m.len(), "hiding")?;
        ck!(h.as_slice_as::<T>().map(|x| x.as_ptr()) == at, "hiding moved the elements");
        for _ in 0..s.below(7) {
            use_hidden::<T>(s, &mut h, &mut m)?;
            cke!(h.len(), m.len(), "length of the hidden vector");
            cke!(h.as_slice_as::<T>().map(pays), Some(m.clone()), "contents of the hidden vector");
            live::<T>(m.len(), "using a hidden vector")?;
        }
        if s.one_in(8) {
            s.log(|| format!("end hidden"));
            match s.below(3) {
                0 => drop(h),
                1 => cke!(h.into_vec::<T>().map(|x| pays(&x)), Some(m), "into_vec of a hidden vector"),
                _ => ck!(h.into_vec::<T::Other>().is_none(), "into_vec of a hidden vector: gave another type"),
            }
            return live::<T>(0, "the end of a hidden vector");
        }
        v = from_dyn![VecDyn<dyn HasFull as FullVTable>](h);
        live::<T>(m.len(), "restoring")?;
        for _ in 0..3 {
            check_vec::<T>(&mut v, &m, s.below(24 * 24))?;
        }
        // Everything the table provides still works.
        let k = s.below(6);
        s.log(|| format!("round {}: use {}", round, k));
        match k {
            0 => {
                let mut w = v.clone();
                check_vec::<T>(&mut w, &m, 1)?;
                ck!(w == v && hash1(&w) == hash1(&v), "clone of a restored vector");
            }
            1 => {
                let p = T::canon(s.pay());
                let mut w = VecDyn::<V>::with_type_from(&v);
                ck!(w.push(BoxValue::<V>::new(T::make(p))).is_some(), "vector made from a restored one");
                ck!(v.append(&mut w).is_some(), "append to a restored vector");
                m.push(p);
            }
            2 if !m.is_empty() => {
                let b = v.get(0).clone_value();
                ck!(b.as_ref() == v.get(0), "clone of an element of a restored vector");
            }
            3 => {
                let w = v.clone().upcast::<CloneVTable>();
                cke!(w.clone().into_vec::<T>().map(|x| pays(&x)), Some(m.clone()), "upcast of a restored vector");
            }
            _ => {}
        }
        s.nontrivial |= m.len() > 1;
    }
    Ok(())
}

/// Slices.
fn slice<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let mut m: Vec<u64> = s.pays(10).iter().map(|&p| T::canon(p)).collect();
    let n = m.len();
    let k = s.below(4);
    let (a, b) = { let a = s.below(n + 1); (a, a + s.below(n - a + 1)) };
    s.log(|| format!("slice kind {} {}..{} of {} of {}", k, a, b, n, T::name()));
    s.count("slice");
    let mut v: VecDyn<V> = make_all::<T>(&m).into();
    let mut raw: Vec<T> = make_all(&m);
    match k {
        0 | 1 => {
            let sl = if k == 0 { v.as_slice().into_subslice(a..b) } else { Slice::<V>::from_slice(&raw[a..b]) };
            let at = sl.as_slice::<T>().map(|x| x.as_ptr());
            let h: Slice<dyn HasFull> = into_dyn![Slice<dyn HasFull>](sl);
            cke!(h.as_slice::<T>().map(pays), Some(m[a..b].to_vec()), "hidden slice");
            ck!(h.as_slice::<T>().map(|x| x.as_ptr()) == at, "hidden slice: other elements");
            ck!(h.as_slice::<T::Other>().is_none() && h.check::<T>().is_some(), "hidden slice: type");
            cke!(format!("{:?}", h), format!("{:?}", &make_all::<T>(&m[a..b])), "hidden slice: text");
            for (i, x) in h.iter().enumerate() {
                cke!(hash1(&x), hash1(&T::make(m[a + i])), "hidden slice: hash");
                cke!(x.downcast::<T>().map(|x| x.pay()), Some(m[a + i]), "hidden slice: value");
            }
            let c = s.below(b - a + 1);
            let (x, y) = h.split_at(c);
            cke!(x.as_slice::<T>().map(pays), Some(m[a..a + c].to_vec()), "hidden slice: left");
            cke!(y.clone_into_vec::<T>().map(|x| pays(&x)), Some(m[a + c..b].to_vec()), "hidden slice: right");
            ck!(h.subslice(..) == h.reborrow(), "hidden slice: equality");
            if s.bool() {
                // Restore a part.
                let p = from_dyn![Slice<dyn HasFull as FullVTable>](h.subslice(c..));
                cke!(p.as_slice::<T>().map(pays), Some(m[a + c..b].to_vec()), "restored part");
            }
            let r = from_dyn![Slice<dyn HasFull as FullVTable>](h);
            cke!(r.as_slice::<T>().map(pays), Some(m[a..b].to_vec()), "restored slice");
            ck!(r.as_slice::<T>().map(|x| x.as_ptr()) == at, "restored slice: other elements");
            let mut w = VecDyn::<V>::with_type_from(r.reborrow());
            for x in r.into_iter() {
                ck!(w.push_cloned(x).is_some(), "push_cloned from a restored slice");
            }
            check_vec::<T>(&mut w, &m[a..b], s.below(24 * 24))?;
            ck!(hash1(&w) == hash1(&w.clone()), "hash of a vector made from a restored slice");
        }
        _ => {
            {
                let sl = if k == 2 { v.as_mut_slice().into_subslice(a..b) } else { SliceMut::<V>::from_slice(&mut raw[a..b]) };
                let mut h: SliceMut<dyn HasFull> = into_dyn![SliceMut<dyn HasFull>](sl);
                let w = &mut m[a..b];
                for _ in 0..s.below(5) {
                    let p = T::canon(s.pay());
                    let l = w.len();
                    match s.below(6) {
                        0 if l > 0 => {
                            let i = s.below(l);
                            *h.get_as::<T>(i).ok_or("hidden mut slice: get_as")? = T::make(p);
                            w[i] = p;
                        }
                        1 if l > 0 => {
                            let (i, j) = (s.below(l), s.below(l));
                            h.swap(i, j);
                            w.swap(i, j);
                        }
                        2 => {
                            let k = s.below(l + 1);
                            h.rotate_right(k);
                            w.rotate_right(k);
                        }
                        3 if l > 0 => {
                            let i = s.below(l);
                            let o: VecDyn<V> = make_all::<T>(&[p]).into();
                            let o = into_dyn![VecDyn<dyn HasFull>](o);
                            ck!(h.get_mut(i).clone_from_other(o.get(0)).is_ok(), "hidden mut slice: clone_from_other");
                            w[i] = p;
                        }
                        4 if l > 0 => {
                            let i = s.below(l);
                            let mut r = from_dyn![SliceMut<dyn HasFull as FullVTable>](h.reborrow_mut());
                            r.get_mut(i).assign(BoxValue::<V>::new(T::make(p)));
                            w[i] = p;
                        }
                        _ => {
                            let r = from_dyn![Slice<dyn HasFull as FullVTable>](h.reborrow());
                            ck!(r == Slice::<V>::from_slice(&make_all::<T>(w)), "hidden mut slice: restored borrow");
                        }
                    }
                    cke!(h.as_slice::<T>().map(|x| pays(x)), Some(w.to_vec()), "hidden mut slice");
                }
                ck!(h.as_slice::<T::Other>().is_none(), "hidden mut slice: gave another type");
                cke!(format!("{:?}", h), format!("{:?}", &make_all::<T>(w)), "hidden mut slice: text");
                let r = from_dyn![SliceMut<dyn HasFull as FullVTable>](h);
                for (i, x) in r.into_iter().enumerate() {
                    if i % 2 == 0 {
                        let mut x = x;
                        x.assign(BoxValue::<V>::new(T::make(w[i])));
                    }
                }
            }
            let mut mm = pays(&raw);
            if k == 2 {
                mm[a..b].copy_from_slice(&m[a..b]);
                cke!(v.as_slice_as::<T>().map(pays), Some(m.clone()), "data after use of a hidden mut slice");
                cke!(mm, m, "unrelated data");
            } else {
                cke!(mm, m, "data after use of a hidden mut slice");
            }
        }
    }
    live::<T>(2 * n, "use of hidden slices")?;
    s.nontrivial = b > a;
    Ok(())
}

/// Plain data.
fn plain<T: CopyElt>(s: &mut Src) -> R {
    let mut m: Vec<u64> = s.pays(10).iter().map(|&p| T::canon(p)).collect();
    s.log(|| format!("plain vector of {} of {}", m.len(), T::name()));
    s.count("plain vector");
    let mut v: VecCopy<Tab> = make_all::<T>(&m).into();
    for _ in 0..s.range(1, 3) {
        let at = v.as_slice_as::<T>().map(|x| x.as_ptr());
        let mut h: VecCopy<dyn HasTab> = into_dyn![VecCopy<dyn HasTab>](v);
        ck!(h.as_slice_as::<T>().map(|x| x.as_ptr()) == at, "hiding moved the elements");
        for _ in 0..s.below(6) {
            let n = m.len();
            let p = T::canon(s.pay());
            let k = s.below(14);
            s.log(|| format!("hidden plain use {} ({})", k, p));
            match k {
                0 => {
                    ck!(h.push_as(T::make(p)).is_some(), "hidden push_as: refused");
                    m.push(p);
                }
                1 => {
                    ck!(h.push(CopyValueRef::<Tab>::new(&T::make(p))).is_some(), "hidden push: refused");
                    m.push(p);
                }
                2 => {
                    let o: VecCopy<Tab> = VecCopy::from_vec(make_all::<T>(&[p, p]));
                    let o = into_dyn![VecCopy<dyn HasTab>](o);
                    h.extend(o.iter());
                    m.extend([p, p]);
                }
                3 => {
                    let o: VecCopy<Tab> = VecCopy::from_vec(make_all::<T>(&[p]));
                    let mut o = into_dyn![VecCopy<dyn HasTab>](o);
                    ck!(h.append(&mut o).is_some() && o.is_empty(), "hidden append: refused");
                    m.push(p);
                }
                4 => {
                    let l = s.below(n + 4);
                    ck!(h.resize(l, T::make(p)).is_some(), "hidden resize: refused");
                    m.resize(l, p);
                }
                5 if n > 0 => {
                    let i = s.below(n);
                    let x = T::make(p);
                    let y: VecCopy<Tab> = VecCopy::from_vec(vec![x]);
                    let y = into_dyn![VecCopy<dyn HasTab>](y);
                    ck!(h.get_mut(i).copy(y.get_ref(0)).is_some(), "hidden copy: refused");
                    m[i] = p;
                }
                6 if n > 0 => {
                    let (i, j) = (s.below(n), s.below(n));
                    h.as_mut_slice().swap(i, j);
                    m.swap(i, j);
                }
                7 => {
                    let k = s.below(n + 1);
                    h.rotate_left(k);
                    m.rotate_left(k);
                }
                8 => cke!(h.copy_into_vec::<T>().map(|x| pays(&x)), Some(m.clone()), "hidden copy_into_vec"),
                9 => ck!(h.push_as(<T::Other>::make(p)).is_none() && h.iter_as::<T::Other>().is_none(), "hidden plain vector: took another type"),
                10 => {
                    let r = from_dyn![SliceCopy<dyn HasTab as Tab>](h.as_slice());
                    ccheck_slice::<T>(&r, &m, "restored slice of a hidden vector")?;
                }
                11 => {
                    let mut r = from_dyn![SliceCopyMut<dyn HasTab as Tab>](h.as_mut_slice());
                    if n > 0 {
                        let i = s.below(n);
                        ck!(r.get_mut(i).copy(CopyValueRef::new(&T::make(p))).is_some(), "restored mut slice: copy");
                        m[i] = p;
                    }
                    ccheck_slice::<T>(&r.reborrow(), &m, "restored mut slice of a hidden vector")?;
                }
                12 => {
                    h.reserve(s.below(30));
                    ck!(h.capacity() >= n, "hidden capacity");
                }
                _ => cke!(h.iter().map(|x| seen!(T, x)).collect::<Vec<_>>(), m, "hidden iter"),
            }
            cke!(h.as_slice_as::<T>().map(pays), Some(m.clone()), "contents of the hidden plain vector");
        }
        v = from_dyn![VecCopy<dyn HasTab as Tab>](h);
        for _ in 0..3 {
            ccheck_vec::<T>(&mut v, &m, s.below(600))?;
        }
        // The table itself came back.
        let (d, t) = v.into_raw_parts();
        ck!(*t == <Tab as VTable<T>>::build_vtable(), "the restored table is another one");
        v = unsafe { VecCopy::from_raw_parts(d, t) };
    }
    // Slices of memory that no vector owns.
    let mut raw: Vec<T> = make_all(&m);
    let h = into_dyn![SliceCopy<dyn HasTab>](SliceCopy::<Tab>::from_slice(&raw));
    cke!(h.as_slice::<T>().map(pays), Some(m.clone()), "hidden plain slice");
    let r = from_dyn![SliceCopy<dyn HasTab as Tab>](h);
    ccheck_slice::<T>(&r, &m, "restored plain slice")?;
    let mut w: VecCopy<Tab> = VecCopy::with_type_from(r.reborrow());
    w.extend(r.iter());
    ccheck_vec::<T>(&mut w, &m, s.below(600))?;
    let mut h = into_dyn![SliceCopyMut<dyn HasTab>](SliceCopyMut::<Tab>::from_slice(&mut raw));
    let half = m.len() / 2;
    h.rotate_left(half);
    m.rotate_left(half);
    let mut r = from_dyn![SliceCopyMut<dyn HasTab as Tab>](h);
    if m.len() > 1 {
        r.swap(0, 1);
        m.swap(0, 1);
    }
    ccheck_slice::<T>(&r.reborrow(), &m, "restored plain mut slice")?;
    cke!(pays(&raw), m, "data after use of a hidden plain slice");
    s.nontrivial = m.len() > 1;
    Ok(())
}

/// Restoring with the wrong table.
fn wrong<T: FullElt>(s: &mut Src) -> R
where
    T::Other: FullElt,
{
    let m: Vec<u64> = s.pays(8).iter().map(|&p| T::canon(p)).collect();
    let n = m.len();
    let k = s.below(9);
    s.log(|| format!("wrong restore {} of {} of {}", k, n, T::name()));
    s.count("wrong table");
    let mut v: VecDyn<V> = make_all::<T>(&m).into();
    let bad = match k {
        0 => {
            // The elements of an owned container are lost in the panic.
            s.leak_ok = true;
            let h = into_dyn![VecDyn<dyn HasDrop>](v);
            return if panics(|| from_dyn![VecDyn<dyn HasDrop as DropVTable>](h)) { Ok(()) } else { Err("a vector was restored with the wrong table".into()) };
        }
        1 => {
            s.leak_ok = true;
            let h = into_dyn![VecDyn<dyn HasDrop>](v.upcast::<DropVTable>());
            return if panics(|| from_dyn![VecDyn<dyn HasDrop as FullVTable>](h)) { Ok(()) } else { Err("a vector was restored with a richer table".into()) };
        }
        2 => {
            let h = into_dyn![Slice<dyn HasDrop>](v.as_slice());
            panics(|| from_dyn![Slice<dyn HasDrop as DropVTable>](h).len())
        }
        3 => {
            let h = into_dyn![SliceMut<dyn HasDrop>](v.as_mut_slice());
            panics(|| from_dyn![SliceMut<dyn HasDrop as CloneVTable>](h).len())
        }
        4 => {
            let raw: Vec<T> = make_all(&m);
            let h = into_dyn![Slice<dyn HasDrop>](Slice::<PartVTable>::from_slice(&raw));
            let b = panics(|| from_dyn![Slice<dyn HasDrop as FullVTable>](h).len());
            cke!(pays(&raw), m, "borrowed data after a wrong restore");
            b
        }
        5 => {
            let mut raw: Vec<T> = make_all(&m);
            let h = into_dyn![SliceMut<dyn HasDrop>](SliceMut::<PartVTable>::from_slice(&mut raw));
            let b = panics(|| from_dyn![SliceMut<dyn HasDrop as FullVTable>](h).len());
            cke!(pays(&raw), m, "borrowed data after a wrong restore");
            b
        }
        6 => {
            let h = into_dyn![Slice<dyn HasDrop>](v.as_slice().into_subslice(..n / 2));
            panics(|| from_dyn![Slice<dyn HasDrop as CloneVTable>](h).len())
        }
        7 => {
            s.leak_ok = true;
            let w: VecCopy<Tab> = VecCopy::from_vec(vec![7u16; n]);
            let h = into_dyn![VecCopy<dyn HasTab>](w);
            let b = panics(|| from_dyn![VecCopy<dyn HasTab as SubTab>](h));
            let w: VecCopy<Tab> = VecCopy::from_vec(vec![7u16; n]);
            let h = into_dyn![SliceCopy<dyn HasTab>](w.as_slice());
            b && panics(|| from_dyn![SliceCopy<dyn HasTab as SubTab>](h).len())
        }
        _ => {
            let mut w: VecCopy<Tab> = VecCopy::from_vec(vec![7u16; n]);
            let b = {
                let h = into_dyn![SliceCopyMut<dyn HasTab>](w.as_mut_slice());
                panics(|| from_dyn![SliceCopyMut<dyn HasTab as SubTab>](h).len())
            };
            ck!(w.push_as(8u16).is_some() && w.len() == n + 1 && w.get_as::<u16>(n) == Some(8), "plain data after a wrong restore");
            b
        }
    };
    ck!(bad, "restoring with the wrong table was not refused");
    live::<T>(n, "a wrong restore")?;
    check_vec::<T>(&mut v, &m, s.below(24 * 24))?;
    s.nontrivial = n > 0;
    Ok(())
}

fn case(s: &mut Src) -> R {
    match s.below(9) {
        0..=2 => pick!(s, vector(); u8, u64, [u8; 3], Pad, B32, String, Tk4, Tk8, Tk12, Tk24, Tk64, TkBox, TkWord, [String; 3]),
        3 | 4 => pick!(s, slice(); u8, u64, [u8; 3], Pad, B32, String, Tk4, Tk8, Tk12, Tk64, TkBox, [String; 3]),
        5 | 6 => pick!(s, plain(); u8, u16, u64, u128, f32, [u8; 3], [u64; 3], Pad, A64, B32, Shape, &'static str),
        _ => pick!(s, wrong(); u8, u64, [u8; 3], Pad, String, Tk8, Tk12, TkBox),
    }
}
fn main() {
    vh::engine::main(&[("C13", case)])
}
