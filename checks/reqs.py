"""Small programs that ask something of a table or a type, in a form that may have it and in one that lacks it."""
import worlds

PRELUDE = """
use dync::*;
use dync::traits::*;
pub fn mk<X>() -> X { loop {} }
pub fn touch<X: ?Sized>(_: &X) {}
pub fn need_send<X: Send + ?Sized>() {}
pub fn need_sync<X: Sync + ?Sized>() {}
pub fn need_clone<X: Clone>() {}
pub fn need_copy<X: Copy>() {}
pub fn need_partialeq<X: PartialEq + ?Sized>() {}
pub fn need_eq<X: Eq + ?Sized>() {}
pub fn need_hash<X: std::hash::Hash + ?Sized>() {}
pub fn need_debug<X: std::fmt::Debug + ?Sized>() {}
pub fn is_send<X: Send>(_: X) {}
pub fn is_sync<X: Sync>(_: X) {}
pub fn is_send_ref<X: Send + ?Sized>(_: &X) {}
"""

# Kinds of containers: type, whether it holds plain data, what it is.
KIND = {
    "VecDyn": ("VecDyn<{v}>", False, "owner"),
    "BoxValue": ("BoxValue<{v}>", False, "owner"),
    "SmallValue": ("SmallValue<{v}>", False, "owner"),
    "Slice": ("Slice<'a, {v}>", False, "view"),
    "SliceMut": ("SliceMut<'a, {v}>", False, "mview"),
    "ValueRef": ("ValueRef<'a, {v}>", False, "view"),
    "ValueMut": ("ValueMut<'a, {v}>", False, "mview"),
    "VecCopy": ("VecCopy<{v}>", True, "owner"),
    "SliceCopy": ("SliceCopy<'a, {v}>", True, "view"),
    "SliceCopyMut": ("SliceCopyMut<'a, {v}>", True, "mview"),
    "CopyValueRef": ("CopyValueRef<'a, {v}>", True, "view"),
    "CopyValueMut": ("CopyValueMut<'a, {v}>", True, "mview"),
}


def typ(kind, v):
    return KIND[kind][0].format(v=v)


def may(kind, tab):
    """Can this kind have that table?"""
    return KIND[kind][1] or not tab.plain


class Case:
    def __init__(self, cat, bad, twins, note, world, must=None):
        # `must`: a program that has to be accepted, instead of one to be rejected.
        self.cat, self.bad, self.twins, self.note, self.world, self.must = cat, bad, twins, note, world, must


def fn(body, params=""):
    return "pub fn f<'a>(%s) {\n    %s\n}" % (params, body)


# --- making something of an element type
MAKE = [
    # kind, code, must the type be Clone
    ("VecDyn", "VecDyn::<{v}>::from_vec(mk::<Vec<{t}>>());", False),
    ("VecDyn", "VecDyn::<{v}>::with_type::<{t}>();", False),
    ("VecDyn", "VecDyn::<{v}>::with_capacity::<{t}>(2);", False),
    ("VecDyn", "let x: VecDyn<{v}> = mk::<Vec<{t}>>().into();", False),
    ("VecDyn", "VecDyn::<{v}>::from_slice(mk::<&'a [{t}]>());", True),
    ("VecDyn", "VecDyn::<{v}>::with_size(2, mk::<{t}>());", True),
    ("VecDyn", "let x: VecDyn<{v}> = mk::<&'a [{t}]>().into();", True),
    ("VecDyn", "<Option<Vec<{t}>> as From<VecDyn<{v}>>>::from(mk());", False),
    ("BoxValue", "BoxValue::<{v}>::new(mk::<{t}>());", False),
    ("SmallValue", "SmallValue::<{v}>::new(mk::<{t}>());", False),
    ("SmallValue", "SmallValue::<{v}>::try_new(mk::<{t}>());", False),
    ("ValueRef", "ValueRef::<{v}>::new(mk::<&'a {t}>());", False),
    ("ValueMut", "ValueMut::<{v}>::new(mk::<&'a mut {t}>());", False),
    ("Slice", "Slice::<{v}>::from_slice(mk::<&'a [{t}]>());", False),
    ("Slice", "let x: Slice<{v}> = mk::<&'a [{t}]>().into();", False),
    ("SliceMut", "SliceMut::<{v}>::from_slice(mk::<&'a mut [{t}]>());", False),
    ("SliceMut", "let x: SliceMut<{v}> = mk::<&'a mut [{t}]>().into();", False),
    ("VecCopy", "VecCopy::<{v}>::from_vec(mk::<Vec<{t}>>());", False),
    ("VecCopy", "VecCopy::<{v}>::with_type::<{t}>();", False),
    ("VecCopy", "VecCopy::<{v}>::with_capacity::<{t}>(2);", False),
    ("VecCopy", "VecCopy::<{v}>::with_size(2, mk::<{t}>());", False),
    ("VecCopy", "VecCopy::<{v}>::from_slice(mk::<&'a [{t}]>());", False),
    ("VecCopy", "let x: VecCopy<{v}> = mk::<Vec<{t}>>().into();", False),
    ("VecCopy", "let x: VecCopy<{v}> = mk::<&'a [{t}]>().into();", False),
    ("SliceCopy", "SliceCopy::<{v}>::from_slice(mk::<&'a [{t}]>());", False),
    ("SliceCopy", "let x: SliceCopy<{v}> = mk::<&'a [{t}]>().into();", False),
    ("SliceCopyMut", "SliceCopyMut::<{v}>::from_slice(mk::<&'a mut [{t}]>());", False),
    ("SliceCopyMut", "let x: SliceCopyMut<{v}> = mk::<&'a mut [{t}]>().into();", False),
    ("CopyValueRef", "CopyValueRef::<{v}>::new(mk::<&'a {t}>());", False),
    ("CopyValueMut", "CopyValueMut::<{v}>::new(mk::<&'a mut {t}>());", False),
]


def lacks(tab, ty, kind, clone):
    """What the type lacks to be stored under this table."""
    out = set(tab.asks - ty.ab) if tab.blanket else (set() if tab.takes(ty) else {"declared"} | (tab.asks - ty.ab))
    if not ty.static:
        out.add("static")
    if KIND[kind][1] and "Copy" not in ty.ab:
        out.add("Copy")
    if clone and "Clone" not in ty.ab:
        out.add("Clone")
    return out


def make_case(rng, w, want=None):
    """Storing a type that does not satisfy the table."""
    for _ in range(60):
        kind, code, clone = rng.choice(MAKE)
        tab = rng.choice(w.tables)
        if not may(kind, tab):
            continue
        if want and not (tab.asks & want):
            continue
        ok = [t for t in w.types if not lacks(tab, t, kind, clone)]
        no = [t for t in w.types if lacks(tab, t, kind, clone) and (want is None or (lacks(tab, t, kind, clone) <= want))]
        # Types that lack as little as possible tell most.
        few = [t for t in no if len(lacks(tab, t, kind, clone)) == 1]
        if clone and "Clone" not in tab.gives:
            continue
        if not ok or not no:
            continue
        bad = rng.choice(few if few and rng.random() < 0.8 else no)
        good = rng.choice(ok)
        p = lambda t: fn(code.format(v=tab.expr, t=t.expr))
        return Case("make", p(bad), [p(good)], "%s with %s of %s lacks %s" % (kind, tab.expr, bad.expr, sorted(lacks(tab, bad, kind, clone))), w)
    return None


# --- using what only some types allow
TYPED = [
    ("VecDyn", "mk::<VecDyn<{v}>>().resize::<{t}>(2, mk());", "Clone"),
    ("VecDyn", "mk::<VecDyn<{v}>>().fill::<{t}>(mk());", "Clone"),
    ("VecDyn", "mk::<VecDyn<{v}>>().clone_into_vec::<{t}>();", "Clone"),
    ("VecDyn", "mk::<VecDyn<{v}>>().append_cloned_to_vec::<{t}>(mk());", "Clone"),
    ("Slice", "mk::<Slice<'a, {v}>>().clone_into_vec::<{t}>();", "Clone"),
    ("Slice", "mk::<Slice<'a, {v}>>().append_clone_to_vec::<{t}>(mk());", "Clone"),
    ("SliceMut", "mk::<SliceMut<'a, {v}>>().clone_into_vec::<{t}>();", "Clone"),
    ("SliceMut", "mk::<SliceMut<'a, {v}>>().append_clone_to_vec::<{t}>(mk());", "Clone"),
    ("SliceMut", "mk::<SliceMut<'a, {v}>>().clone_from_slice::<{t}>(mk());", "Clone"),
] + [(k, c, "static") for k, c in [
    ("VecDyn", "mk::<VecDyn<{v}>>().push_as::<{t}>(mk());"),
    ("VecDyn", "mk::<VecDyn<{v}>>().into_vec::<{t}>();"),
    ("VecDyn", "mk::<&'a VecDyn<{v}>>().as_slice_as::<{t}>();"),
    ("VecDyn", "mk::<&'a mut VecDyn<{v}>>().as_mut_slice_as::<{t}>();"),
    ("VecDyn", "mk::<&'a VecDyn<{v}>>().get_ref_as::<{t}>(0);"),
    ("VecDyn", "mk::<&'a mut VecDyn<{v}>>().get_mut_as::<{t}>(0);"),
    ("VecDyn", "mk::<&'a VecDyn<{v}>>().iter_as::<{t}>();"),
    ("VecDyn", "mk::<&'a mut VecDyn<{v}>>().iter_mut_as::<{t}>();"),
    ("VecDyn", "mk::<&'a VecDyn<{v}>>().check_ref::<{t}>();"),
    ("BoxValue", "mk::<BoxValue<{v}>>().downcast::<{t}>();"),
    ("SmallValue", "mk::<SmallValue<{v}>>().downcast::<{t}>();"),
    ("ValueRef", "mk::<ValueRef<'a, {v}>>().downcast::<{t}>();"),
    ("ValueMut", "mk::<ValueMut<'a, {v}>>().downcast::<{t}>();"),
    ("ValueRef", "mk::<ValueRef<'a, {v}>>().is::<{t}>();"),
    ("Slice", "mk::<&'a Slice<'a, {v}>>().as_slice::<{t}>();"),
    ("Slice", "mk::<&'a Slice<'a, {v}>>().get_as::<{t}>(0);"),
    ("Slice", "mk::<&'a Slice<'a, {v}>>().iter_as::<{t}>();"),
    ("SliceMut", "mk::<&'a mut SliceMut<'a, {v}>>().as_slice::<{t}>();"),
    ("SliceMut", "mk::<&'a mut SliceMut<'a, {v}>>().get_as::<{t}>(0);"),
    ("SliceMut", "mk::<&'a mut SliceMut<'a, {v}>>().iter_as::<{t}>();"),
    ("VecCopy", "mk::<VecCopy<{v}>>().push_as::<{t}>(mk());"),
    ("VecCopy", "mk::<VecCopy<{v}>>().into_vec::<{t}>();"),
    ("VecCopy", "mk::<&'a VecCopy<{v}>>().as_slice_as::<{t}>();"),
    ("VecCopy", "mk::<&'a mut VecCopy<{v}>>().as_mut_slice_as::<{t}>();"),
    ("VecCopy", "mk::<&'a VecCopy<{v}>>().get_ref_as::<{t}>(0);"),
    ("VecCopy", "mk::<&'a mut VecCopy<{v}>>().get_mut_as::<{t}>(0);"),
    ("VecCopy", "mk::<&'a VecCopy<{v}>>().get_as::<{t}>(0);"),
    ("VecCopy", "mk::<&'a VecCopy<{v}>>().copy_into_vec::<{t}>();"),
    ("SliceCopy", "mk::<&'a SliceCopy<'a, {v}>>().as_slice::<{t}>();"),
    ("SliceCopy", "mk::<&'a SliceCopy<'a, {v}>>().get_as::<{t}>(0);"),
    ("SliceCopy", "mk::<&'a SliceCopy<'a, {v}>>().copy_into_vec::<{t}>();"),
    ("SliceCopyMut", "mk::<&'a mut SliceCopyMut<'a, {v}>>().as_slice::<{t}>();"),
    ("SliceCopyMut", "mk::<&'a mut SliceCopyMut<'a, {v}>>().get_as::<{t}>(0);"),
    ("SliceCopyMut", "mk::<&'a mut SliceCopyMut<'a, {v}>>().copy_from_slice::<{t}>(mk());"),
    ("CopyValueRef", "mk::<CopyValueRef<'a, {v}>>().downcast::<{t}>();"),
    ("CopyValueMut", "mk::<CopyValueMut<'a, {v}>>().downcast::<{t}>();"),
]]


def typed_case(rng, w):
    for _ in range(60):
        kind, code, need = rng.choice(TYPED)
        tab = rng.choice(w.tables)
        if not may(kind, tab):
            continue
        if need == "Clone":
            if "Clone" not in tab.gives:
                continue
            no = [t for t in w.types if t.static and "Clone" not in t.ab]
        else:
            no = [t for t in w.types if not t.static]
        if not no:
            continue
        ok = [t for t in w.types if t.static and "Copy" in t.ab]
        b, g = rng.choice(no), rng.choice(ok)
        p = lambda t: fn(code.format(v=tab.expr, t=t.expr))
        return Case("typed access", p(b), [p(g)], "%s as %s, which is not %s" % (kind, b.expr, need), w)
    return None


# --- behaviours of the table
BEHAVE = {
    "Clone": [(("VecDyn", "BoxValue", "SmallValue"), "let y = <{k} as Clone>::clone(&mk());"),
              (("VecDyn", "BoxValue", "SmallValue"), "need_clone::<{k}>();"),
              (("VecDyn", "BoxValue", "SmallValue"), "let mut y: {k} = mk(); y.clone_from(&mk::<{k}>());"),
              (("ValueRef", "ValueMut"), "mk::<{k}>().clone_value();"),
              (("ValueRef", "ValueMut"), "mk::<{k}>().clone_small_value();"),
              (("ValueMut",), "mk::<{k}>().clone_from_other(mk::<ValueRef<'a, {v}>>());"),
              (("VecDyn",), "mk::<{k}>().push_cloned(mk::<ValueRef<'a, {v}>>());")],
    "PartialEq": [(("VecDyn", "BoxValue", "SmallValue", "Slice", "SliceMut", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"), "let b = mk::<{k}>() == mk::<{k}>();"),
                  (("VecDyn", "BoxValue", "SmallValue", "Slice", "SliceMut", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"), "need_partialeq::<{k}>();")],
    "Eq": [(("VecDyn", "BoxValue", "SmallValue", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"), "need_eq::<{k}>();")],
    "Hash": [(("VecDyn", "BoxValue", "SmallValue", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"), "need_hash::<{k}>();"),
             (("VecDyn", "BoxValue", "SmallValue", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"),
              "let s: std::collections::HashSet<{k}> = mk(); <{k} as std::hash::Hash>::hash(&mk(), &mut mk::<std::collections::hash_map::DefaultHasher>());")],
    "Debug": [(("VecDyn", "BoxValue", "SmallValue", "Slice", "SliceMut", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"), "need_debug::<{k}>();"),
              (("VecDyn", "BoxValue", "SmallValue", "Slice", "SliceMut", "ValueRef", "ValueMut", "CopyValueRef", "CopyValueMut"), 'let s = format!("{{:?}}", mk::<{k}>());')],
}


def dyn(tab):
    return "dyn " + tab.has


def behave_case(rng, w):
    """A behaviour that the table lacks."""
    for _ in range(60):
        b = rng.choice(sorted(BEHAVE))
        kinds, code = rng.choice(BEHAVE[b])
        kind = rng.choice(kinds)
        hidden = rng.random() < 0.2 and b != "Clone"
        no = [t for t in w.tables if may(kind, t) and b not in t.gives and (not hidden or t.has)]
        ok = [t for t in w.tables if may(kind, t) and b in t.gives and (not hidden or t.has)]
        if not no or not ok:
            continue
        p = lambda t: fn(code.format(k=typ(kind, dyn(t) if hidden else t.expr), v=t.expr))
        bad = rng.choice(no)
        return Case("behaviour", p(bad), [p(rng.choice(ok))], "%s of %s with %s" % (b, kind, bad.expr), w)
    return None


# --- other tables for the same contents
def upcast_case(rng, w, want=None):
    for _ in range(80):
        kind = rng.choice(sorted(KIND))
        v = rng.choice([t for t in w.tables if may(kind, t)])
        no = [u for u in w.tables if may(kind, u) and not (u.gives <= v.gives) and (want is None or (u.gives - v.gives) & want)]
        if not no:
            continue
        u = rng.choice(no)
        g = rng.choice(sorted(v.anc))
        form = rng.randrange(4)
        if form == 0 and kind == "CopyValueMut":
            p = lambda x: fn("let z = mk::<&'a mut %s>(); let y: %s = z.upcast();" % (typ(kind, v.expr), typ(kind, x)))
        elif form == 0:
            p = lambda x: fn("let y: %s = mk::<%s>().upcast();" % (typ(kind, x), typ(kind, v.expr)))
        elif form == 1:
            p = lambda x: fn("let y: %s = mk::<%s>().into();" % (x, v.expr))
            g = v.expr
        elif form == 2 and kind in ("ValueRef", "CopyValueRef"):
            p = lambda x: fn("let z = mk::<&'a %s>(); let y = z.upcast_ref::<%s>();" % (typ(kind, v.expr), x))
        elif form == 2 and kind == "ValueMut":
            p = lambda x: fn("let z = mk::<&'a mut %s>(); let y = z.upcast_mut::<%s>();" % (typ(kind, v.expr), x))
        else:
            p = lambda x: fn("let mut z = mk::<%s>(); let y = z.upcast::<%s>();" % (typ(kind, v.expr), x))
        return Case("conversion", p(u.expr), [p(g), p(v.expr)], "%s from %s to %s" % (kind, v.expr, u.expr), w)
    return None


HIDE = ("VecDyn", "Slice", "SliceMut", "VecCopy", "SliceCopy", "SliceCopyMut")


def hide_case(rng, w, want=None):
    for _ in range(80):
        kind = rng.choice(HIDE)
        v = rng.choice([t for t in w.tables if may(kind, t)])
        hs = [(t.has, t.gives) for t in w.tables if t.has]
        if KIND[kind][1]:
            hs += [("Has" + b, worlds.close({b})) for b in worlds.STD]
        no = [(h, g) for h, g in hs if not (g <= v.gives) and (want is None or (g - v.gives) & want)]
        if not no:
            continue
        h, g = rng.choice(no)
        same = [t for t in w.tables if t.has == h or (KIND[kind][1] and h.startswith("Has") and t.expr == h[3:] + "VTable")]
        if not same:
            continue
        p = lambda t: fn("let y = into_dyn![%s<dyn %s>](mk::<%s>());" % (kind, h, typ(kind, t.expr)))
        return Case("hiding", p(v), [p(same[0])], "%s with %s as dyn %s" % (kind, v.expr, h), w)
    return None


# --- plain data from anything
MIX = [
    ("VecCopy::<{v}>::with_type_from(&mk::<{k}>());", (("VecDyn", "VecCopy"),)),
    ("VecCopy::<{v}>::with_type_from(mk::<{k}>());", (("Slice", "SliceCopy"), ("SliceMut", "SliceCopyMut"), ("ValueRef", "CopyValueRef"))),
    ("let x: VecCopy<{v}> = mk::<Vec<{k}>>().into_iter().collect();", (("ValueRef", "CopyValueRef"),)),
    ("mk::<VecCopy<{v}>>().extend(mk::<Vec<{k}>>());", (("ValueRef", "CopyValueRef"),)),
    ("mk::<VecCopy<{v}>>().push(mk::<{k}>());", (("ValueRef", "CopyValueRef"), ("ValueMut", "CopyValueRef"), ("BoxValue", "CopyValueRef"))),
    ("mk::<VecCopy<{v}>>().append(&mut mk::<{k}>());", (("VecDyn", "VecCopy"),)),
    ("let x: SliceCopy<{v}> = mk::<{k}>().into();", (("Slice", "SliceCopyMut"), ("SliceMut", "SliceCopyMut"))),
    ("let x: SliceCopy<{v}> = (&mk::<{k}>()).into();", (("SliceMut", "SliceCopyMut"),)),
    ("let x: SliceCopyMut<{v}> = mk::<{k}>().into();", (("SliceMut", "SliceCopyMut"),)),
    ("let x: CopyValueRef<{v}> = mk::<{k}>().into();", (("ValueRef", "CopyValueMut"), ("ValueMut", "CopyValueMut"))),
    ("let x: CopyValueMut<{v}> = mk::<{k}>().into();", (("ValueMut", "CopyValueMut"),)),
    ("let x: VecCopy<{v}> = mk::<{k}>().into();", (("VecDyn", "VecCopy"), ("Slice", "VecCopy"))),
    ("mk::<CopyValueMut<'a, {v}>>().copy(mk::<{k}>());", (("ValueRef", "CopyValueRef"),)),
    ("mk::<CopyValueMut<'a, {v}>>().swap(&mut mk::<{k}>());", (("ValueMut", "CopyValueMut"),)),
]


def mix_case(rng, w):
    code, pairs = rng.choice(MIX)
    b, g = rng.choice(pairs)
    v = rng.choice([t for t in w.tables if not t.plain])
    p = lambda k: fn(code.format(v=v.expr, k=typ(k, v.expr)))
    return Case("plain data from anything", p(b), [p(g)], "%s from %s" % (code.split("<")[0], b), w)


def meta_case(rng, w):
    """Type information of one container with the table of another."""
    v = rng.choice([t for t in w.tables if not t.plain])
    m = "Meta<VTableRef<'a, %s>>" % v.expr
    body = rng.choice(["let z = Meta { elem: x.elem, vtable: y.vtable };", "x.vtable = y.vtable; let z = x;", "x.elem = y.elem; let z = x;",
                       "let z = Meta { vtable: y.vtable, ..x };", "std::mem::swap(&mut x.vtable, &mut y.vtable); let z = x;",
                       "let Meta { elem, .. } = x; let Meta { vtable, .. } = y; let z = Meta { elem, vtable };"])
    p = lambda b: fn(b + " let u = VecDyn::<%s>::with_type_from(z);" % v.expr, "mut x: %s, mut y: %s" % (m, m))
    return Case("type information", p(body), [p("let z = x;")], "mixing: " + body, w)


def dup_case(rng, w):
    """Exclusive views and owners cannot be duplicated."""
    v = rng.choice([t for t in w.tables if not t.plain])
    what, k, g = rng.choice([("clone", "SliceMut", "Slice"), ("clone", "ValueMut", "ValueRef"), ("clone", "SliceCopyMut", "SliceCopy"),
                             ("clone", "CopyValueMut", "CopyValueRef"), ("copy", "VecDyn", None), ("copy", "BoxValue", None), ("copy", "SmallValue", None),
                             ("copy", "VecCopy", None), ("copy", "SliceMut", None), ("copy", "ValueMut", None), ("copy", "SliceCopyMut", None), ("copy", "CopyValueMut", None)])
    p = lambda kk: fn("need_%s::<%s>();" % (what, kk))
    return Case("duplication", p(typ(k, v.expr)), [p(typ(g, v.expr) if g else "u8")], "%s of %s" % (what, k), w)


# --- threads
# What of the table must certify that a kind may be sent, or shared.
RULE = {"owner": ("Send", "Sync"), "mview": ("Send", "Sync"), "view": ("Sync", "Sync")}
ITER = [
    ("VecDyn", "let mut x: {k} = mk(); {c}(x.iter());", "view"), ("VecDyn", "let mut x: {k} = mk(); {c}(x.iter_mut());", "mview"),
    ("Slice", "let x: {k} = mk(); {c}(x.iter());", "view"), ("Slice", "let x: {k} = mk(); {c}(x.into_iter());", "view"),
    ("Slice", "let x: {k} = mk(); {c}(x.chunks_exact(1));", "view"), ("SliceMut", "let mut x: {k} = mk(); {c}(x.iter());", "mview"),
    ("SliceMut", "let x: {k} = mk(); {c}(x.into_iter());", "mview"), ("SliceMut", "let x: {k} = mk(); {c}(x.chunks_exact(1));", "view"),
    ("SliceMut", "let mut x: {k} = mk(); {c}(x.chunks_exact_mut(1));", "mview"),
    ("VecCopy", "let mut x: {k} = mk(); {c}(x.iter());", "view"), ("VecCopy", "let mut x: {k} = mk(); {c}(x.iter_mut());", "mview"),
    ("SliceCopy", "let x: {k} = mk(); {c}(x.iter());", "view"), ("SliceCopy", "let x: {k} = mk(); {c}(x.into_iter());", "view"),
    ("SliceCopy", "let x: {k} = mk(); {c}(x.chunks_exact(1));", "view"), ("SliceCopyMut", "let mut x: {k} = mk(); {c}(x.iter());", "mview"),
    ("SliceCopyMut", "let x: {k} = mk(); {c}(x.into_iter());", "mview"), ("SliceCopyMut", "let x: {k} = mk(); {c}(x.chunks_exact(1));", "view"),
    ("SliceCopyMut", "let mut x: {k} = mk(); {c}(x.chunks_exact_mut(1));", "mview"),
]
SEND = ["need_send::<{k}>();", "std::thread::scope(|s| {{ let x: {k} = mk(); s.spawn(move || drop(x)); }});", "need_send::<Option<{k}>>();",
        "need_send::<({k}, u8)>();", "need_sync::<std::sync::Mutex<{k}>>();", "need_send::<Vec<{k}>>();", "need_send::<&'a mut {k}>();",
        "let (s, r) = std::sync::mpsc::channel::<{k}>(); std::thread::scope(|t| {{ t.spawn(move || {{ for x in r {{ drop(x); }} }}); }});",
        "let x: Box<dyn std::any::Any + Send + 'a> = mk::<Box<dyn std::any::Any + Send>>(); let y: Box<{k}> = mk(); fn g<'a, X: Send + 'a>(x: Box<X>) -> Box<dyn Touch + Send + 'a> where X: Touch {{ x }} g(y);",
        "let x: {k} = mk(); is_send(move || {{ let y = &x; }});"]
SYNC = ["need_sync::<{k}>();", "std::thread::scope(|s| {{ let x: &'a {k} = mk(); s.spawn(move || touch(x)); }});", "need_send::<&'a {k}>();",
        "need_send::<std::sync::Arc<({k}, u8)>>();", "need_sync::<Option<{k}>>();", "need_sync::<std::sync::OnceLock<{k}>>();", "need_sync::<Box<{k}>>();",
        "need_sync::<std::sync::RwLock<{k}>>();", "let x: {k} = mk(); is_send(|| touch(&x));"]


def BOTH(code):
    """Such a program asks for sending and sharing."""
    return "RwLock" in code or "Arc<" in code or "OnceLock" in code


def thread_case(rng, w):
    """Sending or sharing what the table does not certify."""
    for _ in range(60):
        hidden = False
        if rng.random() < 0.3:
            kind, code, as_kind = rng.choice(ITER)
            i = rng.randrange(2)
            code = code.replace("{c}", ("is_send", "is_sync")[i])
            cat = "iterator"
        else:
            kind = rng.choice(sorted(KIND))
            as_kind = KIND[kind][2]
            i = rng.randrange(2)
            code = rng.choice((SEND, SYNC)[i])
            if "Touch" in code:
                code = "need_send::<{k}>();"
            hidden = rng.random() < 0.2
            cat = "sending" if i == 0 else "sharing"
        need = {RULE[as_kind][i]}
        if BOTH(code):
            need = set(RULE[as_kind])
        tabs = [t for t in w.tables if may(kind, t) and (not hidden or t.has)]
        no = [t for t in tabs if not need <= t.gives]
        ok = [t for t in tabs if {"Send", "Sync"} <= t.gives and "DropFn" not in t.expr]
        some = [t for t in no if {"Send", "Sync"} & t.gives]
        if not no:
            continue
        v = rng.choice(some if some and rng.random() < 0.4 else no)
        p = lambda t: fn(code.format(k=typ(kind, (dyn(t) if hidden else t.expr)), v=t.expr))
        twins = [p(rng.choice(ok))] if ok else []
        if (kind, cat) == ("VecDyn", "iterator") and as_kind == "view":
            # This iterator never crosses threads, which is more than is asked for.
            twins = [fn("need_%s::<%s>();" % (("send", "sync")[i], typ(kind, rng.choice(ok).expr)))] if ok else []
        return Case(cat, p(v), twins, "%s with %s%s" % (kind, "dyn Has.. of " if hidden else "", v.expr), w)
    return None


def certified_case(rng, w):
    """Sending or sharing what the table does certify."""
    for _ in range(60):
        kind = rng.choice(sorted(KIND))
        i = rng.randrange(2)
        code = rng.choice((SEND, SYNC)[i])
        if "Touch" in code or BOTH(code):
            code = ("need_send::<{k}>();", "need_sync::<{k}>();")[i]
        hidden = rng.random() < 0.25
        ok = [t for t in w.tables if may(kind, t) and RULE[KIND[kind][2]][i] in t.gives and "DropFn" not in t.expr and (not hidden or t.has)]
        if not ok:
            continue
        t = rng.choice(ok)
        k = typ(kind, dyn(t) if hidden else t.expr)
        return Case("certified", None, [], "%s of %s" % (("sending", "sharing")[i], k), w, must=fn(code.format(k=k, v=t.expr)))
    return None


# --- traits of other kinds with the names of the ones that tables recognise
SHADOW = [
    # what stands in for the trait named {b}
    "pub trait {b} {{}} impl<T: ?Sized> {b} for T {{}}",
    "pub trait {b}: 'static {{}} impl<T: 'static> {b} for T {{}}",
    "pub use super::any::Any as {b};",
    "pub use super::any::{o} as {b};",
    "pub unsafe trait {b} {{}} unsafe impl<T> {b} for T {{}}",
]
PLACE = [
    "pub mod any {{ pub trait Any {{}} impl<T: ?Sized> Any for T {{}} pub use std::marker::Unpin as {o}; }}\npub mod other {{ {d} }}\n"
    "pub mod inner {{ use super::*; use super::other::{b};\n    #[dync_trait(dync_crate_name = \"dync\")]\n    pub trait Odd: {s} {{}}\n    impl<T> Odd for T where T: {s} {{}} }}\nuse inner::*;\n",
    "pub mod any {{ pub trait Any {{}} impl<T: ?Sized> Any for T {{}} pub use std::marker::Unpin as {o}; }}\npub mod other {{ {d} }}\n"
    "#[dync_mod(dync_crate_name = \"dync\")]\npub mod inner {{ use super::*; use super::other::{b};\n    pub trait Base: {s} {{}}\n    impl<T> Base for T where T: {s} {{}}\n"
    "    pub trait Odd: Base {{}}\n    impl<T> Odd for T where T: Base {{}} }}\nuse inner::*;\n",
]


def shadow_case(rng, w, want=("Eq", "Send", "Sync")):
    """A table of a trait whose super-trait only has the name of a marker."""
    for _ in range(60):
        b = rng.choice(sorted(want))
        o = rng.choice([x for x in ("Foreign", "Strange") if x != b])
        kind, code, clone = rng.choice([m for m in MAKE if not KIND[m[0]][1]])
        if clone:
            continue
        ok = [t for t in w.types if t.static and b in t.ab]
        no = [t for t in w.types if t.static and b not in t.ab]
        if not ok or not no:
            continue
        few = [t for t in no if len(ALL_MARKS - t.ab) == 1]
        bad, good = rng.choice(few if few and rng.random() < 0.5 else no), rng.choice(ok)
        d = rng.choice(SHADOW).format(b=b, o=o)
        if b == "Eq" and rng.random() < 0.6:
            few = [t for t in no if "PartialEq" in t.ab]
            bad = rng.choice(few) if few else bad
            d = "pub trait Eq: PartialEq {} impl<T: PartialEq> Eq for T {}"
        head = rng.choice(PLACE).format(b=b, o=o, d=d, s=" + ".join([b] + rng.choice(([], ["Unpin"], ["Sized"]))))
        # The twin has the real one: a table need not support anything else of that name.
        real = head.replace("mod other { %s }" % d, "mod other { pub use std::%s::%s; }" % ("cmp" if b == "Eq" else "marker", b))
        return Case("name of a marker", head + fn(code.format(v="OddVTable", t=bad.expr)), [real + fn(code.format(v="OddVTable", t=good.expr))], "%s of %s, which is not %s" % (kind, bad.expr, b), w)
    return None


ALL_MARKS = frozenset(("Eq", "Send", "Sync"))
