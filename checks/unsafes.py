"""Programs that would go around the checks: what needs `unsafe` used without it, and what is not public."""
import negs

PRELUDE = """
use dync::*;
use dync::traits::*;
use std::mem::MaybeUninit;
#[dync_trait(dync_crate_name = "dync")]
pub trait Full: Clone + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T> Full for T where T: Clone + Eq + std::hash::Hash + std::fmt::Debug {}
pub type F = FullVTable;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Pod(pub u32, pub u8);
pub fn mk<X>() -> X { loop {} }
pub fn touch<X: ?Sized>(_: &X) {}
"""
GROUP = negs.Group("unsafe", PRELUDE)

VEC, VIEW, VIEWM = ("VecDyn<{v}>", "VecCopy<{v}>"), ("Slice<'a, {v}>", "SliceCopy<'a, {v}>"), ("SliceMut<'a, {v}>", "SliceCopyMut<'a, {v}>")
VAL = ("BoxValue<{v}>", "SmallValue<{v}>", "ValueRef<'a, {v}>", "ValueMut<'a, {v}>", "CopyValueRef<'a, {v}>", "CopyValueMut<'a, {v}>")
TABLES = ("F", "DropVTable", "CloneVTable", "(DropFn, F)", "dyn HasFull")

# Needs `unsafe`: type of `c`, code.
NEEDS = []
for k in VEC:
    NEEDS += [(k, "c.get_unchecked_ref::<{t}>({i})"), (k, "c.get_unchecked_mut::<{t}>({i})")]
    NEEDS.append((k, k.split("<")[0] + "::from_raw_parts(c.into_raw_parts().0, Box::new(mk::<{s}>()))"))
for k in VIEW + VIEWM:
    NEEDS.append((k, "{{ touch(&c); " + k.split("<")[0] + "::<'a, {v}>::from_raw_parts(mk(), mk(), mk::<&'a {v}>()) }}"))
for k in VIEWM:
    NEEDS += [(k, "c.into_raw_parts().0.len()"), (k, "{{ c.into_raw_parts().0[{i}] = MaybeUninit::new(0); }}"), (k, "{{ let (b, e, t) = c.into_raw_parts(); b.reverse(); }}")]
NEEDS += [("BoxValue<{v}>", "{{ let (b, _, a, _) = c.into_raw_parts(); drop(b) }}"), ("BoxValue<{v}>", "mk::<Box<BoxValue<{v}>>>().into_raw_parts().2"),
          (None, "mk::<Box<[MaybeUninit<u8>]>>().drop_as_aligned({i})"), (None, "mk::<MaybeUninit<usize>>().drop_as_aligned({i})")]
for k in VEC:
    NEEDS += [(k, "c.into_raw_parts().0.byte_chunks_mut().count()"), (k, "c.into_raw_parts().0.get_bytes_mut({i})[0] = MaybeUninit::new(0)")]
for f, a in (("drop", "b"), ("clone", "r"), ("clone_from", "b, r"), ("clone_into_raw", "r, b"), ("eq", "r, r"), ("hash", "r, h"), ("fmt", "r, f")):
    NEEDS.append(("&'a F", "{{ let (b, r, h, f) = mk::<(&mut [MaybeUninit<u8>], &[MaybeUninit<u8>], &mut dyn std::hash::Hasher, &mut std::fmt::Formatter)>(); (c.%s_fn())(%s) }}" % (f, a)))
    NEEDS.append(("VecDyn<F>", "{{ let (b, r, h, f) = mk::<(&mut [MaybeUninit<u8>], &[MaybeUninit<u8>], &mut dyn std::hash::Hasher, &mut std::fmt::Formatter)>(); (c.into_raw_parts().1.%s_fn())(%s) }}" % (f, a)))
    NEEDS.append((None, "{{ let (b, r, h, f) = mk::<(&mut [MaybeUninit<u8>], &[MaybeUninit<u8>], &mut dyn std::hash::Hasher, &mut std::fmt::Formatter)>(); <{t} as %sBytes>::%s_bytes(%s) }}"
                  % ({"drop": "Drop", "clone": "Clone", "clone_from": "Clone", "clone_into_raw": "Clone", "eq": "PartialEq", "hash": "Hash", "fmt": "Debug"}[f], f, a)))

# Marking a table by hand.
TRAITS = [
    ("pub struct Mine(u8);\n{u}impl HasSend for Mine {{}}",), ("pub struct Mine(u8);\n{u}impl HasSync for Mine {{}}",),
    ("pub struct Mine<X>(X);\n{u}impl<X> HasSend for Mine<X> {{}}",), ("pub struct Mine<X>(X);\n{u}impl<X> HasSync for Mine<X> {{}}",),
    ("pub struct Mine(u8);\nimpl<'a> From<Mine> for Meta<VTableRef<'a, F>> {{ fn from(_: Mine) -> Self {{ loop {{}} }} }}\n{u}impl<'a> CopyMeta<'a, F> for Mine {{}}",),
]

# Not there for anyone outside: what must fail however it is written, and what is there instead.
HIDDEN = [
    (None, "VecCopy::<F>::from_vec_non_copy(mk::<Vec<{t}>>())", "VecDyn::<F>::from_vec(mk::<Vec<{t}>>())"),
    (None, "VecCopy::<F>::from_slice_non_copy(mk::<&[{t}]>())", "VecDyn::<F>::from_slice(mk::<&[{t}]>())"),
    (None, "VecCopy::<F>::with_type_non_copy::<{t}>()", "VecDyn::<F>::with_type::<{t}>()"),
    (None, "VecCopy::<F>::with_capacity_non_copy::<{t}>(3)", "VecDyn::<F>::with_capacity::<{t}>(3)"),
    (None, "SliceCopy::<F>::from_slice_non_copy(mk::<&[{t}]>())", "Slice::<F>::from_slice(mk::<&[{t}]>())"),
    (None, "SliceCopyMut::<F>::from_slice_non_copy(mk::<&mut [{t}]>())", "SliceMut::<F>::from_slice(mk::<&mut [{t}]>())"),
    (None, "BoxValue::<F>::from_raw_parts(mk(), std::any::TypeId::of::<{t}>(), 8, mk())", "BoxValue::<F>::new(mk::<{t}>())"),
    (None, "SmallValue::<F>::from_raw_parts(mk(), std::any::TypeId::of::<{t}>(), 8, mk())", "SmallValue::<F>::new(mk::<{t}>())"),
    (None, "ValueRef::<F>::from_raw_parts(mk(), std::any::TypeId::of::<{t}>(), 8, mk::<&F>())", "ValueRef::<F>::new(mk::<&{t}>())"),
    (None, "ValueMut::<F>::from_raw_parts(mk(), std::any::TypeId::of::<{t}>(), 8, mk::<&F>())", "ValueMut::<F>::new(mk::<&mut {t}>())"),
    (None, "CopyValueRef::<()>::from_raw_parts(mk(), std::any::TypeId::of::<u8>(), 8, mk::<&()>())", "CopyValueRef::<()>::new(mk::<&u8>())"),
    (None, "CopyValueMut::<()>::from_raw_parts(mk(), std::any::TypeId::of::<u8>(), 8, mk::<&()>())", "CopyValueMut::<()>::new(mk::<&mut u8>())"),
    ("&'a mut VecCopy<F>", "c.as_slice_as_unchecked::<{t}>()", "c.as_slice_as::<{t}>()"),
    ("&'a VecDyn<F>", "{{ let w: &VecCopy<F> = c; }}", "{{ let w: Slice<F> = c.as_slice(); }}"),
    ("VecDyn<F>", "VecCopy::<F>::from(c)", "c.upcast::<DropVTable>()"),
    ("Slice<'a, F>", "SliceCopy::<F>::from(c)", "c.upcast::<DropVTable>()"),
    ("SliceMut<'a, F>", "SliceCopyMut::<F>::from(c)", "c.upcast::<DropVTable>()"),
    ("Meta<VTableRef<'a, F>>", "{{ let y = mk::<Meta<VTableRef<'a, F>>>(); c.elem = y.elem; }}", "{{ touch(&c.elem()); }}"),
    ("VecCopy<F>", "VecDyn::<F>::from(c)", "c.is_empty()"),
    ("SliceCopyMut<'a, F>", "SliceMut::<F>::from(c)", "c.is_empty()"),
]
for k in VEC + VIEW + VIEWM:
    HIDDEN += [(k, "{{ let x = c.data; }}", "c.len()"), (k, "{{ touch(&c.data); }}", "c.element_type_id()"), (k, "{{ touch(&mut c.data); }}", "touch(&c)")]
for k in ("VecCopy<{v}>",) + VIEW[1:] + VIEWM[1:]:
    HIDDEN += [(k, "{{ c.vtable = mk::<" + ("Box<{v}>" if "Vec" in k else "VTableRef<'a, {v}>") + ">(); }}", "c.len()")]
for k in VIEW[1:] + VIEWM[1:]:
    HIDDEN += [(k, "{{ let y = mk::<%s>(); c.elem = y.elem; }}" % k, "c.len()")]
for k in VAL:
    w = "touch(&c)"
    HIDDEN += [(k, "{{ let x = &c.bytes; }}", w), (k, "{{ c.type_id = std::any::TypeId::of::<{t}>(); }}", w), (k, "{{ c.alignment = 1; }}", w),
               (k, "{{ let y = mk::<%s>(); c.vtable = y.vtable; }}" % k, w)]
for k, p in (("VecDyn<F>", "data"), ("VecCopy<F>", "data, vtable"), ("Slice<'a, F>", "data"), ("SliceMut<'a, F>", "data"),
             ("SliceCopy<'a, F>", "data, elem, vtable"), ("SliceCopyMut<'a, F>", "data, elem, vtable"), ("ValueRef<'a, F>", "bytes, type_id, alignment, vtable"),
             ("ValueMut<'a, F>", "bytes, type_id, alignment, vtable"), ("CopyValueRef<'a, F>", "bytes, type_id, alignment, vtable"),
             ("CopyValueMut<'a, F>", "bytes, type_id, alignment, vtable"), ("Meta<VTableRef<'a, F>>", "elem, vtable")):
    n = k.split("<")[0]
    HIDDEN.append((k, "{{ let x: %s = %s { %s }; }}" % (k, n, ", ".join(f + ": mk()" for f in p.split(", "))), "{{ touch(&c); }}"))
HIDDEN = [(k, b.replace("%s { " % (k or "").split("<")[0], "%s {{ " % (k or "").split("<")[0]).replace(" }; }}", " }}; }}") if "let x: " in b else b, t) for k, b, t in HIDDEN]

AROUND = ["{e};", "let r = {e};", "let r = || {{ {e}; }};", "for _ in 0..2 {{ let c = &c; }} {e};", "if c_ok() {{ {e}; }}", "let r = [1].iter().map(|_| 1).sum::<i32>(); {{ {e}; }}"]


def fn(kind, tab, body, wrap=""):
    p = "mut c: " + kind.format(v=tab) if kind else ""
    return "pub fn f<'a>(%s) {\n    %s\n}\nfn c_ok() -> bool { true }\n" % (p, body)


def items(rng, n):
    """Every one, and n chosen at random, in varied surroundings."""
    menu = [("n", x) for x in NEEDS] + [("t", x) for x in TRAITS] + [("h", x) for x in HIDDEN]
    out, seen = [], set()
    for j in range(len(menu) + n):
        what, x = menu[j] if j < len(menu) else rng.choice(menu)
        a = {"t": rng.choice(("u8", "u64", "Pod", "[u16; 3]", "usize", "String", "Vec<u8>")), "i": rng.randint(0, 9)}
        if what == "t":
            bad, twin, cat = x[0].format(u=""), x[0].format(u="unsafe "), "unsafe trait"
        else:
            # A hidden table has no type id of its own to be built from.
            k = x[0]
            tabs = TABLES
            if k and k.split("<")[0] in ("BoxValue", "SmallValue") or k and "Copy" in k:
                tabs = TABLES[:3]
            if "into_raw" in x[1] or "from_raw" in x[1]:
                tabs = TABLES[:2]
            v = rng.choice(tabs)
            a.update(v=v, s=v)
            around = rng.choice(AROUND if k else [z for z in AROUND if "&c;" not in z])
            if "c.into_raw_parts" in x[1] or "from(c)" in x[1] or "c.data" in x[1] or "upcast" in x[-1]:
                around = rng.choice(("{e};", "let r = {e};"))
            put = lambda e: fn(k, v, around.format(e=e))
            e = x[1].format(**a)
            if what == "n":
                bad, twin, cat = put(e), put("unsafe { %s }" % e), "unsafe operation"
            else:
                if rng.random() < .5:
                    e = "unsafe { %s }" % e
                bad, twin, cat = put(e), put(x[2].format(**a)), "not public"
        if bad in seen:
            continue
        seen.add(bad)
        out.append(negs.Item("rejected", bad, GROUP, cat, x[0 if what == "t" else 1], [twin]))
    return out
