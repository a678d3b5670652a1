"""Straight-line programs over owners, views and references, with a model of which loans are live."""

# Kinds of variables: type of the variable, and what it is.
#   owner  - owns its data
#   view   - a shared view (may be duplicated freely)
#   mview  - an exclusive view
#   ref    - a native reference (reached through by reborrowing)
KINDS = {
    "TV": ("Vec<T>", "owner"),
    "T": ("T", "owner"),
    "NS": ("&[T]", "ref"), "NM": ("&mut [T]", "ref"), "NR": ("&T", "ref"), "NX": ("&mut T", "ref"),
    # Droppable elements.
    "VD": ("VecDyn<F>", "owner"), "VDd": ("VecDyn<D>", "owner"),
    "BX": ("BoxValue<F>", "owner"), "BXd": ("BoxValue<D>", "owner"),
    "SV": ("SmallValue<F>", "owner"), "SVd": ("SmallValue<D>", "owner"),
    "SL": ("Slice<F>", "view"), "SLd": ("Slice<D>", "view"),
    "SM": ("SliceMut<F>", "mview"), "SMd": ("SliceMut<D>", "mview"),
    "VR": ("ValueRef<F>", "view"), "VRd": ("ValueRef<D>", "view"),
    "VM": ("ValueMut<F>", "mview"), "VMd": ("ValueMut<D>", "mview"),
    "VRx": ("ValueRef<(DropFn, ())>", "view"), "VMx": ("ValueMut<(DropFn, ())>", "mview"),
    "RVD": ("&VecDyn<F>", "ref"), "XVD": ("&mut VecDyn<F>", "ref"),
    "RSL": ("&Slice<F>", "ref"), "XSM": ("&mut SliceMut<F>", "ref"),
    "TR": ("&F", "ref"), "ME": ("Meta<VTableRef<F>>", "view"),
    "IT": ("iterator of ValueRef<F>", "iter"), "IM": ("iterator of ValueMut<F>", "iter"),
    "IS": ("iterator of Slice<F>", "iter"), "IX": ("iterator of SliceMut<F>", "iter"),
    "BH": ("VecDyn<dyn HasFull>", "owner"), "SH": ("Slice<dyn HasFull>", "view"), "MH": ("SliceMut<dyn HasFull>", "mview"),
    # Plain data.
    "VC": ("VecCopy", "owner"),
    "SC": ("SliceCopy", "view"), "SCM": ("SliceCopyMut", "mview"),
    "CR": ("CopyValueRef", "view"), "CM": ("CopyValueMut", "mview"),
    "RVC": ("&VecCopy", "ref"), "XVC": ("&mut VecCopy", "ref"),
    "RSC": ("&SliceCopy", "ref"), "XSC": ("&mut SliceCopyMut", "ref"),
    "CIT": ("iterator of CopyValueRef", "iter"), "CIM": ("iterator of CopyValueMut", "iter"),
    "CIS": ("iterator of SliceCopy", "iter"), "CIX": ("iterator of SliceCopyMut", "iter"),
    "CME": ("Meta<VTableRef<()>>", "view"),
}


class Op:
    """`mode` says what happens to the source: new (there is none), ref, mut, own, copy (used, the result holds what the
    source holds), use, usemut.  A loose result holds a loan that a sound interface could do without.
    `other` is the kind and mode of a second operand, used at the same time."""

    def __init__(self, name, src, mode, code, dst=None, loose=False, other=None, keep_other=False):
        self.__dict__.update(locals())


OPS = []


def op(*a, **k):
    OPS.append(Op(*a, **k))


def both(src, mode, code, dst, loose=False):
    """An operation on a view with the full table and with the reduced one."""
    n = src + ": " + code
    op(n, src, mode, code, dst, loose)
    if src + "d" in KINDS:
        op(n + " (reduced)", src + "d", mode, code, dst if dst in ("NS", "NM", "NR", "NX", "TV", None) else dst + "d", loose)


# --- sources
op("typed vector", None, "new", "mkv()", "TV")
op("typed value", None, "new", "mk()", "T")
op("vector", None, "new", "VecDyn::<F>::from_vec(mkv())", "VD")
op("boxed value", None, "new", "BoxValue::<F>::new(mk())", "BX")
op("small value", None, "new", "SmallValue::<F>::new(mk())", "SV")
op("plain vector", None, "new", "VecCopy::<()>::from_vec(mkv())", "VC")
op("slice of a vector", "TV", "ref", "&{s}[..]", "NS")
op("mutable slice of a vector", "TV", "mut", "&mut {s}[..]", "NM")
op("reference", "T", "ref", "&{s}", "NR")
op("mutable reference", "T", "mut", "&mut {s}", "NX")
op("element", "NS", "copy", "&{s}[0]", "NR")
op("mutable element", "NM", "mut", "&mut {s}[0]", "NX")

# --- erasing
for how in ("Slice::<F>::from_slice", "Slice::<F>::from"):
    op(how + " of a vector", "TV", "ref", how + "(&{s}[..])", "SL")
    op(how, "NS", "copy", how + "({s})", "SL")
for how in ("SliceMut::<F>::from_slice", "SliceMut::<F>::from"):
    op(how + " of a vector", "TV", "mut", how + "(&mut {s}[..])", "SM")
    op(how, "NM", "mut", how + "(&mut *{s})", "SM")
    op(how + " of a moved reference", "NM", "own", how + "({{ {s} }})", "SM")
op("ValueRef::new", "T", "ref", "ValueRef::<F>::new(&{s})", "VR")
op("ValueRef::new of a reference", "NR", "copy", "ValueRef::<F>::new({s})", "VR")
op("ValueMut::new", "T", "mut", "ValueMut::<F>::new(&mut {s})", "VM")
op("ValueMut::new of a reference", "NX", "mut", "ValueMut::<F>::new(&mut *{s})", "VM")
op("VecDyn::from_vec", "TV", "own", "VecDyn::<F>::from_vec({s})", "VD")
op("VecDyn::from_slice", "TV", "use", "VecDyn::<F>::from_slice(&{s})", "VD")
op("VecDyn::from slice", "NS", "use", "VecDyn::<F>::from({s})", "VD")
op("BoxValue::new", "T", "use", "BoxValue::<F>::new({s})", "BX")
op("SmallValue::new", "T", "use", "SmallValue::<F>::new({s})", "SV")
for how in ("SliceCopy::<()>::from_slice", "SliceCopy::<()>::from"):
    op(how + " of a vector", "TV", "ref", how + "(&{s}[..])", "SC")
    op(how, "NS", "copy", how + "({s})", "SC")
for how in ("SliceCopyMut::<()>::from_slice", "SliceCopyMut::<()>::from"):
    op(how + " of a vector", "TV", "mut", how + "(&mut {s}[..])", "SCM")
    op(how, "NM", "mut", how + "(&mut *{s})", "SCM")
op("CopyValueRef::new", "T", "ref", "CopyValueRef::<()>::new(&{s})", "CR")
op("CopyValueRef::new of a reference", "NR", "copy", "CopyValueRef::<()>::new({s})", "CR")
op("CopyValueMut::new", "T", "mut", "CopyValueMut::<()>::new(&mut {s})", "CM")
op("CopyValueMut::new of a reference", "NX", "mut", "CopyValueMut::<()>::new(&mut *{s})", "CM")
op("VecCopy::from_vec", "TV", "own", "VecCopy::<()>::from_vec({s})", "VC")
op("VecCopy::from_slice", "NS", "use", "VecCopy::<()>::from_slice({s})", "VC")

# --- vectors of droppable elements, directly and through references
VD_REF = [
    ("{s}.as_slice()", "SL"), ("{s}.get(0)", "VR"), ("{s}.iter().next().unwrap()", "VR"), ("{s}.as_slice_as::<T>().unwrap()", "NS"),
    ("{s}.get_ref_as::<T>(0).unwrap()", "NR"), ("{s}.iter_as::<T>().unwrap().next().unwrap()", "NR"), ("{s}.check_ref::<T>().unwrap()", "RVD"),
    ("{s}.vtable()", "TR"), ("unsafe {{ {s}.get_unchecked_ref::<T>(0) }}", "NR"), ("{s}.iter()", "IT"),
]
VD_MUT = [
    ("{s}.as_mut_slice()", "SM"), ("{s}.get_mut(0)", "VM"), ("{s}.iter_mut().next().unwrap()", "VM"), ("{s}.as_mut_slice_as::<T>().unwrap()", "NM"),
    ("{s}.get_mut_as::<T>(0).unwrap()", "NX"), ("{s}.iter_mut_as::<T>().unwrap().next().unwrap()", "NX"), ("{s}.check_mut::<T>().unwrap()", "XVD"),
    ("{s}.push_as(mk()).unwrap()", "XVD"), ("{s}.resize::<T>(3, mk()).unwrap()", "XVD"), ("{s}.fill::<T>(mk()).unwrap()", "XVD"),
    ("{s}.push(BoxValue::<F>::new(mk())).unwrap()", "XVD"), ("{s}.push_cloned(ValueRef::new(&mk())).unwrap()", "XVD"),
    ("{s}.append(&mut VecDyn::<F>::from_vec(mkv())).unwrap()", "XVD"), ("unsafe {{ {s}.get_unchecked_mut::<T>(0) }}", "NX"), ("{s}.iter_mut()", "IM"),
]
VD_USE = [("{s}.len()", None), ("{s}.clone_into_vec::<T>().unwrap()", "TV"), ("{s}.element_type_id()", None), ("{s}.is_empty()", None)]
VD_USEMUT = [("{s}.clear()", None), ("{s}.rotate_left(1)", None), ("{s}.rotate_right(1)", None), ("{{ {s}.push_as(mk()); }}", None)]
for src, r, m in (("VD", "ref", "mut"), ("XVD", "ref", "mut"), ("RVD", "copy", None)):
    for c, d in VD_REF:
        op(src + ": " + c, src, r, c, d)
    for c, d in VD_USE:
        op(src + ": " + c, src, "use", c, d)
    if m:
        for c, d in VD_MUT:
            op(src + ": " + c, src, m, c, d)
        for c, d in VD_USEMUT:
            op(src + ": " + c, src, "usemut", c, d)
op("VD: Meta::from", "VD", "ref", "Meta::from(&{s})", "ME")
op("VD: with_type_from", "VD", "use", "{{ let mut x = VecDyn::<F>::with_type_from(&{s}); for _ in 0..3 {{ x.push_as(mk()); }} x }}", "VD")
op("VD: clone", "VD", "use", "{s}.clone()", "VD")
op("VD: into_vec", "VD", "own", "{s}.into_vec::<T>().unwrap()", "TV")
op("VD: check", "VD", "own", "{s}.check::<T>().unwrap()", "VD")
op("VD: upcast", "VD", "own", "{s}.upcast::<D>()", "VDd")
op("VD: drop", "VD", "own", "drop({s})")
op("VD: replace", "VD", "usemut", "{s} = VecDyn::from_vec(mkv())")
op("VDd: as_slice", "VDd", "ref", "{s}.as_slice()", "SLd")
op("VDd: as_mut_slice", "VDd", "mut", "{s}.as_mut_slice()", "SMd")
op("VDd: get", "VDd", "ref", "{s}.get(0)", "VRd")
op("VDd: get_mut", "VDd", "mut", "{s}.get_mut(0)", "VMd")
op("VDd: as_slice_as", "VDd", "ref", "{s}.as_slice_as::<T>().unwrap()", "NS")
op("VDd: push_as", "VDd", "usemut", "{{ {s}.push_as(mk()); }}")
op("VDd: into_vec", "VDd", "own", "{s}.into_vec::<T>().unwrap()", "TV")
op("ME: with_type_from", "ME", "own", "{{ let mut x = VecDyn::<F>::with_type_from({s}); for _ in 0..3 {{ x.push_as(mk()); }} x }}", "VD")
op("XVD: len", "XVD", "use", "{s}.len()")

# --- slices
for c, d in [("{s}.reborrow()", "SL"), ("{s}.iter().next().unwrap()", "VR"), ("{s}.chunks_exact(1).next().unwrap()", "SL"), ("{s}.split_at(0).0", "SL"),
             ("{s}.split_at(0).1", "SL"), ("{s}.get(0)", "VR"), ("{s}.subslice(0..1)", "SL"), ("{s}.subslice(..)", "SL")]:
    both("SL", "ref", c, d)
for c, d in [("{s}.iter()", "IT"), ("{s}.chunks_exact(1)", "IS"), ("{s}.check::<T>().unwrap()", "RSL")]:
    op("SL: " + c, "SL", "ref", c, d)
for c, d in [("{s}.as_slice::<T>().unwrap()", "NS"), ("{s}.iter_as::<T>().unwrap().next().unwrap()", "NR"), ("{s}.get_as::<T>(0).unwrap()", "NR")]:
    both("SL", "ref", c, d, loose=True)
for c, d in [("{s}.into_subslice(0..1)", "SL"), ("{s}.into_iter().next().unwrap()", "VR")]:
    both("SL", "own", c, d)
op("SL: clone", "SL", "copy", "{s}.clone()", "SL")
op("SL: upcast", "SL", "own", "{s}.upcast::<D>()", "SLd")
op("SL: clone_into_vec", "SL", "use", "{s}.clone_into_vec::<T>().unwrap()", "TV")
op("SL: len", "SL", "use", "{s}.len()")
op("SL: Meta::from", "SL", "own", "Meta::from({s})", "ME")
op("SL: into_iter", "SL", "own", "{s}.into_iter()", "IT")
op("RSL: get", "RSL", "copy", "{s}.get(0)", "VR")
op("RSL: subslice", "RSL", "copy", "{s}.subslice(..1)", "SL")

for c, d in [("{s}.reborrow()", "SL"), ("{s}.chunks_exact(1).next().unwrap()", "SL"), ("{s}.get(0)", "VR"), ("{s}.subslice(0..1)", "SL"), ("Slice::from(&{s})", "SL")]:
    both("SM", "ref", c, d)
for c, d in [("{s}.reborrow_mut()", "SM"), ("{s}.iter_as::<T>().unwrap().next().unwrap()", "NX"), ("{s}.as_slice::<T>().unwrap()", "NM"), ("{s}.get_as::<T>(0).unwrap()", "NX"),
             ("{s}.iter().next().unwrap()", "VM"), ("{s}.chunks_exact_mut(1).next().unwrap()", "SM"), ("{s}.split_at(0).0", "SM"), ("{s}.split_at(0).1", "SM"),
             ("{s}.get_mut(0)", "VM"), ("{s}.subslice_mut(0..1)", "SM"), ("{s}.subslice_mut(..)", "SM")]:
    both("SM", "mut", c, d)
for c, d in [("{s}.iter()", "IM"), ("{s}.chunks_exact_mut(1)", "IX"), ("{s}.check::<T>().unwrap()", "XSM")]:
    op("SM: " + c, "SM", "mut", c, d)
op("SM: chunks_exact", "SM", "ref", "{s}.chunks_exact(1)", "IS")
for c, d in [("{s}.into_subslice(0..1)", "SM"), ("{s}.into_iter().next().unwrap()", "VM"), ("Slice::from({s})", "SL")]:
    both("SM", "own", c, d)
op("SM: into_iter", "SM", "own", "{s}.into_iter()", "IM")
op("SM: upcast", "SM", "own", "{s}.upcast::<D>()", "SMd")
op("SM: clone_into_vec", "SM", "own", "{s}.clone_into_vec::<T>().unwrap()", "TV")
op("SM: Meta::from", "SM", "own", "Meta::from({s})", "ME")
op("SM: len", "SM", "use", "{s}.len()")
op("SM: swap", "SM", "usemut", "{s}.swap(0, 0)")
op("SM: rotate", "SM", "usemut", "{s}.rotate_left(0)")
op("SM: clone_from_slice", "SM", "usemut", "{{ {s}.clone_from_slice(&mkv()[..]); }}")
op("XSM: get_mut", "XSM", "mut", "{s}.get_mut(0)", "VM")
op("XSM: get_as", "XSM", "mut", "{s}.get_as::<T>(0).unwrap()", "NX")
op("XSM: reborrow", "XSM", "ref", "{s}.reborrow()", "SL")

# --- values
both("VR", "ref", "{s}.reborrow()", "VR")
op("VR: upcast_ref", "VR", "ref", "{s}.upcast_ref::<D>()", "VRd", loose=True)
op("VR: clone", "VR", "copy", "{s}.clone()", "VR")
both("VR", "own", "{s}.downcast::<T>().unwrap()", "NR")
op("VR: upcast", "VR", "own", "{s}.upcast::<D>()", "VRd")
op("VR: clone_value", "VR", "use", "{s}.clone_value()", "BX")
op("VR: clone_small_value", "VR", "use", "{s}.clone_small_value()", "SV")
op("VR: size", "VR", "use", "{s}.size()")
op("VR: Meta::from", "VR", "own", "Meta::from({s})", "ME")
both("VM", "ref", "{s}.reborrow()", "VR")
both("VM", "mut", "{s}.reborrow_mut()", "VM")
op("VM: upcast_mut", "VM", "mut", "{s}.upcast_mut::<D>()", "VMd")
both("VM", "own", "{s}.downcast::<T>().unwrap()", "NX")
op("VM: upcast", "VM", "own", "{s}.upcast::<D>()", "VMd")
both("VM", "own", "ValueRef::from({s})", "VR")
op("VM: clone_value", "VM", "use", "{s}.clone_value()", "BX")
op("VM: clone_small_value", "VM", "use", "{s}.clone_small_value()", "SV")
op("VM: Meta::from", "VM", "own", "Meta::from({s})", "ME")
op("VM: assign", "VM", "usemut", "{s}.assign(BoxValue::<F>::new(mk()))")
op("VM: clone_from_other", "VM", "usemut", "{{ {s}.clone_from_other(ValueRef::new(&mk())); }}")
for b in ("BX", "SV"):
    both(b, "ref", "{s}.as_ref()", "VR")
    op(b + ": ValueRef::from", b, "ref", "ValueRef::from(&{s})", "VR")
    both(b, "mut", "{s}.as_mut()", "VM")
    op(b + ": clone", b, "use", "{s}.clone()", b)
    op(b + ": upcast", b, "own", "{s}.upcast::<D>()", b + "d")
    op(b + ": drop", b, "own", "drop({s})")
    op(b + ": replace", b, "usemut", "{s} = %s::new(mk())" % ("BoxValue" if b == "BX" else "SmallValue"))
op("BX: downcast", "BX", "own", "*{s}.downcast::<T>().unwrap()", "T")
op("SV: downcast", "SV", "own", "{s}.downcast::<T>().unwrap()", "T")
op("BXd: downcast", "BXd", "own", "*{s}.downcast::<T>().unwrap()", "T")
op("SVd: downcast", "SVd", "own", "{s}.downcast::<T>().unwrap()", "T")

# --- hidden tables
op("VD: into_dyn", "VD", "own", "into_dyn![VecDyn<dyn HasFull>]({s})", "BH")
op("BH: from_dyn", "BH", "own", "from_dyn![VecDyn<dyn HasFull as F>]({s})", "VD")
op("BH: as_slice", "BH", "ref", "{s}.as_slice()", "SH")
op("BH: as_mut_slice", "BH", "mut", "{s}.as_mut_slice()", "MH")
op("BH: get_ref_as", "BH", "ref", "{s}.get_ref_as::<T>(0).unwrap()", "NR")
op("BH: push_as", "BH", "usemut", "{{ {s}.push_as(mk()); }}")
op("BH: drop", "BH", "own", "drop({s})")
op("SL: into_dyn", "SL", "own", "into_dyn![Slice<dyn HasFull>]({s})", "SH")
op("SM: into_dyn", "SM", "own", "into_dyn![SliceMut<dyn HasFull>]({s})", "MH")
op("SH: subslice", "SH", "ref", "{s}.subslice(0..1)", "SH")
op("SH: as_slice", "SH", "ref", "{s}.as_slice::<T>().unwrap()", "NS", loose=True)
op("SH: from_dyn", "SH", "own", "from_dyn![Slice<dyn HasFull as F>]({s})", "SL")
op("MH: get_as", "MH", "mut", "{s}.get_as::<T>(0).unwrap()", "NX")
op("MH: reborrow", "MH", "ref", "{s}.reborrow()", "SH")
op("MH: reborrow_mut", "MH", "mut", "{s}.reborrow_mut()", "MH")
op("MH: from_dyn", "MH", "own", "from_dyn![SliceMut<dyn HasFull as F>]({s})", "SM")

# --- iterators
op("IT: next", "IT", "mutcopy", "{s}.next().unwrap()", "VR")
op("IM: next", "IM", "mutcopy", "{s}.next().unwrap()", "VM")
op("IS: next", "IS", "mutcopy", "{s}.next().unwrap()", "SL")
op("IX: next", "IX", "mutcopy", "{s}.next().unwrap()", "SM")

# --- plain data
VC_REF = [
    ("{s}.as_slice()", "SC"), ("{s}.get_ref(0)", "CR"), ("{s}.iter().next().unwrap()", "CR"), ("{s}.as_slice_as::<T>().unwrap()", "NS"),
    ("{s}.get_ref_as::<T>(0).unwrap()", "NR"), ("{s}.iter_as::<T>().unwrap().next().unwrap()", "NR"), ("{s}.check_ref::<T>().unwrap()", "RVC"),
    ("unsafe {{ {s}.get_unchecked_ref::<T>(0) }}", "NR"), ("{s}.iter()", "CIT"),
]
VC_MUT = [
    ("{s}.as_mut_slice()", "SCM"), ("{s}.get_mut(0)", "CM"), ("{s}.iter_mut().next().unwrap()", "CM"), ("{s}.as_mut_slice_as::<T>().unwrap()", "NM"),
    ("{s}.get_mut_as::<T>(0).unwrap()", "NX"), ("{s}.iter_mut_as::<T>().unwrap().next().unwrap()", "NX"), ("{s}.check_mut::<T>().unwrap()", "XVC"),
    ("{s}.push_as(mk()).unwrap()", "XVC"), ("{s}.resize::<T>(3, mk()).unwrap()", "XVC"), ("{s}.fill::<T>(mk()).unwrap()", "XVC"),
    ("{s}.copy_from_slice::<T>(&mkv()[..]).unwrap()", "XVC"), ("{s}.push(CopyValueRef::<()>::new(&mk())).unwrap()", "XVC"),
    ("{s}.append(&mut VecCopy::<()>::from_vec(mkv())).unwrap()", "XVC"), ("unsafe {{ {s}.get_unchecked_mut::<T>(0) }}", "NX"), ("{s}.iter_mut()", "CIM"),
]
VC_USE = [("{s}.len()", None), ("{s}.copy_into_vec::<T>().unwrap()", "TV"), ("{s}.get_as::<T>(0).unwrap()", "T"), ("{s}.capacity()", None)]
VC_USEMUT = [("{s}.clear()", None), ("{s}.rotate_left(1)", None), ("{s}.reserve(4)", None), ("{{ {s}.push_as(mk()); }}", None)]
for src, r, m in (("VC", "ref", "mut"), ("XVC", "ref", "mut"), ("RVC", "copy", None)):
    for c, d in VC_REF:
        op(src + ": " + c, src, r, c, d)
    for c, d in VC_USE:
        op(src + ": " + c, src, "use", c, d)
    if m:
        for c, d in VC_MUT:
            op(src + ": " + c, src, m, c, d)
        for c, d in VC_USEMUT:
            op(src + ": " + c, src, "usemut", c, d)
op("VC: Meta::from", "VC", "ref", "Meta::from(&{s})", "CME")
op("CME: with_type_from", "CME", "own", "{{ let mut x = VecCopy::<()>::with_type_from({s}); for _ in 0..3 {{ x.push_as(mk()); }} x }}", "VC")
op("VC: clone", "VC", "use", "{s}.clone()", "VC")
op("VC: into_vec", "VC", "own", "{s}.into_vec::<T>().unwrap()", "TV")
op("VC: check", "VC", "own", "{s}.check::<T>().unwrap()", "VC")
op("VC: upcast", "VC", "own", "{s}.upcast::<()>()", "VC")
op("VC: drop", "VC", "own", "drop({s})")
op("VC: replace", "VC", "usemut", "{s} = VecCopy::from_vec(mkv())")
for c, d in [("{s}.reborrow()", "SC"), ("{s}.iter().next().unwrap()", "CR"), ("{s}.chunks_exact(1).next().unwrap()", "SC"), ("{s}.split_at(0).0", "SC"),
             ("{s}.split_at(0).1", "SC"), ("{s}.get(0)", "CR"), ("{s}.subslice(0..1)", "SC"), ("{s}.iter()", "CIT"), ("{s}.chunks_exact(1)", "CIS"),
             ("{s}.check::<T>().unwrap()", "RSC")]:
    op("SC: " + c, "SC", "ref", c, d)
for c, d in [("{s}.as_slice::<T>().unwrap()", "NS"), ("{s}.iter_as::<T>().unwrap().next().unwrap()", "NR"), ("{s}.get_as::<T>(0).unwrap()", "NR")]:
    op("SC: " + c, "SC", "ref", c, d, loose=True)
for c, d in [("{s}.into_subslice(0..1)", "SC"), ("{s}.into_iter().next().unwrap()", "CR"), ("{s}.upcast::<()>()", "SC"), ("Meta::from({s})", "CME"), ("{s}.into_iter()", "CIT")]:
    op("SC: " + c, "SC", "own", c, d)
op("SC: clone", "SC", "copy", "{s}.clone()", "SC")
op("SC: copy_into_vec", "SC", "use", "{s}.copy_into_vec::<T>().unwrap()", "TV")
op("SC: len", "SC", "use", "{s}.len()")
op("RSC: get", "RSC", "copy", "{s}.get(0)", "CR")
for c, d in [("{s}.reborrow()", "SC"), ("{s}.chunks_exact(1).next().unwrap()", "SC"), ("{s}.get(0)", "CR"), ("{s}.subslice(0..1)", "SC"), ("SliceCopy::from(&{s})", "SC"),
             ("{s}.chunks_exact(1)", "CIS")]:
    op("SCM: " + c, "SCM", "ref", c, d)
for c, d in [("{s}.reborrow_mut()", "SCM"), ("{s}.iter_as::<T>().unwrap().next().unwrap()", "NX"), ("{s}.as_slice::<T>().unwrap()", "NM"), ("{s}.get_as::<T>(0).unwrap()", "NX"),
             ("{s}.iter().next().unwrap()", "CM"), ("{s}.chunks_exact_mut(1).next().unwrap()", "SCM"), ("{s}.split_at(0).0", "SCM"), ("{s}.split_at(0).1", "SCM"),
             ("{s}.get_mut(0)", "CM"), ("{s}.subslice_mut(0..1)", "SCM"), ("{s}.check::<T>().unwrap()", "XSC"), ("{s}.iter()", "CIM"), ("{s}.chunks_exact_mut(1)", "CIX"),
             ("{s}.copy_from_slice(&mkv()[..]).unwrap()", "XSC")]:
    op("SCM: " + c, "SCM", "mut", c, d)
for c, d in [("{s}.into_subslice(0..1)", "SCM"), ("{s}.into_iter().next().unwrap()", "CM"), ("SliceCopy::from({s})", "SC"), ("{s}.upcast::<()>()", "SCM"),
             ("{s}.copy_into_vec::<T>().unwrap()", "TV"), ("Meta::from({s})", "CME"), ("{s}.into_iter()", "CIM")]:
    op("SCM: " + c, "SCM", "own", c, d)
op("SCM: len", "SCM", "use", "{s}.len()")
op("SCM: swap", "SCM", "usemut", "{s}.swap(0, 0)")
op("SCM: rotate", "SCM", "usemut", "{s}.rotate_right(0)")
op("XSC: get_mut", "XSC", "mut", "{s}.get_mut(0)", "CM")
op("CR: downcast", "CR", "own", "{s}.downcast::<T>().unwrap()", "NR")
op("CR: upcast", "CR", "own", "{s}.upcast::<()>()", "CR")
op("CR: upcast_ref", "CR", "ref", "{s}.upcast_ref::<()>()", "CR", loose=True)
op("CR: clone", "CR", "copy", "{s}.clone()", "CR")
op("CR: to a value", "CR", "own", "ValueRef::<(DropFn, ())>::from({s})", "VRx")
op("CR: size", "CR", "use", "{s}.size()")
op("CR: Meta::from", "CR", "own", "Meta::from({s})", "CME")
op("CM: downcast", "CM", "own", "{s}.downcast::<T>().unwrap()", "NX")
op("CM: upcast", "CM", "mut", "{s}.upcast::<()>()", "CM")
op("CM: to a shared one", "CM", "own", "CopyValueRef::from({s})", "CR")
op("CM: to a value", "CM", "own", "ValueMut::<(DropFn, ())>::from({s})", "VMx")
op("VRx: downcast", "VRx", "own", "{s}.downcast::<T>().unwrap()", "NR")
op("VRx: reborrow", "VRx", "ref", "{s}.reborrow()", "VRx")
op("VMx: downcast", "VMx", "own", "{s}.downcast::<T>().unwrap()", "NX")
op("VMx: reborrow_mut", "VMx", "mut", "{s}.reborrow_mut()", "VMx")
op("VMx: reborrow", "VMx", "ref", "{s}.reborrow()", "VRx")
op("CIT: next", "CIT", "mutcopy", "{s}.next().unwrap()", "CR")
op("CIM: next", "CIM", "mutcopy", "{s}.next().unwrap()", "CM")
op("CIS: next", "CIS", "mutcopy", "{s}.next().unwrap()", "SC")
op("CIX: next", "CIX", "mutcopy", "{s}.next().unwrap()", "SCM")

# --- two operands
op("VD: push_cloned of", "VD", "usemut", "{{ {s}.push_cloned({o}.clone()); }}", other=("VR", "copy"))
op("VD: append of", "VD", "usemut", "{{ {s}.append(&mut {o}); }}", other=("VD", "usemut"))
op("VD: push of", "VD", "usemut", "{{ {s}.push({o}); }}", other=("BX", "own"))
op("VM: clone_from_other of", "VM", "usemut", "{{ {s}.clone_from_other({o}.clone()); }}", other=("VR", "copy"))
op("VM: swap with", "VM", "usemut", "{s}.swap(&mut {o})", other=("VM", "usemut"))
op("VM: assign of", "VM", "usemut", "{s}.assign({o})", other=("BX", "own"))
op("SM: clone_from_slice of", "SM", "usemut", "{{ {s}.clone_from_slice::<T>({o}); }}", other=("NS", "use"))
op("VD: appended to", "VD", "use", "{{ {s}.append_cloned_to_vec(&mut {o}); }}", other=("TV", "usemut"))
op("SL: appended to", "SL", "use", "{{ {s}.append_clone_to_vec(&mut {o}); }}", other=("TV", "usemut"))
op("VC: push of", "VC", "usemut", "{{ {s}.push({o}.clone()); }}", other=("CR", "copy"))
op("VC: append of", "VC", "usemut", "{{ {s}.append(&mut {o}); }}", other=("VC", "usemut"))
op("VC: extend by", "VC", "usemut", "{s}.extend({o}.iter())", other=("SC", "use"))
op("CM: swap with", "CM", "usemut", "{s}.swap(&mut {o})", other=("CM", "usemut"))
op("SCM: copy_from_slice of", "SCM", "usemut", "{{ {s}.copy_from_slice::<T>({o}); }}", other=("NS", "use"))
op("VC: appended to", "VC", "use", "{{ {s}.append_copy_to_vec(&mut {o}); }}", other=("TV", "usemut"))

BYNAME = {}
for _o in OPS:
    if _o.name in BYNAME and BYNAME[_o.name].code != _o.code:
        raise Exception("two operations named " + _o.name)
    BYNAME[_o.name] = _o
OPS = list(BYNAME.values())
# Ways of using a variable once more.
TOUCH = Op("touch", None, "touch", "touch(&{s})")

PRELUDE = """
use dync::*;
use dync::traits::*;
#[dync_trait(dync_crate_name = "dync")]
pub trait Full: Clone + PartialEq + std::fmt::Debug {}
impl<T> Full for T where T: Clone + PartialEq + std::fmt::Debug {}
pub type F = FullVTable;
pub type D = DropVTable;
pub type T = u64;
pub fn mk() -> T { 7 }
pub fn mkv() -> Vec<T> { vec![1, 2, 3] }
pub fn touch<X: ?Sized>(_: &X) {}
pub fn need_static<X: 'static>(_: X) {}
"""


class St:
    """One statement: an operation on variable `s` (and `o`), whose result is variable `v`."""

    def __init__(self, op, v, s=None, o=None):
        self.op, self.v, self.s, self.o = op, v, s, o

    def text(self):
        c = self.op.code.format(s="v%s" % self.s, o="v%s" % self.o)
        if self.v is not None:
            return "let mut v%d = %s;" % (self.v, c)
        return c + ";"

    def uses(self):
        return [x for x in (self.s, self.o) if x is not None]


STRICT_MOVE = ("owner", "mview")


class Judge:
    """Which variables a prefix of a program leaves usable.

    `ok` - certainly usable; `bad` - certainly not.  A variable may be neither."""

    def __init__(self):
        self.kind = {}
        self.loans = {}
        self.ok = {}
        self.bad = {}
        self.legal = True
        self.illegal = False

    def copy(self):
        j = Judge()
        j.kind, j.ok, j.bad = dict(self.kind), dict(self.ok), dict(self.bad)
        j.loans = {k: list(v) for k, v in self.loans.items()}
        j.legal, j.illegal = self.legal, self.illegal
        return j

    def use(self, x):
        if not self.ok[x]:
            self.legal = False
        if self.bad[x]:
            self.illegal = True

    def hit(self, x, shared):
        """Variables whose loans end when `x` is used: all of them, or the exclusive ones."""
        for y, ls in self.loans.items():
            for (t, m, strict) in ls:
                if t == x and (m or not shared):
                    self.ok[y] = False
                    if strict:
                        self.bad[y] = True
                    if KINDS[self.kind[y]][1] == "iter":
                        # Iterators may hold on to their loans until they are dropped.
                        self.legal = False

    def access(self, x, mode):
        self.use(x)
        if mode in ("ref", "copy", "use", "touch"):
            self.hit(x, True)
        else:
            self.hit(x, False)
        if mode == "own":
            self.ok[x] = False
            if KINDS[self.kind[x]][1] in STRICT_MOVE:
                self.bad[x] = self.bad[x] or True

    def step(self, st):
        op = st.op
        ls = []
        if st.s is not None:
            mode = op.mode
            self.access(st.s, mode)
            if mode in ("ref", "mut"):
                ls = [(st.s, mode == "mut", not op.loose)] + self.loans[st.s]
            elif mode in ("own", "copy", "mutcopy"):
                ls = list(self.loans[st.s])
            if op.other:
                # Both are in use at the same time: using one must not end the other.
                if st.o == st.s:
                    self.legal = False
                    self.illegal = True
                else:
                    om = op.other[1]
                    self.access(st.o, om)
                    # The operand must not hold a loan the other access ends, nor the other way round.
                    for a, b, m in ((st.s, st.o, op.mode), (st.o, st.s, om)):
                        for (t, mm, strict) in self.loans[b]:
                            if t == a and (mm or m not in ("use", "ref", "copy")):
                                self.legal = False
                                if strict:
                                    self.illegal = True
        if st.v is not None:
            if KINDS[op.dst][1] == "owner":
                ls = []
            self.kind[st.v] = op.dst
            self.ok[st.v] = True
            self.bad[st.v] = False
            self.loans[st.v] = ls
        # A fresh value put into a variable does not revive what pointed into it.


def judge(sts):
    j = Judge()
    for st in sts:
        j.step(st)
    return j


def body(sts, before="", after=""):
    return "pub fn f() {\n" + before + "".join("    " + s.text() + "\n" for s in sts) + after + "}\n"


def gen_prefix(rng, n, usage, owner):
    """A legal program; operations used least so far are preferred."""
    sts = []
    j = Judge()
    nxt = 0
    while len(sts) < n:
        cands = []
        if not sts or rng.random() < 0.12:
            cands = [(o, None, None) for o in OPS if o.mode == "new" and (sts or owner is None or o.dst == owner)]
        else:
            good = [x for x in j.ok if j.ok[x]]
            # Depth: prefer recent variables.
            rng.shuffle(good)
            good.sort(reverse=True)
            for x in good[:6]:
                for o in OPS:
                    if o.src == j.kind[x]:
                        if o.other:
                            for y in good:
                                if y != x and j.kind[y] == o.other[0]:
                                    cands.append((o, x, y))
                        else:
                            cands.append((o, x, None))
        if not cands:
            if sts and rng.random() < 0.5:
                break
            cands = [(o, None, None) for o in OPS if o.mode == "new"]
        rng.shuffle(cands)
        done = False
        for o, x, y in sorted(cands, key=lambda c: (usage.get(c[0].name, 0) + rng.random() * 6 + (3 if c[0].dst is None else 0) + (2 if c[0].mode == "own" else 0)))[:10]:
            st = St(o, nxt if o.dst else None, x, y)
            k = j.copy()
            k.step(st)
            if k.legal:
                j = k
                sts.append(st)
                usage[o.name] = usage.get(o.name, 0) + 1
                if o.dst:
                    nxt += 1
                done = True
                break
        if not done and rng.random() < 0.3:
            break
    return sts, j, nxt


def touch(x):
    return St(TOUCH, None, x)


def conflicts(rng, j, nxt):
    """Statements that end the loans of a usable variable: (statement, variable)."""
    out = []
    for w in j.ok:
        if not j.ok[w] or KINDS[j.kind[w]][1] == "owner":
            continue
        for (t, m, strict) in j.loans[w]:
            if not strict or not j.ok[t]:
                continue
            for o in OPS:
                if o.src != j.kind[t] or o.other or o.mode == "mutcopy":
                    continue
                shared = o.mode in ("ref", "copy", "use")
                if shared and not m:
                    continue
                if KINDS[j.kind[t]][1] == "ref" and o.mode == "own":
                    continue
                st = St(o, nxt if o.dst else None, t)
                out.append((st, w))
            for o in OPS:
                if o.other and o.src == j.kind[t] and o.other[0] == j.kind[w] and (o.mode == "usemut" or m):
                    out.append((St(o, None, t, w), w))
    rng.shuffle(out)
    return out


class Case:
    """A program to be rejected, programs like it to be accepted."""

    def __init__(self, what, sts, bad, twins):
        self.what, self.sts, self.bad, self.twins = what, sts, bad, twins


def gen(rng, usage, pairs):
    """One case, or nothing."""
    owner = rng.choice(["TV", "T", "VD", "BX", "SV", "VC", None])
    sts, j, nxt = gen_prefix(rng, rng.randint(2, 9), usage, owner)
    kind = rng.random()
    if kind < 0.72:
        cs = conflicts(rng, j, nxt)
        if not cs:
            return None
        maker = {}
        for s in sts:
            if s.v is not None:
                maker[s.v] = s.op.name
        # Prefer pairs of a way of making a view and a way of breaking it that are new.
        cs = sorted(cs[:60], key=lambda c: (pairs.get((maker[c[1]], c[0].op.name), 0), pairs.get(maker[c[1]], 0) + pairs.get(c[0].op.name, 0)))
        st, w = cs[0]
        for k in ((maker[w], st.op.name), maker[w], st.op.name):
            pairs[k] = pairs.get(k, 0) + 1
        if st.o is not None:
            return make("conflict", sts + [st], w, nxt)
        return make("conflict", sts + [st, touch(w)], w, nxt)
    ws = [w for w in j.ok if j.ok[w] and any(s for (_, _, s) in j.loans[w])]
    if kind < 0.84:
        if not ws:
            return None
        return make("static", sts, rng.choice(ws), nxt)
    if kind < 0.94:
        ws = [w for w in ws if any(s and KINDS[j.kind[t]][1] != "ref" for (t, _, s) in j.loans[w])]
        if not ws:
            return None
        return make("escape", sts, rng.choice(ws), nxt)
    ws = [w for w in j.ok if j.ok[w] and KINDS[j.kind[w]][1] in STRICT_MOVE]
    own = [(o, w) for w in ws for o in OPS if o.src == j.kind[w] and o.mode == "own"]
    if not own:
        return None
    o, w = rng.choice(own)
    return make("move", sts + [St(o, nxt if o.dst else None, w), touch(w)], w, nxt)


def valid(sts):
    seen = set()
    for s in sts:
        if any(u not in seen for u in s.uses()):
            return False
        if s.v is not None:
            seen.add(s.v)
    return True


def make(what, sts, w, nxt):
    """The case of these statements, if the model is certain of it."""
    if not valid(sts) or not any(s.v == w for s in sts):
        return None
    j = judge(sts)
    if what in ("conflict", "move"):
        if j.legal or not j.illegal:
            return None
        if sts[-1].op is TOUCH:
            pre = judge(sts[:-1])
            if pre.illegal:
                return None
            twins = []
            if pre.legal:
                twins.append(body(sts[:-1]))
            t = sts[:-2] + [sts[-1]]
            if valid(t) and judge(t).legal:
                twins.append(body(t))
        else:
            # Both operands at once.
            t = sts[:-1] + [touch(w)]
            if not judge(t).legal:
                return None
            twins = [body(t)]
        if not twins:
            return None
        return Case(what, (what, sts, w), body(sts), twins)
    if not judge(sts + [touch(w)]).legal or not j.ok.get(w):
        return None
    if what == "static":
        if not any(s for (_, _, s) in j.loans[w]):
            return None
        return Case(what, (what, sts, w), body(sts, after="    need_static(v%d);\n" % w), [body(sts, after="    touch(&v%d);\n" % w)])
    if what == "escape":
        if not any(s and KINDS[j.kind[t]][1] != "ref" for (t, _, s) in j.loans[w]):
            return None
        if any(KINDS[k][1] == "iter" for k in j.kind.values()):
            # They use what they hold when they are dropped.
            return None
        b = body(sts, before="    let esc;\n    {\n", after="    esc = v%d;\n    }\n    touch(&esc);\n" % w)
        t = body(sts, before="    let esc;\n    {\n", after="    esc = v%d;\n    touch(&esc);\n    }\n" % w)
        return Case(what, (what, sts, w), b, [t])
    return None


def smaller(case):
    """Cases with a statement less."""
    what, sts, w = case.sts
    for i in range(len(sts) - 1, -1, -1):
        t = sts[:i] + sts[i + 1:]
        c = make(what, t, w, None)
        if c:
            yield c
