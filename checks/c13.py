"""C13: hidden tables: what programs may do with them, and histories of using and restoring them."""
import concurrent.futures as cf
import random

import common
import negs
import progs
import reqs
import worlds

PROP = "C13"
RULE = ("Histories: a case hides the table of an untyped vector or slice behind a trait object, uses it there in generated ways, and "
        "restores it (or a part of it), over and over, compared with a model at each step and with a registry of live elements; or restores it "
        "with the wrong table, which must panic.  Non-trivial: a vector of at least two elements or a slice of at least one; distinct by the choices made.  "
        "Programs: in a generated world of declared traits and tables, a program hides a container's table behind the trait of that table or of an "
        "ancestor, asks for something the trait promises, and restores it; it must be accepted.  Non-trivial: all; distinct by text and world.")
WORLDS = {"quick": 16, "thorough": 600}
PER = 160

PRELUDE = reqs.PRELUDE + """
pub fn see_partialeq<X: PartialEq + ?Sized>(_: &X) {}
pub fn see_eq<X: Eq + ?Sized>(_: &X) {}
pub fn see_hash<X: std::hash::Hash + ?Sized>(_: &X) {}
pub fn see_debug<X: std::fmt::Debug + ?Sized>(_: &X) {}
pub fn see_send<X: Send + ?Sized>(_: &X) {}
pub fn see_sync<X: Sync + ?Sized>(_: &X) {}
"""

SLICES = {"PartialEq", "Debug"}
VALUES = {"PartialEq", "Eq", "Hash", "Debug"}
# What of the trait's promises shows on which container.
SHOWS = {
    "VecDyn": VALUES | {"Send", "Sync"}, "Slice": SLICES | {"Send", "Sync"}, "SliceMut": SLICES | {"Send", "Sync"},
    "VecCopy": {"Send", "Sync"}, "SliceCopy": {"Send", "Sync"}, "SliceCopyMut": {"Send", "Sync"},
}
# Elements of a hidden container, as references.
ELEM = {
    "VecDyn": (("y.get(0)", "ref"), ("y.get_mut(0)", "mut"), ("y.iter().next().unwrap()", "ref"), ("y.iter_mut().next().unwrap()", "mut"), ("y.as_slice().get(0)", "ref")),
    "Slice": (("y.get(0)", "ref"), ("y.iter().next().unwrap()", "ref")),
    "SliceMut": (("y.get(0)", "ref"), ("y.get_mut(0)", "mut"), ("y.reborrow().get(0)", "ref")),
    "VecCopy": (("y.get_ref(0)", "ref"), ("y.get_mut(0)", "mut"), ("y.iter().next().unwrap()", "ref")),
    "SliceCopy": (("y.get(0)", "ref"), ("y.iter().next().unwrap()", "ref")),
    "SliceCopyMut": (("y.get(0)", "ref"), ("y.get_mut(0)", "mut"), ("y.iter().next().unwrap()", "mut")),
}
# What needs nothing but the form itself.
PLAIN = {
    "VecDyn": ("y.len()", "y.clear()", "y.element_type_id()", "y.as_slice()", "y.as_mut_slice()", "y.push_as(1u8)", "y.rotate_left(0)", "y.as_slice_as::<u8>()", "y.iter_as::<u8>()"),
    "Slice": ("y.len()", "y.as_slice::<u8>()", "y.reborrow()", "y.iter_as::<u8>()"),
    "SliceMut": ("y.len()", "y.reborrow_mut()", "y.swap(0, 0)", "y.rotate_left(0)", "y.iter_as::<u8>()"),
    "VecCopy": ("y.len()", "y.clear()", "y.as_slice()", "y.as_mut_slice()", "y.push_as(1u8)", "y.rotate_left(0)", "y.iter_as::<u8>()"),
    "SliceCopy": ("y.len()", "y.as_slice::<u8>()", "y.reborrow()"),
    "SliceCopyMut": ("y.len()", "y.reborrow_mut()", "y.swap(0, 0)", "y.rotate_left(0)"),
}


def items(seed, k):
    rng = random.Random(seed * 1000033 + k)
    w = worlds.World(rng, "h", types=3, traits=rng.randint(2, 6), modules=rng.randint(1, 3))
    g = negs.Group("hidden %d" % k, PRELUDE, w.chunks)
    by = {t.expr: t for t in w.tables}
    own = [t for t in w.tables if t.has]
    out, seen = [], set()
    for _ in range(PER * 4):
        if len(out) >= PER:
            break
        kind = rng.choice(sorted(SHOWS))
        plain = kind in ("VecCopy", "SliceCopy", "SliceCopyMut")
        if plain and rng.random() < 0.2:
            s = rng.choice(worlds.STD)
            t, has, gives = by[s + "VTable"], "Has" + s, worlds.close({s}) if s != "Eq" else {"Eq"}
        else:
            t = rng.choice(own)
            a = by[rng.choice(sorted(x for x in t.anc if by[x].has))]
            has, gives = a.has, a.gives
        s = rng.random()
        if s < 0.15:
            use = rng.choice(PLAIN[kind]) + ";"
        elif s < 0.7:
            need = dict(zip(("Send", "Sync"), reqs.RULE[reqs.KIND[kind][2]]))
            can = [b for b in sorted(SHOWS[kind]) if need.get(b, b) in gives]
            if not can:
                continue
            use = "see_%s(&y);" % rng.choice(can).lower()
        else:
            e, how = rng.choice(ELEM[kind])
            can = [b for b in sorted(gives & VALUES)]
            # A shared reference may cross threads when its value may be shared.
            if "Sync" in gives:
                can += ["Sync"] + (["Send"] if how == "ref" else [])
            if how == "mut" and "Send" in gives:
                can.append("Send")
            if not can:
                continue
            use = "see_%s(&%s);" % (rng.choice(can).lower(), e)
        whole = reqs.typ(kind, t.expr)
        back = "let z: %s = from_dyn![%s<dyn %s as %s>](y);" % (whole, kind, has, t.expr)
        if plain and t.expr in [s + "VTable" for s in worlds.STD]:
            # The traits of single behaviours do not know what hides behind them.
            back = ""
        t = reqs.fn("let mut y = into_dyn![%s<dyn %s>](mk::<%s>()); %s %s" % (kind, has, whole, use, back))
        if t in seen:
            continue
        seen.add(t)
        out.append(negs.Item("accepted", t, g, "hidden " + kind, "%s behind %s" % (whole, has)))
    return out


class Check:
    prop = PROP

    def __init__(self, histories):
        self.histories = histories

    def run(self, tier):
        tmp = common.Tmp()
        try:
            cov = {"programs": 0, "categories": {}, "worlds": 0}
            samples, distinct = [], set()
            rc = self.programs(tier, tmp, cov, samples, distinct)
            if rc:
                common.write_evidence(PROP, tier, {"evaluations": cov["programs"], "distinct_nontrivial": len(distinct), "rule": RULE, "samples": samples, **cov}, common.COMMON_ASSUMPTIONS, 1)
                return rc
        finally:
            tmp.close()
        cov["distinct_programs"] = len(distinct)
        cov["program_samples"] = samples
        return self.histories.run(tier, cov)

    def programs(self, tier, tmp, cov, samples, distinct):
        lib = progs.Lib()
        n = WORLDS[tier if tier in WORLDS else "thorough"]
        for k in range(0, n, 16):
            with cf.ProcessPoolExecutor(common.CORES) as ex:
                parts = list(ex.map(items, [common.seed()] * 16, range(k, k + 16)))
            cov["worlds"] += len(parts)
            out = negs.judge(lib, [it for p in parts for it in p], tmp)
            if len(out.bad_groups) * 2 > len(parts):
                raise common.CheckError("the declarations around the programs do not compile: " + out.bad_groups[0][1])
            cov["programs"] += out.cases
            for x, m in out.by_cat.items():
                cov["categories"][x] = cov["categories"].get(x, 0) + m
            distinct.update(hash(x) for x in out.distinct)
            if len(samples) < 6:
                samples += out.samples[:6]
            if out.wrong:
                out.wrong.sort(key=lambda w: len(w[1]))
                f = negs.confirm(lib, out.wrong[:50], tmp)
                if f:
                    return negs.report(PROP, lib, f, tmp)
                raise common.CheckError("the compiler disagrees with itself on: " + out.wrong[0][1])
        return 0

    def replay(self, d):
        return negs.replay(d)
