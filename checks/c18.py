"""C18: generated programs that must be rejected, and their twins that must be accepted and run."""
import concurrent.futures as cf
import random

import borrow
import common
import negs
import progs
import reqs
import unsafes
import worlds

PROP = "C18"
RULE = ("A case is a generated program that the compiler must reject, with programs like it, without the violation, that it must accept "
        "(those of straight-line borrowing are also run).  Borrowing: a legal sequence of operations on owners, views and references, then a use of "
        "something whose loan a later operation ended, or an escape from a block, a demand for 'static, or a use after a move; a model of loans says "
        "which programs are certainly wrong and which are certainly right.  Receivers: an operation that changes or hands out exclusive access, "
        "through a shared reference.  Requirements: in a generated world of element types, declared traits and tables, storing a type that lacks one "
        "ability, a behaviour the table lacks, a conversion to a table with more, plain containers made from anything else, mixed type "
        "information, duplicated exclusive views.  Unchecked operations, raw parts, private fields and private functions without the `unsafe` they "
        "need or from outside.  Non-trivial: it was rejected and all its twins accepted; distinct by text.")
SIZES = {"quick": (6000, 56, 220), "thorough": (120000, 1400, 220)}

BORROW = negs.Group("borrow", borrow.PRELUDE)


def borrow_items(rng, n):
    usage, pairs, out, seen = {}, {}, [], set()
    while len(out) < n:
        c = borrow.gen(rng, usage, pairs)
        if not c or c.bad in seen:
            continue
        seen.add(c.bad)
        out.append(negs.Item("rejected", c.bad, BORROW, c.what, "borrowing", c.twins, (borrow.smaller, c)))
    return out


# The receivers' types.
TYPES = {"iterator": None}


def receiver_items():
    """Operations that need an exclusive receiver, through a shared reference."""
    out = []
    for o in borrow.OPS:
        if o.mode not in ("mut", "usemut") or "{s}." not in o.code:
            continue
        k = borrow.KINDS[o.src][0]
        if k.startswith("iterator"):
            continue
        if k.startswith("&") and not k.startswith("&mut"):
            continue
        ps = "v: &%s" + (k if k != "VecCopy" else "VecCopy<()>")
        other = ""
        if o.other:
            other = ", mut o: " + borrow.KINDS[o.other[0]][0].replace("&", "&'x ")
            if "iterator" in other:
                continue
        code = o.code.format(s="v", o="o")
        full = lambda m: "pub fn f<'x>(%s%s) { let r = %s; touch(&r); }\n" % (ps % m, other, code)
        if o.dst is None:
            full = lambda m: "pub fn f<'x>(%s%s) { %s; }\n" % (ps % m, other, code)
        fix = lambda t: plain(t)
        out.append(negs.Item("rejected", fix(full("")), BORROW, "receiver", o.name, [fix(full("mut "))]))
    return out


def plain(t):
    """Containers of plain data without their default parameter."""
    for k in ("SliceCopyMut", "SliceCopy", "CopyValueRef", "CopyValueMut", "VecCopy"):
        for end in (",", ")"):
            t = t.replace("&" + k + end, "&%s<()>%s" % (k, end)).replace("&mut " + k + end, "&mut %s<()>%s" % (k, end)).replace(": " + k + end, ": %s<()>%s" % (k, end))
    return t


GENS = [(reqs.make_case, 4), (reqs.typed_case, 2), (reqs.behave_case, 3), (reqs.upcast_case, 3), (reqs.hide_case, 2), (reqs.mix_case, 2),
        (reqs.meta_case, 1), (reqs.dup_case, 1), (lambda r, w: reqs.shadow_case(r, w, {"Eq"}), 1)]


# Written by hand: tables with behaviours of another type.
FORGERIES = {
    "forged-conversion": """
#[derive(Clone)]
pub struct Mine(pub DropFn);
pub struct NoEq(u8);
impl<T: std::any::Any> VTable<T> for Mine { fn build_vtable() -> Self { Mine(<DropVTable as VTable<T>>::build_vtable().0) } }
impl From<Mine> for PartialEqVTable { fn from(x: Mine) -> Self { <PartialEqVTable as VTable<String>>::build_vtable() } }
impl HasDrop for Mine { fn drop_fn(&self) -> &DropFn { &self.0 } }
pub fn f() { let v: VecDyn<PartialEqVTable> = VecDyn::<Mine>::from_vec(vec![NoEq(1)]).upcast(); let b = v == v; }
""",
    "forged-table": """
pub struct Mine(u8);
impl VTable<Mine> for PartialEqVTable { fn build_vtable() -> Self { <PartialEqVTable as VTable<String>>::build_vtable() } }
pub fn f() { let v = VecDyn::<PartialEqVTable>::from_vec(vec![Mine(1)]); let b = v == v; }
""",
}


def world_items(seed, k, n):
    rng = random.Random(seed * 1000003 + k)
    w = worlds.World(rng, "w", types=rng.randint(6, 12), traits=rng.randint(3, 7), modules=rng.randint(0, 2))
    g = negs.Group("world %d" % k, reqs.PRELUDE, w.chunks)
    bag = [f for f, m in GENS for _ in range(m)]
    out = []
    for _ in range(n):
        c = rng.choice(bag)(rng, w)
        if c:
            out.append(negs.Item("rejected", c.bad, g, c.cat, c.note, c.twins))
    return out


class Check:
    prop = PROP

    def run(self, tier):
        tmp = common.Tmp()
        try:
            return self.go(tier, tmp)
        finally:
            tmp.close()

    def go(self, tier, tmp):
        lib = progs.Lib()
        nb, nw, per = SIZES[tier if tier in SIZES else "thorough"]
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "categories": {}, "errors": {}, "twins_accepted": 0, "programs_run": 0, "worlds": 0}
        seen = set()

        def done(rc=0):
            common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS[:1] + [
                "The model of loans and the abilities of the generated types, both of which the accepted twins confirm.",
                "One compiler: the verdicts are those of the installed rustc."], 1 if rc else 0)
            return rc

        def batch(items):
            out = negs.judge(lib, items, tmp)
            if out.bad_groups and len(out.bad_groups) * 2 > len({it.group for it in items}):
                raise common.CheckError("the declarations around the programs do not compile: " + out.bad_groups[0][1])
            cov["evaluations"] += out.cases
            for a, b in (("categories", out.by_cat), ("errors", out.codes)):
                for x, m in b.items():
                    cov[a][x] = cov[a].get(x, 0) + m
            cov["twins_accepted"] += out.twins
            seen.update(hash(x) for x in out.distinct)
            cov["distinct_nontrivial"] = len(seen)
            have = {s["category"] for s in cov["samples"]}
            cov["samples"] += [s for s in out.samples if s["category"] not in have][:12]
            if out.wrong:
                # The shortest program first, and what must be rejected before what must be accepted.
                out.wrong.sort(key=lambda w: (w[2] != "rejected", len(w[1])))
                f = negs.confirm(lib, out.wrong[:50], tmp)
                if f:
                    return negs.report(PROP, lib, f, tmp)
                raise common.CheckError("the compiler disagrees with itself on: " + out.wrong[0][1])
            return None

        seed = common.seed()
        rng = random.Random(seed)
        rc = batch(receiver_items())
        if rc:
            return done(rc)
        rc = batch(unsafes.items(random.Random(seed + 1), nb // 5))
        if rc:
            return done(rc)
        at = 0
        while at < nb:
            items = borrow_items(rng, min(6000, nb - at))
            at += len(items)
            rc = batch(items)
            if rc:
                return done(rc)
            rc = self.execute(lib, [it for it in items if it.twins], cov, tmp)
            if rc:
                return done(rc)
        for k in range(0, nw, 56):
            with cf.ProcessPoolExecutor(common.CORES) as ex:
                parts = list(ex.map(world_items, [seed] * 56, range(k, k + 56), [per] * 56))
            cov["worlds"] += len(parts)
            rc = batch([it for p in parts for it in p])
            if rc:
                return done(rc)
        rc = negs.forgeries(PROP, lib, tmp, reqs.PRELUDE, FORGERIES)
        if rc:
            return done(rc)
        print("%s: held for %d programs that must be rejected (%d distinct non-trivial), %d that must be accepted, %d of them run" % (
            PROP, cov["evaluations"], cov["distinct_nontrivial"], cov["twins_accepted"], cov["programs_run"]))
        return done()

    def execute(self, lib, items, cov, tmp):
        """Run accepted twins."""
        ps = {}
        for i, it in enumerate(items):
            t = it.twins[i % len(it.twins)]
            ps["x%d" % i] = t + negs.OWN
        r = progs.run_all(lib, ps, tmp, "x", borrow.PRELUDE, 400)
        cov["programs_run"] += len(ps)
        # A program may ask for elements that are no longer there: what it must not do is die of it.
        bad = sorted((n for n in r if r[n] and not r[n][1].startswith("panicked: ")), key=lambda n: len(ps[n]))
        cov["programs_panicked"] = cov.get("programs_panicked", 0) + len([n for n in r if r[n] and r[n][1].startswith("panicked: ")])
        if not bad:
            return None
        n = bad[0]
        src = progs.run_source_of({n: ps[n]}, borrow.PRELUDE)
        again = progs.run_source(lib, src, tmp, "y")
        if again is None:
            raise common.CheckError("a program that failed among others runs alone: " + ps[n])
        return common.violation(PROP, {"kind": "program-run", "source": src}, "%s: %s\n%s" % (again[0], again[1], ps[n]))

    def replay(self, d):
        return negs.replay(d)
