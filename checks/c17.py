"""C17: generated programs that move or share untyped data between threads."""
import concurrent.futures as cf
import random

import common
import negs
import progs
import reqs
import threads
import worlds

PROP = "C17"
RULE = ("A case is a generated program about threads, in a generated world of element types, declared traits and tables.  Sending or sharing (in "
        "one of many ways) a container, slice, value, iterator or hidden container whose table does not certify what the corresponding typed owner, "
        "shared or exclusive reference would need must be rejected, and accepted with a table that does; making a certifying table for a type that "
        "does not allow it, or converting to one from a table that does not certify, must be rejected; whatever is certified must be accepted; and "
        "generated programs that move and share certified containers between threads must run with the contents they would have in one.  "
        "Non-trivial: rejected with all twins accepted, or accepted, or run; distinct by text.")
SIZES = {"quick": (64, 200, 700), "thorough": (1600, 200, 20000)}
MARK = {"Send", "Sync"}
GENS = [(reqs.thread_case, 8), (reqs.certified_case, 4), (lambda r, w: reqs.make_case(r, w, MARK), 3), (lambda r, w: reqs.upcast_case(r, w, MARK), 2),
        (lambda r, w: reqs.hide_case(r, w, MARK), 2), (lambda r, w: reqs.shadow_case(r, w, MARK), 1)]

# Written by hand: tables that certify without a type that allows it.
FORGERIES = {
    "forged-conversion": """
#[derive(Clone)]
pub struct Mine(pub DropFn);
impl<T: std::any::Any> VTable<T> for Mine { fn build_vtable() -> Self { Mine(<DropVTable as VTable<T>>::build_vtable().0) } }
impl From<Mine> for SendVTable { fn from(x: Mine) -> SendVTable { SendVTable(x.0) } }
impl HasDrop for Mine { fn drop_fn(&self) -> &DropFn { &self.0 } }
pub fn f() { let v: VecDyn<SendVTable> = VecDyn::<Mine>::from_vec(vec![std::rc::Rc::new(1)]).upcast(); is_send(v); }
""",
    "forged-table": """
pub struct Mine(std::rc::Rc<u8>);
impl VTable<Mine> for SendVTable { fn build_vtable() -> Self { SendVTable(<DropVTable as VTable<Mine>>::build_vtable().0) } }
pub fn f() { is_send(VecDyn::<SendVTable>::from_vec(vec![Mine(std::rc::Rc::new(1))])); }
""",
}


def world_items(seed, k, n):
    rng = random.Random(seed * 1000033 + k)
    w = worlds.World(rng, "w", types=rng.randint(6, 12), traits=rng.randint(3, 7), modules=rng.randint(0, 2))
    g = negs.Group("world %d" % k, reqs.PRELUDE, w.chunks)
    bag = [f for f, m in GENS for _ in range(m)]
    out = []
    for _ in range(n):
        c = rng.choice(bag)(rng, w)
        if c and c.must:
            out.append(negs.Item("accepted", c.must, g, c.cat, c.note))
        elif c:
            out.append(negs.Item("rejected", c.bad, g, c.cat, c.note, c.twins))
    return out


BARE = """
use dync::*;
pub fn mk<X>() -> X { loop {} }
pub fn touch<X: ?Sized>(_: &X) {}
pub fn need_send<X: Send + ?Sized>() {}
pub fn need_sync<X: Sync + ?Sized>() {}
pub fn is_send<X: Send>(_: X) {}
pub fn is_sync<X: Sync>(_: X) {}
"""


def bare_items():
    """Without traits nothing certifies anything."""
    g = negs.Group("without traits", BARE)
    out = []
    for kind in sorted(reqs.KIND):
        if not reqs.KIND[kind][1]:
            continue
        k = reqs.typ(kind, "()")
        twin = reqs.fn("let x: %s = mk(); touch(&x);" % k)
        for i in range(2):
            for c in (reqs.SEND, reqs.SYNC)[i]:
                if "Touch" not in c:
                    out.append(negs.Item("rejected", reqs.fn(c.format(k=k)), g, "without traits", kind, [twin]))
            for it, c, _ in reqs.ITER:
                if it == kind:
                    c = c.replace("{k}", k)
                    out.append(negs.Item("rejected", reqs.fn(c.replace("{c}", ("is_send", "is_sync")[i])), g, "without traits", kind + " iterator",
                                         [reqs.fn(c.replace("{c}(", "touch(&"))]))
    return out


class Check:
    prop = PROP

    def run(self, tier):
        tmp = common.Tmp()
        try:
            return self.go(tier, tmp)
        finally:
            tmp.close()

    def go(self, tier, tmp):
        lib = progs.Lib()
        nw, per, nr = SIZES[tier if tier in SIZES else "thorough"]
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "categories": {}, "errors": {}, "twins_accepted": 0, "programs_run": 0, "worlds": 0}
        seen = set()

        def done(rc=0):
            common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS[:1] + [
                "The abilities of the generated types, which the accepted twins confirm.", "One compiler: the verdicts are those of the installed rustc."], 1 if rc else 0)
            return rc

        def batch(lib, items):
            out = negs.judge(lib, items, tmp)
            if out.bad_groups and len(out.bad_groups) * 2 > len({it.group for it in items}):
                raise common.CheckError("the declarations around the programs do not compile: " + out.bad_groups[0][1])
            cov["evaluations"] += out.cases
            for a, b in (("categories", out.by_cat), ("errors", out.codes)):
                for x, m in b.items():
                    cov[a][x] = cov[a].get(x, 0) + m
            cov["twins_accepted"] += out.twins
            seen.update(hash(x) for x in out.distinct)
            cov["distinct_nontrivial"] = len(seen)
            if len(cov["samples"]) < 14:
                cov["samples"] += out.samples[:12]
            if out.wrong:
                out.wrong.sort(key=lambda w: (w[2] != "rejected", len(w[1])))
                f = negs.confirm(lib, out.wrong[:50], tmp)
                if f:
                    return negs.report(PROP, lib, f, tmp)
                raise common.CheckError("the compiler disagrees with itself on: " + out.wrong[0][1])
            return None
        seed = common.seed()
        bare = progs.Lib([])
        for k in range(0, nw, 64):
            with cf.ProcessPoolExecutor(common.CORES) as ex:
                parts = list(ex.map(world_items, [seed] * 64, range(k, k + 64), [per] * 64))
            cov["worlds"] += len(parts)
            if k == 0:
                rc = batch(bare, bare_items())
                if rc:
                    return done(rc)
            rc = batch(lib, [it for p in parts for it in p])
            if rc:
                return done(rc)
        # Programs to run.
        rng = random.Random(seed * 7 + 3)
        ps = {}
        while len(ps) < nr:
            ps["x%d" % len(ps)] = threads.program(rng)
        r = progs.run_all(lib, ps, tmp, "x", threads.PRELUDE, 90)
        cov["programs_run"] = len(ps)
        cov["evaluations"] += len(ps)
        cov["distinct_nontrivial"] += len(set(ps.values()))
        cov["samples"].append({"category": "run", "program": ps["x0"]})
        bad = sorted((n for n in r if r[n]), key=lambda n: len(ps[n]))
        if bad:
            n = bad[0]
            src = progs.run_source_of({n: ps[n]}, threads.PRELUDE)
            again = None
            for _ in range(20):
                again = again or progs.run_source(lib, src, tmp, "y")
            return done(common.violation(PROP, {"kind": "program-run", "source": src}, "%s: %s%s\n%s" % (r[n][0], r[n][1], "" if again else " (not every time)", ps[n])))
        rc = negs.forgeries(PROP, lib, tmp, reqs.PRELUDE, FORGERIES)
        if rc:
            return done(rc)
        print("%s: held for %d programs (%d distinct non-trivial), %d of them run" % (PROP, cov["evaluations"], cov["distinct_nontrivial"], cov["programs_run"]))
        return done()

    def replay(self, d):
        return negs.replay(d)
