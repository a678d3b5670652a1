"""C20: the same generated histories of plain data in every configuration, digests compared."""
import concurrent.futures as cf
import os

import common

PROP = "C20"
# Feature sets of the harness: nothing, the default of the crate, numbers alone, everything.
FEATURES = {"none": [], "traits": ["traits"], "numbers": ["numbers"], "numeric": ["numeric"]}
PROFILES = ["chk", "release"]
RULE = ("A case is a history of operations on plain-data vectors, slices and values, a walk over nested views, or a series of "
        "accesses at and beyond the bounds (or, between the configurations that have it, a conversion and display of "
        "numbers), run in every configuration with all observed results, refusals and rejections going into a digest; the digests must agree, and "
        "each run is compared with the model as well.  Non-trivial: as in C03, C07 and C08; distinct by the choices made.")


def configs(tier):
    c = [(f, p) for f in FEATURES for p in PROFILES]
    c += [("none", "opt"), ("numeric", "opt")]
    if tier != "quick":
        c += [("traits", "opt"), ("numbers", "opt")]
    return c


def build(c):
    # Builds in one directory wait for each other.
    return common.cargo_build("c20", c[1], FEATURES[c[0]], os.path.join(common.HARNESS, "target", "c20-" + c[0] + "-" + c[1]))


def try_build(c):
    try:
        return build(c)
    except common.CheckError as e:
        return e


def digest(binary, prop, tape, tmp, name):
    """(digest or a description of the failure, choices used)"""
    rc, out = common.try_tape(binary, prop, tape, tmp, name, log=True)
    used = common.used_tape(out, tape)
    if rc is None:
        return "no end", tape
    if rc == 0 or rc == 3:
        d = [l[7:] for l in out.splitlines() if l.startswith("digest ")]
        return (d[-1] if d else "?") + ("" if rc == 0 else " (failed)"), used
    return common.crash_name(rc), tape


class Check:
    prop = PROP

    def run(self, tier):
        tmp = common.Tmp()
        try:
            return self.go(tier, tmp)
        finally:
            tmp.close()

    def go(self, tier, tmp):
        cs = configs(tier)
        with cf.ThreadPoolExecutor(4) as ex:
            bins = dict(zip(cs, ex.map(try_build, cs)))
        broken = [c for c in cs if isinstance(bins[c], common.CheckError)]
        if len(broken) == len(cs):
            raise bins[broken[0]]
        if broken:
            # What builds in one configuration has to build in all.
            c = broken[0]
            common.write_evidence(PROP, tier, {"evaluations": len(cs), "distinct_nontrivial": len(cs), "rule": RULE, "samples": [str(bins[c])]}, common.COMMON_ASSUMPTIONS, 1)
            return common.violation(PROP, {"kind": "configs-build", "config": list(c)}, "the same program does not build in %s/%s: %s" % (c[0], c[1], bins[c]))
        n = {"C20": 12000 if tier == "quick" else 400000, "C20N": 6000 if tier == "quick" else 200000}
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "operations": {}, "builds": {}, "digests_compared": 0}
        for prop in ("C20", "C20N"):
            use = [c for c in cs if prop == "C20" or c[0].startswith("num")]
            ref = None
            hashes = set()
            step = n[prop] if tier == "quick" else 20000
            for lo in range(0, n[prop], step):
                ref = None
                for c in use:
                    t, fail = common.run_cases(prop, bins[c], lo, lo + step, tmp, "%s-%s" % c, 780 if tier == "quick" else 7200, extra_env={"VH_DIGESTS": "1"})
                    if fail:
                        rc = common.report_failure(prop, bins[c], fail, tmp, {"bin": "c20", "profile": c[1], "features": FEATURES[c[0]], "range": [lo, lo + step]}, as_prop=PROP)
                        common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS, 1)
                        return rc
                    cov["evaluations"] += t["cases"]
                    k = "%s/%s" % c
                    cov["builds"][k] = cov["builds"].get(k, 0) + t["cases"]
                    for o, m in t["counts"].items():
                        cov["operations"][o] = cov["operations"].get(o, 0) + m
                    if ref is None:
                        ref = (c, t)
                        hashes |= t["hashes"]
                        if lo == 0:
                            cov["samples"] += t["samples"][:3]
                        continue
                    cov["digests_compared"] += len(t["digests"])
                    diff = [i for i, d in sorted(t["digests"].items()) if ref[1]["digests"].get(i) != d]
                    if diff or len(t["digests"]) != len(ref[1]["digests"]):
                        rc = self.report(prop, ref[0], c, bins, diff[0] if diff else lo, tmp)
                        common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS, 1)
                        return rc
            cov["distinct_nontrivial"] += len(hashes)
        common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS)
        print("%s: held in %d cases run in %d configurations (%d distinct non-trivial)" % (PROP, n["C20"] + n["C20N"], len(cs), cov["distinct_nontrivial"]))
        return 0

    def report(self, prop, a, b, bins, index, tmp):
        f = tmp.path("tee")
        common.run([bins[a], "one", prop, str(common.seed()), str(index), f], 60)
        tape = [int(x) for x in open(f).read().split()]

        def test(name, t):
            x, u = digest(bins[a], prop, t, tmp, name + "a")
            y, _ = digest(bins[b], prop, t, tmp, name + "b")
            return u if x != y else None
        msg = "case %d behaves differently in %s/%s and %s/%s" % (index, a[0], a[1], b[0], b[1])
        if test("c", tape) is not None:
            tape, _ = common.shrink_tape(test, tape)
        rc, out = common.try_tape(bins[a], prop, tape, tmp, "f", log=True)
        return common.violation(PROP, {"kind": "configs", "case_prop": prop, "configs": [list(a), list(b)], "tape": tape, "index": index, "seed": common.seed(),
                                       "log": out.splitlines()[-40:]}, msg)

    def replay(self, d):
        if d["kind"] == "configs-build":
            b = try_build(tuple(d["config"]))
            print(b)
            return 1 if isinstance(b, common.CheckError) else 0
        tmp = common.Tmp()
        try:
            r = []
            for c in d["configs"]:
                b = build(tuple(c))
                r.append(digest(b, d["case_prop"], d["tape"], tmp, "r")[0])
                rc, out = common.try_tape(b, d["case_prop"], d["tape"], tmp, "r", log=True)
                print("%s/%s:\n%s" % (c[0], c[1], out))
            print("the same" if r[0] == r[1] else "they differ")
            return 0 if r[0] == r[1] else 1
        finally:
            tmp.close()
