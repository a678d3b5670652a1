"""C19: small histories of everything, executed by Miri."""
import concurrent.futures as cf
import json
import os
import random
import re
import time

import common
import progs

PROP = "C19"
TARGET = os.path.join(common.HARNESS, "target", "miri")
RULE = ("A case is a small history of vectors (of owning elements or plain data), of values, under one of the built-in tables, with or without "
        "panics in user code; or a walk over nested views; or a chain of conversions; or a series of accesses at and beyond the bounds.  It is "
        "interpreted by Miri, which reports undefined behaviour.  (Disagreements with the models are counted, and are the business of the other "
        "checks.)  Also: elements that change behind a shared reference, through the owner, exclusive views, shared views and the table.  Non-trivial: as in C02, C03, C05, C07, C08, C11 and C14; distinct by the choices made.")
CHUNK = 40
MODES = {"stacked": "", "tree": "-Zmiri-tree-borrows", "symbolic": "-Zmiri-symbolic-alignment-check"}


# What is done with elements that change behind a shared reference (see c19i.rs), and what may be done with these.
INTERIOR = ["owner/as_slice_as", "owner/get_ref_as", "owner/iter_as", "mut/moves", "mut/slice", "mut/value", "view/slice", "view/alive", "view/of-vector",
            "value/element", "value/new", "value/box", "table/eq", "table/clone", "table/clone-value", "table/debug"]
TYPES = ["cell", "refcell", "atomic", "mutex"]


def miri(mode, args, timeout, state=None, extra=None, binary="c19"):
    e = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=1 " + MODES[mode], "XDG_CACHE_HOME": os.path.join(TARGET, "cache")}
    e.update(extra or {})
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", TARGET, "--bin", binary, "--"] + args
    import resource, signal, subprocess
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=common.env(e), cwd=common.HARNESS, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", ""


def ub(rc, err):
    """What Miri objects to, or nothing."""
    if rc is None or rc == 0:
        return None
    for l in err.splitlines():
        if l.startswith("error: Undefined Behavior:"):
            return l[7:]
    return None


def where(err):
    ls = err.splitlines()
    for i, l in enumerate(ls):
        if l.startswith("error: Undefined Behavior:"):
            return ls[i:i + 60]
    return ls[-40:]


class Check:
    prop = PROP

    def run(self, tier):
        tmp = common.Tmp()
        try:
            return self.go(tier, tmp)
        finally:
            tmp.close()

    def build(self):
        # The first run also makes the standard library for Miri.
        rc, out, err = miri("stacked", ["range", PROP, "1", "0", "0", "1", "/dev/null", "0"], 800)
        if rc != 0:
            raise common.CheckError("cannot run under Miri: " + err[-3000:])

    def chunk(self, mode, lo, hi, tmp, deadline):
        """Run cases lo..hi: (totals, aborted cases, failure)."""
        st = tmp.path("st-%s-%d" % (mode, lo))
        tot = []
        aborted = 0
        i = lo
        while i < hi and aborted < 8:
            left = deadline - time.time()
            if left < 5:
                break
            rc, out, err = miri(mode, ["range", PROP, str(common.seed()), str(i), str(hi), "1", st, "1" if lo == 0 else "0"], left, extra={"VH_KEEP": "1"})
            if rc is None:
                break
            if rc == 0:
                tot.append(json.loads(out.strip().splitlines()[-1]))
                break
            at = int(open(st).read().strip() or "0")
            m = ub(rc, err)
            if m:
                return tot, aborted, {"index": at, "message": m, "mode": mode, "err": where(err)}
            if "unsupported operation" in err or at < i:
                raise common.CheckError("Miri: " + err[-2000:])
            # Aborted in some defined way: go on after that case.
            aborted += 1
            i = at + 1
        return tot, aborted, None

    def go(self, tier, tmp):
        self.build()
        plan = [("stacked", 2400), ("tree", 160)] if tier == "quick" else [("stacked", 60000), ("tree", 30000), ("symbolic", 15000)]
        deadline = common.START + (640 if tier == "quick" else 9 * 3600)
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "operations": {}, "modes": {}, "aborted_cases": 0}
        hashes = set()
        lo = 0
        for mode, n in plan:
            fails = []

            def work(a):
                if fails or time.time() > deadline:
                    return None
                r = self.chunk(mode, a, min(a + CHUNK, lo + n), tmp, deadline)
                if r[2]:
                    fails.append(r[2])
                return r
            with cf.ThreadPoolExecutor(common.CORES) as ex:
                res = list(ex.map(work, range(lo, lo + n, CHUNK)))
            lo += n
            for r in res:
                if r is None:
                    continue
                for d in r[0]:
                    cov["evaluations"] += d["cases"]
                    cov["modes"][mode] = cov["modes"].get(mode, 0) + d["cases"]
                    for k, v in d["counts"].items():
                        cov["operations"][k] = cov["operations"].get(k, 0) + v
                    hashes.update(d["hashes"])
                    cov["samples"] += d["samples"][:3]
                cov["aborted_cases"] += r[1]
            cov["distinct_nontrivial"] = len(hashes)
            if fails:
                fails.sort(key=lambda f: f["index"])
                rc = self.report(fails[0], tmp, tier)
                common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS, 1)
                return rc
        rc = self.interior(tier, cov)
        if rc:
            common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS, 1)
            return rc
        common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS + ["Miri notices every undefined operation it executes."])
        if cov["evaluations"] < 100:
            raise common.CheckError("only %d cases in the time there was" % cov["evaluations"])
        print("%s: held in %d generated cases (%d distinct non-trivial)" % (PROP, cov["evaluations"], cov["distinct_nontrivial"]))
        return 0

    def interior(self, tier, cov):
        """Elements with interior mutability."""
        rc, out, err = miri("stacked", ["none"], 600, binary="c19i")
        if rc != 0:
            raise common.CheckError("cannot run under Miri: " + err[-3000:])
        rng = random.Random(common.seed())
        jobs = []
        for r in INTERIOR:
            ts = TYPES[:2] if r.startswith("table/") else TYPES
            for t in [rng.choice(ts)] if tier == "quick" else ts:
                for mode in ["stacked"] if tier == "quick" else ["stacked", "tree"]:
                    jobs += [(mode, r, t, str(rng.randrange(1 << 30))) for _ in range(1 if tier == "quick" else 5)]
        known = progs.known(PROP)
        with cf.ThreadPoolExecutor(common.CORES) as ex:
            res = list(ex.map(lambda j: miri(j[0], list(j[1:]), 120, binary="c19i"), jobs))
        said = set()
        for (mode, r, t, n), (rc, out, err) in zip(jobs, res):
            cov["evaluations"] += rc is not None
            cov["operations"]["interior " + r] = cov["operations"].get("interior " + r, 0) + 1
            m = ub(rc, err)
            if not m:
                continue
            sig = "interior:" + r.split("/")[0]
            if sig in known and re.search(r"SharedReadOnly permission|does not exist in the borrow stack|is forbidden", m):
                if sig not in said:
                    print("KNOWN-FINDING: property=%s %s" % (PROP, known[sig]["what"]))
                said.add(sig)
                continue
            return common.violation(PROP, {"kind": "miri-interior", "mode": mode, "args": [r, t, n], "log": where(err)}, "%s (%s of elements of kind %s)" % (m, r, t))
        cov["known_findings"] = sorted(said)
        return 0

    def report(self, f, tmp, tier):
        tee = tmp.path("tee")
        data = {"kind": "miri", "mode": f["mode"], "index": f["index"], "seed": common.seed(), "log": f["err"]}
        rc, out, err = miri(f["mode"], ["one", PROP, str(common.seed()), str(f["index"]), tee], 120)
        if not ub(rc, err):
            return common.violation(PROP, data, f["message"] + " (only after other cases)")
        tape = [int(x) for x in open(tee).read().split()]

        def test(name, t):
            p = tmp.path("m" + name)
            with open(p, "w") as h:
                h.write(" ".join(map(str, t)))
            rc, out, err = miri(f["mode"], ["tape", PROP, p], 60)
            return t if ub(rc, err) else None
        # Each try takes seconds.
        tape, _ = common.shrink_tape(test, tape, 100 if tier == "quick" else 900, 2000)
        rc, out, err = self.tape(f["mode"], tape, tmp)
        return common.violation(PROP, dict(data, tape=tape, log=where(err)), ub(rc, err) or f["message"])

    def tape(self, mode, tape, tmp):
        p = tmp.path("tape")
        with open(p, "w") as h:
            h.write(" ".join(map(str, tape)))
        return miri(mode, ["tape", PROP, p], 120, extra={"VH_LOG": "1"})

    def replay(self, d):
        self.build()
        tmp = common.Tmp()
        try:
            if d["kind"] == "miri-interior":
                rc, out, err = miri(d["mode"], d["args"], 300, binary="c19i")
            elif "tape" in d:
                rc, out, err = self.tape(d["mode"], d["tape"], tmp)
            else:
                rc, out, err = miri(d["mode"], ["range", PROP, str(d["seed"]), str(d["index"] // CHUNK * CHUNK), str(d["index"] + 1), "1", "/dev/null", "0"], 600, extra={"VH_KEEP": "1"})
            m = ub(rc, err)
            print(out)
            print("\n".join(where(err)) if m else "no undefined behaviour")
            return 1 if m else 0
        finally:
            tmp.close()
