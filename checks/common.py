"""Shared machinery of the checks: builds, parallel case execution, shrinking, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = min(8, os.cpu_count() or 1)
START = time.time()


class CheckError(Exception):
    """The check could not reach an answer."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1")) & 0xFFFFFFFF
    except ValueError:
        return 1


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_BUILD", "CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED")) or k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e.pop("VH_PANICS", None)
    e.pop("VH_LOG", None)
    e.update(extra or {})
    return e


def cargo_build(binname, profile, features=None, target=None):
    """Build a binary of the harness against /repo's working tree; returns its path."""
    tdir = target or os.path.join(HARNESS, "target")
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--bin", binname, "--target-dir", tdir]
    if features is not None:
        cmd += ["--no-default-features"]
        if features:
            cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=HARNESS, env=env({"RUSTFLAGS": "-Awarnings --cap-lints=allow"}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("the harness does not build against /repo:\n" + p.stdout[-4000:])
    path = os.path.join(tdir, profile, binname)
    if not os.path.exists(path):
        raise CheckError("no binary " + path)
    return path


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# A case takes milliseconds: one that makes no progress for this long never will.
STALL = 90


def run(cmd, timeout, extra_env=None, cwd=None, state=None):
    """Returns (returncode or None on timeout, output).

    With a state file, it also counts as a timeout when the file stays the same for too long."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env(extra_env), cwd=cwd, preexec_fn=limits, start_new_session=True)
    t0 = time.time()
    seen, since = None, t0
    while True:
        left = timeout - (time.time() - t0)
        try:
            out, err = p.communicate(timeout=max(0.1, min(left, 10)))
            return p.returncode, out if out else err[-2000:]
        except subprocess.TimeoutExpired:
            pass
        if state:
            try:
                now = open(state).read()
            except OSError:
                now = None
            if now != seen:
                seen, since = now, time.time()
        if time.time() - t0 >= timeout or (state and time.time() - since > STALL):
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, ""


def bad(rc):
    """Does this exit status stand for a failed case?"""
    return rc is not None and (rc == 3 or (rc < 0 and rc != -signal.SIGKILL))


def crash_name(rc):
    try:
        return "the process was ended by " + signal.Signals(-rc).name
    except ValueError:
        return "the process ended with status %d" % rc


class Tmp:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="dync-check-")

    def path(self, name):
        return os.path.join(self.d, name)

    def close(self):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)


def try_tape(binary, prop, tape, tmp, name, log=False):
    f = tmp.path("t-" + name)
    with open(f, "w") as h:
        h.write(" ".join(map(str, tape)))
    rc, out = run([binary, "tape", prop, f], 30, {"VH_LOG": "1"} if log else None)
    return rc, out


def used_tape(out, tape):
    for l in out.splitlines():
        if l.startswith("TAPE ["):
            return [int(x) for x in l[6:-1].split(",") if x.strip()]
    return tape


def shrink(binary, prop, tape, tmp, budget=60.0, max_tries=4000):
    """Greedy shrinking of a failing list of choices."""
    def test(name, t):
        rc, out = try_tape(binary, prop, t, tmp, name)
        if not bad(rc):
            return None
        return used_tape(out, t) if rc == 3 else t
    return shrink_tape(test, tape, budget, max_tries)


def shrink_tape(test, tape, budget=60.0, max_tries=4000):
    """The same for any test that returns the choices used if it fails, or else nothing."""
    t0 = time.time()
    tries = 0
    best = list(tape)

    def candidates(t):
        n = len(t)
        size = n // 2
        while size >= 1:
            for i in range(n - size, -1, -max(1, size)):
                yield t[:i] + t[i + size:]
            if size > 1:
                for i in range(n - size, -1, -size):
                    if any(t[i:i + size]):
                        yield t[:i] + [0] * size + t[i + size:]
            size //= 2
        for i in range(n):
            if t[i]:
                yield t[:i] + [0] + t[i + 1:]
        for i in range(n):
            if t[i] > 1:
                yield t[:i] + [t[i] // 2] + t[i + 1:]
                yield t[:i] + [t[i] - 1] + t[i + 1:]

    with cf.ThreadPoolExecutor(CORES) as ex:
        improved = True
        while improved and time.time() - t0 < budget and tries < max_tries:
            improved = False
            gen = candidates(best)
            while True:
                batch = []
                for c in gen:
                    batch.append(c)
                    if len(batch) == CORES * 2:
                        break
                if not batch or time.time() - t0 > budget or tries > max_tries:
                    break
                res = list(ex.map(lambda ic: test("s%d" % ic[0], ic[1]), enumerate(batch)))
                tries += len(batch)
                ok = None
                for c, u in zip(batch, res):
                    if u is not None:
                        u = u if len(u) <= len(c) else c
                        if (len(u), u) < (len(best), best):
                            ok = u
                            break
                if ok is not None:
                    best = ok
                    improved = True
                    break
    while best and best[-1] == 0:
        if test("z", best[:-1]) is None:
            break
        best = best[:-1]
    return best, tries


def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(data, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as h:
        h.write(body + "\n")
    return path


def violation(prop, data, message):
    """Report and return the exit status."""
    path = write_replay(prop, dict(data, property=prop, message=message))
    print("%s: %s" % (prop, message[:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return 1


def run_cases(prop, binary, lo, hi, tmp, tag, timeout, samples=3, extra_env=None):
    """Run cases lo..hi over all cores.

    Returns (result, None) or (None, failure) with failure = {index, tape, message}."""
    sd = seed()

    def work(k):
        st = tmp.path("st-%s-%d" % (tag, k))
        rc, out = run([binary, "range", prop, str(sd), str(lo + k), str(hi), str(CORES), st, str(samples if k == 0 else 1)], timeout, extra_env, state=st)
        return k, rc, out, st

    with cf.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(work, range(CORES)))
    fails = []
    total = {"cases": 0, "counts": {}, "samples": [], "hashes": set(), "digests": {}}
    for k, rc, out, st in res:
        if rc == 0:
            d = json.loads(out.strip().splitlines()[-1])
            total["cases"] += d["cases"]
            for c, n in d["counts"].items():
                total["counts"][c] = total["counts"].get(c, 0) + n
            total["samples"] += d["samples"]
            total["hashes"].update(d["hashes"])
            for i, h in d.get("digests", []):
                total["digests"][i] = h
        elif rc == 3:
            d = json.loads(out.strip().splitlines()[-1])
            fails.append({"index": d["index"], "tape": d["tape"], "message": d["fail"]})
        elif bad(rc):
            try:
                i = int(open(st).read().strip())
            except (OSError, ValueError):
                raise CheckError("%s before the first case: %s" % (crash_name(rc), out))
            fails.append({"index": i, "tape": None, "message": crash_name(rc) + " " + out[-500:], "rc": rc})
        elif rc is None:
            try:
                i = int(open(st).read().strip())
            except (OSError, ValueError):
                raise CheckError("a worker did not start within %d s" % timeout)
            fails.append({"index": i, "tape": None, "message": "the case does not end", "hang": True})
        else:
            raise CheckError("a worker ended with status %d: %s" % (rc, out[-1000:]))
    if fails:
        fails.sort(key=lambda f: (f.get("hang", False), f["index"]))
        return None, fails[0]
    return total, None


def report_failure(prop, binary, fail, tmp, desc, as_prop=None):
    """Confirm a failing case in a fresh process, shrink it, write the replay file."""
    msg = fail["message"]
    tape = fail["tape"]
    if tape is None:
        f = tmp.path("tee")
        rc, out = run([binary, "one", prop, str(seed()), str(fail["index"]), f], 60)
        if bad(rc):
            tape = [int(x) for x in open(f).read().split()]
    data = dict(desc, kind="case", case_prop=prop, index=fail["index"], seed=seed())
    if fail.get("hang"):
        f = tmp.path("tee")
        rc, out = run([binary, "one", prop, str(seed()), str(fail["index"]), f], STALL)
        if rc is not None:
            raise CheckError("a worker made no progress in case %d, which alone ends with status %d" % (fail["index"], rc))
        return violation(as_prop or prop, dict(data, tape=[int(x) for x in open(f).read().split()]), msg)
    if tape is not None:
        rc, out = try_tape(binary, prop, tape, tmp, "c")
        if bad(rc):
            small, tries = shrink(binary, prop, tape, tmp)
            rc, out = try_tape(binary, prop, small, tmp, "c", log=True)
            if bad(rc):
                m = [l for l in out.splitlines() if l.startswith("FAIL ")]
                msg2 = m[-1][5:] if m else crash_name(rc)
                return violation(as_prop or prop, dict(data, tape=small, log=out.splitlines()[-60:]), msg2 + "   [case as first found: %s]" % msg)
            return violation(as_prop or prop, dict(data, tape=tape), msg)
    # Depends on what ran before it in the same process: replay the whole range.
    return violation(as_prop or prop, dict(data, kind="range"), msg + " (not reproduced by the single case)")


def write_evidence(prop, tier, coverage, assumptions, violations=0, level="exploration"):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    e = {
        "property": prop, "tier": tier, "seed": seed(), "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - START, 2), "violations": violations,
    }
    path = os.path.join(d, prop + ".json")
    with open(path + ".tmp", "w") as h:
        json.dump(e, h, indent=1)
        h.write("\n")
    os.replace(path + ".tmp", path)


COMMON_ASSUMPTIONS = [
    "The Rust compiler, the standard library and the platform allocator are correct.",
    "The reference models, element types and checking allocator of /verif/harness are correct.",
]


def harness_check(prop, tier, binname, rule, quick, thorough, profiles=("chk", "release"), assumptions=(), features=None, extra=None):
    """A check that runs generated cases of one harness binary in several builds."""
    tmp = Tmp()
    try:
        n = quick if tier == "quick" else thorough
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": [], "operations": {}, "builds": {}}
        cov.update(extra or {})
        hashes = set()
        lo = 0
        builds = {}
        with cf.ThreadPoolExecutor(len(profiles)) as ex:
            for p, b in zip(profiles, ex.map(lambda p: cargo_build(binname, p, features), profiles)):
                builds[p] = b
        for p in profiles:
            t, fail = run_cases(prop, builds[p], lo, lo + n, tmp, p, 780 if tier == "quick" else 6 * 3600)
            if fail:
                rc = report_failure(prop, builds[p], fail, tmp, {"bin": binname, "profile": p, "features": features, "range": [lo, lo + n]})
                cov["evaluations"] += fail["index"] - lo + 1
                cov["distinct_nontrivial"] = len(hashes)
                write_evidence(prop, tier, cov, COMMON_ASSUMPTIONS + list(assumptions), 1)
                return rc
            lo += n
            cov["evaluations"] += t["cases"]
            hashes |= t["hashes"]
            cov["distinct_nontrivial"] = len(hashes)
            cov["builds"][p] = t["cases"]
            cov["samples"] += t["samples"][:3]
            for k, v in t["counts"].items():
                cov["operations"][k] = cov["operations"].get(k, 0) + v
        write_evidence(prop, tier, cov, COMMON_ASSUMPTIONS + list(assumptions))
        print("%s: held in %d generated cases (%d distinct non-trivial)" % (prop, cov["evaluations"], cov["distinct_nontrivial"]))
        return 0
    finally:
        tmp.close()
