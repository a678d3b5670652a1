"""Generated programs: compiled against /repo's crate, their verdicts and their behaviour."""
import concurrent.futures as cf
import json
import os
import re
import subprocess

import common

DIR = os.path.join(common.VERIF, "progs")

PRELUDE = """#![allow(warnings)]
#![recursion_limit = "256"]
"""


class PreludeError(common.CheckError):
    """What comes before the programs does not compile."""


class Lib:
    """The crate, built from /repo's working tree."""

    def __init__(self, features=None):
        target = os.path.join(DIR, "target" if features is None else "target-" + "-".join(["bare"] + features))
        cmd = ["cargo", "build", "--offline", "--message-format=json", "--target-dir", target]
        if features is not None:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        self.features = features
        p = subprocess.run(cmd, cwd=DIR, env=common.env({"RUSTFLAGS": "-Awarnings --cap-lints=allow"}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.rlib = self.derive = None
        errors = []
        for l in p.stdout.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "dync" and "lib" in d["target"]["kind"]:
                self.rlib = [f for f in d["filenames"] if f.endswith(".rlib")][0]
            if d.get("reason") == "compiler-artifact" and d["target"]["name"] in ("dync_derive", "dync-derive") and "proc-macro" in d["target"]["kind"]:
                self.derive = [f for f in d["filenames"] if f.endswith((".so", ".dylib"))][0]
            if d.get("reason") == "compiler-message" and d["message"]["level"] == "error":
                errors.append(d["message"]["rendered"])
        if p.returncode != 0 or not self.rlib:
            raise common.CheckError("the crate does not build:\n" + "".join(errors)[-4000:] + p.stderr[-2000:])
        self.deps = os.path.join(target, "debug", "deps")

    def rustc(self, src, out, emit):
        cmd = ["rustc", "--edition", "2021", "--crate-name", "p", "--cap-lints", "allow", "--error-format=json", "--extern", "dync=" + self.rlib,
               *(["--extern", "dync_derive=" + self.derive] if self.derive else []),
               "-L", "dependency=" + self.deps, "-C", "debuginfo=0", "-C", "codegen-units=4", src, "-o", out]
        cmd += ["--crate-type", "bin", "--emit=" + emit]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=common.env({}), cwd=os.path.dirname(out))
        try:
            _, err = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise common.CheckError("the compiler does not end on " + src)
        msgs = []
        for l in err.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") in ("error", "error: internal compiler error") and d.get("message") and not d["message"].startswith("aborting due to"):
                msgs.append(d)
        if p.returncode != 0 and not msgs:
            raise common.CheckError("the compiler failed without a message: " + err[-2000:])
        return p.returncode, msgs


def lines_of(d, src):
    """Lines of the source a message points at, the main one first."""
    out = []
    for main in (True, False):
        for s in d["spans"]:
            if s["is_primary"] == main:
                while s.get("expansion") and not s["file_name"].endswith(src):
                    s = s["expansion"]["span"]
                if s["file_name"].endswith(src):
                    out.append(s["line_start"])
    for c in d.get("children", []):
        out += lines_of(c, src)
    return out


def verdicts(lib, progs, tmp, tag, prelude=""):
    """Compile many programs at once: {name: errors} with errors = [(code, message)].

    `progs` maps names to items; each becomes a module."""
    src = "v-%s.rs" % tag
    path = tmp.path(src)
    found = {}
    left = dict(progs)
    # The compiler gives up after any phase that found errors: what is left goes through the next.
    for _ in range(40):
        text = PRELUDE + prelude
        at = []
        for n, p in left.items():
            first = text.count("\n") + 1
            text += "pub mod %s { use super::*;\n%s\n}\n" % (n, p)
            at.append((first, text.count("\n"), n))
        text += "fn main() {}\n"
        with open(path, "w") as h:
            h.write(text)
        rc, msgs = lib.rustc(path, tmp.path("v-%s.rmeta" % tag), "metadata")
        here = {}
        for d in msgs:
            name = None
            for l in lines_of(d, src):
                name = next((n for a, b, n in at if a <= l <= b), None)
                if name:
                    break
            if name is None:
                raise PreludeError("an error outside of the programs: " + d["rendered"][:2000])
            here.setdefault(name, []).append(((d["code"] or {}).get("code"), d["message"]))
        if not here:
            return {n: found.get(n, []) for n in progs}
        found.update(here)
        for n in here:
            del left[n]
    raise common.CheckError("the compiler's errors do not settle")


def verdicts_parallel(lib, progs, tmp, tag, prelude="", size=60):
    names = list(progs)
    parts = [names[i:i + size] for i in range(0, len(names), size)]
    out = {}
    with cf.ThreadPoolExecutor(common.CORES) as ex:
        for r in ex.map(lambda k: verdicts(lib, {n: progs[n] for n in parts[k]}, tmp, "%s%d" % (tag, k), prelude), range(len(parts))):
            out.update(r)
    return out


def alone(lib, prog, tmp, tag, prelude=""):
    """The errors of one program by itself."""
    return verdicts(lib, {"p0": prog}, tmp, "alone-" + tag, prelude)["p0"]


RUN_TAIL = """}
static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
fn one(n: &str, f: fn() -> Result<(), String>) {
    println!("BEGIN {}", n);
    let r = std::panic::catch_unwind(f);
    match r {
        Ok(Ok(())) => println!("PASS {}", n),
        Ok(Err(e)) => println!("FAIL {} {}", n, e.replace("\\n", " ")),
        Err(_) => println!("FAIL {} panicked: {}", n, LAST.lock().unwrap_or_else(|e| e.into_inner()).replace("\\n", " ")),
    }
}
"""


def run_source_of(ps, prelude):
    text = PRELUDE + prelude
    for n, p in ps.items():
        text += "pub mod %s { use super::*;\n%s\n}\n" % (n, p)
    text += "fn main() {\n    std::panic::set_hook(Box::new(|i| { *LAST.lock().unwrap() = i.to_string(); }));\n"
    for n in ps:
        text += "    one(\"%s\", %s::run);\n" % (n, n)
    return text + RUN_TAIL


def outcomes(o, out):
    for l in o.splitlines():
        if l.startswith("PASS "):
            out[l[5:]] = None
        elif l.startswith("FAIL "):
            n, _, m = l[5:].partition(" ")
            out[n] = ("misbehaves", m)


def run_source(lib, src, tmp, tag):
    """Compile and run a source of one program: nothing, or what went wrong."""
    path, exe = tmp.path("rs-%s.rs" % tag), tmp.path("rs-" + tag)
    with open(path, "w") as h:
        h.write(src)
    rc, msgs = lib.rustc(path, exe, "link")
    if rc != 0:
        return ("does not compile", "; ".join("%s %s" % ((d["code"] or {}).get("code") or "", d["message"]) for d in msgs)[:1500])
    rc, o = common.run([exe], 60)
    out = {}
    outcomes(o, out)
    if out:
        return list(out.values())[0]
    return ("misbehaves", "does not end" if rc is None else common.crash_name(rc))


def run_all(lib, progs, tmp, tag, prelude="", size=25):
    """Compile and run programs, each of which has a `pub fn run() -> Result<(), String>`:
    {name: None or what went wrong}."""
    names = list(progs)
    parts = [names[i:i + size] for i in range(0, len(names), size)]

    def part(k):
        out = {}
        left = {n: progs[n] for n in parts[k]}
        v = verdicts(lib, left, tmp, "%sr%d" % (tag, k), prelude)
        for n, e in v.items():
            if e:
                out[n] = ("does not compile", "; ".join("%s %s" % (c or "", m) for c, m in e)[:1500])
                del left[n]
        while left:
            path = tmp.path("r-%s%d.rs" % (tag, k))
            exe = tmp.path("r-%s%d" % (tag, k))
            with open(path, "w") as h:
                h.write(run_source_of(left, prelude))
            rc, msgs = lib.rustc(path, exe, "link")
            if rc != 0:
                raise common.CheckError("programs that type-check do not build: " + "\n".join(d["rendered"] for d in msgs)[:3000])
            rc, o = common.run([exe], 120)
            outcomes(o, out)
            begun = [l[6:] for l in o.splitlines() if l.startswith("BEGIN ") and l[6:] not in out]
            begun = begun[-1] if begun else None
            if rc == 0:
                left = {}
            elif begun:
                out[begun] = ("misbehaves", "does not end" if rc is None else common.crash_name(rc))
            else:
                raise common.CheckError("the programs ended with status %s: %s" % (rc, o[-500:]))
            left = {n: p for n, p in left.items() if n not in out}
        return out

    res = {}
    with cf.ThreadPoolExecutor(common.CORES) as ex:
        for r in ex.map(part, range(len(parts))):
            res.update(r)
    return res


def known(prop):
    """Signatures of the recorded findings of a property."""
    with open(os.path.join(common.VERIF, "known_findings.json")) as h:
        d = json.load(h)
    return {f["signature"]: f for f in d["known"] if f["property"] == prop}
