"""Programs the compiler must reject, next to ones it must accept, in bulk."""
import concurrent.futures as cf

import common
import progs

OWN = "pub fn run() -> Result<(), String> { f(); Ok(()) }\n"


class Item:
    """`expect`: rejected (with twins that have to be accepted) or accepted."""

    def __init__(self, expect, text, group, cat, note, twins=(), smaller=None):
        self.expect, self.text, self.group, self.cat, self.note, self.twins, self.smaller = expect, text, group, cat, note, list(twins), smaller


class Group:
    """Programs that share what comes before them: a list of pieces of source."""

    def __init__(self, name, head, chunks=()):
        self.name, self.head, self.chunks = name, head, list(chunks)

    def prelude(self):
        return self.head + "".join(self.chunks)


def source(prelude, text):
    return progs.PRELUDE + prelude + "pub mod p0 { use super::*;\n" + text + "\n}\nfn main() {}\n"


def compile_one(lib, src, tmp, tag):
    """The errors of a whole source."""
    path = tmp.path("one-%s.rs" % tag)
    with open(path, "w") as h:
        h.write(src)
    rc, msgs = lib.rustc(path, tmp.path("one-%s.rmeta" % tag), "metadata")
    return [((d["code"] or {}).get("code"), d["message"]) for d in msgs]


class Outcome:
    def __init__(self):
        self.cases = 0
        self.bad_groups = []
        self.by_cat = {}
        self.codes = {}
        self.twins = 0
        self.distinct = set()
        self.samples = []
        self.wrong = []      # (item, text, expected, errors)


def judge(lib, items, tmp, size=150):
    """Compile all items; what comes out as it should not is compiled again by itself."""
    out = Outcome()
    parts = {}
    for it in items:
        parts.setdefault(it.group, []).append(it)
    jobs = []
    for g, its in parts.items():
        for i in range(0, len(its), size):
            jobs.append((g, its[i:i + size]))

    def job(k):
        g, its = jobs[k]
        ps = {}
        for i, it in enumerate(its):
            ps["n%d" % i] = it.text
            for j, t in enumerate(it.twins):
                ps["t%d_%d" % (i, j)] = t
        try:
            return progs.verdicts(lib, ps, tmp, "j%d" % k, g.prelude())
        except progs.PreludeError as e:
            return e

    with cf.ThreadPoolExecutor(common.CORES) as ex:
        res = list(ex.map(job, range(len(jobs))))
    for (g, its), v in zip(jobs, res):
        if isinstance(v, progs.PreludeError):
            out.bad_groups.append((g, str(v)))
            continue
        for i, it in enumerate(its):
            out.cases += 1
            out.by_cat[it.cat] = out.by_cat.get(it.cat, 0) + 1
            e = v["n%d" % i]
            for c, _ in e:
                if it.expect == "rejected":
                    out.codes[str(c)] = out.codes.get(str(c), 0) + 1
            if it.expect == "accepted" and e:
                out.wrong.append((it, it.text, "accepted", e))
                continue
            if it.expect == "rejected" and not e:
                out.wrong.append((it, it.text, "rejected", e))
                continue
            fine = True
            for j, t in enumerate(it.twins):
                te = v["t%d_%d" % (i, j)]
                out.twins += 1
                if te:
                    fine = False
                    out.wrong.append((it, t, "accepted", te))
            if fine and (it.twins or it.expect == "accepted"):
                out.distinct.add((it.text, g.name if g.chunks else ""))
                if len([s for s in out.samples if s["category"] == it.cat]) < 2:
                    out.samples.append({"category": it.cat, "expected": it.expect, "note": it.note, "program": it.text,
                                        "errors": ["%s %s" % x for x in e][:2], "accepted_twin": it.twins[0] if it.twins else None})
    return out


def confirm(lib, wrong, tmp):
    """The first wrong outcomes that stand when the program is compiled alone."""
    for it, text, expect, e in wrong:
        e = compile_one(lib, source(it.group.prelude(), text), tmp, "c")
        if bool(e) == (expect == "rejected"):
            continue
        return it, text, expect, e
    return None


def shrink(lib, found, tmp):
    """A smaller program with the same outcome, with less before it."""
    it, text, expect, e = found
    chunks = list(it.group.chunks)

    def holds(c, t):
        n = compile_one(lib, source(it.group.head + "".join(c), t), tmp, "s")
        if expect == "rejected":
            return not n
        return bool(n) and [x[0] for x in n] == [x[0] for x in e] and not any(x[0] in ("E0412", "E0425", "E0405", "E0433", "E0432") for x in n)
    if expect == "rejected" and it.smaller:
        case = it.smaller
        progress = True
        while progress:
            progress = False
            for c in case[0](case[1]):
                if holds(chunks, c.bad) and all(not compile_one(lib, source(it.group.prelude(), t), tmp, "s") for t in c.twins):
                    case, text = (case[0], c), c.bad
                    progress = True
                    break
    i = 0
    while i < len(chunks):
        c = chunks[:i] + chunks[i + 1:]
        if holds(c, text):
            chunks = c
        else:
            i += 1
    return source(it.group.head + "".join(chunks), text), text


def report(prop, lib, found, tmp):
    src, text = shrink(lib, found, tmp)
    it, _, expect, e = found
    if expect == "rejected":
        msg = "accepted, but must be rejected (%s; %s):\n%s" % (it.cat, it.note, text)
    else:
        msg = "rejected, but must be accepted (%s; %s): %s\n%s" % (it.cat, it.note, "; ".join("%s %s" % x for x in e)[:600], text)
    return common.violation(prop, {"kind": "program", "expect": expect, "source": src, "features": lib.features, "errors": ["%s %s" % x for x in e]}, msg)


def forgeries(prop, lib, tmp, prelude, programs):
    """Programs that must be rejected and may be recorded as findings."""
    known = progs.known(prop)
    for n, t in sorted(programs.items()):
        if compile_one(lib, source(prelude, t), tmp, "k"):
            continue
        if n not in known:
            return common.violation(prop, {"kind": "program", "expect": "rejected", "source": source(prelude, t)}, "accepted, but must be rejected (%s):\n%s" % (n, t))
        print("KNOWN-FINDING: property=%s %s" % (prop, known[n]["what"]))
    return 0


def replay(d):
    """Of any kind of program."""
    lib = progs.Lib(d.get("features"))
    tmp = common.Tmp()
    try:
        print(d["source"])
        if d["kind"] == "program-run":
            r = progs.run_source(lib, d["source"], tmp, "r")
            print("held" if r is None else "%s: %s" % r)
            return 0 if r is None else 1
        e = compile_one(lib, d["source"], tmp, "r")
        print("rejected: %s" % e if e else "accepted")
        return 1 if bool(e) != (d["expect"] == "rejected") else 0
    finally:
        tmp.close()
