"""C21: the byte forms of trait methods, judged by the compiler and run."""
import random

import common
import negs
import progs

PROP = "C21"
RULE = ("A case is a trait with generated methods under the method attribute.  Translated: types are generated together with what they must become; "
        "an implementation with exactly the expected function must be accepted, and the function must be usable as a pointer of exactly the expected "
        "type (together: the signatures are equal); the variant of it with one parameter or result of another type must be rejected.  Refused: "
        "the implementing type or a type parameter inside another type, or an unsupported kind of signature; the compiler must reject it and accept "
        "the same method without it.  Run: methods with bodies are called in their byte form and their results compared.  "
        "Non-trivial: at least one parameter or a result apart from the receiver; distinct by text.")
SIZES = {"quick": (7000, 4500, 500), "thorough": (80000, 50000, 6000)}

PRELUDE = """
use dync_derive::dync_trait_method;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::rc::Rc;
pub trait Obj { fn get(&self) -> u32; }
pub trait With<X> { fn with(&self, x: X) -> X; }
pub trait Kind { type Out; }
impl Kind for u8 { type Out = u16; }
pub struct Selfish;
pub struct Wrong;
pub struct Hold<X>(X);
pub mod inner { pub struct Selfish(u8); pub struct Deep<X>(pub X); }
// Never meant by a signature that has its own.
pub struct H; pub struct G; pub struct Item;
pub struct P;
impl Kind for P { type Out = i64; }
impl Obj for u32 { fn get(&self) -> u32 { *self } }
pub type Bytes = [MaybeUninit<u8>];
pub fn bytes<T>(x: &T) -> &Bytes { unsafe { std::slice::from_raw_parts(x as *const T as *const _, std::mem::size_of::<T>()) } }
pub fn bytes_mut<T>(x: &mut T) -> &mut Bytes { unsafe { std::slice::from_raw_parts_mut(x as *mut T as *mut _, std::mem::size_of::<T>()) } }
pub fn owned(n: u8) -> Box<Bytes> { vec![MaybeUninit::new(n)].into_boxed_slice() }
pub fn val(b: &Bytes) -> u8 { unsafe { b[0].assume_init() } }
"""
BYTES = "[MaybeUninit<u8>]"

BOUNDS = ["Obj", "fmt::Debug", "std::fmt::Write", "std::hash::Hasher", "Iterator<Item = u32>", "With<u8>", "With<(u8, Selfish)>", "Fn(u32) -> u32", "FnMut(&u8, u16)",
          "FnMut(&'static str) -> Option<u8>", "for<'x> Fn(&'x u8) -> &'x u8", "::std::fmt::Display", "Kind<Out = u8>", "With<Vec<Option<u16>>>", "DoubleEndedIterator<Item = (u8, u8)>"]
MARKS = ["Send", "Sync", "'static", "Unpin", "std::marker::Send"]
LEAVES = ["u8", "u16", "i32", "u64", "bool", "char", "f32", "String", "()", "Selfish", "inner::Selfish", "@S::Out", "::std::string::String", "fmt::Error", "usize", "&'static str",
          "std::num::NonZeroU8", "PhantomData<u8>", "Box<dyn Obj>", "Box<dyn Fn(u8) -> u16 + Send>", "Rc<dyn fmt::Debug>", "fn()", "i64", "@X", "@X"]


def plain(rng, depth, refs):
    """A type that is to stay as it is; `refs`: also with elided lifetimes."""
    if depth == 0 or rng.random() < .35:
        return rng.choice(LEAVES)
    t = lambda: plain(rng, depth - 1, refs)
    s = lambda: plain(rng, depth - 1, False)
    k = rng.randrange(20 if refs else 14)
    if k == 0:
        return "(%s, %s)" % (t(), t())
    if k == 1:
        return "(%s,)" % t()
    if k == 2:
        return "[%s; %d]" % (t(), rng.randint(0, 9))
    if k == 3:
        return "Option<%s>" % t()
    if k == 4:
        return "Vec<%s>" % t()
    if k == 5:
        return "Result<%s, %s>" % (t(), t())
    if k == 6:
        return "fn(%s, %s) -> %s" % (s(), s(), s())
    if k == 7:
        return "*%s %s" % (rng.choice(["const", "mut"]), s())
    if k == 8:
        return "BTreeMap<%s, %s>" % (t(), t())
    if k == 9:
        return "inner::Deep<%s>" % t()
    if k == 10:
        return "Box<dyn Fn(%s) -> %s>" % (s(), s())
    if k == 11:
        return "Hold<%s>" % t()
    if k == 12:
        return rng.choice(["(<u8 as Kind>::Out, %s)", "Vec<(%s, <u8 as Kind>::Out)>", "Hold<[%s; 2]>", "((%s,), u8)"]) % t()
    if k == 13:
        return "std::rc::Rc<%s>" % t()
    if k == 14:
        return "&%s" % t()
    if k == 15:
        return "&mut %s" % t()
    if k == 16:
        return "&[%s]" % t()
    if k == 17:
        return rng.choice(["&str", "&dyn Obj", "&mut dyn fmt::Write", "&(dyn Obj + Send)", "&mut fmt::Formatter", "&mut [u8]", "&fmt::Arguments", "&dyn Fn(u8) -> u8"])
    if k == 18:
        return "Option<&mut %s>" % t()
    return "Box<dyn Fn(&%s)>" % s()


def special(rng, gens, refs, ret=False):
    """A type that is translated: (source, expected)."""
    by = [("", "Box<%s>")]
    if refs:
        by += [("&", "&%s"), ("&mut ", "&mut %s")] * 2
    by += [("*const ", "*const %s"), ("*mut ", "*mut %s"), ("&'static ", "&'static %s"), ("&@L ", "&@L %s"), ("&@L mut ", "&@L mut %s")]
    how, exp = rng.choice(by)
    if not gens or rng.random() < .5:
        if how == "" and rng.random() < .15:
            return "(Self)", "Box<%s>" % BYTES
        return how + "Self", exp % BYTES
    n, b = rng.choice(gens)
    obj = "dyn " + " + ".join(b)
    if how != "" and len(b) > 1:
        obj = "(%s)" % obj
    return how + n, exp % obj


class Method:
    def __init__(self, rng, k):
        self.name = rng.choice(["go", "is_it", "r#type", "r#match", "clone_from", "x1", "do_it_bytes", "Up"])
        self.plain_name = self.name.replace("r#", "") + "_bytes"
        self.gens = []
        self.unsized = {}
        for n in ["H", "G"][:rng.choice([0, 0, 1, 1, 2])]:
            self.gens.append((n, [rng.choice(BOUNDS)] + rng.sample(MARKS, rng.choice([0, 0, 0, 1, 2]))))
            if rng.random() < .15:
                self.unsized[n] = rng.randint(0, len(self.gens[-1][1]))
        self.unsafe_ = rng.random() < .2
        self.recv = rng.choice([None, ("self", "Box<%s>" % BYTES), ("&self", "&" + BYTES), ("&self", "&" + BYTES), ("&mut self", "&mut " + BYTES), ("&'static self", "&'static " + BYTES)])
        lone = bool(self.recv) and self.recv[0] in ("&self", "&mut self") and rng.random() < .4
        self.params = []
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        while len(self.params) < n:
            if rng.random() < .55:
                t = special(rng, self.gens, not lone)
            else:
                t = (plain(rng, 3, not lone),) * 2
            # Without a true receiver, other lifetimes leave an elided one in the result unknown.
            if not (lone and "@L" in t[0]) and not (lone and "'static" in t[0] + t[1].replace("FnMut(&'static", "")):
                self.params.append(t)
        self.out = None
        if rng.random() < .7:
            if lone and rng.random() < .8:
                self.out = rng.choice([("&Self", "&" + BYTES), ("&u8", "&u8"), ("Option<&[u8]>", "Option<&[u8]>"), ("&mut Self", "&mut " + BYTES), ("&str", "&str")])
            elif rng.random() < .5:
                self.out = special(rng, self.gens, False, True)
            else:
                t = plain(rng, 2, False)
                self.out = (t, t)
        names = ["x", "y", "r#in", "state", "other", "z9", "bytes", "f"]
        rng.shuffle(names)
        self.names = [("_" if rng.random() < .05 else names[i]) for i in range(len(self.params))]
        self.attrs = rng.choice(["", "", "/// Some text.\n", "#[must_use]\n", "#[allow(unused)]\n", "#[doc(hidden)]\n"])

    def decl(self, text=None):
        given = lambda n, b: b[:self.unsized[n]] + ["?Sized"] + b[self.unsized[n]:] if n in self.unsized else b
        g = "<%s>" % ", ".join("%s: %s" % (n, " + ".join(given(n, b))) for n, b in self.gens) if self.gens else ""
        ps = ([self.recv[0]] if self.recv else []) + ["%s: %s" % (n, t) for n, (t, _) in zip(self.names, self.params)]
        return "%s#[dync_trait_method]\n%sfn %s%s(%s)%s;" % (self.attrs, "unsafe " if self.unsafe_ else "", self.name, g, ", ".join(ps), " -> " + self.out[0] if self.out else "")

    def expected(self):
        return ([self.recv[1]] if self.recv else []) + [e for _, e in self.params], (self.out[1] if self.out else "()")

    def impl(self, ins, out):
        return "unsafe fn %s(%s) -> %s { loop {} }" % (self.plain_name, ", ".join("a%d: %s" % x for x in enumerate(ins)), out)

    def pointer(self, ins, out):
        return "let _: unsafe fn(%s) -> %s = <P as Tr<'static, u32>>::%s;" % (", ".join(ins), out, self.plain_name)


def program(ms, change=None):
    """Trait, implementation and pointers; `change`: (method, position, type) that is not as expected."""
    t = declared("%s\nfn left(&self, x: Option<Self>) -> u32;" % "\n".join(m.decl() for m in ms))
    im, po = [], []
    for m in ms:
        ins, out = m.expected()
        ins = list(ins)
        if change and change[0] is m:
            if change[1] < len(ins):
                ins[change[1]] = change[2]
            else:
                out = change[2]
        im.append(m.impl(ins, out))
        po.append(m.pointer(*m.expected()))
    t += given("impl Tr<'static, u32> for P {\n%s\nfn left(&self, x: Option<Self>) -> u32 { 1 }\n}\n" % "\n".join(im), "Self::Out")
    if not change:
        t += given("pub fn f() { %s }\n" % "\n".join(po), "<P as Kind>::Out")
    return t


def declared(body):
    """The trait, with a lifetime and a parameter of its own."""
    return ("pub trait Tr<'t, X>: Sized + Kind {\n%s\n}\n" % body).replace("@S", "Self").replace("@X", "X").replace("@L", "'t")


def given(text, out):
    """What the trait is implemented with."""
    return text.replace("@S::Out", out).replace("@X", "u32").replace("@L", "'static")


def methods(rng):
    ms = []
    for k in range(rng.choice([1, 1, 2, 3])):
        m = Method(rng, k)
        if all(m.plain_name != o.plain_name for o in ms):
            ms.append(m)
    return ms


GROUP = negs.Group("methods", PRELUDE)


def translated(rng):
    ms = methods(rng)
    good = program(ms)
    m = rng.choice(ms)
    ins, out = m.expected()
    i = rng.randrange(len(ins) + 1)
    bad = program(ms, (m, i, rng.choice(["Wrong", "&'static mut Wrong", "Box<[u8]>", "*const Wrong"])))
    nontrivial = any(m.params or m.out for m in ms)
    return negs.Item("rejected", bad, GROUP, "translated", "an implementation of another type at position %d" % i, [good]), nontrivial


WRAP = ["(%s, u8)", "(u8, %s)", "[%s; 2]", "&[%s]", "&mut [%s]", "Option<%s>", "Vec<%s>", "Box<%s>", "fn(%s) -> u8", "fn() -> %s", "&(u8, %s)", "&&%s", "*const [%s; 1]",
        "Result<%s, u8>", "Result<u8, %s>", "Box<dyn Fn(%s) -> u8>", "Box<dyn Fn(u8) -> %s>", "&dyn Fn(&%s)", "Hold<%s>", "(u8, (Option<%s>,))", "Option<&%s>", "BTreeMap<u8, %s>",
        "inner::Deep<%s>", "std::rc::Rc<%s>", "Option<Vec<(%s, u8)>>", "&mut Option<%s>", "PhantomData<%s>", "((%s,),)", "&mut [(%s, u8)]", "Box<dyn With<%s>>", "Box<dyn Iterator<Item = %s>>",
        "*mut Option<%s>", "fn(&%s, u8)", "Vec<[%s; 3]>", "Box<dyn Fn(Option<%s>)>"]


def refused(rng):
    m = Method(rng, 0)
    k = rng.randrange(10)
    note = None

    def at(t):
        """The declaration with another parameter or result."""
        keep = list(m.params), list(m.names), m.out
        if pos < 0:
            m.out = (t, t)
        else:
            m.params.insert(pos, (t, t))
            m.names.insert(pos, "extra")
        r = declared(m.decl())
        m.params, m.names, m.out = keep
        return r
    pos = rng.randrange(len(m.params) + 1)
    if k < 7:
        w = rng.choice(WRAP)
        if rng.random() < .4:
            w = rng.choice([x for x in WRAP if "&" not in x]).replace("%s", w.replace("&", "&'static ") if "&" in w else w)
        elided = "&" in w.replace("&'static ", "").replace("n(&%s", "")
        if rng.random() < .3:
            if elided:
                w = w.replace("&'static ", "&").replace("&", "&'static ")
            pos = -1
        x = "Self"
        if m.gens and rng.random() < .5:
            x = rng.choice(m.gens)[0]
        if m.out and "&" in m.out[0].replace("&'static", "") and pos >= 0:
            m.out = None
        bad, good = at(w % x), at(w % "Selfish")
        note = "%s as %s" % (x, w)
    else:
        g = rng.choice(["'a", "const N: usize", "T"])
        m.out = None
        base = at("u8")
        sig = base[base.index("fn " + m.name) + 3 + len(m.name):]
        if k == 7:
            # Unsupported parameters.
            n = "<%s, " % g + sig[1:] if sig.startswith("<") else "<%s>" % g + sig
            if sig.startswith("<") and not g.startswith("'"):
                n = sig.replace(">(", ", %s>(" % g, 1) if ">(" in sig else sig
            if n == sig:
                return None
            bad = base.replace(sig, n)
            note = "parameter " + g
        else:
            q = "extern \"C\"" if k == 8 else "async"
            if q == "async" and m.unsafe_:
                return None
            bad = base.replace("fn " + m.name, q + " fn " + m.name)
            note = q
        good = base
    return negs.Item("rejected", bad, GROUP, "refused", note, [good]), True


def running(rng):
    """Methods with a body, called in their byte form."""
    decl, body = [], []
    for k in range(rng.randint(1, 4)):
        n, args, terms, want = rng.randint(0, 5), [], [], 0
        ps = []
        gens = []
        pre = []
        recv = rng.choice([None, "&self", "&mut self", "self"])
        if recv:
            args.append({"&self": "bytes(&7u8)", "&mut self": "bytes_mut(&mut 7u8)", "self": "owned(7)"}[recv])
        for i in range(n):
            v, w = rng.randint(1, 250), 1000 ** i
            p = "p%d" % i
            kind = rng.choice(["u64", "u8", "&u64", "&mut u64", "(u8, u64)", "[u64; 3]", "Option<u64>", "gen", "genref", "&Self", "Self", "fn"])
            if kind == "gen":
                g = "T%d" % i
                gens.append(g + ": Obj")
                ps.append("%s: %s" % (p, g))
                args.append("Box::new(%du32)" % v)
                terms.append("%s.get() as u64 * %d" % (p, w))
            elif kind == "genref":
                g = "T%d" % i
                b = rng.choice(["Obj", "Obj + 'static", "Obj + Send + Sync"])
                gens.append("%s: %s" % (g, b))
                mu = rng.choice(["", "mut "])
                ps.append("%s: &%s%s" % (p, mu, g))
                args.append("&%s%du32" % (mu, v))
                terms.append("%s.get() as u64 * %d" % (p, w))
            elif kind == "&Self":
                ps.append("%s: &Self" % p)
                args.append("bytes(&%du8)" % v)
                terms.append("val(%s) as u64 * %d" % (p, w))
            elif kind == "Self":
                ps.append("%s: Self" % p)
                args.append("owned(%d)" % v)
                terms.append("val(&%s) as u64 * %d" % (p, w))
            elif kind == "fn":
                ps.append("%s: fn(u8) -> u8" % p)
                args.append("|x| x + %d" % (v - 1))
                terms.append("%s(1) as u64 * %d" % (p, w))
            else:
                ps.append("%s%s: %s" % (rng.choice(["", "", "mut "]), p, kind) if kind != "(u8, u64)" or rng.random() < .5 else "(q%d, %s): (u8, u64)" % (i, p))
                lit = {"u64": "%d", "u8": "%d", "&u64": "&%d", "&mut u64": "&mut %d", "(u8, u64)": "(3, %d)", "[u64; 3]": "[1, %d, 2]", "Option<u64>": "Some(%d)"}[kind] % v
                args.append(lit)
                get = {"u64": "%s", "u8": "%s as u64", "&u64": "*%s", "&mut u64": "*%s", "(u8, u64)": "%s.1", "[u64; 3]": "%s[1]", "Option<u64>": "%s.unwrap()"}[kind] % p
                if ps[-1].startswith("("):
                    get = p
                terms.append("(%s) * %d" % (get, w))
            want += v * w
        out = rng.choice(["u64", "(u64, u8)", "Self"])
        expr = " + ".join(terms + ["5"])
        want += 5
        if out == "Self":
            expr, cmp = "owned((%s) as u8)" % expr, "val(&r) as u64 == %d" % (want & 0xFF)
        elif out == "u64":
            cmp = "r == %d" % want
        else:
            expr, cmp = "(%s, 1)" % expr, "r == (%d, 1)" % want
        g = "<%s>" % ", ".join(gens) if gens else ""
        decl.append("    #[dync_trait_method]\n    fn m%d%s(%s) -> %s { %s }\n" % (k, g, ", ".join(([recv] if recv else []) + ps), out, expr))
        body.append("    let r = unsafe { <P as Tr>::m%d_bytes(%s) };\n    if !(%s) { return Err(\"m%d\".into()); }\n" % (k, ", ".join(args), cmp, k))
    return "pub trait Tr: Sized {\n%s}\nimpl Tr for P {}\npub fn run() -> Result<(), String> {\n%s    Ok(())\n}\n" % ("".join(decl), "".join(body))


class Check:
    prop = PROP

    def run(self, tier):
        tmp = common.Tmp()
        try:
            return self.go(tier, tmp)
        finally:
            tmp.close()

    def go(self, tier, tmp):
        lib = progs.Lib()
        if not lib.derive:
            raise common.CheckError("the procedural macros were not built")
        nt, nr, nrun = SIZES[tier if tier in SIZES else "thorough"]
        rng = random.Random(common.seed() * 7919 + 21)
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "by_category": {}, "accepted_twins": 0, "errors": {}, "run": 0}
        seen = set()

        def done(rc=0):
            cov["distinct_nontrivial"] = len(seen)
            common.write_evidence(PROP, tier, cov, [
                "The compiler's verdicts are the reference for whether two signatures are equal.",
                "Only receivers written self, &self and &mut self; results with elided lifetimes only where the receiver is the only reference."], 1 if rc else 0)
            return rc
        made = 0
        while made < nt + nr:
            items, trivial = [], set()
            while len(items) < 4000 and made + len(items) < nt + nr:
                x = translated(rng) if made + len(items) < nt else refused(rng)
                if not x:
                    continue
                items.append(x[0])
                if not x[1]:
                    trivial.add(x[0].text)
            made += len(items)
            o = negs.judge(lib, items, tmp, 100)
            if o.bad_groups:
                raise common.CheckError("what comes before the programs does not compile: " + o.bad_groups[0][1])
            cov["evaluations"] += o.cases
            cov["accepted_twins"] += o.twins
            seen |= {t for t, _ in o.distinct if t not in trivial}
            for a, b in (("by_category", o.by_cat), ("errors", o.codes)):
                for k, v in b.items():
                    cov[a][k] = cov[a].get(k, 0) + v
            for s in o.samples:
                if len([x for x in cov["samples"] if x["category"] == s["category"]]) < 2:
                    cov["samples"].append(s)
            found = negs.confirm(lib, o.wrong, tmp)
            if found:
                return done(negs.report(PROP, lib, found, tmp))
            if o.wrong:
                raise common.CheckError("a program that failed among others does not alone:\n" + o.wrong[0][1])
        ps = {"p%d" % i: running(rng) for i in range(nrun)}
        r = progs.run_all(lib, ps, tmp, "run", PRELUDE, 100)
        cov["run"] = len(ps)
        cov["evaluations"] += len(ps)
        for n, p in ps.items():
            if r[n]:
                src = progs.run_source_of({"p0": p}, PRELUDE)
                again = progs.run_source(lib, src, tmp, "again")
                if not again:
                    raise common.CheckError("a program that failed among others (%s: %s) does not alone:\n%s" % (r[n] + (p,)))
                return done(common.violation(PROP, {"kind": "program-run", "source": src}, "%s: %s\n%s" % (again + (p,))))
            seen.add(p)
        cov["samples"].append({"category": "run", "program": ps["p0"]})
        print("%s: held for %d programs (%d distinct non-trivial)" % (PROP, cov["evaluations"], len(seen)))
        return done()

    def replay(self, d):
        return negs.replay(d)
