"""C12: generated trait declarations, and programs that use their tables, run."""
import concurrent.futures as cf
import os
import random
import re

import common
import negs
import progs
import worlds
from worlds import ALL, STD, PATH

PROP = "C12"
RULE = ("A case is a generated program in a generated world of traits declared with the attribute macros (alone or in modules, in any order, with any "
        "super-traits).  It makes containers, slices, values and references of one of many element types, the instrumented ones of which report every "
        "clone, comparison, hash, print and drop, converts them along a random chain of ancestor tables, possibly hides the table behind a trait and "
        "restores it, and compares everything the final table provides with what the typed elements do themselves.  A world that does not compile "
        "violates the property too.  Non-trivial: the program converted to another table or used a generated one, and ran to its end; distinct by text and world.")
SIZES = {"quick": (112, 34), "thorough": (3000, 40)}

PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c12_prelude.rs")).read()

NOTED = ["Word", "Owner", "Huge", "Tiny", "Empty", "Wide"]
ELS = {n: ALL - {"Copy"} for n in NOTED}
ELS.update({n: ALL for n in ("Pu", "Ps", "Pl", "u64", "u8", "char", "(u8, u32)", "[u16; 3]", "&'static str", "()")})
ELS.update({n: ALL - {"Eq", "Hash"} for n in ("f32", "f64")})
ELS.update({n: ALL - {"Copy"} for n in ("String", "Vec<u8>", "Option<Box<u16>>", "std::sync::Arc<str>")})
ELS["std::rc::Rc<u8>"] = ALL - {"Copy", "Send", "Sync"}
ELS["std::cell::Cell<u32>"] = ALL - {"Copy", "Hash", "Sync"}
EMPTY = ("Empty", "()")
WORDS = ("Word", "Owner", "Pu", "u64", "f64", "Option<Box<u16>>", "(u8, u32)", "std::rc::Rc<u8>")

EXTRA = ["'static", "Sized", "Unpin", "std::any::Any", "From<Self>"]
BODY = ["", "", "", "fn name(&self) -> u8 { 1 }", "const N: usize = 3;", "fn make() -> Self where Self: Sized { loop {} }", "fn gen<Q: Clone>(&self, q: Q) -> Q { q }",
        "fn set(&mut self, x: &Self) where Self: Sized {}", "/// Documented.\n fn doc(&self) {}", "#[allow(dead_code)] fn two(self) -> (Self, u8) where Self: Sized { (self, 2) }"]
FRONT = ["", "", "", "/// A documented trait.\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n"]
INSIDE = ["pub struct Local;\n", "pub fn helper(x: u8) -> u8 { x }\n", "pub mod inner { pub trait Unrelated: Clone {} }\n", "pub const K: usize = 1;\n", "pub type Alias = u8;\n",
          "pub enum En { A, B }\nimpl En { pub fn f(&self) {} }\n", "#[allow(unused_imports)]\nuse std::collections::HashMap;\n"]


def declare(rng, t, vis, extra):
    """A trait, implemented for everything that can."""
    b = [PATH.get(s, s) for s in t.std] + [p.name for p in t.parents] + [x for x in extra if rng.random() < 0.06]
    rng.shuffle(b)
    w = " + ".join(b)
    unsafe = "unsafe " if rng.random() < 0.05 else ""
    src = "%strait %s%s {%s}\n" % (vis + unsafe, t.name, ": " + w if b else "", " ".join(rng.sample(BODY, rng.choice((0, 0, 1, 2)))))
    imp = "%simpl<T> %s for T%s {}\n" % (unsafe, t.name, " where T: " + w if b else "")
    if rng.random() < 0.5 and b:
        imp = "%simpl<T: %s> %s for T {}\n" % (unsafe, w, t.name)
    return rng.choice(FRONT) + src, imp


class World:
    def __init__(self, rng):
        self.chunks = []
        self.tables = worlds.builtin_tables()
        names = list(worlds.NAMES) + ["Clone_It", "lower", "X1", "VTable2", "Dync", "Elem2"]
        rng.shuffle(names)
        extra = list(EXTRA)
        if rng.random() < 0.5:
            self.chunks.append("pub trait Extra {}\nimpl<T: ?Sized> Extra for T {}\n")
            extra.append("Extra")
        self.chunks.append("use dync as renamed;\n")
        std_p = rng.choice((0.15, 0.35, 0.6))

        def attr(name):
            return rng.choice(["#[%s]\n", "#[dync::%s]\n", '#[%s(dync_crate_name = "dync")]\n', '#[%s(dync_crate_name = "renamed")]\n']) % name
        for _ in range(rng.randint(1, 4)):
            t = worlds.Trait(names.pop(), sorted(worlds.subset(rng, STD, rng.choice((0.2, 0.5, 0.8)))), [])
            a, b = declare(rng, t, rng.choice(["pub ", "pub(crate) ", ""]), extra)
            self.chunks.append(attr("dync_trait") + a + b)
            self.tables.append(worlds.table_of(t))
        for k in range(rng.randint(1, 2)):
            ts = worlds.hierarchy(rng, names, rng.randint(1, 8), std_p)
            order = list(ts)
            rng.shuffle(order)
            items, hidden = [], set()
            for t in order:
                vis = rng.choice(["pub "] * 6 + ["pub(crate) "] * 2 + [""])
                if not vis:
                    hidden.add(t.name)
                items += declare(rng, t, vis, extra)
            items += rng.sample(INSIDE, rng.choice((0, 0, 1, 3)))
            if rng.random() < 0.4:
                rng.shuffle(items)
            self.chunks.append(attr("dync_mod") + "pub mod m%d {\nuse super::*;\n%s}\npub use m%d::*;\n" % (k, "".join(items), k))
            for t in ts:
                if t.name in hidden:
                    continue
                tab = worlds.table_of(t)
                tab.anc -= {h + "VTable" for h in hidden}
                tab.hides = [t] + [a for a in t.ancestors().values() if a.name not in hidden]
                self.tables.append(tab)
        self.by = {t.expr: t for t in self.tables}
        for t in self.tables:
            if not hasattr(t, "hides"):
                t.hides = [worlds.Trait(t.expr[:-6], sorted(t.gives), [])] if t.has else []

    def chain(self, rng, first, most=4):
        """Tables, each an ancestor of the one before."""
        out = [first]
        for _ in range(rng.choice((0, 1, 1, 2, 2, 3, most))):
            nxt = sorted(out[-1].anc - {out[-1].expr})
            if not nxt:
                break
            # Prefer the ones that lead further.
            nxt = [x for x in nxt if x.endswith("VTable")]
            mine = [x for x in nxt if self.by[x].has]
            out.append(self.by[rng.choice(mine if mine and rng.random() < 0.7 else nxt)])
        return out


def ups(chain):
    return "".join(".upcast::<%s>()" % t.expr for t in chain[1:])


def keys(rng, n=None):
    return [rng.randrange(7) for _ in range(rng.choice((0, 1, 2, 2, 3, 5)) if n is None else n)]


class Gen:
    """One program: what it starts with, then statements that do not need one another."""

    def __init__(self, rng, w):
        self.rng, self.w = rng, w
        self.pre, self.body, self.end = [], [], []
        self.ok = False
        generated = [t for t in w.tables if t.has]
        for _ in range(50):
            self.v0 = rng.choice(generated if rng.random() < 0.9 else w.tables)
            self.ty = rng.choice(sorted(ELS) if rng.random() < 0.5 else NOTED)
            self.kind = rng.choice(["VecDyn"] * 4 + ["Slice", "SliceMut", "BoxValue", "SmallValue", "ValueRef", "ValueMut", "VecCopy", "VecCopy", "SliceCopy", "SliceCopyMut", "CopyRef", "CopyMut"])
            copy = "Copy" in self.kind
            if copy and rng.random() < 0.7:
                self.ty = rng.choice([t for t in sorted(ELS) if "Copy" in ELS[t]])
            a = ELS[self.ty]
            if not self.v0.asks <= a or (copy and "Copy" not in a) or (self.v0.plain and not copy):
                continue
            if self.kind == "SmallValue" and self.ty not in WORDS:
                continue
            if self.ty in EMPTY and self.kind not in ("BoxValue", "ValueRef", "ValueMut", "CopyRef", "CopyMut"):
                continue
            self.chain = w.chain(rng, self.v0)
            self.vn = self.chain[-1]
            self.g = self.vn.gives
            getattr(self, "make_" + self.kind)()
            self.ok = True
            break

    def text(self, body=None):
        b = self.body if body is None else body
        return "pub fn run() -> R { balanced(|| {\n%s\nOk(()) }) }\n" % "\n".join("    " + s for s in self.pre + b + self.end)

    def nontrivial(self):
        return len(self.chain) > 1 or self.v0.has

    # --- pieces
    def refs(self, p, g, a, x, b, y):
        out = []
        if "PartialEq" in g:
            out.append("%s_eq(&%s, &%s, &%s, &%s)?;" % (p, a, x, b, y))
        if "Hash" in g:
            out.append("%s_hash(&%s, &%s)?;" % (p, a, x))
        if "Debug" in g:
            out.append("%s_fmt(&%s, &%s)?;" % (p, a, x))
        if "Clone" in g and p == "r":
            out.append("r_clone(&%s, &%s)?;" % (a, x))
        return out

    def some(self, xs, n):
        xs = list(xs)
        self.rng.shuffle(xs)
        return xs[:n]

    def index(self):
        return self.rng.randrange(self.n)

    def values(self, get, get_mut, g, w="w", copy=False, deep=True, mutate=True):
        """Checks of single elements of what has `self.n` of them."""
        if not self.n:
            return
        r, m = ("c", "d") if copy else ("r", "x")
        for _ in range(2):
            i, j = self.index(), self.index()
            a, x, b, y = get % i, "%s[%d]" % (w, i), get % j, "%s[%d]" % (w, j)
            self.body += self.some(self.refs(r, g, a, x, b, y), 2)
            if deep:
                c = self.w.chain(self.rng, self.vn)
                u = ups(c)
                if u and not copy and self.rng.random() < 0.4:
                    k = c[-1].expr
                    self.body += self.some(["{ let (a, b) = (%s, %s); let (a, b) = (a.upcast_ref::<%s>(), b.upcast_ref::<%s>()); %s }" % (a, b, c[1].expr, c[1].expr, s)
                                            for s in self.refs(r, c[1].gives, "a", x, "b", y)], 2)
                else:
                    self.body += self.some(self.refs(r, c[-1].gives, a + u, x, b + u, y), 3)
                if not copy:
                    self.body.append('eq("value after conversions", %s%s.downcast::<%s>().ok_or("the type of a value is lost")?.id(), %s.id())?;' % (a, u, self.ty, x))
        if get_mut and i != j and deep:
            c = self.w.chain(self.rng, self.vn)
            if "Hash" in c[-1].gives or "Debug" in c[-1].gives:
                s = self.refs(m, c[-1].gives - {"PartialEq", "Clone"}, "a", "%s[%d]" % (w, i), "", "")
                if not copy:
                    self.body += ["{ let mut a = %s%s; %s }" % (get_mut % i, ups(c), t) for t in s]
                else:
                    self.body += ["{ let mut a = %s; let mut a = a.upcast::<%s>(); %s }" % (get_mut % i, x.expr, t) for x in c[1:2] for t in self.refs(m, x.gives - {"PartialEq", "Clone"}, "a", "%s[%d]" % (w, i), "", "")]
            if mutate and not copy and "Clone" in c[-1].gives and self.n > 1:
                k = self.rng.randrange(7)
                self.body.append("{ let other = <%s as El>::el(%d); x_clone_from(%s%s, ValueRef::<%s>::new(&other), &mut %s[%d], &other)?; }" % (self.ty, k, get_mut % i, ups(c), c[-1].expr, w, i))

    # --- kinds
    def make_VecDyn(self):
        rng, T = self.rng, self.ty
        K, K2 = keys(rng), keys(rng)
        if rng.random() < 0.4:
            K2 = [k ^ 1 for k in K]
        self.n = len(K)
        v0, vn = self.v0.expr, self.vn.expr
        mk = rng.choice(["VecDyn::<{v}>::from_vec(els::<{t}>(&{k}))", "VecDyn::<{v}>::from(els::<{t}>(&{k}))", "{{ let mut v = VecDyn::<{v}>::with_type::<{t}>(); for k in {k} as [u64; {n}] {{ v.push_as(<{t} as El>::el(k)).ok_or(\"push_as\")?; }} v }}"])
        f = lambda v, k: mk.format(v=v, t=T, k="[%s]" % ", ".join(map(str, k)), n=len(k))
        self.pre = ["let mut w: Vec<%s> = els(&%s);" % (T, K), "let w2: Vec<%s> = els(&%s);" % (T, K2),
                    "let mut v: VecDyn<%s> = %s%s;" % (vn, f(v0, K), ups(self.chain)),
                    "let v2: VecDyn<%s> = %s%s;" % (vn, f(v0, K2), ups(self.chain if rng.random() < 0.5 else [self.v0, self.vn] if len(self.chain) > 1 else [self.v0]))]
        self.body = ["v_same(&v, &w)?;"]
        g = self.g

        def whole(v, g, sized=True):
            out = []
            if "Clone" in g and sized:
                out.append("v_clone(&%s, &w, VecDyn::<%s>::from_vec(els::<%s>(&%s)))?;" % (v, vn, T, keys(rng)))
            if "Clone" in g:
                out.append('eq("cloned into a vector", ids(&%s.clone_into_vec::<%s>().ok_or("clone_into_vec")?), ids(&w))?;' % (v, T))
            if "PartialEq" in g and sized:
                out.append("v_eq(&%s, &w, &v2, &w2)?;" % v)
            if "Hash" in g:
                out.append("v_hash(&%s, &w)?;" % v)
            if "Debug" in g:
                out.append("v_fmt(&%s, &w)?;" % v)
            return out
        self.body += whole("v", g)
        self.values("v.get(%d)", "v.get_mut(%d)", g)
        if rng.random() < 0.5:
            k = rng.randrange(7)
            b = rng.choice([t for t in self.chain])
            self.body.append('v.push(BoxValue::<%s>::new(<%s as El>::el(%d))).ok_or("push")?; w.push(El::el(%d)); v_same(&v, &w)?;' % (b.expr, T, k, k))
        if T not in EMPTY:
            self.slices("v.as_slice()", "v.as_mut_slice()", "v2.as_slice()")
        if self.vn.hides and rng.random() < 0.6:
            h = rng.choice(self.vn.hides)
            hg = h.gives()
            st = whole("h", hg, False)
            if self.n:
                i, j = self.index(), self.index()
                st += self.refs("r", hg - {"Clone"}, "h.get(%d)" % i, "w[%d]" % i, "h.get(%d)" % j, "w[%d]" % j)
            if T not in EMPTY and "PartialEq" in hg:
                st.append("s_eq(&mut h.as_slice(), &w, &mut h2.as_slice(), &w2)?;")
            st = self.some(st, 4)
            self.end.append("let h2 = into_dyn![VecDyn<dyn Has%s>](v2);" % h.name)
            self.end.append("let v = { let mut h = into_dyn![VecDyn<dyn Has%s>](v); v_same(&h, &w)?; %s from_dyn![VecDyn<dyn Has%s as %s>](h) };" % (h.name, " ".join(st), h.name, vn))
            self.end += ["v_same(&v, &w)?;"] + self.some([s for s in whole("v", g) if "v2" not in s], 2)
            self.end.append("let v2 = from_dyn![VecDyn<dyn Has%s as %s>](h2);" % (h.name, vn))
        c = self.w.chain(rng, self.vn)
        self.end += ["let v = v%s;" % ups(c), "v_same(&v, &w)?;", "v_drop(v, w)?;", "v_drop(v2, w2)?;"]

    def slices(self, s, m, s2, w="w", w2="w2"):
        """Views of something, converted."""
        rng = self.rng
        c = self.w.chain(rng, self.vn)
        g, u = c[-1].gives, ups(c)
        out = ["s_same(&mut %s%s, &%s)?;" % (s, u, w)]
        if "PartialEq" in g and s2:
            out.append("s_eq(&mut %s%s, &%s, &mut %s%s, &%s)?;" % (s, u, w, s2, u, w2))
        if "Debug" in g:
            out.append("s_fmt(&mut %s%s, &%s)?;" % (s, u, w))
        if "Clone" in g:
            out.append("s_clone(&%s%s, &%s)?;" % (s, u, w))
        if "Hash" in g:
            out.append("for i in 0..%s.len() { r_hash(&%s%s.get(i), &%s[i])?; }" % (w, s, u, w))
        if m:
            out.append("m_same(&mut %s%s, &%s)?;" % (m, u, w))
            if "Debug" in g:
                out.append("m_fmt(&mut %s%s, &%s)?;" % (m, u, w))
            if self.n > 1:
                i, j = rng.sample(range(self.n), 2)
                out.append("{ let mut m = %s%s; m.swap(%d, %d); } %s.swap(%d, %d); s_same(&mut %s, &%s)?;" % (m, u, i, j, w, i, j, s, w))
            if "PartialEq" in g and s2:
                out.append("{ let mut t: Vec<%s> = els(&[1, 2]); let mut t2: Vec<%s> = els(&[1, 2]); m_eq(&mut %s%s, &%s, &mut SliceMut::<%s>::from_slice(&mut t), &t2)?; }" % (self.ty, self.ty, m, u, w, c[-1].expr))
        if c[-1].hides and rng.random() < 0.6:
            h = rng.choice(c[-1].hides)
            hg = h.gives()
            k, e = ("Slice", s) if not m or rng.random() < 0.5 else ("SliceMut", m)
            p = "s" if k == "Slice" else "m"
            st = ["%s_same(&mut h, &%s)?;" % (p, w)]
            if "Debug" in hg:
                st.append("%s_fmt(&mut h, &%s)?;" % (p, w))
            if "Hash" in hg:
                st.append("for i in 0..%s.len() { r_hash(&h.get(i), &%s[i])?; }" % (w, w))
            if "PartialEq" in hg:
                st.append("for i in 0..%s.len() { r_eq(&h.get(i), &%s[i], &h.get(0), &%s[0])?; }" % (w, w, w))
            out.append("{ let mut h = into_dyn![%s<dyn Has%s>](%s%s); %s let mut s = from_dyn![%s<dyn Has%s as %s>](h); %s_same(&mut s, &%s)?; }" % (
                k, h.name, e, u, " ".join(st), k, h.name, c[-1].expr, p, w))
        self.body += self.some(out, 5)

    def typed(self):
        rng, T = self.rng, self.ty
        K = keys(rng)
        self.n = len(K)
        K2 = [k ^ 1 for k in K] if rng.random() < 0.5 else keys(rng)
        self.pre = ["let mut w: Vec<%s> = els(&%s);" % (T, K), "let w2: Vec<%s> = els(&%s);" % (T, K2), "let mut d: Vec<%s> = els(&%s);" % (T, K), "let mut d2: Vec<%s> = els(&%s);" % (T, K2)]

    def make_Slice(self):
        self.typed()
        e = "Slice::<%s>::from_slice(&d)%s" % (self.v0.expr, ups(self.chain))
        self.slices(e, None, e.replace("&d)", "&d2)"))
        self.pre.append("let mut v: Slice<%s> = %s;" % (self.vn.expr, e))
        self.values("v.get(%d)", None, self.g)

    def make_SliceMut(self):
        self.typed()
        e = "SliceMut::<%s>::from_slice(&mut d)%s" % (self.v0.expr, ups(self.chain))
        self.pre.append("let mut v: SliceMut<%s> = %s;" % (self.vn.expr, e))
        self.slices("v.reborrow()", "v.reborrow_mut()", "Slice::<%s>::from_slice(&d2)" % self.vn.expr)
        self.values("v.get(%d)", "v.get_mut(%d)", self.g)
        self.end.append('eq("what is seen afterwards", ids(&d), ids(&w))?;')

    def owned(self, B, p):
        rng, T = self.rng, self.ty
        k, k2 = rng.randrange(7), rng.randrange(7)
        self.n = 0
        vn = self.vn.expr
        new = "%s::<%s>::new(<%s as El>::el(%%d))%s" % (B, self.v0.expr, T, ups(self.chain))
        self.pre = ["let mut x: %s = El::el(%d);" % (T, k), "let y: %s = El::el(%d);" % (T, k2), "let mut a: %s<%s> = %s;" % (B, vn, new % k), "let b: %s<%s> = %s;" % (B, vn, new % k2)]
        self.body = self.refs(p, self.g, "a", "x", "b", "y")
        if "Clone" in self.g:
            self.body.append("%s_clone(&a, &x)?;" % p)
        c = self.w.chain(rng, self.vn)
        self.body += self.some(self.refs("r", c[-1].gives, "a.as_ref()" + ups(c), "x", "b.as_ref()" + ups(c), "y"), 3)
        c = self.w.chain(rng, self.vn)
        self.body += self.some(self.refs("x", c[-1].gives - {"PartialEq"}, "a.as_mut()" + ups(c), "x", "", ""), 2)
        if "Clone" in c[-1].gives:
            self.body.append("x_clone_from(a.as_mut()%s, b.as_ref()%s, &mut x, &y)?;" % (ups(c), ups(c)))
        c = self.w.chain(rng, self.vn)
        self.end = ["let a = a%s;" % ups(c), "%s_%s(a, x)?;" % (p, rng.choice(["drop", "down"])), "%s_%s(b, y)?;" % (p, rng.choice(["drop", "down"]))]

    def make_BoxValue(self):
        self.owned("BoxValue", "b")

    def make_SmallValue(self):
        self.owned("SmallValue", "a")

    def make_ValueRef(self):
        rng, T = self.rng, self.ty
        k, k2 = rng.randrange(7), rng.randrange(7)
        self.pre = ["let x: %s = El::el(%d);" % (T, k), "let y: %s = El::el(%d);" % (T, k2)]
        e = "ValueRef::<%s>::new(&%%s)%s" % (self.v0.expr, ups(self.chain))
        self.body = self.refs("r", self.g, e % "x", "x", e % "y", "y")
        self.body.append('eq("value", (%s).downcast::<%s>().ok_or("the type is lost")?.id(), x.id())?;' % (e % "x", T))
        if len(self.chain) > 1:
            u = self.chain[1]
            self.body += ["{ let a = ValueRef::<%s>::new(&x); let a = a.upcast_ref::<%s>(); let b = ValueRef::<%s>::new(&y); %s }" % (self.v0.expr, u.expr, u.expr, s) for s in self.refs("r", u.gives, "a", "x", "b", "y")]

    def make_ValueMut(self):
        rng, T = self.rng, self.ty
        k, k2 = rng.randrange(7), rng.randrange(7)
        self.pre = ["let mut x: %s = El::el(%d);" % (T, k), "let mut y: %s = El::el(%d);" % (T, k2), "let mut d: %s = El::el(%d);" % (T, k), "let mut d2: %s = El::el(%d);" % (T, k2)]
        e = "ValueMut::<%s>::new(&mut %%s)%s" % (self.v0.expr, ups(self.chain))
        self.body = self.refs("x", self.g, e % "d", "x", e % "d2", "y")
        if len(self.chain) > 1:
            u = self.chain[1]
            self.body += ["{ let mut a = ValueMut::<%s>::new(&mut d); let a = a.upcast_mut::<%s>(); let b = ValueMut::<%s>::new(&mut d2); %s }" % (self.v0.expr, u.expr, u.expr, s) for s in self.refs("x", u.gives, "a", "x", "b", "y")]
        self.body.append("{ let mut a = %s; let mut b = %s; a.swap(&mut b); } std::mem::swap(&mut x, &mut y);" % (e % "d", e % "d2"))
        self.body.append('eq("swapped", (d.id(), d2.id()), (x.id(), y.id()))?;')
        if "Clone" in self.g:
            self.body.append("x_clone_from(%s, ValueRef::<%s>::new(&d2), &mut x, &y)?;" % (e % "d", self.vn.expr))
        self.end.append('eq("what is seen afterwards", d.downcast_id(), x.id())?;'.replace("d.downcast_id()", "d.id()"))

    def plain_values(self, get, get_mut):
        self.values(get, get_mut, self.g, copy=True)
        if self.n and "(" not in self.vn.expr:
            i, j = self.index(), self.index()
            V = "ValueRef::<(DropFn, %s)>::from(%s)" % (self.vn.expr, get)
            self.body += self.some(self.refs("r", self.g, V % i, "w[%d]" % i, V % j, "w[%d]" % j), 2)

    def plain_slices(self, s, m):
        rng = self.rng
        c = self.w.chain(rng, self.vn)
        g, u = c[-1].gives, ups(c)
        out = ['eq("contents of a view", ids(%s%s.as_slice::<%s>().ok_or("the type is lost")?), ids(&w))?;' % (s, u, self.ty)]
        if "Hash" in g:
            out.append("for i in 0..w.len() { c_hash(&%s%s.get(i), &w[i])?; }" % (s, u))
        if "Debug" in g:
            out.append("for i in 0..w.len() { c_fmt(&%s%s.get(i), &w[i])?; }" % (s, u))
        if "PartialEq" in g:
            out.append("for i in 0..w.len() { c_eq(&%s%s.get(i), &w[i], &%s%s.get(0), &w[0])?; }" % (s, u, s, u))
        if m and self.n > 1:
            i, j = rng.sample(range(self.n), 2)
            out.append("{ let mut m = %s%s; m.swap(%d, %d); } w.swap(%d, %d);" % (m, u, i, j, i, j))
            if "Hash" in g:
                out.append("{ let mut m = %s%s; d_hash(&m.get_mut(%d), &w[%d])?; }" % (m, u, i, i))
        if c[-1].hides and rng.random() < 0.6:
            h = rng.choice(c[-1].hides)
            k, e = ("SliceCopy", s) if not m or rng.random() < 0.5 else ("SliceCopyMut", m)
            st = []
            for b, t in (("Hash", "c_hash(&h.get(i), &w[i])?;"), ("Debug", "c_fmt(&h.get(i), &w[i])?;"), ("PartialEq", "c_eq(&h.get(i), &w[i], &h.get(0), &w[0])?;")):
                if b in h.gives():
                    st.append("for i in 0..w.len() { %s }" % t)
            out.append('{ let mut h = into_dyn![%s<dyn Has%s>](%s%s); %s let mut s = from_dyn![%s<dyn Has%s as %s>](h); eq("restored view", ids(s.as_slice::<%s>().ok_or("the type is lost")?), ids(&w))?; }' % (
                k, h.name, e, u, " ".join(st), k, h.name, c[-1].expr, self.ty))
        self.body += self.some(out, 5)

    def make_VecCopy(self):
        rng, T = self.rng, self.ty
        K = keys(rng)
        self.n = len(K)
        self.pre = ["let mut w: Vec<%s> = els(&%s);" % (T, K), "let mut v: VecCopy<%s> = VecCopy::<%s>::from_vec(els::<%s>(&%s))%s;" % (self.vn.expr, self.v0.expr, T, K, ups(self.chain))]
        self.plain_values("v.get_ref(%d)", "v.get_mut(%d)")
        self.plain_slices("v.as_slice()", "v.as_mut_slice()")
        same = 'eq("contents", ids(v.as_slice_as::<%s>().ok_or("the type is lost")?), ids(&w))?;' % T
        if self.vn.hides and rng.random() < 0.6:
            h = rng.choice(self.vn.hides)
            st = self.refs("c", h.gives() - {"Clone"}, "h.get_ref(0)", "w[0]", "h.get_ref(%d)" % (self.n - 1), "w[%d]" % (self.n - 1)) if self.n else []
            self.end.append("let v = { let h = into_dyn![VecCopy<dyn Has%s>](v); %s from_dyn![VecCopy<dyn Has%s as %s>](h) };" % (h.name, " ".join(st), h.name, self.vn.expr))
        self.end += ["let v = v%s;" % ups(self.w.chain(rng, self.vn)), same]

    def make_SliceCopy(self):
        self.typed()
        e = "SliceCopy::<%s>::from_slice(&d)%s" % (self.v0.expr, ups(self.chain))
        self.pre.append("let v: SliceCopy<%s> = %s;" % (self.vn.expr, e))
        self.plain_values("v.get(%d)", None)
        self.plain_slices(e, None)

    def make_SliceCopyMut(self):
        self.typed()
        e = "SliceCopyMut::<%s>::from_slice(&mut d)%s" % (self.v0.expr, ups(self.chain))
        self.pre.append("let mut v: SliceCopyMut<%s> = %s;" % (self.vn.expr, e))
        self.plain_values("v.get(%d)", "v.get_mut(%d)")
        self.plain_slices("v.reborrow()", "v.reborrow_mut()")
        self.end.append('eq("what is seen afterwards", ids(&d), ids(&w))?;')

    def make_CopyRef(self):
        rng, T = self.rng, self.ty
        k, k2 = rng.randrange(7), rng.randrange(7)
        self.pre = ["let x: %s = El::el(%d);" % (T, k), "let y: %s = El::el(%d);" % (T, k2)]
        e = "CopyValueRef::<%s>::new(&%%s)%s" % (self.v0.expr, ups(self.chain))
        self.body = self.refs("c", self.g, e % "x", "x", e % "y", "y")
        self.body.append('eq("value", (%s).downcast::<%s>().ok_or("the type is lost")?.id(), x.id())?;' % (e % "x", T))
        if "(" not in self.vn.expr:
            e = "ValueRef::<(DropFn, %s)>::from(%s)" % (self.vn.expr, e)
            self.body += self.refs("r", self.g, e % "x", "x", e % "y", "y")

    def make_CopyMut(self):
        rng, T = self.rng, self.ty
        self.chain = self.chain[:2]
        self.vn = self.chain[-1]
        self.g = self.vn.gives
        k, k2 = rng.randrange(7), rng.randrange(7)
        self.pre = ["let mut x: %s = El::el(%d);" % (T, k), "let mut y: %s = El::el(%d);" % (T, k2), "let mut d = x; let mut d2 = y;",
                    "let mut a0 = CopyValueMut::<%s>::new(&mut d); let mut b0 = CopyValueMut::<%s>::new(&mut d2);" % (self.v0.expr, self.v0.expr)]
        if len(self.chain) > 1:
            self.pre.append("let mut a = a0%s; let mut b = b0%s;" % (ups(self.chain), ups(self.chain)))
        else:
            self.pre.append("let mut a = a0; let mut b = b0;")
        self.body = self.refs("d", self.g, "a", "x", "b", "y")
        self.body.append("a.swap(&mut b); std::mem::swap(&mut x, &mut y);")
        self.body += self.some(self.refs("d", self.g, "a", "x", "b", "y"), 1)
        self.end.append('drop((a, b)); eq("what is seen afterwards", (d.id(), d2.id()), (x.id(), y.id()))?;')


def make(seed, k, per):
    """A world and its programs."""
    rng = random.Random(seed * 1000039 + k)
    w = World(rng)
    out = []
    for _ in range(per * 3):
        p = Gen(rng, w)
        if p.ok:
            out.append(p)
        if len(out) == per:
            break
    return w, out


def without(text, name):
    """Declarations without one of the traits."""
    ls = [l for l in text.splitlines(True) if not re.search(r"\btrait %s\b|> %s for T\b" % (name, name), l)]
    out = "".join(ls)
    for p in (r"\b%s \+ " % name, r" \+ %s\b(?! for)" % name, r": %s\b(?=[ {>])" % name):
        out = re.sub(p, "", out)
    return out


def smaller_traits(chunks, holds):
    """Drop traits, then single bounds, as long as it holds."""
    progress = True
    while progress:
        progress = False
        for i, c in enumerate(chunks):
            names = re.findall(r"\btrait (\w+)", c)
            tries = [without(c, n) for n in names] if len(names) > 1 else []
            for m in re.finditer(r"\btrait \w+: ([^{]*?) ?\{", c):
                bs = m.group(1).split(" + ")
                for b in bs if len(bs) > 1 else []:
                    tries.append(c.replace(m.group(1), " + ".join(x for x in bs if x != b)))
            for t in tries:
                if t != c and holds(chunks[:i] + [t] + chunks[i + 1:]):
                    chunks[i] = t
                    progress = True
                    break
            if progress:
                break


class Check:
    prop = PROP

    def run(self, tier):
        tmp = common.Tmp()
        try:
            return self.go(tier, tmp)
        finally:
            tmp.close()

    def go(self, tier, tmp):
        lib = progs.Lib()
        nw, per = SIZES[tier if tier in SIZES else "thorough"]
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "worlds": 0, "traits_declared": 0, "by_kind": {}, "by_element": {}, "conversions": {}, "behaviours": {}}
        seen = set()

        def done(rc=0):
            cov["distinct_nontrivial"] = len(seen)
            common.write_evidence(PROP, tier, cov, common.COMMON_ASSUMPTIONS[:1] + [
                "The typed elements' own clone, comparison, hash, print and drop are the reference.",
                "Only the spellings of super-traits that the README documents; no generic traits, no where clauses."], 1 if rc else 0)
            return rc

        seed = common.seed()

        def world(k):
            w, ps = make(seed, k, per)
            prelude = PRELUDE + "".join(w.chunks)
            try:
                return k, w, ps, progs.run_all(lib, {"p%d" % i: p.text() for i, p in enumerate(ps)}, tmp, "w%d" % k, prelude, 10 ** 6)
            except progs.PreludeError as e:
                return k, w, ps, e

        with cf.ThreadPoolExecutor(common.CORES) as ex:
            for at in range(0, nw, 4 * common.CORES):
                for k, w, ps, r in list(ex.map(world, range(at, min(nw, at + 4 * common.CORES)))):
                    cov["worlds"] += 1
                    cov["traits_declared"] += len([t for t in w.tables if t.has])
                    if isinstance(r, progs.PreludeError):
                        rc = self.declaration(lib, w, tmp, r)
                        return done(rc)
                    for i, p in enumerate(ps):
                        cov["evaluations"] += 1
                        if r["p%d" % i]:
                            return done(self.failed(lib, w, p, tmp, r["p%d" % i]))
                        if p.nontrivial():
                            seen.add(hash((p.text(), k)))
                        for m, x in (("by_kind", p.kind), ("by_element", p.ty), ("conversions", len(p.chain) - 1)):
                            cov[m][str(x)] = cov[m].get(str(x), 0) + 1
                        for b in p.g:
                            cov["behaviours"][b] = cov["behaviours"].get(b, 0) + 1
                    if len(cov["samples"]) < 6:
                        cov["samples"].append({"world": "".join(w.chunks), "program": ps[0].text()})
                    for n in os.listdir(tmp.d):
                        if "w%d" % k in n:
                            os.unlink(os.path.join(tmp.d, n))
        print("%s: held for %d programs (%d distinct non-trivial) in %d worlds with %d declared traits" % (PROP, cov["evaluations"], len(seen), cov["worlds"], cov["traits_declared"]))
        return done()

    def declaration(self, lib, w, tmp, err):
        """The smallest part of a world that does not compile."""
        def errors(chunks):
            return negs.compile_one(lib, progs.PRELUDE + PRELUDE + "".join(chunks) + "fn main() {}\n", tmp, "d")
        chunks = list(w.chunks)
        first = errors(chunks)
        if not first:
            raise common.CheckError("declarations that failed among others compile alone: " + str(err))
        if errors([]):
            raise common.CheckError("what comes before the declarations does not compile: %s" % errors([])[:3])

        def holds(c):
            e = errors(c)
            return bool(e) and {x[0] for x in e} <= {x[0] for x in first} and not any(x[0] in ("E0412", "E0405", "E0433", "E0432") and x not in first for x in e)
        i = 0
        while i < len(chunks):
            c = chunks[:i] + chunks[i + 1:]
            if holds(c):
                chunks = c
            else:
                i += 1
        smaller_traits(chunks, holds)
        e = errors(chunks)
        text = "".join(chunks)
        return common.violation(PROP, {"kind": "program", "expect": "accepted", "source": progs.PRELUDE + PRELUDE + text + "fn main() {}\n", "features": None,
                                       "errors": ["%s %s" % x for x in e]}, "the declaration does not compile: %s\n%s" % ("; ".join("%s %s" % x for x in e)[:600], text))

    def failed(self, lib, w, p, tmp, what):
        def source(body, chunks):
            return progs.run_source_of({"p0": p.text(body)}, PRELUDE + "".join(chunks))

        def holds(body, chunks):
            r = progs.run_source(lib, source(body, chunks), tmp, "f")
            if not r or r[0] != what[0]:
                return None
            if r[0] == "does not compile" and any(x in r[1] for x in ("E0412", "E0405", "E0425", "E0433", "E0432", "E0282", "E0283")) and r[1] != what[1]:
                return None
            return r
        body, chunks = list(p.body), list(w.chunks)
        r = holds(body, chunks)
        if not r:
            raise common.CheckError("a program that failed among others (%s: %s) does not alone:\n%s" % (what[0], what[1], p.text()))
        for xs, f in ((body, lambda y: holds(y, chunks)), (chunks, lambda y: holds(body, y))):
            i = 0
            while i < len(xs):
                y = xs[:i] + xs[i + 1:]
                s = f(y)
                if s:
                    xs[:] = y
                    r = s
                else:
                    i += 1
        smaller_traits(chunks, lambda c: holds(body, c))
        r = holds(body, chunks) or r
        return common.violation(PROP, {"kind": "program-run", "source": source(body, chunks)}, "%s: %s\n%s%s" % (r[0], r[1], "".join(chunks), p.text(body)))

    def replay(self, d):
        return negs.replay(d)
