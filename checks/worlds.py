"""Generated element types, traits and tables, with what each of them can do."""

STD = ("Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync")
PATH = {"Hash": "std::hash::Hash", "Debug": "std::fmt::Debug"}
ALL = frozenset(STD) | {"Copy"}


def close(ab):
    """With what the abilities imply."""
    ab = set(ab)
    if "Eq" in ab:
        ab.add("PartialEq")
    if "Copy" in ab:
        ab.add("Clone")
    return frozenset(ab)


class Ty:
    """A type: its name, its abilities, and whether it owns all it has."""

    def __init__(self, expr, ab, static=True, rank=0):
        self.expr, self.ab, self.static, self.rank = expr, frozenset(ab), static, rank

    def __repr__(self):
        return "%s%s" % (self.expr, sorted(ALL - self.ab))


def base_types():
    t = []

    def add(expr, lacks=(), static=True):
        t.append(Ty(expr, ALL - set(lacks), static))
    for e in ("u64", "u8", "char", "()", "usize", "bool", "&'static str", "fn(u8) -> u8", "std::sync::atomic::Ordering", "[u16; 3]", "std::num::NonZeroU32"):
        add(e)
    add("std::sync::atomic::Ordering")
    add("f32", ("Eq", "Hash"))
    add("f64", ("Eq", "Hash"))
    add("String", ("Copy",))
    add("Vec<u8>", ("Copy",))
    add("Box<u8>", ("Copy",))
    add("std::sync::Arc<u8>", ("Copy",))
    add("std::rc::Rc<u8>", ("Copy", "Send", "Sync"))
    add("std::rc::Weak<u8>", ("Copy", "Send", "Sync", "PartialEq", "Eq", "Hash"))
    add("std::cell::Cell<u8>", ("Copy", "Hash", "Sync"))
    add("std::cell::RefCell<u8>", ("Copy", "Hash", "Sync"))
    add("std::cell::OnceCell<u8>", ("Copy", "Hash", "Sync"))
    add("*const u8", ("Send", "Sync"))
    add("std::ptr::NonNull<u8>", ("Send", "Sync"))
    add("std::sync::Mutex<u8>", ("Copy", "Clone", "PartialEq", "Eq", "Hash"))
    add("std::sync::MutexGuard<'static, u8>", ("Copy", "Clone", "PartialEq", "Eq", "Hash", "Send"))
    add("&'static mut u8", ("Copy", "Clone"))
    add("&'static std::cell::Cell<u8>", ("Hash", "Send", "Sync"))
    add("&'static mut std::cell::Cell<u8>", ("Copy", "Clone", "Hash", "Sync"))
    add("Box<dyn Fn()>", ALL)
    add("Box<dyn Fn() + Send>", ALL - {"Send"})
    add("Box<dyn Fn() + Send + Sync>", ALL - {"Send", "Sync"})
    add("std::rc::Rc<dyn std::any::Any>", ALL - {"Clone", "Debug"})
    add("std::sync::atomic::AtomicU8", ("Copy", "Clone", "PartialEq", "Eq", "Hash"))
    add("std::marker::PhantomData<*const u8>", ("Send", "Sync"))
    add("std::sync::mpsc::Receiver<u8>", ("Copy", "Clone", "PartialEq", "Eq", "Hash", "Sync"))
    add("std::cell::UnsafeCell<u8>", ("Copy", "Clone", "PartialEq", "Eq", "Hash", "Sync"))
    add("std::mem::MaybeUninit<u8>", ("PartialEq", "Eq", "Hash"))
    add("std::ops::Range<u8>", ("Copy",))
    return t


def wrap(rng, x, y):
    """A type built from others."""
    a = x.ab
    k = rng.randrange(15)
    one = x.static
    if k == 0:
        return Ty("Option<%s>" % x.expr, a, one)
    if k == 1:
        return Ty("(%s, %s)" % (x.expr, y.expr), a & y.ab, one and y.static)
    if k == 2:
        return Ty("[%s; 2]" % x.expr, a, one)
    if k == 3:
        return Ty("Vec<%s>" % x.expr, a - {"Copy"}, one)
    if k == 4:
        return Ty("Box<%s>" % x.expr, a - {"Copy"}, one)
    if k == 5:
        return Ty("std::rc::Rc<%s>" % x.expr, (a - {"Copy", "Send", "Sync"}) | {"Clone"}, one)
    if k == 6:
        b = set(a - {"Copy"}) | {"Clone"}
        if not {"Send", "Sync"} <= a:
            b -= {"Send", "Sync"}
        return Ty("std::sync::Arc<%s>" % x.expr, b, one)
    if k == 7 and one:
        b = set(a) | {"Clone", "Copy"}
        b = (b - {"Send"}) | ({"Send"} if "Sync" in a else set())
        return Ty("&'static %s" % x.expr, b)
    if k == 8 and one:
        return Ty("&'static mut %s" % x.expr, a - {"Clone", "Copy"})
    if k == 9:
        b = set(a) - {"Copy", "Hash", "Sync"}
        if "Copy" not in a:
            b -= {"Clone", "PartialEq", "Eq", "Debug"}
        return Ty("std::cell::Cell<%s>" % x.expr, b, one)
    if k == 10:
        return Ty("std::marker::PhantomData<%s>" % x.expr, (a & {"Send", "Sync"}) | (ALL - {"Send", "Sync"}), one)
    if k == 11:
        b = set()
        if "Debug" in a:
            b.add("Debug")
        if "Send" in a:
            b |= {"Send", "Sync"}
        return Ty("std::sync::Mutex<%s>" % x.expr, b, one)
    if k == 12:
        return Ty("*const %s" % x.expr, ALL - {"Send", "Sync"}, one)
    if k == 13:
        b = set(a & {"Send", "Sync"}) | {"Debug"}
        if "Copy" in a:
            b |= {"Copy", "Clone"}
        return Ty("std::mem::MaybeUninit<%s>" % x.expr, b, one)
    return Ty("std::num::Wrapping<u8>", ALL)


def subset(rng, xs, p=0.5):
    return {x for x in sorted(xs) if rng.random() < p}


def struct(rng, name, pool):
    """A struct or an enum of its own, and its source."""
    fields = [rng.choice(pool) for _ in range(rng.choice((0, 1, 1, 1, 2, 2, 3)))]
    fields = [f for f in fields if f.static]
    inter = set(ALL)
    for f in fields:
        inter &= f.ab
    generic = rng.random() < 0.2 and fields
    der = subset(rng, [x for x in inter if x not in ("Send", "Sync", "Copy")], 0.7)
    if "Eq" in der:
        der.add("PartialEq")
        if "PartialEq" not in inter:
            der.discard("Eq")
            der.discard("PartialEq")
    hand = subset(rng, [x for x in ("Clone", "PartialEq", "Hash", "Debug") if x not in der], 0.25)
    droppy = rng.random() < 0.2
    if "Copy" in inter and "Clone" in der and not droppy and rng.random() < 0.6:
        der.add("Copy")
    if "Eq" not in der and "PartialEq" in (der | hand) and rng.random() < 0.3:
        hand.add("Eq")
    auto = inter & {"Send", "Sync"}
    forced = subset(rng, [x for x in ("Send", "Sync") if x not in auto], 0.2) if not generic else set()
    g, ga, gb = ("<X>", "<X>", "<%s>" % fields[0].expr) if generic else ("", "", "")
    tys = [("X" if generic and i == 0 else f.expr) for i, f in enumerate(fields)]
    src = ""
    d = [PATH.get(x, x) if x in ("Hash", "Debug") else x for x in sorted(der)]
    rng.shuffle(d)
    if d:
        src += "#[derive(%s)]\n" % ", ".join(x.split("::")[-1] if x == "std::fmt::Debug" else x.split("::")[-1] for x in d)
    if rng.random() < 0.25 and not generic:
        src += "pub enum %s { %s, Z }\n" % (name, ", ".join("F%d(%s)" % (i, t) for i, t in enumerate(tys)) if tys else "A")
    else:
        src += "pub struct %s%s(%s);\n" % (name, g, ", ".join("pub " + t for t in tys))
    for h in sorted(hand):
        src += {"Clone": "impl%s Clone for %s%s { fn clone(&self) -> Self { loop {} } }\n",
                "PartialEq": "impl%s PartialEq for %s%s { fn eq(&self, _: &Self) -> bool { true } }\n",
                "Eq": "impl%s Eq for %s%s {}\n",
                "Hash": "impl%s std::hash::Hash for %s%s { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }\n",
                "Debug": "impl%s std::fmt::Debug for %s%s { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }\n"}[h] % (g, name, ga)
    if "Eq" in hand and generic:
        # Equality of the derived kind needs more than this promises.
        if "PartialEq" in der:
            src = src.replace("impl<X> Eq for %s<X> {}" % name, "impl<X: PartialEq> Eq for %s<X> {}" % name)
    for f in sorted(forced):
        src += "unsafe impl%s %s for %s%s {}\n" % (g, f, name, ga)
    if droppy:
        src += "impl%s Drop for %s%s { fn drop(&mut self) {} }\n" % (g, name, ga)
    return src, Ty(name + gb, close(der | hand | auto | forced), True)


class Tab:
    """A table: what it asks of a type, what it gives, and the tables it can turn into."""

    def __init__(self, expr, gives, anc, asks=None, has=None, blanket=True, plain=False):
        self.expr, self.gives, self.anc = expr, frozenset(gives), set(anc)
        self.asks = frozenset(gives if asks is None else asks)
        self.has = has          # the trait its instances have, for hiding it
        self.blanket = blanket  # all types that can be stored implement it
        self.plain = plain      # only for plain data
        self.members = set()    # the types that implement it, otherwise

    def takes(self, ty):
        if not ty.static:
            return False
        if self.blanket:
            return self.asks <= ty.ab
        return ty.expr in self.members

    def __repr__(self):
        return self.expr


def builtin_tables():
    out = [Tab("DropVTable", (), {"DropVTable"})]
    for s in STD:
        out.append(Tab(s + "VTable", close({s}), {s + "VTable"}))
    for s in STD:
        out.append(Tab("(DropFn, %sVTable)" % s, close({s}), {"(DropFn, %sVTable)" % s}))
    out.append(Tab("(DropFn, ())", (), {"(DropFn, ())"}, asks={"Copy"}))
    out.append(Tab("()", (), {"()"}, asks={"Copy"}, plain=True))
    return out


NAMES = ["Ab", "Zed", "Mid", "Kin", "Obj", "Thing", "Aa", "Big", "Zz", "Node", "Val", "Data", "Cell2", "DropLike", "CloneIt", "EqLike", "Xs", "Quux", "Tee", "Upper"]


class Trait:
    """A declared trait: its own super-traits and its parents."""

    def __init__(self, name, std, parents):
        self.name, self.std, self.parents = name, std, parents

    def ancestors(self):
        out = {}
        for p in self.parents:
            out[p.name] = p
            out.update(p.ancestors())
        return out

    def gives(self):
        g = set(self.std)
        for p in self.parents:
            g |= p.gives()
        return close(g)

    def bounds(self, rng):
        b = [PATH.get(s, s) for s in self.std] + [p.name for p in self.parents]
        rng.shuffle(b)
        if rng.random() < 0.15:
            b.insert(rng.randrange(len(b) + 1), "'static")
        return b


def trait_source(rng, t, attr, vis="pub ", members=None, body=None):
    b = t.bounds(rng)
    src = attr
    src += "%strait %s%s { %s }\n" % (vis, t.name, (": " + " + ".join(b)) if b else "", body or "")
    if members is None:
        w = [x for x in b]
        src += "impl<T> %s for T%s {}\n" % (t.name, (" where T: " + " + ".join(w)) if w else "")
    else:
        for m in members:
            src += "impl %s for %s {}\n" % (t.name, m)
    return src


def table_of(t, blanket=True):
    anc = {t.name + "VTable", "DropVTable"} | {a + "VTable" for a in t.ancestors()} | {s + "VTable" for s in t.gives()}
    return Tab(t.name + "VTable", t.gives(), anc, has="Has" + t.name, blanket=blanket)


def hierarchy(rng, names, n, std_p=0.3):
    """Traits in an order in which parents come first."""
    ts = []
    deep = rng.random() < 0.3
    for i in range(n):
        std = subset(rng, STD, std_p)
        if deep:
            parents = ts[-1:]
        else:
            parents = [p for p in ts if rng.random() < 0.45]
        ts.append(Trait(names.pop(), sorted(std), parents))
    return ts


class World:
    """Types and tables with their source."""

    def __init__(self, rng, tag, types=10, traits=5, modules=1, crate="dync"):
        self.types = base_types()
        self.chunks = []    # pieces of source
        base = list(self.types)
        for _ in range(12):
            self.types.append(wrap(rng, rng.choice(base), rng.choice(base)))
        mine = []
        for i in range(types):
            s, t = struct(rng, "E%s_%d" % (tag, i), self.types)
            self.chunks.append(s)
            mine.append(t)
            self.types.append(t)
        for _ in range(6):
            self.types.append(wrap(rng, rng.choice(mine), rng.choice(base)))
        # Borrowing types: what they borrow may end.
        self.chunks.append("#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]\npub struct L%s<'x>(pub &'x u8);\n" % tag)
        self.types.append(Ty("L%s<'a>" % tag, ALL, False))
        self.types.append(Ty("&'a u8", ALL, False))
        self.types.append(Ty("&'a mut u8", ALL - {"Copy", "Clone"}, False))
        self.types.append(Ty("std::borrow::Cow<'a, str>", ALL - {"Copy"}, False))
        self.tables = builtin_tables()
        names = list(NAMES)
        rng.shuffle(names)
        names = [n + tag.replace("_", "") for n in names]
        for i in range(traits):
            t = Trait(names.pop(), sorted(close(subset(rng, STD, rng.choice((0.2, 0.4, 0.7))))), [])
            blanket = rng.random() < 0.7
            tab = table_of(t, blanket)
            ms = None
            if not blanket:
                ms = [m.expr for m in mine if t.gives() <= m.ab and rng.random() < 0.5 and "<" not in m.expr]
                tab.members = set(ms)
            self.chunks.append(trait_source(rng, t, '#[dync_trait(dync_crate_name = "%s")]\n' % crate, members=ms))
            self.tables.append(tab)
        for k in range(modules):
            ts = hierarchy(rng, names, rng.randint(2, 4))
            order = list(ts)
            rng.shuffle(order)
            m = '#[dync_mod(dync_crate_name = "%s")]\npub mod m%s_%d {\nuse super::*;\n' % (crate, tag, k)
            for t in order:
                m += trait_source(rng, t, "")
            self.chunks.append(m + "}\npub use m%s_%d::*;\n" % (tag, k))
            for t in ts:
                self.tables.append(table_of(t))

    @property
    def src(self):
        return "".join(self.chunks)
