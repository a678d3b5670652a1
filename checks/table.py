"""The checks of all properties."""
import c12
import c13
import c17
import c18
import c19
import c20
import c21
import common


class Harness:
    def __init__(self, prop, binname, rule, quick, thorough, profiles=("chk", "release"), assumptions=()):
        self.__dict__.update(locals())

    def run(self, tier, extra=None):
        return common.harness_check(self.prop, tier, self.binname, self.rule, self.quick, self.thorough, self.profiles, self.assumptions, extra=extra)


CHECKS = {}
TECH = {}


def add(c, technique, note):
    CHECKS[c.prop] = c
    TECH[c.prop] = (technique, note)


HIST = ("Non-trivial: at least four operations, with a vector of at least two elements at some point; distinct by the "
        "choices made.")

add(Harness("C02", "c02",
    "A case is a history of up to 40 operations on three vectors of a generated element type, one vector of a "
    "same-layout other type and a pool of values, checked against plain vectors after every operation.  " + HIST,
    40000, 2000000),
    "stateful model-based property testing against plain vectors",
    "Random histories of the whole safe vector interface over 18 element types in builds with and without debug assertions; not exhaustive.")

add(Harness("C03", "c03",
    "A case is a history of up to 40 operations on three plain-data vectors of a generated element type (bare or with a "
    "table) and one of a same-layout other type, checked against plain vectors after every operation.  " + HIST,
    60000, 3000000),
    "stateful model-based property testing against plain vectors",
    "Random histories of the whole safe plain-data vector interface over 22 element types in builds with and without debug assertions; not exhaustive.")

add(Harness("C05", "c05",
    "A case is a history of vector operations (one in ten with panics in element code), of value operations, or of ownership operations under one of the "
    "built-in tables, with elements counted in a registry that notices every double drop, use after drop, lost element "
    "and late drop; the number of live elements is compared with the model after every operation.  Non-trivial: at "
    "least four operations (vectors: with at least two elements at some point); distinct by the choices made.",
    60000, 3000000),
    "stateful model-based property testing with an ownership registry",
    "Random histories over 10 tracked element types, single-threaded, under five kinds of table; not exhaustive.")

add(Harness("C06", "c06",
    "A case is a history of operations on vectors or values of a generated element type (sizes 1 to 64 KiB, alignments "
    "1 to 64 KiB) under an allocator that places guard zones around each block, poisons released blocks and compares "
    "the size and alignment of each release with its request.  Non-trivial: at least four operations; distinct by the "
    "choices made.",
    25000, 1200000),
    "stateful property testing under a checking allocator",
    "Every block allocated in a case is checked at its release and at the end of the case; wild writes far from any block are not noticed. Miri (C19) covers those.")

add(Harness("C10", "c10",
    "A case clones untyped vectors or values of a generated element type by a generated route, then changes or destroys "
    "either side and compares both with their models; or is a history of vector or value operations rich in clones.  "
    "Non-trivial: something was cloned; distinct by the choices made.",
    60000, 3000000),
    "property testing against a reference model, with registry-tracked elements",
    "Random elements, routes and later changes; not exhaustive.")

add(Harness("C11", "c11",
    "A case is a history of operations on a pool of places holding values (boxed, word-sized, shared, mutable, plain "
    "references, elements of vectors) checked against the typed values they stand for after every operation.  "
    "Non-trivial: at least four operations; distinct by the choices made.",
    100000, 5000000),
    "stateful model-based property testing",
    "Random histories over 20 element types for owning tables and 14 for plain data; not exhaustive.")

add(Harness("C14", "c14",
    "A case is a history of operations, in some of which a generated call of user code (clone, drop, comparison, hash, "
    "formatting, user-supplied iterators) panics; after each caught panic every container is inspected against what the operation may have "
    "done.  Non-trivial: a panic was injected and caught; distinct by the choices made.",
    60000, 3000000),
    "stateful property testing with injected panics",
    "The panicking call is chosen at random among the first calls of each operation; elements may be leaked by a panic (the statement allows it) but never dropped twice.")

add(Harness("C15", "c15",
    "A case builds vectors with room or from the type information of other containers and compares reports, addresses "
    "and contents with a model, asks for more room than there can be, or is a history of operations rich in reserves.  "
    "Non-trivial: something was stored; distinct by the choices made.",
    40000, 2000000),
    "property testing against a reference model",
    "Random capacities, contents and chains of type information over 16 element types; not exhaustive.")

add(Harness("C01", "c01",
    "A case is a typed sequence of a generated element type that goes through a chain of one to six generated erasing, "
    "converting and recovering routes; the sequence is compared after every route.  Non-trivial: the sequence is not "
    "empty; distinct by the choices made.",
    50000, 3000000),
    "property testing of round trips over generated chains of routes",
    "Random element types (18 owning, 22 plain), contents and chains of routes in builds with and without debug assertions; not exhaustive.")

add(Harness("C07", "c07",
    "A case is a slice of a generated element type (erased in a generated way) and a walk of nested views and changes "
    "in step with the same walk over the native slice; all of the data is compared after each change, including the data "
    "outside the view.  Non-trivial: the first view has at least two elements; distinct by the choices made.",
    100000, 6000000),
    "differential property testing against native slices",
    "Random walks over views, nested at most six deep, of slices of at most some dozens of elements; not exhaustive.")

add(Harness("C08", "c08",
    "A case is a vector or slice of a generated element type and some generated accesses by index, range, split point, "
    "rotation, chunk size or length, at and beyond the bounds, near overflow and near the largest integer; each must be rejected "
    "or accepted as the native slice does, and the container is compared with its model after each.  Non-trivial: something was rejected; "
    "distinct by the choices made.",
    80000, 5000000),
    "differential property testing against native slices with boundary-biased positions",
    "Random positions biased to boundaries in builds with and without debug assertions; not exhaustive.")

add(Harness("C09", "c09",
    "A case compares, hashes and formats generated contents in untyped containers and values of every kind against the "
    "same operations on the typed ones, for pairs of contents that are equal, prefixes of each other or different in one place, "
    "under generated formatter options and hashers.  Non-trivial: contents are not empty; distinct by the choices made.",
    80000, 5000000),
    "differential property testing against the typed implementations",
    "Random pairs of contents of element types with total, partial, inconsistent and never-true equality; not exhaustive.")

add(c13.Check(Harness("C13", "c13", c13.RULE, 100000, 6000000)),
    "stateful model-based property testing of conversions there and back, and property-based generation of programs judged by the compiler",
    "Random contents and uses for 18 owning and 22 plain element types, and random hierarchies of declared tables; not exhaustive.")

add(Harness("C04", "c04",
    "A case makes a container, slice, store or value with one of 54 types (in a generated state, also hidden or upcast) and attempts to use "
    "it as the same or another type of the list, mostly of the same layout, in generated ways; each attempt must be "
    "granted or refused according to the identity of the types alone, and the data, the partners and the live elements "
    "are compared with the model after each.  Non-trivial: the types differ; distinct by the choices made.",
    120000, 8000000),
    "property testing over pairs of types, states and typed accesses",
    "All ordered pairs of 54 types (33 plain) in groups of equal layout are reachable; which are visited is random.")

add(Harness("C16", "c16",
    "A case casts, displays or dispatches on a vector of generated numbers (biased to the bounds of all types, their neighbours, "
    "fractions, infinities and not-a-number) and compares with exact arithmetic written independently of the casting library.  "
    "Non-trivial: the vector is not empty; distinct by the choices made.",
    150000, 10000000),
    "differential property testing against exact arithmetic",
    "All pairs of twelve source and twelve target number types, values biased to boundaries; not exhaustive for wide types.")

add(c20.Check(),
    "differential property testing between feature combinations and builds",
    "Random histories in the four feature combinations, each in three builds (two of them optimised in the quick tier); not exhaustive.")

add(c19.Check(),
    "property-based testing of histories under an interpreter that detects undefined behaviour (Miri)",
    "Some thousands of small random histories under Stacked Borrows, some also under Tree Borrows; not exhaustive.")

add(c18.Check(),
    "property-based generation of programs, judged by the compiler against a model of loans and abilities",
    "Random straight-line programs and one-step requirements over generated types and tables; not exhaustive.")

add(c17.Check(),
    "property-based generation of programs, judged by the compiler against the abilities of generated types, and run",
    "Random one-step programs over generated types and tables, and random multi-threaded histories that are run; interleavings are those the machine happens to make.")

add(c12.Check(),
    "property-based generation of trait declarations and of programs that use their tables, compared with the typed elements",
    "Random hierarchies of at most eight traits per module; element types from a fixed list of 22; the spellings of super-traits that the README documents.")

add(c21.Check(),
    "property-based generation of trait methods, judged by the compiler against the expected signatures, and run",
    "Random signatures nested to depth three with up to two type parameters; no impl Trait, where clauses or typed receivers.")
