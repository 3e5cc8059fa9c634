"""Symbolic values and z3 sorts for Rust types."""
import z3

from .rtypes import INTS, show, subst

U256_MAX = 2**256 - 1


class Unsupported(Exception):
    pass


class Agg:
    """struct / tuple / enum value of known variant"""
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, list(f)

    def __repr__(self):
        return f"Agg({show(self.ty)[:60]},{self.var},{self.f})"


class Lst:
    """array / vector of known length"""
    __slots__ = ("elem", "items")

    def __init__(self, elem, items):
        self.elem, self.items = elem, list(items)

    def __repr__(self):
        return f"Lst({self.items})"


class MRef:
    __slots__ = ("cell", "projs")

    def __init__(self, cell, projs=()):
        self.cell, self.projs = cell, tuple(projs)

    def __eq__(self, o):
        return isinstance(o, MRef) and self.cell == o.cell and len(self.projs) == len(o.projs) and \
            all(same(a, b) for a, b in zip(self.projs, o.projs))

    def __repr__(self):
        return f"MRef({self.cell},{self.projs})"


class Clo:
    """closure or coroutine object"""
    __slots__ = ("loc", "caps", "tenv", "names")

    def __init__(self, loc, caps, tenv, names=()):
        self.loc, self.caps, self.tenv, self.names = loc, list(caps), tenv, tuple(names)

    def __repr__(self):
        return f"Clo({self.loc})"


class FnItem:
    __slots__ = ("text", "tenv")

    def __init__(self, text, tenv):
        self.text, self.tenv = text, tenv

    def __repr__(self):
        return f"Fn({self.text})"


class Discr:
    __slots__ = ("v", "ty")

    def __init__(self, v, ty):
        self.v, self.ty = v, ty


class PyFn:
    """a function-typed parameter of the function under contract: an arbitrary function, given by what a call yields"""
    __slots__ = ("fn", "ret")

    def __init__(self, fn, ret):
        self.fn, self.ret = fn, ret


class Opaque:
    """a value the verifier knows nothing about (formatting machinery, ...)"""
    __slots__ = ("what",)

    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return f"Opaque({self.what})"


class Iter:
    """symbolic iterator: n elements, at(st, i) -> value; ops are pending adapters; pos is a z3 Int"""
    __slots__ = ("n", "at", "ety", "ops", "pos", "hi", "tag")

    def __init__(self, n, at, ety, ops=(), pos=None, hi=None, tag=None):
        self.n, self.at, self.ety, self.ops = n, at, ety, tuple(ops)
        self.pos = z3.IntVal(0) if pos is None else pos
        self.hi = n if hi is None else hi          # exclusive upper end (for rev / next_back)
        self.tag = tag

    def with_(self, **kw):
        d = dict(n=self.n, at=self.at, ety=self.ety, ops=self.ops, pos=self.pos, hi=self.hi, tag=self.tag)
        d.update(kw)
        return Iter(**d)

    def __repr__(self):
        return f"Iter(ops={[o[0] for o in self.ops]},pos={self.pos})"


UNIT_T = ("tuple", ())


def unit():
    return Agg(UNIT_T, None, [])


def same(a, b):
    """syntactic identity"""
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Lst) and isinstance(b, Lst):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, MRef) and isinstance(b, MRef):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Clo) and isinstance(b, Clo):
        return a.loc == b.loc and len(a.caps) == len(b.caps) and all(same(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, FnItem) and isinstance(b, FnItem):
        return a.text == b.text
    if isinstance(a, Iter) and isinstance(b, Iter):
        return a.at is b.at and same(a.n, b.n) and same(a.pos, b.pos) and same(a.hi, b.hi) and a.ops == b.ops
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    if isinstance(a, Discr) and isinstance(b, Discr):
        return same(a.v, b.v)
    if isinstance(a, (z3.ExprRef, Agg, Lst, MRef, Clo, FnItem, Iter, Opaque, Discr)) or \
            isinstance(b, (z3.ExprRef, Agg, Lst, MRef, Clo, FnItem, Iter, Opaque, Discr)):
        return False
    return a == b


TRANSPARENT = {"std::boxed::Box", "std::sync::Arc", "std::rc::Rc", "std::borrow::Cow", "std::pin::Pin",
               "std::mem::ManuallyDrop", "alloc::boxed::Box", "std::cell::Ref", "std::cell::RefMut", "std::cmp::Reverse#"}
SEQS = {"std::vec::Vec", "std::collections::VecDeque", "alloc::vec::Vec", "serde_bytes::ByteBuf", "bytes::bytes_mut::BytesMut"}
MAPS = {"std::collections::BTreeMap", "std::collections::HashMap"}
SETS = {"std::collections::BTreeSet", "std::collections::HashSet"}
UINTS = {"evm_rpc_types::Nat256": U256_MAX, "ethnum::U256": U256_MAX, "candid::Nat": None, "num_bigint::BigUint": None, "candid::types::number::Nat": None}

OPT = "std::option::Option"
RES = "std::result::Result"


def opt(t):
    return ("adt", OPT, (t,))


def builtin_def(path, args):
    if path == OPT:
        return [("None", 0, []), ("Some", 1, [("0", args[0])])]
    if path == RES:
        return [("Ok", 0, [("0", args[0])]), ("Err", 1, [("0", args[1])])]
    if path == "std::cmp::Ordering":
        return [("Less", -1, []), ("Equal", 0, []), ("Greater", 1, [])]
    if path == "std::task::Poll":
        return [("Ready", 0, [("0", args[0])]), ("Pending", 1, [])]
    if path == "std::ops::ControlFlow":
        return [("Continue", 0, [("0", args[1] if len(args) > 1 else UNIT_T)]), ("Break", 1, [("0", args[0])])]
    if path == "std::ops::RangeInclusive":
        return [(None, 0, [("start", args[0]), ("end", args[0]), ("exhausted", ("bool",))])]
    if path == "std::ops::Range":
        return [(None, 0, [("start", args[0]), ("end", args[0])])]
    if path == "std::ops::RangeFrom":
        return [(None, 0, [("start", args[0])])]
    if path == "std::ops::RangeTo":
        return [(None, 0, [("end", args[0])])]
    if path == "std::marker::PhantomData":
        return [(None, 0, [])]
    if path == "std::cmp::Reverse":
        return [(None, 0, [("0", args[0])])]
    if path == "std::ops::Bound":
        return [("Included", 0, [("0", args[0])]), ("Excluded", 1, [("0", args[0])]), ("Unbounded", 2, [])]
    if path in ("std::collections::btree_map::Entry", "std::collections::hash_map::Entry"):
        m = path.rsplit("::", 1)[0]
        v = [("Vacant", [("0", ("adt", m + "::VacantEntry", tuple(args)))]), ("Occupied", [("0", ("adt", m + "::OccupiedEntry", tuple(args)))])]
        return [(n, i, f) for i, (n, f) in enumerate(v if "btree" in path else v[::-1])]
    return None


class Sorts:
    def __init__(self, defs):
        self.defs = defs
        self.cache = {}
        self.dt = {}          # sort -> (type, [(ctor, recognizer, [accessors], [field types])])
        self.seq = {}         # sort -> elem type
        self.names = {}
        self.usorts = {}
        self.building = []

    def adt_def(self, t):
        if t[0] == "tuple":
            return [(None, 0, [(str(i), x) for i, x in enumerate(t[1])])]
        if t[0] != "adt":
            return None
        b = builtin_def(t[1], t[2])
        if b is not None:
            return b
        d = self.defs.adts.get(t[1])
        if d is None:
            from .externs import extern_def
            return extern_def(t[1], t[2])
        env = {p: a for p, a in zip(d["params"], [a for a in t[2]])}
        return [(n, dis, [(fn, subst(ft, env)) for fn, ft in fl]) for n, dis, fl in d["variants"]]

    def norm(self, t):
        """type with references and transparent wrappers removed (top level)"""
        while True:
            if t[0] in ("ref",):
                t = t[2]
            elif t[0] == "ptr":
                t = t[1]
            elif t[0] == "adt" and t[1] in TRANSPARENT and t[2]:
                t = t[2][0]
            elif t[0] == "adt" and t[1] == "phantom_newtype::Id":
                t = t[2][1]
            elif t[0] == "adt" and t[1] == "phantom_newtype::AmountOf":
                t = t[2][1]
            else:
                return t

    def usort(self, name):
        if name not in self.usorts:
            self.usorts[name] = z3.DeclareSort(name)
        return self.usorts[name]

    def uname(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else f"{base}~{n}"

    def sort(self, t):
        s = self.cache.get(t)
        if s is None:
            s = self._sort(t)
            self.cache[t] = s
        return s

    def _sort(self, t):
        t0 = t
        t = self.norm(t)
        if t != t0:
            return self.sort(t)
        k = t[0]
        if k == "int" or k == "char":
            return z3.IntSort()
        if k == "bool":
            return z3.BoolSort()
        if k == "str":
            return self.usort("Str")
        if k == "never":
            return self.usort("Never")
        if k == "param":
            return self.usort("P_" + t[1])
        if k in ("array", "slice"):
            return self.seq_sort(t[1])
        if k == "adt":
            p, a = t[1], t[2]
            if p in UINTS:
                return z3.IntSort()
            if p in ("std::string::String", "alloc::string::String"):
                return self.usort("Str")
            if p in SEQS:
                return self.seq_sort(a[0] if a else ("int", "u8"))
            if p in MAPS:
                return z3.ArraySort(self.sort(a[0]), self.sort(opt(a[1])))
            if p in SETS:
                return z3.ArraySort(self.sort(a[0]), z3.BoolSort())
        d = self.adt_def(t)
        if d is None:
            return self.usort("X_" + show(t).replace(" ", ""))
        if t in self.building:
            return self.usort("Rec_" + show(t).replace(" ", ""))
        self.building.append(t)
        try:
            fs = [[(fn, self.sort(ft)) for fn, ft in fl] for _, _, fl in d]
        finally:
            self.building.pop()
        nm = self.uname(show(t).replace(" ", "") if k == "adt" else "T" + str(len(t[1])))
        dt = z3.Datatype(nm)
        for (vn, _, _), fl in zip(d, fs):
            dt.declare(f"{vn or 'mk'}@{nm}", *[(f"{vn or ''}.{fn}@{nm}", s) for fn, s in fl])
        s = dt.create()
        self.dt[s] = (t, [(s.constructor(i), s.recognizer(i), [s.accessor(i, j) for j in range(len(fl))],
                           [ft for _, ft in d[i][2]]) for i, fl in enumerate(fs)])
        return s

    def seq_sort(self, elem):
        key = ("slice", self.norm(elem))
        if key in self.cache and self.cache[key] in self.dt:
            return self.cache[key]
        es = self.sort(elem)
        for s, e in self.seq.items():
            if s.accessor(0, 1).range().range() == es:
                self.cache[key] = s
                return s
        nm = self.uname("Seq")
        dt = z3.Datatype(nm)
        dt.declare(f"seq@{nm}", (f"len@{nm}", z3.IntSort()), (f"arr@{nm}", z3.ArraySort(z3.IntSort(), es)))
        s = dt.create()
        self.seq[s] = elem
        self.cache[key] = s
        return s

    def is_seq_type(self, t):
        t = self.norm(t)
        return t[0] in ("array", "slice") or (t[0] == "adt" and t[1] in SEQS)

    def elem_type(self, t):
        t = self.norm(t)
        if t[0] in ("array", "slice"):
            return t[1]
        if t[0] == "adt" and t[1] in SEQS:
            return t[2][0] if t[2] else ("int", "u8")
        raise Unsupported("elem type of " + show(t))
