"""Models (assumed contracts) of std and external functions.  Each model that a proof uses is listed in the evidence."""
import re
import z3

from .rtypes import INTS, last, show, subst, unify
from .values import *   # noqa

MODELS, TRAIT_MODELS, PREFIX_MODELS, CONSTS, EXT_VARIANTS = {}, {}, [], {}, {}
RET, TRAP = "ret", "trap"


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def tmodel(*pairs):
    def d(f):
        for p in pairs:
            t, m = p.split(".")
            TRAIT_MODELS[(t, m)] = f
        return f
    return d


def prefix(*names):
    def d(f):
        for n in names:
            PREFIX_MODELS.append((n, f))
        return f
    return d


def simp(e):
    return z3.simplify(e) if isinstance(e, z3.ExprRef) else e


def R(st, v):
    return [(st, (RET, v))]


def T(st, msg):
    return [(st, (TRAP, msg))]


def val(c, i):
    return c.eng.deref(c.st, c.args[i])


def branch(c, cond, f, g, st=None):
    """fork on cond: f(st), g(st) -> outcome lists"""
    e, st = c.eng, st or c.st
    cond = simp(cond)
    if z3.is_true(cond):
        return f(st)
    if z3.is_false(cond):
        return g(st)
    out = []
    a, b = e.feasible(st, [cond]), e.feasible(st, [z3.Not(cond)])
    if a:
        s = st.fork()
        s.pc.append(cond)
        out += f(s)
    if b:
        s = st.fork()
        s.pc.append(simp(z3.Not(cond)))
        out += g(s)
    return out


def choice(c, name, st=None):
    """two states: the environment decides"""
    b = c.eng.const(z3.BoolSort(), name)
    st = st or c.st
    x, y = st.fork(), st.fork()
    x.pc.append(b)
    y.pc.append(z3.Not(b))
    return x, y


def on_enum(c, v, t, handlers, st=None):
    """handlers: {variant: fn(st, fields)}; default key '_'"""
    e, st = c.eng, st or c.st
    v = e.deref(st, v)
    d = e.S.adt_def(e.S.norm(t if not isinstance(v, Agg) else v.ty))
    if d is None:
        raise Unsupported("enum split of " + show(t)[:60])
    if isinstance(v, Opaque):
        raise Unsupported("opaque enum")
    if isinstance(v, Agg):
        n = d[v.var or 0][0]
        h = handlers.get(n) or handlers["_"]
        return h(st, v.f)
    tt, ctors = e.S.dt[v.sort()]
    out, done = [], []
    for i, (n, _, fl) in enumerate(e.S.adt_def(tt)):
        ct, r, accs, ftys = ctors[i]
        cond = simp(r(v))
        if z3.is_false(cond):
            continue
        if not z3.is_true(cond) and not e.feasible(st, [cond]):
            continue
        s = st.fork()
        if not z3.is_true(cond):
            s.pc.append(cond)
        fs = []
        for a, ft in zip(accs, ftys):
            x = e.acc(a, v)
            s.facts += e.wf(ft, x, 2)
            fs.append(x)
        h = handlers.get(n) or handlers["_"]
        out += h(s, fs)
        if z3.is_true(cond):
            break
    return out


def on_opt(c, v, t, some, none, st=None):
    return on_enum(c, v, t, {"Some": lambda s, f: some(s, f[0]), "None": lambda s, f: none(s)}, st)


def optarg(t):
    while t[0] == "ref":
        t = t[2]
    return t[2][0]


def then(outs, f):
    """continue returned outcomes with f(st, v)"""
    res = []
    for s, o in outs:
        if o[0] == RET:
            res += f(s, o[1])
        else:
            res.append((s, o))
    return res


def callf(c, st, f, args, ret=None):
    return c.eng.call_value(st, c.fr, f, args, None, ret)


def inner_ret(t):
    """payload type of Option / Ok type of Result"""
    return t[2][0]


# ---------------------------------------------------------------- opaque things
def opaque(c):
    return Opaque(c.callee.name)


@prefix("core::fmt::", "std::fmt::", "alloc::fmt::", "ic_canister_log::", "std::io::_print", "std::io::_eprint", "ic_cdk::print",
        "ic_cdk::api::print", "std::thread::", "alloc::alloc::", "std::time::Duration::", "ic0::", "std::any::")
def _opaque(c):
    if c.ret[0] == "never":
        return T(c.st, "panic " + c.callee.name)
    if c.ret == UNIT_T:
        return unit()
    t = c.eng.S.norm(c.ret)
    if t[0] == "adt" and t[1].endswith("String"):
        return c.eng.const(c.eng.S.sort(c.ret), "fmt")
    return Opaque(c.callee.name)


@prefix("core::panicking::", "std::rt::begin_panic", "core::option::expect_failed", "core::option::unwrap_failed",
        "core::result::unwrap_failed", "std::panicking::", "ic_cdk::trap", "ic_cdk::api::trap", "core::slice::index::slice_",
        "std::rt::panic", "std::process::abort", "core::unreachable")
def _panic(c):
    msg = ""
    for a in c.args:
        if isinstance(a, z3.ExprRef):
            msg = str(a)[:80]
    return T(c.st, "panic " + c.callee.name + " " + msg)


@tmodel("Debug.fmt", "Display.fmt", "Write.write_str", "Write.write_fmt", "LowerHex.fmt", "Sink.append")
def _fmt(c):
    return c.eng.const(c.eng.S.sort(c.ret), "fmt") if c.ret[0] == "adt" else (unit() if c.ret == UNIT_T else Opaque("fmt"))


@tmodel("ToString.to_string")
def _tostr(c):
    v = val(c, 0)
    t = c.eng.S.norm(c.argtys[0])
    if isinstance(v, z3.ExprRef) and v.sort() == c.eng.S.usort("Str"):
        return v
    if isinstance(v, Opaque):
        return c.eng.const(c.eng.S.usort("Str"), "str")
    try:
        z = c.eng.z(v, t, c.st)
    except Unsupported:
        return c.eng.const(c.eng.S.usort("Str"), "str")
    return c.eng.uf(f"to_string[{show(t)}]", z.sort(), c.eng.S.usort("Str"))(z)


@model("std::hint::must_use", "std::convert::identity", "std::pin::Pin::new_unchecked", "std::pin::Pin::new", "std::boxed::Box::new",
       "std::boxed::Box::pin", "std::hint::black_box", "phantom_newtype::Id::new", "phantom_newtype::Id::get", "phantom_newtype::Id::get_ref", "std::sync::Arc::new",
       "std::rc::Rc::new", "std::mem::ManuallyDrop::new", "std::iter::IntoIterator::into_iter", "core::str::<impl>::as_bytes#",
       "std::vec::Vec::into_boxed_slice", "std::string::String::as_str", "std::vec::Vec::as_slice", "std::boxed::Box::leak",
       "std::cell::RefCell::new", "std::borrow::Cow::into_owned", "core::slice::<impl>::as_slice", "std::boxed::Box::into_pin")
def _ident(c):
    return c.args[0]


@tmodel("Clone.clone", "ToOwned.to_owned")
def _clone(c):
    return c.eng.deref(c.st, c.args[0])


@tmodel("AsRef.as_ref", "Borrow.borrow", "Deref.deref")
def _asref(c):
    e = c.eng
    src, dst = c.argtys[0], c.ret
    if is_cellref(src):
        return c.args[0]
    v = e.deref(c.st, c.args[0])
    if isinstance(v, (Opaque, Iter, Clo)):
        return v
    try:
        if e.S.sort(src) == e.S.sort(dst):
            return v
    except Unsupported:
        return v
    ss = e.S.sort(src)
    z = e.z(v, src, c.st)
    r = e.uf(f"asref[{show(e.S.norm(src))}->{show(e.S.norm(dst))}]", ss, e.S.sort(dst))(z)
    c.st.facts += e.wf(dst, r)
    return r


@tmodel("DerefMut.deref_mut", "AsMut.as_mut", "BorrowMut.borrow_mut", "Fuse.fuse")
def _derefmut(c):
    r = c.args[0]
    if isinstance(r, MRef) and is_cellref(c.argtys[0]):
        v = c.eng.read(c.st, r.cell, r.projs)
        if isinstance(v, MRef):
            return v
    return r


def is_cellref(t):
    while t[0] == "ref":
        t = t[2]
    return t[0] == "adt" and t[1] in ("std::cell::Ref", "std::cell::RefMut", "std::cell::RefCell")


# thread-locals: one cell per type held; RefCell is transparent (a double borrow, which would panic, is not modelled)
def tl_cell(t):
    while t[0] == "ref" or t[0] == "adt" and t[1] in ("std::cell::RefCell", "std::thread::LocalKey", "std::cell::Ref", "std::cell::RefMut", "std::thread::local_impl::LocalKey"):
        t = t[2] if t[0] == "ref" else t[2][0]
    return ("TL", tl_key(t)), t


def tl_key(t):
    return "log" if t[0] == "adt" and t[1].endswith("StableLog") else show(t)


@model("std::thread::LocalKey::with")
def _tlwith(c):
    cell, t = tl_cell(c.argtys[0])
    if cell not in c.st.cells:
        raise Unsupported("thread-local of " + show(t)[:60])
    return c.eng.call_value(c.st, c.fr, c.args[1], [MRef(cell)], None, c.ret)


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut")
def _rcborrow(c):
    cell, t = tl_cell(c.argtys[0])
    if cell in c.st.cells:
        return MRef(cell)
    raise Unsupported("RefCell that is not a thread-local")


@model("ic_cdk::api::instruction_counter", "ic_cdk::api::performance_counter")
def _icount(c):
    e, st = c.eng, c.st
    cell = ("G", "instructions")
    n = e.const(z3.IntSort(), "instr")
    st.facts += [n >= st.cells.get(cell, z3.IntVal(0)), n < 2 ** 64]
    st.cells[cell] = n
    return n


@model("ic_cdk::api::time")
def _time(c):
    """nanoseconds since the epoch: non-decreasing"""
    e, st = c.eng, c.st
    cell = ("G", "time")
    n = e.const(z3.IntSort(), "time")
    st.facts += [n >= st.cells.get(cell, z3.IntVal(0)), n < 2 ** 64]
    st.cells[cell] = n
    return n


def loglen(c):
    return c.eng.seq_len(c.st.cells[("TL", "log")])


@model("ic_stable_structures::StableLog::append")
def _logappend(c):
    e, st = c.eng, c.st
    cell = ("TL", "log")
    if cell not in st.cells:
        raise Unsupported("event log used in a unit that declares none")
    x = val(c, 1)
    et = e.strip_ref(c.argtys[1])
    v = st.cells[cell]
    n = e.seq_len(v)
    ok, err = choice(c, "append ok")
    ok.cells[cell] = e.seq_mk(et, n + 1, z3.Store(e.seq_arr(v), n, e.z(x, et, ok)))
    return R(ok, Agg(c.ret, 0, [n])) + R(err, Agg(c.ret, 1, [e.const(e.S.sort(c.ret[2][1]), "writeerr")]))


@model("ic_stable_structures::StableLog::len")
def _loglen(c):
    return loglen(c)


@model("ic_stable_structures::StableLog::iter")
def _logiter(c):
    v = c.st.cells[("TL", "log")]
    e = c.eng
    et = e.seq_elem(v)
    return seq_iter(c, v)


@tmodel("PartialEq.eq")
def _eq(c):
    return simp(c.eng.eq(val(c, 0), val(c, 1), c.argtys[0], c.st))


@tmodel("PartialEq.ne")
def _ne(c):
    # through a local eq if there is one
    loc = find_local(c, "PartialEq", "eq")
    if loc is not None:
        return then(loc, lambda s, v: R(s, simp(z3.Not(v))))
    return simp(z3.Not(c.eng.eq(val(c, 0), val(c, 1), c.argtys[0], c.st)))


def find_local(c, trait, method):
    from .engine import Callee
    cc = Callee()
    cc.text, cc.selfty, cc.trait, cc.method = "", c.callee.selfty, ("adt", trait, ()), method
    cc.generics, cc.tyargs, cc.segs, cc.name = (), (), [], f"{trait}::{method}"
    cc.selfty = c.eng.strip_ref(cc.selfty)
    r = c.eng.resolve(cc, c.argtys, None)
    if r is None or r[2]:
        return None
    return c.eng.merge(c.eng.run_body(c.st, r[0], list(c.args), r[1], c.fr.depth + 1))


def lt(e, t, a, b, st):
    """strict order on values of type t, z3 Bool"""
    t = e.S.norm(t)
    a, b = e.deref(st, a), e.deref(st, b)
    if t[0] in ("int", "char") or (t[0] == "adt" and t[1] in UINTS):
        return a < b
    if t[0] == "bool":
        return z3.And(z3.Not(a), b)
    d = e.S.adt_def(t)
    if d is not None and len(d) == 1 and d[0][0] is None:
        fl = [(i, ft) for i, (fn, ft) in enumerate(d[0][2]) if e.S.norm(ft)[:2] != ("adt", "std::marker::PhantomData")]
        r = z3.BoolVal(False)
        rev = t[0] == "adt" and t[1] == "std::cmp::Reverse"
        for i, ft in reversed(fl):
            x, y = e.proj_field(st, a, i, ft), e.proj_field(st, b, i, ft)
            if rev:
                x, y = y, x
            r = z3.Or(lt(e, ft, x, y, st), z3.And(e.eq(x, y, ft, st), r))
        return simp(r)
    if d is not None:
        za, zb = e.z(a, t, st), e.z(b, t, st)
        from .values import Agg
        tt, ctors = e.S.dt[za.sort()]
        from .engine import simp_recog
        r = z3.BoolVal(False)
        for i, (n, _, fl) in enumerate(d):
            ct, rec, accs, ftys = ctors[i]
            later = z3.Or([simp_recog(ctors[j][1], zb) for j in range(i + 1, len(d))] + [z3.BoolVal(False)])
            rr = z3.BoolVal(False)
            for ac, ft in reversed(list(zip(accs, ftys))):
                x, y = e.acc(ac, za), e.acc(ac, zb)
                rr = z3.Or(lt(e, ft, x, y, st), z3.And(x == y, rr))
            r = z3.Or(r, z3.And(simp_recog(rec, za), z3.Or(later, z3.And(simp_recog(rec, zb), rr))))
        return simp(r)
    s = e.S.sort(t)
    f = e.uf(f"lt[{s}]", s, s, z3.BoolSort())
    key = "order " + str(s)
    if key not in e.__dict__.setdefault("_orders", set()):
        e._orders.add(key)
        x, y, w = z3.Consts("ox oy oz", s)
        e.axioms += [z3.ForAll([x], z3.Not(f(x, x))),
                     z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y)),
                     z3.ForAll([x, y, w], z3.Implies(z3.And(f(x, y), f(y, w)), f(x, w)))]
    return f(e.z(a, t, st), e.z(b, t, st))


def cmp_local(c):
    """a hand-written Ord/PartialOrd impl of a local type, as an Ordering value"""
    for tr, m in (("Ord", "cmp"), ("PartialOrd", "partial_cmp")):
        if (tr, m) == (c.callee.trait and last(c.callee.trait[1]), c.callee.method):
            continue
        r = find_local(c, tr, m)
        if r is not None:
            return r, m
    return None, None


def _cmpop(op):
    def f(c):
        e = c.eng
        r, m = cmp_local(c)
        s = e.S.sort(("adt", "std::cmp::Ordering", ()))

        def conv(st, v):
            z = e.z(v, ("adt", "std::cmp::Ordering", ()), st)
            less, eq = s.recognizer(0)(z), s.recognizer(1)(z)
            return R(st, simp({"lt": less, "le": z3.Or(less, eq), "gt": z3.Not(z3.Or(less, eq)), "ge": z3.Not(less)}[op]))
        if r is not None:
            if m == "cmp":
                return then(r, conv)
            return then(r, lambda st, v: on_opt(c, v, opt(("adt", "std::cmp::Ordering", ())), conv, lambda s2: R(s2, z3.BoolVal(False)), st))
        a, b, t = val(c, 0), val(c, 1), c.argtys[0]
        if op == "lt":
            return simp(lt(e, t, a, b, c.st))
        if op == "gt":
            return simp(lt(e, t, b, a, c.st))
        if op == "le":
            return simp(z3.Not(lt(e, t, b, a, c.st)))
        return simp(z3.Not(lt(e, t, a, b, c.st)))
    return f


for _o in ("lt", "le", "gt", "ge"):
    TRAIT_MODELS[("PartialOrd", _o)] = _cmpop(_o)


@tmodel("Ord.cmp")
def _cmp(c):
    e = c.eng
    a, b = val(c, 0), val(c, 1)
    return e.ordering(lt(e, c.argtys[0], a, b, c.st), e.eq(a, b, c.argtys[0], c.st))


@tmodel("PartialOrd.partial_cmp")
def _pcmp(c):
    e = c.eng
    r, m = cmp_local(c)
    t = ("adt", "std::cmp::Ordering", ())
    if r is not None:
        return then(r, lambda s, v: R(s, e.some(t, v)))
    a, b = val(c, 0), val(c, 1)
    return e.some(t, e.ordering(lt(e, c.argtys[0], a, b, c.st), e.eq(a, b, c.argtys[0], c.st)))


def lt_call(c, t, a, b):
    """z3 Bool a<b honouring a hand-written Ord"""
    e = c.eng
    from .engine import Call, Callee
    cc = Callee()
    cc.text, cc.selfty, cc.trait, cc.method = "", e.strip_ref(t), ("adt", "Ord", ()), "cmp"
    cc.generics, cc.tyargs, cc.segs, cc.name = (), (), [], "Ord::cmp"
    r = e.resolve(cc, [e.strip_ref(t)] * 2, None)
    if r is None or r[2]:
        return lt(e, t, a, b, c.st)
    outs = e.merge(e.run_body(c.st.fork(), r[0], [a, b], r[1], c.fr.depth + 1))
    outs = [o for o in outs if o[1][0] == RET]
    if len(outs) != 1:
        raise Unsupported("Ord::cmp with several outcomes")
    s = e.S.sort(("adt", "std::cmp::Ordering", ()))
    c.st.facts = outs[0][0].facts
    return s.recognizer(0)(e.z(outs[0][1][1], ("adt", "std::cmp::Ordering", ()), c.st))


@tmodel("Ord.max")
@model("std::cmp::max")
def _max(c):
    a, b = val(c, 0), val(c, 1)
    e = c.eng
    cond = simp(lt_call(c, c.argtys[0], b, a))       # b < a -> a else b
    return e.merge_vals([cond, z3.Not(cond)], [a, b], [c.st, c.st]) if not z3.is_true(cond) and not z3.is_false(cond) else (a if z3.is_true(cond) else b)


@tmodel("Ord.min")
@model("std::cmp::min")
def _min(c):
    a, b = val(c, 0), val(c, 1)
    e = c.eng
    cond = simp(lt_call(c, c.argtys[0], b, a))       # b < a -> b else a
    return e.merge_vals([cond, z3.Not(cond)], [b, a], [c.st, c.st]) if not z3.is_true(cond) and not z3.is_false(cond) else (b if z3.is_true(cond) else a)


@tmodel("Default.default")
def _default(c):
    return default(c.eng, c.st, c.ret)


def default(e, st, t):
    n = e.S.norm(t)
    if n[0] == "int" or n[0] == "char" or (n[0] == "adt" and n[1] in UINTS):
        return z3.IntVal(0)
    if n[0] == "bool":
        return z3.BoolVal(False)
    if n[0] == "adt":
        if n[1] == OPT:
            return Agg(n, 0, [])
        if n[1] in MAPS:
            return empty_map(e, n)
        if n[1] in SETS:
            return z3.K(e.S.sort(n[2][0]), z3.BoolVal(False))
        if n[1] in SEQS:
            return Lst(n[2][0], [])
        if n[1].endswith("::String"):
            return e.strlit("")
    if n[0] == "tuple":
        return Agg(n, None, [default(e, st, x) for x in n[1]])
    d = e.S.adt_def(n)
    if d is not None and len(d) == 1 and d[0][0] is None:
        return Agg(n, None, [default(e, st, ft) for _, ft in d[0][2]])
    raise Unsupported("Default of " + show(t)[:60])


def empty_map(e, n):
    s = e.S.sort(opt(n[2][1]))
    return z3.K(e.S.sort(n[2][0]), s.constructor(0)())


# ---------------------------------------------------------------- Option / Result
def _unwrap(c, bad):
    t = c.argtys[0]
    n = c.eng.strip_ref(t)
    if n[1] == OPT:
        return on_opt(c, c.args[0], n, lambda s, v: R(s, v), lambda s: bad(s))
    return on_enum(c, c.args[0], n, {"Ok": lambda s, f: R(s, f[0]), "Err": lambda s, f: bad(s)})


@model("std::option::Option::expect", "std::option::Option::unwrap", "std::result::Result::expect", "std::result::Result::unwrap")
def _expect(c):
    m = str(c.args[1])[:80] if len(c.args) > 1 else "unwrap"
    return _unwrap(c, lambda s: T(s, "expect " + m))


@model("std::result::Result::expect_err", "std::result::Result::unwrap_err")
def _expecterr(c):
    return on_enum(c, c.args[0], c.eng.strip_ref(c.argtys[0]), {"Err": lambda s, f: R(s, f[0]), "Ok": lambda s, f: T(s, "unwrap_err")})


@model("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def _unwrap_or(c):
    return c.eng.merge(_unwrap(c, lambda s: R(s, c.args[1])))


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _unwrap_or_default(c):
    return c.eng.merge(_unwrap(c, lambda s: R(s, default(c.eng, s, c.ret))))


@model("std::option::Option::unwrap_or_else")
def _unwrap_or_else(c):
    return _unwrap(c, lambda s: callf(c, s, c.args[1], [], c.ret))


@model("std::result::Result::unwrap_or_else")
def _unwrap_or_else2(c):
    return on_enum(c, c.args[0], c.eng.strip_ref(c.argtys[0]), {"Ok": lambda s, f: R(s, f[0]), "Err": lambda s, f: callf(c, s, c.args[1], [f[0]], c.ret)})


@model("std::option::Option::map")
def _omap(c):
    e = c.eng
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: then(callf(c, s, c.args[1], [v], inner_ret(c.ret)), lambda s2, r: R(s2, Agg(c.ret, 1, [r]))),
                  lambda s: R(s, Agg(c.ret, 0, [])))


@model("std::option::Option::and_then")
def _oand(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: callf(c, s, c.args[1], [v], c.ret), lambda s: R(s, Agg(c.ret, 0, [])))


@model("std::option::Option::map_or")
def _omapor(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: callf(c, s, c.args[2], [v], c.ret), lambda s: R(s, c.args[1]))


@model("std::option::Option::map_or_else")
def _omaporelse(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: callf(c, s, c.args[2], [v], c.ret), lambda s: callf(c, s, c.args[1], [], c.ret))


@model("std::option::Option::is_some_and", "std::option::Option::is_none_or")
def _osomeand(c):
    b = c.callee.method == "is_none_or"
    return c.eng.merge(on_opt(c, c.args[0], c.argtys[0], lambda s, v: callf(c, s, c.args[1], [v], ("bool",)), lambda s: R(s, z3.BoolVal(b))))


@model("std::option::Option::filter")
def _ofilter(c):
    def some(s, v):
        return then(callf(c, s, c.args[1], [v], ("bool",)), lambda s2, b: branch(c, b, lambda s3: R(s3, Agg(c.ret, 1, [v])), lambda s3: R(s3, Agg(c.ret, 0, [])), s2))
    return on_opt(c, c.args[0], c.argtys[0], some, lambda s: R(s, Agg(c.ret, 0, [])))


@model("std::option::Option::ok_or")
def _okor(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: R(s, Agg(c.ret, 0, [v])), lambda s: R(s, Agg(c.ret, 1, [c.args[1]])))


@model("std::option::Option::ok_or_else")
def _okorelse(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: R(s, Agg(c.ret, 0, [v])),
                  lambda s: then(callf(c, s, c.args[1], [], c.ret[2][1]), lambda s2, r: R(s2, Agg(c.ret, 1, [r]))))


@model("std::option::Option::or")
def _oor(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: R(s, Agg(c.ret, 1, [v])), lambda s: R(s, c.args[1]))


@model("std::option::Option::or_else")
def _oorelse(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: R(s, Agg(c.ret, 1, [v])), lambda s: callf(c, s, c.args[1], [], c.ret))


@model("std::option::Option::is_some", "std::result::Result::is_ok")
def _issome(c):
    n = "Some" if c.callee.method == "is_some" else "Ok"
    return c.eng.is_variant(val(c, 0), c.argtys[0], n)


@model("std::option::Option::is_none", "std::result::Result::is_err")
def _isnone(c):
    n = "None" if c.callee.method == "is_none" else "Err"
    return c.eng.is_variant(val(c, 0), c.argtys[0], n)


@model("std::result::Result::is_ok_and", "std::result::Result::is_err_and")
def _isokand(c):
    w = "Ok" if c.callee.method == "is_ok_and" else "Err"
    o = "Err" if w == "Ok" else "Ok"
    return c.eng.merge(on_enum(c, c.args[0], c.eng.strip_ref(c.argtys[0]), {w: lambda s, f: callf(c, s, c.args[1], [f[0]], ("bool",)), o: lambda s, f: R(s, z3.BoolVal(False))}))


@model("std::option::Option::as_ref", "std::option::Option::cloned", "std::option::Option::copied", "std::option::Option::as_deref",
       "std::result::Result::as_ref", "std::result::Result::cloned")
def _oasref(c):
    v = c.eng.deref(c.st, c.args[0])
    if isinstance(v, Agg):
        n = Agg(c.ret if c.ret[0] == "adt" else v.ty, v.var, [c.eng.deref(c.st, x) for x in v.f])
        return n
    return v


@model("std::option::Option::as_mut", "std::option::Option::as_deref_mut")
def _oasmut(c):
    e, r = c.eng, c.args[0]
    v = e.deref(c.st, r)
    t = optarg(c.argtys[0])
    if not isinstance(r, MRef):
        raise Unsupported("as_mut")
    return on_opt(c, v, opt(t), lambda s, x: R(s, Agg(c.ret, 1, [MRef(r.cell, r.projs + (("d", "Some"), ("f", 0, t)))])), lambda s: R(s, Agg(c.ret, 0, [])))


@model("std::option::Option::take")
def _otake(c):
    r = c.args[0]
    v = c.eng.deref(c.st, r)
    c.eng.write(c.st, r.cell, r.projs, Agg(c.ret, 0, []))
    return v


@model("std::option::Option::replace", "std::mem::replace")
def _replace(c):
    r = c.args[0]
    v = c.eng.deref(c.st, r)
    nv = c.args[1]
    if c.callee.method == "replace" and c.callee.name.startswith("std::option"):
        nv = Agg(c.ret, 1, [nv])
    c.eng.write(c.st, r.cell, r.projs, nv)
    return v


@model("std::option::Option::insert", "std::option::Option::get_or_insert")
def _oinsert(c):
    r = c.args[0]
    t = c.eng.strip_ref(c.argtys[0])
    c.eng.write(c.st, r.cell, r.projs, Agg(t, 1, [c.args[1]]))
    return MRef(r.cell, r.projs + (("d", "Some"), ("f", 0, t[2][0])))


@model("std::mem::take")
def _take(c):
    r = c.args[0]
    v = c.eng.deref(c.st, r)
    c.eng.write(c.st, r.cell, r.projs, default(c.eng, c.st, c.ret))
    return v


@model("std::mem::swap")
def _swap(c):
    a, b = c.args
    x, y = c.eng.deref(c.st, a), c.eng.deref(c.st, b)
    c.eng.write(c.st, a.cell, a.projs, y)
    c.eng.write(c.st, b.cell, b.projs, x)
    return unit()


@model("std::mem::drop", "std::mem::forget")
def _drop(c):
    return unit()


@model("std::option::Option::zip")
def _ozip(c):
    none = lambda s: R(s, Agg(c.ret, 0, []))   # noqa
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: on_opt(c, c.args[1], c.argtys[1], lambda s2, w: R(s2, Agg(c.ret, 1, [Agg(c.ret[2][0], None, [v, w])])), none, s), none)


@model("std::option::Option::transpose")
def _otr(c):
    # Option<Result<T,E>> -> Result<Option<T>,E>
    ot = c.ret[2][0]
    return on_opt(c, c.args[0], c.argtys[0],
                  lambda s, v: on_enum(c, v, optarg(c.argtys[0]), {"Ok": lambda s2, f: R(s2, Agg(c.ret, 0, [Agg(ot, 1, [f[0]])])),
                                                                   "Err": lambda s2, f: R(s2, Agg(c.ret, 1, [f[0]]))}, s),
                  lambda s: R(s, Agg(c.ret, 0, [Agg(ot, 0, [])])))


@model("std::option::Option::flatten")
def _oflat(c):
    return on_opt(c, c.args[0], c.argtys[0], lambda s, v: R(s, v), lambda s: R(s, Agg(c.ret, 0, [])))


@model("std::result::Result::map_err")
def _maperr(c):
    return on_enum(c, c.args[0], c.argtys[0], {"Ok": lambda s, f: R(s, Agg(c.ret, 0, [f[0]])),
                                               "Err": lambda s, f: then(callf(c, s, c.args[1], [f[0]], c.ret[2][1]), lambda s2, r: R(s2, Agg(c.ret, 1, [r])))})


@model("std::result::Result::map")
def _rmap(c):
    return on_enum(c, c.args[0], c.argtys[0], {"Err": lambda s, f: R(s, Agg(c.ret, 1, [f[0]])),
                                               "Ok": lambda s, f: then(callf(c, s, c.args[1], [f[0]], c.ret[2][0]), lambda s2, r: R(s2, Agg(c.ret, 0, [r])))})


@model("std::result::Result::and_then")
def _rand(c):
    return on_enum(c, c.args[0], c.argtys[0], {"Err": lambda s, f: R(s, Agg(c.ret, 1, [f[0]])), "Ok": lambda s, f: callf(c, s, c.args[1], [f[0]], c.ret)})


@model("std::result::Result::or_else")
def _rorelse(c):
    return on_enum(c, c.args[0], c.argtys[0], {"Ok": lambda s, f: R(s, Agg(c.ret, 0, [f[0]])), "Err": lambda s, f: callf(c, s, c.args[1], [f[0]], c.ret)})


@model("std::result::Result::ok")
def _rok(c):
    return on_enum(c, c.args[0], c.argtys[0], {"Ok": lambda s, f: R(s, Agg(c.ret, 1, [f[0]])), "Err": lambda s, f: R(s, Agg(c.ret, 0, []))})


@model("std::result::Result::err")
def _rerr(c):
    return on_enum(c, c.args[0], c.argtys[0], {"Err": lambda s, f: R(s, Agg(c.ret, 1, [f[0]])), "Ok": lambda s, f: R(s, Agg(c.ret, 0, []))})


@tmodel("Try.branch")
def _branch(c):
    t = c.eng.strip_ref(c.argtys[0])
    e = c.eng
    cf = c.ret
    if t[1] == OPT:
        return on_opt(c, c.args[0], t, lambda s, v: R(s, Agg(cf, 0, [v])), lambda s: R(s, Agg(cf, 1, [Agg(cf[2][0], 0, [])])))
    return on_enum(c, c.args[0], t, {"Ok": lambda s, f: R(s, Agg(cf, 0, [f[0]])),
                                     "Err": lambda s, f: R(s, Agg(cf, 1, [Agg(cf[2][0], 1, [f[0]])]))})


@tmodel("FromResidual.from_residual")
def _fromres(c):
    e = c.eng
    if c.ret[1] == OPT:
        return Agg(c.ret, 0, [])
    v = e.deref(c.st, c.args[0])
    t = e.strip_ref(c.argtys[0])
    err = v.f[0] if isinstance(v, Agg) else e.acc(v.sort().accessor(1, 0), v)
    src, dst = t[2][1], c.ret[2][1]
    return then(conv_from(c, c.st, err, src, dst), lambda s, r: R(s, Agg(c.ret, 1, [r])))


def conv_from(c, st, v, src, dst):
    """From::from(v: src) -> dst"""
    e = c.eng
    if src == dst:
        return R(st, v)
    from .engine import Callee
    cc = Callee()
    cc.text, cc.selfty, cc.trait, cc.method = "", dst, ("adt", "std::convert::From", (src,)), "from"
    cc.generics, cc.tyargs, cc.segs, cc.name = (), (), [], "std::convert::From::from"
    return e.invoke(st, c.fr, cc, [v], [src], dst)


@tmodel("Into.into")
def _into(c):
    return conv_from(c, c.st, c.args[0], c.argtys[0], c.ret)


@tmodel("TryInto.try_into")
def _tryinto(c):
    from .engine import Callee
    e = c.eng
    cc = Callee()
    dst = c.callee.trait[2][0]
    cc.text, cc.selfty, cc.trait, cc.method = "", dst, ("adt", "std::convert::TryFrom", (c.argtys[0],)), "try_from"
    cc.generics, cc.tyargs, cc.segs, cc.name = (), (), [], "std::convert::TryFrom::try_from"
    return e.invoke(c.st, c.fr, cc, c.args, c.argtys, c.ret)


def intlike(e, t):
    n = e.S.norm(t)
    return n[0] in ("int", "char", "bool") or (n[0] == "adt" and n[1] in UINTS)


def irange(e, t):
    n = e.S.norm(t)
    if n[0] == "int":
        return INTS[n[1]]
    if n[0] == "char":
        return INTS["char"]
    if n[0] == "adt" and n[1] in UINTS:
        return (0, UINTS[n[1]])
    raise Unsupported("range of " + show(t))


@tmodel("From.from")
def _from(c):
    e = c.eng
    src, dst = e.S.norm(c.argtys[0]), e.S.norm(c.ret)
    if intlike(e, src) and intlike(e, dst):
        v = val(c, 0)
        if z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    v = val(c, 0)
    if src == dst:
        return v
    if dst[0] == "adt" and dst[1] == OPT and dst[2][0] == c.argtys[0]:
        return Agg(dst, 1, [v])
    if isinstance(v, Opaque):
        return v
    if dst[0] == "adt" and dst[1] == "icrc_ledger_types::icrc1::account::Account" and src == ("adt", "candid::Principal", ()):
        return Agg(dst, None, [v, Agg(e.S.norm(e.S.adt_def(dst)[0][2][1][1]), 0, [])])        # the default account
    if e.S.sort(src) == e.S.sort(dst):
        return v
    if dst[0] == "adt" and dst[1] in MAPS | SETS and isinstance(v, Lst):
        return collect_concrete(c, v.items, dst)
    if dst[0] == "adt" and dst[1] == "ethnum::U256":
        raise Unsupported("U256 from " + show(src))
    z = e.z(v, src, c.st)
    r = e.uf(f"from[{show(src)}->{show(dst)}]", z.sort(), e.S.sort(dst))(z)
    c.st.facts += e.wf(dst, r)
    return r


@tmodel("TryFrom.try_from", "FromStr.from_str", "ToPrimitive.to_u64", "ToPrimitive.to_u8", "ToPrimitive.to_u32", "ToPrimitive.to_u128", "ToPrimitive.to_usize")
def _tryfrom(c):
    e = c.eng
    src = e.S.norm(c.argtys[0])
    dst = c.ret[2][0]
    dn = e.S.norm(dst)
    if c.callee.method == "try_from" and c.ret[1] == RES and c.ret[2][1][0] == "adt" and c.ret[2][1][1].endswith("Infallible"):
        r = conv_from(c, c.st, c.args[0], c.argtys[0], dst)        # blanket impl over From
        return then(r if isinstance(r, list) else R(c.st, r), lambda s, v: R(s, Agg(c.ret, 0, [v])))
    if intlike(e, src) and intlike(e, dn):
        v = val(c, 0)
        lo, hi = irange(e, dn)
        ok = v >= lo if hi is None else z3.And(v >= lo, v <= hi)
        if c.ret[1] == OPT:
            return branch(c, ok, lambda s: R(s, Agg(c.ret, 1, [v])), lambda s: R(s, Agg(c.ret, 0, [])))
        return branch(c, ok, lambda s: R(s, Agg(c.ret, 0, [v])), lambda s: R(s, Agg(c.ret, 1, [Opaque("TryFromIntError")])))
    if e.S.is_seq_type(src) and e.S.is_seq_type(dn) and dn[0] == "array":
        v = val(c, 0)
        n = e.seq_len(v)
        ok = simp(n == dn[2])
        return branch(c, ok, lambda s: R(s, Agg(c.ret, 0, [e.subslice(s, v, z3.IntVal(0), z3.IntVal(dn[2]))])),
                      lambda s: R(s, Agg(c.ret, 1, [Opaque("TryFromSliceError")])))
    return e.unknown(c)


# ---------------------------------------------------------------- integers
@model("core::num::<impl>::checked_add", "core::num::<impl>::checked_sub", "core::num::<impl>::checked_mul",
       "ethnum::uint::api::<impl>::checked_add", "ethnum::uint::api::<impl>::checked_sub", "ethnum::uint::api::<impl>::checked_mul")
def _checked(c):
    e = c.eng
    a, b = val(c, 0), val(c, 1)
    o = c.callee.method[8:]
    x = simp(a + b if o == "add" else a - b if o == "sub" else a * b)
    lo, hi = irange(e, c.argtys[0])
    ok = simp(z3.And(x >= lo, x <= hi))
    s = e.S.sort(c.ret)
    if z3.is_true(ok):
        return Agg(c.ret, 1, [x])
    if z3.is_false(ok):
        return Agg(c.ret, 0, [])
    return z3.If(ok, s.constructor(1)(x), s.constructor(0)())


@model("core::num::<impl>::checked_div", "ethnum::uint::api::<impl>::checked_div", "ethnum::uint::api::<impl>::checked_rem", "core::num::<impl>::checked_rem")
def _checkeddiv(c):
    e = c.eng
    a, b = val(c, 0), val(c, 1)
    x = a / b if c.callee.method.endswith("div") else a % b
    s = e.S.sort(c.ret)
    return z3.If(b == 0, s.constructor(0)(), s.constructor(1)(x))


@model("core::num::<impl>::saturating_add", "core::num::<impl>::saturating_sub", "core::num::<impl>::saturating_mul",
       "ethnum::uint::api::<impl>::saturating_add", "ethnum::uint::api::<impl>::saturating_sub", "ethnum::uint::api::<impl>::saturating_mul")
def _sat(c):
    e = c.eng
    a, b = val(c, 0), val(c, 1)
    o = c.callee.method[11:]
    x = a + b if o == "add" else a - b if o == "sub" else a * b
    lo, hi = irange(e, c.argtys[0])
    return simp(z3.If(x > hi, z3.IntVal(hi), z3.If(x < lo, z3.IntVal(lo), x)))


@model("core::num::<impl>::wrapping_add", "core::num::<impl>::wrapping_sub", "core::num::<impl>::wrapping_mul",
       "ethnum::uint::api::<impl>::wrapping_add", "ethnum::uint::api::<impl>::wrapping_sub", "ethnum::uint::api::<impl>::wrapping_mul")
def _wrapping(c):
    a, b = val(c, 0), val(c, 1)
    o = c.callee.method[9:]
    x = a + b if o == "add" else a - b if o == "sub" else a * b
    lo, hi = irange(c.eng, c.argtys[0])
    m = hi - lo + 1
    return simp((x - lo) % m + lo)


@model("core::num::<impl>::overflowing_add", "core::num::<impl>::overflowing_sub", "core::num::<impl>::overflowing_mul",
       "ethnum::uint::api::<impl>::overflowing_add", "ethnum::uint::api::<impl>::overflowing_sub", "ethnum::uint::api::<impl>::overflowing_mul")
def _overflowing(c):
    a, b = val(c, 0), val(c, 1)
    o = c.callee.method[12:]
    x = a + b if o == "add" else a - b if o == "sub" else a * b
    lo, hi = irange(c.eng, c.argtys[0])
    m = hi - lo + 1
    return Agg(c.ret, None, [simp((x - lo) % m + lo), simp(z3.Or(x < lo, x > hi))])


@model("core::num::<impl>::abs_diff")
def _absdiff(c):
    a, b = val(c, 0), val(c, 1)
    return simp(z3.If(a > b, a - b, b - a))


@model("ethnum::uint::api::<impl>::div_euclid", "core::num::<impl>::div_euclid")
def _dive(c):
    a, b = val(c, 0), val(c, 1)
    return branch(c, b == 0, lambda s: T(s, "division by zero"), lambda s: R(s, simp(a / b)))


@model("core::num::<impl>::div_ceil")
def _divceil(c):
    a, b = val(c, 0), val(c, 1)
    return branch(c, b == 0, lambda s: T(s, "division by zero"), lambda s: R(s, simp((a + b - 1) / b)))


@model("core::num::<impl>::pow", "ethnum::uint::api::<impl>::pow")
def _pow(c):
    a, b = simp(val(c, 0)), simp(val(c, 1))
    if z3.is_int_value(a) and z3.is_int_value(b):
        x = a.as_long() ** b.as_long()
        lo, hi = irange(c.eng, c.argtys[0])
        if lo <= x <= hi:
            return z3.IntVal(x)
    raise Unsupported("pow")


@model("ethnum::U256::new", "ethnum::U256::as_u64#", "ethnum::uint::U256::new")
def _u256new(c):
    return val(c, 0)


@model("ethnum::U256::from_words")
def _u256words(c):
    return simp(val(c, 0) * 2**128 + val(c, 1))


@model("ethnum::U256::into_words")
def _u256intowords(c):
    v = val(c, 0)
    return Agg(c.ret, None, [simp(v / 2**128), simp(v % 2**128)])


@model("ethnum::U256::as_u64", "ethnum::U256::as_u128", "ethnum::U256::as_u8", "ethnum::U256::as_u32", "ethnum::U256::as_usize")
def _u256as(c):
    lo, hi = irange(c.eng, c.ret)
    return simp(val(c, 0) % (hi + 1))


@model("ethnum::U256::as_f64")
def _u256f(c):
    return Opaque("f64")


def be_bytes(e, st, v, n):
    v = simp(v)
    out = [simp((v / (256 ** (n - 1 - i))) % 256) for i in range(n)]
    return Lst(("int", "u8"), out)


@model("ethnum::uint::api::<impl>::to_be_bytes", "core::num::<impl>::to_be_bytes", "evm_rpc_types::Nat256::into_be_bytes")
def _tobe(c):
    e = c.eng
    n = c.ret[2]
    v = val(c, 0)
    z = simp(v)
    if z3.is_int_value(z):
        return be_bytes(e, c.st, z, n)
    # abstract bytes, tied to the value by from_be
    arr = e.uf(f"be_bytes{n}", z3.IntSort(), e.S.sort(c.ret))(z)
    c.st.facts += e.wf(c.ret, arr) + [beval(e, arr) == z, be_tie(e, arr, n)]
    return arr


def beval(e, z):
    """value of a byte sequence read as a big-endian natural number"""
    return e.uf("beval", z.sort(), z3.IntSort())(z)


def be_of(e, items):
    """big-endian value of that many bytes, as a function of the bytes alone"""
    return e.uf(f"be{len(items)}", *[z3.IntSort()] * len(items), z3.IntSort())(*items)


def be_tie(e, z, n):
    """the value of an n-byte sequence depends on its n bytes only"""
    if not isinstance(n, int) or n > 32:
        return z3.BoolVal(True)
    return beval(e, z) == be_of(e, [z3.Select(e.seq_arr(z), i) for i in range(n)])


def concrete_bytes(v):
    if isinstance(v, Lst) and all(z3.is_int_value(simp(x)) for x in v.items):
        return bytes(simp(x).as_long() for x in v.items)


@model("num_bigint::BigUint::from_bytes_be", "num_bigint::biguint::BigUint::from_bytes_be")
def _bigfrombe(c):
    e = c.eng
    v = val(c, 0)
    b = concrete_bytes(v)
    if b is not None:
        return z3.IntVal(int.from_bytes(b, "big"))
    z = e.z(v, c.argtys[0], c.st)
    r = beval(e, z)
    c.st.facts += [r >= 0]
    return r


@model("num_bigint::BigUint::to_bytes_be", "num_bigint::biguint::BigUint::to_bytes_be")
def _bigtobe(c):
    """minimal big-endian digits: at most n bytes exactly when the value is below 256^n"""
    e = c.eng
    z = val(c, 0)
    s = e.S.sort(c.ret)
    arr = e.uf("minbe", z3.IntSort(), s)(z)
    n = e.seq_len(arr)
    c.st.facts += e.wf(c.ret, arr) + [beval(e, arr) == z, n >= 1] + [(n <= k) == (z < 256 ** k) for k in (8, 16, 20, 32)]
    return arr


@model("ethnum::uint::api::<impl>::from_be_bytes", "core::num::<impl>::from_be_bytes", "evm_rpc_types::Nat256::from_be_bytes")
def _frombe(c):
    e = c.eng
    v = val(c, 0)
    n = e.S.norm(c.argtys[0])[2]
    b = concrete_bytes(v)
    if b is not None:
        return z3.IntVal(int.from_bytes(b, "big"))
    z = e.z(v, c.argtys[0], c.st)
    r = beval(e, z)
    g = e.uf(f"be_bytes{n}", z3.IntSort(), z.sort())
    c.st.facts += e.wf(c.ret, r) + [g(r) == z, be_tie(e, z, n)]
    return r


def _arith(op):
    def f(c):
        e = c.eng
        if c.callee.trait is not None and not intlike(e, c.argtys[0]):
            return e.unknown(c)
        a, b = val(c, 0), val(c, 1)
        lo, hi = irange(e, c.argtys[0])
        if op in ("Div", "Rem"):
            x = a / b if op == "Div" else a % b
            return branch(c, b == 0, lambda s: T(s, "division by zero"), lambda s: R(s, simp(x)))
        if op in ("Shr", "Shl"):
            return e.arith(c.st, op, a, b, c.argtys[0])
        x = simp(a + b if op == "Add" else a - b if op == "Sub" else a * b)
        ok = x >= lo if hi is None else z3.And(x >= lo, x <= hi)
        return branch(c, ok, lambda s: R(s, x), lambda s: T(s, f"arithmetic overflow in {op}"))
    return f


for _o, _m in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem"), ("Shr", "shr"), ("Shl", "shl")):
    TRAIT_MODELS[(_o, _m)] = _arith(_o)


def _arith_assign(op):
    f0 = _arith(op)

    def f(c):
        r = c.args[0]
        st = c.st
        from .engine import Call
        c2 = Call(c.eng, st, c.fr, c.callee, [c.eng.deref(st, r), c.args[1]], [c.eng.strip_ref(c.argtys[0]), c.argtys[1]], c.eng.strip_ref(c.argtys[0]))
        o = f0(c2)
        outs = o if isinstance(o, list) else R(st, o)

        def fin(s, v):
            c.eng.write(s, r.cell, r.projs, v)
            return R(s, unit())
        return then(outs, fin)
    return f


for _o in ("Add", "Sub", "Mul", "Div"):
    TRAIT_MODELS[(_o + "Assign", _o.lower() + "_assign")] = _arith_assign(_o)


@model("core::bool::<impl>::then_some")
def _thensome(c):
    return branch(c, val(c, 0), lambda s: R(s, Agg(c.ret, 1, [c.args[1]])), lambda s: R(s, Agg(c.ret, 0, [])))


@model("core::bool::<impl>::then")
def _then(c):
    return branch(c, val(c, 0), lambda s: then(callf(c, s, c.args[1], [], c.ret[2][0]), lambda s2, v: R(s2, Agg(c.ret, 1, [v]))),
                  lambda s: R(s, Agg(c.ret, 0, [])))


@model("ethnum::uint::api::<impl>::leading_zeros", "core::num::<impl>::leading_zeros")
def _lz(c):
    e = c.eng
    v = val(c, 0)
    lo, hi = irange(e, c.argtys[0])
    bits = (hi + 1).bit_length() - 1
    r = e.uf(f"lz{bits}", z3.IntSort(), z3.IntSort())(v)
    c.st.facts += [r >= 0, r <= bits, (r == bits) == (v == 0)]
    for k in range(8, bits + 1, 8):
        c.st.facts.append((r >= bits - k) == (v < 2 ** k))
    return r


CONSTS["ethnum::U256::MAX"] = lambda e, st, fr, t: z3.IntVal(U256_MAX)
CONSTS["ethnum::U256::ZERO"] = lambda e, st, fr, t: z3.IntVal(0)
CONSTS["ethnum::U256::MIN"] = lambda e, st, fr, t: z3.IntVal(0)
CONSTS["ethnum::U256::ONE"] = lambda e, st, fr, t: z3.IntVal(1)
CONSTS["ethnum::uint::api::<impl ethnum::U256>::MAX"] = CONSTS["ethnum::U256::MAX"]


# ---------------------------------------------------------------- maps and sets
def mapinfo(c, i=0):
    t = c.eng.strip_ref(c.argtys[i])
    return t[2][0], t[2][1]


def key(c, i, kt):
    return c.eng.z(c.eng.deref(c.st, c.args[i]), kt, c.st)


def getm(c, i=0):
    return c.eng.deref(c.st, c.args[i])


def maplen(c, m, st):
    e = c.eng
    f = e.uf(f"maplen[{m.sort()}]", m.sort(), z3.IntSort())
    st.facts += [f(m) >= 0, f(m) <= 2**40]
    ks = m.sort().domain()
    # emptiness
    if m.sort().range() == z3.BoolSort():
        emp = z3.K(ks, z3.BoolVal(False))
    else:
        emp = z3.K(ks, m.sort().range().constructor(0)())
    st.facts.append((f(m) == 0) == (m == emp))
    return f(m)


def link_len(c, st, old, new, delta_cond, sign):
    """len bookkeeping between two versions of a map"""
    e = c.eng
    f = e.uf(f"maplen[{old.sort()}]", old.sort(), z3.IntSort())
    st.facts += [f(old) >= 0, f(old) <= 2**40, f(new) == z3.If(delta_cond, f(old) + sign, f(old))]


@model(*[f"{m}::new" for m in MAPS], *[f"{m}::new" for m in SETS], *[f"{m}::default" for m in MAPS | SETS])
def _mapnew(c):
    return default(c.eng, c.st, c.ret)


@model(*[f"{m}::get" for m in MAPS])
def _mapget(c):
    kt, vt = mapinfo(c)
    m, k = getm(c), key(c, 1, kt)
    r = simp(z3.Select(m, k))
    c.st.facts += c.eng.wf(opt(vt), r, 3)
    return r


@model(*[f"{m}::contains_key" for m in MAPS])
def _mapck(c):
    kt, vt = mapinfo(c)
    m, k = getm(c), key(c, 1, kt)
    r = simp(z3.Select(m, k))
    return simp(r.sort().recognizer(1)(r))


@model(*[f"{m}::get_mut" for m in MAPS])
def _mapgetmut(c):
    kt, vt = mapinfo(c)
    ref = c.args[0]
    m, k = getm(c), key(c, 1, kt)
    r = simp(z3.Select(m, k))
    return branch(c, r.sort().recognizer(1)(r), lambda s: R(s, Agg(c.ret, 1, [MRef(ref.cell, ref.projs + (("m", k, vt),))])),
                  lambda s: R(s, Agg(c.ret, 0, [])))


@model(*[f"{m}::insert" for m in MAPS])
def _mapins(c):
    kt, vt = mapinfo(c)
    e, ref = c.eng, c.args[0]
    m, k = getm(c), key(c, 1, kt)
    old = simp(z3.Select(m, k))
    nm = z3.Store(m, k, old.sort().constructor(1)(e.z(e.deref(c.st, c.args[2]) if not isinstance(c.args[2], MRef) else c.args[2], vt, c.st)))
    link_len(c, c.st, m, nm, old.sort().recognizer(0)(old), 1)
    e.write(c.st, ref.cell, ref.projs, nm)
    c.st.facts += e.wf(opt(vt), old, 3)
    return old


@model(*[f"{m}::remove" for m in MAPS], *[f"{m}::remove_entry" for m in MAPS])
def _maprem(c):
    kt, vt = mapinfo(c)
    e, ref = c.eng, c.args[0]
    m, k = getm(c), key(c, 1, kt)
    old = simp(z3.Select(m, k))
    nm = z3.Store(m, k, old.sort().constructor(0)())
    link_len(c, c.st, m, nm, old.sort().recognizer(1)(old), -1)
    e.write(c.st, ref.cell, ref.projs, nm)
    c.st.facts += e.wf(opt(vt), old, 3)
    if c.callee.method == "remove":
        return old
    t2 = c.ret[2][0]
    return branch(c, old.sort().recognizer(1)(old), lambda s: R(s, Agg(c.ret, 1, [Agg(t2, None, [k, e.acc(old.sort().accessor(1, 0), old)])])),
                  lambda s: R(s, Agg(c.ret, 0, [])))


@model(*[f"{m}::len" for m in MAPS | SETS])
def _maplen(c):
    return maplen(c, getm(c), c.st)


@model(*[f"{m}::is_empty" for m in MAPS | SETS])
def _mapempty(c):
    m = getm(c)
    maplen(c, m, c.st)
    ks = m.sort().domain()
    emp = z3.K(ks, z3.BoolVal(False)) if m.sort().range() == z3.BoolSort() else z3.K(ks, m.sort().range().constructor(0)())
    return m == emp


@model(*[f"{m}::clear" for m in MAPS | SETS])
def _mapclear(c):
    c.eng.write(c.st, c.args[0].cell, c.args[0].projs, default(c.eng, c.st, c.eng.strip_ref(c.argtys[0])))
    return unit()


@model(*[f"{m}::entry" for m in MAPS])
def _mapentry(c):
    kt, vt = mapinfo(c)
    en = Entry(c.args[0], key(c, 1, kt), kt, vt)
    m = "btree_map" if "BTree" in c.callee.name or c.eng.strip_ref(c.argtys[0])[1].endswith("BTreeMap") else "hash_map"
    t = ("adt", f"std::collections::{m}::Entry", (kt, vt))
    o = simp(z3.Select(c.eng.read(c.st, en.ref.cell, en.ref.projs), en.k))
    return branch(c, o.sort().recognizer(1)(o), lambda s: R(s, c.eng.mk(t, "Occupied", en)), lambda s: R(s, c.eng.mk(t, "Vacant", en)))


def entry_of(v):
    return v.f[0] if isinstance(v, Agg) else v


class Entry(Opaque):
    __slots__ = ("ref", "k", "kt", "vt")

    def __init__(self, ref, k, kt, vt):
        Opaque.__init__(self, "entry")
        self.ref, self.k, self.kt, self.vt = ref, k, kt, vt


ENTRY = [f"std::collections::{a}::Entry" for a in ("btree_map", "hash_map")]
VENTRY = [f"std::collections::{a}::VacantEntry" for a in ("btree_map", "hash_map")]
OENTRY = [f"std::collections::{a}::OccupiedEntry" for a in ("btree_map", "hash_map")]


def entry_slot(c, en, s):
    return MRef(en.ref.cell, en.ref.projs + (("m", en.k, en.vt),))


def entry_fill(c, en, s, v):
    e = c.eng
    m = e.read(s, en.ref.cell, en.ref.projs)
    os = m.sort().range()
    nm = z3.Store(m, en.k, os.constructor(1)(e.z(v, en.vt, s)))
    link_len(c, s, m, nm, os.recognizer(0)(z3.Select(m, en.k)), 1)
    e.write(s, en.ref.cell, en.ref.projs, nm)


@model(*[f"{e}::or_insert" for e in ENTRY], *[f"{e}::or_insert_with" for e in ENTRY], *[f"{e}::or_default" for e in ENTRY])
def _orinsert(c):
    en = entry_of(c.args[0])
    m = c.eng.read(c.st, en.ref.cell, en.ref.projs)
    o = simp(z3.Select(m, en.k))

    def fill(s):
        def f(s2, v):
            entry_fill(c, en, s2, v)
            return R(s2, entry_slot(c, en, s2))
        if c.callee.method == "or_insert":
            return f(s, c.args[1])
        if c.callee.method == "or_default":
            return f(s, default(c.eng, s, en.vt))
        return then(callf(c, s, c.args[1], [], en.vt), f)
    return branch(c, o.sort().recognizer(1)(o), lambda s: R(s, entry_slot(c, en, s)), fill)


@model(*[f"{m}::insert" for m in VENTRY])
def _vinsert(c):
    en = c.args[0]
    entry_fill(c, en, c.st, c.args[1])
    return entry_slot(c, en, c.st)


@model(*[f"{m}::{k}" for m in OENTRY for k in ("get", "get_mut", "into_mut")])
def _oget(c):
    en = c.eng.deref(c.st, c.args[0]) if isinstance(c.args[0], MRef) else c.args[0]
    return entry_slot(c, en, c.st)


@model(*[f"{m}::{k}" for m in VENTRY + OENTRY + ENTRY for k in ("key",)])
def _ekey(c):
    v = c.eng.deref(c.st, c.args[0]) if isinstance(c.args[0], MRef) else c.args[0]
    return entry_of(v).k


@model(*[f"{m}::{k}" for m in OENTRY for k in ("insert", "remove")])
def _oins(c):
    e = c.eng
    en = e.deref(c.st, c.args[0]) if isinstance(c.args[0], MRef) else c.args[0]
    m = e.read(c.st, en.ref.cell, en.ref.projs)
    os = m.sort().range()
    old = simp(os.accessor(1, 0)(z3.Select(m, en.k)))
    if c.callee.method == "insert":
        entry_fill(c, en, c.st, c.args[1])
    else:
        nm = z3.Store(m, en.k, os.constructor(0)())
        link_len(c, c.st, m, nm, os.recognizer(1)(z3.Select(m, en.k)), -1)
        e.write(c.st, en.ref.cell, en.ref.projs, nm)
    return old


@model(*[f"{m}::and_modify" for m in ENTRY])
def _andmod(c):
    v = c.args[0]
    en = entry_of(v)
    if c.eng.S.adt_def(v.ty)[v.var][0] == "Vacant":
        return v
    return then(callf(c, c.st, c.args[1], [entry_slot(c, en, c.st)], UNIT_T), lambda s, _: R(s, v))


@model(*[f"{m}::insert" for m in SETS])
def _setins(c):
    e, ref = c.eng, c.args[0]
    kt = e.strip_ref(c.argtys[0])[2][0]
    m, k = getm(c), key(c, 1, kt)
    old = simp(z3.Select(m, k))
    nm = z3.Store(m, k, z3.BoolVal(True))
    link_len(c, c.st, m, nm, z3.Not(old), 1)
    e.write(c.st, ref.cell, ref.projs, nm)
    return simp(z3.Not(old))


@model(*[f"{m}::remove" for m in SETS])
def _setrem(c):
    e, ref = c.eng, c.args[0]
    kt = e.strip_ref(c.argtys[0])[2][0]
    m, k = getm(c), key(c, 1, kt)
    old = simp(z3.Select(m, k))
    nm = z3.Store(m, k, z3.BoolVal(False))
    link_len(c, c.st, m, nm, old, -1)
    e.write(c.st, ref.cell, ref.projs, nm)
    return old


@model(*[f"{m}::contains" for m in SETS])
def _setcontains(c):
    kt = c.eng.strip_ref(c.argtys[0])[2][0]
    return simp(z3.Select(getm(c), key(c, 1, kt)))


@model(*[f"{m}::get" for m in SETS], *[f"{m}::take" for m in SETS])
def _setget(c):
    kt = c.eng.strip_ref(c.argtys[0])[2][0]
    m, k = getm(c), key(c, 1, kt)
    old = simp(z3.Select(m, k))
    if c.callee.method == "take":
        nm = z3.Store(m, k, z3.BoolVal(False))
        link_len(c, c.st, m, nm, old, -1)
        c.eng.write(c.st, c.args[0].cell, c.args[0].projs, nm)
    s = c.eng.S.sort(c.ret)
    return z3.If(old, s.constructor(1)(k), s.constructor(0)())


def keyseq(c, st, m, kt):
    """(n, key array) enumerating a map's or set's keys in ascending order"""
    e = c.eng
    ks = m.sort().domain()
    isset = m.sort().range() == z3.BoolSort()
    arrf = e.uf(f"keyseq[{m.sort()}]", m.sort(), z3.ArraySort(z3.IntSort(), ks))
    idx = e.uf(f"keyidx[{m.sort()}]", m.sort(), ks, z3.IntSort())
    n = maplen(c, m, st)
    a = arrf(m)
    i, j = z3.Ints("ki kj")
    k = z3.Const("kk", ks)

    def has(x):
        o = z3.Select(m, x)
        return o if isset else o.sort().recognizer(1)(o)
    st.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(has(z3.Select(a, i)), idx(m, z3.Select(a, i)) == i)),
                              patterns=[z3.Select(a, i)]))
    st.facts.append(z3.ForAll([k], z3.Implies(has(k), z3.And(idx(m, k) >= 0, idx(m, k) < n, z3.Select(a, idx(m, k)) == k)),
                              patterns=[idx(m, k), z3.Select(m, k)] if not z3.is_const(m) or True else None))
    l = lt_sym(e, kt, st)
    if l is not None:
        st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), l(z3.Select(a, i), z3.Select(a, j))),
                                  patterns=[z3.MultiPattern(z3.Select(a, i), z3.Select(a, j))]))
    return n, a


def lt_sym(e, kt, st):
    def f(x, y):
        s2 = type(st)()
        return lt(e, kt, x, y, s2)
    return f


@model(*[f"{m}::iter" for m in MAPS], *[f"{m}::keys" for m in MAPS], *[f"{m}::values" for m in MAPS], *[f"{m}::iter" for m in SETS],
       *[f"{m}::into_values" for m in MAPS], *[f"{m}::into_keys" for m in MAPS], *[f"{m}::drain" for m in SETS])
def _mapiter(c):
    what = {"into_values": "values", "into_keys": "keys"}.get(c.callee.method, c.callee.method)
    return map_iter(c, getm(c), c.eng.strip_ref(c.argtys[0]), what)


def map_iter(c, m, t, what):
    e = c.eng
    kt = t[2][0]
    n, a = keyseq(c, c.st, m, kt)
    if m.sort().range() == z3.BoolSort() or what == "keys":
        return Iter(n, lambda st, i: rd(e, st, kt, z3.Select(a, i)), kt, tag=("map", m))
    vt = t[2][1]

    def atv(st, i):
        o = z3.Select(m, z3.Select(a, i))
        return rd(e, st, vt, e.acc(o.sort().accessor(1, 0), o))
    if what == "values":
        return Iter(n, atv, vt, tag=("map", m))
    pt = ("tuple", (kt, vt))
    return Iter(n, lambda st, i: Agg(pt, None, [rd(e, st, kt, z3.Select(a, i)), atv(st, i)]), pt, tag=("map", m))


def rd(e, st, t, z):
    if st is not None:
        st.facts += e.wf(t, z, 2)
    return z


@model(*[f"{m}::last_key_value" for m in MAPS], *[f"{m}::first_key_value" for m in MAPS], *[f"{m}::pop_last" for m in MAPS],
       *[f"{m}::pop_first" for m in MAPS], *[f"{m}::first" for m in SETS], *[f"{m}::last" for m in SETS],
       *[f"{m}::pop_first" for m in SETS], *[f"{m}::pop_last" for m in SETS])
def _mapend(c):
    e = c.eng
    m = getm(c)
    t = e.strip_ref(c.argtys[0])
    kt = t[2][0]
    isset = m.sort().range() == z3.BoolSort()
    ks = m.sort().domain()
    emp = z3.K(ks, z3.BoolVal(False)) if isset else z3.K(ks, m.sort().range().constructor(0)())
    lastk = "last" in c.callee.method
    f = e.uf(f"{'max' if lastk else 'min'}key[{m.sort()}]", m.sort(), ks)
    k = f(m)

    def has(x):
        o = z3.Select(m, x)
        return o if isset else o.sort().recognizer(1)(o)

    def some(s):
        x = z3.Const("kk", ks)
        l = lt_sym(e, kt, s)
        s.facts += [has(k), z3.ForAll([x], z3.Implies(has(x), z3.Or(x == k, l(x, k) if lastk else l(k, x))), patterns=[z3.Select(m, x)])]
        s.facts += e.wf(kt, k)
        if isset:
            v = k
        else:
            v = Agg(("tuple", (kt, t[2][1])), None, [k, e.map_val(s, m, k, t[2][1])])
        if c.callee.method.startswith("pop"):
            nm = z3.Store(m, k, z3.BoolVal(False) if isset else m.sort().range().constructor(0)())
            link_len(c, s, m, nm, z3.BoolVal(True), -1)
            e.write(s, c.args[0].cell, c.args[0].projs, nm)
        return R(s, Agg(c.ret, 1, [v]))
    return branch(c, m == emp, lambda s: R(s, Agg(c.ret, 0, [])), some)


# ---------------------------------------------------------------- sequences
@model("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::VecDeque::new", "std::collections::VecDeque::with_capacity")
def _vecnew(c):
    return Lst(c.ret[2][0], [])


@model("std::string::String::new")
def _strnew(c):
    return c.eng.strlit("")


@model("std::vec::Vec::len", "core::slice::<impl>::len", "std::collections::VecDeque::len")
def _veclen(c):
    v = val(c, 0)
    n = c.eng.seq_len(v)
    if not z3.is_int_value(n):
        c.st.facts += [n >= 0, n <= 2**40]
    return n


@model("std::vec::Vec::is_empty", "core::slice::<impl>::is_empty", "std::collections::VecDeque::is_empty")
def _vecempty(c):
    return simp(c.eng.seq_len(val(c, 0)) == 0)


@model("core::str::<impl>::len", "std::string::String::len")
def _strlen(c):
    e = c.eng
    f = e.uf("strlen", e.S.usort("Str"), z3.IntSort())
    v = val(c, 0)
    r = f(v)
    c.st.facts += [r >= 0, r <= 2**40, (r == 0) == (v == e.strlit(""))]
    return r


@model("core::str::<impl>::is_empty", "std::string::String::is_empty")
def _strempty(c):
    return val(c, 0) == c.eng.strlit("")


def seqz(c, st, v, et):
    return c.eng.z(v, ("slice", et), st)


@model("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def _push(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.strip_ref(c.argtys[0])[2][0]
    x = c.args[1]
    if isinstance(v, Lst):
        nv = Lst(v.elem, v.items + [x])
    else:
        n = e.seq_len(v)
        nv = e.seq_mk(et, n + 1, z3.Store(e.seq_arr(v), n, e.z(x, et, c.st)))
    e.write(c.st, ref.cell, ref.projs, nv)
    return unit()


@model("std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def _pop(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.strip_ref(c.argtys[0])[2][0]
    if isinstance(v, Lst):
        if not v.items:
            return Agg(c.ret, 0, [])
        e.write(c.st, ref.cell, ref.projs, Lst(v.elem, v.items[:-1]))
        return Agg(c.ret, 1, [v.items[-1]])
    n = e.seq_len(v)
    c.st.facts.append(n >= 0)

    def some(s):
        x = e.seq_at(s, v, n - 1, et)
        es = e.S.sort(et)
        e.write(s, ref.cell, ref.projs, e.seq_mk(et, n - 1, z3.Store(e.seq_arr(v), n - 1, e.default_elem(es))))
        return R(s, Agg(c.ret, 1, [x]))
    return branch(c, n == 0, lambda s: R(s, Agg(c.ret, 0, [])), some)


def shifted(e, st, et, n, f, name="shift"):
    """new sequence of length n with element i equal to f(i)"""
    es = e.S.sort(et)
    a = e.const(z3.ArraySort(z3.IntSort(), es), name)
    i = z3.Int("i!sh")
    st.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a, i) == f(i)), patterns=[z3.Select(a, i)]))
    return e.seq_mk(et, n, a)


@model("std::collections::VecDeque::pop_front")
def _popfront(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.strip_ref(c.argtys[0])[2][0]
    if isinstance(v, Lst):
        if not v.items:
            return Agg(c.ret, 0, [])
        e.write(c.st, ref.cell, ref.projs, Lst(v.elem, v.items[1:]))
        return Agg(c.ret, 1, [v.items[0]])
    n = e.seq_len(v)
    arr = e.seq_arr(v)
    c.st.facts.append(n >= 0)

    def some(s):
        x = e.seq_at(s, v, z3.IntVal(0), et)
        e.write(s, ref.cell, ref.projs, shifted(e, s, et, n - 1, lambda i: z3.Select(arr, i + 1)))
        return R(s, Agg(c.ret, 1, [x]))
    return branch(c, n == 0, lambda s: R(s, Agg(c.ret, 0, [])), some)


@model("std::collections::VecDeque::push_front")
def _pushfront(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.strip_ref(c.argtys[0])[2][0]
    if isinstance(v, Lst):
        e.write(c.st, ref.cell, ref.projs, Lst(v.elem, [c.args[1]] + v.items))
        return unit()
    n, arr, x = e.seq_len(v), e.seq_arr(v), e.z(c.args[1], et, c.st)
    e.write(c.st, ref.cell, ref.projs, shifted(e, c.st, et, n + 1, lambda i: z3.If(i == 0, x, z3.Select(arr, i - 1))))
    return unit()


@model("std::vec::Vec::insert")
def _vinsert(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.strip_ref(c.argtys[0])[2][0]
    k = simp(val(c, 1))
    if isinstance(v, Lst) and z3.is_int_value(k) and k.as_long() <= len(v.items):
        it = list(v.items)
        it.insert(k.as_long(), c.args[2])
        e.write(c.st, ref.cell, ref.projs, Lst(v.elem, it))
        return unit()
    n, arr, x = e.seq_len(v), e.seq_arr(v, c.st), e.z(c.args[2], et, c.st)

    def ok(s):
        e.write(s, ref.cell, ref.projs, shifted(e, s, et, n + 1, lambda i: z3.If(i < k, z3.Select(arr, i), z3.If(i == k, x, z3.Select(arr, i - 1)))))
        return R(s, unit())
    return branch(c, k <= n, ok, lambda s: T(s, "Vec::insert out of bounds"))


@model("std::vec::Vec::remove")
def _vremove(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.strip_ref(c.argtys[0])[2][0]
    k = simp(val(c, 1))
    n, arr = e.seq_len(v), e.seq_arr(v, c.st)

    def ok(s):
        x = e.seq_at(s, v, k, et)
        e.write(s, ref.cell, ref.projs, shifted(e, s, et, n - 1, lambda i: z3.If(i < k, z3.Select(arr, i), z3.Select(arr, i + 1))))
        return R(s, x)
    return branch(c, z3.And(k < n, k >= 0), ok, lambda s: T(s, "Vec::remove out of bounds"))


@model("std::vec::Vec::clear", "std::collections::VecDeque::clear")
def _vclear(c):
    c.eng.write(c.st, c.args[0].cell, c.args[0].projs, Lst(c.eng.strip_ref(c.argtys[0])[2][0], []))
    return unit()


@model("std::vec::Vec::truncate")
def _vtrunc(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    k, n = val(c, 1), e.seq_len(v)
    m = simp(z3.If(k < n, k, n))
    if isinstance(v, Lst) and z3.is_int_value(m):
        nv = Lst(v.elem, v.items[:m.as_long()])
    else:
        et = e.seq_elem(v)
        nv = e.seq_mk(et, m, e.seq_arr(e.z(v, ("slice", et), c.st) if isinstance(v, Lst) else v))
    e.write(c.st, ref.cell, ref.projs, nv)
    return unit()


@model(*[f"{p}::slice::<impl>::{m}" for p in ("std", "core") for m in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort", "sort_unstable")])
def _sortseq(c):
    """a permutation of the elements in the order of the comparison; equal elements keep their order if the sort is stable.
    The comparison has to be a total preorder: that is an obligation."""
    e, st, ref = c.eng, c.st, c.args[0]
    v = e.deref(st, ref)
    et = e.seq_elem(v)
    m = c.callee.method
    z = e.z(v, ("slice", et), st) if isinstance(v, Lst) else v
    n, arr = e.seq_len(z), e.seq_arr(z)
    OT = ("adt", "std::cmp::Ordering", ())
    os = e.S.sort(OT)

    def cmp(s, x, y):
        """is x after y? evaluated on symbolic elements, without side effects"""
        if m.endswith("by"):
            s2, o, traps = pure(c, s, callf(c, s.fork(), c.args[1], [x, y], OT))
            no_traps(c, traps)
            return s2, os.recognizer(2)(e.z(o, OT, s2))
        if m.endswith("key"):
            kt = e.clo_ret_ty(c.args[1], s)
            s2, kx, t1 = pure(c, s, callf(c, s.fork(), c.args[1], [x], kt))
            s3, ky, t2 = pure(c, s2, callf(c, s2.fork(), c.args[1], [y], kt))
            no_traps(c, t1 + t2)
            return s3, lt(e, kt, ky, kx, s3)
        return s, lt(e, et, y, x, s)
    n0 = e.nfresh
    a, b = e.const(e.S.sort(et), "ca"), e.const(e.S.sort(et), "cb")
    n1 = e.nfresh
    s = st.fork()
    k0, p0 = len(s.facts), len(s.pc)
    s, after = cmp(s, a, b)
    extra = s.facts[k0:] + [x for x in s.pc[p0:] if not z3.is_true(simp(x))]
    new = set()
    for x in extra + [after]:
        collect_new(x, n1, new)
    if new or extra:
        extra = [x for x in extra if not z3.is_true(simp(x))]
    if new:
        raise Unsupported("comparison with side results")
    gt = lambda x, y: z3.substitute(after, (a, x), (b, y))     # noqa
    d = e.const(e.S.sort(et), "cc")
    wf = e.wf(et, a, 2) + e.wf(et, b, 2) + e.wf(et, d, 2)
    e.oblige(st, "the sort's comparison is a total preorder", z3.Implies(z3.And(wf + extra) if wf + extra else z3.BoolVal(True),
             z3.And(z3.Not(z3.And(gt(a, b), gt(b, a))), z3.Implies(z3.And(z3.Not(gt(a, b)), z3.Not(gt(b, d))), z3.Not(gt(a, d))))))
    e.nfresh += 1
    P, Q = z3.Function(f"perm!{e.nfresh}", z3.IntSort(), z3.IntSort()), z3.Function(f"mrep!{e.nfresh}", z3.IntSort(), z3.IntSort())
    na = e.const(arr.sort(), "sorted")
    if not z3.is_const(arr):
        named = e.const(arr.sort(), "arr")
        st.facts.append(named == arr)
        arr = named
    i, j = z3.Ints("si sj")
    rng = lambda x: z3.And(x >= 0, x < n)     # noqa
    st.facts.append(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(P(i)), Q(P(i)) == i, z3.Select(na, i) == z3.Select(arr, P(i)))), patterns=[z3.Select(na, i), P(i)]))
    st.facts.append(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(Q(i)), P(Q(i)) == i, z3.Select(na, Q(i)) == z3.Select(arr, i))), patterns=[z3.Select(arr, i), Q(i)]))
    order = z3.Not(gt(z3.Select(na, i), z3.Select(na, j)))
    if "unstable" not in m:
        order = z3.And(order, z3.Or(gt(z3.Select(na, j), z3.Select(na, i)), P(i) < P(j)))
    st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), order), patterns=[z3.MultiPattern(z3.Select(na, i), z3.Select(na, j))]))
    e.write(st, ref.cell, ref.projs, e.seq_mk(et, n, na))
    return unit()


def opt_ref(c, cond, mk):
    return branch(c, cond, lambda s: R(s, Agg(c.ret, 1, [mk(s)])), lambda s: R(s, Agg(c.ret, 0, [])))


@model("core::slice::<impl>::first", "std::collections::VecDeque::front")
def _first(c):
    v = val(c, 0)
    return opt_ref(c, c.eng.seq_len(v) > 0, lambda s: c.eng.seq_at(s, v, z3.IntVal(0)))


@model("core::slice::<impl>::last", "std::collections::VecDeque::back")
def _last(c):
    v = val(c, 0)
    n = c.eng.seq_len(v)
    return opt_ref(c, n > 0, lambda s: c.eng.seq_at(s, v, simp(n - 1)))


@model("core::slice::<impl>::first_mut", "std::collections::VecDeque::front_mut", "core::slice::<impl>::last_mut", "std::collections::VecDeque::back_mut")
def _lastmut(c):
    v, ref = val(c, 0), c.args[0]
    n = c.eng.seq_len(v)
    i = z3.IntVal(0) if c.callee.method.startswith("f") else simp(n - 1)
    et = c.eng.seq_elem(v)
    return opt_ref(c, n > 0, lambda s: MRef(ref.cell, ref.projs + (("i", i, et),)))


@model("core::slice::<impl>::get", "std::collections::VecDeque::get")
def _sget(c):
    v = val(c, 0)
    t = c.eng.S.norm(c.argtys[1])
    n = c.eng.seq_len(v)
    if t[0] == "int":
        i = val(c, 1)
        return opt_ref(c, z3.And(i >= 0, i < n), lambda s: c.eng.seq_at(s, v, i))
    lo, hi = rng(c, val(c, 1), t, n)
    return opt_ref(c, z3.And(lo <= hi, hi <= n), lambda s: c.eng.subslice(s, v, simp(lo), simp(hi)))


@model("core::slice::<impl>::get_mut", "std::collections::VecDeque::get_mut")
def _sgetmut(c):
    v, ref = val(c, 0), c.args[0]
    i = val(c, 1)
    et = c.eng.seq_elem(v)
    return opt_ref(c, z3.And(i >= 0, i < c.eng.seq_len(v)), lambda s: MRef(ref.cell, ref.projs + (("i", i, et),)))


def rng(c, r, t, n):
    e = c.eng
    f = lambda i: e.proj_field(c.st, r, i, t[2][0])   # noqa
    if t[1] == "std::ops::Range":
        return f(0), f(1)
    if t[1] == "std::ops::RangeFrom":
        return f(0), n
    if t[1] == "std::ops::RangeTo":
        return z3.IntVal(0), f(0)
    if t[1] == "std::ops::RangeFull":
        return z3.IntVal(0), n
    if t[1] == "std::ops::RangeInclusive":
        return f(0), f(1) + 1
    raise Unsupported("range " + show(t))


@tmodel("Index.index")
def _index(c):
    e = c.eng
    v = val(c, 0)
    t0 = e.S.norm(c.argtys[0])
    if t0[0] == "adt" and t0[1] in MAPS:
        kt, vt = t0[2]
        k = key(c, 1, kt)
        o = simp(z3.Select(v, k))
        return branch(c, o.sort().recognizer(1)(o), lambda s: R(s, e.map_val(s, v, k, vt)), lambda s: T(s, "map index"))
    t = e.S.norm(c.argtys[1])
    if t0 == ("str",) or t0[0] == "adt" and t0[1] == "std::string::String":
        # a substring by byte positions: traps outside the text (character boundaries: not modelled beyond position 0 and the end of a known prefix)
        zv = e.z(v, ("str",), c.st)
        f = e.uf("strlen", zv.sort(), z3.IntSort())
        lo, hi = rng(c, val(c, 1), t, f(zv))
        c.st.facts.append(f(zv) >= 0)
        sub = e.uf("substr", zv.sort(), z3.IntSort(), z3.IntSort(), zv.sort())(zv, lo, hi)
        return branch(c, z3.And(lo <= hi, hi <= f(zv)), lambda s: R(s, sub), lambda s: T(s, "str slice out of bounds"))
    if not e.S.is_seq_type(t0):
        return e.unknown(c)
    n = e.seq_len(v)
    if t[0] == "int":
        i = val(c, 1)
        return branch(c, z3.And(i >= 0, i < n), lambda s: R(s, e.seq_at(s, v, i)), lambda s: T(s, "index out of bounds"))
    lo, hi = rng(c, val(c, 1), t, n)
    def cut(s):
        r = e.subslice(s, v, simp(lo), simp(hi))
        if z3.is_app(v) and v.decl().name() == "be_bytes32" and z3.is_true(simp(hi == n)):
            wire.suffix_facts(e, s, v, e.z(r, ("slice", ("int", "u8")), s), lo, hi)
        return R(s, r)
    return branch(c, z3.And(lo <= hi, hi <= n), cut, lambda s: T(s, "slice out of bounds"))


@tmodel("IndexMut.index_mut")
def _indexmut(c):
    e = c.eng
    ref = c.args[0]
    v = e.deref(c.st, ref)
    t = e.S.norm(c.argtys[1])
    n = e.seq_len(v)
    if t[0] == "int":
        i = val(c, 1)
        return branch(c, z3.And(i >= 0, i < n), lambda s: R(s, MRef(ref.cell, ref.projs + (("i", i, e.seq_elem(v)),))), lambda s: T(s, "index out of bounds"))
    lo, hi = rng(c, val(c, 1), t, n)
    return branch(c, z3.And(lo <= hi, hi <= n), lambda s: R(s, MRef(ref.cell, ref.projs + (("s", simp(lo), simp(hi)),))), lambda s: T(s, "slice out of bounds"))


@model("core::slice::<impl>::copy_from_slice", "core::slice::<impl>::clone_from_slice")
def _copyfrom(c):
    e, ref = c.eng, c.args[0]
    src = val(c, 1)
    if ref.projs and ref.projs[-1][0] == "s":
        _, lo, hi = ref.projs[-1]
        base = e.read(c.st, ref.cell, ref.projs[:-1])
        l, h = simp(lo), simp(hi)
        ok = simp(e.seq_len(src) == h - l)

        def good(s):
            if isinstance(base, Lst) and z3.is_int_value(l) and z3.is_int_value(h):
                it = list(base.items)
                for k in range(l.as_long(), h.as_long()):
                    it[k] = e.seq_at(s, src, z3.IntVal(k - l.as_long()))
                e.write(s, ref.cell, ref.projs[:-1], Lst(base.elem, it))
            else:
                et = e.seq_elem(base)
                n, ba, sa = e.seq_len(base), e.seq_arr(base, s), e.seq_arr(src, s)
                nv = shifted(e, s, et, n, lambda i: z3.If(z3.And(i >= l, i < h), z3.Select(sa, i - l), z3.Select(ba, i)))
                cb = concrete_bytes(base)
                if et == ("int", "u8") and cb is not None and not any(cb) and z3.is_true(simp(h == n)):
                    # positional notation: leading zeros do not change the value
                    s.facts += [beval(e, nv) == beval(e, e.z(src, c.argtys[1], s))]
                e.write(s, ref.cell, ref.projs[:-1], nv)
            return R(s, unit())
        return branch(c, ok, good, lambda s: T(s, "copy_from_slice length mismatch"))
    base = e.deref(c.st, ref)

    def good2(s):
        e.write(s, ref.cell, ref.projs, src)
        return R(s, unit())
    return branch(c, e.seq_len(src) == e.seq_len(base), good2, lambda s: T(s, "copy_from_slice length mismatch"))


@model("core::slice::<impl>::split_at")
def _splitat(c):
    e = c.eng
    v, k = val(c, 0), val(c, 1)
    n = e.seq_len(v)
    return branch(c, k <= n, lambda s: R(s, Agg(c.ret, None, [e.subslice(s, v, z3.IntVal(0), simp(k)), e.subslice(s, v, simp(k), n)])), lambda s: T(s, "split_at"))


@model("std::slice::<impl>::to_vec", "core::slice::<impl>::to_vec", "std::slice::<impl>::into_vec", "alloc::slice::<impl>::into_vec", "alloc::slice::<impl>::to_vec")
def _tovec(c):
    return c.eng.deref(c.st, c.args[0])


@model("core::slice::<impl>::contains", "std::collections::VecDeque::contains")
def _contains(c):
    e = c.eng
    v = val(c, 0)
    it = seq_iter(c, v)
    x = e.deref(c.st, c.args[1])
    et = e.seq_elem(v)
    return exists_over(c, c.st, it, lambda st, el: R(st, e.eq(el, x, et, st)))


def seq_iter(c, v, et=None):
    e = c.eng
    if isinstance(v, Lst):
        items = list(v.items)

        def at(st, i):
            k = simp(i)
            if z3.is_int_value(k):
                return items[k.as_long()]
            return e.seq_at(st, e.z(Lst(v.elem, items), ("slice", v.elem), st), i, v.elem)
        return Iter(z3.IntVal(len(items)), at, v.elem, tag=("lst", items))
    if isinstance(v, z3.ExprRef) and v.sort() in e.S.seq:
        n = e.seq_len(v)
        c.st.facts += [n >= 0]
        return Iter(n, lambda st, i: e.seq_at(st, v, i, et), et or e.S.seq[v.sort()], tag=("seq", v))
    raise Unsupported("iterate " + repr(v)[:60])


@model("core::slice::<impl>::iter", "std::collections::VecDeque::iter", "std::vec::Vec::drain#")
def _siter(c):
    return seq_iter(c, val(c, 0))


@model("core::slice::<impl>::chunks_exact", "core::slice::<impl>::chunks")
def _chunks(c):
    e = c.eng
    v, k = val(c, 0), simp(val(c, 1))
    if not z3.is_int_value(k):
        raise Unsupported("chunks of symbolic size")
    n = e.seq_len(v)
    if c.callee.method == "chunks":
        raise Unsupported("chunks")
    return Iter(simp(n / k), lambda st, i: e.subslice(st, v, simp(i * k), simp(i * k + k)), ("slice", e.seq_elem(v)))


@model("core::slice::<impl>::iter_mut", "std::collections::VecDeque::iter_mut")
def _itermut(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    et = e.seq_elem(v)
    return Iter(e.seq_len(v), lambda st, i: MRef(ref.cell, ref.projs + (("i", simp(i), et),)), et, tag=("mut", ref))


@model(*[f"{m}::iter_mut" for m in MAPS], *[f"{m}::values_mut" for m in MAPS])
def _mapitermut(c):
    e, ref = c.eng, c.args[0]
    m = e.deref(c.st, ref)
    t = e.strip_ref(c.argtys[0])
    kt, vt = t[2]
    n, a = keyseq(c, c.st, m, kt)
    if c.callee.method == "values_mut":
        return Iter(n, lambda st, i: MRef(ref.cell, ref.projs + (("m", z3.Select(a, i), vt),)), vt)
    return Iter(n, lambda st, i: Agg(("tuple", (kt, ("ref", True, vt))), None, [z3.Select(a, i), MRef(ref.cell, ref.projs + (("m", z3.Select(a, i), vt),))]), vt)


# ---------------------------------------------------------------- iterators
def to_iter(c, v, t):
    e = c.eng
    st = c.st
    if isinstance(v, MRef):
        inner = e.deref(st, v)
        if isinstance(inner, Iter):
            return inner
        if t[0] == "ref" and t[1]:
            n0 = e.strip_ref(t)
            raise Unsupported("iteration over &mut " + show(n0)[:40])
        v = inner
    if isinstance(v, Iter):
        return v
    n = e.S.norm(t)
    if n[0] == "adt" and n[1] in MAPS | SETS:
        return map_iter(c, v, n, "iter")
    if e.S.is_seq_type(n):
        return seq_iter(c, v, e.S.elem_type(n))
    if n[0] == "adt" and n[1] == OPT:
        if isinstance(v, Agg):
            return seq_iter(c, Lst(n[2][0], v.f))
        isn = e.is_variant(v, n, "Some")
        pay = e.acc(v.sort().accessor(1, 0), v)
        return Iter(z3.If(isn, z3.IntVal(1), z3.IntVal(0)), lambda st, i: pay, n[2][0])
    if n[0] == "adt" and n[1] in ("std::ops::Range", "std::ops::RangeInclusive"):
        a, b = e.proj_field(st, v, 0, n[2][0]), e.proj_field(st, v, 1, n[2][0])
        if not z3.is_int(a):
            raise Unsupported("range iteration")
        cnt = b - a + (1 if n[1].endswith("Inclusive") else 0)
        return Iter(simp(z3.If(cnt > 0, cnt, z3.IntVal(0))), lambda st, i: simp(a + i), n[2][0])
    if n[0] == "adt" and any(x[1] == "Iterator" and x[2] == last(n[1]) for x in e.methods.get("next", [])):
        return v        # a local type with an Iterator impl: its own `next` is executed
    raise Unsupported("into_iter of " + show(n)[:60])


@tmodel("IntoIterator.into_iter")
def _intoiter(c):
    return to_iter(c, c.args[0], c.argtys[0])


@model("std::iter::once")
def _once(c):
    return seq_iter(c, Lst(c.argtys[0], [c.args[0]]))


@model("std::iter::empty")
def _iempty(c):
    return seq_iter(c, Lst(("tuple", ()), []))


@model("std::iter::zip")
def _izip(c):
    e = c.eng
    a, b = to_iter(c, c.args[0], c.argtys[0]), to_iter(c, c.args[1], c.argtys[1])
    return zip_iters(c, a, b)


@tmodel("Iterator.zip")
def _izip2(c):
    return zip_iters(c, get_iter(c), to_iter(c, c.args[1], c.argtys[1]))


def pure_map_only(it):
    return all(o[0] in ("map", "enumerate") for o in it.ops)


def zip_iters(c, a, b):
    a, b = settle(c, a), settle(c, b)
    n = simp(z3.If(a.hi - a.pos < b.hi - b.pos, a.hi - a.pos, b.hi - b.pos))
    pt = ("tuple", (a.ety, b.ety))
    return Iter(n, lambda st, i: Agg(pt, None, [a.at(st, simp(a.pos + i)), b.at(st, simp(b.pos + i))]), pt)


def settle(c, it):
    """an equivalent iterator without pending ops (filters become a fresh subsequence)"""
    if not it.ops:
        return it
    if not any(o[0] in ("filter", "filter_map", "flat_map") for o in it.ops):
        return Iter(it.n, lambda st, i: apply_ops(c, st, it, i), last_ty(c, it), pos=it.pos, hi=it.hi)
    v, et = materialize(c, it)
    return seq_iter(c, v)


def last_ty(c, it):
    t = it.ety
    for o in it.ops:
        t = o[2]
    return t


def get_iter(c, i=0):
    v = c.args[i]
    x = c.eng.deref(c.st, v)
    if isinstance(x, Iter):
        return x
    return to_iter(c, x, c.argtys[i])


def pure(c, st, outs):
    """merge outcomes of a side-effect free evaluation into one value; traps are recorded as obligations not to happen"""
    e = c.eng
    rets = [o for o in outs if o[1][0] == RET]
    traps = [o for o in outs if o[1][0] == TRAP]
    if not rets:
        raise Unsupported("closure never returns")
    if len(rets) > 1:
        m = e.merge(rets)
        if len(m) != 1:
            raise Unsupported("closure with unmergeable outcomes")
        rets = m
    return rets[0][0], rets[0][1][1], traps


def apply_ops(c, st, it, i):
    """element i through map-like ops (state changes of the closure are not supported)"""
    v = it.at(st, i)
    for o in it.ops:
        if o[0] == "map":
            s = st.fork()
            s2, v, traps = pure(c, s, callf(c, s, o[1], [v], o[2]))
            for ts, m in traps:
                if c.eng.feasible(ts):
                    raise Unsupported("closure may trap: " + str(m[1]))
            st.facts[:] = s2.facts
            st.pc[:] = s2.pc
        elif o[0] == "enumerate":
            v = Agg(("tuple", (("int", "usize"), it.ety)), None, [simp(i - it.pos), v])
        else:
            raise Unsupported("iterator op " + o[0])
    return v


def sym_eval(c, st, it, i):
    """evaluate all ops on a symbolic index without leaking constants: -> (facts, keep cond, value, type)
    facts/cond/value may mention i; fresh constants are turned into functions of i."""
    e = c.eng
    n0 = e.nfresh
    s = st.fork()
    s.pc.append(z3.And(i >= it.pos, i < it.hi))
    nf, npc = len(s.facts), len(s.pc)
    v = it.at(s, i)
    keep = []
    guard = []
    t = it.ety
    for o in it.ops:
        if o[0] == "map":
            s, v, traps = pure(c, s, callf(c, s, o[1], [v], o[2]))
            no_traps(c, traps)
            t = o[2]
        elif o[0] == "filter":
            s, b, traps = pure(c, s, callf(c, s, o[1], [v], ("bool",)))
            no_traps(c, traps)
            keep.append(z3.Not(b) if len(o) > 3 and o[3] else b)
        elif o[0] == "filter_map":
            s, ov, traps = pure(c, s, callf(c, s, o[1], [v], opt(o[2])))
            no_traps(c, traps)
            keep.append(e.is_variant(ov, opt(o[2]), "Some"))
            if isinstance(ov, Agg):
                v = ov.f[0] if ov.f else e.const(e.S.sort(o[2]), "none")
            else:
                v = e.acc(ov.sort().accessor(1, 0), ov)
            t = o[2]
        elif o[0] == "enumerate":
            v = Agg(("tuple", (("int", "usize"), t)), None, [simp(i - it.pos), v])
            t = v.ty
        else:
            raise Unsupported("iterator op " + o[0])
    facts = s.facts[nf:]
    extra = [x for x in s.pc[npc:] if not z3.is_true(simp(x))]
    zv = None
    try:
        zv = e.z(v, t, s)
    except Unsupported:
        pass
    facts = s.facts[nf:]
    k = z3.And(keep) if keep else z3.BoolVal(True)
    # constants created after n0 depend on i
    new = set()
    for x in facts + extra + [k] + ([zv] if zv is not None else []):
        collect_new(x, n0, new)
    if new:
        sub = []
        for cst in new:
            f = z3.Function(str(cst) + "@i", z3.IntSort(), cst.sort())
            sub.append((cst, f(i)))
        facts = [z3.substitute(x, *sub) for x in facts]
        extra = [z3.substitute(x, *sub) for x in extra]
        k = z3.substitute(k, *sub)
        zv = z3.substitute(zv, *sub) if zv is not None else None
    return facts + extra, simp(k), zv, t


def no_traps(c, traps):
    for ts, m in traps:
        if c.eng.feasible(ts) and not c.eng.contradictory(ts):
            raise Unsupported("closure may trap: " + str(m[1]))


_seen_cache = {}


def collect_new(x, n0, out, seen=None):
    seen = set() if seen is None else seen
    if x.get_id() in seen:
        return
    seen.add(x.get_id())
    if z3.is_quantifier(x):
        collect_new(x.body(), n0, out, seen)
        return
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = x.decl().name()
        k = n.rfind("!")
        if k > 0 and n[k + 1:].isdigit() and int(n[k + 1:]) > n0:
            out.add(x)
        return
    for ch in x.children():
        collect_new(ch, n0, out, seen)


def concrete_items(it):
    n, p = simp(it.hi), simp(it.pos)
    if z3.is_int_value(n) and z3.is_int_value(p) and n.as_long() - p.as_long() <= 80:
        return [z3.IntVal(k) for k in range(p.as_long(), n.as_long())]
    return None


def run_concrete(c, st, it, fn):
    """fold over a concrete-length iterator: fn(st, acc, v) is applied to elements that pass the ops; returns [(st, elements)]"""
    e = c.eng
    states = [(st, [])]
    for i in concrete_items(it):
        nxt = []
        for s, acc in states:
            v = it.at(s, i)
            cur = [(s, v)]
            for o in it.ops:
                step = []
                for s2, x in cur:
                    if x is None:
                        step.append((s2, None))
                        continue
                    if o[0] == "map":
                        for s3, oo in callf(c, s2, o[1], [x], o[2]):
                            if oo[0] == TRAP:
                                fn.append((s3, oo))
                            else:
                                step.append((s3, oo[1]))
                    elif o[0] == "filter":
                        for s3, oo in callf(c, s2, o[1], [x], ("bool",)):
                            if oo[0] == TRAP:
                                fn.append((s3, oo))
                            else:
                                for s4, keep in branch(c, oo[1], lambda q: [(q, True)], lambda q: [(q, False)], s3):
                                    step.append((s4, x if keep else None))
                    elif o[0] == "filter_map":
                        for s3, oo in callf(c, s2, o[1], [x], opt(o[2])):
                            if oo[0] == TRAP:
                                fn.append((s3, oo))
                            else:
                                for s4, y in on_opt(c, oo[1], opt(o[2]), lambda q, w: [(q, w)], lambda q: [(q, None)], s3):
                                    step.append((s4, y))
                    elif o[0] == "enumerate":
                        step.append((s2, Agg(("tuple", (("int", "usize"), it.ety)), None, [simp(i - it.pos), x])))
                    else:
                        raise Unsupported("op " + o[0])
                cur = step
            for s2, x in cur:
                nxt.append((s2, acc + ([x] if x is not None else [])))
        states = nxt
        if len(states) > 200:
            raise Unsupported("too many iterator paths")
    return states


def materialize(c, it):
    """sequence value of the remaining elements, (value, elem type)"""
    e, st = c.eng, c.st
    i = z3.Int(f"it{e.nfresh}")
    e.nfresh += 1
    facts, keep, zv, t = sym_eval(c, st, it, i)
    if zv is None:
        raise Unsupported("iterator of references collected")
    lo, hi = it.pos, it.hi
    rngc = z3.And(i >= lo, i < hi)
    facts = [f for f in facts]
    if z3.is_true(keep):
        a = e.const(z3.ArraySort(z3.IntSort(), zv.sort()), "col")
        n = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        body = z3.substitute(z3.And(facts + [z3.Select(a, i - lo) == zv]), (i, i + lo))
        back = triggers(zv, z3.BoolVal(True), i) if z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0 else []
        st.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=[z3.Select(a, i)] + back))
        st.facts.append(n >= 0)
        for sel, d in offset_selects(zv, i):        # the same fact, found from the elements of a sequence that starts in the middle (chain)
            k = z3.Int(f"it{e.nfresh}")
            e.nfresh += 1
            at = simp(k - d)
            st.facts.append(z3.ForAll([k], z3.Implies(z3.And(at - lo >= 0, at - lo < n), z3.substitute(z3.And(facts + [z3.Select(a, i - lo) == zv]), (i, at))), patterns=[z3.Select(sel, k)]))
        return e.seq_mk(t, n, a), t
    # filtered: src: strictly increasing index map
    a = e.const(z3.ArraySort(z3.IntSort(), zv.sort()), "flt")
    e.nfresh += 1
    src = z3.Function(f"src!{e.nfresh}", z3.IntSort(), z3.IntSort())
    dst = z3.Function(f"dst!{e.nfresh}", z3.IntSort(), z3.IntSort())
    n = e.const(z3.IntSort(), "fltn")
    j, k = z3.Ints("fj fk")
    sub = lambda x, y: z3.substitute(x, (i, y))   # noqa
    st.facts += [n >= 0, n <= z3.If(hi > lo, hi - lo, 0)]
    st.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And([src(j) >= lo, src(j) < hi, sub(keep, src(j)), z3.Select(a, j) == sub(zv, src(j)),
                                                                            dst(src(j)) == j] + [sub(f, src(j)) for f in facts])),
                              patterns=[z3.Select(a, j), src(j)]))
    st.facts.append(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), src(j) < src(k)), patterns=[z3.MultiPattern(src(j), src(k))]))
    st.facts.append(z3.Or(n == 0, src(z3.IntVal(0)) >= lo))     # witness
    trig = triggers(zv, keep, i)
    st.facts.append(z3.ForAll([i], z3.Implies(z3.And([rngc, keep]), z3.And([dst(i) >= 0, dst(i) < n, src(dst(i)) == i])),
                              patterns=[dst(i)] + trig))
    return e.seq_mk(t, n, a), t


def offset_selects(zv, i):
    """[(array, d)] of Select(array, i + d) subterms, d not 0"""
    out, seen = [], set()

    def walk(x):
        if z3.is_quantifier(x) or x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_select(x) and z3.is_int(x.arg(1)) and contains(x.arg(1), i) and not contains(x.arg(0), i) and patternable(x.arg(0)):
            d = simp(x.arg(1) - i)
            if not contains(d, i) and not z3.is_int_value(d) and not any(a.eq(x.arg(0)) and b.eq(d) for a, b in out):
                out.append((x.arg(0), d))
            return
        for ch in x.children():
            walk(ch)
    walk(zv)
    return out[:2]


def triggers(zv, keep, i):
    """Select(arr, i) subterms usable as patterns"""
    out = []

    def walk(x):
        if z3.is_quantifier(x):
            return
        if z3.is_select(x) and x.arg(1).eq(i) and not contains(x.arg(0), i):
            if patternable(x.arg(0)):
                out.append(x)
            return
        for ch in x.children():
            walk(ch)
    walk(zv)
    walk(keep)
    return out[:2]


def patternable(x):
    """z3 accepts no boolean structure and no if-then-else inside a pattern"""
    return x.sort() != z3.BoolSort() and not z3.is_app_of(x, z3.Z3_OP_ITE) and all(patternable(ch) for ch in x.children())


def contains(x, y):
    if x.eq(y):
        return True
    return any(contains(ch, y) for ch in x.children())


def collect_concrete(c, items, dst):
    e = c.eng
    n = e.S.norm(dst)
    if e.S.is_seq_type(n):
        return Lst(e.S.elem_type(n), items)
    if n[1] in SETS:
        s = z3.K(e.S.sort(n[2][0]), z3.BoolVal(False))
        for x in items:
            s = z3.Store(s, e.z(x, n[2][0], c.st), z3.BoolVal(True))
        return s
    if n[1] in MAPS:
        m = empty_map(e, n)
        pt = ("tuple", tuple(n[2]))
        for x in items:
            k, v = e.proj_field(c.st, x, 0, n[2][0]), e.proj_field(c.st, x, 1, n[2][1])
            m = z3.Store(m, e.z(k, n[2][0], c.st), m.sort().range().constructor(1)(e.z(v, n[2][1], c.st)))
        return m
    raise Unsupported("collect into " + show(dst)[:60])


@tmodel("Iterator.collect", "FromIterator.from_iter")
def _collect(c):
    e = c.eng
    it = get_iter(c)
    n = e.S.norm(c.ret)
    if concrete_items(it) is not None and not (n[0] == "adt" and n[1] == RES):
        traps = []
        out = list(traps)
        for s, items in run_concrete(c, c.st, it, traps):
            c.st = s
            if n[0] == "adt" and n[1].endswith("String"):
                out += R(s, e.const(e.S.usort("Str"), "str"))
            else:
                out += R(s, collect_concrete(c, items, c.ret))
        return out + traps
    if n[0] == "adt" and n[1].endswith("::String"):
        return e.const(e.S.usort("Str"), "str")
    if n[0] == "adt" and n[1] in (RES, OPT):
        return collect_result(c, it, n)
    if e.S.is_seq_type(n):
        if it.tag and it.tag[0] == "seq" and not it.ops and simp(it.pos).eq(z3.IntVal(0)):
            return it.tag[1]
        v, t = materialize(c, it)
        return v
    if n[1] in SETS:
        return collect_set(c, it, n)
    if n[1] in MAPS:
        return collect_map(c, it, n)
    raise Unsupported("collect into " + show(n)[:60])


def collect_result(c, it, n):
    """Result<Vec<T>,E>: Err of the first failing element, else Ok of all"""
    e, st = c.eng, c.st
    raise Unsupported("collect into Result")


def collect_set(c, it, n):
    e, st = c.eng, c.st
    i = z3.Int(f"it{e.nfresh}")
    e.nfresh += 1
    facts, keep, zv, t = sym_eval(c, st, it, i)
    s = e.const(e.S.sort(n), "set")
    x = z3.Const("sx", s.sort().domain())
    w = z3.Function(f"wit!{e.nfresh}", s.sort().domain(), z3.IntSort())
    lo, hi = it.pos, it.hi
    st.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi, keep), z3.And([z3.Select(s, zv)] + facts)), patterns=triggers(zv, keep, i) or None or [])
                    if triggers(zv, keep, i) else z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi, keep), z3.And([z3.Select(s, zv)] + facts))))
    st.facts.append(z3.ForAll([x], z3.Implies(z3.Select(s, x), z3.And([w(x) >= lo, w(x) < hi, z3.substitute(keep, (i, w(x))), z3.substitute(zv, (i, w(x))) == x]
                                                                     + [z3.substitute(f, (i, w(x))) for f in facts])), patterns=[z3.Select(s, x)]))
    return s


def collect_map(c, it, n):
    """later elements win"""
    e, st = c.eng, c.st
    i = z3.Int(f"it{e.nfresh}")
    e.nfresh += 1
    facts, keep, zv, t = sym_eval(c, st, it, i)
    m = e.const(e.S.sort(n), "map")
    ks = m.sort().domain()
    os = m.sort().range()
    kx, vx = zv.sort().accessor(0, 0)(zv), zv.sort().accessor(0, 1)(zv)
    x = z3.Const("mx", ks)
    j = z3.Int("mj")
    w = z3.Function(f"wit!{e.nfresh}", ks, z3.IntSort())
    lo, hi = it.pos, it.hi
    pat = triggers(zv, keep, i)
    f1 = z3.Implies(z3.And(i >= lo, i < hi, keep), z3.And([os.recognizer(1)(z3.Select(m, kx)), w(kx) >= i] + facts))
    st.facts.append(z3.ForAll([i], f1, patterns=pat) if pat else z3.ForAll([i], f1))
    st.facts.append(z3.ForAll([x], z3.Implies(os.recognizer(1)(z3.Select(m, x)), z3.And(
        [w(x) >= lo, w(x) < hi, z3.substitute(keep, (i, w(x))), z3.substitute(kx, (i, w(x))) == x,
         z3.Select(m, x) == os.constructor(1)(z3.substitute(vx, (i, w(x))))])), patterns=[z3.Select(m, x)]))
    return m


def _adapter(name):
    def f(c):
        it = get_iter(c)
        e = c.eng
        t = last_ty(c, it)
        if name == "map":
            rt = e.clo_ret_ty(c.args[1], c.st)
            if rt is None and c.callee.generics and c.callee.generics[0][0] not in ("param", "opaque"):
                rt = c.callee.generics[0]
            if rt is None:
                fi = e.deref(c.st, c.args[1])
                rt = e.fn_ret(e.callee(fi.text, fi.tenv), [t])
            return it.with_(ops=it.ops + (("map", c.args[1], rt),))
        if name == "filter":
            return it.with_(ops=it.ops + (("filter", c.args[1], t),))
        if name == "filter_map":
            rt = e.clo_ret_ty(c.args[1], c.st)
            if rt is None:
                fi = e.deref(c.st, c.args[1])
                rt = e.fn_ret(e.callee(fi.text, fi.tenv), [t])
            return it.with_(ops=it.ops + (("filter_map", c.args[1], rt[2][0]),))
        if name == "enumerate":
            if any(o[0] != "map" for o in it.ops):
                it = settle(c, it)
            return it.with_(ops=it.ops + (("enumerate", None, ("tuple", (("int", "usize"), t))),))
        raise Unsupported(name)
    return f


for _n in ("map", "filter", "filter_map", "enumerate"):
    TRAIT_MODELS[("Iterator", _n)] = _adapter(_n)


@tmodel("Iterator.cloned", "Iterator.copied", "Iterator.by_ref", "Iterator.fuse", "Iterator.into_iter", "Iterator.peekable")
def _icloned(c):
    if c.callee.method == "by_ref":
        return c.args[0]
    return get_iter(c)


@tmodel("Iterator.rev")
def _irev(c):
    it = settle(c, get_iter(c)) if any(o[0] in ("filter", "filter_map") for o in get_iter(c).ops) else get_iter(c)
    lo, hi = it.pos, it.hi
    at0 = it.at
    n = simp(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    return Iter(n, lambda st, i: at0(st, simp(hi - 1 - i)), it.ety, it.ops)


@tmodel("Iterator.take")
def _itake(c):
    it = get_iter(c)
    if any(o[0] in ("filter", "filter_map") for o in it.ops):
        it = settle(c, it)
    k = val(c, 1)
    n = it.hi - it.pos
    return it.with_(hi=simp(it.pos + z3.If(k < n, k, n)))


@tmodel("Iterator.skip")
def _iskip(c):
    it = get_iter(c)
    if any(o[0] in ("filter", "filter_map", "enumerate") for o in it.ops):
        it = settle(c, it)
    k = val(c, 1)
    n = it.hi - it.pos
    return it.with_(pos=simp(it.pos + z3.If(k < n, k, n)))


@tmodel("Iterator.chain")
def _ichain(c):
    a = settle(c, get_iter(c))
    b = settle(c, to_iter(c, c.args[1], c.argtys[1]))
    ca, cb = concrete_items(a), concrete_items(b)
    if ca is not None and cb is not None:
        items = [a.at(c.st, i) for i in ca] + [b.at(c.st, i) for i in cb]
        return seq_iter(c, Lst(a.ety, items))
    e = c.eng
    na, nb = a.hi - a.pos, b.hi - b.pos
    na = simp(z3.If(na > 0, na, z3.IntVal(0)))
    nb = simp(z3.If(nb > 0, nb, z3.IntVal(0)))

    def at(st, i):
        x, y = a.at(st, simp(a.pos + i)), b.at(st, simp(b.pos + i - na))
        cond = simp(i < na)
        if z3.is_true(cond):
            return x
        if z3.is_false(cond):
            return y
        return e.merge_vals([cond, z3.Not(cond)], [x, y], [st, st])
    return Iter(simp(na + nb), at, a.ety)


def exists_over(c, st, it, pred=None, want=True):
    """Bool value: some remaining element satisfies pred (after ops)"""
    e = c.eng
    if concrete_items(it) is not None and not it.ops:
        bs = []
        for i in concrete_items(it):
            s2, b, traps = pure(c, st, pred(st, it.at(st, i)))
            no_traps(c, traps)
            st.facts[:] = s2.facts
            bs.append(b)
        return simp(z3.Or(bs + [z3.BoolVal(False)]))
    i = z3.Int(f"it{e.nfresh}")
    e.nfresh += 1
    n0 = e.nfresh
    s = st.fork()
    nf = len(s.facts)
    v = it.at(s, i)
    s2, b, traps = pure(c, s, pred(s, v))
    no_traps(c, traps)
    facts = s2.facts[nf:]
    new = set()
    for x in facts + [b]:
        collect_new(x, n0, new)
    if new:
        sub = [(cst, z3.Function(str(cst) + "@i", z3.IntSort(), cst.sort())(i)) for cst in new]
        facts = [z3.substitute(x, *sub) for x in facts]
        b = z3.substitute(b, *sub)
    r = e.const(z3.BoolSort(), "any")
    w = e.const(z3.IntSort(), "wit")
    lo, hi = it.pos, it.hi
    pat = triggers(b, b, i)
    st.facts.append(z3.Implies(r, z3.And([w >= lo, w < hi, z3.substitute(b, (i, w))] + [z3.substitute(f, (i, w)) for f in facts])))
    body = z3.Implies(z3.And(i >= lo, i < hi), z3.And([z3.Not(b)] + facts))
    st.facts.append(z3.Implies(z3.Not(r), z3.ForAll([i], body, patterns=pat) if pat else z3.ForAll([i], body)))
    return r


@tmodel("Iterator.any")
def _iany(c):
    it = settle(c, get_iter(c)) if get_iter(c).ops else get_iter(c)
    return exists_over(c, c.st, it, lambda s, v: callf(c, s, c.args[1], [v], ("bool",)))


@tmodel("Iterator.all")
def _iall(c):
    it = settle(c, get_iter(c)) if get_iter(c).ops else get_iter(c)
    r = exists_over(c, c.st, it, lambda s, v: then(callf(c, s, c.args[1], [v], ("bool",)), lambda s2, b: R(s2, simp(z3.Not(b)))))
    return simp(z3.Not(r))


@tmodel("Iterator.partition")
def _ipartition(c):
    """the elements that satisfy the predicate and those that do not, each in order"""
    e, st = c.eng, c.st
    it = get_iter(c)
    if any(o[0] in ("filter", "filter_map") for o in it.ops) or it.ops and concrete_items(it) is None:
        it = settle(c, it)
    t = last_ty(c, it)
    for x in c.ret[1]:
        if not e.S.is_seq_type(e.S.norm(x)):
            raise Unsupported("partition into " + show(x)[:60])
    yes, _ = materialize(c, it.with_(ops=it.ops + (("filter", c.args[1], t, False),)))
    no, _ = materialize(c, it.with_(ops=it.ops + (("filter", c.args[1], t, True),)))
    st.facts.append(e.seq_len(yes) + e.seq_len(no) == z3.If(it.hi > it.pos, it.hi - it.pos, 0))
    return R(st, Agg(c.ret, None, [yes, no]))


@tmodel("Iterator.find", "Iterator.position", "Iterator.find_map")
def _ifind(c):
    e, st = c.eng, c.st
    it = get_iter(c)
    t = last_ty(c, it)
    if c.callee.method == "find_map":
        it2 = it.with_(ops=it.ops + (("filter_map", c.args[1], c.ret[2][0]),))
    elif c.callee.method == "find":
        it2 = it.with_(ops=it.ops + (("filter", c.args[1], t),))
    else:
        if any(o[0] in ("filter", "filter_map") for o in it.ops):
            it = settle(c, it)
        bt = ("bool",)
        it2 = it.with_(ops=it.ops + (("map", c.args[1], bt), ("filter", PyFn(lambda e_, s_, a: R(s_, a[0]), bt), bt)))
    r = next_of(c, it2)
    out = []
    if c.callee.method == "position":
        r = [(s, None if v is None else simp(it3.pos - 1 - it.pos), it3) for s, v, it3 in r]
    for s, v, it3 in r:
        if isinstance(c.args[0], MRef) and isinstance(e.read(s, c.args[0].cell, c.args[0].projs), Iter):
            e.write(s, c.args[0].cell, c.args[0].projs, it3.with_(ops=it.ops))
        out += R(s, Agg(c.ret, 1, [v]) if v is not None else Agg(c.ret, 0, []))
    return out


def next_of(c, it):
    """[(st, value or None, iterator after)]"""
    e, st = c.eng, c.st
    out = []
    flt = any(o[0] in ("filter", "filter_map") for o in it.ops)
    if not flt:
        def some(s):
            cur = [(s, it.at(s, it.pos))]
            traps = []
            for o in it.ops:
                nxt = []
                for s2, v in cur:
                    if o[0] == "map":
                        for s3, oo in callf(c, s2, o[1], [v], o[2]):
                            if oo[0] == TRAP:
                                raise Unsupported("trap in iterator closure")
                            nxt.append((s3, oo[1]))
                    elif o[0] == "enumerate":
                        nxt.append((s2, Agg(o[2], None, [it.pos, v])))
                    else:
                        raise Unsupported(o[0])
                cur = nxt
            return [(s2, v, it.with_(pos=simp(it.pos + 1))) for s2, v in cur]
        return branch(c, it.pos < it.hi, some, lambda s: [(s, None, it)])
    if concrete_items(it) is not None:
        # first element that passes
        states = [(st, it)]
        for k in concrete_items(it):
            nxt = []
            for s, _ in states:
                traps = []
                one = it.with_(pos=k, hi=simp(k + 1))
                for s2, items in run_concrete(c, s, one, traps):
                    if items:
                        out.append((s2, items[0], it.with_(pos=simp(k + 1))))
                    else:
                        nxt.append((s2, it))
                if traps:
                    raise Unsupported("trap in iterator closure")
            states = nxt
        for s, _ in states:
            out.append((s, None, it.with_(pos=it.hi)))
        return out
    i = z3.Int(f"it{e.nfresh}")
    e.nfresh += 1
    facts, keep, zv, t = sym_eval(c, st, it, i)
    if zv is None:
        raise Unsupported("filtered references")
    pat = triggers(zv, keep, i)

    def none_between(lo, hi):
        b = z3.Implies(z3.And(i >= lo, i < hi), z3.Not(keep))
        return z3.ForAll([i], b, patterns=pat) if pat else z3.ForAll([i], b)
    s1 = st.fork()
    w = e.const(z3.IntSort(), "fnd")
    s1.facts += [w >= it.pos, w < it.hi, z3.substitute(keep, (i, w))] + [z3.substitute(f, (i, w)) for f in facts]
    s1.facts.append(none_between(it.pos, w))
    if e.feasible(s1, [w >= it.pos]):
        x = z3.substitute(zv, (i, w))
        s1.facts += e.wf(t, x, 2)
        out.append((s1, x, it.with_(pos=w + 1)))
    s2 = st.fork()
    s2.facts.append(none_between(it.pos, it.hi))
    out.append((s2, None, it.with_(pos=it.hi)))
    return out


@tmodel("Iterator.next")
def _inext(c):
    e = c.eng
    r = c.args[0]
    it = e.deref(c.st, r)
    if not isinstance(it, Iter):
        if isinstance(it, Opaque):
            raise Unsupported("next on opaque iterator")
        it = to_iter(c, it, c.argtys[0])
    out = []
    for s, v, it2 in next_of(c, it):
        e.write(s, r.cell, r.projs, it2)
        out += R(s, Agg(c.ret, 1, [v]) if v is not None else Agg(c.ret, 0, []))
    return out


@tmodel("Iterator.last", "DoubleEndedIterator.next_back")
def _ilast(c):
    it = settle(c, get_iter(c))
    def some(s):
        v = it.at(s, simp(it.hi - 1))
        if c.callee.method == "next_back":
            c.eng.write(s, c.args[0].cell, c.args[0].projs, it.with_(hi=simp(it.hi - 1)))
        return R(s, Agg(c.ret, 1, [v]))
    return branch(c, it.pos < it.hi, some, lambda s: R(s, Agg(c.ret, 0, [])))


@tmodel("DoubleEndedIterator.rev")
def _drev(c):
    return _irev(c)


@tmodel("Iterator.count")
def _icount(c):
    it = get_iter(c)
    if any(o[0] in ("filter", "filter_map") for o in it.ops):
        it = settle(c, it)
    n = it.hi - it.pos
    return simp(z3.If(n > 0, n, z3.IntVal(0)))


@tmodel("ExactSizeIterator.len")
def _ilen(c):
    return _icount(c)


@tmodel("Iterator.min", "Iterator.max", "Iterator.min_by_key", "Iterator.max_by_key")
def _iminmax(c):
    e = c.eng
    it = get_iter(c)
    if any(o[0] in ("filter", "filter_map") for o in it.ops):
        it = settle(c, it)
    mx = c.callee.method.startswith("max")
    bykey = c.callee.method.endswith("key")
    i = z3.Int(f"it{e.nfresh}")
    e.nfresh += 1
    if bykey:
        kt = e.clo_ret_ty(c.args[1], c.st)
        kit = it.with_(ops=it.ops + (("map", c.args[1], kt),))
    else:
        kt, kit = last_ty(c, it), it
    f1, _, zv, t = sym_eval(c, c.st, it, i)
    f2, _, kv, _ = sym_eval(c, c.st, kit, i)
    lo, hi = it.pos, it.hi

    def some(s):
        w = e.const(z3.IntSort(), "ext")
        at = lambda x, j: z3.substitute(x, (i, j))   # noqa
        l = lt_sym(e, kt, s)
        s.facts += [w >= lo, w < hi] + [at(f, w) for f in f1 + f2]
        better = l(at(kv, w), kv) if mx else l(kv, at(kv, w))
        first = l(kv, at(kv, w)) if mx else l(at(kv, w), kv)
        # max returns the last maximal element, min the first
        tie = i <= w if mx else i >= w
        body = z3.Implies(z3.And(i >= lo, i < hi), z3.And([z3.Not(better), z3.Or(first, z3.And(kv == at(kv, w), tie))] + f1 + f2))
        pat = triggers(zv, kv, i)
        s.facts.append(z3.ForAll([i], body, patterns=pat) if pat else z3.ForAll([i], body))
        x = at(zv, w)
        s.facts += e.wf(t, x, 2)
        return R(s, Agg(c.ret, 1, [x]))
    return branch(c, lo < hi, some, lambda s: R(s, Agg(c.ret, 0, [])))


@tmodel("Iterator.fold", "Iterator.sum", "Iterator.reduce", "Iterator.product", "Iterator.for_each", "Iterator.try_for_each", "Iterator.try_fold")
def _ifold(c):
    e = c.eng
    it = get_iter(c)
    if concrete_items(it) is None:
        raise Unsupported("fold over a symbolic sequence")
    traps, out = [], []
    for s, items in run_concrete(c, c.st, it, traps):
        m = c.callee.method
        if m == "fold":
            acc = R(s, c.args[1])
            for x in items:
                acc = then(acc, lambda s2, a, x=x: callf(c, s2, c.args[2], [a, x], c.ret))
            out += acc
        elif m == "reduce":
            if not items:
                out += R(s, Agg(c.ret, 0, []))
                continue
            acc = R(s, items[0])
            for x in items[1:]:
                acc = then(acc, lambda s2, a, x=x: callf(c, s2, c.args[1], [a, x], c.ret[2][0]))
            out += then(acc, lambda s2, a: R(s2, Agg(c.ret, 1, [a])))
        elif m == "for_each":
            acc = R(s, unit())
            for x in items:
                acc = then(acc, lambda s2, a, x=x: callf(c, s2, c.args[1], [x], UNIT_T))
            out += then(acc, lambda s2, a: R(s2, unit()))
        elif m == "sum" and intlike(e, c.ret):
            out += R(s, simp(z3.Sum(items + [z3.IntVal(0)])))
        else:
            raise Unsupported(m)
    return out + traps


@tmodel("Extend.extend")
def _extend(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    it = settle(c, to_iter(c, c.args[1], c.argtys[1]))
    t = e.strip_ref(c.argtys[0])
    items = concrete_items(it)
    if items is not None:
        xs = [it.at(c.st, i) for i in items]
        if isinstance(v, Lst):
            e.write(c.st, ref.cell, ref.projs, Lst(v.elem, v.items + xs))
            return unit()
        for x in xs:
            if e.S.is_seq_type(t):
                n = e.seq_len(v)
                v = e.seq_mk(t[2][0], n + 1, z3.Store(e.seq_arr(v), n, e.z(x, t[2][0], c.st)))
            elif t[1] in SETS:
                v = z3.Store(v, e.z(x, t[2][0], c.st), z3.BoolVal(True))
            else:
                raise Unsupported("extend")
        e.write(c.st, ref.cell, ref.projs, v)
        return unit()
    if e.S.is_seq_type(t):
        et = t[2][0]
        z = e.z(v, t, c.st)
        n, arr = e.seq_len(z), e.seq_arr(z)
        m = simp(it.hi - it.pos)
        # element terms
        i = z3.Int(f"it{e.nfresh}")
        e.nfresh += 1
        facts, keep, zv, tt = sym_eval(c, c.st, it, i)
        c.st.facts.append(m >= 0)
        e.write(c.st, ref.cell, ref.projs, shifted(e, c.st, et, n + m, lambda k: z3.If(k < n, z3.Select(arr, k), z3.substitute(zv, (i, it.pos + k - n))), "ext"))
        return unit()
    raise Unsupported("extend of " + show(t)[:50])


@model("std::collections::VecDeque::retain", "std::vec::Vec::retain")
def _retain(c):
    e, ref = c.eng, c.args[0]
    v = e.deref(c.st, ref)
    it = seq_iter(c, v)
    it = it.with_(ops=(("filter", c.args[1], it.ety),))
    nv, t = materialize(c, it)
    e.write(c.st, ref.cell, ref.projs, nv)
    return unit()


@model(*[f"{m}::retain" for m in SETS | MAPS])
def _retainset(c):
    e, ref = c.eng, c.args[0]
    m = e.deref(c.st, ref)
    isset = m.sort().range() == z3.BoolSort()
    t = e.strip_ref(c.argtys[0])
    ks = m.sort().domain()
    nm = e.const(m.sort(), "ret")
    k = z3.Const("rk", ks)
    n0 = e.nfresh
    s = c.st.fork()
    nf = len(s.facts)
    if isset:
        args = [k]
    else:
        o = z3.Select(m, k)
        args = [k, e.acc(o.sort().accessor(1, 0), o)]
    s2, b, traps = pure(c, s, callf(c, s, c.args[1], args, ("bool",)))
    no_traps(c, traps)
    facts = s2.facts[nf:]
    new = set()
    for x in facts + [b]:
        collect_new(x, n0, new)
    if new:
        raise Unsupported("retain closure")
    old = z3.Select(m, k)
    keep = z3.And(old, b) if isset else b
    no = z3.BoolVal(False) if isset else m.sort().range().constructor(0)()
    if isset:
        body = z3.Select(nm, k) == z3.And(old, b)
    else:
        body = z3.Select(nm, k) == z3.If(z3.And(old.sort().recognizer(1)(old), b), old, no)
    c.st.facts.append(z3.ForAll([k], z3.Implies(z3.And(facts + [z3.BoolVal(True)]), body), patterns=[z3.Select(nm, k)]))
    e.write(c.st, ref.cell, ref.projs, nm)
    return unit()


# ---------------------------------------------------------------- closures
@tmodel("FnOnce.call_once", "FnMut.call_mut", "Fn.call")
def _callclo(c):
    tup = c.eng.deref(c.st, c.args[1])
    args = tup.f if isinstance(tup, Agg) else [c.eng.acc(a, tup) for a in c.eng.S.dt[tup.sort()][1][0][2]]
    return c.eng.call_value(c.st, c.fr, c.args[0], args, None, c.ret)


# ---------------------------------------------------------------- ranges
@model("std::ops::RangeInclusive::new")
def _rinew(c):
    return Agg(c.ret, None, [c.args[0], c.args[1], z3.BoolVal(False)])


@model("std::ops::RangeInclusive::start", "std::ops::RangeInclusive::end")
def _ristart(c):
    v = val(c, 0)
    t = c.eng.strip_ref(c.argtys[0])
    return c.eng.proj_field(c.st, v, 0 if c.callee.method == "start" else 1, t[2][0])


@model("std::ops::RangeInclusive::into_inner")
def _riinner(c):
    v = val(c, 0)
    t = c.eng.strip_ref(c.argtys[0])
    return Agg(c.ret, None, [c.eng.proj_field(c.st, v, 0, t[2][0]), c.eng.proj_field(c.st, v, 1, t[2][0])])


@model("std::ops::RangeInclusive::is_empty")
def _riempty(c):
    v = val(c, 0)
    t = c.eng.strip_ref(c.argtys[0])
    a, b = c.eng.proj_field(c.st, v, 0, t[2][0]), c.eng.proj_field(c.st, v, 1, t[2][0])
    return simp(z3.Or(lt_call(c, t[2][0], b, a), c.eng.proj_field(c.st, v, 2, ("bool",))))


# ---------------------------------------------------------------- await
@tmodel("IntoFuture.into_future")
def _intofuture(c):
    return c.args[0]


@tmodel("Future.poll")
def _poll(c):
    e = c.eng
    f = e.deref(c.st, c.args[0])
    outs = run_future(c, f)
    return then(outs, lambda s, v: R(s, Agg(c.ret, 0, [v])))


def run_future(c, f):
    """run a future to completion"""
    e = c.eng
    st = c.st
    if isinstance(f, Clo) and f.loc.startswith("coroutine:"):
        name = f.loc[10:].split("|")[0]
        sem = e.short(name)
        ct = e.contracts.get("async " + name) or e.contracts.get("async " + sem)
        if ct is not None:
            return ct(c, f)
        body = e.prog.coroutine(name)
        if body is None:
            raise Unsupported("coroutine body " + name)
        e.inlined[sem + " (async)"] = e.inlined.get(sem + " (async)", 0) + 1
        return e.merge(e.run_body(st, body, [f, Opaque("resume")], f.tenv, c.fr.depth + 1))
    if isinstance(f, Fut):
        return f.run(c)
    raise Unsupported("await of " + repr(f)[:60])


class Fut(Opaque):
    """an environment future: run(c) -> outcomes"""
    __slots__ = ("run",)

    def __init__(self, run):
        Opaque.__init__(self, "future")
        self.run = run


class ScopeG(Opaque):
    """scopeguard::ScopeGuard: the closure runs on the value when it is dropped"""
    __slots__ = ("v", "clo", "id")
    table = {}

    def __init__(self, v, clo):
        Opaque.__init__(self, "scope guard")
        self.v, self.clo, self.id = v, clo, len(ScopeG.table) + 1
        ScopeG.table[self.id] = self


ARMED = ("G", "armed")


@model("scopeguard::guard")
def _sguard(c):
    g = ScopeG(c.args[0], c.args[1])
    c.st.cells[ARMED] = z3.IntVal(g.id)
    return g


@model("scopeguard::ScopeGuard::into_inner")
def _sinto(c):
    c.st.cells[ARMED] = z3.IntVal(0)
    return c.args[0].v


@model("std::future::get_context", "core::future::get_context")
def _getctx(c):
    return Opaque("cx")


# ---------------------------------------------------------------- literals
def lit_of(e, z):
    for k, v in e.strlits.items():
        if isinstance(z, z3.ExprRef) and v.eq(z):
            return k


@model("core::str::<impl>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes")
def _asbytes(c):
    e = c.eng
    z = val(c, 0)
    k = lit_of(e, z)
    if k is not None:
        return Lst(("int", "u8"), [z3.IntVal(b) for b in k.encode()])
    zz = e.z(z, c.argtys[0], c.st)
    t = ("slice", ("int", "u8"))
    r = e.uf("str_bytes", zz.sort(), e.S.sort(t))(zz)
    c.st.facts += e.wf(t, r)
    return r


@model("hex_literal::decode")
def _hexlit(c):
    e = c.eng
    v = val(c, 0)
    if isinstance(v, Lst):
        bs = b""
        for x in v.items:
            b = concrete_bytes(e.deref(c.st, x))
            if b is None:
                return e.unknown(c)
            bs += b
        bs = bytes.fromhex(bs.decode().replace("_", "").replace(" ", ""))
        return Lst(("int", "u8"), [z3.IntVal(b) for b in bs])
    return e.unknown(c)


# ---------------------------------------------------------------- deterministic external functions nothing else is known about
def pure_call(c, name, args, argtys, ret):
    e = c.eng
    zs = [e.z(e.deref(c.st, a), e.S.norm(t), c.st) for a, t in zip(args, argtys)]
    s = e.S.sort(ret)
    r = e.uf(f"pure[{name}]", *[z.sort() for z in zs], s)(*zs) if zs else z3.Const(f"pure[{name}]", s)
    c.st.facts += e.wf(ret, r)
    return r


PURE = ["core::str::<impl>::trim", "candid::Principal::anonymous", "candid::Principal::from_text", "candid::Principal::management_canister",
        "core::str::<impl>::is_ascii", "core::str::<impl>::to_lowercase", "core::str::<impl>::to_uppercase"]


@model("ic_cdk::id", "ic_cdk::api::id", "ic_cdk::caller", "ic_cdk::api::caller", "ic_cdk::api::msg_caller", "ic_cdk::api::canister_self")
def _whoami(c):
    """who the canister is and who called it are fixed for a message"""
    who = {"msg_caller": "caller", "canister_self": "id"}.get(c.callee.name.split("::")[-1], c.callee.name.split("::")[-1])
    return pure_call(c, "ic_cdk::" + who, c.args, c.argtys, c.ret)


@model(*PURE)
def _pure(c):
    return pure_call(c, c.callee.name, c.args, c.argtys, c.ret)


@model("core::str::<impl>::starts_with", "core::str::<impl>::ends_with", "core::str::<impl>::contains")
def _starts(c):
    r = pure_call(c, c.callee.method, c.args, c.argtys, ("bool",))
    if c.callee.method == "starts_with" and c.eng.S.norm(c.argtys[1]) == ("str",):
        f = c.eng.uf("strlen", c.eng.S.usort("Str"), z3.IntSort())
        a, b = (c.eng.z(val(c, i), ("str",), c.st) for i in (0, 1))
        n = c.eng.strlen_const(b)
        if n is not None:
            c.st.facts += [f(b) == n]
        c.st.facts += [z3.Implies(r, f(a) >= f(b)), f(a) >= 0]
    return r


@model("std::option::Option::iter", "std::option::Option::into_iter")
def _optiter(c):
    return to_iter(c, val(c, 0), c.argtys[0])


@model("hex::decode_to_slice")
def _hexdecode(c):
    """pure: succeeds or not by the text, and on success the bytes are a function of the text"""
    e = c.eng
    ref = c.args[1]
    old = e.deref(c.st, ref)
    n = e.seq_len(old)
    txt = e.z(val(c, 0), ("str",), c.st)
    ok = e.uf("hex_ok", txt.sort(), z3.IntSort(), z3.BoolSort())(txt, n)
    et = ("int", "u8")

    def good(s):
        at = ("array", et, n.as_long()) if z3.is_int_value(n) else ("slice", et)
        v = e.uf(f"hex_bytes[{show(at)}]", txt.sort(), e.S.sort(at))(txt)
        s.facts += e.wf(at, v)
        e.write(s, ref.cell, ref.projs, v)
        return R(s, Agg(c.ret, 0, [unit()]))

    def bad(s):
        e.write(s, ref.cell, ref.projs, e.fresh(s, ("array", et, n.as_long()) if z3.is_int_value(n) else ("slice", et), "partial"))
        return R(s, Agg(c.ret, 1, [e.fresh(s, c.ret[2][1], "hexerr")]))
    return branch(c, ok, good, bad)


def principal_bytes(e, st, p):
    """the byte string of a principal: at most 29 bytes"""
    sq = e.S.sort(("slice", ("int", "u8")))
    v = e.uf("principal_bytes", p.sort(), sq)(p)
    st.facts += [e.seq_len(v) >= 0, e.seq_len(v) <= 29]
    return v


@model("candid::Principal::try_from_slice", "ic_principal::Principal::try_from_slice")
def _principal_try(c):
    e, st = c.eng, c.st
    v = e.deref(st, c.args[0])
    n = e.seq_len(v)

    def good(s):
        okt = e.S.norm(c.ret)[2][0]
        p = e.const(e.S.sort(okt), "principal")
        b = principal_bytes(e, s, p)
        s.facts.append(e.seq_len(b) == n)
        for i in range(29):
            s.facts.append(z3.Implies(i < n, z3.Select(e.seq_arr(b), i) == e.seq_at(s, v, z3.IntVal(i), ("int", "u8"))))
        return R(s, Agg(c.ret, 0, [p]))

    def bad(s):
        return R(s, Agg(c.ret, 1, [e.fresh(s, e.S.norm(c.ret)[2][1], "principal error")]))
    return branch(c, n <= 29, good, bad)


@model("candid::Principal::as_slice", "ic_principal::Principal::as_slice")
def _principal_slice(c):
    e, st = c.eng, c.st
    return R(st, principal_bytes(e, st, e.deref(st, c.args[0])))
from . import wire  # noqa
