"""C18: an exported log page always fits and is the longest prefix that does."""
from specs.wtx import *
from specs.common import *
from specs.c12 import els, inr
from mirv.spec import W
from mirv.engine import RET
from mirv.values import Agg

L = "logs::Log::"
CUR = {}


def ser(e, z):
    """the JSON text of a log: a function of its entries"""
    return e.uf("json!log", z.sort(), e.S.usort("Str"))(z)


def size(e, s):
    return e.uf("strlen", e.S.usort("Str"), z3.IntSort())(s)


def entries(e, st, w):
    return e.z(w.f("entries")._v, w.f("entries")._t, st)


def to_string(call):
    """serde_json::to_string of a log succeeds; more entries make a longer text (trusted)"""
    e, st = call.eng, call.st
    v = e.deref(st, call.args[0])
    t = v.ty if isinstance(v, Agg) else e.strip_ref(call.argtys[0])
    w = W(e, st, v, t)
    z = entries(e, st, w)
    txt = ser(e, z)
    n, arr = e.seq_len(z), e.seq_arr(z)
    et = e.S.elem_type(w.f("entries")._t)
    st.facts += [size(e, txt) >= 14, size(e, txt) <= 2 ** 40]
    return [(st, (RET, Agg(call.ret, 0, [txt])))]


def setup(c):
    """a longer prefix of the same entries has a longer text"""
    e, st = c.eng, c.st
    CUR["ctx"] = c
    w = c.a(0)
    z = entries(e, st, w)
    et = e.S.elem_type(w.f("entries")._t)
    arr = e.seq_arr(z)
    i, j = z3.Ints("i!p j!p")
    p = lambda k: ser(e, e.seq_mk(et, k, arr))     # noqa
    st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= e.seq_len(z)), size(e, p(i)) < size(e, p(j))), patterns=[z3.MultiPattern(p(i), p(j))]))


def prefix(c):
    e = c.eng
    w = c.a(0)
    z = entries(e, c.st, w)
    et = e.S.elem_type(w.f("entries")._t)
    arr, n = e.seq_arr(z), e.seq_len(z)
    return n, lambda k: ser(e, e.seq_mk(et, k, arr))


def page(c):
    e = c.eng
    n, p = prefix(c)
    lim = c.a(1).z
    k, i = z3.Ints("k!p i!p")
    fits = size(e, p(z3.IntVal(0))) <= lim
    best = z3.Exists([k], z3.And(k >= 0, k <= n, c.ret.z == p(k), z3.Or(k == n, size(e, p(k + 1)) > lim)))
    return [("the page fits", z3.Implies(fits, size(e, c.ret.z) <= lim)), ("it is the longest prefix that fits, unaltered", z3.Implies(fits, best))]


def page_inv(l):
    e, st = l.eng, l.st
    c = CUR["ctx"]
    n, p = prefix(c)
    lim = c.a(1).z
    lo, hi = e.z(l.var("left"), ("int", "usize"), st), e.z(l.var("right"), ("int", "usize"), st)
    txt = l.var("entries_json")
    t = e.z(txt, None, st) if not z3.is_expr(txt) else txt
    return [lo >= 0, lo <= hi, hi <= n, size(e, p(hi)) > lim, z3.Implies(lo > 0, z3.And(t == p(lo - 1), size(e, t) <= lim)), z3.Implies(lo == 0, t == p(n))]


def ordered(desc):
    def ens(c):
        n, at = els(c, c.a(0).f("entries"))
        m, o = els(c, c.f(0).f("entries"))
        i, j, i2 = z3.Ints("i!s j!s k!s")
        ts = lambda k: o(k).timestamp.z     # noqa
        ok = (lambda a, b: a >= b) if desc else (lambda a, b: a <= b)
        return [("none is lost", n == m),
                ("in the order asked for", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), ok(ts(i), ts(j))))),
                ("the same entries", z3.And(z3.ForAll([i], z3.Implies(inr(i, n), z3.Exists([j], z3.And(inr(j, m), o(j) == at(i))))),
                                            z3.ForAll([j], z3.Implies(inr(j, m), z3.Exists([i], z3.And(inr(i, n), o(j) == at(i)))))))]
    return ens


def by_order(c):
    a, d = ordered(False)(c), ordered(True)(c)
    asc = c.a(1).is_("Ascending")
    return [a[0], a[2], ("in the order asked for", z3.If(asc, a[1][1], d[1][1]))]


units = [
    Unit(L + "serialize_logs", setup=setup, ensures=page, loops={0: page_inv}, models={"serde_json::to_string": to_string}),
    Unit(L + "sort_asc", ensures=ordered(False), traps="never"),
    Unit(L + "sort_desc", ensures=ordered(True), traps="never"),
    Unit(L + "sort_logs", ensures=by_order, traps="never"),
]
