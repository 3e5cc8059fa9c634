"""C17: provider calls retry only on too few cycles, with more cycles, within the limit."""
from specs.wtx import *
from specs.common import *
from specs.c12 import els, inr
from mirv.spec import step, W, by_contract, Made, strip
from mirv.models import Fut
from mirv.engine import RET
from mirv.values import Agg, UNIT_T, opt, PyFn
from mirv.rtypes import ty as parse_type

K = "evm_rpc_client"


def too_few(r):
    """is the answer of one provider 'too few cycles', and what it asked for"""
    e = r.as_("Err")
    p = e.as_("ProviderError")
    return z3.And(r.is_("Err"), e.is_("ProviderError"), p.is_("TooFewCycles")), p.as_("TooFewCycles", "expected").z


def asked_most(c, m, r):
    con, inc = m.as_("Consistent"), m.as_("Inconsistent")
    n, at = els(c, inc)
    i = z3.Int("i!c")
    tf, ex = too_few(con)
    tfi, exi = too_few(at(i).f(1))
    x = r.as_("Some").z
    C, I = m.is_("Consistent"), m.is_("Inconsistent")
    return [("nobody asked for more cycles: none", z3.Implies(z3.And(C, z3.Not(tf)), r.is_("None"))),
            ("one answer that asks", z3.Implies(z3.And(C, tf), z3.And(r.is_("Some"), x == ex))),
            ("nobody of all asked: none", z3.Implies(z3.And(I, z3.ForAll([i], z3.Implies(inr(i, n), z3.Not(tfi)))), r.is_("None"))),
            ("the amount was asked for", z3.Implies(z3.And(I, r.is_("Some")), z3.Exists([i], z3.And(inr(i, n), tfi, exi == x)))),
            ("it covers everybody", z3.Implies(I, z3.ForAll([i], z3.Implies(z3.And(inr(i, n), tfi), z3.And(r.is_("Some"), exi <= x)))))]


CUR = {}
G = lambda n: ("G", n)     # noqa
MAXU = 2 ** 128 - 1


def out_t(e):
    return e.S.norm(parse_type("evm_rpc_types::MultiRpcResult<Out>"))


def setup(c):
    e, st = c.eng, c.st
    CUR["ctx"] = c
    st.cells[G("tries")] = z3.IntVal(0)
    st.cells[G("cycles")] = z3.IntVal(0)
    st.cells[G("last")] = e.const(e.S.sort(out_t(e)), "last")
    st.facts += e.wf(out_t(e), st.cells[G("last")])


def last(e, st):
    return W(e, st, st.cells[G("last")], out_t(e))


class C:
    def __init__(self, e, st):
        self.eng, self.st = e, st


def some_asked(e, st, m):
    """did a provider report too few cycles"""
    n, at = els(C(e, st), m.as_("Inconsistent"))
    i = z3.Int("i!s")
    return z3.Or(z3.And(m.is_("Consistent"), too_few(m.as_("Consistent"))[0]), z3.And(m.is_("Inconsistent"), z3.Exists([i], z3.And(inr(i, n), too_few(at(i).f(1))[0]))))


def covers(e, st, m, x):
    n, at = els(C(e, st), m.as_("Inconsistent"))
    i = z3.Int("i!v")
    tf, ex = too_few(m.as_("Consistent"))
    tfi, exi = too_few(at(i).f(1))
    return z3.And(z3.Implies(z3.And(m.is_("Consistent"), tf), ex <= x), z3.Implies(m.is_("Inconsistent"), z3.ForAll([i], z3.Implies(z3.And(inr(i, n), tfi), exi <= x))))


def double(p):
    return z3.If(2 * p > MAXU, z3.IntVal(MAXU), 2 * p)


def ask(call, env=None):
    """one call to the RPC canister: any answer, or a rejection"""
    e, st = call.eng, call.st
    e.used_models["contract: call"] = 1
    u = CUR["ctx"]
    me = u.a(0)
    cyc = e.z(call.args[4], ("int", "u128"), st)
    n, prev, m = st.cells[G("tries")], st.cells[G("cycles")], last(e, st)
    again = n > 0
    e.oblige(st, "the first attempt attaches the configured cycles", z3.Implies(z3.Not(again), cyc == me.min_attached_cycles.z))
    e.oblige(st, "repeated only within the limit", z3.Implies(again, n <= me.max_num_retries.z))
    e.oblige(st, "repeated only for too few cycles", z3.Implies(again, some_asked(e, st, m)))
    e.oblige(st, "at least twice the cycles", z3.Implies(again, cyc >= double(prev)))
    e.oblige(st, "no fewer than anybody asked for", z3.Implies(again, covers(e, st, m, cyc)))
    rt = e.S.norm(("adt", "std::result::Result", (out_t(e), ("tuple", (parse_type("ic_cdk::api::call::RejectionCode"), parse_type("std::string::String"))))))

    def run(c):
        s2 = c.st
        r = e.fresh(s2, rt, "answer")
        w = W(e, s2, r, rt)
        new = e.const(e.S.sort(out_t(e)), "last")
        s2.facts += e.wf(out_t(e), new)
        m2 = W(e, s2, new, out_t(e))
        rej = w.as_("Err")
        he = m2.as_("Consistent").as_("Err")
        H = he.as_("HttpOutcallError")
        s2.facts += [z3.Implies(w.is_("Ok"), new == w.as_("Ok").z),
                     z3.Implies(w.is_("Err"), z3.And(m2.is_("Consistent"), m2.as_("Consistent").is_("Err"), he.is_("HttpOutcallError"), H.is_("IcError"),
                                                     H.as_("IcError", "code") == rej.f(0), H.as_("IcError", "message") == rej.f(1)))]
        s2.cells[G("last")], s2.cells[G("tries")], s2.cells[G("cycles")] = new, n + 1, cyc
        return [(s2, (RET, r))]
    return [(st, (RET, Fut(run)))]


def again_inv(l):
    e, st = l.eng, l.st
    me = CUR["ctx"].a(0)
    k, cyc = e.z(l.var("retries"), ("int", "u32"), st), e.z(l.var("attached_cycles"), ("int", "u128"), st)
    n, prev, m = st.cells[G("tries")], st.cells[G("cycles")], last(e, st)
    return [k >= 0, n == k, k <= me.max_num_retries.z, cyc >= 0, cyc <= MAXU, prev >= 0, z3.Implies(n == 0, cyc == me.min_attached_cycles.z),
            z3.Implies(n > 0, some_asked(e, st, m)), z3.Implies(n > 0, cyc >= double(prev)), z3.Implies(n > 0, covers(e, st, m, cyc))]


def answered(c):
    n, m = c.st.cells[G("tries")], last(c.eng, c.st)
    return [("asked at least once", n >= 1), ("the last answer is returned unchanged", c.ret.z == m.z),
            ("gives up only at the limit", z3.Implies(some_asked(c.eng, c.st, m), n == c.a(0).max_num_retries.z + 1))]


MAX = Unit("max_expected_too_few_cycles_error", crate=K, ensures=lambda c: asked_most(c, c.a(0), c.ret), traps="never")
units = [
    MAX,
    Unit("EvmRpcClient::call_internal", crate=K, is_async=True, setup=setup, ensures=answered, loops={0: again_inv},
         callee={"<CallerService as InterCanisterCall>::call": ask, "max_expected_too_few_cycles_error": by_contract(MAX)}),
]
