"""C12: a value is taken from RPC providers only when enough of them agree."""
from specs.wtx import *
from specs.common import *
from mirv.spec import step, W, by_contract, Made, strip
from mirv.models import Fut
from mirv.engine import RET
from mirv.values import Agg, UNIT_T, opt, PyFn
from mirv.rtypes import ty as parse_type

M = "rpc_client::"
RR = M + "ReducedResult::"


def els(c, w):
    """a sequence view: (length, element at)"""
    e = c.eng
    t = e.S.elem_type(w._t)
    arr = e.seq_arr(w.z)
    return w.len, lambda i: W(e, c.st, z3.Select(arr, i), t)


def inr(i, n):
    return z3.And(i >= 0, i < n)


def same_err(c, a, b):
    """consistent errors are the same error"""
    out = []
    for v in ("ConsistentHttpOutcallError", "ConsistentEvmRpcCanisterError"):
        out.append(z3.Implies(a.is_(v), z3.And(b.is_(v), a.as_(v) == b.as_(v))))
    v = "ConsistentJsonRpcError"
    out.append(z3.Implies(a.is_(v), z3.And(b.is_(v), a.as_(v, "code") == b.as_(v, "code"), a.as_(v, "message") == b.as_(v, "message"))))
    return z3.And(out)


def oks_of(c, list_, out, name="the answers"):
    """`out` is the ok answers of `list_` with their providers, in order"""
    n, at = els(c, list_)
    m, o = els(c, out)
    i, i2, j, j2 = z3.Ints("i!b i2!b j!b j2!b")
    ok = lambda i: at(i).f(1).is_("Ok")
    eq = lambda j, i: z3.And(o(j).f(0) == at(i).f(0), o(j).f(1) == at(i).f(1).as_("Ok"))
    cov = z3.ForAll([i], z3.Implies(z3.And(inr(i, n), ok(i)), z3.Exists([j], z3.And(inr(j, m), eq(j, i)))))
    org = z3.ForAll([j], z3.Implies(inr(j, m), z3.Exists([i], z3.And(inr(i, n), ok(i), eq(j, i)))))
    order = z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < m), z3.Exists([i, i2], z3.And(i >= 0, i < i2, i2 < n, ok(i), ok(i2), eq(j, i), eq(j2, i2)))))
    return [(f"every ok answer is among {name}", cov), (f"{name} were given by providers", org), (f"{name} are in order", order)]


def filter_ok(c):
    return oks_of(c, c.a(0), c.ret)


def two(c):
    s, r = c.a(0), c.ret
    il = s.as_("InconsistentResults")
    out = [("a consistent error is passed on", z3.Implies(z3.Not(s.is_("InconsistentResults")), z3.And(r.is_("Err"), same_err(c, s, r.as_("Err"))))),
           ("what is not accepted is reported as it was", z3.Implies(r.is_("Err"), r.as_("Err") == s)),
           ("accepted: at least two", z3.Implies(r.is_("Ok"), z3.And(s.is_("InconsistentResults"), r.as_("Ok").len >= 2)))]
    out += [(n, z3.Implies(r.is_("Ok"), p)) for n, p in oks_of(c, il, r.as_("Ok"))]
    # refused only when no two providers answered
    n, at = els(c, il)
    i, j = z3.Ints("i!t j!t")
    out.append(("refused only when fewer than two answered", z3.Implies(z3.And(r.is_("Err"), s.is_("InconsistentResults")),
               z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(z3.And(at(i).f(1).is_("Ok"), at(j).f(1).is_("Ok"))))))))
    return out


def one(c):
    s, r = c.a(0), c.ret
    il = s.as_("InconsistentResults")
    n, at = els(c, il)
    i = z3.Int("i!o")
    return [("what is not accepted is reported as it was", z3.Implies(r.is_("Err"), r.as_("Err") == s)),
            ("the accepted answer was given by a provider", z3.Implies(r.is_("Ok"), z3.And(s.is_("InconsistentResults"), z3.Exists([i], z3.And(inr(i, n), at(i).f(1).is_("Ok"),
                                                                      at(i).f(0) == r.as_("Ok").f(0), at(i).f(1).as_("Ok") == r.as_("Ok").f(1)))))),
            ("refused only when none answered", z3.Implies(z3.And(r.is_("Err"), s.is_("InconsistentResults")), z3.ForAll([i], z3.Implies(inr(i, n), z3.Not(at(i).f(1).is_("Ok"))))))]


def single(e, s):
    """the error of one provider, as recorded"""
    out = [z3.Implies(e.is_("HttpOutcallError"), z3.And(s.is_("HttpOutcallError"), s.as_("HttpOutcallError") == e.as_("HttpOutcallError"))),
           z3.Implies(e.is_("JsonRpcError"), z3.And(s.is_("JsonRpcError"), s.as_("JsonRpcError", "code") == e.as_("JsonRpcError").code,
                                                    s.as_("JsonRpcError", "message") == e.as_("JsonRpcError").message)),
           z3.Implies(z3.Or(e.is_("ProviderError"), e.is_("ValidationError")), s.is_("EvmRpcError"))]
    return z3.And(out)


def from_multi(c):
    v, r = c.a(0), c.ret.result
    con, inc = v.as_("Consistent"), v.as_("Inconsistent")
    e, m = con.as_("Err"), r.as_("Err")
    C = "Consistent"
    n, at = els(c, inc)
    k, o = els(c, m.as_("InconsistentResults"))
    i = z3.Int("i!f")
    each = z3.And(o(i).f(0) == at(i).f(0), o(i).f(1).is_("Ok") == at(i).f(1).is_("Ok"), z3.Implies(at(i).f(1).is_("Ok"), o(i).f(1).as_("Ok") == at(i).f(1).as_("Ok")),
                  z3.Implies(at(i).f(1).is_("Err"), single(at(i).f(1).as_("Err"), o(i).f(1).as_("Err"))))
    return [("a consistent answer is taken", z3.Implies(z3.And(v.is_(C), con.is_("Ok")), z3.And(r.is_("Ok"), r.as_("Ok") == con.as_("Ok")))),
            ("a consistent error is passed on", z3.Implies(z3.And(v.is_(C), con.is_("Err")), z3.And(r.is_("Err"),
                z3.Implies(e.is_("HttpOutcallError"), z3.And(m.is_("ConsistentHttpOutcallError"), m.as_("ConsistentHttpOutcallError") == e.as_("HttpOutcallError"))),
                z3.Implies(e.is_("JsonRpcError"), z3.And(m.is_("ConsistentJsonRpcError"), m.as_("ConsistentJsonRpcError", "code") == e.as_("JsonRpcError").code,
                                                         m.as_("ConsistentJsonRpcError", "message") == e.as_("JsonRpcError").message)),
                z3.Implies(z3.Or(e.is_("ProviderError"), e.is_("ValidationError")), m.is_("ConsistentEvmRpcCanisterError"))))),
            ("every provider's answer is kept", z3.Implies(v.is_("Inconsistent"), z3.And(r.is_("Err"), m.is_("InconsistentResults"), k == n, z3.ForAll([i], z3.Implies(inr(i, n), each)))))]


def answers(c, il):
    n, at = els(c, il)
    return n, (lambda i: at(i).f(1).is_("Ok")), (lambda i: at(i).f(1).as_("Ok"))


def agree(c, il):
    """at least two answered, and all that did said the same"""
    n, ok, val = answers(c, il)
    i, j = z3.Ints("i!g j!g")
    twice = z3.Exists([i, j], z3.And(i >= 0, i < j, j < n, ok(i), ok(j)))
    same = z3.ForAll([i, j], z3.Implies(z3.And(inr(i, n), inr(j, n), ok(i), ok(j)), val(i) == val(j)))
    return twice, same


def kept(s, r):
    """a settled answer and a consistent error are passed on unchanged"""
    inc = z3.And(s.is_("Err"), s.as_("Err").is_("InconsistentResults"))
    return [("what is settled stays", z3.Implies(z3.Not(inc), r == s))], inc


def equality(c):
    s, r = c.a(0).result, c.ret.result
    out, inc = kept(s, r)
    il = s.as_("Err").as_("InconsistentResults")
    n, ok, val = answers(c, il)
    twice, same = agree(c, il)
    i = z3.Int("i!e")
    return out + [("accepted only if two answered", z3.Implies(z3.And(inc, r.is_("Ok")), twice)),
                  ("accepted only if all that answered agree", z3.Implies(z3.And(inc, r.is_("Ok")), same)),
                  ("the accepted value was answered", z3.Implies(z3.And(inc, r.is_("Ok")), z3.Exists([i], z3.And(inr(i, n), ok(i), val(i) == r.as_("Ok"))))),
                  ("accepted if they agree", z3.Implies(z3.And(inc, twice, same), r.is_("Ok"))),
                  ("otherwise the answers are reported", z3.Implies(z3.And(inc, r.is_("Err")), r.as_("Err") == s.as_("Err")))]


def eq_inv(l):
    e, st = l.eng, l.st
    it = l.iters()[-1]
    q = l.var("looped_inconsistent_results")
    base = l.var("base_result")
    i = z3.Int("i!l")
    T = ("param", "T")
    v = lambda k: e.z(e.proj_field(st, it.at(st, k), 1, T), T, st)
    b = e.z(base, T, st)
    n = e.seq_len(q)
    return [it.pos >= 0, it.pos <= it.hi, n >= 0, z3.Implies(n == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it.pos), v(i) == b))),
            z3.Implies(n > 0, z3.Exists([i], z3.And(i >= 0, i < it.pos, v(i) != b)))]


def only_one(c):
    s, r = c.a(0).result, c.ret.result
    out, inc = kept(s, r)
    n, ok, val = answers(c, s.as_("Err").as_("InconsistentResults"))
    i = z3.Int("i!e")
    return out + [("the accepted value was answered", z3.Implies(z3.And(inc, r.is_("Ok")), z3.Exists([i], z3.And(inr(i, n), ok(i), val(i) == r.as_("Ok"))))),
                  ("accepted if one answered", z3.Implies(z3.And(inc, z3.Exists([i], z3.And(inr(i, n), ok(i)))), r.is_("Ok"))),
                  ("otherwise the answers are reported", z3.Implies(z3.And(inc, r.is_("Err")), r.as_("Err") == s.as_("Err")))]


U64 = ("int", "u64")
KEY = {}


def key_fn(e, s):
    if str(s) not in KEY:
        KEY[str(s)] = z3.Function("key!", s, z3.IntSort())
    return KEY[str(s)]


def extractor(e, st, t):
    def fn(eng, s2, args):
        x = eng.deref(s2, args[0])
        z = eng.z(x, ("param", "T"), s2)
        k = key_fn(eng, z.sort())(z)
        return [(s2, (RET, k))]
    return PyFn(fn, parse_type("u64"))


def smallest(c):
    s, r = c.a(0).result, c.ret.result
    out, inc = kept(s, r)
    il = s.as_("Err").as_("InconsistentResults")
    n, ok, val = answers(c, il)
    twice, _ = agree(c, il)
    i = z3.Int("i!e")
    x = r.as_("Ok")
    k = key_fn(c.eng, x.z.sort())
    return out + [("the accepted value was answered", z3.Implies(z3.And(inc, r.is_("Ok")), z3.Exists([i], z3.And(inr(i, n), ok(i), val(i) == x)))),
                  ("no answer has a smaller key", z3.Implies(z3.And(inc, r.is_("Ok")), z3.ForAll([i], z3.Implies(z3.And(inr(i, n), ok(i)), k(val(i).z) >= k(x.z))))),
                  ("accepted only if two answered", z3.Implies(z3.And(inc, r.is_("Ok")), twice)),
                  ("accepted if two answered", z3.Implies(z3.And(inc, twice), r.is_("Ok"))),
                  ("otherwise the answers are reported", z3.Implies(z3.And(inc, r.is_("Err")), r.as_("Err") == s.as_("Err")))]


PRED = z3.Function("pred!", z3.IntSort(), z3.BoolSort())


def predicate(e, st, t):
    def fn(eng, s2, args):
        x = eng.deref(s2, args[0])
        ty = eng.strip_ref(args[0].ty) if hasattr(args[0], "ty") else parse_type("HttpOutcallError")
        z = eng.z(x, x.ty if isinstance(x, Agg) else None, s2)
        return [(s2, (RET, pred(z)))]
    return PyFn(fn, parse_type("bool"))


def pred(z):
    if str(z.sort()) not in KEY:
        KEY[str(z.sort())] = z3.Function("pred!", z.sort(), z3.BoolSort())
    return KEY[str(z.sort())](z)


def has_http(c):
    s, r = c.a(0), c.ret
    n, at = els(c, s.as_("InconsistentResults"))
    i = z3.Int("i!h")
    H = "HttpOutcallError"
    some = z3.Exists([i], z3.And(inr(i, n), at(i).f(1).is_("Err"), at(i).f(1).as_("Err").is_(H), pred(at(i).f(1).as_("Err").as_(H).z)))
    return [("a matching outcall error is found, whoever reported it", r.z == z3.Or(z3.And(s.is_("ConsistentHttpOutcallError"), pred(s.as_("ConsistentHttpOutcallError").z)),
                                                                                  z3.And(s.is_("InconsistentResults"), some)))]


def provider_call(name, out):
    """the EVM RPC canister's answer: any answer of any provider (each provider once)"""
    def model(call):
        e = call.eng
        pre = []
        for a, t in zip(call.args, call.argtys):
            v = e.deref(call.st, a)
            pre.append((v, v.ty if isinstance(v, Agg) else e.S.norm(strip(t))))
        rt = e.S.norm(parse_type("evm_rpc_types::MultiRpcResult<%s>" % out))

        def run(c):
            r = e.fresh(c.st, rt, "answers")
            c.st.ghost["calls"] = c.st.ghost.get("calls", ()) + (Made(e, name, pre, {}, r, rt),)
            return [(c.st, (RET, r))]
        return [(call.st, (RET, Fut(run)))]
    return {"evm_rpc_client::EvmRpcClient::" + name: model}


def asked(c, name):
    """the one request made, if any"""
    k = c.calls(name)
    if len(c.calls()) != len(k) or len(k) > 1:
        return None, [("one request", z3.BoolVal(False))]
    if not k:
        return None, [("no request, no value", c.ret.is_("Err"))]
    return k[0], []


def rule(c, m, is_val, how, total=True):
    """r is Ok only by consensus of the providers; is_val(x, v): the answer v, as the value x"""
    r = c.ret
    x = r.as_("Ok")
    con, il = m.as_("Consistent"), m.as_("Inconsistent")
    n, ok, val = answers(c, il)
    twice, same = agree(c, il)
    i = z3.Int("i!e")
    C, inc = z3.And(m.is_("Consistent"), con.is_("Ok")), m.is_("Inconsistent")
    got = z3.Exists([i], z3.And(inr(i, n), ok(i), is_val(x, val(i))))
    any_ok = z3.Exists([i], z3.And(inr(i, n), ok(i)))
    out = [("an agreed answer is what was answered", z3.Implies(z3.And(C, r.is_("Ok")), is_val(x, con.as_("Ok")))),
           ("an agreed error gives no value", z3.Implies(z3.And(m.is_("Consistent"), con.is_("Err")), r.is_("Err"))),
           ("the accepted value was answered", z3.Implies(z3.And(inc, r.is_("Ok")), got)),
           ("no answer, no value", z3.Implies(z3.And(inc, z3.Not(any_ok)), r.is_("Err")))]
    if total:
        out.append(("an agreed answer is taken", z3.Implies(C, r.is_("Ok"))))
    if how == "equal":
        out += [("accepted only if two answered", z3.Implies(z3.And(inc, r.is_("Ok")), twice)), ("accepted only if all that answered agree", z3.Implies(z3.And(inc, r.is_("Ok")), same))]
        if total:
            out.append(("accepted if they agree", z3.Implies(z3.And(inc, twice, same), r.is_("Ok"))))
    if how == "min":
        out += [("accepted only if two answered", z3.Implies(z3.And(inc, r.is_("Ok")), twice)), ("accepted if two answered", z3.Implies(z3.And(inc, twice), r.is_("Ok"))),
                ("no answer is smaller", z3.Implies(z3.And(inc, r.is_("Ok")), z3.ForAll([i], z3.Implies(z3.And(inr(i, n), ok(i)), num(val(i)) >= num(x)))))]
    if how == "one":
        out += [("accepted if one answered", z3.Implies(z3.And(inc, any_ok), r.is_("Ok")))]
    return out


def num(w):
    return w.z if w.z.sort() == z3.IntSort() else w.f(0).z


def same_num(x, v):
    return num(x) == num(v)


def count(tag, how):
    def ens(c):
        k, out = asked(c, "eth_get_transaction_count")
        if k is None:
            return out
        q = k.a(c, 1)
        return [("the right block", q.block.is_(tag))] + rule(c, k.ret(c), same_num, how)
    return ens


def request(name, is_val, how, total):
    def ens(c):
        k, out = asked(c, name)
        return out if k is None else rule(c, k.ret(c), is_val, how, total)
    return ens


def is_sent(x, v):
    return z3.And([x.is_(k) == v.is_(k) for k in ("Ok", "InsufficientFunds", "NonceTooLow", "NonceTooHigh")])


def fns(a, b):
    """the mapping function passed to map_reduce: whether it accepts an answer, and what it makes of it"""
    k = ("map", str(a), str(b))
    if k not in KEY:
        KEY[k] = (z3.Function("op_ok!", a, z3.BoolSort()), z3.Function("op!", a, b))
    return KEY[k]


def fallible(e, st, t):
    def fn(eng, s2, args):
        v = eng.z(eng.deref(s2, args[0]), ("param", "T"), s2)
        rt = eng.S.norm(parse_type("std::result::Result<U, std::string::String>"))
        rt = ("adt", rt[1], (("param", "U"), parse_type("std::string::String")))
        us = eng.S.sort(("param", "U"))
        okp, f = fns(v.sort(), us)
        r = eng.const(eng.S.sort(rt), "op")
        s2.facts += eng.wf(rt, r)
        w = W(eng, s2, r, rt)
        s2.facts += [w.is_("Ok") == okp(v), z3.Implies(w.is_("Ok"), w.as_("Ok").z == f(v))]
        return [(s2, (RET, r))]
    return PyFn(fn, parse_type("std::result::Result<U, std::string::String>"))


def mapped(c):
    s, r = c.a(0).result, c.ret.result
    e, m = s.as_("Err"), r.as_("Err")
    okp, f = fns(s.as_("Ok").z.sort(), r.as_("Ok").z.sort())
    I = "InconsistentResults"
    n, at = els(c, e.as_(I))
    k, o = els(c, m.as_(I))
    i = z3.Int("i!f")
    a, b = at(i).f(1), o(i).f(1)
    each = z3.And(o(i).f(0) == at(i).f(0), b.is_("Ok") == z3.And(a.is_("Ok"), okp(a.as_("Ok").z)), z3.Implies(b.is_("Ok"), b.as_("Ok").z == f(a.as_("Ok").z)),
                  z3.Implies(a.is_("Err"), b.as_("Err") == a.as_("Err")))
    inc = z3.And(s.is_("Err"), e.is_(I))
    return [("an agreed answer is mapped", z3.Implies(s.is_("Ok"), z3.And(r.is_("Ok") == okp(s.as_("Ok").z), z3.Implies(r.is_("Ok"), r.as_("Ok").z == f(s.as_("Ok").z))))),
            ("no value out of an error", z3.Implies(s.is_("Err"), r.is_("Err"))),
            ("a consistent error is passed on", z3.Implies(z3.And(s.is_("Err"), z3.Not(e.is_(I))), same_err(c, e, m))),
            ("differing answers stay apart", z3.Implies(inc, m.is_(I))), ("none is lost", z3.Implies(inc, n == k)),
            ("every provider's answer is mapped", z3.Implies(inc, z3.ForAll([i], z3.Implies(inr(i, n), each))))]


def is_image(x, v):
    okp, f = fns(v.z.sort(), x.z.sort())
    return z3.And(okp(v.z), x.z == f(v.z))


MAP = Unit(RR + "map_reduce", ensures=mapped, args={"fallible_op": fallible}, tenv={"E": parse_type("std::string::String")}, traps="never")
TWO = Unit(M + "MultiCallError::at_least_two_ok", ensures=two, traps="never")
ONE = Unit(M + "MultiCallError::at_least_one_ok", ensures=one, traps="never")
EQ = Unit(RR + "reduce_with_equality", ensures=equality, loops={0: eq_inv}, traps="never")
eq_c = {RR + "reduce_with_equality": by_contract(EQ)}
req_c = dict(eq_c, **{RR + "map_reduce": by_contract(MAP)})

units = [
    Unit(M + "filter_inconsistent_ok_results", ensures=filter_ok, traps="never"),
    TWO, ONE,
    Unit(RR + "from_multi_result", ensures=from_multi, traps="never"),
    EQ, MAP,
    Unit(RR + "reduce_with_only_one_key", ensures=only_one, traps="never"),
    Unit(RR + "reduce_with_min_by_key", ensures=smallest, traps="never", args={"extractor": extractor}, tenv={"K": parse_type("u64")}),
    Unit(M + "MultiCallError::has_http_outcall_error_matching", ensures=has_http, traps="never", args={"predicate": predicate}),
    Unit(M + "RpcClient::get_finalized_transaction_count", is_async=True, ensures=count("Finalized", "equal"), models=provider_call("eth_get_transaction_count", "evm_rpc_types::Nat256"), callee=eq_c),
    Unit(M + "RpcClient::get_latest_transaction_count", is_async=True, ensures=count("Latest", "min"), models=provider_call("eth_get_transaction_count", "evm_rpc_types::Nat256"), callee=eq_c),
    Unit(M + "RpcClient::get_block_by_number", is_async=True, ensures=request("eth_get_block_by_number", is_image, "equal", False), models=provider_call("eth_get_block_by_number", "evm_rpc_types::Block"), callee=req_c),
    Unit(M + "RpcClient::get_transaction_receipt", is_async=True, ensures=request("eth_get_transaction_receipt", is_image, "equal", False), models=provider_call("eth_get_transaction_receipt", "std::option::Option<evm_rpc_types::TransactionReceipt>"), callee=req_c),
    Unit(M + "RpcClient::send_raw_transaction", is_async=True, ensures=request("eth_send_raw_transaction", is_sent, "one", True), models=provider_call("eth_send_raw_transaction", "evm_rpc_types::SendRawTransactionStatus"), callee=eq_c),
    Unit(M + "RpcClient::get_logs", is_async=True, ensures=request("eth_get_logs", is_image, "equal", False), models=provider_call("eth_get_logs", "std::vec::Vec<evm_rpc_types::LogEntry>"),
         callee=dict(req_c, **{M + "into_evm_topic": step("topics", record=False)})),
]
