"""C11: deposit logs are decoded faithfully or rejected, one by one."""
from specs.wtx import *
from mirv.spec import step, Ctx
from mirv.engine import RET
from mirv.values import Agg, UNIT_T, opt
from mirv.models import principal_bytes, be_of

TOPIC = bytes.fromhex("deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275")


def zeros(b, lo, hi):
    """bytes lo..hi of a sequence view are zero"""
    return z3.And([b.at(i).z == 0 for i in range(lo, hi)])


def is_addr(word, a, off=0):
    """the 20 bytes of `a` are the last 20 of the 32-byte word"""
    return z3.And([a.f(0).at(i).z == word.at(off + 12 + i).z for i in range(20)])


def be(word, off=0):
    return be_of(word._e, [word.at(off + i).z for i in range(32)])


def address(c):
    w = c.a(0)
    return [("accepted exactly when the leading bytes are zero", c.ret.is_("Ok") == zeros(w, 0, 12)),
            ("the address is the last 20 bytes", z3.Implies(c.ret.is_("Ok"), is_addr(w, c.ret.as_("Ok"))))]


def padded(c):
    return [("left padded with zeros", zeros(c.ret, 0, 12)), ("then the 20 bytes", is_addr(c.ret, c.a(0)))]


# --- principals ---------------------------------------------------------------------------------------------------
def principal_ok(w, n):
    """w: the bytes; n: how many there are (a term)"""
    k = w.at(0).z
    return z3.And(n >= 1, n <= 32, k >= 1, k <= 29, n >= 1 + k, z3.Not(z3.And(k == 1, w.at(1).z == 4)),
                  z3.And([z3.Implies(z3.And(i < n, i > k), w.at(i).z == 0) for i in range(2, 32)]))


def is_principal(c, w, p):
    b = principal_bytes(c.eng, c.st, p.z)
    k = w.at(0).z
    return z3.And(c.eng.seq_len(b) == k, *[z3.Implies(i < k, z3.Select(c.eng.seq_arr(b), i) == w.at(1 + i).z) for i in range(29)])


def principal(c):
    w = c.a("slice")
    return [("accepted exactly when it is a length, that many bytes and zeros, and neither the anonymous nor the management principal",
             c.ret.is_("Ok") == principal_ok(w, w.len)),
            ("the principal is those bytes", z3.Implies(c.ret.is_("Ok"), is_principal(c, w, c.ret.as_("Ok"))))]


# --- subaccounts --------------------------------------------------------------------------------------------------
def sub_is(word, s, off=0):
    """the optional subaccount s is the 32 bytes of the word, absent when they are all zero"""
    v = be(word, off)
    z = z3.And([word.at(off + i).z == 0 for i in range(32)])
    return z3.And(s.is_("None") == z, z3.Implies(s.is_("Some"), s.as_("Some").f(0).f(0).z == v))


def from_bytes(c):
    w = c.a("bytes")
    return [("the default subaccount is none, every other one is kept as it is", sub_is(w, c.ret))]


def to_bytes(c):
    return [("the 32 bytes of the subaccount", be(c.ret) == c.a(0).f(0).f(0).z)]


# --- words --------------------------------------------------------------------------------------------------------
def words(c):
    d = c.a("data").f(0)
    r = c.ret.as_("Ok")
    return [("accepted exactly when the data is two words", c.ret.is_("Ok") == (d.len == 64)),
            ("the words are the data, in order", z3.Implies(c.ret.is_("Ok"), z3.And([r.at(j).at(i).z == d.at(32 * j + i).z for j in range(2) for i in range(32)])))]


# --- one log ------------------------------------------------------------------------------------------------------
def complete(e):
    return z3.And([e.f(f).is_("Some") for f in ("block_hash", "block_number", "transaction_hash", "transaction_index", "log_index")])


def not_pending(c):
    e = c.a("entry")
    r = c.ret.as_("Ok")
    src = r.f(1)
    return [("accepted exactly when the log is mined", c.ret.is_("Ok") == complete(e)),
            ("its position is the log's", z3.Implies(c.ret.is_("Ok"), z3.And(r.f(0) == e.block_number.as_("Some"), src.transaction_hash == e.transaction_hash.as_("Some"),
                                                                           src.log_index == e.log_index.as_("Some"))))]


def accept(e):
    t, d = e.topics, e.data.f(0)
    return z3.And(complete(e), z3.Not(e.removed.z), t.len == 4, z3.And([t.at(0).f(0).at(i).z == TOPIC[i] for i in range(32)]), d.len == 64,
                  zeros(d, 0, 12), zeros(t.at(1).f(0), 0, 12), principal_ok(t.at(3).f(0), z3.IntVal(32)))


def fields(c, e, v):
    t, d = e.topics, e.data.f(0)
    return [("its block, transaction and index", z3.And(v.block_number == e.block_number.as_("Some"), v.transaction_hash == e.transaction_hash.as_("Some"),
                                                        v.log_index == e.log_index.as_("Some"))),
            ("its sender", is_addr(d, v.from_address)),
            ("its value", v.value.f(0).z == be(t.at(2).f(0))),
            ("its recipient", is_principal(c, t.at(3).f(0), v.principal)),
            ("its subaccount", sub_is(d, v.subaccount, 32))]


def parse_log(c):
    e = c.a("entry")
    ok = c.ret.is_("Ok")
    ev = c.ret.as_("Ok")
    native = zeros(e.topics.at(1).f(0), 12, 32)
    out = [("decoded exactly when the log is a mined deposit with valid addresses and principal", ok == accept(e)),
           ("native exactly when the token is the zero address", z3.Implies(ok, ev.is_("Native") == native))]
    for k in ("Native", "Erc20"):
        v = ev.as_(k)
        on = z3.And(ok, ev.is_(k))
        out += [(f"{k}: {n}", z3.Implies(on, p)) for n, p in fields(c, e, v)]
    out += [("its token contract", z3.Implies(z3.And(ok, ev.is_("Erc20")), is_addr(e.topics.at(1).f(0), ev.as_("Erc20").erc20_contract_address)))]
    return out


# --- a batch ------------------------------------------------------------------------------------------------------
PARSE = step("parse_log", traps=False, record=False)


def batch(c):
    e, st = c.eng, c.st
    logs = c.a(0)
    oks, errs = c.ret.f(0), c.ret.f(1)
    le = e.S.elem_type(logs._t)
    rt = ("adt", "std::result::Result", (e.S.elem_type(oks._t), e.S.elem_type(errs._t)))
    so = e.S.sort(e.S.norm(rt))
    f = e.uf("parse_log#ret", e.S.sort(le), so)
    res = lambda i: f(z3.Select(e.seq_arr(logs.z), i))
    n = logs.len
    out = [("one result per log", oks.len + errs.len == n)]
    for k, (name, seq) in enumerate((("decoded deposits", oks), ("errors", errs))):
        is_ = lambda i: so.recognizer(k)(res(i))
        val = lambda i: so.accessor(k, 0)(res(i))
        a = e.seq_arr(seq.z)
        inr = lambda x, m: z3.And(x >= 0, x < m)
        i, i2, j, j2 = z3.Ints("i!b i2!b j!b j2!b")
        cov = z3.ForAll([i], z3.Implies(z3.And(inr(i, n), is_(i)), z3.Exists([j], z3.And(inr(j, seq.len), z3.Select(a, j) == val(i)))))
        org = z3.ForAll([j], z3.Implies(inr(j, seq.len), z3.Exists([i], z3.And(inr(i, n), is_(i), z3.Select(a, j) == val(i)))))
        order = z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < seq.len), z3.Exists([i, i2], z3.And(
            i >= 0, i < i2, i2 < n, is_(i), is_(i2), z3.Select(a, j) == val(i), z3.Select(a, j2) == val(i2)))))
        out += [(f"every log that decodes so is among the {name}", cov), (f"the {name} come from the logs", org), (f"the {name} are in the order of the logs", order)]
    return out


units = [
    Unit("<Address as TryFrom<&[u8; 32]>>::try_from", ensures=address, traps="never"),
    Unit("<[u8; 32] as From<&Address>>::from", ensures=padded, traps="never"),
    Unit("eth_types::Address::is_native_token", ensures=lambda c: [("exactly the zero address", c.ret.z == zeros(c.a(0).f(0), 0, 20))], traps="never"),
    Unit("deposit_logs::LedgerSubaccount::from_bytes", ensures=from_bytes, traps="never"),
    Unit("deposit_logs::LedgerSubaccount::to_bytes", ensures=to_bytes, traps="never"),
    Unit("deposit_logs::parse_principal_from_slice", ensures=principal, traps="never"),
    Unit("deposit_logs::parser::parse_data_into_32_byte_words", tenv={"N": ("const", 2)}, ensures=words, traps="never"),
    Unit("deposit_logs::parser::ensure_not_pending", ensures=not_pending, traps="never"),
    Unit("<ReceivedDepositLogParser as LogParser>::parse_log", ensures=parse_log, traps="never"),
    Unit("deposit_logs::parser::LogParser::parse_all_logs", tenv={"Self": ("adt", "deposit_logs::parser::ReceivedDepositLogParser", ())},
         callee={"<ReceivedDepositLogParser as LogParser>::parse_log": PARSE}, ensures=batch, traps="never"),
]
