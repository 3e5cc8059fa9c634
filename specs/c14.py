"""C14: identifiers and wire encodings."""
from mirv.engine import RET, TRAP, Unsupported
from mirv.models import R, branch, pure_call, beval, principal_bytes
from mirv.spec import step, outcall, Made, strip
from mirv.rtypes import ty as parse_type
from mirv.values import Agg, UNIT_T, Opaque
from specs.wtx import *
from specs.common import *
from specs.c11 import address, padded

CHAINS = {"Ethereum": 1, "Sepolia": 11155111, "ArbitrumOne": 42161, "BSC": 56, "Polygon": 137, "Optimism": 10, "Base": 8453, "Avalanche": 43114, "Fantom": 250, "BSCTestnet": 97}


def chain_id(c):
    net = c.a(0)
    return [(f"{n} is chain {k}", z3.Implies(net.is_(n), c.ret.z == k)) for n, k in CHAINS.items()] + [("every network is listed", z3.Or(*[net.is_(n) for n in CHAINS]))]


def network(c):
    v = c.a(0).z
    return [(f"chain {k} is {n}", z3.Implies(v == k, z3.And(c.ret.is_("Ok"), c.ret.as_("Ok").is_(n)))) for n, k in CHAINS.items()] + [
        ("an unknown chain is rejected", z3.Implies(z3.And(*[v != k for k in CHAINS.values()]), c.ret.is_("Err")))]



# ---- stored values: what is written is one CBOR item, and what reads that item gives the value back

def num_item(c, seq, n, v, bound=None):
    """item written at n of seq denotes the number v; its length"""
    a, b = seq.at(n), seq.at(n + 1)
    by = b.as_("Bytes")
    big = [a.is_("Tag"), a.as_("Tag").is_("PosBignum"), b.is_("Bytes"), beval(c.eng, by.z) == v]
    if bound:
        big.append(by.len <= bound)
    return z3.And(a.is_("Num"), a.as_("Num").z == v), z3.And(*big)


def arr(w):
    return w._e.seq_arr(w._v, w._s)


def appended(c, p, k):
    """the stream of parameter p was only appended to: k items"""
    pre, post = c.a(p).out, c.f(p).out
    i = z3.Int("i!app")
    return z3.And(post.len == pre.len + k, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < pre.len), S(arr(post), i) == S(arr(pre), i))))


def writes_num(bound, val=lambda c: c.a(0).z):
    def f(c):
        n = c.a(1).out.len
        one, two = num_item(c, c.f(1).out, n, val(c), bound)
        return [("one item denoting the number is written", z3.Implies(c.ret.is_("Ok"), z3.Or(z3.And(one, appended(c, 1, 1)), z3.And(two, appended(c, 1, 2)))))]
    return f


def reads_num(bound, val=lambda w: w.z):
    def f(c):
        d = c.a(0)
        v = z3.Int("v!num")
        one, two = num_item(c, d.inp, d.pos.z, v, bound)
        room = d.pos.z + 1 < d.inp.len
        ok = lambda k: z3.And(c.ret.is_("Ok"), val(c.ret.as_("Ok")) == v, c.f(0).pos.z == d.pos.z + k)     # noqa
        return [("a written integer reads back", z3.ForAll([v], z3.Implies(z3.And(one, d.pos.z < d.inp.len), ok(1)))),
                ("a written big number reads back", z3.ForAll([v], z3.Implies(z3.And(two, room), ok(2))))]
    return f


def writes_opt(inner):
    """None is a null item, Some what its content is"""
    def f(c):
        pre, post, v = c.a(1).out, c.f(1).out, c.a(0)
        some = inner(c)[0][1]
        if z3.is_implies(some):
            some = some.arg(1)
        return [("no value is a null item", z3.Implies(z3.And(v.is_("None"), c.ret.is_("Ok")), z3.And(post.at(pre.len).is_("Null"), appended(c, 1, 1)))),
                ("a value is its item", z3.Implies(z3.And(v.is_("Some"), c.ret.is_("Ok")), some))]
    return f


def reads_opt_num(c):
    d = c.a(0)
    v = z3.Int("v!num")
    one, two = num_item(c, d.inp, d.pos.z, v)
    o = c.ret.as_("Ok")
    ok = lambda k: z3.And(c.ret.is_("Ok"), o.is_("Some"), o.as_("Some").z == v, c.f(0).pos.z == d.pos.z + k)     # noqa
    return [("a null item reads back as no value", z3.Implies(z3.And(d.pos.z < d.inp.len, d.inp.at(d.pos.z).is_("Null")), z3.And(c.ret.is_("Ok"), o.is_("None"), c.f(0).pos.z == d.pos.z + 1))),
            ("a written integer reads back", z3.ForAll([v], z3.Implies(z3.And(one, d.pos.z < d.inp.len), ok(1)))),
            ("a written big number reads back", z3.ForAll([v], z3.Implies(z3.And(two, d.pos.z + 1 < d.inp.len), ok(2))))]


def dec_pre(c):
    return [c.a(0).pos.z >= 0]


def writes_bytes(c, val=lambda c: c.a(0).z):
    e = c.eng
    p = principal_bytes(e, c.st, val(c))
    x = c.f(1).out.at(c.a(1).out.len)
    i = z3.Int("i!pb")
    same = z3.And(x.as_("Bytes").len == e.seq_len(p), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < e.seq_len(p)), S(arr(x.as_("Bytes")), i) == S(e.seq_arr(p), i))))
    return [("the principal's bytes are written", z3.Implies(c.ret.is_("Ok"), z3.And(appended(c, 1, 1), x.is_("Bytes"), same)))]


def reads_bytes(c, val=lambda c: c.ret.as_("Ok").z, ok=lambda c: c.ret.is_("Ok")):
    e, d = c.eng, c.a(0)
    x = d.inp.at(d.pos.z)
    b = x.as_("Bytes")
    p = principal_bytes(e, c.st, val(c))
    i = z3.Int("i!pb")
    same = z3.And(b.len == e.seq_len(p), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < e.seq_len(p)), S(arr(b), i) == S(e.seq_arr(p), i))))
    return [("written principal bytes read back as the principal with those bytes", z3.Implies(z3.And(d.pos.z < d.inp.len, x.is_("Bytes"), b.len <= 29),
                                                                                    z3.And(ok(c), same, c.f(0).pos.z == d.pos.z + 1)))]


def reads_opt_bytes(c):
    d, o = c.a(0), c.ret.as_("Ok")
    return [("a null item reads back as no value", z3.Implies(z3.And(d.pos.z < d.inp.len, d.inp.at(d.pos.z).is_("Null")), z3.And(c.ret.is_("Ok"), o.is_("None"), c.f(0).pos.z == d.pos.z + 1)))] + \
        reads_bytes(c, lambda c: o.as_("Some").z, lambda c: z3.And(c.ret.is_("Ok"), o.is_("Some")))


# ---- transactions: the stream written is the EIP-1559 list

def is_num(c, tok, v):
    """the token is the number's big-endian bytes without a leading zero"""
    b = tok.as_("Bytes")
    return z3.And(tok.is_("Bytes"), beval(c.eng, b.z) == v, z3.Or(b.len == 0, S(arr(b), 0) != 0))


def is_bytes(c, tok, seq):
    i = z3.Int("i!ib")
    b = tok.as_("Bytes")
    return z3.And(tok.is_("Bytes"), b.len == seq.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < b.len), S(arr(b), i) == S(arr(seq), i))))


def tx_tokens(c, t):
    """[(name, predicate of a token)] of the fields of a transaction, in EIP-1559 order"""
    num = lambda v: lambda k: is_num(c, k, v)     # noqa
    return [("chain id", num(t.chain_id.z)), ("nonce", num(t.nonce._0.z)), ("max_priority_fee_per_gas", num(t.max_priority_fee_per_gas._0.z)),
            ("max_fee_per_gas", num(t.max_fee_per_gas._0.z)), ("gas_limit", num(t.gas_limit._0.z)), ("destination", lambda k: is_bytes(c, k, t.destination._0)),
            ("amount", num(t.amount._0.z)), ("data", lambda k: is_bytes(c, k, t.data)),
            ("access list", lambda k: z3.And(k.is_("List"), k.as_("List") == t.access_list))]


def sig_tokens(c, g):
    num = lambda v: lambda k: is_num(c, k, v)     # noqa
    return [("y parity", num(z3.If(g.signature_y_parity.z, z3.IntVal(1), z3.IntVal(0)))), ("r", num(g.r.z)), ("s", num(g.s.z))]


def delimited(toks):
    return [("list opened", lambda k: k.is_("Open"))] + toks + [("list closed", lambda k: k.is_("Close"))]


def writes(tokens, p=1):
    def f(c):
        toks = tokens(c)
        n = c.a(p).out.len
        return [("only appended to", appended(c, p, len(toks)))] + [(nm + " is written", pr(c.f(p).out.at(n + i))) for i, (nm, pr) in enumerate(toks)]
    return f


def is_payload(c, seq, tokens):
    """seq is the type byte 2 followed by the list of exactly these tokens"""
    e = c.eng
    toks, ser = c.st.cells[("G", "rlp")]
    w = W(e, c.st, toks, ("adt", "std::vec::Vec", (("adt", "rlp::Tok", ()),)))
    z = seq.z
    i = z3.Int("i!pl")
    all_ = delimited(tokens)
    return [("the payload is the type byte and the serialised list", z3.And(seq.len == e.seq_len(ser) + 1, S(arr(seq), 0) == 2,
                                                                       z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < e.seq_len(ser)), S(arr(seq), i + 1) == S(e.seq_arr(ser), i))))),
            ("the list has just these items", w.len == len(all_))] + [(nm + " is in the payload", pr(w.at(k))) for k, (nm, pr) in enumerate(all_)]


def hashed(tokens, ret=lambda c: c.ret._0):
    def f(c):
        e = c.eng
        a = c.st.cells[("G", "keccak")]
        k = e.uf("keccak256", a.sort(), ret(c).z.sort())(a)
        return [("the hash is keccak of the payload", ret(c).z == k)] + is_payload(c, W(e, c.st, a, ("adt", "std::vec::Vec", (("int", "u8"),))), tokens(c))
    return f


def signed_new(c):
    t, g = c.a(0), c.a(1)
    return [("the transaction is kept", c.ret.inner.transaction == t), ("the signature is kept", c.ret.inner.signature == g)] + \
        hashed(lambda c: tx_tokens(c, t) + sig_tokens(c, g), lambda c: c.ret.memoized_hash._0)(c)


CUR = {}


def item_setup(c):
    CUR["c"] = c
    return []


def item_tokens(c, out, k):
    """out is what it was, then an address, then a list of the first k keys"""
    pre, it = c.a(1).out, c.a(0)
    n, i, j = pre.len, z3.Int("i!it"), z3.Int("j!it")
    key = lambda m: it.storage_keys.at(m)._0     # noqa
    tok = lambda m: out.at(m)     # noqa
    b = tok(j).as_("Bytes")
    kj = key(j - n - 3)
    return [("only appended to", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), out.at(i) == pre.at(i)))),
            ("a list of two", z3.And(tok(n).is_("Begin"), tok(n).as_("Begin").z == 2)), ("the address", is_bytes(c, tok(n + 1), it.address._0)),
            ("a list of the keys", z3.And(tok(n + 2).is_("Begin"), tok(n + 2).as_("Begin").z == it.storage_keys.len)),
            ("each key", z3.ForAll([j], z3.Implies(z3.And(j >= n + 3, j < n + 3 + k), z3.And(tok(j).is_("Bytes"), b.z == kj.z)))),
            ("nothing else", out.len == n + 3 + k)]


def item_inv(l):
    c = CUR["c"]
    it = l.iters()[-1]
    s = W(l.eng, l.st, l.var("s"), ("adt", "rlp::RlpStream", ()))
    return [it.pos >= 0, it.pos <= it.hi] + [f for _, f in item_tokens(c, s.out, it.pos)]


def address_text(c):
    """0x followed by the hex digits of exactly 20 bytes, and nothing else, is the address of those bytes"""
    e, s = c.eng, c.a(0).z
    so = s.sort()
    starts = e.uf("pure[starts_with]", so, so, z3.BoolSort())(s, e.strlit("0x"))
    n = e.uf("strlen", so, z3.IntSort())(s)
    rest = e.uf("substr", so, z3.IntSort(), z3.IntSort(), so)(s, z3.IntVal(2), n)
    ok = z3.And(starts, e.uf("hex_ok", so, z3.IntSort(), z3.BoolSort())(rest, z3.IntVal(20)))
    by = e.uf("hex_bytes[[u8;20]]", so, e.S.sort(("array", ("int", "u8"), 20)))(rest)
    return [("an address is accepted exactly when it is 0x and 40 hex digits", c.ret.is_("Ok") == ok), ("its bytes are those of its digits", z3.Implies(c.ret.is_("Ok"), c.ret.as_("Ok")._0.z == by))]


def odd(c, z):
    rec = c.calls("compute_recovery_id")
    if not rec:
        return z3.BoolVal(False)
    x = rec[-1].ret(c)
    return z == c.eng.uf("pure[ic_crypto_secp256k1::RecoveryId::is_y_odd]", x.z.sort(), z3.BoolSort())(x.z)


def kept(call, pre, posts, r):
    """what is proved of SignedEip1559TransactionRequest::new"""
    e, st = call.eng, call.st
    x = W(e, st, r, e.S.norm(call.ret))
    st.facts += [x.inner.transaction == W(e, st, *pre[0]), x.inner.signature == W(e, st, *pre[1])]


def signs(c):
    """the signature over the transaction's own payload, split into its halves"""
    e = c.eng
    made = c.calls("sign_with_ecdsa")
    out = [("at most one signature is asked for", len(made) <= 1)]
    for m in made:
        h = c.calls("hash")
        out.append(("what is signed is the transaction's hash", m.a(c, 2).z == h[-1].ret(c)._0.z if h else False))
    if made:
        r, g = c.ret.as_("Ok"), made[0].ret(c).as_("Ok")
        sig = r.inner.signature
        half = lambda v, o: z3.And(*[S(e.uf("be_bytes32", z3.IntSort(), e.S.sort(U8A))(v.z).sort().accessor(0, 1)(e.uf("be_bytes32", z3.IntSort(), e.S.sort(U8A))(v.z)), k) == S(arr(g), o + k) for k in range(32)])     # noqa
        ok = c.ret.is_("Ok")
        out += [("r is the first half", z3.Implies(ok, half(sig.r, 0))), ("s is the second half", z3.Implies(ok, half(sig.s, 32))),
                ("the parity is the recovered one", z3.Implies(ok, odd(c, sig.signature_y_parity.z))),
                ("the signed transaction is this one", z3.Implies(ok, r.inner.transaction == c.a(0)))]
    else:
        out.append(("nothing is signed without a signature", z3.Not(c.ret.is_("Ok"))))
    return out


U8A = ("array", ("int", "u8"), 32)
U64 = ("int", "u64")
U256 = ("adt", "ethnum::U256", ())
some = lambda c: c.a(0).as_("Some").z     # noqa
units = [
    Unit("evm_config::EvmNetwork::chain_id", ensures=chain_id, traps="never"),
    Unit("<EvmNetwork as TryFrom<u64>>::try_from", ensures=network, traps="never"),
    Unit("cbor::u256::encode", ensures=writes_num(32), traps="never"),
    Unit("cbor::u256::decode", requires=dec_pre, ensures=reads_num(32), traps="never"),
    Unit("cbor::nat::encode", ensures=writes_num(None), traps="never"),
    Unit("cbor::nat::decode", requires=dec_pre, ensures=reads_num(None), traps="never"),
    Unit("cbor::principal::encode", ensures=writes_bytes, traps="never"),
    Unit("cbor::principal::decode", requires=dec_pre, ensures=reads_bytes, traps="never"),
    Unit("cbor::id::encode", ensures=writes_num(32), traps="never", tenv={"Repr": U64}),
    Unit("cbor::id::decode", requires=dec_pre, ensures=lambda c: reads_num(32)(c)[:1], traps="never", tenv={"Repr": U64}),
    Unit("cbor::nat::option::encode", ensures=writes_opt(writes_num(None, some)), traps="never"),
    Unit("cbor::nat::option::decode", requires=dec_pre, ensures=reads_opt_num, traps="never"),
    Unit("cbor::principal::option::encode", ensures=writes_opt(lambda c: writes_bytes(c, some)), traps="never"),
    Unit("cbor::principal::option::decode", requires=dec_pre, ensures=reads_opt_bytes, traps="never"),
    Unit("<CheckedAmountOf as Encode>::encode", ensures=writes_num(32, lambda c: c.a(0)._0.z), traps="never"),
    Unit("<CheckedAmountOf as Decode>::decode", requires=dec_pre, ensures=reads_num(32, lambda w: w._0.z), traps="never"),
    Unit("<CheckedAmountOf as Encodable>::rlp_append", ensures=writes(lambda c: [("the number", lambda k: is_num(c, k, c.a(0)._0.z))]), traps="never"),
    Unit("tx::encode_u256", ensures=writes(lambda c: [("the number", lambda k: is_num(c, k, c.a(1).z))], 0), traps="never", tenv={"T": U256}),
    Unit("<Eip1559Signature as Encodable>::rlp_append", ensures=writes(lambda c: sig_tokens(c, c.a(0))), traps="never"),
    Unit("<AccessList as Encodable>::rlp_append", ensures=writes(lambda c: [("the list", lambda k: z3.And(k.is_("List"), k.as_("List") == c.a(0)))]), traps="never"),
    Unit("tx::Eip1559TransactionRequest::rlp_inner", ensures=writes(lambda c: tx_tokens(c, c.a(0))), traps="never"),
    Unit("<Eip1559TransactionRequest as Encodable>::rlp_append", ensures=writes(lambda c: delimited(tx_tokens(c, c.a(0)))), traps="never"),
    Unit("<InnerSignedTransactionRequest as Encodable>::rlp_append", ensures=writes(lambda c: delimited(tx_tokens(c, c.a(0).transaction) + sig_tokens(c, c.a(0).signature))), traps="never"),
    Unit("tx::Eip1559TransactionRequest::hash", ensures=hashed(lambda c: tx_tokens(c, c.a(0))), traps="never"),
    Unit("tx::InnerSignedTransactionRequest::raw_bytes", ensures=lambda c: is_payload(c, c.ret, tx_tokens(c, c.a(0).transaction) + sig_tokens(c, c.a(0).signature)), traps="never"),
    Unit("tx::SignedEip1559TransactionRequest::new", ensures=signed_new, traps="never"),
    Unit("<AccessListItem as Encodable>::rlp_append", setup=item_setup, ensures=lambda c: item_tokens(c, c.f(1).out, c.a(0).storage_keys.len), loops={0: item_inv}, traps="never"),
    Unit("tx::Eip1559TransactionRequest::sign", is_async=True, gstate=True, ensures=signs,
         models={"ic_crypto_secp256k1::RecoveryId::" + m: (lambda c: pure_call(c, c.callee.name, c.args, c.argtys, c.ret)) for m in ("is_y_odd", "is_x_reduced")},
         callee={"tx::Eip1559TransactionRequest::hash": step("hash"), "management::sign_with_ecdsa": outcall("sign_with_ecdsa"), "tx::compute_recovery_id": outcall("compute_recovery_id"),
                 "tx::SignedEip1559TransactionRequest::new": step("signed", record=False, post=kept)}),
    Unit("<Address as FromStr>::from_str", ensures=address_text, traps="never"),
    Unit("<Address as TryFrom<&[u8; 32]>>::try_from", ensures=address, traps="never"),
    Unit("<[u8; 32] as From<&Address>>::from", ensures=padded, traps="never"),
]
