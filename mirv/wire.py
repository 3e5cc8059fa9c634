"""Models of the byte-stream libraries: a CBOR encoder, decoder or RLP stream is the sequence of tokens written to it or to be read from it.

Trusted about minicbor: the encodings of one token (an integer of any width, a tag, a byte string) read back as that token and as nothing else, whatever follows;
u64() on another kind of token is a type mismatch and may move the position. Trusted about rlp: a byte string or an integer is written as the byte string token
(an integer as its big-endian bytes without leading zeros), lists are delimited, and out()/rlp_bytes() is a function of the tokens that determines them."""
import z3

from .engine import RET
from .models import model, tmodel, R, T, simp, branch, on_enum, beval, unit, then, MODELS, TRAIT_MODELS  # noqa
from .values import Agg, MRef, Opaque, Unsupported, UNIT_T, Lst
from .rtypes import unify

U8S = ("adt", "std::vec::Vec", (("int", "u8"),))
CTOK, RTOK = ("adt", "minicbor::Tok", ()), ("adt", "rlp::Tok", ())


def cons(e, t, name, *fs):
    for k, (n, _, fl) in enumerate(e.S.adt_def(t)):
        if n == name:
            return e.z(Agg(t, k, list(fs)), t)
    raise KeyError(name)


def split(c, st, v, t, handlers):
    return on_enum(c, v, t, handlers, st)


def push(c, st, ref, ft, x):
    e = c.eng
    at = MRef(ref.cell, ref.projs + (("f", 0, ("adt", "std::vec::Vec", (ft,))),))
    v = e.deref(st, at)
    n = e.seq_len(v)
    e.write(st, at.cell, at.projs, e.seq_mk(ft, n + 1, z3.Store(e.seq_arr(v, st), n, x)))


def slice_value(e, st, a):
    """the bytes behind a reference"""
    v = e.deref(st, a)
    while isinstance(v, MRef):
        v = e.deref(st, v)
    return e.z(v, U8S, st)


def suffix_facts(e, st, base, z, lo, hi, n=32):
    """leading zeros do not change the value; what follows the leading zeros of a value is its shortest notation"""
    arr = e.seq_arr(base)
    whole = z3.And(e.seq_len(base) == n, hi == n)
    zeros = z3.BoolVal(True)
    v = beval(e, base)
    for k in range(n + 1):
        if k:
            zeros = z3.And(zeros, z3.Select(arr, k - 1) == 0)
            st.facts.append(z3.Implies(whole, zeros == (v < 256 ** (n - k))))
        st.facts.append(z3.Implies(z3.And(whole, lo == k, zeros), beval(e, z) == v))
    st.facts.append(z3.Implies(whole, z3.And(v >= 0, v < 256 ** n)))


def encres(c, st, ref):
    """the write may fail"""
    e = c.eng
    ok = z3.Bool(f"written{e.nfresh}")
    e.nfresh += 1

    def bad(s):
        t = e.S.norm(e.strip_ref(c.argtys[0]))
        e.write(s, ref.cell, ref.projs, e.fresh(s, t, "encoder"))
        return R(s, Agg(c.ret, 1, [e.fresh(s, e.S.norm(c.ret)[2][1], "encode error")]))
    return branch(c, ok, lambda s: R(s, Agg(c.ret, 0, [ref])), bad, st)


@model(*[f"minicbor::Encoder::u{k}" for k in (8, 16, 32, 64)])
def _enc_num(c):
    e = c.eng
    push(c, c.st, c.args[0], CTOK, cons(e, CTOK, "Num", c.args[1]))
    return encres(c, c.st, c.args[0])


@model("minicbor::Encoder::tag")
def _enc_tag(c):
    e = c.eng
    push(c, c.st, c.args[0], CTOK, cons(e, CTOK, "Tag", e.z(e.deref(c.st, c.args[1]), ("adt", "minicbor::data::Tag", ()), c.st)))
    return encres(c, c.st, c.args[0])


@model("minicbor::Encoder::bytes")
def _enc_bytes(c):
    e = c.eng
    push(c, c.st, c.args[0], CTOK, cons(e, CTOK, "Bytes", slice_value(e, c.st, c.args[1])))
    return encres(c, c.st, c.args[0])


@model("minicbor::Encoder::ok")
def _enc_ok(c):
    return Agg(c.ret, 0, [unit()])


@tmodel("Encode.encode")
def _encode(c):
    """minicbor's own impls: an integer is one item, an option is null or its content"""
    e, st = c.eng, c.st
    t = e.S.norm(e.strip_ref(c.argtys[0]))
    ref = c.args[1]

    if t[0] == "int" and t[1] in ("u8", "u16", "u32", "u64"):
        push(c, st, ref, CTOK, cons(e, CTOK, "Num", e.deref(st, c.args[0])))
        return encunit(c, st, ref)
    if t[0] == "adt" and t[1].endswith("option::Option"):
        def none(s):
            push(c, s, ref, CTOK, cons(e, CTOK, "Null"))
            return encunit(c, s, ref)
        return on_enum(c, c.args[0], t, {"None": lambda s, f: none(s), "Some": lambda s, f: impl(c, s, "Encode", "encode", t[2][0], [f[0]] + c.args[1:], [t[2][0]] + list(c.argtys[1:]))}, st)
    return impl(c, st, "Encode", "encode", t, c.args, c.argtys)


def encunit(c, st, ref):
    e = c.eng
    ok = z3.Bool(f"written{e.nfresh}")
    e.nfresh += 1

    def bad(s):
        e.write(s, ref.cell, ref.projs, e.fresh(s, e.S.norm(e.strip_ref(c.argtys[1])), "encoder"))
        return R(s, Agg(c.ret, 1, [e.fresh(s, e.S.norm(c.ret)[2][1], "encode error")]))
    return branch(c, ok, lambda s: R(s, Agg(c.ret, 0, [unit()])), bad, st)


@tmodel("Decode.decode")
def _decode(c):
    e, st = c.eng, c.st
    t = e.S.norm(e.S.norm(c.ret)[2][0])
    if t[0] == "int" and t[1] == "u64":
        return reader("Num")(c)
    if t[0] == "adt" and t[1].endswith("option::Option"):
        inp, pos = dec(c)

        def null(s):
            setpos(c, s, simp(pos + 1))
            return R(s, Agg(c.ret, 0, [Agg(t, 0, [])]))

        def inner(s):
            rt = ("adt", "std::result::Result", (t[2][0], e.S.norm(c.ret)[2][1]))
            return then(impl(c, s, "Decode", "decode", t[2][0], c.args, c.argtys, rt),
                        lambda s2, v: on_enum(c, v, rt, {"Ok": lambda s3, f: R(s3, Agg(c.ret, 0, [Agg(t, 1, [f[0]])])), "Err": lambda s3, f: R(s3, Agg(c.ret, 1, [f[0]]))}, s2))
        isnull = z3.And(pos >= 0, pos < e.seq_len(inp), e.is_variant(e.seq_at(st, inp, pos, CTOK), CTOK, "Null"))
        return branch(c, isnull, null, inner, st)
    return impl(c, st, "Decode", "decode", t, c.args, c.argtys, c.ret)


# ---- reading

POS = ("int", "usize")


def dec(c, st=None):
    e, st, ref = c.eng, st or c.st, c.args[0]
    if not isinstance(ref, MRef):
        return e.fields(ref, ("adt", "minicbor::Decoder", ()), st).f
    inp = e.deref(st, MRef(ref.cell, ref.projs + (("f", 0, ("adt", "std::vec::Vec", (CTOK,))),)))
    pos = e.deref(st, MRef(ref.cell, ref.projs + (("f", 1, POS),)))
    return inp, pos


def setpos(c, st, p):
    ref = c.args[0]
    c.eng.write(st, ref.cell, ref.projs + (("f", 1, POS),), p)


def offset(e, inp):
    """byte offset of a token, and back"""
    return e.uf("byte_offset", inp.sort(), z3.IntSort(), z3.IntSort()), e.uf("token_at", inp.sort(), z3.IntSort(), z3.IntSort())


@model("minicbor::Decoder::position")
def _pos(c):
    e, st = c.eng, c.st
    inp, pos = dec(c)
    inp = e.z(inp, ("adt", "std::vec::Vec", (CTOK,)), st)
    f, g = offset(e, inp)
    st.facts += [g(inp, f(inp, pos)) == pos] + e.wf(POS, f(inp, pos))
    return f(inp, pos)


@model("minicbor::Decoder::set_position")
def _setpos(c):
    e, st = c.eng, c.st
    inp, _ = dec(c)
    inp = e.z(inp, ("adt", "std::vec::Vec", (CTOK,)), st)
    p = offset(e, inp)[1](inp, c.args[1])
    st.facts += e.wf(POS, p)
    setpos(c, st, p)
    return unit()


def reader(kind, conv=lambda c, s, x: x):
    def f(c):
        e, st = c.eng, c.st
        inp, pos = dec(c)
        et = e.S.norm(c.ret)[2][1]

        def err(mismatch):
            def g(s):
                p = e.const(z3.IntSort(), "badpos")
                s.facts += e.wf(POS, p)
                setpos(c, s, p)
                return R(s, Agg(c.ret, 1, [Agg(et, None, [mismatch])]))
            return g

        def there(s):
            tok = e.seq_at(s, inp, pos, CTOK)

            def good(s2, fs):
                setpos(c, s2, simp(pos + 1))
                return R(s2, Agg(c.ret, 0, [conv(c, s2, fs[0])]))
            return on_enum(c, tok, CTOK, {kind: good, "_": lambda s2, fs: err(z3.BoolVal(True))(s2)}, s)
        return branch(c, z3.And(pos >= 0, pos < e.seq_len(inp)), there, err(z3.BoolVal(False)), st)
    return f


MODELS["minicbor::Decoder::u64"] = reader("Num")
MODELS["minicbor::Decoder::tag"] = reader("Tag")
MODELS["minicbor::Decoder::bytes"] = reader("Bytes")


@model("minicbor::decode::Error::is_type_mismatch")
def _mismatch(c):
    e = c.eng
    return e.fields(e.deref(c.st, c.args[0]), ("adt", "minicbor::decode::Error", ()), c.st).f[0]


@model("minicbor::decode::Error::message", "minicbor::decode::Error::custom")
def _decmsg(c):
    return Agg(c.ret, None, [z3.BoolVal(False)])


# ---- rlp

def impl(c, st, trait, method, selfty, args, argtys, ret=None):
    """run the local impl of a library trait"""
    from .engine import Callee
    e = c.eng
    cc = Callee()
    cc.text, cc.selfty, cc.trait, cc.method = "", e.strip_ref(selfty), ("adt", trait, ()), method
    cc.generics, cc.tyargs, cc.segs, cc.name = (), (), [], f"{trait}::{method}"
    r = e.resolve(cc, argtys, ret)
    if r is None and ret is not None:         # a derived constructor: known by what it returns
        for b, tr, sh, derived, mod in e.methods.get(method, []):
            b.parse()
            env = {}
            if tr == trait and unify(b.ret, ret, env) and e.S.norm(b.ret)[2][0] == e.S.norm(ret)[2][0]:
                r = (b, env, derived)
    if r is None:
        raise Unsupported(f"no local {trait} for {selfty}")
    return e.merge(e.run_body(st, r[0], list(args), r[1], c.fr.depth + 1))


def minimal(e, st, v, n=32):
    """the shortest big-endian bytes of a number below 256^n"""
    z = e.uf("shortest", z3.IntSort(), e.S.sort(U8S))(v)
    ln = e.seq_len(z)
    st.facts += e.wf(U8S, z) + [beval(e, z) == v, ln >= 0, ln <= n, z3.Implies(ln > 0, z3.Select(e.seq_arr(z), 0) != 0)] + [(ln <= k) == (v < 256 ** k) for k in range(n)]
    return z


@model("rlp::RlpStream::append")
def _append(c):
    e, st, ref = c.eng, c.st, c.args[0]
    t = e.S.norm(c.argtys[1][2])
    while t[0] == "ref":
        t = e.S.norm(t[2])
    if t[0] == "bool":
        b = e.deref(st, c.args[1])
        z = minimal(e, st, z3.If(b, z3.IntVal(1), z3.IntVal(0)))
    elif t[0] == "int":
        z = minimal(e, st, e.deref(st, c.args[1]))
    elif t[0] in ("slice", "array") or t == U8S or t == ("adt", "std::vec::Vec", (("int", "u8"),)):
        z = slice_value(e, st, c.args[1])
    else:
        return then(impl(c, st, "rlp::Encodable", "rlp_append", t, [c.args[1], ref], [c.argtys[1], c.argtys[0]]), lambda s, _: R(s, ref))
    push(c, st, ref, RTOK, cons(e, RTOK, "Bytes", z))
    return R(st, ref)


def rtoken(name):
    def f(c):
        e = c.eng
        push(c, c.st, c.args[0], RTOK, cons(e, RTOK, name, *([c.args[1]] if name == "Begin" else [])))
        return R(c.st, c.args[0] if c.ret != UNIT_T else unit())
    return f


MODELS["rlp::RlpStream::begin_unbounded_list"] = rtoken("Open")
MODELS["rlp::RlpStream::finalize_unbounded_list"] = rtoken("Close")
MODELS["rlp::RlpStream::begin_list"] = rtoken("Begin")


@tmodel("Encodable.rlp_bytes")
def _rlp_bytes(c):
    e, st = c.eng, c.st
    t = ("adt", "rlp::RlpStream", ())
    cell = e.newcell(st, Agg(t, None, [Lst(RTOK, [])]))
    ref = MRef(cell, ())
    outs = impl(c, st, "rlp::Encodable", "rlp_append", c.argtys[0], [c.args[0], ref], [c.argtys[0], ("ref", True, t)])

    def done(s, _):
        toks = e.z(e.deref(s, MRef(cell, (("f", 0, ("adt", "std::vec::Vec", (RTOK,))),))), ("adt", "std::vec::Vec", (RTOK,)), s)
        return R(s, serialized(e, s, toks))
    return then(outs, done)


def serialized(e, st, toks):
    z = e.uf("rlp_bytes", toks.sort(), e.S.sort(U8S))(toks)
    st.facts += e.wf(U8S, z)
    st.cells[("G", "rlp")] = (toks, z)          # for specifications: the stream last turned into bytes
    return z


@model("rlp::RlpStream::new")
def _rlp_new(c):
    return Agg(("adt", "rlp::RlpStream", ()), None, [Lst(RTOK, [])])


@model("rlp::RlpStream::out")
def _rlp_out(c):
    e, st = c.eng, c.st
    t = ("adt", "std::vec::Vec", (RTOK,))
    return serialized(e, st, e.z(e.fields(e.deref(st, c.args[0]), ("adt", "rlp::RlpStream", ()), st).f[0], t, st))


@model("rlp::encode")
def _rlp_encode(c):
    return TRAIT_MODELS[("Encodable", "rlp_bytes")](c)


@model("ic_sha3::Keccak256::hash")
def _keccak(c):
    e, st = c.eng, c.st
    arg = slice_value(e, st, c.args[0])
    z = e.uf("keccak256", e.S.sort(U8S), e.S.sort(c.ret))(arg)
    st.cells[("G", "keccak")] = arg
    st.facts += e.wf(c.ret, z)
    return z


@model("rlp::RlpStream::append_list")
def _append_list(c):
    """a delimited list of the items' encodings"""
    e, st, ref = c.eng, c.st, c.args[0]
    v = e.deref(st, c.args[1])
    al = ("adt", "tx::AccessList", ())
    if e.S.adt_def(al) is None or e.S.norm(e.strip_ref(c.argtys[1])) not in (e.S.norm(e.S.adt_def(al)[0][2][0][1]), ("slice", ("adt", "tx::AccessListItem", ()))):
        raise Unsupported("append_list")
    push(c, st, ref, RTOK, cons(e, RTOK, "List", e.z(Agg(al, None, [e.z(v, e.S.adt_def(al)[0][2][0][1], st)]), al, st)))
    return R(st, ref)
