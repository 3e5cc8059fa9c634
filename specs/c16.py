"""C16: a withdrawal is queued only for what was burned, and refused cleanly."""
from mirv import models
from mirv.spec import step, outcall, havoc_state, Made, GSTATE, Ctx, strip
from mirv.engine import RET, Unsupported
from mirv.rtypes import ty as parse_type
from mirv.values import Agg, UNIT_T, opt
from specs.wtx import *
from specs.common import *

LC = "ledger_client::LedgerClient::"
ANSWER = "std::result::Result<std::result::Result<candid::Nat, icrc_ledger_types::icrc2::transfer_from::TransferFromError>, (i32, std::string::String)>"
WEI = {"A": parse_type("checked_amount::CheckedAmountOf<numeric::WeiTag>")}
ERC = {"A": parse_type("checked_amount::CheckedAmountOf<numeric::Erc20Tag>")}


def transfer_from(call):
    """the ledger's icrc2_transfer_from: any answer"""
    e, st = call.eng, call.st
    pre = []
    for a, t in zip(call.args, call.argtys):
        v = e.deref(st, a)
        pre.append((v, v.ty if isinstance(v, Agg) else e.S.norm(strip(t))))
    rt = e.S.norm(parse_type(ANSWER))

    def run(c):
        r = e.fresh(c.st, rt, "answer")
        c.st.ghost["calls"] = c.st.ghost.get("calls", ()) + (Made(e, "transfer_from", pre, {}, r, rt),)
        return [(c.st, (RET, r))]
    return [(st, (RET, models.Fut(run)))]


def me(c, p):
    """the minter's own principal"""
    return z3.Const("pure[ic_cdk::id]", p.z.sort())


def absurd(r):
    """answers a ledger gives only to calls with a fee or a creation time, and indices beyond 64 bits"""
    x = r.as_("Ok").as_("Err")
    ok = z3.And(r.is_("Ok"), r.as_("Ok").is_("Ok"))
    return z3.Or(z3.And(ok, r.as_("Ok").as_("Ok").z >= 2 ** 64),
                 z3.And(r.is_("Ok"), r.as_("Ok").is_("Err"), z3.Or(*[x.is_(v) for v in ("BadFee", "TooOld", "CreatedInFuture", "Duplicate")])))


def moved(frm, to, memo=False):
    def ens(c):
        k = c.calls("transfer_from")
        if len(k) != 1 or len(c.calls()) != 1:
            return [("the ledger is asked once", z3.BoolVal(False))]
        cl, arg, r = k[0].a(c, 0), k[0].a(c, 1), k[0].ret(c)
        ok = z3.And(r.is_("Ok"), r.as_("Ok").is_("Ok"))
        out = [("this ledger is asked", cl.ledger_canister_id == c.a(0).client.ledger_canister_id),
               ("the amount asked for", arg.amount.z == N(c.a("amount"))),
               ("from the right account", frm(c, arg.f("from"))), ("to the right account", to(c, arg.to)),
               ("no fee or time is named", z3.And(arg.fee.is_("None"), arg.created_at_time.is_("None"), arg.spender_subaccount.is_("None"))),
               ("confirmed exactly when the ledger confirmed", c.ret.is_("Ok") == ok),
               ("the ledger's index", z3.Implies(ok, N(c.ret.as_("Ok")) == r.as_("Ok").as_("Ok").z))]
        if not memo:
            return out
        x, er = r.as_("Ok").as_("Err"), c.ret.as_("Err")
        err = z3.And(r.is_("Ok"), r.as_("Ok").is_("Err"))
        user = lambda v: z3.And(err, x.is_(v))     # noqa
        out += [("a memo is attached", arg.memo.is_("Some")),
                ("the user's own fault is told apart", z3.Implies(z3.Not(ok), z3.And(er.is_("AmountTooLow") == user("BadBurn"), er.is_("InsufficientFunds") == user("InsufficientFunds"),
                                                                                    er.is_("InsufficientAllowance") == user("InsufficientAllowance"))))]
        return out
    return ens


def traps(burning):
    def f(c):
        k = c.calls("transfer_from")
        if len(k) != 1:
            return z3.BoolVal(False)
        r = k[0].ret(c)
        b = z3.BoolVal(False) if burning else z3.And(r.is_("Ok"), r.as_("Ok").is_("Err"), r.as_("Ok").as_("Err").is_("BadBurn"))
        return z3.Or(absurd(r), b)
    return f


given = lambda n: (lambda c, a: a == c.a(n))     # noqa
own = lambda c, a: z3.And(a.owner.z == me(c, a.owner), a.subaccount.is_("None"))     # noqa
fees = lambda c, a: z3.And(a.owner.z == me(c, a.owner), a.subaccount.is_("Some"))     # noqa
ask = {"icrc_ledger_client_cdk::ICRC1Client::transfer_from": transfer_from}
memo = {"memo::encode": step("memo encoding", record=False)}

BURN = moved(given("from"), own, True)


# ---------------------------------------------------------------- the endpoints
G = lambda n: ("G", n)                                     # noqa
CUR = {}
NOT, DONE, FAILED = 0, 1, 2
COUNTERS = ("fee", "refund", "nburn", "eburn", "queued", "reimb")
VALUES = ("nidx", "namt", "eidx", "eamt")


def setup(kind):
    def f(c):
        CUR.update(ctx=c, kind=kind)
        for k in COUNTERS + VALUES:
            c.st.cells[G(k)] = z3.IntVal(0)
    return f


def gs(e, st):
    return W(e, st, st.cells[GSTATE], opt(Ctx.g0v[1])).as_("Some")


def caller(e):
    return z3.Const("pure[ic_cdk::caller]", e.S.sort(parse_type("candid::Principal")))


def anonymous(e):
    return z3.Const("pure[candid::Principal::anonymous]", e.S.sort(parse_type("candid::Principal")))


def wanted(e):
    """what validate_address_as_destination answers for the recipient named by the caller"""
    c = CUR["ctx"]
    t = e.S.norm(parse_type("std::result::Result<eth_types::Address, address::AddressValidationError>"))
    so = e.S.usort("Str")
    return W(e, c.st, e.uf("destination#ret", so, e.S.sort(t))(c.a(0).recipient.z), t)


def rely(old, new):
    """other messages while a call is outstanding: this caller's guard stays (C13); the ledger of the native token never changes; tokens are only added (C19)"""
    e = old._e
    p = caller(e)
    x = z3.Const("x?r", old.erc20_tokens.map.by_key.z.sort().domain())
    t0, t1 = old.erc20_tokens.map.by_key, new.erc20_tokens.map.by_key
    return [new.pending_withdrawal_principals.has(p) == old.pending_withdrawal_principals.has(p), forall([x], z3.Implies(t0.has(x), t1.get(x) == t0.get(x)), z3.Select(t1.z, x))]


def tokens_in_step(c):
    """C02: the two keys of the token map stay in step"""
    m = c.g0.erc20_tokens.map
    k = z3.Const("k!t", m.by_key.z.sort().domain())
    return [forall([k], z3.Implies(m.by_key.has(k), m.by_alt_key.has(m.by_key.val(k).z)), z3.Select(m.by_key.z, k))]


def ledger(kind, fn):
    def contract(call, env=None):
        e = call.eng
        e.used_models["contract: " + LC + fn] = 1
        st = call.st
        cl = W(e, st, e.deref(st, call.args[0]), strip(call.argtys[0]))
        acc = W(e, st, call.args[1], call.argtys[1])
        amt = W(e, st, call.args[2], call.argtys[2])
        b = e.resolve(call.callee, call.argtys, call.ret)[0]
        rt = e.S.norm(e.prog.coroutine(b.name).ret)

        def run(c):
            st = c.st
            u = CUR["ctx"]
            s, p, g = gs(e, st), caller(e), lambda n: st.cells[G(n)]       # noqa
            ob = lambda n, f: e.oblige(st, n, f)       # noqa
            a = N(amt)
            erc = CUR["kind"] == "erc20"
            want = W(e, st, wanted(e)._v, wanted(e)._t)
            fee, tf = u.g0.withdrawal_native_fee, N(u.g0.native_ledger_transfer_fee)
            if erc:     # the fee is read after the gas price was looked up
                fee = CUR["fee"]
            given = u.a(0).amount.z
            tok = u.a(0).erc20_ledger_id.z if erc else None
            ob("no ledger is called for an anonymous caller", p != anonymous(e))
            ob("no ledger is called for an invalid destination", want.is_("Ok"))
            ob("one withdrawal at a time per caller", s.pending_withdrawal_principals.has(p))
            if erc:
                ob("no ledger is called for an unknown token", u.g0.erc20_tokens.map.by_key.has(tok))
            else:
                ob("no ledger is called for an amount below the minimum", given >= N(u.g0.native_minimum_withdrawal_amount))
            native = cl.client.ledger_canister_id == u.g0.native_ledger_id
            me_ = z3.And(acc.owner.z == p, acc.subaccount.is_("None"))
            ob("on the caller's account", me_)
            ob("nothing more is moved once the withdrawal is queued", g("queued") == 0)
            if kind == "fee":
                ob("the withdrawal fee goes through the native ledger", native)
                ob("the withdrawal fee is taken once, first", z3.And(g("fee") == NOT, g("nburn") == NOT, g("eburn") == NOT))
                ob("no more than the withdrawal fee is taken", z3.And(fee.is_("Some"), a <= N(fee.as_("Some"))))
                if not erc:
                    ob("the fee is taken only from an amount that covers it", given >= N(fee.as_("Some")))
            elif kind == "refund":
                ob("the fee is refunded on the native ledger", native)
                ob("the fee is refunded once, after a burn failed", z3.And(g("fee") == DONE, g("refund") == NOT, z3.Or(g("nburn") == FAILED, g("eburn") == FAILED)))
                ob("no more than the fee is refunded", z3.And(fee.is_("Some"), a <= N(fee.as_("Some"))))
            elif not erc:
                ob("burned on the native ledger", native)
                ob("burned once", g("nburn") == NOT)
                ob("a configured fee was taken before", z3.Implies(fee.is_("Some"), g("fee") == DONE))
                ob("the whole amount less the fee taken is burned", a == given - z3.If(g("fee") == DONE, N(fee.as_("Some")), z3.IntVal(0)))
            else:
                first = g("nburn") == NOT
                ob("the gas fee is burned on the native ledger, the tokens on their own", z3.If(first, native, cl.client.ledger_canister_id.z == tok))
                ob("burned once, the gas fee first", z3.Or(first, z3.And(g("nburn") == DONE, g("eburn") == NOT)))
                ob("the whole amount of tokens is burned", z3.Or(first, a == given))
                ob("a configured fee was taken before", z3.Implies(fee.is_("Some"), g("fee") == DONE))
            havoc_state(c, "native_ledger_id", rely=rely)
            r = e.fresh(st, rt, kind)
            w = W(e, st, r, rt)
            ok = w.is_("Ok")
            how = z3.If(ok, z3.IntVal(DONE), z3.IntVal(FAILED))
            i = N(w.as_("Ok"))

            def put(n, v, cond=None):
                st.cells[G(n)] = v if cond is None else z3.simplify(z3.If(cond, v, st.cells[G(n)]))
            if kind in ("fee", "refund"):
                put(kind, how)
            elif not erc:
                put("nburn", how), put("nidx", i), put("namt", a)
            else:
                first = z3.simplify(first)
                put("eburn", how, z3.Not(first)), put("eidx", i, z3.Not(first)), put("eamt", a, z3.Not(first))
                put("nidx", i, first), put("namt", a, first), put("nburn", how, first)
            return [(st, (RET, r))]
        return [(st, (RET, models.Fut(run)))]
    return contract


def event(call, env=None):
    """process_event: logged and applied (C09, C03, C06); a burn index is new, as ledgers never reuse one"""
    e, st = call.eng, call.st
    e.used_models["contract: process_event (burn indices are new)"] = 1
    ev = W(e, st, call.args[1], call.argtys[1])
    u, g, p = CUR["ctx"], lambda n: st.cells[G(n)], caller(e)     # noqa
    ob = lambda n, f: e.oblige(st, n, f)       # noqa
    dest = W(e, st, wanted(e)._v, wanted(e)._t)
    if CUR["kind"] == "native":
        r = ev.as_("AcceptedNativeWithdrawalRequest")
        q = ev.is_("AcceptedNativeWithdrawalRequest")
        ob("only an accepted withdrawal is recorded", q)
        ob("queued once, after the ledger confirmed the burn", z3.And(g("queued") == 0, g("nburn") == DONE))
        ob("the burned amount", N(r.withdrawal_amount) == g("namt"))
        ob("the ledger's burn index", N(r.ledger_burn_index) == g("nidx"))
    else:
        r = ev.as_("AcceptedErc20WithdrawalRequest")
        q, f = ev.is_("AcceptedErc20WithdrawalRequest"), ev.is_("FailedErc20WithdrawalRequest")
        x = ev.as_("FailedErc20WithdrawalRequest")
        ob("only an accepted or a failed withdrawal is recorded", z3.Or(q, f))
        ob("queued once, after both ledgers confirmed the burn", z3.Implies(q, z3.And(g("queued") == 0, g("nburn") == DONE, g("eburn") == DONE)))
        ob("the burned amounts", z3.Implies(q, z3.And(N(r.withdrawal_amount) == g("eamt"), N(r.max_transaction_fee) == g("namt"))))
        ob("the ledgers' burn indices", z3.Implies(q, z3.And(N(r.native_ledger_burn_index) == g("nidx"), N(r.erc20_ledger_burn_index) == g("eidx"))))
        t = u.g0.erc20_tokens.map.by_key
        tok = u.a(0).erc20_ledger_id
        ob("the token asked for", z3.Implies(q, z3.And(r.erc20_ledger_id == tok, r.erc20_contract_address == t.val(tok.z))))
        tf = N(u.g0.native_ledger_transfer_fee)
        ob("reimbursed once, when only the gas fee was burned", z3.Implies(f, z3.And(g("reimb") == 0, g("queued") == 0, g("nburn") == DONE, g("eburn") == FAILED)))
        ob("reimbursed for the gas fee, to the caller", z3.Implies(f, z3.And(N(x.ledger_burn_index) == g("nidx"), x.to.z == p, x.to_subaccount.is_("None"), x.transaction_hash.is_("None"))))
        ob("reimbursed the gas fee, less at most a ledger fee", z3.Implies(f, z3.And(N(x.reimbursed_amount) <= g("namt"), N(x.reimbursed_amount) >= g("namt") - tf, N(x.reimbursed_amount) > 0)))
        st.cells[G("reimb")] = z3.If(f, g("reimb") + 1, g("reimb"))
    ob("for the caller's account", z3.Implies(q, z3.And(r.f("from").z == p, r.from_subaccount.is_("None"))))
    ob("to the validated destination", z3.Implies(q, r.destination == dest.as_("Ok")))
    st.cells[G("queued")] = z3.If(q, g("queued") + 1, g("queued"))
    w0 = W(e, st, e.deref(st, call.args[0]), Ctx.g0v[1])
    nv = e.fresh(st, Ctx.g0v[1], "STATE'")
    st.facts += rely(w0, W(e, st, nv, Ctx.g0v[1]))
    e.write(st, call.args[0].cell, call.args[0].projs, nv)
    return [(st, (RET, Agg(UNIT_T, None, [])))]


def done(c):
    g = lambda n: c.st.cells[G(n)]     # noqa
    ok = c.ret.is_("Ok")
    erc = CUR["kind"] == "erc20"
    tf = N(c.g0.native_ledger_transfer_fee)
    p = caller(c.eng)
    out = [("accepted exactly when queued", z3.If(ok, g("queued") == 1, g("queued") == 0)),
           ("a fee taken for nothing is refunded", z3.Implies(z3.And(z3.Not(ok), g("fee") == DONE), g("refund") != NOT)),
           ("the caller may withdraw again", z3.Not(c.g.pending_withdrawal_principals.has(p)))]
    if erc:
        r = c.ret.as_("Ok")
        out += [("tokens burned are queued", z3.Implies(z3.Not(ok), g("eburn") != DONE)),
                ("gas burned for nothing is reimbursed", z3.Implies(z3.And(z3.Not(ok), g("nburn") == DONE), z3.Or(g("reimb") == 1, g("namt") <= tf))),
                ("nothing is reimbursed for a queued withdrawal", z3.Implies(ok, g("reimb") == 0)),
                ("the caller is told the indices", z3.Implies(ok, z3.And(r.native_block_index.z == g("nidx"), r.erc20_block_index.z == g("eidx"))))]
    else:
        out += [("tokens burned are queued", z3.Implies(z3.Not(ok), g("nburn") != DONE)), ("the caller is told the index", z3.Implies(ok, c.ret.as_("Ok").block_index.z == g("nidx")))]
    return out


def clean(c):
    """a trap takes nothing from the caller"""
    g = lambda n: c.st.cells[G(n)]     # noqa
    return z3.And(g("nburn") != DONE, g("eburn") != DONE, z3.Or(g("fee") != DONE, g("refund") != NOT))


def gas(c, m):
    CUR["fee"] = gs(c.eng, c.st).withdrawal_native_fee


def endpoint(fn, kind, **kw):
    cs = {LC + "burn_from": ledger("burn", "burn_from"), LC + "trasnfer_withdrawal_fee": ledger("fee", "trasnfer_withdrawal_fee"), LC + "refund_withdrawal_fee": ledger("refund", "refund_withdrawal_fee"),
          "state::audit::process_event": event, "address::validate_address_as_destination": step("destination", record=False)}
    if kind == "erc20":
        cs["tx::lazy_refresh_gas_fee_estimate"] = outcall("gas price", effect=gas, keep=("native_ledger_id",), rely=rely, record=False)
    return Unit("canister_main::" + fn, is_async=True, gstate=True, requires=tokens_in_step, setup=setup(kind), ensures=done, traps=clean, callee=cs, **kw)


def valid_destination(c):
    e = c.eng
    t = e.S.norm(parse_type("std::result::Result<eth_types::Address, std::string::String>"))
    r = W(e, c.st, e.uf("address text#ret", e.S.usort("Str"), e.S.sort(t))(c.a(0).z), t)
    zero = W(e, c.st, e.fresh(c.st, parse_type("eth_types::Address"), "zero"), parse_type("eth_types::Address"))
    i = z3.Int("i!z")
    a = c.ret.as_("Ok")
    b = r.as_("Ok")
    nz = lambda x: z3.Exists([i], z3.And(i >= 0, i < 20, x.f(0).at(i).z != 0))     # noqa
    return [("accepted only if it is an address", z3.Implies(c.ret.is_("Ok"), z3.And(r.is_("Ok"), a == b))), ("never the zero address", z3.Implies(c.ret.is_("Ok"), nz(a))),
            ("every other address is accepted", z3.Implies(z3.And(r.is_("Ok"), nz(b)), c.ret.is_("Ok")))]


def reimbursed(w, b):
    """the reimbursement of the withdrawal with native burn index b, if it was paid: (some index k of the map)"""
    k = z3.Const("k!r", w.reimbursed.z.sort().domain())
    kw = W(w._e, w._s, k, w.reimbursed._t[2][0])
    of = z3.If(kw.is_("Native"), kw.as_("Native", "ledger_burn_index").z, kw.as_("Erc20", "native_ledger_burn_index").z)
    return k, z3.And(w.reimbursed.has(k), of == b)


def stage(c, st, wrap):
    """st: the status reported for what is no longer queued"""
    w, b = c.a(0), c.a(1).z
    cr, se, fi = (w.f(x).by_alt_key for x in STAGES)
    k, is_k = reimbursed(w, b)
    v = w.reimbursed.val(k)
    paid = z3.And(is_k, v.is_("Ok"))
    fin = z3.And(z3.Not(cr.has(b)), z3.Not(se.has(b)), fi.has(b))
    tx = fi.val(b)
    fs = st.as_("TxFinalized")
    failed = tx.receipt.status.is_("Failure")
    last = se.val(b).at(se.val(b).len - 1)
    return [("created", st.is_("TxCreated") == wrap(cr.has(b))),
            ("sent", st.is_("TxSent") == wrap(z3.And(z3.Not(cr.has(b)), se.has(b)))),
            ("finalized", st.is_("TxFinalized") == wrap(fin)),
            ("not found", st.is_("NotFound") == wrap(z3.Not(z3.Or(cr.has(b), se.has(b), fi.has(b))))),
            ("the failed one waits for its reimbursement", z3.Implies(st.is_("TxFinalized"), fs.is_("PendingReimbursement") == z3.And(failed, z3.Not(z3.Exists([k], paid))))),
            ("reported as reimbursed exactly when it was paid", z3.Implies(st.is_("TxFinalized"), fs.is_("Reimbursed") == z3.Exists([k], paid))),
            ("with the amount and the block of the reimbursement", z3.ForAll([k], z3.Implies(z3.And(st.is_("TxFinalized"), paid), z3.And(
                fs.as_("Reimbursed", "reimbursed_amount").z == N(v.as_("Ok").reimbursed_amount), fs.as_("Reimbursed", "reimbursed_in_block").z == N(v.as_("Ok").reimbursed_in_block))))),
            ("with the fee paid", z3.Implies(z3.And(st.is_("TxFinalized"), fs.is_("Success")), z3.And(fs.as_("Success", "effective_transaction_fee").is_("Some"),
                                             fs.as_("Success", "effective_transaction_fee").as_("Some").z == N(tx.receipt.effective_gas_price) * N(tx.receipt.gas_used))))]


def one_reimbursement(c):
    """C06: at most one reimbursement per withdrawal"""
    w = c.a(0)
    b = z3.Const("b!o", c.a(1).z.sort())
    k, is_k = reimbursed(w, b)
    j = z3.Const("j!r", k.sort())
    is_j = z3.substitute(is_k, (k, j))
    return pre(c) + [z3.ForAll([k, j, b], z3.Implies(z3.And(is_k, is_j), k == j))]


def processed(c):
    st, tx = c.ret[0], c.ret[1]
    return stage(c, st, lambda x: x) + [("never pending", z3.Not(st.is_("Pending"))), ("with its transaction", tx.is_("None") == st.is_("NotFound"))]


def status(c):
    w, b = c.a(0), c.a(1).z
    p = w.pending_withdrawal_requests
    i = z3.Int("i!q")
    q = z3.Exists([i], z3.And(i >= 0, i < p.len, burn(p.at(i)) == b))
    return [("pending exactly while queued", c.ret.is_("Pending") == q)] + stage(c, c.ret, lambda x: z3.And(x, z3.Not(q)))


units = [
    Unit(LC + "burn_from", name="burn_from (native)", is_async=True, tenv=WEI, ensures=BURN, traps=traps(True), models=ask, callee=memo),
    Unit(LC + "burn_from", name="burn_from (token)", is_async=True, tenv=ERC, ensures=BURN, traps=traps(True), models=ask, callee=memo),
    Unit(LC + "trasnfer_withdrawal_fee", is_async=True, tenv=WEI, ensures=moved(given("from"), fees), traps=traps(False), models=ask),
    Unit(LC + "refund_withdrawal_fee", is_async=True, tenv=WEI, ensures=moved(fees, given("to")), traps=traps(False), models=ask),
    endpoint("withdraw_native_token", "native"),
    endpoint("withdraw_erc20", "erc20"),
    Unit("address::validate_address_as_destination", ensures=valid_destination, traps="never", callee={"<Address as FromStr>::from_str": step("address text", record=False)}),
    Unit(WT + "::processed_transaction_status", requires=one_reimbursement, ensures=processed, traps="any"),
    Unit(WT + "::transaction_status", requires=one_reimbursement, ensures=status, traps="any"),
]


def fits(c, r):
    """the request matches the search parameter"""
    p = c.a(1)
    who, acc = z3.If(r.is_("Native"), r.as_("Native").f("from").z, r.as_("Erc20").f("from").z), p.as_("BySenderAccount")
    dest = z3.If(r.is_("Native"), r.as_("Native").destination.z, r.as_("Erc20").destination.z)
    sub_t = r.as_("Native").from_subaccount._t
    sub = W(c.eng, c.st, z3.If(r.is_("Native"), r.as_("Native").from_subaccount.z, r.as_("Erc20").from_subaccount.z), sub_t)
    same = z3.And(sub.is_("Some") == acc.subaccount.is_("Some"), z3.Implies(sub.is_("Some"), sub.as_("Some").f(0).z == acc.subaccount.as_("Some").z))
    return z3.If(p.is_("ByWithdrawalId"), burn(r) == p.as_("ByWithdrawalId").z, z3.If(p.is_("ByRecipient"), dest == p.as_("ByRecipient").z, z3.And(who == acc.owner.z, same)))


def listed(c):
    w = c.a(0)
    q, pr = w.pending_withdrawal_requests, w.processed_withdrawal_requests
    out = c.ret
    i, j, b = z3.Int("i!l"), z3.Int("j!l"), z3.Const("b!l", pr.z.sort().domain())
    o = lambda k: out.at(k)     # noqa
    inl = lambda k, n: z3.And(k >= 0, k < n)     # noqa
    return [("only matching requests are listed", z3.ForAll([i], z3.Implies(inl(i, out.len), fits(c, o(i)[0])))),
            ("pending only if queued", z3.ForAll([i], z3.Implies(z3.And(inl(i, out.len), o(i)[1].is_("Pending")), z3.Exists([j], z3.And(inl(j, q.len), q.at(j) == o(i)[0]))))),
            ("otherwise processed", z3.ForAll([i], z3.Implies(z3.And(inl(i, out.len), z3.Not(o(i)[1].is_("Pending"))), z3.Exists([b], z3.And(pr.has(b), pr.val(b) == o(i)[0]))))),
            ("every matching queued request is listed", z3.ForAll([j], z3.Implies(z3.And(inl(j, q.len), fits(c, q.at(j))), z3.Exists([i], z3.And(inl(i, out.len), o(i)[0] == q.at(j)))))),
            ("every matching processed request is listed", z3.ForAll([b], z3.Implies(z3.And(pr.has(b), fits(c, pr.val(b))), z3.Exists([i], z3.And(inl(i, out.len), o(i)[0] == pr.val(b))))))]


def stage_known(call, pre_, posts, r):
    """what is proved of processed_transaction_status"""
    e, st = call.eng, call.st
    rt = e.S.norm(call.ret)
    x = W(e, st, r, rt)
    w = W(e, st, pre_[0][0], pre_[0][1])
    b = e.z(pre_[1][0], pre_[1][1], st)
    none = z3.Not(z3.Or(*[w.f(s_).by_alt_key.has(b) for s_ in STAGES]))
    st.facts += [z3.Not(x[0].is_("Pending")), x[0].is_("NotFound") == none, x[1].is_("None") == none]


units.append(Unit(WT + "::withdrawal_status", requires=lambda c: pre(c), ensures=listed, callee={WT + "::processed_transaction_status": step("processed_transaction_status", record=False, post=stage_known)}))
