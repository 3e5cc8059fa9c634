"""C07: a deposit is minted at most once, and only after it was accepted (state transitions)."""
from mirv import models
from mirv.spec import step, outcall, havoc_state, GSTATE, Ctx
from mirv.engine import RET, Unsupported
from mirv.values import Agg, UNIT_T, opt
from specs.wtx import *

MAPS = ("events_to_mint", "minted_events", "invalid_events")


def src(c, ev):
    """EventSource fields of a deposit event view"""
    p = lambda f: z3.If(ev.is_("Native"), ev.as_("Native").f(f).z, ev.as_("Erc20").f(f).z)     # noqa
    t = ("adt", "deposit_logs::EventSource", ()) if "deposit_logs::EventSource" in c.eng.defs.adts else None
    if t is None:
        t = [("adt", k, ()) for k in c.eng.defs.adts if k.endswith("::EventSource")][0]
    return c.eng.mk(t, None, p("transaction_hash"), p("log_index"))


def srcz(c, s):
    w = s if isinstance(s, W) else W(c.eng, c.st, s, s.ty)
    return w.z


def count(w, s):
    return [w.f(m).has(s) for m in MAPS]


def excl(w):
    """each source in at most one of the three maps"""
    s = z3.Const("s!", w.f(MAPS[0]).z.sort().domain())
    a, b, d = count(w, s)
    pats = [z3.Select(w.f(m).z, s) for m in MAPS]
    return forall([s], z3.And(z3.Not(z3.And(a, b)), z3.Not(z3.And(a, d)), z3.Not(z3.And(b, d))), *pats)


def pre(c):
    return [excl(c.a(0))]


def others(m0, m1, k):
    x = z3.Const("x?", m0.z.sort().domain())
    return z3.ForAll([x], z3.Implies(x != k, m1.get(x) == m0.get(x)))


def accept(c):
    w0, w1, ev = c.a(0), c.f(0), c.a(1)
    s = srcz(c, src(c, ev))
    a, b, d = count(w0, s)
    return [
        ("never accepted before", z3.Not(z3.Or(a, b, d))),
        ("erc20: contract is registered", z3.Implies(ev.is_("Erc20"), w0.erc20_tokens.map.by_alt_key.has(ev.as_("Erc20").erc20_contract_address))),
        ("queued for minting as received", z3.And(w1.events_to_mint.has(s), w1.events_to_mint.val(s) == ev)),
        ("other deposits untouched", others(w0.events_to_mint, w1.events_to_mint, s)),
        ("at most one state per deposit", excl(w1)),
    ] + frame(w0, w1, "events_to_mint", "native_balance", "erc20_balances")


def invalid(c):
    w0, w1, s = c.a(0), c.f(0), c.a(1).z
    a, b, d = count(w0, s)
    return [("neither accepted nor minted", z3.Not(z3.Or(a, b))),
            ("recorded as invalid", w1.invalid_events.has(s)),
            ("first reason is kept", z3.Implies(d, w1.invalid_events.get(s) == w0.invalid_events.get(s))),
            ("reason recorded", z3.Implies(z3.Not(d), z3.And(w1.invalid_events.val(s).is_("InvalidDeposit"), w1.invalid_events.val(s).as_("InvalidDeposit") == c.a(2)))),
            ("tells whether it was new", c.ret.z == z3.Not(d)),
            ("others untouched", others(w0.invalid_events, w1.invalid_events, s)),
            ("at most one state per deposit", excl(w1))] + frame(w0, w1, "invalid_events")


def quarantine(c):
    w0, w1, s = c.a(0), c.f(0), c.a(1).z
    a, b, d = count(w0, s)
    return [("no longer to be minted", z3.Not(w1.events_to_mint.has(s))),
            ("can never be accepted again", w1.invalid_events.has(s)),
            ("marked as quarantined", z3.Implies(z3.Not(d), w1.invalid_events.val(s).is_("QuarantinedDeposit"))),
            ("earlier reason kept", z3.Implies(d, w1.invalid_events.get(s) == w0.invalid_events.get(s))),
            ("tells whether it was new", c.ret.z == z3.Not(d)),
            ("other queued deposits untouched", others(w0.events_to_mint, w1.events_to_mint, s)),
            ("other invalid deposits untouched", others(w0.invalid_events, w1.invalid_events, s)),
            ("at most one state per deposit", z3.Implies(z3.Not(b), excl(w1)))] + frame(w0, w1, "events_to_mint", "invalid_events")


def minted(c):
    w0, w1, s = c.a(0), c.f(0), c.a("source").z
    a, b, d = count(w0, s)
    ev = w1.minted_events.val(s)
    return [("was accepted, not minted, not invalid", z3.And(a, z3.Not(b), z3.Not(d))),
            ("no longer to be minted", z3.Not(w1.events_to_mint.has(s))),
            ("recorded as minted with its deposit", z3.And(w1.minted_events.has(s), ev.deposit_event == w0.events_to_mint.val(s))),
            ("recorded with the ledger's block index", ev.mint_block_index == c.a("mint_block_index")),
            ("recorded with the contract", ev.erc20_contract_address == c.a("erc20_contract_address")),
            ("other queued deposits untouched", others(w0.events_to_mint, w1.events_to_mint, s)),
            ("other minted deposits untouched", others(w0.minted_events, w1.minted_events, s)),
            ("at most one state per deposit", excl(w1))] + frame(w0, w1, "events_to_mint", "minted_events")


def minted_traps(c):
    w0, s = c.a(0), c.a("source").z
    a, b, d = count(w0, s)
    return z3.Or(z3.Not(a), b, d)


# ---------------------------------------------------------------- mint()
CUR = {}
G = lambda n: ("G", n)                                     # noqa
ASKED = z3.IntVal(0)


def dsrc(e, st, ev):
    class C:
        eng = e
    C.st = st
    return srcz(C, src(C, ev))


def evt(e):
    return e.S.norm(e.ty("deposit_logs::ReceivedDepositEvent"))


def gs(e, st):
    return W(e, st, st.cells[GSTATE], opt(Ctx.g0v[1])).as_("Some")


def value(ev):
    return z3.If(ev.is_("Native"), N(ev.as_("Native").value), N(ev.as_("Erc20").value))


def guarded(e, st):
    """the deposit the armed scope guard holds (None when none is armed)"""
    i = z3.simplify(st.cells[models.ARMED])
    if not z3.is_int_value(i) or i.as_long() == 0:
        return None, None
    g = models.ScopeG.table[i.as_long()]
    return g, W(e, st, e.deref(st, g.v), evt(e))


def mint_setup(c):
    CUR["ctx"] = c
    CUR["trial"] = False
    c.st.cells[models.ARMED] = z3.IntVal(0)
    c.st.cells[G("phase")] = z3.IntVal(0)        # 0: no mint outstanding, 1: minted, fee due or record due, 2: fee asked for
    c.st.cells[G("block")] = z3.IntVal(0)
    c.st.cells[G("big")] = z3.BoolVal(False)


def keyed(w):
    """what record_event_to_mint establishes: deposits are filed under their own source"""
    e, m = w._e, w.events_to_mint
    s = z3.Const("s?k", m.z.sort().domain())
    v = m.val(s)
    return [forall([s], z3.Implies(m.has(s), dsrc(e, w._s, v) == s), z3.Select(m.z, s)), excl(w),
            forall([s], z3.Implies(z3.And(m.has(s), v.is_("Erc20")), w.erc20_tokens.map.by_alt_key.has(v.as_("Erc20").erc20_contract_address)), z3.Select(m.z, s))]


def mint_rely(old, new):
    """other messages while the ledger is asked: deposits are only added (C07), tokens are only added (C19), this task stays taken (C13)"""
    e = old._e
    s = z3.Const("s?r", old.events_to_mint.z.sort().domain())
    a = z3.Const("a?r", old.erc20_tokens.map.by_alt_key.z.sort().domain())
    m0, m1 = old.events_to_mint, new.events_to_mint
    t0, t1 = old.erc20_tokens.map.by_alt_key, new.erc20_tokens.map.by_alt_key
    return keyed(new) + [forall([s], z3.Implies(m0.has(s), m1.get(s) == m0.get(s)), z3.Select(m1.z, s)), forall([s], z3.Implies(z3.And(m1.has(s), z3.Not(m0.has(s))), z3.Not(z3.Or(old.minted_events.has(s), old.invalid_events.has(s)))), z3.Select(m1.z, s)),
                         forall([a], z3.Implies(t0.has(a), t1.get(a) == t0.get(a)), z3.Select(t1.z, a))] + [new.active_tasks.has(task(e, "Mint")) == old.active_tasks.has(task(e, "Mint"))]


def task(e, name):
    t = e.S.norm(e.ty("state::TaskType"))
    return e.z(Agg(t, e.variant_index(t, name), []), t)


def transfer(call, env=None):
    """the ledger's icrc1_transfer"""
    e, st = call.eng, call.st
    e.used_models["contract: ICRC1Client::transfer (any answer; other messages run meanwhile)"] = 1
    cl = W(e, st, e.deref(st, call.args[0]), call.argtys[0][2] if call.argtys[0][0] == "ref" else call.argtys[0])
    arg = W(e, st, call.args[1], call.argtys[1])
    ledger, to, amount = cl.ledger_canister_id, arg.to, arg.amount

    def run(c):
        st = c.st
        ph = st.cells[G("phase")]
        g, ev = guarded(e, st)
        e.oblige(st, "the deposit is guarded against double minting while the ledger is asked", z3.BoolVal(g is not None))
        if g is None:
            raise Unsupported("ledger called without a guard")
        u = CUR["ctx"]
        s0 = gs(e, st)
        s = dsrc(e, st, ev)
        user = ph == 0
        fee = u.g0.deposit_native_fee
        has_fee = z3.And(ev.is_("Native"), fee.is_("Some"))
        f = N(fee.as_("Some"))
        want = value(ev) - z3.If(has_fee, f, z3.IntVal(0))
        a = ev.as_("Erc20").erc20_contract_address
        e.oblige(st, "only a waiting deposit is minted", z3.And(s0.events_to_mint.has(s), s0.events_to_mint.val(s) == ev))
        e.oblige(st, "on the ledger of the deposited token", z3.If(ev.is_("Native"), ledger == u.g0.native_ledger_id, ledger == s0.erc20_tokens.map.by_alt_key.val(a)[0]))
        e.oblige(st, "never minted twice", z3.Or(ph == 0, ph == 1))
        owner = z3.If(ev.is_("Native"), ev.as_("Native").principal.z, ev.as_("Erc20").principal.z)
        e.oblige(st, "to the depositor", z3.Implies(user, to.owner.z == owner))
        sub = z3.If(ev.is_("Native"), ev.as_("Native").subaccount.z, ev.as_("Erc20").subaccount.z)
        so = W(e, st, sub, ev.as_("Native").subaccount._t)
        bs = e.uf("be32", z3.IntSort(), to.subaccount.as_("Some").z.sort())
        e.oblige(st, "to the chosen subaccount", z3.Implies(user, z3.And(to.subaccount.is_("Some") == so.is_("Some"), CUR["subeq"](to.subaccount.as_("Some"), so.as_("Some")) if "subeq" in CUR else z3.BoolVal(True))))
        e.oblige(st, "exactly the deposited value, less the native deposit fee", z3.Implies(user, amount.z == want))
        e.oblige(st, "only the deposit fee is minted besides", z3.Implies(ph == 1, z3.And(has_fee, amount.z == f, to.subaccount.is_("Some"))))
        # if this message traps after the ledger answered, the future is dropped in the state of this await: the guard must quarantine the deposit
        trial = st.fork()
        CUR["trial"] = True
        outs = e.call_value(trial, None, g.clo, [g.v])
        CUR["trial"] = False
        for s2, o in outs:
            w = gs(e, s2)
            e.oblige(s2, "a trap after the ledger was asked quarantines the deposit", z3.And(z3.BoolVal(o[0] == RET), z3.Not(w.events_to_mint.has(s)), w.invalid_events.has(s)))
        havoc_state(c, rely=mint_rely)
        rt = e.S.norm(e.ty("std::result::Result<std::result::Result<candid::Nat, icrc_ledger_types::icrc1::transfer::TransferError>, (i32, std::string::String)>"))
        r = e.fresh(st, rt, "transfer")
        rv = W(e, st, r, rt)
        ok = z3.And(rv.is_("Ok"), rv.as_("Ok").is_("Ok"))
        b = rv.as_("Ok").as_("Ok").z
        st.cells[G("phase")] = z3.If(ph == 0, z3.If(ok, z3.IntVal(1), z3.IntVal(0)), z3.IntVal(2))
        st.cells[G("block")] = z3.If(z3.And(ph == 0, ok), b, st.cells[G("block")])
        st.cells[G("big")] = z3.Or(st.cells[G("big")], z3.And(ph == 0, ok, b >= 2 ** 64))
        return [(st, (RET, r))]
    return [(st, (RET, models.Fut(run)))]


def mint_event(call, env=None):
    """process_event: logged and applied (C09); what it does to the deposit is proved of record_successful_mint and record_quarantined_deposit"""
    e, st = call.eng, call.st
    e.used_models["contract: process_event"] = 1
    p = W(e, st, call.args[1], call.argtys[1])
    w0 = W(e, st, e.deref(st, call.args[0]), Ctx.g0v[1])
    g, ev = guarded(e, st)
    ph = st.cells[G("phase")]
    u = CUR["ctx"]
    q, mn, me = p.is_("QuarantinedDeposit"), p.is_("MintedNative"), p.is_("MintedErc20")
    s = z3.If(q, p.as_("QuarantinedDeposit", "event_source").z, z3.If(mn, p.as_("MintedNative", "event_source").z, p.as_("MintedErc20", "event_source").z))
    d = w0.events_to_mint.val(s)
    e.oblige(st, "only the outcome of a deposit is recorded", z3.Or(q, mn, me))
    blk = z3.If(mn, N(p.as_("MintedNative", "mint_block_index")), N(p.as_("MintedErc20", "mint_block_index")))
    has_fee = z3.And(d.is_("Native"), u.g0.deposit_native_fee.is_("Some"))
    e.oblige(st, "recorded as minted only after the ledger minted it", z3.Implies(z3.Or(mn, me), z3.And(ph >= 1, blk == st.cells[G("block")])))
    e.oblige(st, "the deposit fee was asked for", z3.Implies(z3.And(z3.Or(mn, me), has_fee), ph == 2))
    e.oblige(st, "recorded for the deposit that was minted", z3.Implies(z3.Or(mn, me), z3.And(w0.events_to_mint.has(s), mn == d.is_("Native"), z3.BoolVal(g is not None), dsrc(e, st, ev) == s if g is not None else z3.BoolVal(False))))
    e.oblige(st, "only a deposit that cannot be minted is quarantined", z3.Implies(q, z3.Or(z3.BoolVal(CUR["trial"]), z3.And(has_fee, value(d) < N(u.g0.deposit_native_fee.as_("Some"))))))
    m = w0.events_to_mint.z
    none = m.sort().range().constructor(0)()
    ref = call.args[0]
    t = Ctx.g0v[1]
    new = e.fresh(st, t, "STATE'")
    keep = {}
    f = []
    df = e.S.adt_def(t)
    for (fn, ft), x in zip(df[0][2], new.f):
        if fn == "events_to_mint":
            f.append(z3.Store(m, s, none))
        elif fn in ("minted_events", "invalid_events", "native_balance", "erc20_balances"):
            f.append(x)
        else:
            f.append(w0.f(fn)._v)
    nv = Agg(new.ty, None, f)
    w1 = W(e, st, nv, t)
    x = z3.Const("x?e", m.sort().domain())
    st.facts += [forall([x], z3.Implies(x != s, w1.f(k).get(x) == w0.f(k).get(x)), z3.Select(w1.f(k).z, x)) for k in ("minted_events", "invalid_events")]
    st.facts += [w1.minted_events.has(s) == z3.Or(mn, me, w0.minted_events.has(s)), w1.invalid_events.has(s) == z3.Or(q, w0.invalid_events.has(s))]
    e.write(st, ref.cell, ref.projs, nv)
    st.cells[G("phase")] = z3.IntVal(0)
    return [(st, (RET, Agg(UNIT_T, None, [])))]


def mint_inv(l):
    e, st = l.eng, l.st
    it = l.iters()[-1]
    u = CUR["ctx"]
    w = gs(e, st)
    i, j = z3.Int("i!m"), z3.Int("j!m")
    at = lambda k: W(e, st, it.at(st, k), evt(e))          # noqa
    t = w.events_to_mint
    import os
    if os.environ.get('DBG'): print('AT', str(at(i).z)[:600]); print('T', str(t.z)[:300])
    out = [it.pos >= 0, it.pos <= it.hi, st.cells[G("phase")] == 0, z3.Not(st.cells[G("big")]), st.cells[models.ARMED] == 0, w.active_tasks.has(task(e, "Mint")), it.hi < 2 ** 31]
    n = l.var("error_count")
    if n is not None:
        out += [n >= 0, n <= it.pos]
    out += [forall([i], z3.Implies(z3.And(it.pos <= i, i < it.hi), z3.And(t.has(dsrc(e, st, at(i))), t.val(dsrc(e, st, at(i))) == at(i))), at(i).z),
            forall([i, j], z3.Implies(z3.And(it.pos <= i, i < j, j < it.hi), dsrc(e, st, at(i)) != dsrc(e, st, at(j))), z3.MultiPattern(at(i).z, at(j).z))]
    return out + keyed(w)


def mint_done(c):
    t = task(c.eng, "Mint")
    return [("no mint is left unrecorded", c.st.cells[G("phase")] == 0), ("the task is released at the end, and only by its own run", c.g.active_tasks.has(t) == c.g0.active_tasks.has(t))]


MINT = Unit("deposit::mint", requires=lambda c: keyed(c.g0) + [models.maplen(c, c.g0.events_to_mint.z, c.st) < 2 ** 31], ensures=mint_done, traps=lambda c: c.st.cells[G("big")], setup=mint_setup, gstate=True, is_async=True, loops={0: mint_inv},
            models={"icrc_ledger_client_cdk::ICRC1Client::transfer": transfer}, callee={"state::audit::process_event": mint_event, "memo::encode": step("memo encoding", record=False)})

units = [
    Unit("state::State::record_event_to_mint", requires=pre, ensures=accept),
    Unit("state::State::record_invalid_deposit", requires=pre, ensures=invalid),
    Unit("state::State::record_quarantined_deposit", requires=pre, ensures=quarantine, traps="never"),
    Unit("state::State::record_successful_mint", requires=pre, ensures=minted, traps=minted_traps),
    MINT,
]
