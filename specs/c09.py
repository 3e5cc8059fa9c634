"""C09: every state change is logged, and replaying the log repeats it."""
from specs.wtx import *
from specs.common import *
from mirv.spec import step, GSTATE
from mirv.values import Iter, Unsupported

WT = "state::transactions::WithdrawalTransactions::"
ON_STATE = ["upgrade", "record_event_to_mint", "record_invalid_deposit", "record_successful_mint", "record_finalized_transaction", "record_skipped_block",
            "record_add_erc20_token", "record_erc20_withdrawal_request", "record_quarantined_deposit"]
ON_WT = ["record_withdrawal_request", "record_created_transaction", "record_signed_transaction", "record_resubmit_transaction", "record_finalized_reimbursement",
         "record_reimbursement_request", "record_quarantined_reimbursement"]
CALLEES = {**{"state::State::" + n: step(n) for n in ON_STATE}, **{WT + n: step(n) for n in ON_WT}}


def idx(c, w, variant, **fs):
    """w is ReimbursementIndex::variant { fs }"""
    return z3.And(w.is_(variant), *[w.as_(variant, f) == v for f, v in fs.items()])


def some_is(w, v):
    return z3.And(w.is_("Some"), w.as_("Some") == v)


def apply(c):
    s0, s1, p = c.a(0), c.f(0), c.a(1)
    calls = c.calls()
    st = c.st
    V = {}
    P = lambda v, f=0: p.as_(v, f)      # noqa

    def on(variant, name, *conds):
        V[variant] = (name, conds)
    on("Upgrade", "upgrade", lambda m: m.a(c, 1) == P("Upgrade"), lambda m: m.ret(c).is_("Ok"))
    on("AcceptedDeposit", "record_event_to_mint", lambda m: z3.And(m.a(c, 1).is_("Native"), m.a(c, 1).as_("Native") == P("AcceptedDeposit")))
    on("AcceptedErc20Deposit", "record_event_to_mint", lambda m: z3.And(m.a(c, 1).is_("Erc20"), m.a(c, 1).as_("Erc20") == P("AcceptedErc20Deposit")))
    on("InvalidDeposit", "record_invalid_deposit", lambda m: m.a(c, 1) == P("InvalidDeposit", "event_source"), lambda m: m.a(c, 2) == P("InvalidDeposit", "reason"))
    on("MintedNative", "record_successful_mint", lambda m: m.a(c, 1) == P("MintedNative", "event_source"), lambda m: m.a(c, 3) == P("MintedNative", "mint_block_index"),
       lambda m: m.a(c, 4).is_("None"))
    on("MintedErc20", "record_successful_mint", lambda m: m.a(c, 1) == P("MintedErc20", "event_source"), lambda m: m.a(c, 2) == P("MintedErc20", "erc20_token_symbol"),
       lambda m: m.a(c, 3) == P("MintedErc20", "mint_block_index"), lambda m: some_is(m.a(c, 4), P("MintedErc20", "erc20_contract_address")))
    on("AcceptedNativeWithdrawalRequest", "record_withdrawal_request", lambda m: m.a(c, 1) == P("AcceptedNativeWithdrawalRequest"))
    on("CreatedTransaction", "record_created_transaction", lambda m: m.a(c, 1) == P("CreatedTransaction", "withdrawal_id"), lambda m: m.a(c, 2) == P("CreatedTransaction", "transaction"))
    on("SignedTransaction", "record_signed_transaction", lambda m: m.a(c, 1) == P("SignedTransaction", "transaction"))
    on("ReplacedTransaction", "record_resubmit_transaction", lambda m: m.a(c, 1) == P("ReplacedTransaction", "transaction"))
    on("FinalizedTransaction", "record_finalized_transaction", lambda m: m.a(c, 1) == P("FinalizedTransaction", "withdrawal_id"), lambda m: m.a(c, 2) == P("FinalizedTransaction", "transaction_receipt"))
    r = P("ReimbursedNativeWithdrawal")
    on("ReimbursedNativeWithdrawal", "record_finalized_reimbursement", lambda m: idx(c, m.a(c, 1), "Native", ledger_burn_index=r.burn_in_block), lambda m: m.a(c, 2) == r.reimbursed_in_block)
    q = P("ReimbursedErc20Withdrawal", "reimbursed")
    on("ReimbursedErc20Withdrawal", "record_finalized_reimbursement",
       lambda m: idx(c, m.a(c, 1), "Erc20", native_ledger_burn_index=P("ReimbursedErc20Withdrawal", "native_ledger_burn_index"),
                     ledger_id=P("ReimbursedErc20Withdrawal", "erc20_ledger_id"), erc20_ledger_burn_index=q.burn_in_block),
       lambda m: m.a(c, 2) == q.reimbursed_in_block)
    on("SkippedBlock", "record_skipped_block", lambda m: m.a(c, 1) == P("SkippedBlock", "block_number"))
    on("AddedErc20Token", "record_add_erc20_token", lambda m: m.a(c, 1) == P("AddedErc20Token"))
    on("AcceptedErc20WithdrawalRequest", "record_erc20_withdrawal_request", lambda m: m.a(c, 1) == P("AcceptedErc20WithdrawalRequest"))
    n = P("FailedErc20WithdrawalRequest")
    on("FailedErc20WithdrawalRequest", "record_reimbursement_request", lambda m: idx(c, m.a(c, 1), "Native", ledger_burn_index=n.ledger_burn_index), lambda m: m.a(c, 2) == n)
    on("QuarantinedDeposit", "record_quarantined_deposit", lambda m: m.a(c, 1) == P("QuarantinedDeposit", "event_source"))
    on("QuarantinedReimbursement", "record_quarantined_reimbursement", lambda m: m.a(c, 1) == P("QuarantinedReimbursement", "index"))
    out = [("an initialisation is never applied to a running state", z3.Not(p.is_("Init")))]
    sync = p.is_("SyncedToBlock")
    out.append(("SyncedToBlock sets the block", z3.Implies(sync, z3.And(z3.BoolVal(not calls), s1.last_scraped_block_number == P("SyncedToBlock", "block_number")))))
    for nm, f in frame(s0, s1, "last_scraped_block_number"):
        out.append(("SyncedToBlock: " + nm, z3.Implies(sync, f)))
    for v, (name, conds) in V.items():
        isv = p.is_(v)
        one = len(calls) == 1 and calls[0].name == name
        out.append((f"{v} is applied once, by {name}", z3.Implies(isv, z3.BoolVal(one))))
        if not one:
            continue
        m = calls[0]
        for i, k in enumerate(conds):
            out.append((f"{v}: carried field {i} is the one applied", z3.Implies(isv, k(m))))
        if name in ON_STATE:
            out.append((f"{v}: applied to the state as it was", z3.Implies(isv, z3.And(m.a(c, 0) == s0, s1 == m.post(c, 0)))))
        else:
            out.append((f"{v}: applied to the withdrawals as they were", z3.Implies(isv, z3.And(m.a(c, 0) == s0.withdrawal_transactions, s1.withdrawal_transactions == m.post(c, 0)))))
            for nm, f in frame(s0, s1, "withdrawal_transactions"):
                out.append((f"{v}: {nm}", z3.Implies(isv, f)))
    return out


def process(c):
    s0, s1, p = c.a(0), c.f(0), c.a(1)
    A, L = c.calls("apply_state_transition"), c.calls("record_event")
    out = [("applied once and logged once", z3.BoolVal(len(A) == 1 and len(L) == 1 and len(c.calls()) == 2))]
    if len(A) == 1 and len(L) == 1:
        out += [("the event applied is the event given", z3.And(A[0].a(c, 0) == s0, A[0].a(c, 1) == p)), ("the event logged is the event given", L[0].a(c, 0) == p),
                ("the state is what the transition left", s1 == A[0].post(c, 0))]
    return out


def record(c):
    l0, l1, p = c.log0, c.log, c.a(0)
    i = z3.Int("i?")
    return [("one more event", l1.len == l0.len + 1), ("it is the given one", l1.at(l0.len).f("payload") == p),
            ("earlier events unchanged", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l0.len), l1.at(i).z == l0.at(i).z)))]


EV = "state::event::Event"


def fold(c, log):
    """the state after the first i events of the log, by its defining equations"""
    e = c.eng
    st, evt = e.S.norm(e.ty("state::State")), e.S.norm(e.ty("state::event::EventType"))
    S, P = e.S.sort(st), e.S.sort(evt)
    F = e.uf("fold", z3.IntSort(), S)
    app = e.uf("apply_state_transition#post0", S, P, S)
    i = z3.Int("i!fold")
    first = log.at(z3.IntVal(0)).f("payload")
    rt = e.S.norm(("adt", "std::result::Result", (st, e.ty("state::InvalidStateError"))))
    init = e.uf("try_from#ret", e.S.sort(e.S.norm(e.ty("lifecycle::InitArg"))), e.S.sort(rt))
    ini = W(e, c.st, init(first.as_("Init").z), rt)
    return F, ini, first, [z3.Implies(z3.And(first.is_("Init"), ini.is_("Ok")), F(1) == ini.as_("Ok").z),
               forall([i], z3.Implies(z3.And(i >= 1, i < log.len), F(i + 1) == app(F(i), log.at(i).f("payload").z)), F(i + 1), z3.Select(e.seq_arr(log._v), i))]


def replay_inv(l):
    it = l.iters()[-1]
    e = l.eng
    st = e.S.norm(e.ty("state::State"))
    F = e.uf("fold", z3.IntSort(), e.S.sort(st))
    return [it.pos >= 1, it.pos <= it.hi, e.z(l.var("state"), st, l.st) == F(it.pos)]


def replay(c):
    log = c.a(0)
    F, ini, first, _ = fold(c, log)
    return [("there is a first event and it is the initialisation", z3.And(log.len >= 1, first.is_("Init"))), ("the initialisation succeeded", ini.is_("Ok")),
            ("the state is the fold of the transition over all later events in order", c.ret.z == F(log.len))]


def replay_traps(c):
    """never because of the loop itself"""
    log = c.a(0)
    F, ini, first, _ = fold(c, log)
    return z3.Or(log.len == 0, z3.Not(first.is_("Init")), z3.Not(ini.is_("Ok")))


def whole_log(c, it):
    """the iterator handed over runs over the whole log, first to last"""
    if not isinstance(it, Iter) or it.ops or it.tag is None or it.tag[0] != "seq":
        raise Unsupported("log iterator of another shape")
    return z3.And(it.pos == 0, it.hi == c.log0.len, it.tag[1] == c.log0.z)


def replay_all(c):
    R = c.calls("replay")
    out = [("replayed once", z3.BoolVal(len(R) == 1)), ("log unchanged", c.log == c.log0)]
    if len(R) == 1:
        out += [("over the whole log", whole_log(c, R[0].args[0][0])), ("its result is the state", c.ret == R[0].ret(c))]
    return out


def upgraded(c):
    u = c.a(0)
    R, P = c.calls("replay_events"), c.calls("process_event")
    st = c.st.cells[GSTATE]
    out = [("replayed once", z3.BoolVal(len(R) == 1)), ("at most one event", z3.BoolVal(len(P) <= 1))]
    if len(R) == 1:
        r = R[0].ret(c)
        out.append(("an upgrade argument becomes an event", z3.BoolVal(len(P) == 1) == u.is_("Some")))
        if P:
            m = P[0]
            out += [("on the replayed state", m.a(c, 0) == r), ("carrying the argument", z3.And(m.a(c, 1).is_("Upgrade"), m.a(c, 1).as_("Upgrade") == u.as_("Some"))), ("the state is what it left", c.g == m.post(c, 0))]
        else:
            out.append(("the state is the replayed one", c.g == r))
    return out


units = [
    Unit("state::audit::replay_events", ensures=replay_all, log=True, callee={"state::audit::replay_events_internal": step("replay")}),
    Unit("lifecycle::post_upgrade", requires=lambda c: [c.log0.len >= 1], ensures=upgraded, log=True, gstate=True, callee={"state::audit::replay_events": step("replay_events"), "state::audit::process_event": step("process_event")}),
    Unit("state::audit::replay_events_internal", requires=lambda c: fold(c, c.a(0))[3], ensures=replay, traps=replay_traps, loops={0: replay_inv}, tenv={"T": ("adt", "std::vec::Vec", (("adt", EV, ()),))},
         callee={"state::audit::apply_state_transition": step("apply_state_transition", record=False), "<State as TryFrom<InitArg>>::try_from": step("try_from", record=False)}),
    Unit("storage::record_event", ensures=record, log=True),
    Unit("state::audit::apply_state_transition", ensures=apply, callee=CALLEES),
    Unit("state::audit::process_event", ensures=process, callee={"state::audit::apply_state_transition": step("apply_state_transition"), "storage::record_event": step("record_event")}),
]
