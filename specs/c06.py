"""C06: only failed withdrawals are reimbursed: once, in full, to the payer (state transitions)."""
from specs.wtx import *


def n(w):
    return w[0].z


RR, RD = "reimbursement_requests", "reimbursed"


def excl(w):
    k = z3.Const("k!r", w.f(RR).z.sort().domain())
    return forall([k], z3.Not(z3.And(w.f(RR).has(k), w.f(RD).has(k))), z3.Select(w.f(RR).z, k), z3.Select(w.f(RD).z, k))


def others(m0, m1, k):
    x = z3.Const("x?", m0.z.sort().domain())
    return z3.ForAll([x], z3.Implies(x != k, m1.get(x) == m0.get(x)))


def index_of(c, req):
    """ReimbursementIndex of a withdrawal request"""
    e = c.eng
    t = ("adt", "state::transactions::ReimbursementIndex", ())
    d = e.S.adt_def(t)
    s = e.S.sort(t)
    nat, erc = req.as_("Native"), req.as_("Erc20")
    vn = [v[0] for v in d]
    a = s.constructor(vn.index("Native"))(nat.ledger_burn_index.z)
    b = s.constructor(vn.index("Erc20"))(erc.native_ledger_burn_index.z, erc.erc20_ledger_id.z, erc.erc20_ledger_burn_index.z)
    return z3.If(req.is_("Native"), a, b)


def fin(c):
    w0, w1, b, rc = c.a(0), c.f(0), c.a("ledger_burn_index"), c.a("receipt")
    req = w0.processed_withdrawal_requests.val(b)
    k = index_of(c, req)
    failed = rc.status.is_("Failure")
    tx = w1.finalized_tx.by_alt_key.val(b).transaction.inner.transaction
    r = w1.f(RR).val(k)
    nat, erc = req.as_("Native"), req.as_("Erc20")
    isn = req.is_("Native")
    I = z3.Implies
    return [
        ("success: nothing becomes due", I(rc.status.is_("Success"), w1.f(RR) == w0.f(RR))),
        ("failure: due under the request's index", I(failed, w1.f(RR).has(k))),
        ("failure: was not due or paid before", I(failed, z3.And(z3.Not(w0.f(RR).has(k)), z3.Not(w0.f(RD).has(k))))),
        ("names the payer", I(failed, z3.And(r.to.z == z3.If(isn, nat.f("from").z, erc.f("from").z), r.to_subaccount.z == z3.If(isn, nat.from_subaccount.z, erc.from_subaccount.z)))),
        ("native: the amount that would have been sent", I(z3.And(failed, isn), r.reimbursed_amount[0] == tx.amount[0])),
        ("erc20: the withdrawn amount", I(z3.And(failed, z3.Not(isn)), r.reimbursed_amount[0] == erc.withdrawal_amount[0])),
        ("refers to the burn on that ledger", I(failed, r.ledger_burn_index.z == z3.If(isn, b.z, erc.erc20_ledger_burn_index.z))),
        ("refers to the failed transaction", I(failed, z3.And(r.transaction_hash.is_("Some"), r.transaction_hash.as_("Some") == rc.transaction_hash))),
        ("other due reimbursements untouched", others(w0.f(RR), w1.f(RR), k)),
        ("paid list untouched", w1.f(RD) == w0.f(RD)),
        ("no longer undecided", z3.Not(w1.maybe_reimburse.has(b))),
        ("due and paid stay disjoint", excl(w1)),
    ]


def due(c):
    w0, w1, k, r = c.a(0), c.f(0), c.a("index"), c.a("request")
    wid = z3.If(k.is_("Native"), k.as_("Native", "ledger_burn_index").z, k.as_("Erc20", "native_ledger_burn_index").z)
    return [("only once its outcome is known", z3.Not(w0.maybe_reimburse.has(wid))),
            ("not due or paid before", z3.And(z3.Not(w0.f(RR).has(k)), z3.Not(w0.f(RD).has(k)))),
            ("recorded as given", z3.And(w1.f(RR).has(k), w1.f(RR).val(k) == r)),
            ("others untouched", others(w0.f(RR), w1.f(RR), k.z)),
            ("due and paid stay disjoint", excl(w1))] + frame(w0, w1, RR)


def paid(c):
    w0, w1, k = c.a(0), c.f(0), c.a("index")
    d = w1.f(RD).val(k)
    ok = d.as_("Ok")
    r0 = w0.f(RR).val(k)
    bb = z3.If(k.is_("Native"), k.as_("Native", "ledger_burn_index").z, k.as_("Erc20", "erc20_ledger_burn_index").z)
    return [("was due, not paid before", z3.And(w0.f(RR).has(k), z3.Not(w0.f(RD).has(k)))),
            ("no longer due", z3.Not(w1.f(RR).has(k))),
            ("recorded as paid", z3.And(w1.f(RD).has(k), d.is_("Ok"))),
            ("in that ledger block", ok.reimbursed_in_block == c.a("reimbursed_in_block")),
            ("the amount that was due", ok.reimbursed_amount == r0.reimbursed_amount),
            ("for that burn", ok.burn_in_block.z == bb),
            ("for that transaction", ok.transaction_hash == r0.transaction_hash),
            ("other due untouched", others(w0.f(RR), w1.f(RR), k.z)),
            ("other paid untouched", others(w0.f(RD), w1.f(RD), k.z)),
            ("due and paid stay disjoint", excl(w1))] + frame(w0, w1, RR, RD)


def quarantine(c):
    w0, w1, k = c.a(0), c.f(0), c.a("index")
    return [("no longer due", z3.Not(w1.f(RR).has(k))),
            ("recorded as quarantined", z3.And(w1.f(RD).has(k), w1.f(RD).val(k).is_("Err"))),
            ("other due untouched", others(w0.f(RR), w1.f(RR), k.z)),
            ("other paid untouched", others(w0.f(RD), w1.f(RD), k.z)),
            ("due and paid stay disjoint", excl(w1))] + frame(w0, w1, RR, RD)


def pre2(c):
    return [excl(c.a(0))]


def pre_all(c):
    w = c.a(0)
    return [f for _, f in inv(w, Ghost(w))] + [excl(w)]


units = [
    Unit(f"{WT}::record_finalized_transaction", requires=pre_all, ensures=fin),
    Unit(f"{WT}::record_reimbursement_request", requires=pre2, ensures=due),
    Unit(f"{WT}::record_finalized_reimbursement", requires=pre2, ensures=paid),
    Unit(f"{WT}::record_quarantined_reimbursement", requires=pre2, ensures=quarantine, traps="never"),
]
