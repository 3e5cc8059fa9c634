"""C05: resubmission keeps the payment, raises the fee enough, stays within budget."""
from specs.wtx import *

M = U256_MAX


def n(w):
    return w[0].z


def clamp(x):
    return z3.If(x > M, M, x)


def price(c):
    p, e, r = c.a(0), c.a(1), c.ret
    pf, mf = n(p.max_priority_fee_per_gas), n(p.max_fee_per_gas)
    rp, rm = n(r.max_priority_fee_per_gas), n(r.max_fee_per_gas)
    need = clamp(n(e.base_fee_per_gas) + n(e.max_priority_fee_per_gas))
    enough = z3.And(mf >= need, pf >= n(e.max_priority_fee_per_gas))
    return [("gas limit kept", r.gas_limit == p.gas_limit),
            ("left alone when the price covers the estimate", z3.Implies(enough, z3.And(rp == pf, rm == mf))),
            ("otherwise priority fee grows by at least 10%", z3.Implies(z3.Not(enough), z3.Or(10 * rp >= 11 * pf, rp == M))),
            ("priority fee covers the estimate", rp >= n(e.max_priority_fee_per_gas)),
            ("prices never go down", z3.And(rp >= pf, rm >= mf)),
            ("maximum fee covers base plus priority", z3.Implies(z3.Not(enough), rm >= clamp(n(e.base_fee_per_gas) + rp))),
            ("not raised more than needed", z3.Implies(z3.Not(enough), z3.Or(rm == mf, rm == clamp(n(e.base_fee_per_gas) + rp))))]


def strat_budget(s):
    return z3.If(s.is_("ReduceEthAmount"), n(s.as_("ReduceEthAmount", "withdrawal_amount")), n(s.as_("GuaranteeEthAmount", "allowed_max_transaction_fee")))


def rel(old, strat, est, new):
    """what a replacement must satisfy"""
    pf, mf = n(old.max_priority_fee_per_gas), n(old.max_fee_per_gas)
    rp, rm = n(new.max_priority_fee_per_gas), n(new.max_fee_per_gas)
    fee = rm * n(new.gas_limit)
    out = [(f"same {f}", old.f(f) == new.f(f)) for f in ("chain_id", "nonce", "gas_limit", "destination", "data", "access_list")]
    out += [("maximum fee within the budget", fee <= strat_budget(strat)),
            ("native: amount + maximum fee = withdrawn amount", z3.Implies(strat.is_("ReduceEthAmount"), n(new.amount) + fee == strat_budget(strat))),
            ("erc20: amount unchanged", z3.Implies(strat.is_("GuaranteeEthAmount"), new.amount == old.amount)),
            ("prices never go down", z3.And(rp >= pf, rm >= mf)),
            ("priority fee grows by at least 10%", z3.Or(10 * rp >= 11 * pf, rp == M))]
    return out


def resub(c):
    s, e = c.a(0), c.a(1)
    old = s.transaction.inner.transaction
    need = clamp(n(e.base_fee_per_gas) + n(e.max_priority_fee_per_gas))
    enough = z3.And(n(old.max_fee_per_gas) >= need, n(old.max_priority_fee_per_gas) >= n(e.max_priority_fee_per_gas))
    ok = c.ret.is_("Ok")
    some = z3.And(ok, c.ret.as_("Ok").is_("Some"))
    new = c.ret.as_("Ok").as_("Some")
    err = c.ret.as_("Err")
    return [("left alone when the price covers the estimate", z3.Implies(enough, z3.And(ok, c.ret.as_("Ok").is_("None")))),
            ("budget reported", z3.Implies(c.ret.is_("Err"), z3.And(n(err.as_("InsufficientTransactionFee", "allowed_max_transaction_fee")) == strat_budget(s.resubmission),
                                                                     n(err.as_("InsufficientTransactionFee", "actual_max_transaction_fee")) > strat_budget(s.resubmission))))] + \
        [(nm, z3.Implies(some, f)) for nm, f in rel(old, s.resubmission, e, new)]


def req(c):
    return [strat_budget(c.a(0).resubmission) < M]


units = [
    Unit("tx::TransactionPrice::resubmit_transaction_price", ensures=price, traps="never"),
    Unit("tx::SignedTransactionRequest::resubmit", requires=req, ensures=resub, traps="never"),
]
