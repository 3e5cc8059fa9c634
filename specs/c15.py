"""C15: fee quotes follow the fee history and the configured minimum."""
from specs.wtx import *

M = U256_MAX


def n(w):
    return w[0].z


def est_max(e):
    return 2 * n(e.base_fee_per_gas) + n(e.max_priority_fee_per_gas)


def clamp(x):
    return z3.If(x > M, M, x)


G, TP = "tx::GasFeeEstimate", "tx::TransactionPrice"
units = [
    Unit(f"{G}::checked_estimate_max_fee_per_gas", traps="never",
         ensures=lambda c: [("some iff it fits", c.ret.is_("Some") == (est_max(c.a(0)) <= M)),
                            ("twice the base fee plus the priority fee", z3.Implies(c.ret.is_("Some"), n(c.ret.as_("Some")) == est_max(c.a(0))))]),
    Unit(f"{G}::estimate_max_fee_per_gas", traps="never", ensures=lambda c: [("twice base plus priority, saturating", n(c.ret) == clamp(est_max(c.a(0))))]),
    Unit(f"{G}::min_max_fee_per_gas", traps="never",
         ensures=lambda c: [("base plus priority, saturating", n(c.ret) == clamp(n(c.a(0).base_fee_per_gas) + n(c.a(0).max_priority_fee_per_gas)))]),
    Unit(f"{G}::to_price", traps="never",
         ensures=lambda c: [("gas limit", c.ret.gas_limit == c.a("gas_limit")), ("maximum fee", n(c.ret.max_fee_per_gas) == clamp(est_max(c.a(0)))),
                            ("priority fee", c.ret.max_priority_fee_per_gas == c.a(0).max_priority_fee_per_gas)]),
    Unit(f"{TP}::max_transaction_fee", traps="never",
         ensures=lambda c: [("price times gas limit", n(c.ret) == clamp(n(c.a(0).max_fee_per_gas) * n(c.a(0).gas_limit)))]),
]
