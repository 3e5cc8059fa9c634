"""C01: checked amounts - exact arithmetic, no wrap, no silent loss."""
import z3
from mirv.spec import Unit, W
from mirv.values import *

M = U256_MAX
CA = "checked_amount::CheckedAmountOf"
U256 = ("adt", "ethnum::U256", ())


def n(w):
    return w.f(0).z


def partial(val, ok):
    """result is Some(val) exactly when ok, else None"""
    def ens(c):
        v, k = val(c), ok(c)
        return [("some iff representable", c.ret.is_("Some") == k),
                ("exact value", z3.Implies(k, n(c.ret.as_("Some")) == v))]
    return ens


A = lambda c: n(c.a(0))     # noqa
B = lambda c: n(c.a(1))     # noqa
F = lambda c: c.a(1).z      # noqa

units = [
    Unit(f"{CA}::checked_add", ensures=partial(lambda c: A(c) + B(c), lambda c: A(c) + B(c) <= M), traps="never"),
    Unit(f"{CA}::checked_sub", ensures=partial(lambda c: A(c) - B(c), lambda c: A(c) >= B(c)), traps="never"),
    Unit(f"{CA}::checked_increment", ensures=partial(lambda c: A(c) + 1, lambda c: A(c) < M), traps="never"),
    Unit(f"{CA}::checked_decrement", ensures=partial(lambda c: A(c) - 1, lambda c: A(c) > 0), traps="never"),
    Unit(f"{CA}::div_by_two", ensures=lambda c: [("floor half", n(c.ret) == A(c) / 2)], traps="never"),
    Unit(f"{CA}::change_units", ensures=lambda c: [("same value", n(c.ret) == A(c))], traps="never"),
    Unit(f"{CA}::from_words", ensures=lambda c: [("hi*2^128+lo", n(c.ret) == c.a(0).z * 2**128 + c.a(1).z)], traps="never"),
    Unit(f"{CA}::new", ensures=lambda c: [("value", n(c.ret) == c.a(0).z)], traps="never"),
    Unit(f"{CA}::into_inner", ensures=lambda c: [("value", c.ret.z == A(c))], traps="never"),
]
for t in (U256, ("int", "u8"), ("int", "u16"), ("int", "u32"), ("int", "u64"), ("int", "u128")):
    nm = t[1].split("::")[-1]
    units += [
        Unit(f"{CA}::checked_mul", name=f"{CA}::checked_mul<{nm}>", tenv={"T": t},
             ensures=partial(lambda c: A(c) * F(c), lambda c: A(c) * F(c) <= M), traps="never"),
        Unit(f"{CA}::checked_div_ceil", name=f"{CA}::checked_div_ceil<{nm}>", tenv={"T": t}, traps="never",
             ensures=lambda c: [("some iff divisor non-zero", c.ret.is_("Some") == (F(c) != 0)),
                                ("least upper quotient", z3.Implies(F(c) != 0, z3.And(n(c.ret.as_("Some")) * F(c) >= A(c),
                                                                                      (n(c.ret.as_("Some")) - 1) * F(c) < A(c))))]),
        Unit(f"{CA}::checked_div_floor", name=f"{CA}::checked_div_floor<{nm}>", tenv={"T": t}, traps="never",
             ensures=lambda c: [("some iff divisor non-zero", c.ret.is_("Some") == (F(c) != 0)),
                                ("greatest lower quotient", z3.Implies(F(c) != 0, z3.And(n(c.ret.as_("Some")) * F(c) <= A(c),
                                                                                         (n(c.ret.as_("Some")) + 1) * F(c) > A(c))))]),
    ]

for t in ("u8", "u16", "u32", "u64", "u128"):
    units.append(Unit(f"<CheckedAmountOf as From<{t}>>::from", ensures=lambda c: [("exact value", n(c.ret) == c.a(0).z)], traps="never"))
units += [
    Unit("<CheckedAmountOf as TryFrom<Nat>>::try_from", traps="never",
         ensures=lambda c: [("ok iff below 2^256", c.ret.is_("Ok") == (c.a(0).z <= M)),
                            ("exact value", z3.Implies(c.ret.is_("Ok"), n(c.ret.as_("Ok")) == c.a(0).z))]),
    Unit("<CheckedAmountOf as From<Nat256>>::from", ensures=lambda c: [("exact value", n(c.ret) == c.a(0).z)], traps="never"),
    Unit("<Nat256 as From<CheckedAmountOf>>::from", ensures=lambda c: [("exact value", c.ret.z == n(c.a(0)))], traps="never"),
    Unit("<Nat as From<CheckedAmountOf>>::from", ensures=lambda c: [("exact value", c.ret.z == n(c.a(0)))], traps="never"),
    Unit("<CheckedAmountOf as PartialEq>::eq", ensures=lambda c: [("equality of values", c.ret.z == (A(c) == B(c)))], traps="never"),
    Unit("<CheckedAmountOf as Ord>::cmp", traps="never",
         ensures=lambda c: [("order of values", z3.And(c.ret.is_("Less") == (A(c) < B(c)), c.ret.is_("Equal") == (A(c) == B(c)), c.ret.is_("Greater") == (A(c) > B(c))))]),
    Unit("<CheckedAmountOf as PartialOrd>::partial_cmp", traps="never",
         ensures=lambda c: [("order of values", z3.And(c.ret.is_("Some"), c.ret.as_("Some").is_("Less") == (A(c) < B(c)), c.ret.as_("Some").is_("Equal") == (A(c) == B(c))))]),
    Unit("numeric::WeiPerGas::transaction_cost", name="WeiPerGas::transaction_cost", traps="never",
         ensures=partial(lambda c: A(c) * B(c), lambda c: A(c) * B(c) <= M)),
    Unit("numeric::Wei::into_wei_per_gas", name="Wei::into_wei_per_gas", traps="never",
         ensures=lambda c: [("some iff divisor non-zero", c.ret.is_("Some") == (B(c) != 0)),
                            ("greatest lower quotient", z3.Implies(B(c) != 0, z3.And(n(c.ret.as_("Some")) * B(c) <= A(c), (n(c.ret.as_("Some")) + 1) * B(c) > A(c))))]),
]
