"""C08: the minter's books match deposits, withdrawals and fees exactly."""
from specs.wtx import *

M = U256_MAX


def n(w):
    return w[0].z


def bal(w, a):
    m = w.erc20_balances.balance_by_erc20_contract
    return z3.If(m.has(a), n(m.val(a)), 0)


def other_tokens(w0, w1, a):
    m0, m1 = w0.erc20_balances.balance_by_erc20_contract, w1.erc20_balances.balance_by_erc20_contract
    x = z3.Const("x?t", m0.z.sort().domain())
    return z3.ForAll([x], z3.Implies(x != a, m1.get(x) == m0.get(x)))


def deposit(c):
    w0, w1, ev = c.a(0), c.f(0), c.a(1)
    nat, erc = ev.as_("Native"), ev.as_("Erc20")
    isn = ev.is_("Native")
    b0, b1 = w0.native_balance, w1.native_balance
    a = erc.erc20_contract_address.z
    return [
        ("native balance rises by exactly the value", z3.Implies(isn, n(b1.native_balance) == n(b0.native_balance) + n(nat.value))),
        ("native balance moves only for native deposits", z3.Implies(z3.Not(isn), b1.native_balance == b0.native_balance)),
        ("fee totals untouched", z3.And(b1.total_effective_tx_fees == b0.total_effective_tx_fees, b1.total_unspent_tx_fees == b0.total_unspent_tx_fees)),
        ("token balance rises by exactly the value", z3.Implies(z3.Not(isn), bal(w1, a) == bal(w0, a) + n(erc.value))),
        ("other token balances untouched", z3.Implies(z3.Not(isn), other_tokens(w0, w1, a))),
        ("no token balance moves for native deposits", z3.Implies(isn, w1.erc20_balances == w0.erc20_balances)),
    ]


def pre_fin(c):
    w = c.a(0).withdrawal_transactions
    return [f for _, f in inv(w, Ghost(w))]


def be(c, data, off):
    """32 bytes from `off`, read big-endian: the value the code obtains"""
    return None


def withdrawal(c):
    w0, w1 = c.a(0), c.f(0)
    b, rc = c.a("withdrawal_id"), c.a("receipt")
    fin = w1.withdrawal_transactions.finalized_tx.by_alt_key.val(b)
    req = w1.withdrawal_transactions.processed_withdrawal_requests.val(b)
    tx = fin.transaction.inner.transaction
    fee = n(rc.effective_gas_price) * n(rc.gas_used)
    ok = rc.status.is_("Success")
    charged = z3.If(req.is_("Native"), n(req.as_("Native").withdrawal_amount) - n(tx.amount), n(req.as_("Erc20").max_transaction_fee))
    b0, b1 = w0.native_balance, w1.native_balance
    a = tx.destination.z
    token = z3.And(ok, tx.data.len > 0)
    return [
        ("native balance falls by amount plus fee on success, fee on failure",
         n(b1.native_balance) == n(b0.native_balance) - fee - z3.If(ok, n(tx.amount), 0)),
        ("effective fees grow by the fee paid", n(b1.total_effective_tx_fees) == n(b0.total_effective_tx_fees) + fee),
        ("unspent fees grow by charged minus paid", n(b1.total_unspent_tx_fees) == n(b0.total_unspent_tx_fees) + charged - fee),
        ("nothing negative", z3.And(n(b1.native_balance) >= 0, charged >= fee)),
        ("no token balance moves unless a token transfer succeeded", z3.Implies(z3.Not(token), w1.erc20_balances == w0.erc20_balances)),
        ("token balance falls by the value in the call data", z3.Implies(token, bal(w1, a) == bal(w0, a) - call_value(c, tx.data))),
        ("other token balances untouched", z3.Implies(token, other_tokens(w0, w1, a))),
    ] + frame(w0, w1, "native_balance", "erc20_balances", "withdrawal_transactions")


def call_value(c, data):
    """bytes 36..68 of the call data, big-endian (bytes relation by value)"""
    e = c.eng
    from mirv.models import shifted, beval
    if not hasattr(c, "_cv"):
        s = e.S.sort(("slice", ("int", "u8")))
        d = data.z
        arr = z3.Const("callvalue?bytes", s)
        c._cv = arr
        i = z3.Int("i?cv")
        # congruence: every 32-byte sequence equal to data[36..68] has the same value
        q = z3.Const("q?cv", s)
        length, at = s.accessor(0, 0), s.accessor(0, 1)
        c.st.facts.append(z3.And(length(arr) == 32, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < 32), at(arr)[i] == at(d)[36 + i]))))
        bv = e.uf("beval", s, z3.IntSort())
        c.st.facts.append(z3.ForAll([q], z3.Implies(z3.And(length(q) == 32, *[at(q)[k] == at(arr)[k] for k in range(32)]), bv(q) == bv(arr)), patterns=[bv(q)]))
    return beval(e, c._cv)


def add(field):
    def ens(c):
        f = lambda x, g: n(x.f(g))    # noqa
        w0, w1 = c.a(0), c.f(0)
        return [("exact sum", n(w1.f(field)) == n(w0.f(field)) + n(c.a(1)))] + frame(w0, w1, field)
    return ens


def tok(sign):
    def ens(c):
        w0, w1, a, v = c.a(0), c.f(0), c.a(1), n(c.a(2))
        m0, m1 = w0.balance_by_erc20_contract, w1.balance_by_erc20_contract
        x = z3.Const("x?", m0.z.sort().domain())
        old = z3.If(m0.has(a), n(m0.val(a)), 0)
        return [("exact", z3.And(m1.has(a), n(m1.val(a)) == old + sign * v)), ("never negative", n(m1.val(a)) >= 0),
                ("others untouched", z3.ForAll([x], z3.Implies(x != a.z, m1.get(x) == m0.get(x))))]
    return ens


NB = "state::NativeBalance"
units = [
    Unit("state::State::record_event_to_mint", ensures=deposit),
    Unit("state::State::record_finalized_transaction", requires=pre_fin, ensures=withdrawal),
    Unit(f"{NB}::eth_balance_add", ensures=add("native_balance"), traps=lambda c: n(c.a(0).native_balance) + n(c.a(1)) > M),
    Unit(f"{NB}::eth_balance_sub", ensures=lambda c: [("exact difference", n(c.f(0).native_balance) == n(c.a(0).native_balance) - n(c.a(1)))] + frame(c.a(0), c.f(0), "native_balance"),
         traps=lambda c: n(c.a(0).native_balance) < n(c.a(1))),
    Unit(f"{NB}::total_effective_tx_fees_add", ensures=add("total_effective_tx_fees"), traps=lambda c: n(c.a(0).total_effective_tx_fees) + n(c.a(1)) > M),
    Unit(f"{NB}::total_unspent_tx_fees_add", ensures=add("total_unspent_tx_fees"), traps=lambda c: n(c.a(0).total_unspent_tx_fees) + n(c.a(1)) > M),
    Unit("state::Erc20Balances::erc20_add", ensures=tok(1)),
    Unit("state::Erc20Balances::erc20_sub", ensures=tok(-1)),
    Unit("state::Erc20Balances::balance_of", ensures=lambda c: [("recorded balance or zero", n(c.ret) == z3.If(c.a(0).balance_by_erc20_contract.has(c.a(1)), n(c.a(0).balance_by_erc20_contract.val(c.a(1))), 0))], traps="never"),
]
