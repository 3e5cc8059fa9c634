"""C04: create_transaction pays the right party and never exceeds its budget."""
from specs.wtx import *

M = U256_MAX
T = "state::transactions"


def n(w):
    return w[0].z


def vlen(w):
    return w.len


def data_is_transfer(c, data, to, value):
    """selector ++ 12 zero bytes ++ address ++ 32-byte big-endian value"""
    i = z3.Int("i?d")
    sel = [0xA9, 0x05, 0x9C, 0xBB]
    be = c.eng.uf("be_bytes32", z3.IntSort(), value_sort(c))(value)
    bat = lambda k: be.sort().accessor(0, 1)(be)[k]      # noqa
    return [("call data has 68 bytes", data.len == 68),
            ("transfer selector", z3.And(*[data.at(k).z == v for k, v in enumerate(sel)])),
            ("address left-padded", z3.And(*[data.at(4 + k).z == 0 for k in range(12)], *[data.at(16 + k) == to[0].at(k) for k in range(20)])),
            ("value big-endian", z3.And(*[data.at(36 + k).z == bat(k) for k in range(32)]))]


def value_sort(c):
    return c.eng.S.sort(("array", ("int", "u8"), 32))


def req(c):
    r, est, g = c.a("withdrawal_request"), c.a("gas_fee_estimate"), c.a("gas_limit")
    return [z3.Implies(r.is_("Native"), n(r.as_("Native").withdrawal_amount) < M)]


def ens(c):
    r, est, g, net, nonce = c.a("withdrawal_request"), c.a("gas_fee_estimate"), c.a("gas_limit"), c.a("evm_network"), c.a("nonce")
    nat, erc = r.as_("Native"), r.as_("Erc20")
    ok, err = c.ret.is_("Ok"), c.ret.is_("Err")
    tx = c.ret.as_("Ok")
    e = c.ret.as_("Err")
    maxfee = n(tx.max_fee_per_gas) * n(tx.gas_limit)
    base, prio = n(est.base_fee_per_gas), n(est.max_priority_fee_per_gas)
    two = z3.If(2 * base + prio > M, M, 2 * base + prio)
    one = z3.If(base + prio > M, M, base + prio)
    isn = r.is_("Native")
    I = z3.Implies
    chain = chain_id(c, net)
    out = [
        ("network chain id", I(ok, tx.chain_id.z == chain)),
        ("given nonce", I(ok, tx.nonce == nonce)),
        ("given gas limit", I(ok, tx.gas_limit == g)),
        ("given priority fee", I(ok, tx.max_priority_fee_per_gas == est.max_priority_fee_per_gas)),
        ("empty access list", I(ok, tx.access_list[0].len == 0)),
        ("native: pays the requested address", I(z3.And(ok, isn), tx.destination == nat.destination)),
        ("native: amount + maximum fee = withdrawn amount", I(z3.And(ok, isn), n(tx.amount) + maxfee == n(nat.withdrawal_amount))),
        ("native: price from the estimate", I(z3.And(ok, isn), n(tx.max_fee_per_gas) == two)),
        ("native: no call data", I(z3.And(ok, isn), tx.data.len == 0)),
        ("native: refused exactly when the amount cannot cover the fee", I(isn, err == (n(nat.withdrawal_amount) < two * n(g)))),
        ("erc20: calls the token contract", I(z3.And(ok, z3.Not(isn)), tx.destination == erc.erc20_contract_address)),
        ("erc20: no native value", I(z3.And(ok, z3.Not(isn)), n(tx.amount) == 0)),
        ("erc20: maximum fee within what was paid", I(z3.And(ok, z3.Not(isn)), maxfee <= n(erc.max_transaction_fee))),
        ("erc20: price covers the minimum", I(z3.And(ok, z3.Not(isn)), n(tx.max_fee_per_gas) >= one)),
        ("erc20: refused only when the budget cannot cover the minimum price", I(z3.And(err, z3.Not(isn)), one * n(g) > n(erc.max_transaction_fee))),
        ("error names the withdrawal", I(err, e.is_("InsufficientTransactionFee") if False else
                                         e.as_("InsufficientTransactionFee", "native_ledger_burn_index").z == burn(r))),
    ]
    out += [("erc20: " + nm, I(z3.And(ok, z3.Not(isn)), f)) for nm, f in data_is_transfer(c, tx.data, erc.destination, n(erc.withdrawal_amount))]
    return out


# the chain ids of the supported networks (chainlist.org); part of the specification
CHAINS = {"Ethereum": 1, "Sepolia": 11155111, "ArbitrumOne": 42161, "BSC": 56, "BSCTestnet": 97, "Polygon": 137, "Optimism": 10, "Base": 8453,
          "Avalanche": 43114, "Fantom": 250}


def chain_id(c, net):
    return c.eng.uf("chain_id", z3.IntSort(), z3.IntSort())(z3.IntVal(0)) if False else chain_of(net)


def chain_of(net):
    d = net._e.S.adt_def(net._t)
    e = z3.IntVal(-1)
    for vn, _, _ in d:
        if vn in CHAINS:
            e = z3.If(net.is_(vn), z3.IntVal(CHAINS[vn]), e)
    return e


def enc(c):
    s = c.a(0)
    return data_is_transfer(c, c.ret, s.as_("Erc20Transfer", "to"), n(s.as_("Erc20Transfer", "value")))


units = [
    Unit(f"{T}::create_transaction", requires=req, ensures=ens, traps=lambda c: n(c.a("gas_limit")) == 0),
    Unit(f"{T}::TransactionCallData::encode", ensures=enc, traps="never"),
]
