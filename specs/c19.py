"""C19: configuration and token registration."""
from specs.wtx import *
from specs.common import *
from specs import c02

M = U256_MAX


def n(w):
    return w[0].z


def blank(c, s):
    e = c.eng
    return e.uf("pure[core::str::<impl>::trim]", s.z.sort(), s.z.sort())(s.z) == e.strlit("")


def zero_addr(a):
    x = a[0]
    return x._e.eq(x._v, Lst(("int", "u8"), [z3.IntVal(0)] * 20), x._t, x._s)


def valid(c, s):
    e = c.eng
    h = s.helper_contract_address
    anon = z3.Const("pure[candid::Principal::anonymous]", s.native_ledger_id.z.sort())
    return z3.And(z3.Not(blank(c, s.ecdsa_key_name)), s.native_ledger_id.z != anon,
                  z3.Not(z3.And(h.is_("Some"), zero_addr(h.as_("Some")))),
                  n(s.native_minimum_withdrawal_amount) > 0, n(s.native_minimum_withdrawal_amount) >= n(s.native_ledger_transfer_fee))


def validate(c):
    return [("accepted exactly when valid", c.ret.is_("Ok") == valid(c, c.a(0)))]


def amount(dst, arg, had):
    """dst takes the number named by arg (it fits), or keeps what it had"""
    x = arg.as_("Some")
    v = x[0].z if x.z.sort() != z3.IntSort() else x.z
    return z3.If(arg.is_("Some"), z3.And(v <= M, n(dst) == v), dst == had)


def feearg(dst, v):
    return z3.And(v <= M, z3.If(v == 0, dst.is_("None"), z3.And(dst.is_("Some"), n(dst.as_("Some")) == v)))


def nat(w):
    return w[0].z if w.z.sort() != z3.IntSort() else w.z


def addr_of(c, a, txt):
    """the address written in the text (hex after 0x)"""
    e = c.eng
    f = e.uf("strlen", txt.z.sort(), z3.IntSort())
    sub = e.uf("substr", txt.z.sort(), z3.IntSort(), z3.IntSort(), txt.z.sort())(txt.z, z3.IntVal(2), f(txt.z))
    at = ("array", ("int", "u8"), 20)
    b = e.uf("hex_bytes[" + show(at) + "]", txt.z.sort(), e.S.sort(at))(sub)
    return a[0].z == b


def tag(dst, arg):
    return z3.And(*[z3.Implies(arg.is_(v), dst.is_(v)) for v in ("Latest", "Safe", "Finalized")])


def upgrade(c):
    s0, s1, u, ok = c.a(0), c.f(0), c.a(1), c.ret.is_("Ok")
    h = u.helper_contract_address
    w0, w1 = s0.withdrawal_transactions, s1.withdrawal_transactions
    def opt_(name):
        return u.f(name)
    I = z3.Implies
    out = [("accepted only when the resulting configuration is valid", I(ok, valid(c, s1))),
           ("refused only for a reason", z3.Or(ok, z3.Not(valid(c, s1)),
                *[z3.And(opt_(f).is_("Some"), nat(opt_(f).as_("Some")) > M) for f in ("next_transaction_nonce", "native_minimum_withdrawal_amount", "native_ledger_transfer_fee",
                    "min_max_priority_fee_per_gas", "last_scraped_block_number", "deposit_native_fee", "withdrawal_native_fee")], h.is_("Some"))),
           ("nonce", I(ok, amount(w1.next_nonce, u.next_transaction_nonce, w0.next_nonce))),
           ("minimum withdrawal", I(ok, amount(s1.native_minimum_withdrawal_amount, u.native_minimum_withdrawal_amount, s0.native_minimum_withdrawal_amount))),
           ("ledger fee", I(ok, amount(s1.native_ledger_transfer_fee, u.native_ledger_transfer_fee, s0.native_ledger_transfer_fee))),
           ("priority fee", I(ok, amount(s1.min_max_priority_fee_per_gas, u.min_max_priority_fee_per_gas, s0.min_max_priority_fee_per_gas))),
           ("last scraped block", I(ok, amount(s1.last_scraped_block_number, u.last_scraped_block_number, s0.last_scraped_block_number))),
           ("helper contract", I(ok, z3.If(h.is_("Some"), z3.And(s1.helper_contract_address.is_("Some"), addr_of(c, s1.helper_contract_address.as_("Some"), h.as_("Some"))),
                                     s1.helper_contract_address == s0.helper_contract_address))),
           ("block height", I(ok, z3.If(u.block_height.is_("Some"), tag(s1.block_height, u.block_height.as_("Some")), s1.block_height == s0.block_height))),
           ("rpc canister", I(ok, z3.If(u.evm_rpc_id.is_("Some"), s1.evm_canister_id == u.evm_rpc_id.as_("Some"), s1.evm_canister_id == s0.evm_canister_id)))]
    for f in ("deposit_native_fee", "withdrawal_native_fee"):
        out.append((f, I(ok, z3.If(u.f(f).is_("Some"), feearg(s1.f(f), nat(u.f(f).as_("Some"))), s1.f(f) == s0.f(f)))))
    out += frame(s0, s1, "withdrawal_transactions", "native_minimum_withdrawal_amount", "native_ledger_transfer_fee", "min_max_priority_fee_per_gas",
                 "last_scraped_block_number", "helper_contract_address", "block_height", "evm_canister_id", "deposit_native_fee", "withdrawal_native_fee")
    out += frame(w0, w1, "next_nonce", label="withdrawals: ")
    return out


def init(c):
    a, ok = c.a(0), c.ret.is_("Ok")
    s = c.ret.as_("Ok")
    I = z3.Implies
    def num(dst, f):
        return I(ok, z3.And(nat(a.f(f)) <= M, n(dst) == nat(a.f(f))))
    def empty(m):
        k = z3.Const("k?e", m.z.sort().domain())
        return I(ok, z3.ForAll([k], z3.Not(m.has(k))))
    w = s.withdrawal_transactions
    h = a.helper_contract_address
    out = [("accepted only when valid", I(ok, valid(c, s))),
           ("network", I(ok, s.evm_network == a.evm_network)), ("key", I(ok, s.ecdsa_key_name == a.ecdsa_key_name)),
           ("ledger", I(ok, s.native_ledger_id == a.native_ledger_id)), ("index", I(ok, s.native_index_id == a.native_index_id)),
           ("symbol", I(ok, s.native_symbol[0] == a.native_symbol)),
           ("helper contract", I(ok, z3.If(h.is_("Some"), z3.And(s.helper_contract_address.is_("Some"), addr_of(c, s.helper_contract_address.as_("Some"), h.as_("Some"))),
                                     s.helper_contract_address.is_("None")))),
           ("minimum withdrawal", num(s.native_minimum_withdrawal_amount, "native_minimum_withdrawal_amount")),
           ("ledger fee", num(s.native_ledger_transfer_fee, "native_ledger_transfer_fee")),
           ("nonce", num(w.next_nonce, "next_transaction_nonce")),
           ("last scraped block", num(s.last_scraped_block_number, "last_scraped_block_number")),
           ("first scraped block follows", I(ok, n(s.first_scraped_block_number) == nat(a.last_scraped_block_number) + 1)),
           ("priority fee", num(s.min_max_priority_fee_per_gas, "min_max_priority_fee_per_gas")),
           ("manager", I(ok, z3.And(s.ledger_suite_manager_id.is_("Some"), s.ledger_suite_manager_id.as_("Some") == a.ledger_suite_manager_id))),
           ("block height", I(ok, tag(s.block_height, a.block_height))),
           ("deposit fee", I(ok, feearg(s.deposit_native_fee, nat(a.deposit_native_fee)))),
           ("withdrawal fee", I(ok, feearg(s.withdrawal_native_fee, nat(a.withdrawal_native_fee)))),
           ("nothing owed or held", I(ok, z3.And(*[n(s.native_balance.f(f)) == 0 for f in ("native_balance", "total_effective_tx_fees", "total_unspent_tx_fees")]))),
           ("no withdrawal queued", I(ok, w.pending_withdrawal_requests.len == 0))]
    for nm, m in [("events_to_mint", s.events_to_mint), ("minted_events", s.minted_events), ("invalid_events", s.invalid_events), ("skipped_blocks", s.skipped_blocks),
                  ("tokens", s.erc20_tokens.map.by_key), ("tokens by address", s.erc20_tokens.map.by_alt_key), ("balances", s.erc20_balances.balance_by_erc20_contract),
                  ("created", w.created_tx.by_key), ("sent", w.sent_tx.by_key), ("finalized", w.finalized_tx.by_key), ("created by burn", w.created_tx.by_alt_key), ("sent by burn", w.sent_tx.by_alt_key),
                  ("finalized by burn", w.finalized_tx.by_alt_key), ("processed", w.processed_withdrawal_requests), ("maybe_reimburse", w.maybe_reimburse), ("reimbursement_requests", w.reimbursement_requests), ("reimbursed", w.reimbursed)]:
        out.append((f"{nm} starts empty", empty(m)))
    return out


def tokens(c, s):
    return s.erc20_tokens.map


def tok_inv(c):
    m = tokens(c, c.a(0))
    e = c.eng
    iv = z3.Const("inv!", z3.ArraySort(m.by_alt_key.z.sort().domain(), m.by_key.z.sort().domain()))
    a = z3.Const("a!", m.by_alt_key.z.sort().domain())
    ba, bk = m.by_alt_key, m.by_key
    return c02.Inv(m, iv).facts() + [forall([a], z3.Implies(ba.has(a), z3.And(bk.has(ba.val(a)[0].z), bk.val(ba.val(a)[0].z).z == a)), z3.Select(ba.z, a))]


def add_token(c):
    s0, s1, t = c.a(0), c.f(0), c.a(1)
    m0, m1 = tokens(c, s0), tokens(c, s1)
    l, ad, sy = t.erc20_ledger_id.z, t.erc20_contract_address.z, t.erc20_token_symbol
    a, k = z3.Const("a?", m0.by_alt_key.z.sort().domain()), z3.Const("k?", m0.by_key.z.sort().domain())
    return [("only for this network", t.chain_id == s0.evm_network),
            ("ledger was free", z3.Not(m0.by_key.has(l))), ("address was free", z3.Not(m0.by_alt_key.has(ad))),
            ("symbol was free", z3.ForAll([a], z3.Implies(m0.by_alt_key.has(a), m0.by_alt_key.val(a)[1].z != sy.z))),
            ("registered under its ledger", z3.And(m1.by_key.has(l), m1.by_key.val(l).z == ad)),
            ("registered under its address with its symbol", z3.And(m1.by_alt_key.has(ad), m1.by_alt_key.val(ad)[0].z == l, m1.by_alt_key.val(ad)[1].z == sy.z)),
            ("other ledgers untouched", z3.ForAll([k], z3.Implies(k != l, m1.by_key.get(k) == m0.by_key.get(k)))),
            ("other addresses untouched", z3.ForAll([a], z3.Implies(a != ad, m1.by_alt_key.get(a) == m0.by_alt_key.get(a))))] + frame(s0, s1, "erc20_tokens")


def find_token(c):
    m = tokens(c, c.a(0))
    l = c.a(1).z
    t = c.ret.as_("Some")
    ad = m.by_key.val(l).z
    return [("found exactly when registered", c.ret.is_("Some") == m.by_key.has(l)),
            ("as registered", z3.Implies(m.by_key.has(l), z3.And(t.erc20_ledger_id.z == l, t.erc20_contract_address.z == ad, t.erc20_token_symbol.z == m.by_alt_key.val(ad)[1].z, t.chain_id == c.a(0).evm_network)))]


def add_traps(c):
    s0, t = c.a(0), c.a(1)
    m0 = tokens(c, s0)
    a = z3.Const("a?", m0.by_alt_key.z.sort().domain())
    return z3.Or(z3.Not(t.chain_id == s0.evm_network), m0.by_key.has(t.erc20_ledger_id.z), m0.by_alt_key.has(t.erc20_contract_address.z),
                 z3.Exists([a], z3.And(m0.by_alt_key.has(a), m0.by_alt_key.val(a)[1].z == t.erc20_token_symbol.z)))


units = [
    Unit("state::State::validate_config", ensures=validate, traps="never"),
    Unit("state::State::upgrade", ensures=upgrade, merge=True, traps="never"),
    Unit("<State as TryFrom<InitArg>>::try_from", ensures=init, merge=True),
    Unit("state::State::record_add_erc20_token", requires=tok_inv, ensures=add_token, traps=add_traps),
    Unit("state::State::find_erc20_token_by_ledger_id", requires=tok_inv, ensures=find_token, traps="never"),
]
