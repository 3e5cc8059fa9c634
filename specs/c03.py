"""C03: every accepted withdrawal is in exactly one stage, with its own nonce."""
from specs.wtx import *

P = "pending_withdrawal_requests"


def wrapped(c, i):
    """the request argument as a WithdrawalRequest view"""
    a = c.a(i)
    t = a._t
    if t == REQ:
        return a
    v = Agg(REQ, 0 if t == NREQ else 1, [a._v])
    return W(c.eng, c.st, v, REQ)


def known(w, b):
    i = z3.Int("i?k")
    p = w.f(P)
    return z3.Or(z3.Exists([i], z3.And(0 <= i, i < p.len, burn(p.at(i)) == b)), *[w.f(s).by_alt_key.has(b) for s in STAGES])


def appended(p0, p1, r):
    i = z3.Int("i?a")
    return z3.And(p1.len == p0.len + 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p0.len), p1.at(i).z == p0.at(i).z)), p1.at(p0.len).z == r.z)


def record(c):
    w0, w1, r = c.a(0), c.f(0), wrapped(c, 1)
    return [("accepted only if the burn index is new", z3.Not(known(w0, burn(r)))),
            ("queued at the back", appended(w0.f(P), w1.f(P), r))] + frame(w0, w1, P) + post(c)


def dup(c):
    return known(c.a(0), burn(wrapped(c, 1)))


def resched(c):
    """moved to the back; all others stay, in order"""
    w0, w1, r = c.a(0), c.f(0), c.a(1)
    p0, p1 = w0.f(P), w1.f(P)
    i, j = z3.Ints("i?r j?r")
    was = z3.Exists([j], z3.And(0 <= j, j < p0.len, p0.at(j).z == r.z))
    return [("now last", z3.And(p1.len > 0, p1.at(p1.len - 1).z == r.z)),
            ("no other request lost", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p0.len), z3.Exists([j], z3.And(0 <= j, j < p1.len, p1.at(j).z == p0.at(i).z))))),
            ("no request invented", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p1.len - 1), z3.Exists([j], z3.And(0 <= j, j < p0.len, p1.at(i).z == p0.at(j).z))))),
            ] + frame(w0, w1, P) + post(c)


def created(c):
    w0, w1, b, tx = c.a(0), c.f(0), c.a("withdrawal_id"), c.a("transaction")
    g = Ghost(w0)
    g1 = g.add(z3.BoolVal(True), b.z, w0.next_nonce.z)
    p0, p1 = w0.f(P), w1.f(P)
    m0, m1 = w0.created_tx, w1.created_tx
    i, j = z3.Ints("i?c j?c")
    k = z3.Const("k?c", g.bs)
    n = z3.Const("n?c", g.ns)
    pr0, pr1 = w0.processed_withdrawal_requests, w1.processed_withdrawal_requests
    req = pr1.val(b)
    new = m1.by_alt_key.val(b)
    strat = new.resubmission
    return [
        ("takes the next nonce, nonce advances by one", z3.And(tx.nonce == w0.next_nonce, w1.next_nonce[0].z == w0.next_nonce[0].z + 1)),
        ("was queued under that index", z3.Exists([i], z3.And(0 <= i, i < p0.len, burn(p0.at(i)) == b.z, p0.at(i).z == req.z))),
        ("no longer queued", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p1.len), burn(p1.at(i)) != b.z))),
        ("others stay queued", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p0.len, burn(p0.at(i)) != b.z), z3.Exists([j], z3.And(0 <= j, j < p1.len, p1.at(j).z == p0.at(i).z))))),
        ("none invented", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p1.len), z3.Exists([i], z3.And(0 <= i, i < p0.len, p1.at(j).z == p0.at(i).z))))),
        ("stored under its nonce and index", z3.And(m1.by_key.has(tx.nonce), m1.by_key.val(tx.nonce) == b, m1.by_alt_key.has(b), new.transaction == tx)),
        ("other created transactions untouched", z3.ForAll([k], z3.Implies(k != b.z, m1.by_alt_key.get(k) == m0.by_alt_key.get(k)))),
        ("other nonces untouched", z3.ForAll([n], z3.Implies(n != tx.nonce.z, m1.by_key.get(n) == m0.by_key.get(n)))),
        ("request kept as processed", pr1.has(b)),
        ("other processed requests untouched", z3.ForAll([k], z3.Implies(k != b.z, pr1.get(k) == pr0.get(k)))),
        ("fee budget remembered", z3.If(req.is_("Native"),
            z3.And(strat.is_("ReduceEthAmount"), strat.as_("ReduceEthAmount", "withdrawal_amount") == req.as_("Native").withdrawal_amount),
            z3.And(strat.is_("GuaranteeEthAmount"), strat.as_("GuaranteeEthAmount", "allowed_max_transaction_fee") == req.as_("Erc20").max_transaction_fee))),
    ] + frame(w0, w1, P, "next_nonce", "created_tx", "processed_withdrawal_requests", "maybe_reimburse") + post(c, g1)


def others(m0, m1, b, n):
    k, x = z3.Const("k?o", m0.by_alt_key.z.sort().domain()), z3.Const("n?o", m0.by_key.z.sort().domain())
    return z3.And(z3.ForAll([k], z3.Implies(k != b, m1.by_alt_key.get(k) == m0.by_alt_key.get(k))),
                  z3.ForAll([x], z3.Implies(x != n, m1.by_key.get(x) == m0.by_key.get(x))))


def signed(c):
    w0, w1, st = c.a(0), c.f(0), c.a(1)
    tx = st.inner.transaction
    g = Ghost(w0)
    n = tx.nonce.z
    b = S(g.burn_of, n)
    c0, c1, s0, s1 = w0.created_tx, w1.created_tx, w0.sent_tx, w1.sent_tx
    l0, l1 = s0.by_alt_key.val(b), s1.by_alt_key.val(b)
    i = z3.Int("i?s")
    was = s0.by_alt_key.has(b)
    return [
        ("only the created transaction is sent", z3.And(c0.by_key.has(n), c0.by_alt_key.val(b).transaction == tx)),
        ("leaves created", z3.And(z3.Not(c1.by_key.has(n)), z3.Not(c1.by_alt_key.has(b)))),
        ("other created untouched", others(c0, c1, b, n)),
        ("other sent untouched", others(s0, s1, b, n)),
        ("sent under the same nonce and index", z3.And(s1.by_key.has(n), s1.by_key.val(n).z == b, s1.by_alt_key.has(b))),
        ("appended as the latest", z3.And(l1.len == z3.If(was, l0.len, 0) + 1, l1.at(l1.len - 1).transaction == st,
                                          l1.at(l1.len - 1).resubmission == c0.by_alt_key.val(b).resubmission)),
        ("earlier submissions kept", z3.Implies(was, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l0.len), l1.at(i).z == l0.at(i).z)))),
    ] + frame(w0, w1, "created_tx", "sent_tx") + post(c)


def resub(c):
    w0, w1, tx = c.a(0), c.f(0), c.a(1)
    g = Ghost(w0)
    n = tx.nonce.z
    b = S(g.burn_of, n)
    c0, c1, s0 = w0.created_tx, w1.created_tx, w0.sent_tx
    l = s0.by_alt_key.val(b)
    lastt = l.at(l.len - 1)
    old = lastt.transaction.inner.transaction
    new = c1.by_alt_key.val(b)
    out = [("only for a sent transaction", s0.by_key.has(n))]
    for f in ("chain_id", "nonce", "gas_limit", "destination", "data", "access_list"):
        out.append((f"same {f}", old.f(f) == tx.f(f)))
    return out + [
        ("replacement waits under the same nonce and index", z3.And(c1.by_key.has(n), c1.by_key.val(n).z == b, c1.by_alt_key.has(b), new.transaction == tx)),
        ("same fee budget", new.resubmission == lastt.resubmission),
        ("other created untouched", others(c0, c1, b, n)),
    ] + frame(w0, w1, "created_tx") + post(c)


def finalized(c):
    w0, w1, b, rc = c.a(0), c.f(0), c.a("ledger_burn_index"), c.a("receipt")
    g = Ghost(w0)
    n = S(g.nonce_of, b.z)
    c0, c1, s0, s1, f0, f1 = (x.f(y) for y in STAGES for x in (w0, w1))
    l0 = s0.by_alt_key.val(b)
    i = z3.Int("i?f")
    f = f1.by_alt_key.val(b)
    return [
        ("was sent", s0.by_alt_key.has(b)),
        ("leaves in flight", z3.And(*[z3.And(z3.Not(m.by_alt_key.has(b)), z3.Not(m.by_key.has(n))) for m in (c1, s1)])),
        ("finalized under the same nonce and index", z3.And(f1.by_key.has(n), f1.by_key.val(n) == b, f1.by_alt_key.has(b))),
        ("finalizes one of the submitted transactions", z3.Exists([i], z3.And(0 <= i, i < l0.len, l0.at(i).transaction.z == f.transaction.z))),
        ("with the given receipt", f.receipt == rc),
        ("other created untouched", others(c0, c1, b.z, n)),
        ("other sent untouched", others(s0, s1, b.z, n)),
        ("other finalized untouched", others(f0, f1, b.z, n)),
    ] + frame(w0, w1, *STAGES, "maybe_reimburse", "reimbursement_requests") + post(c)


units = [Unit(f"{WT}::record_withdrawal_request", name=f"{WT}::record_withdrawal_request<{t[1].split('::')[-1]}>", tenv={"R": t},
              requires=pre, ensures=record, traps=dup) for t in (REQ, NREQ, EREQ)]
units += [
    Unit(f"{WT}::reschedule_withdrawal_request", tenv={"R": REQ}, requires=pre, ensures=resched),
    Unit(f"{WT}::record_created_transaction", requires=pre, ensures=created),
    Unit(f"{WT}::record_signed_transaction", requires=pre, ensures=signed),
    Unit(f"{WT}::record_resubmit_transaction", requires=pre, ensures=resub),
    Unit(f"{WT}::record_finalized_transaction", requires=pre, ensures=finalized),
]
