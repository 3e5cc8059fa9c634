"""WithdrawalTransactions: the invariant shared by C03, C05, C06, C16."""
import z3
from mirv.spec import Unit, W
from mirv.values import *
from specs.common import *

WT = "state::transactions::WithdrawalTransactions"
REQ = ("adt", "state::transactions::WithdrawalRequest", ())
NREQ = ("adt", "state::transactions::NativeWithdrawalRequest", ())
EREQ = ("adt", "state::transactions::Erc20WithdrawalRequest", ())
STAGES = ("created_tx", "sent_tx", "finalized_tx")
S = z3.Select


def burn(r):
    """native ledger burn index of a WithdrawalRequest view"""
    return z3.If(r.is_("Native"), r.as_("Native").ledger_burn_index.z, r.as_("Erc20").native_ledger_burn_index.z)


def as_req(w):
    return w


class Ghost:
    """nonce <-> burn index assignment common to all stages"""

    def __init__(self, w):
        m = w.created_tx
        self.ns, self.bs = w._e.S.sort(m._t[2][0]), w._e.S.sort(m._t[2][1])
        self.nonce_of = z3.Const("nonce_of!", z3.ArraySort(self.bs, self.ns))
        self.burn_of = z3.Const("burn_of!", z3.ArraySort(self.ns, self.bs))

    def add(self, cond, b, n):
        g = object.__new__(Ghost)
        g.ns, g.bs = self.ns, self.bs
        g.nonce_of = z3.If(cond, z3.Store(self.nonce_of, b, n), self.nonce_of)
        g.burn_of = z3.If(cond, z3.Store(self.burn_of, n, b), self.burn_of)
        return g


def tx_nonce(stage, v):
    """nonce inside what a stage stores (first element for the sent list)"""
    if stage == "created_tx":
        return v.transaction.nonce.z
    if stage == "finalized_tx":
        return v.transaction.inner.transaction.nonce.z
    return v.transaction.inner.transaction.nonce.z


def inv(w, g):
    """[(name, formula)]"""
    out = []
    n, b = z3.Const("n!", g.ns), z3.Const("b!", g.bs)
    i, j = z3.Ints("i! j!")
    num = lambda x: x if z3.is_int(x) else x.sort().accessor(0, 0)(x)       # noqa
    nxt = w.next_nonce.z
    p = w.pending_withdrawal_requests
    for s in STAGES:
        m = w.f(s)
        bk, ba = m.by_key, m.by_alt_key
        out.append((f"{s}: each nonce belongs to one withdrawal, below the next nonce", forall([n], z3.Implies(bk.has(n), z3.And(
            bk.val(n).z == S(g.burn_of, n), S(g.nonce_of, S(g.burn_of, n)) == n, ba.has(S(g.burn_of, n)), num(n) < num(nxt))), S(bk.z, n))))
        out.append((f"{s}: each withdrawal has one nonce", forall([b], z3.Implies(ba.has(b), z3.And(
            bk.has(S(g.nonce_of, b)), S(g.burn_of, S(g.nonce_of, b)) == b)), S(ba.z, b))))
    c, s_, f = (w.f(x).by_alt_key for x in STAGES)
    pr, mr = w.processed_withdrawal_requests, w.maybe_reimburse
    out.append(("finalized excludes in flight", forall([b], z3.Implies(f.has(b), z3.And(z3.Not(c.has(b)), z3.Not(s_.has(b)))), S(f.z, b))))
    out.append(("processed = in flight or finalized", forall([b], pr.has(b) == z3.Or(c.has(b), s_.has(b), f.has(b)), S(pr.z, b))))
    out.append(("processed request carries its index", forall([b], z3.Implies(pr.has(b), burn(pr.val(b)) == b), S(pr.z, b))))
    out.append(("may be reimbursed = in flight", forall([b], mr.has(b) == z3.Or(c.has(b), s_.has(b)), S(mr.z, b))))
    out.append(("queued requests are distinct", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < p.len), burn(p.at(i)) != burn(p.at(j))))))
    out.append(("queued excludes processed", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.len), z3.Not(pr.has(burn(p.at(i))))))))
    out.append(("created transaction carries its nonce", forall([b], z3.Implies(c.has(b), c.val(b).transaction.nonce.z == S(g.nonce_of, b)), S(c.z, b))))
    lst = s_.val(b)
    out.append(("sent transactions carry their nonce", forall([b], z3.Implies(s_.has(b), z3.And(lst.len > 0, z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < lst.len), lst.at(i).transaction.inner.transaction.nonce.z == S(g.nonce_of, b))))), S(s_.z, b))))
    return out


def pre(c, who=0):
    w = c.a(who)
    return [f for _, f in inv(w, Ghost(w))]


def post(c, g=None, who=0):
    w = c.f(who)
    return inv(w, g or Ghost(c.a(who)))
