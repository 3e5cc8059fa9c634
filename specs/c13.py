"""C13: guards."""
from specs.wtx import *
from specs.common import *

PR = {"PR": ("adt", "guard::PendingWithdrawalRequests", ())}
MAXC, MAXP = 100, 100


def g_new(c):
    s0, s1, p = c.g0, c.g, c.a(0).z
    m0, m1 = s0.pending_withdrawal_principals, s1.pending_withdrawal_principals
    ok = c.ret.is_("Ok")
    x = z3.Const("x?", m0.z.sort().domain())
    queued = s0.withdrawal_transactions.pending_withdrawal_requests.len
    card = c.eng.uf(f"maplen[{m0.z.sort()}]", m0.z.sort(), z3.IntSort())
    e = c.ret.as_("Err")
    return [("granted only to a caller that holds none", z3.Implies(ok, z3.Not(m0.has(p)))),
            ("never more than the maximum", z3.Implies(card(m0.z) <= MAXC, card(m1.z) <= MAXC)),
            ("granted only while fewer than the maximum hold one", z3.Implies(ok, card(m0.z) < MAXC)),
            ("never more than the maximum", z3.Implies(card(m0.z) <= MAXC, card(m1.z) <= MAXC)),
            ("granted only while few are queued", z3.Implies(ok, queued < MAXP)),
            ("the guard is the caller's", z3.Implies(ok, c.ret.as_("Ok").principal.z == p)),
            ("the caller now holds it", z3.Implies(ok, m1.has(p))),
            ("nobody else's entry changes", z3.ForAll([x], z3.Implies(x != p, m1.has(x) == m0.has(x)))),
            ("a refusal changes nothing", z3.Implies(z3.Not(ok), m1.has(p) == m0.has(p))),
            ("refused only for a reason", z3.Or(ok, m0.has(p), card(m0.z) >= MAXC, queued >= MAXP)),
            ("reason: held already", z3.Implies(z3.And(z3.Not(ok), e.is_("AlreadyProcessing")), m0.has(p))),
            ("reason: too many", z3.Implies(z3.And(z3.Not(ok), e.is_("TooManyConcurrentRequests")), card(m0.z) >= MAXC)),
            ("reason: too many queued", z3.Implies(z3.And(z3.Not(ok), e.is_("TooManyPendingRequests")), queued >= MAXP))] + frame(s0, s1, "pending_withdrawal_principals")


def g_drop(c):
    s0, s1, p = c.g0, c.g, c.a(0).principal.z
    m0, m1 = s0.pending_withdrawal_principals, s1.pending_withdrawal_principals
    x = z3.Const("x?", m0.z.sort().domain())
    card = c.eng.uf(f"maplen[{m0.z.sort()}]", m0.z.sort(), z3.IntSort())
    return [("released", z3.Not(m1.has(p))), ("makes room", z3.Implies(m0.has(p), card(m1.z) == card(m0.z) - 1)), ("nobody else's entry changes", z3.ForAll([x], z3.Implies(x != p, m1.has(x) == m0.has(x))))] + frame(s0, s1, "pending_withdrawal_principals")


def t_new(c):
    s0, s1, p = c.g0, c.g, c.a(0).z
    m0, m1 = s0.active_tasks, s1.active_tasks
    ok = c.ret.is_("Ok")
    x = z3.Const("x?", m0.z.sort().domain())
    return [("granted exactly when the task is not running", ok == z3.Not(m0.has(p))), ("running from now on", m1.has(p)), ("the guard is the task's", z3.Implies(ok, c.ret.as_("Ok").task.z == p)),
            ("other tasks untouched", z3.ForAll([x], z3.Implies(x != p, m1.has(x) == m0.has(x))))] + frame(s0, s1, "active_tasks")


def t_drop(c):
    s0, s1, p = c.g0, c.g, c.a(0).task.z
    m0, m1 = s0.active_tasks, s1.active_tasks
    x = z3.Const("x?", m0.z.sort().domain())
    return [("ended", z3.Not(m1.has(p))), ("other tasks untouched", z3.ForAll([x], z3.Implies(x != p, m1.has(x) == m0.has(x))))] + frame(s0, s1, "active_tasks")


units = [
    Unit("guard::Guard::new", ensures=g_new, gstate=True, tenv=PR, traps="never"),
    Unit("guard::retrieve_withdraw_guard", ensures=g_new, gstate=True, traps="never"),
    Unit("<Guard as Drop>::drop", ensures=g_drop, gstate=True, tenv=PR, traps="never"),
    Unit("guard::TimerGuard::new", ensures=t_new, gstate=True, traps="never"),
    Unit("<TimerGuard as Drop>::drop", ensures=t_drop, gstate=True, traps="never"),
]
