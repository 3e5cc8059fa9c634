"""C02: two-key maps keep both keys unique and in step."""
import z3
from mirv.spec import Unit, W
from mirv.values import *
from specs.common import forall

K, A, V = ("param", "Key"), ("param", "AltKey"), ("param", "V")
MK, DK = "map::MultiKeyMap", "map::DedupMultiKeyMap"


class Inv:
    """representation invariant of a MultiKeyMap `m` (W view), with the witness inverse map"""

    def __init__(self, m, inv, kt=None):
        self.m, self.inv = m, inv
        e = m._e
        self.ks, self.as_ = e.S.sort(m._t[2][0]), e.S.sort(m._t[2][1])

    def facts(self):
        m, inv = self.m, self.inv
        k, a = z3.Const("k!", self.ks), z3.Const("a!", self.as_)
        bk, ba = m.by_key, m.by_alt_key
        S = z3.Select
        return [forall([k], z3.Implies(bk.has(k), z3.And(ba.has(bk.val(k).z), S(inv, bk.val(k).z) == k)), S(bk.z, k)),
                forall([a], z3.Implies(ba.has(a), z3.And(bk.has(S(inv, a)), bk.val(S(inv, a)).z == a)), S(ba.z, a))]


def inv0(c, m):
    e = c.eng
    ks, as_ = e.S.sort(m._t[2][0]), e.S.sort(m._t[2][1])
    return z3.Const("inv!", z3.ArraySort(as_, ks))


def mk(c, i=0, post=False):
    m = (c.f if post else c.a)(i)
    return m.f("map") if m._t[1].endswith("DedupMultiKeyMap") else m


def req(c):
    m = mk(c)
    fs = Inv(m, inv0(c, m)).facts()
    if c.a(0)._t[1].endswith("DedupMultiKeyMap"):
        a = z3.Const("a!", c.eng.S.sort(m._t[2][1]))
        ba, bk = m.by_alt_key, m.by_key
        fs.append(forall([a], z3.Implies(ba.has(a), z3.And(bk.has(ba.val(a)[0].z), bk.val(ba.val(a)[0].z).z == a)), z3.Select(ba.z, a)))
    return fs


def dedup_ok(c, m):
    a = z3.Const("a!", c.eng.S.sort(m._t[2][1]))
    ba, bk = m.by_alt_key, m.by_key
    return forall([a], z3.Implies(ba.has(a), z3.And(bk.has(ba.val(a)[0].z), bk.val(ba.val(a)[0].z).z == a)), z3.Select(ba.z, a))


def val_of(c, w):
    """stored value: second component for the Dedup map"""
    return w[1] if c.a(0)._t[1].endswith("DedupMultiKeyMap") else w


def insert(c):
    m0, m1 = mk(c), mk(c, post=True)
    key, alt, v = c.a(1), c.a(2), c.a(3)
    free = z3.And(z3.Not(m0.by_key.has(key)), z3.Not(m0.by_alt_key.has(alt)))
    inv1 = z3.If(free, z3.Store(inv0(c, m0), alt.z, key.z), inv0(c, m0))
    k, a = z3.Const("k?", key.z.sort()), z3.Const("a?", alt.z.sort())
    err = c.ret.as_("Err")
    ok = err.occupied_key
    out = [
        ("ok iff both keys free", c.ret.is_("Ok") == free),
        ("refused: map unchanged", z3.Implies(c.ret.is_("Err"), z3.And(m1.by_key == m0.by_key, m1.by_alt_key == m0.by_alt_key))),
        ("refused: names the offending key", z3.Implies(c.ret.is_("Err"), z3.If(ok.is_("Key"), z3.And(ok.as_("Key") == key, m0.by_key.has(key)),
                                                                                z3.And(ok.as_("AltKey") == alt, m0.by_alt_key.has(alt))))),
        ("refused: value handed back", z3.Implies(c.ret.is_("Err"), err.value == v)),
        ("stored under both keys", z3.Implies(c.ret.is_("Ok"), z3.And(m1.by_key.has(key), m1.by_key.val(key) == alt, m1.by_alt_key.has(alt), val_of(c, m1.by_alt_key.val(alt)) == v))),
        ("other primary keys untouched", forall([k], z3.Implies(k != key.z, m1.by_key.get(k) == m0.by_key.get(k)))),
        ("other alternative keys untouched", forall([a], z3.Implies(a != alt.z, m1.by_alt_key.get(a) == m0.by_alt_key.get(a)))),
    ]
    out += [(f"keys stay in step ({i})", f) for i, f in enumerate(Inv(m1, inv1).facts())]
    if c.a(0)._t[1].endswith("DedupMultiKeyMap"):
        out.append(("stored primary key matches", dedup_ok(c, m1)))
    return out


def lookup(c):
    m = mk(c)
    k = c.a(1)
    hit = m.by_key.has(k)
    return [("found iff present", c.ret.is_("Some") == hit),
            ("the value stored under that key", z3.Implies(hit, c.ret.as_("Some") == val_of(c, m.by_alt_key.val(m.by_key.val(k)))))]


def lookup_entry(c):
    m = mk(c)
    k = c.a(1)
    hit = m.by_key.has(k)
    r = c.ret.as_("Some")
    return [("found iff present", c.ret.is_("Some") == hit),
            ("its alternative key and value", z3.Implies(hit, z3.And(r[0] == m.by_key.val(k), r[1] == val_of(c, m.by_alt_key.val(m.by_key.val(k))))))]


def lookup_alt(c):
    m = mk(c)
    a = c.a(1)
    hit = m.by_alt_key.has(a)
    return [("found iff present", c.ret.is_("Some") == hit),
            ("the value stored under that key", z3.Implies(hit, c.ret.as_("Some") == val_of(c, m.by_alt_key.val(a))))]


def lookup_entry_alt(c):
    m = mk(c)
    a = c.a(1)
    hit = m.by_alt_key.has(a)
    r = c.ret.as_("Some")
    return [("found iff present", c.ret.is_("Some") == hit),
            ("its primary key and value", z3.Implies(hit, z3.And(m.by_key.has(r[0]), m.by_key.val(r[0]) == a, r[1] == val_of(c, m.by_alt_key.val(a)))))]


def remove(c):
    m0, m1 = mk(c), mk(c, post=True)
    key = c.a(1)
    hit = m0.by_key.has(key)
    alt = m0.by_key.val(key)
    r = c.ret.as_("Some")
    k, a = z3.Const("k?", key.z.sort()), z3.Const("a?", alt.z.sort())
    return [
        ("removed iff present", c.ret.is_("Some") == hit),
        ("returns exactly the entry", z3.Implies(hit, z3.And(r[0] == key, r[1] == alt, r[2] == m0.by_alt_key.val(alt)))),
        ("entry is gone under both keys", z3.Implies(hit, z3.And(z3.Not(m1.by_key.has(key)), z3.Not(m1.by_alt_key.has(alt))))),
        ("other primary keys untouched", forall([k], z3.Implies(k != key.z, m1.by_key.get(k) == m0.by_key.get(k)))),
        ("other alternative keys untouched", forall([a], z3.Implies(z3.Or(a != alt.z, z3.Not(hit)), m1.by_alt_key.get(a) == m0.by_alt_key.get(a)))),
    ] + [(f"keys stay in step ({i})", f) for i, f in enumerate(Inv(m1, inv0(c, m0)).facts())]


QK, QA = {"Q": K}, {"Q": A}
units = []
for T in (MK, DK):
    units += [
        Unit(f"{T}::try_insert", requires=req, ensures=insert, traps="never"),
        Unit(f"{T}::get", requires=req, ensures=lookup, traps="never", tenv=QK),
        Unit(f"{T}::get_alt", requires=req, ensures=lookup_alt, traps="never", tenv=QA),
        Unit(f"{T}::get_entry", requires=req, ensures=lookup_entry, traps="never", tenv=QK),
        Unit(f"{T}::contains_alt", requires=req, ensures=lambda c: [("present", c.ret.z == mk(c).by_alt_key.has(c.a(1)))], traps="never", tenv=QA),
    ]
units += [
    Unit(f"{MK}::contains", requires=req, ensures=lambda c: [("present", c.ret.z == mk(c).by_key.has(c.a(1)))], traps="never", tenv=QK),
    Unit(f"{MK}::get_mut", requires=req, ensures=lookup, traps="never", tenv=QK),
    Unit(f"{MK}::remove_entry", requires=req, ensures=remove, traps="never", tenv=QK),
    Unit(f"{DK}::get_entry_alt", requires=req, ensures=lookup_entry_alt, traps="never", tenv=QA),
]
