"""Symbolic execution of MIR against contracts; every obligation goes to z3."""
import re
import os, time
import z3

from .rtypes import INTS, P, ParseError, balanced, last, parse_generics, parse_path_type, parse_type, show, subst, ty, unify
from .mirparse import parse_const, parse_place, split_commas
from .srcdefs import parse_impl
from .values import *   # noqa

TRAP, RET = "trap", "ret"


class St:
    __slots__ = ("cells", "pc", "facts", "ghost", "notes")

    def __init__(self):
        self.cells, self.pc, self.facts, self.ghost, self.notes = {}, [], [], {}, ()

    def fork(self):
        s = St()
        s.cells, s.pc, s.facts, s.ghost, s.notes = dict(self.cells), list(self.pc), list(self.facts), dict(self.ghost), self.notes
        return s


class Frame:
    __slots__ = ("id", "body", "tenv", "depth", "ltys")

    def __init__(self, id, body, tenv, depth):
        self.id, self.body, self.tenv, self.depth = id, body, tenv, depth
        self.ltys = {}

    def lty(self, n):
        t = self.ltys.get(n)
        if t is None:
            t = self.ltys[n] = subst(self.body.locals[n], self.tenv)
        return t


class Callee:
    __slots__ = ("text", "name", "selfty", "trait", "method", "generics", "segs", "tyargs")

    def __repr__(self):
        return f"Callee({self.name})"


class Call:
    __slots__ = ("eng", "st", "fr", "callee", "args", "argtys", "ret")

    def __init__(self, eng, st, fr, callee, args, argtys, ret):
        self.eng, self.st, self.fr, self.callee, self.args, self.argtys, self.ret = eng, st, fr, callee, args, argtys, ret


def simp(e):
    return z3.simplify(e) if isinstance(e, z3.ExprRef) else e


def is_true(e):
    return z3.is_true(e)


_ae = {}


def ae_fact(e):
    """does the fact say of everything that something exists?"""
    k = e.get_id()
    r = _ae.get(k)
    if r is None:
        r = _ae[k] = (e, _ae_walk(e, False, True))
    return r[1]


def _ae_walk(e, under, pos):
    if z3.is_quantifier(e):
        univ = e.is_forall() == pos
        if not univ and under:
            return True
        return _ae_walk(e.body(), under or univ, pos)
    if z3.is_not(e):
        return _ae_walk(e.arg(0), under, not pos)
    if z3.is_implies(e):
        return _ae_walk(e.arg(0), under, not pos) or _ae_walk(e.arg(1), under, pos)
    if z3.is_bool(e) and has_quant(e):
        return any(_ae_walk(c, under, pos) for c in e.children())
    return False


def has_quant(e, memo={}):
    k = e.get_id()
    if k in memo and memo[k][0].eq(e):
        return memo[k][1]
    r = z3.is_quantifier(e) or any(has_quant(c) for c in e.children())
    memo[k] = (e, r)
    return r


class Obligation:
    __slots__ = ("unit", "name", "result", "seconds", "detail", "path")

    def __init__(self, unit, name, result, seconds, detail=""):
        self.unit, self.name, self.result, self.seconds, self.detail = unit, name, result, seconds, detail


class LoopMark:
    """stands for the calls made by any number of loop iterations"""
    name = "?loop"


class NoMerge(Exception):
    pass


def local_nums(x, out=None):
    """numbers of the locals inside parsed statements (places are parsed as tuples starting with the local's number)"""
    out = set() if out is None else out
    if isinstance(x, (list, tuple)):
        if x and isinstance(x[0], int):
            out.add(x[0])
        for y in x:
            local_nums(y, out)
    elif hasattr(x, "local"):
        out.add(x.local)
    elif hasattr(x, "__dict__"):
        for y in vars(x).values():
            local_nums(y, out)
    return out


class Engine:
    def __init__(self, program, defs, extra_programs=()):
        from . import models
        self.prog, self.defs = program, defs
        self.S = Sorts(defs)
        self.nfresh = 0
        self.nframe = 0
        self.axioms = []            # global facts
        self.strlits = {}
        self.funcs_uf = {}
        self.models = models.MODELS
        self.trait_models = models.TRAIT_MODELS
        self.prefix_models = models.PREFIX_MODELS
        self.const_models = models.CONSTS
        self.used_models = {}
        self.inlined = {}
        self.unknown_calls = {}
        self.contracts = {}         # semantic name -> contract used at call sites
        self.loop_specs = {}
        self.obligations = []
        self.dry = 0
        self.unit = ""
        self.rlimit = 40_000_000
        self.feas_rlimit = 400_000
        self.solver_time = 0.0
        self.opaque_ok = None       # allow-list of unknown external callees
        self.trap_ok = True
        self.maxdepth = 60
        self.deadline = None
        self.merging = False
        self._index()

    # ------------------------------------------------------------------ indexing
    def _index(self):
        self.methods = {}
        self.consts = {}
        self.closures = {}
        self.coros = {}
        impl = {}
        seen = set()
        for b in self.prog.order:
            n = b.name
            if (b.kind, n, b.header) in seen:
                continue        # `const fn`s are printed twice
            seen.add((b.kind, n, b.header))
            if b.kind == "fn" and "{closure#" in n.rsplit("::", 1)[-1]:
                m = re.search(r"\(_1: (?:&(?:mut )?)?\{closure@([^}]*)\}", b.header)
                if m:
                    self.closures[m.group(1)] = b
                m = re.search(r"\(_1: (?:std::pin::Pin<&mut )?\{async (fn body of|block@|closure body of)", b.header)
                continue
            k = n.rfind("<impl at ")
            if k >= 0:
                e = n.index(">", k)
                loc = n[k + 9:e]
                rest = n[e + 1:].lstrip(":")
                if "::" in rest:
                    continue
                if loc not in impl:
                    impl[loc] = parse_impl(self.defs.impl_header(loc))
                tr, sh, trt, st, derived = impl[loc]
                ren = self.defs.renames(loc)
                tr, sh = ren.get(tr, tr), ren.get(sh, sh)
                mod = n[:k].rstrip(":")
                ent = (b, tr, sh, derived, mod)
                (self.methods if b.kind == "fn" else self.consts).setdefault(rest, []).append(ent)
            else:
                if b.kind == "const" and "promoted[" not in n:
                    self.consts.setdefault(n.split("::")[-1], []).append((b, None, None, False, n.rsplit("::", 1)[0]))

    def find(self, sem):
        """semantic name 'mod::Type::method', 'mod::func' or '<Type as Trait>::method' -> body"""
        m = re.match(r"<(.*) as (.*)>::(\w+)$", sem)
        if m:
            st, tr, meth = m.groups()
            targ = None
            k = tr.find("<")
            if k >= 0:
                tr, targ = tr[:k], tr[k + 1:-1]
            c = [e for e in self.methods.get(meth, []) if e[1] == tr and e[2] == st]
            if len(c) > 1 and targ:
                def head(t):
                    t = self.strip_ref(t)
                    return last(t[1]) if t[0] in ("adt", "int", "param") else t[0]
                c = [e for e in c if head(e[0].parse().locals[e[0].args[0]]) == targ]
            if len(c) == 1:
                return c[0][0].parse()
            raise Unsupported(f"anchor lost: {sem} ({len(c)} candidates)")
        b = self.prog.get(sem)
        if b:
            return b
        segs = sem.split("::")
        c = [e for e in self.methods.get(segs[-1], []) if e[1] is None and e[2] == segs[-2]]
        if len(c) > 1:
            c2 = [e for e in c if e[4] == "::".join(segs[:-2])]
            c = c2 or c
        if len(c) == 1:
            return c[0][0].parse()
        c = [e for e in self.methods.get(segs[-1], []) if e[2] == segs[-2]]
        if len(c) == 1:
            return c[0][0].parse()
        raise Unsupported(f"anchor lost: {sem} ({len(c)} candidates)")

    # ------------------------------------------------------------------ values
    def uf(self, name, *sorts):
        key = (name, tuple(s.sexpr() if hasattr(s, "sexpr") else str(s) for s in sorts))
        f = self.funcs_uf.get(key)
        if f is None:
            f = self.funcs_uf[key] = z3.Function(name, *sorts)
        return f

    def const(self, sort, name="v"):
        self.nfresh += 1
        return z3.Const(f"{name}!{self.nfresh}", sort)

    def strlen_const(self, z):
        for s, c in self.strlits.items():
            if c.eq(z):
                return len(s.encode())
        return None

    def strlit(self, s):
        if s not in self.strlits:
            c = z3.Const(f"str:{s[:40]!r}:{len(self.strlits)}", self.S.usort("Str"))
            f = self.uf("str_id", self.S.usort("Str"), z3.IntSort())
            self.axioms.append(f(c) == len(self.strlits))
            self.strlits[s] = c
        return self.strlits[s]

    def wf(self, t, v, depth=4):
        """list of z3 facts true of every value of Rust type t"""
        t = self.S.norm(t)
        if not isinstance(v, z3.ExprRef):
            return []
        if t[0] in ("int", "char"):
            lo, hi = INTS[t[1] if t[0] == "int" else "char"]
            return [v >= lo, v <= hi]
        if t[0] == "adt" and t[1] in UINTS:
            m = UINTS[t[1]]
            return [v >= 0] + ([v <= m] if m is not None else [])
        if self.S.is_seq_type(t):
            s = self.S.sort(t)
            ln = s.accessor(0, 0)(v)
            if t[0] == "array" and isinstance(t[2], int):
                return [ln == t[2]]
            return [ln >= 0, ln <= 2**40]
        if depth <= 0:
            return []
        s = self.S.sort(t)
        if s in self.S.dt:
            out = []
            _, ctors = self.S.dt[s]
            for c, r, accs, ftys in ctors:
                fs = []
                for a, ft in zip(accs, ftys):
                    fs += self.wf(ft, a(v), depth - 1)
                if fs:
                    g = r(v)
                    out += fs if len(ctors) == 1 else [z3.Implies(g, z3.And(fs))]
            return out
        return []

    def fresh(self, st, t, name="v"):
        if t[0] == "ref" and t[1]:
            cell = self.newcell(st, self.fresh(st, t[2], name))
            return MRef(cell)
        n = self.S.norm(t)
        if n[0] in ("closure", "coroutine", "fndef"):
            raise Unsupported("fresh " + show(n))
        d = self.S.adt_def(n)
        if d is not None and len(d) == 1 and (n[0] == "tuple" or d[0][0] is None):
            return Agg(n, None, [self.fresh(st, ft, f"{name}.{fn}") for fn, ft in d[0][2]])
        c = self.const(self.S.sort(n), name)
        st.facts += self.wf(n, c)
        return c

    def newcell(self, st, v):
        self.nframe += 1
        cell = ("h", self.nframe)
        st.cells[cell] = v
        return cell

    def z(self, v, t, st=None):
        """value -> z3 term of sort(t)"""
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Agg):
            n = self.S.norm(v.ty)
            s = self.S.sort(n)
            if s not in self.S.dt:
                return self.zext(v, s, st)
            _, ctors = self.S.dt[s]
            c, r, accs, ftys = ctors[v.var or 0]
            if len(ftys) == 0:
                return c()
            # the target type's own field types where given
            return c(*[self.z(x, ft, st) for x, ft in zip(v.f, ftys)])
        if isinstance(v, Lst):
            s = self.S.seq_sort(v.elem)
            es = self.S.sort(v.elem)
            a = z3.K(z3.IntSort(), self.default_elem(es))
            for i, x in enumerate(v.items):
                a = z3.Store(a, i, self.z(x, v.elem, st))
            return s.constructor(0)(z3.IntVal(len(v.items)), a)
        if isinstance(v, MRef):
            if st is None:
                raise Unsupported("MRef to z3")
            tt = t[2] if t[0] == "ref" else t
            return self.z(self.read(st, v.cell, v.projs), tt, st)
        if isinstance(v, Opaque):
            return self.const(self.S.sort(t), "opq")
        if isinstance(v, Discr):
            return self.discr_int(v)
        if isinstance(v, Iter):
            raise Unsupported("iterator stored in data")
        raise Unsupported(f"to z3: {type(v).__name__} as {show(t)[:80]}")

    def zext(self, v, s, st):
        """aggregate of a type whose definition is not known: constructor as an uninterpreted function"""
        if s == z3.IntSort() and len(v.f) == 1 and v.ty[0] == "adt" and v.ty[1] in UINTS:
            return self.z(v.f[0], ("adt", "num_bigint::BigUint", ()), st)
        zs = []
        for x in v.f:
            if isinstance(x, Opaque):
                return self.const(s, "ext")
            tt = x.ty if isinstance(x, Agg) else ("slice", x.elem) if isinstance(x, Lst) else ("int", "u8")
            zs.append(self.z(x, tt, st))
        f = self.uf(f"ctor[{s.name()}#{v.var}]", *[x.sort() for x in zs], s)
        e = f(*zs) if zs else z3.Const(f"ctor[{s.name()}#{v.var}]", s)
        facts = []
        for i, x in enumerate(zs):
            g = self.uf(f"fld[{s.name()}#{v.var if isinstance(v.var, str) else ''}#{i}]", s, x.sort())
            facts.append(g(e) == x)
        if isinstance(v.var, str):
            facts.append(self.uf(f"var[{s.name()}]", s, z3.IntSort())(e) == self.variant_id(s.name(), v.var))
        if st is not None:
            st.facts += facts
        else:
            self.axioms += facts
        return e

    def variant_id(self, sname, var):
        d = self.ext_variants(sname)
        if d and var in d:
            return d.index(var)
        return 1000 + (sum(ord(c) * 31 ** i for i, c in enumerate(var)) % 100000)

    def ext_variants(self, sname):
        from . import models
        p = sname[2:].split("<")[0]
        return models.EXT_VARIANTS.get(p)

    def default_elem(self, es):
        return z3.Const(f"dflt[{es}]", es)

    def fields(self, v, t, st=None):
        """expand a struct/tuple value to an Agg"""
        if isinstance(v, Agg):
            return v
        s = v.sort()
        tt, ctors = self.S.dt[s]
        return Agg(tt, None, [a(v) for a in ctors[0][2]])

    def proj_field(self, st, v, i, fty, var=None):
        """field i of value v (variant name var for enums)"""
        if isinstance(v, Agg):
            if i < len(v.f):
                return v.f[i]
            raise Unsupported(f"field {i} of {v!r:.80}")
        if isinstance(v, Clo):
            return v.caps[i]
        if isinstance(v, (MRef, Opaque)):
            return v        # box/pin/unique internals
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            if s in self.S.dt:
                tt, ctors = self.S.dt[s]
                k = 0
                if var is not None:
                    k = self.variant_index(tt, var)
                _, _, accs, ftys = ctors[k]
                r = self.acc(accs[i], v)
                st.facts += self.wf(ftys[i], r, 2)
                return r
            if s in self.S.seq:
                raise Unsupported("field of sequence")
            if z3.is_int(v) or z3.is_bool(v):
                return v    # transparent newtype internals
            g = self.uf(f"fld[{s.name()}#{var or ''}#{i}]", s, self.S.sort(fty))
            r = g(v)
            st.facts += self.wf(fty, r, 2)
            return r
        if v is None:
            raise Unsupported("read of uninitialised field")
        raise Unsupported(f"field of {type(v).__name__}")

    def acc(self, a, v):
        """accessor application with constructor/ite short cut"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            e = z3.simplify(a(v))
            return e
        return a(v)

    def variant_index(self, t, name):
        d = self.S.adt_def(self.S.norm(t))
        for i, (n, _, _) in enumerate(d):
            if n == name:
                return i
        raise Unsupported(f"variant {name} of {show(t)[:60]}")

    def is_variant(self, v, t, name):
        """z3 Bool"""
        if isinstance(v, Agg):
            n = self.S.norm(v.ty)
            d = self.S.adt_def(n)
            if d is None:
                return z3.BoolVal(v.var == name)
            return z3.BoolVal(d[v.var or 0][0] == name)
        s = v.sort()
        if s in self.S.dt:
            tt, ctors = self.S.dt[s]
            return simp_recog(ctors[self.variant_index(tt, name)][1], v)
        return self.uf(f"var[{s.name()}]", s, z3.IntSort())(v) == self.variant_id(s.name(), name)

    def discr_int(self, d):
        v = d.v
        if isinstance(v, Agg):
            df = self.S.adt_def(self.S.norm(v.ty))
            if df is None:
                return z3.IntVal(self.variant_id(self.S.sort(self.S.norm(v.ty)).name(), v.var))
            return z3.IntVal(df[v.var or 0][1])
        s = v.sort()
        if s in self.S.dt:
            tt, ctors = self.S.dt[s]
            df = self.S.adt_def(tt)
            e = z3.IntVal(df[-1][1])
            for (n, dis, _), c in list(zip(df, ctors))[-2::-1]:
                e = z3.If(simp_recog(c[1], v), z3.IntVal(dis), e)
            return e
        return self.uf(f"var[{s.name()}]", s, z3.IntSort())(v)

    def mk(self, t, var, *f):
        """build an enum/struct Agg by variant name"""
        n = self.S.norm(t)
        if var is None:
            return Agg(n, None, f)
        d = self.S.adt_def(n)
        if d is None:
            return Agg(n, var, f)
        for i, (vn, _, _) in enumerate(d):
            if vn == var:
                return Agg(n, i, f)
        raise Unsupported(f"variant {var}")

    def some(self, t, v):
        return Agg(("adt", OPT, (t,)), 1, [v])

    def none(self, t):
        return Agg(("adt", OPT, (t,)), 0, [])

    def eq(self, a, b, t, st=None):
        if isinstance(a, MRef):
            a = self.read(st, a.cell, a.projs)
        if isinstance(b, MRef):
            b = self.read(st, b.cell, b.projs)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if (a.var or 0) != (b.var or 0):
                return z3.BoolVal(False)
            if a.f or a.var == b.var:
                n = self.S.norm(a.ty)
                d = self.S.adt_def(n)
                if d is not None:
                    fts = [ft for _, ft in d[a.var or 0][2]]
                    cs = [self.eq(x, y, ft, st) for x, y, ft in zip(a.f, b.f, fts)]
                    return z3.And(cs) if cs else z3.BoolVal(True)
        if isinstance(a, Lst) and isinstance(b, Lst):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And([self.eq(x, y, a.elem, st) for x, y in zip(a.items, b.items)] + [z3.BoolVal(True)])
        if (isinstance(a, Agg) and isinstance(b, z3.ExprRef)) or (isinstance(b, Agg) and isinstance(a, z3.ExprRef)):
            ag, zz = (a, b) if isinstance(a, Agg) else (b, a)
            if zz.sort() in self.S.dt:
                tt, ctors = self.S.dt[zz.sort()]
                c, r, accs, ftys = ctors[ag.var or 0]
                cs = [] if len(ctors) == 1 else [simp_recog(r, zz)]
                cs += [self.eq(self.acc(ac, zz), x, ft, st) for ac, x, ft in zip(accs, ag.f, ftys)]
                return z3.And(cs + [z3.BoolVal(True)])
        if isinstance(b, Lst) and not isinstance(a, Lst):
            a, b = b, a
        if isinstance(a, Lst) and isinstance(b, z3.ExprRef) and b.sort() in self.S.seq and len(a.items) <= 64:
            # elementwise: what lies beyond the length does not count
            cs = [self.seq_len(b) == len(a.items)]
            arr = self.seq_arr(b, st)
            return z3.And(cs + [self.eq(x, z3.Select(arr, i), a.elem, st) for i, x in enumerate(a.items)])
        za, zb = self.z(a, t, st), self.z(b, t, st)
        return za == zb

    # sequences ---------------------------------------------------------
    def deref(self, st, v):
        while isinstance(v, MRef):
            v = self.read(st, v.cell, v.projs)
        return v

    def seq_len(self, v):
        if isinstance(v, Lst):
            return z3.IntVal(len(v.items))
        if isinstance(v, z3.ExprRef) and v.sort() in self.S.seq:
            return self.acc(v.sort().accessor(0, 0), v)
        raise Unsupported(f"len of {v!r:.60}")

    def seq_arr(self, v, st=None):
        if isinstance(v, Lst):
            v = self.z(v, ("slice", v.elem), st)
        return self.acc(v.sort().accessor(0, 1), v)

    def seq_elem(self, v, et=None):
        if isinstance(v, Lst):
            return v.elem
        return self.S.seq[v.sort()]

    def seq_at(self, st, v, i, et=None):
        if isinstance(v, Lst):
            i = simp(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(v.items):
                    return v.items[k]
        et = et or self.seq_elem(v)
        r = z3.Select(self.seq_arr(v, st), i)
        st.facts += self.wf(et, r, 2)
        return r

    def seq_mk(self, et, n, arr):
        s = self.S.seq_sort(et)
        return s.constructor(0)(n, arr)

    # places -----------------------------------------------------------
    def read(self, st, cell, projs):
        v = st.cells.get(cell)
        var = None
        for p in projs:
            if isinstance(v, MRef) and p[0] != "f0":
                v = self.read(st, v.cell, v.projs)
            k = p[0]
            if k == "f":
                v = self.proj_field(st, v, p[1], p[2], var)
                var = None
            elif k == "d":
                var = p[1]
            elif k == "i":
                v = self.seq_at(st, v, p[1], p[2])
            elif k == "m":
                v = self.map_val(st, v, p[1], p[2])
            elif k == "s":
                v = self.subslice(st, v, p[1], p[2])
            else:
                raise Unsupported("proj " + str(k))
        return v

    def map_val(self, st, m, key, vt):
        o = z3.Select(m, key)
        s = o.sort()
        r = self.acc(s.accessor(1, 0), z3.simplify(o) if False else o)
        st.facts += self.wf(vt, r, 2)
        return r

    def subslice(self, st, v, lo, hi):
        if isinstance(v, Lst):
            l, h = simp(lo), simp(hi)
            if z3.is_int_value(l) and z3.is_int_value(h):
                return Lst(v.elem, v.items[l.as_long():h.as_long()])
        et = self.seq_elem(v)
        arr = self.seq_arr(v, st)
        n = simp(hi - lo)
        if z3.is_int_value(n) and n.as_long() <= 64:
            return Lst(et, [self.seq_at(st, v, simp(lo + k), et) for k in range(n.as_long())])
        na = self.const(arr.sort(), "sub")
        i = z3.Int("i!s")
        if isinstance(v, Lst) and len(v.items) <= 64:
            st.facts += [z3.Implies(z3.And(lo <= k, k < hi), z3.Select(na, simp(k - lo)) == self.z(x, et, st)) for k, x in enumerate(v.items)]
            return self.seq_mk(et, n, na)
        if not z3.is_const(arr):
            named = self.const(arr.sort(), "arr")
            st.facts.append(named == arr)
            arr = named
        if et == ("int", "u8"):
            st.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), z3.Select(na, i - lo) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
        st.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(na, i) == z3.Select(arr, lo + i)),
                                  patterns=[z3.Select(na, i)]))
        return self.seq_mk(et, n, na)

    def write(self, st, cell, projs, v):
        if not projs:
            st.cells[cell] = v
            return
        st.cells[cell] = self.upd(st, st.cells.get(cell), list(projs), v)

    def upd(self, st, old, projs, v, t=None):
        if not projs:
            return v
        p = projs[0]
        if isinstance(old, MRef):
            # write through (box cell)
            self.write(st, old.cell, tuple(old.projs) + tuple(projs), v)
            return old
        if p[0] == "d":
            if isinstance(old, z3.ExprRef) and old.sort() in self.S.dt:
                tt, ctors = self.S.dt[old.sort()]
                k = self.variant_index(tt, p[1])
                old = Agg(tt, k, [self.acc(a, old) for a in ctors[k][2]])
            return self.upd(st, old, projs[1:], v)
        if p[0] == "f":
            if isinstance(old, z3.ExprRef):
                if old.sort() in self.S.dt:
                    old = self.fields(old, None)
                else:
                    raise Unsupported("field write on " + str(old.sort()))
            if isinstance(old, Opaque):
                return old
            if isinstance(old, Clo):
                new = Clo(old.loc, old.caps, old.tenv, old.names)
                new.caps[p[1]] = self.upd(st, old.caps[p[1]], projs[1:], v)
                return new
            if old is None:
                raise Unsupported("partial initialisation")
            new = Agg(old.ty, old.var, old.f)
            new.f[p[1]] = self.upd(st, old.f[p[1]], projs[1:], v)
            return new
        if p[0] == "i":
            if isinstance(old, Lst):
                i = simp(p[1])
                if z3.is_int_value(i):
                    new = Lst(old.elem, old.items)
                    new.items[i.as_long()] = self.upd(st, old.items[i.as_long()], projs[1:], v)
                    return new
            et = self.seq_elem(old)
            arr = self.seq_arr(old, st)
            cur = z3.Select(arr, p[1])
            return self.seq_mk(et, self.seq_len(old), z3.Store(arr, p[1], self.z(self.upd(st, cur, projs[1:], v), et, st)))
        if p[0] == "m":
            cur = self.map_val(st, old, p[1], p[2])
            nv = self.z(self.upd(st, cur, projs[1:], v), p[2], st)
            os = old.sort().range()
            return z3.Store(old, p[1], os.constructor(1)(nv))
        if p[0] == "s":
            raise Unsupported("write through subslice")
        raise Unsupported("write proj")

    def loc(self, st, fr, place):
        cell, projs = (fr.id, place[0]), ()
        t = fr.lty(place[0])
        var = None
        for p in place[1]:
            k = p[0]
            if k == "deref":
                v = self.read(st, cell, projs)
                if isinstance(v, MRef):
                    cell, projs = v.cell, v.projs
                t = t[2] if t[0] == "ref" else t[1] if t[0] == "ptr" else (t[2][0] if t[0] == "adt" and t[2] else t)
            elif k == "field":
                ft = subst(self.ty(p[2]), fr.tenv)
                v = self.read(st, cell, projs)
                if isinstance(v, MRef):      # box internals: keep pointing at the heap cell
                    pass
                elif isinstance(v, z3.ExprRef) and (z3.is_int(v)) and t[0] == "adt" and t[1] in TRANSPARENT:
                    pass
                elif t[0] == "adt" and (t[1] in TRANSPARENT or t[1].startswith(("std::ptr::", "core::ptr::"))):
                    pass
                else:
                    projs = projs + (("f", p[1], ft),)
                t = ft
            elif k == "downcast":
                projs = projs + (("d", p[1]),)
            elif k == "index":
                i = st.cells[(fr.id, p[1])]
                et = self.S.elem_type(t)
                projs = projs + (("i", i, et),)
                t = et
            elif k == "cidx":
                et = self.S.elem_type(t)
                if p[2]:
                    v = self.read(st, cell, projs)
                    i = simp(self.seq_len(self.deref(st, v)) - p[1])
                else:
                    i = z3.IntVal(p[1])
                projs = projs + (("i", i, et),)
                t = et
            elif k == "sub":
                v = self.deref(st, self.read(st, cell, projs))
                n = self.seq_len(v)
                if p[2].startswith("-"):
                    hi = n - int(p[2][1:])
                elif p[2] == "":
                    hi = n
                else:
                    hi = z3.IntVal(int(p[2]))
                projs = projs + (("s", z3.IntVal(p[1]), simp(hi)),)
            elif k == "subtype":
                pass
            else:
                raise Unsupported("place " + k)
        return cell, projs, t

    _tys = {}

    def ty(self, s):
        t = self._tys.get(s)
        if t is None:
            try:
                t = ty(s)
            except (ParseError, ValueError, IndexError):
                t = ("opaque", s)
            self._tys[s] = t
        return t

    def place_ty(self, fr, place):
        t = fr.lty(place[0])
        for p in place[1]:
            k = p[0]
            if k == "deref":
                t = t[2] if t[0] == "ref" else t[1] if t[0] == "ptr" else (t[2][0] if t[0] == "adt" and t[2] else t)
            elif k == "field":
                t = subst(self.ty(p[2]), fr.tenv)
            elif k in ("index", "cidx"):
                t = self.S.elem_type(t)
            elif k == "sub":
                t = ("slice", self.S.elem_type(t))
        return t

    def operand(self, st, fr, op):
        if op[0] in ("copy", "move"):
            cell, projs, _ = self.loc(st, fr, op[1])
            v = self.read(st, cell, projs)
            if v is None:
                t = self.place_ty(fr, op[1])
                if t == UNIT_T:
                    return unit()
                raise Unsupported(f"uninitialised {op[1]} in {fr.body.name[-60:]}")
            return v
        return self.constant(st, fr, op[1])

    def operand_ty(self, fr, op):
        if op[0] in ("copy", "move"):
            return self.place_ty(fr, op[1])
        c = op[1]
        if c[0] == "int":
            return ("int", c[2])
        if c[0] == "bool":
            return ("bool",)
        if c[0] == "char":
            return ("char",)
        if c[0] == "str":
            return ("ref", False, ("str",))
        if c[0] == "unit":
            return UNIT_T
        if c[0] == "bytes":
            return ("ref", False, ("slice", ("int", "u8")))
        if c[0] == "item":
            b = self.const_body(c[1], fr)
            if b is not None:
                return subst(b[0].ret, b[1])
            if c[1].startswith("ZeroSized: "):
                return ("fndef", c[1][11:])
            return ("fndef", c[1])
        return ("opaque", str(c))

    def const_body(self, text, fr):
        """(body, tenv) of a constant item / promoted"""
        b = self.prog.get(text)
        if b is not None and b.kind == "const":
            return b, fr.tenv
        if "promoted[" in text:
            if fr.body is not None:
                b = self.prog.get(fr.body.name + text[text.rindex("::promoted["):])
                if b is not None:
                    return b, fr.tenv
            t2 = re.sub(r"::<(?!impl at)[^:]*?>(?=::)", "", text)
            b = self.prog.get(t2)
            if b is not None:
                return b, fr.tenv
            return None
        owner = fr.body.name.split("::promoted[")[0] if fr.body is not None else ""
        m = re.search(r">::(\w+)::(\w+)$", text)
        if m and owner.rsplit("::", 1)[-1] == m.group(1):      # declared inside a trait method
            b = self.prog.get(owner + "::" + m.group(2))
            if b is not None and b.kind == "const":
                return b, fr.tenv
        try:
            c = self.callee(text, fr.tenv)
        except (ParseError, Unsupported, ValueError, IndexError):
            return None
        cand = self.consts.get(c.method, [])
        if c.trait is not None:
            for b, tr, sh, derived, mod in cand:
                if tr == last(c.trait[1]) and c.selfty[0] == "adt" and sh == last(c.selfty[1]):
                    b.parse()
                    return b, {}
            return None
        full = "::".join(c.segs)
        for b, tr, sh, derived, mod in cand:
            if sh is None and b.name == full:
                return b.parse(), fr.tenv
        # a constant item declared inside the body of a method: its printed owner is the
        # `<impl at ..>` path of the function, its use names the type
        owner = fr.body.name if fr.body is not None else ""
        owner = owner.split("::promoted[")[0]
        if owner and len(c.segs) >= 2 and c.segs[-2] == owner.rsplit("::", 1)[-1]:
            b = self.prog.get(owner + "::" + c.method)
            if b is not None and b.kind == "const":
                return b, fr.tenv
        if len(c.segs) >= 2:
            for b, tr, sh, derived, mod in cand:
                if sh == c.segs[-2] and mod == "::".join(c.segs[:-2]):
                    b.parse()
                    env = {}
                    d = self.defs.adts.get("::".join(c.segs[:-1]))
                    if d and c.tyargs:
                        env = dict(zip(d["params"], c.tyargs))
                    return b, env
        return None

    def constant(self, st, fr, c):
        k = c[0]
        if k == "int":
            return z3.IntVal(c[1])
        if k == "bool":
            return z3.BoolVal(c[1])
        if k == "unit":
            return unit()
        if k == "str":
            return self.strlit(c[1])
        if k == "char":
            return z3.IntVal(c[1])
        if k == "bytes":
            try:
                bs = eval('b"' + c[1] + '"')
            except Exception:
                raise Unsupported("bytes const")
            return Lst(("int", "u8"), [z3.IntVal(x) for x in bs])
        if k == "item":
            text = c[1]
            cn = fr.tenv.get(text) if re.fullmatch(r"[A-Z][A-Z0-9_]*", text) else None
            if cn is not None and cn[0] == "const" and isinstance(cn[1], int):
                return z3.IntVal(cn[1])
            for name, f in self.const_models.items():
                if text == name or text.startswith(name + "::<"):
                    return f(self, st, fr, text)
            b = self.const_body(text, fr)
            if b is not None:
                outs = self.run_body(st, b[0], [], b[1], 1)
                outs = [o for o in outs if o[1][0] == RET]
                if len(outs) != 1:
                    raise Unsupported("const evaluation " + text)
                s2, (_, v) = outs[0]
                st.cells, st.pc, st.facts = s2.cells, s2.pc, s2.facts
                return v
            if text.startswith("ZeroSized: "):
                text = text[11:]
            if text.startswith("{alloc"):
                return Opaque(text)
            if text.startswith("{closure@"):
                return Clo(text[9:-1], [], fr.tenv)
            m = re.match(r"\{(0x[0-9a-f]+|\w+) as", text)
            if m or text.startswith("{"):
                return Opaque(text)
            return FnItem(text, fr.tenv)
        if k == "float":
            return Opaque("float")
        raise Unsupported("const " + str(c)[:80])

    # ------------------------------------------------------------------ solver
    def solver(self, rlimit, simple=False):
        s = z3.SimpleSolver() if simple else z3.Solver()
        s.set("rlimit", rlimit)
        return s

    def feasible(self, st, extra=()):
        ex = [simp(e) for e in extra]
        if any(z3.is_false(e) for e in ex):
            return False
        if all(z3.is_true(e) for e in ex):
            return True
        t0 = time.time()
        s = self.solver(self.feas_rlimit, True)
        s.set("smt.mbqi", False)
        for e in self.axioms:
            if not has_quant(e):
                s.add(e)
        for e in st.facts:
            if not has_quant(e):
                s.add(e)
        for e in st.pc:
            if not has_quant(e):
                s.add(e)
        for e in ex:
            if not has_quant(e):
                s.add(e)
        r = s.check()
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def prove(self, st, cond):
        """-> ('proved'|'failed'|'unknown', detail); a conjunction the solver does not get at once is proved one by one"""
        if z3.is_and(cond) and cond.num_args() > 1:
            r, d = self.prove1(st, cond, self.strategies[:1])
            if r == "proved":
                return r, d
            for x in cond.children():
                r, d = self.prove(st, x)
                if r != "proved":
                    return r, d
            return "proved", ""
        return self.prove1(st, cond, self.strategies)

    def prove1(self, st, cond, strategies):
        c = simp(cond)
        if z3.is_true(c):
            return "proved", "trivial"
        t0 = time.time()
        last = "unknown"
        base = list(self.axioms) + list(st.facts) + list(st.pc)
        for opts in strategies:
            s = self.solver(int(self.rlimit * opts.get("f", 1)), opts.get("simple"))
            for k, v in opts.items():
                if k not in ("f", "simple", "noae"):
                    s.set(k, v)
            hyp = base
            if opts.get("noae"):            # without the facts of the form "for all … there is …": they feed each other
                hyp = [e for e in base if not ae_fact(e)]
                if len(hyp) == len(base):
                    continue
            for e in hyp:
                s.add(e)
            s.add(z3.Not(cond))
            r = s.check()
            if r == z3.unsat:
                self.solver_time += time.time() - t0
                return "proved", ""
            if r == z3.sat and hyp is base:
                self.solver_time += time.time() - t0
                return "failed", s.model()
            last = s.reason_unknown()
            if os.environ.get("MIRV_DUMP"):
                open(os.environ["MIRV_DUMP"], "w").write(s.to_smt2())
                raise Unsupported("dumped")
            if self.deadline and time.time() > self.deadline:
                last = "deadline: " + last
                break
        self.solver_time += time.time() - t0
        return "unknown", last

    strategies = [{"simple": True, "smt.mbqi": False, "smt.auto_config": False, "f": 0.05}, {"smt.mbqi": False, "f": 0.1, "noae": True}, {"f": 0.3}, {"smt.mbqi": False, "f": 0.5}, {"smt.mbqi": False, "smt.auto_config": False, "smt.random_seed": 7, "f": 0.5}, {"f": 1, "smt.random_seed": 3}]

    def contradictory(self, st):
        """can False be derived from what is assumed on this path (quantified facts included)?"""
        t0 = time.time()
        s = self.solver(self.feas_rlimit)
        s.set("smt.mbqi", False)
        for e in list(self.axioms) + list(st.facts) + list(st.pc):
            s.add(e)
        r = s.check()
        self.solver_time += time.time() - t0
        return r == z3.unsat

    def oblige(self, st, name, cond, where=""):
        if self.dry:
            return
        t0 = time.time()
        r, d = self.prove(st, cond)
        o = Obligation(self.unit, name, r, time.time() - t0, "")
        if r != "proved":
            if r == "failed":
                txt = []
                try:
                    for dd in d.decls()[:400]:
                        v = str(d[dd])
                        if len(v) < 200:
                            txt.append(f"{dd.name()} = {v}")
                except Exception as e:   # noqa
                    txt.append(str(e))
                o.detail = "\n".join(sorted(txt))
            else:
                o.detail = str(d)
            o.detail += "\nwhere: " + where + "\nnotes: " + ", ".join(map(str, st.notes))
            o.path = st
        self.obligations.append(o)
        return r

    # ------------------------------------------------------------------ execution
    def run_body(self, st, body, args, tenv, depth):
        """-> [(st, ('ret', v)|('trap', msg))]"""
        if depth > self.maxdepth:
            raise Unsupported("call depth")
        body.parse()
        self.nframe += 1
        fr = Frame(self.nframe, body, tenv, depth)
        if len(args) != len(body.args):
            raise Unsupported(f"arity {body.name}: {len(args)} vs {len(body.args)}")
        for n, v in zip(body.args, args):
            st.cells[(fr.id, n)] = v
        outs = []
        for r in self.explore(fr, st, 0, frozenset(), True):
            if r[0] == "ret":
                s = r[1]
                for k in [k for k in s.cells if k[0] == fr.id]:
                    del s.cells[k]
                outs.append((s, (RET, r[2])))
            elif r[0] == "trap":
                outs.append((r[1], (TRAP, r[2])))
            else:
                raise Unsupported("stray loop edge")
        return outs

    def loop_headers(self, body):
        h = getattr(body, "_headers", None)
        if h is not None:
            return h
        succ = {}
        for bb in body.blocks:
            t = body.stmts(bb)[-1]
            succ[bb] = self.succ(t)
        heads, color = set(), {}
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m, 0) == 1:
                    heads.add(m)
                elif color.get(m, 0) == 0:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                color[n] = 2
                stack.pop()
        # loops that can only be re-entered through `yield` (await polling) are not loops here
        body._headers = heads
        body._hord = {}
        real = sorted(h for h in heads if not self.await_loop(body, h))
        for i, x in enumerate(real):
            body._hord[x] = i
        return heads

    def await_loop(self, body, h):
        """a poll loop generated for .await: header block calls Future::poll right away"""
        seen, bb = 0, h
        while seen < 6:
            sts = body.stmts(bb)
            t = sts[-1]
            if t[0] == "call" and ("Future>::poll" in t[2]):
                return True
            if t[0] == "call" and ("get_context" in t[2] or "new_unchecked" in t[2]):
                bb = t[4]
            elif t[0] == "goto":
                bb = t[1]
            else:
                return False
            seen += 1
        return False

    @staticmethod
    def succ(t):
        if t[0] == "goto":
            return [t[1]]
        if t[0] == "switch":
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == "call":
            return [t[4]] if t[4] is not None else []
        if t[0] == "drop":
            return [t[2]]
        if t[0] == "assert":
            return [t[4]]
        if t[0] == "yield":
            return [t[3]]
        return []

    def rpo(self, body):
        r = getattr(body, "_rpo", None)
        if r is None:
            order, seen, stack = [], {0}, [(0, iter(self.succ(body.stmts(0)[-1])))]
            while stack:
                n, it = stack[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        stack.append((m, iter(self.succ(body.stmts(m)[-1]))))
                        break
                else:
                    order.append(n)
                    stack.pop()
            r = body._rpo = {b: i for i, b in enumerate(reversed(order))}
        return r

    def mentioned(self, body, bb):
        """locals mentioned in blocks reachable from bb, or whose address is taken"""
        cache = body.__dict__.setdefault("_ment", {}) if hasattr(body, "__dict__") else {}
        if bb in cache:
            return cache[bb]
        seen, work, out = set(), [bb], {0}
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            out |= {int(x) for x in re.findall(r"\b_(\d+)\b", repr(body.stmts(b)))} | local_nums(body.stmts(b))
            work += self.succ(body.stmts(b)[-1])
        cache[bb] = out
        return out

    def merge_value(self, c, a, b, st):
        if same(a, b):
            return a
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
            return z3.If(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f):
            return Agg(a.ty, a.var, [self.merge_value(c, x, y, st) for x, y in zip(a.f, b.f)])
        if isinstance(a, Discr) and isinstance(b, Discr):
            return Discr(self.merge_value(c, a.v, b.v, st), a.ty)
        t = a.ty if isinstance(a, Agg) else b.ty if isinstance(b, Agg) else None
        if t is not None and all(isinstance(x, (Agg, z3.ExprRef)) for x in (a, b)):
            x, y = self.z(a, t, st), self.z(b, t, st)
            if x.sort() == y.sort():
                return z3.If(c, x, y)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        raise NoMerge()

    def join(self, fr, bb, a, b):
        """one state for two that meet at bb, or None"""
        live = self.mentioned(fr.body, bb)
        k = 0
        while k < min(len(a.pc), len(b.pc)) and a.pc[k].eq(b.pc[k]):
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        if not ra or not rb:
            return None
        ca, cb = z3.And(*ra) if len(ra) > 1 else ra[0], z3.And(*rb) if len(rb) > 1 else rb[0]
        m = a.fork()
        m.pc = a.pc[:k] + [z3.Or(ca, cb)]
        ia, ib = {f.get_id() for f in a.facts}, {f.get_id() for f in b.facts}
        m.facts = [f if f.get_id() in ib else z3.Implies(ca, f) for f in a.facts] + [z3.Implies(cb, f) for f in b.facts if f.get_id() not in ia]
        if set(a.ghost) != set(b.ghost) or not all(same(a.ghost[x], b.ghost[x]) for x in a.ghost):
            return None
        m.notes = a.notes + tuple(x for x in b.notes if x not in a.notes)
        m.cells = {}
        keep = set()
        work = [v for st in (a, b) for key, v in st.cells.items() if key[0] != fr.id or key[1] in live]
        while work:
            x = work.pop()
            if isinstance(x, MRef):
                if x.cell not in keep:
                    keep.add(x.cell)
                    work += [st.cells[x.cell] for st in (a, b) if x.cell in st.cells]
            elif isinstance(x, Agg):
                work += x.f
            elif isinstance(x, Lst):
                work += x.items
            elif isinstance(x, Clo):
                work += x.caps
            elif isinstance(x, Iter):
                return None
        try:
            for key in a.cells:
                if key in b.cells:
                    if key[0] == fr.id and key[1] not in live and key not in keep:
                        continue
                    m.cells[key] = self.merge_value(ca, a.cells[key], b.cells[key], m)
        except (NoMerge, Unsupported):
            return None
        return m

    def explore_merging(self, fr, st, bb, stop, start):
        order = self.rpo(fr.body)
        out, work = [], [(st, bb, start)]
        heads = self.loop_headers(fr.body)
        while work:
            work.sort(key=lambda x: -order.get(x[1], 0))
            st, bb, first = work.pop()
            while not first and work and work[-1][1] == bb:
                m = self.join(fr, bb, st, work[-1][0])
                if m is None:
                    break
                work.pop()
                st = m
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of this unit exceeded")
            if not first:
                if bb in stop:
                    out.append(("stop", st, bb))
                    continue
                if bb in heads and not self.await_loop(fr.body, bb):
                    out += self.do_loop(fr, st, bb, stop)
                    continue
            for r in self.block(fr, st, bb):
                if r[0] == "goto":
                    work.append((r[1], r[2], False))
                else:
                    out.append(r)
        return out

    def explore(self, fr, st, bb, stop, start):
        if self.merging and fr.body.name == self.unit_body:
            return self.explore_merging(fr, st, bb, stop, start)
        out = []
        work = [(st, bb, start)]
        heads = self.loop_headers(fr.body)
        while work:
            st, bb, first = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of this unit exceeded")
            if not first:
                if bb in stop:
                    out.append(("stop", st, bb))
                    continue
                if bb in heads and not self.await_loop(fr.body, bb):
                    out += self.do_loop(fr, st, bb, stop)
                    continue
            for r in self.block(fr, st, bb):
                if r[0] == "goto":
                    work.append((r[1], r[2], False))
                else:
                    out.append(r)
        return out

    def block(self, fr, st, bb):
        body = fr.body
        for s in body.stmts(bb):
            k = s[0]
            if k == "assign":
                v = self.rvalue(st, fr, s[2], s[1])
                cell, projs, _ = self.loc(st, fr, s[1])
                self.write(st, cell, projs, v)
            elif k == "goto":
                return [("goto", st, s[1])]
            elif k == "return":
                v = st.cells.get((fr.id, 0))
                if v is None:
                    v = unit()
                return [("ret", st, v)]
            elif k == "switch":
                return self.switch(fr, st, s)
            elif k == "call":
                return self.do_call(fr, st, s)
            elif k == "drop":
                return self.do_drop(fr, st, s)
            elif k == "assert":
                c = self.operand(st, fr, s[1])
                if isinstance(c, Opaque):
                    return [("goto", st, s[4])]
                if not s[2]:
                    c = z3.Not(c)
                c = simp(c)
                if z3.is_true(c):
                    return [("goto", st, s[4])]
                msg = s[3].strip('"')
                self.oblige(st, "no-" + ("overflow" if "overflow" in msg else "out-of-bounds" if "index" in msg else "arith-fault")
                            + " in " + self.short(body.name), c, msg)
                st.pc.append(c)
                return [("goto", st, s[4])]
            elif k == "unreachable":
                return []
            elif k == "setdiscr":
                cell, projs, t = self.loc(st, fr, s[1])
                d = self.S.adt_def(self.S.norm(t))
                old = self.read(st, cell, projs)
                self.write(st, cell, projs, Agg(self.S.norm(t), s[2], old.f if isinstance(old, Agg) else []))
            elif k == "nop":
                pass
            elif k == "yield":
                raise Unsupported("yield reached")
            else:
                raise Unsupported("statement " + str(s)[:80])
        raise Unsupported("block without terminator")

    @staticmethod
    def short(name):
        return re.sub(r"<impl at [^>]*>::", "", name)

    def switch(self, fr, st, s):
        v = self.operand(st, fr, s[1])
        cases, other = s[2], s[3]
        if isinstance(v, Opaque):
            out = []
            for _, b in cases:
                out.append(("goto", st.fork(), b))
            if other is not None:
                out.append(("goto", st, other))
            return out
        if isinstance(v, Discr):
            conds = self.discr_conds(v, [c for c, _ in cases])
        elif z3.is_bool(v):
            conds = [z3.Not(v) if c == 0 else v for c, _ in cases]
        else:
            conds = [v == c for c, _ in cases]
        conds = [simp(c) for c in conds]
        for c, (_, b) in zip(conds, cases):
            if z3.is_true(c):
                return [("goto", st, b)]
        live = [(c, b) for c, (_, b) in zip(conds, cases) if not z3.is_false(c)]
        neg = [z3.Not(c) for c, _ in live]
        alts = [([c], b) for c, b in live]
        if other is not None and not self.is_unreachable(fr.body, other):
            alts.append((neg, other))
        if len(alts) == 1:
            st.pc += [simp(e) for e in alts[0][0]]
            return [("goto", st, alts[0][1])]
        out = []
        for ex, b in alts:
            if self.feasible(st, ex):
                s2 = st.fork()
                s2.pc += [simp(e) for e in ex]
                out.append(("goto", s2, b))
        return out

    def is_unreachable(self, body, bb):
        s = body.stmts(bb)
        return len(s) == 1 and s[0][0] == "unreachable"

    def discr_conds(self, d, ks):
        v = d.v
        if isinstance(v, z3.ExprRef) and v.sort() in self.S.dt:
            tt, ctors = self.S.dt[v.sort()]
            df = self.S.adt_def(tt)
            out = []
            for k in ks:
                r = z3.BoolVal(False)
                for (n, dis, _), c in zip(df, ctors):
                    if dis == k or (dis < 0 and dis + 256 == k):
                        r = simp_recog(c[1], v)
                out.append(r)
            return out
        e = self.discr_int(d)
        return [z3.Or(e == k, e == k - 256) if k > 127 and k < 256 else e == k for k in ks]

    def do_drop(self, fr, st, s):
        t = self.place_ty(fr, s[1])
        n = t
        if n[0] == "adt" and last(n[1]) == "ScopeGuard":
            cell, projs, _ = self.loc(st, fr, s[1])
            g = self.read(st, cell, projs)
            if g is not None:
                if not hasattr(g, "clo"):
                    raise Unsupported("drop of an unknown scope guard")
                st.cells[("G", "armed")] = z3.IntVal(0)
                return [("goto", s2, s[2]) if o[0] == RET else ("trap", s2, o[1]) for s2, o in self.call_value(st, fr, g.clo, [g.v])]
        n = t
        if n[0] == "adt":
            for b, tr, sh, derived, mod in self.methods.get("drop", []):
                if tr == "Drop" and sh == last(n[1]) and not derived:
                    cell, projs, _ = self.loc(st, fr, s[1])
                    v = self.read(st, cell, projs)
                    if v is None:
                        break
                    b.parse()
                    env = {}
                    unify(b.locals[b.args[0]][2], n, env)
                    outs = self.run_body(st, b, [MRef(cell, projs)], env, fr.depth + 1)
                    res = []
                    for s2, o in outs:
                        res.append(("goto", s2, s[2]) if o[0] == RET else ("trap", s2, o[1]))
                    return res
        return [("goto", st, s[2])]

    # rvalues ------------------------------------------------------------
    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            cell, projs, t = self.loc(st, fr, r[2])
            if r[1]:
                return MRef(cell, projs)
            v = self.read(st, cell, projs)
            if v is None:
                # reference to an uninitialised / opaque slot
                if t == UNIT_T:
                    return unit()
                return MRef(cell, projs)
            if isinstance(v, MRef):
                return v
            return v
        if k == "discr":
            cell, projs, t = self.loc(st, fr, r[1])
            v = self.deref(st, self.read(st, cell, projs))
            if isinstance(v, Agg):
                d = self.S.adt_def(self.S.norm(v.ty))
                if d is not None:
                    return z3.IntVal(d[v.var or 0][1])
                return Discr(v, t)
            if isinstance(v, Opaque):
                return v
            return Discr(v, t)
        if k == "bin":
            return self.binop(st, fr, r)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if z3.is_bool(v):
                    return simp(z3.Not(v))
                t = self.operand_ty(fr, r[2])
                lo, hi = INTS[t[1]]
                return hi - v if lo == 0 else -v - 1
            if r[1] == "PtrMetadata":
                return self.seq_len(self.deref(st, v))
            return simp(-v)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "tuple":
            vs = [self.operand(st, fr, o) for o in r[1]]
            return Agg(("tuple", tuple(self.operand_ty(fr, o) for o in r[1])), None, vs)
        if k == "array":
            t = self.place_ty(fr, dest)
            et = self.S.elem_type(t) if t[0] in ("array", "slice") else self.operand_ty(fr, r[1][0])
            return Lst(et, [self.operand(st, fr, o) for o in r[1]])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            m = re.match(r"(?:const )?(\d+)(?:_usize)?$", r[2])
            t = self.place_ty(fr, dest)
            n = int(m.group(1)) if m else (t[2] if t[0] == "array" and isinstance(t[2], int) else None)
            if n is None or n > 4096:
                raise Unsupported("repeat " + r[2])
            return Lst(self.operand_ty(fr, r[1]), [v] * n)
        if k == "len":
            cell, projs, t = self.loc(st, fr, r[1])
            return self.seq_len(self.deref(st, self.read(st, cell, projs)))
        if k == "closure":
            head = r[1]
            vs = [self.operand(st, fr, o) for _, o in r[2]]
            loc = head[9:-1] if head.startswith("{closure@") else head
            if head.startswith("{coroutine") or head.startswith("{async"):
                # remember which fn body this belongs to
                loc = "coroutine:" + fr.body.name + "|" + head
            return Clo(loc, vs, fr.tenv, [n for n, _ in r[2]])
        if k == "adt":
            return self.aggregate(st, fr, r, dest)
        if k == "box":
            t = subst(self.ty(r[2]), fr.tenv)
            return MRef(self.newcell(st, None))
        if k == "sizeof":
            return self.const(z3.IntSort(), "size")
        raise Unsupported("rvalue " + k)

    def aggregate(self, st, fr, r, dest):
        t = self.place_ty(fr, dest)
        vs = [self.operand(st, fr, o) for _, o in r[2]]
        n = t
        if n[0] == "adt":
            d = self.S.adt_def(n)
            name = re.sub(r"::<.*?>(?=$|::\w+$)", "", r[1])
            lastseg = r[1].split("::")[-1]
            if d is not None:
                if d[0][0] is None:
                    return Agg(self.S.norm(n) if n[1] not in TRANSPARENT else n, None, vs)
                for i, (vn, _, _) in enumerate(d):
                    if vn == lastseg:
                        return Agg(n, i, vs)
                raise Unsupported("variant " + r[1][-80:])
            if n[1] in TRANSPARENT:
                return vs[0]
            if n[1] == "phantom_newtype::Id":
                return vs[0]
            var = lastseg if lastseg != last(n[1]) and re.match(r"\w+$", lastseg) else None
            return Agg(n, var, vs)
        return Agg(t, None, vs)

    def binop(self, st, fr, r):
        op = r[1]
        a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
        t = self.operand_ty(fr, r[2])
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op.endswith("WithOverflow"):
                return Agg(("tuple", (t, ("bool",))), None, [Opaque("op"), z3.BoolVal(False)])
            return Opaque("binop")
        if isinstance(a, Discr):
            a = self.discr_int(a)
        if isinstance(b, Discr):
            b = self.discr_int(b)
        return self.arith(st, op, a, b, t)

    def arith(self, st, op, a, b, t):
        t = self.S.norm(t)
        if op == "Eq":
            return simp(self.eq(a, b, t, st))
        if op == "Ne":
            return simp(z3.Not(self.eq(a, b, t, st)))
        if z3.is_bool(a):
            if op == "BitAnd":
                return simp(z3.And(a, b))
            if op == "BitOr":
                return simp(z3.Or(a, b))
            if op == "BitXor":
                return simp(z3.Xor(a, b))
            raise Unsupported("bool " + op)
        if op in ("Lt", "Le", "Gt", "Ge"):
            return simp({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        lo, hi = INTS[t[1]] if t[0] == "int" else (0, U256_MAX)
        if op.endswith("WithOverflow"):
            o = op[:3]
            x = simp(a + b if o == "Add" else a - b if o == "Sub" else a * b)
            return Agg(("tuple", (t, ("bool",))), None, [x, simp(z3.Or(x < lo, x > hi))])
        m = hi - lo + 1
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            o = op[:3]
            x = a + b if o == "Add" else a - b if o == "Sub" else a * b
            if "Unchecked" in op:
                return simp(x)
            return simp(x % m if lo == 0 else (x - lo) % m + lo)
        if op == "Div":
            return simp(z3.If(b > 0, a / b, a / b)) if lo == 0 else self.uf("sdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
        if op == "Rem":
            return simp(a % b) if lo == 0 else self.uf("srem", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
        b = simp(b)
        if op in ("Shr", "ShrUnchecked") and z3.is_int_value(b):
            return simp(a / (2 ** b.as_long()))
        if op in ("Shl", "ShlUnchecked") and z3.is_int_value(b):
            x = a * (2 ** b.as_long())
            return simp(x % m if lo == 0 else (x - lo) % m + lo)
        a = simp(a)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
            if op == "BitAnd" and lo == 0:
                for x, y in ((a, b), (b, a)):
                    if z3.is_int_value(y) and (y.as_long() & (y.as_long() + 1)) == 0:
                        return simp(x % (y.as_long() + 1))
            x = self.uf("bit" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            st.facts += [x >= lo, x <= hi]
            return x
        if op == "Cmp":
            return self.ordering(a < b, a == b)
        raise Unsupported("binop " + op)

    def ordering(self, lt, eq):
        s = self.S.sort(("adt", "std::cmp::Ordering", ()))
        return simp(z3.If(lt, s.constructor(0)(), z3.If(eq, s.constructor(1)(), s.constructor(2)())))

    def cast(self, st, fr, r):
        v = self.operand(st, fr, r[1])
        kind = r[3]
        if kind == "IntToInt":
            if isinstance(v, Discr):
                v = self.discr_int(v)
            if isinstance(v, Opaque):
                return v
            src = self.S.norm(self.operand_ty(fr, r[1]))
            dst = self.S.norm(subst(self.ty(r[2]), fr.tenv))
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            lo, hi = INTS[dst[1]] if dst[0] == "int" else INTS["char"]
            sl, sh = INTS.get(src[1], (0, 2**64)) if src[0] == "int" else (INTS["char"] if src[0] == "char" else (lo, hi))
            if sl >= lo and sh <= hi:
                return v
            m = hi - lo + 1
            return simp(v % m if lo == 0 else (v - lo) % m + lo)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return Opaque("float")
        return v

    # ------------------------------------------------------------------ calls
    _callees = {}

    def callee(self, text, tenv):
        key = (text, tuple(sorted((k, v) for k, v in tenv.items())))
        c = self._callees.get(key)
        if c is None:
            c = self._callees[key] = self._callee(text, tenv)
        return c

    def _callee(self, text, tenv):
        c = Callee()
        c.text = text
        c.generics = ()
        c.tyargs = ()
        if text.startswith("<"):
            p = P(text)
            p.expect("<")
            c.selfty = subst(parse_type(p), tenv)
            c.trait = None
            if p.eat("as "):
                c.trait = subst(parse_path_type(p), tenv)
            p.expect(">")
            p.expect("::")
            c.method = p.ident()
            if p.eat("::"):
                p.expect("<")
                c.generics = tuple(subst(x, tenv) for x in parse_generics(p))
            c.segs = []
            c.name = (f"{c.trait[1]}::{c.method}" if c.trait else f"<{show(c.selfty)}>::{c.method}")
            if c.trait is None and c.selfty[0] == "adt":
                c.name = f"{c.selfty[1]}::{c.method}"
                c.segs = c.selfty[1].split("::") + [c.method]
                c.tyargs = c.selfty[2]
            return c
        c.trait, c.selfty = None, None
        segs, i = [], 0
        gens = []
        while i < len(text):
            if text.startswith("<impl at ", i):
                j = text.index(">", i) + 1
                segs.append(text[i:j])
                i = j
            elif text.startswith("<impl ", i):
                j = balanced(text, i)
                inner = text[i + 6:j - 1]
                k = inner.find(" for ")
                if k >= 0:
                    inner = inner[k + 5:]
                try:
                    c.selfty = subst(ty(inner), tenv)
                except ParseError:
                    c.selfty = ("opaque", inner)
                segs.append("<impl>")
                i = j
            elif text[i] == "<":
                j = balanced(text, i)
                p = P(text[i:j])
                try:
                    p.expect("<")
                    g = tuple(subst(x, tenv) for x in parse_generics(p))
                except ParseError:
                    g = ()
                gens.append((len(segs), g))
                i = j
            elif text[i] == "{":
                j = balanced(text, i)
                segs.append(text[i:j])
                i = j
            else:
                m = re.compile(r"[\w]+").match(text, i)
                if not m:
                    raise Unsupported("callee " + text[:100])
                segs.append(m.group(0))
                i = m.end()
            if text.startswith("::", i):
                i += 2
        c.segs = segs
        c.method = segs[-1]
        c.name = "::".join(segs)
        for k, g in gens:
            if k == len(segs):
                c.generics = g
            elif k == len(segs) - 1:
                c.tyargs = g
        return c

    def unify_sig(self, body, argtys, ret, selfty=None):
        body.parse()
        if len(body.args) != len(argtys):
            return None
        env = {}
        for n, t in zip(body.args, argtys):
            if not unify(self.strip_ref(body.locals[n]), self.strip_ref(t), env):
                if t[0] in ("fndef", "closure", "opaque") or body.locals[n][0] in ("opaque",):
                    continue
                return None
        if ret is not None:
            e2 = dict(env)
            if unify(body.ret, ret, e2):
                env = e2
            elif not (body.ret[0] in ("opaque", "coroutine", "proj") or ret[0] in ("opaque", "coroutine", "proj", "never")):
                if show(body.ret) != show(ret) and not self.loose(body.ret, ret):
                    return None
        return env

    def loose(self, a, b):
        return True

    @staticmethod
    def strip_ref(t):
        while t[0] == "ref":
            t = t[2]
        return t

    def resolve(self, c, argtys, ret):
        """local body for a callee -> (body, tenv, derived) or None"""
        if c.trait is not None and self.strip_ref(c.selfty)[0] == "param":
            return None                     # a type parameter: its impl is not known here
        if c.trait is None:
            b = self.prog.get(c.name)
            if b is not None and b.kind == "fn":
                env = self.unify_sig(b, argtys, ret)
                return (b, env or {}, False)
            if len(c.segs) >= 2:
                cands = [e for e in self.methods.get(c.method, []) if e[1] is None and e[2] == c.segs[-2]]
                if c.segs[-2] == "<impl>":
                    # inherent impl written away from the type: `mod::<impl Type>::method`
                    mod = "::".join(c.segs[:-2])
                    cands = [e for e in self.methods.get(c.method, []) if e[1] is None and e[4] == mod]
                if len(cands) > 1:
                    m = [e for e in cands if c.name.startswith(e[4].split("::")[0])]
                    cands = m or cands
                for b, tr, sh, derived, mod in cands:
                    env = self.unify_sig(b, argtys, ret)
                    if env is not None:
                        d = self.defs.adts.get("::".join(c.segs[:-1]))
                        if d and c.tyargs and len(d["params"]) == len(c.tyargs):
                            for p, a in zip(d["params"], c.tyargs):
                                env.setdefault(p, a)
                        return (b, env, False)
            return None
        tr = last(c.trait[1])
        cands = [e for e in self.methods.get(c.method, []) if e[1] == tr]
        good = []
        st = c.selfty
        while st[0] == "ref":
            st = st[2]
        for e in cands:
            b, _, sh, derived, mod = e
            if derived:
                # derived impl: the self type must match
                b.parse()
                t0 = self.strip_ref(b.locals[b.args[0]]) if b.args else b.ret
                if unify(t0, st, {}) and t0[0] == st[0] and (t0[0] != "adt" or t0[1] == st[1]):
                    good.append((b, self.unify_sig(b, argtys, ret) or {}, True))
                continue
            if st[0] == "adt" and sh != last(st[1]) and not (sh and re.match(r"[A-Z]\w?$", sh)):
                continue
            if st[0] == "int" and sh != st[1]:
                continue
            if st[0] in ("array", "slice", "str", "bool", "tuple") and sh and sh.isidentifier() and not (st[0] == "str" and sh == "str"):
                continue
            env = self.unify_sig(b, argtys, ret)
            if env is None:
                continue
            # the impl's self type for `From<X> for Y` is the return type: already unified loosely; check it
            if c.method in ("from", "try_from", "default", "from_str", "new") and b.ret[0] == "adt" and st[0] == "adt":
                r0 = b.ret
                if c.method in ("try_from", "from_str") and r0[1] == RES:
                    r0 = r0[2][0]
                if r0[0] == "adt" and r0[1] != st[1]:
                    continue
            if c.method == "from" and c.trait[2]:
                e2 = {}
                if not unify(self.strip_ref(b.locals[b.args[0]]), self.strip_ref(c.trait[2][0]), e2):
                    continue
            good.append((b, env, False))
        if len(good) > 1:
            exact = [g for g in good if not g[1]]
            good = exact or good
        if good:
            return good[0]
        # default method of a local trait
        b = self.prog.get(f"{c.trait[1]}::{c.method}")
        if b is not None:
            env = self.unify_sig(b, argtys, ret) or {}
            env["Self"] = c.selfty
            return (b, env, False)
        return None

    def do_call(self, fr, st, s):
        dest, text, ops, tgt = s[1], s[2], s[3], s[4]
        args = [self.operand(st, fr, o) for o in ops]
        argtys = [self.operand_ty(fr, o) for o in ops]
        ret = self.place_ty(fr, dest)
        if re.match(r"(move|copy) ", text):
            f = self.operand(st, fr, ("copy", parse_place(text[5:])))
            outs = self.call_value(st, fr, f, args, argtys, ret)
        else:
            c = self.callee(text, fr.tenv)
            outs = self.invoke(st, fr, c, args, argtys, ret)
        res = []
        for s2, o in outs:
            if o[0] == TRAP:
                res.append(("trap", s2, o[1]))
            elif tgt is None:
                # diverging call that returned: treat as unreachable
                continue
            else:
                cell, projs, _ = self.loc(s2, fr, dest)
                self.write(s2, cell, projs, o[1])
                res.append(("goto", s2, tgt))
        return res

    def ret(self, st, v):
        return [(st, (RET, v))]

    def trap(self, st, msg):
        return [(st, (TRAP, msg))]

    def invoke(self, st, fr, c, args, argtys, ret):
        call = Call(self, st, fr, c, args, argtys, ret)
        # 1. contract of a local function
        loc = None
        mdl = None
        if c.trait is not None:
            mdl = self.trait_models.get((last(c.trait[1]), c.method))
            loc = self.resolve(c, argtys, ret)
            if loc is not None and loc[2] and mdl is not None:
                loc = None      # derived impl: structural model
            if loc is not None and mdl is not None and args and isinstance(self.deref(st, args[0]), Iter):
                loc = None      # an iterator of the standard library
        else:
            mdl = self.models.get(c.name)
            if mdl is None:
                loc = self.resolve(c, argtys, ret)
        if loc is not None:
            body, env, derived = loc
            ct = self.contracts.get(body.name)
            if ct is not None and not (self.unit_body == body.name):
                return ct(call, env)
            fm = self.models.get("fn:" + self.short(body.name))
            if fm is not None:
                return self.wrap(call, fm)
            # async fn: returns its coroutine, executed at the await
            self.inlined[self.short(body.name)] = self.inlined.get(self.short(body.name), 0) + 1
            outs = self.run_body(st, body, args, env, fr.depth + 1)
            return self.merge(outs)
        if mdl is not None:
            return self.wrap(call, mdl)
        for pre, f in self.prefix_models:
            if c.name.startswith(pre):
                return self.wrap(call, f, pre + "*")
        # constructor function?
        ctor = self.ctor(c, args, ret)
        if ctor is not None:
            return self.ret(st, ctor)
        return self.unknown(call)

    def wrap(self, call, f, name=None):
        n = name or (call.callee.name if call.callee.trait is None else f"<{show(call.callee.selfty)[:40]} as {last(call.callee.trait[1])}>::{call.callee.method}")
        self.used_models[n] = self.used_models.get(n, 0) + 1
        r = f(call)
        if isinstance(r, list):
            return r
        return [(call.st, (RET, r))]

    def unknown(self, call):
        """an external function nothing is known about: any result, any effect on its &mut arguments; assumed not to trap"""
        n = call.callee.name if call.callee.trait is None else f"<{show(call.callee.selfty)[:60]} as {last(call.callee.trait[1])}>::{call.callee.method}"
        self.unknown_calls[n] = self.unknown_calls.get(n, 0) + 1
        if self.opaque_ok is not None and n not in self.opaque_ok:
            raise Unsupported("call of " + n)
        st = call.st
        st.notes = st.notes + (("unknown", n),)
        for a, t in zip(call.args, call.argtys):
            if isinstance(a, MRef):
                old = self.read(st, a.cell, a.projs)
                tt = t[2] if t[0] == "ref" else t
                if isinstance(old, (Opaque, Clo, Iter)) or old is None:
                    continue
                self.write(st, a.cell, a.projs, self.fresh(st, tt, "havoc"))
        if call.ret[0] == "never":
            return self.trap(st, n)
        try:
            v = self.fresh(st, call.ret, "r_" + call.callee.method)
        except Unsupported:
            v = Opaque(n)
        return self.ret(st, v)

    def ctor(self, c, args, ret):
        """tuple-struct / variant constructor used as a function"""
        n = ret
        if n[0] != "adt" or c.trait is not None:
            return None
        d = self.S.adt_def(n)
        if d is None:
            return None
        if d[0][0] is None and len(d) == 1 and c.method == last(n[1]) and len(args) == len(d[0][2]):
            return Agg(self.S.norm(n), None, args)
        for i, (vn, _, fl) in enumerate(d):
            if vn == c.method and len(fl) == len(args) and len(c.segs) >= 2 and c.segs[-2] == last(n[1]):
                return Agg(n, i, args)
        return None

    def call_value(self, st, fr, f, args, argtys=None, ret=None):
        """call a closure / fn item value with explicit arguments"""
        while isinstance(f, MRef):
            f = self.read(st, f.cell, f.projs)
        if isinstance(f, Clo):
            body = self.closures.get(f.loc)
            if body is None:
                raise Unsupported("closure body " + f.loc)
            body.parse()
            env = f.tenv
            outs = self.run_body(st, body, [f] + list(args), env, (fr.depth if fr else 0) + 1)
            return self.merge(outs)
        if isinstance(f, PyFn):
            return f.fn(self, st, [self.deref(st, a) for a in args])
        if isinstance(f, FnItem):
            c = self.callee(f.text, f.tenv)
            if argtys is None:
                argtys = [self.vty(a) for a in args]
            if ret is None:
                ret = self.fn_ret(c, argtys)
            fr2 = fr or Frame(0, None, f.tenv, 1)
            return self.invoke(st, fr2, c, args, argtys, ret)
        if isinstance(f, Opaque):
            raise Unsupported("call of opaque value")
        raise Unsupported("call of " + type(f).__name__)

    def fn_ret(self, c, argtys):
        if c.trait is not None:
            if c.method in ("from", "default", "clone", "to_owned"):
                return self.strip_ref(c.selfty)
            if c.method == "into":
                return c.trait[2][0]
            if c.method == "to_string":
                return ("adt", "std::string::String", ())
        r = self.resolve(c, argtys, None)
        if r is not None:
            return subst(r[0].ret, r[1])
        if c.name in ("std::option::Option::Some",):
            return opt(argtys[0])
        if len(c.segs) >= 2:
            p = "::".join(c.segs[:-1])
            if p in self.defs.adts:
                return ("adt", p, tuple(c.tyargs))
            if p in (OPT, RES):
                return ("adt", p, tuple(c.tyargs))
        if c.name in self.defs.adts:
            return ("adt", c.name, tuple(c.generics))
        raise Unsupported("return type of fn item " + c.text[:80])

    def vty(self, v):
        """best-effort Rust type of a value"""
        if isinstance(v, Agg):
            return v.ty
        if isinstance(v, Lst):
            return ("slice", v.elem)
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v):
                return ("bool",)
            s = v.sort()
            if s in self.S.dt:
                return self.S.dt[s][0]
            if s in self.S.seq:
                return ("slice", self.S.seq[s])
            if z3.is_int(v):
                return ("opaque", "int")
        return ("opaque", "?")

    def clo_ret_ty(self, f, st=None):
        while isinstance(f, MRef) and st is not None:
            f = self.read(st, f.cell, f.projs)
        if isinstance(f, Clo):
            b = self.closures[f.loc].parse()
            return subst(b.ret, f.tenv)
        if isinstance(f, PyFn):
            return f.ret
        return None

    # merging ------------------------------------------------------------
    def merge(self, outs):
        rets = [(s, o[1]) for s, o in outs if o[0] == RET]
        rest = [(s, o) for s, o in outs if o[0] != RET]
        if len(rets) <= 1:
            return outs
        try:
            m = self.merge_states([s for s, _ in rets], [v for _, v in rets])
        except Unsupported:
            return outs
        if m is None:
            return outs
        return [(m[0], (RET, m[1]))] + rest

    def merge_states(self, sts, vals):
        base = 0
        pcs = [s.pc for s in sts]
        n = min(len(p) for p in pcs)
        while base < n and all(p[base] is pcs[0][base] or p[base].eq(pcs[0][base]) for p in pcs):
            base += 1
        fbase = 0
        fs = [s.facts for s in sts]
        n = min(len(p) for p in fs)
        while fbase < n and all(p[fbase] is fs[0][fbase] or p[fbase].eq(fs[0][fbase]) for p in fs):
            fbase += 1
        conds = [z3.And(p[base:]) if len(p) > base + 1 else (p[base] if len(p) > base else z3.BoolVal(True)) for p in pcs]
        if any(z3.is_true(c) for c in conds) or any(conds[i].eq(conds[j]) for i in range(len(conds)) for j in range(i)):
            return None     # nothing tells the states apart
        if any(s.notes != sts[0].notes for s in sts):
            notes = sum((s.notes for s in sts), ())
        else:
            notes = sts[0].notes
        # ghost must agree
        for s in sts[1:]:
            if s.ghost.keys() != sts[0].ghost.keys() or any(not same(s.ghost[k], sts[0].ghost[k]) for k in s.ghost):
                return None
        out = St()
        out.pc = pcs[0][:base] + [simp(z3.Or(conds))]
        out.facts = fs[0][:fbase]
        for c, f in zip(conds, fs):
            for e in f[fbase:]:
                out.facts.append(z3.Implies(c, e) if not z3.is_true(c) else e)
        out.ghost, out.notes = dict(sts[0].ghost), notes
        keys = set(sts[0].cells)
        for s in sts[1:]:
            keys &= set(s.cells)
        allk = set()
        for s in sts:
            allk |= set(s.cells)
        for k in allk:
            vs = [s.cells.get(k) for s in sts]
            if k not in keys:
                # a heap cell created on some paths only: keep when unambiguous
                cand = [v for v in vs if v is not None]
                if len(cand) == 1 or all(same(cand[0], x) for x in cand):
                    out.cells[k] = cand[0] if cand else None
                    continue
                return None
            if all(same(vs[0], v) for v in vs[1:]):
                out.cells[k] = vs[0]
            else:
                out.cells[k] = self.merge_vals(conds, vs, sts)
        v = vals[0] if all(same(vals[0], x) for x in vals[1:]) else self.merge_vals(conds, vals, sts)
        return out, v

    def merge_vals(self, conds, vs, sts):
        if any(v is None for v in vs):
            if all(v is None for v in vs):
                return None
            raise Unsupported("merge uninit")
        if all(isinstance(v, Opaque) for v in vs):
            return vs[0]
        if all(isinstance(v, Agg) for v in vs) and all(v.var == vs[0].var and len(v.f) == len(vs[0].f) for v in vs):
            return Agg(vs[0].ty, vs[0].var,
                       [fs[0] if all(same(fs[0], x) for x in fs[1:]) else self.merge_vals(conds, fs, sts)
                        for fs in map(list, zip(*[v.f for v in vs]))])
        if all(isinstance(v, Lst) for v in vs) and all(len(v.items) == len(vs[0].items) for v in vs):
            return Lst(vs[0].elem, [fs[0] if all(same(fs[0], x) for x in fs[1:]) else self.merge_vals(conds, list(fs), sts)
                                    for fs in zip(*[v.items for v in vs])])
        if any(isinstance(v, (MRef, Clo, FnItem, PyFn, Iter)) for v in vs):
            raise Unsupported("merge refs")
        if any(self.holds_ref(v) for v in vs):
            raise Unsupported("merge refs")
        tys = [v.ty if isinstance(v, Agg) else ("slice", v.elem) if isinstance(v, Lst) else None for v in vs]
        t = next((x for x in tys if x is not None), None)
        if t is None and not all(isinstance(v, z3.ExprRef) for v in vs):
            raise Unsupported("merge types")
        zs = [self.z(v, t, s) for v, s in zip(vs, sts)]
        if any(x.sort() != zs[0].sort() for x in zs):
            raise Unsupported("merge sorts")
        e = zs[-1]
        for c, x in list(zip(conds, zs))[-2::-1]:
            e = z3.If(c, x, e)
        return e

    def holds_ref(self, v):
        if isinstance(v, (MRef, Clo, FnItem, PyFn, Iter)):
            return True
        if isinstance(v, Agg):
            return any(self.holds_ref(x) for x in v.f)
        if isinstance(v, Lst):
            return any(self.holds_ref(x) for x in v.items)
        return False

    # loops --------------------------------------------------------------
    def do_loop(self, fr, st, h, stop):
        key = (self.short(fr.body.name), fr.body._hord.get(h, -1))
        spec = self.loop_specs.get(key)
        if spec is None:
            return self.unroll(fr, st, h, stop)
        self.oblige(st, f"loop invariant holds on entry: {key[0]}#{key[1]}", z3.And(spec(LoopCtx(self, st, fr)) + [z3.BoolVal(True)]))
        H = set()
        loopghost = set()
        for it in range(12):
            s1 = st.fork()
            self.havoc_paths(s1, H, fr)
            base = dict(s1.cells)
            s1.facts += spec(LoopCtx(self, s1, fr))
            self.dry += 1
            try:
                res = self.explore(fr, s1.fork(), h, stop | {h}, True)
            finally:
                self.dry -= 1
            new = set()
            for r in res:
                if r[0] == "stop" and r[2] == h:
                    for gk in set(r[1].ghost) | set(s1.ghost):
                        if not same(r[1].ghost.get(gk, ()), s1.ghost.get(gk, ())):
                            loopghost.add(gk)
                    for cell, v in r[1].cells.items():
                        if cell in base:
                            self.diff(base[cell], v, (cell,), new)
            if new <= H:
                break
            H |= new
            H = {p for p in H if not any(p != q and p[:len(q)] == q for q in H)}
        else:
            raise Unsupported("loop havoc fixpoint")
        s1 = st.fork()
        self.havoc_paths(s1, H, fr)
        for gk in loopghost:        # calls made in earlier iterations: any number of them
            s1.ghost[gk] = s1.ghost.get(gk, ()) + (LoopMark(),)
        s1.facts += spec(LoopCtx(self, s1, fr))
        res = self.explore(fr, s1, h, stop | {h}, True)
        out = []
        for r in res:
            if r[0] == "stop" and r[2] == h:
                self.oblige(r[1], f"loop invariant preserved: {key[0]}#{key[1]}",
                            z3.And(spec(LoopCtx(self, r[1], fr)) + [z3.BoolVal(True)]))
            else:
                out.append(r)
        return out

    def diff(self, a, b, path, out):
        if same(a, b):
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.f) == len(b.f):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                self.diff(x, y, path + (i,), out)
            return
        out.add(path)

    def havoc_paths(self, st, H, fr):
        for p in sorted(H, key=str):
            cell, idx = p[0], p[1:]
            st.cells[cell] = self.havoc_in(st, st.cells.get(cell), list(idx), cell, fr)

    def havoc_in(self, st, v, idx, cell, fr):
        if idx:
            n = Agg(v.ty, v.var, v.f)
            n.f[idx[0]] = self.havoc_in(st, v.f[idx[0]], idx[1:], cell, fr)
            return n
        if isinstance(v, z3.ExprRef):
            c = self.const(v.sort(), "loop")
            t = None
            if cell[0] == fr.id:
                t = fr.lty(cell[1])
            if t is not None and self.S.sort(t) == v.sort():
                st.facts += self.wf(t, c)
            elif v.sort() in self.S.dt:
                st.facts += self.wf(self.S.dt[v.sort()][0], c)
            elif v.sort() in self.S.seq:
                st.facts += [v.sort().accessor(0, 0)(c) >= 0]
            elif z3.is_int(v):
                pass
            return c
        if isinstance(v, Iter):
            p = self.const(z3.IntSort(), "pos")
            st.facts += [p >= 0, p <= v.hi]
            return v.with_(pos=p)
        if isinstance(v, Agg):
            z = self.z(v, v.ty, st)
            c = self.const(z.sort(), "loop")
            st.facts += self.wf(v.ty, c)
            return c
        if isinstance(v, Lst):
            z = self.z(v, ("slice", v.elem), st)
            c = self.const(z.sort(), "loop")
            st.facts += [z.sort().accessor(0, 0)(c) >= 0]
            return c
        if v is None or isinstance(v, Opaque):
            return None if v is None else v
        if isinstance(v, (Clo, MRef, Discr, FnItem, PyFn)):
            return None     # temporaries; re-assigned before use, otherwise execution reports them uninitialised
        raise Unsupported(f"havoc of {type(v).__name__}")

    unroll_limit = 80

    def unroll(self, fr, st, h, stop):
        out = []
        cur = [st]
        for it in range(self.unroll_limit):
            nxt = []
            for s in cur:
                for r in self.explore(fr, s, h, stop | {h}, True):
                    if r[0] == "stop" and r[2] == h:
                        nxt.append(r[1])
                    else:
                        out.append(r)
            cur = nxt
            if not cur:
                return out
            if it > 6 and len(cur) > 8:
                break
        raise Unsupported(f"loop without invariant in {self.short(fr.body.name)}")

    unit_body = None


class LoopCtx:
    """what a loop invariant can see: variables by source name, iterator positions"""

    def __init__(self, eng, st, fr):
        self.eng, self.st, self.fr = eng, st, fr

    def var(self, name):
        for p in self.fr.body.debug.get(name, []):
            if not p.startswith(("_", "(")):
                continue
            place = parse_place(p)
            cell, projs, t = self.eng.loc(self.st, self.fr, place)
            v = self.eng.deref(self.st, self.eng.read(self.st, cell, projs))
            if v is not None:
                return v
        raise Unsupported(f"anchor lost: variable {name}")

    def iters(self):
        return [v for k, v in sorted(self.st.cells.items(), key=lambda kv: str(kv[0])) if k[0] == self.fr.id and isinstance(v, Iter)]


def simp_recog(r, v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return z3.simplify(r(v))
    return r(v)
