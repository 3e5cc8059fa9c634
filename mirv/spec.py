"""Contracts and the verification driver."""
import time
import traceback
import z3

from .rtypes import last, show, subst, unify
from .values import *   # noqa
from .engine import Engine, Frame, St, LoopCtx, simp, TRAP, RET, Obligation
from .mirparse import parse_place


class W:
    """specification-side view of a value: fields by their Rust names"""
    __slots__ = ("_e", "_s", "_v", "_t")

    def __init__(self, eng, st, v, t):
        self._e, self._s, self._t = eng, st, eng.S.norm(t)
        self._v = eng.deref(st, v)

    def __getattr__(self, name):
        if name.startswith("_") and not name[1:].isdigit():
            raise AttributeError(name)
        return self.f(name.lstrip("_") if name[1:].isdigit() else name)

    def f(self, name):
        t = self._v.ty if isinstance(self._v, Agg) else self._t
        d = self._e.S.adt_def(self._e.S.norm(t))
        if d is None:
            raise Unsupported(f"anchor lost: field {name} of {show(t)[:60]}")
        for i, (fn, ft) in enumerate(d[0][2]):
            if fn == str(name):
                return W(self._e, self._s, self._e.proj_field(self._s, self._v, i, ft), ft)
        raise Unsupported(f"anchor lost: field {name} of {show(t)[:60]}")

    def __getitem__(self, i):
        return self.f(str(i))

    @property
    def z(self):
        return self._e.z(self._v, self._t, self._s)

    def is_(self, variant):
        return self._e.is_variant(self._v, self._t, variant)

    def as_(self, variant, field=0):
        t = self._v.ty if isinstance(self._v, Agg) else self._t
        d = self._e.S.adt_def(self._e.S.norm(t))
        for i, (vn, _, fl) in enumerate(d):
            if vn == variant:
                for j, (fn, ft) in enumerate(fl):
                    if fn == str(field):
                        if isinstance(self._v, Agg):
                            if (self._v.var or 0) != i:
                                return W(self._e, self._s, self._e.const(self._e.S.sort(ft), "junk"), ft)
                            return W(self._e, self._s, self._v.f[j], ft)
                        return W(self._e, self._s, self._e.proj_field(self._s, self._v, j, ft, vn), ft)
        raise Unsupported(f"anchor lost: variant {variant}.{field} of {show(t)[:60]}")

    def payload(self, *variants, field=0):
        """value of `field` in whichever of the variants holds"""
        xs = [(self.is_(v), self.as_(v, field)) for v in variants]
        e = xs[-1][1].z
        for c, x in xs[-2::-1]:
            e = z3.If(c, x.z, e)
        return W(self._e, self._s, e, xs[0][1]._t)

    def eq(self, o):
        ov = o._v if isinstance(o, W) else o
        if isinstance(ov, int):
            ov = z3.IntVal(ov)
        return self._e.eq(self._v, ov, self._t, self._s)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return z3.Not(self.eq(o))

    __hash__ = None

    # maps / sets
    def get(self, k):
        kz = k.z if isinstance(k, W) else k
        return W(self._e, self._s, z3.Select(self.z, kz), opt(self._t[2][1]))

    def has(self, k):
        kz = k.z if isinstance(k, W) else k
        o = z3.Select(self.z, kz)
        return o if o.sort() == z3.BoolSort() else o.sort().recognizer(1)(o)

    def val(self, k):
        return self.get(k).as_("Some")

    # sequences
    @property
    def len(self):
        return self._e.seq_len(self._v)

    def at(self, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return W(self._e, self._s, self._e.seq_at(self._s, self._v, i, self._e.S.elem_type(self._t)), self._e.S.elem_type(self._t))

    def __repr__(self):
        return f"W({self._v!r:.100}: {show(self._t)[:60]})"


class Ctx:
    def __init__(self, eng, st, names, pre, tys, ret=None, ret_ty=None, st0=None):
        self.eng, self.st, self.names, self.pre, self.tys = eng, st, names, pre, tys
        self._ret, self._ret_ty, self.st0 = ret, ret_ty, st0
        self.trap = None

    def idx(self, n):
        if isinstance(n, int):
            return n
        if n in self.names:
            return self.names.index(n)
        raise Unsupported(f"anchor lost: parameter {n}")

    def a(self, n):
        """value of a parameter at entry"""
        i = self.idx(n)
        return W(self.eng, self.st, self.pre[i][0], self.tys[i])

    def f(self, n):
        """value behind a &mut parameter at exit"""
        i = self.idx(n)
        v, m = self.pre[i]
        if m is None:
            return W(self.eng, self.st, v, self.tys[i])
        return W(self.eng, self.st, m, self.tys[i])

    @property
    def ret(self):
        return W(self.eng, self.st, self._ret, self._ret_ty)

    def const(self, sort, n="c"):
        return self.eng.const(sort, n)

    # the canister's state (behind read_state / mutate_state)
    g0v = None

    @property
    def g0(self):
        return W(self.eng, self.st, self.g0v[0], self.g0v[1])

    @property
    def g(self):
        return W(self.eng, self.st, self.st.cells[GSTATE], opt(self.g0v[1])).as_("Some")

    @property
    def log0(self):
        return W(self.eng, self.st, self.log0v[0], self.log0v[1])

    @property
    def log(self):
        return W(self.eng, self.st, self.st.cells[LOG], self.log0v[1])

    def calls(self, *names):
        """calls made to functions taken by their contract (step), in order"""
        return [x for x in self.st.ghost.get("calls", ()) if not names or x.name in names]


GSTATE = ("TL", "Option<State>")
LOG = ("TL", "log")


class Made:
    """a call to a function that is taken by contract: its arguments at the call and what it left behind &mut"""
    __slots__ = ("name", "args", "posts", "retv", "ret_ty", "eng")

    def __init__(self, eng, name, args, posts, retv, ret_ty):
        self.eng, self.name, self.args, self.posts, self.retv, self.ret_ty = eng, name, args, posts, retv, ret_ty

    def a(self, c, i):
        v, t = self.args[i]
        return W(self.eng, c.st, v, t)

    def post(self, c, i):
        return W(self.eng, c.st, self.posts[i], self.args[i][1])

    def ret(self, c):
        return W(self.eng, c.st, self.retv, self.ret_ty)


def strip(t):
    while t[0] == "ref":
        t = t[2]
    return t


def step(name, traps=True, record=True, post=None, ret=None):
    """contract of a callee that is verified on its own: its effect is a function of its arguments, whatever that function is.
    What it leaves behind every &mut argument and what it returns are uninterpreted functions of all the arguments."""
    def contract(call, env=None):
        e, st = call.eng, call.st
        e.used_models["contract: " + name] = e.used_models.get("contract: " + name, 0) + 1
        zs, pre = [], []
        for a, t in zip(call.args, call.argtys):
            v = e.deref(st, a)
            tt = e.S.norm(strip(t))
            if isinstance(v, (Opaque, Clo, FnItem, PyFn, Iter)):
                pre.append((v, tt))
                continue
            if isinstance(v, Agg):
                tt = v.ty
            pre.append((v, tt))
            zs.append(e.z(v, tt, st))
        srt = [x.sort() for x in zs]
        def app(tag, t):
            t = e.S.norm(t)
            so = e.S.sort(t)
            f = e.uf(f"{name}#{tag}", *srt, so)
            r = f(*zs) if zs else z3.Const(f"{name}#{tag}", so)
            st.facts.extend(e.wf(t, r))
            return r
        posts = {}
        for i, (a, t) in enumerate(zip(call.args, call.argtys)):
            if isinstance(a, MRef) and t[0] == "ref" and t[1]:
                posts[i] = app(f"post{i}", pre[i][1])
                e.write(st, a.cell, a.projs, posts[i])
        rt = call.ret
        r = Agg(UNIT_T, None, []) if rt == UNIT_T else app("ret", rt)
        if post:
            post(call, pre, posts, r)
        if record:
            st.ghost["calls"] = st.ghost.get("calls", ()) + (Made(e, name, pre, posts, r, rt),)
        return [(st, (RET, r))]
    return contract


def havoc_state(c, *keep, rely=None):
    """while a call is outstanding other messages run: the canister's state is arbitrary afterwards, except for what is kept"""
    e, st = c.eng, c.st
    if GSTATE not in st.cells:
        return
    t = Ctx.g0v[1]
    old = W(e, st, st.cells[GSTATE], opt(t)).as_("Some")
    new = e.fresh(st, t, "STATE~")
    d = e.S.adt_def(t)
    f = [old.f(fn)._v if fn in keep else x for (fn, ft), x in zip(d[0][2], new.f)]
    nv = Agg(new.ty, None, f)
    for k in keep:
        old.f(k)
    st.cells[GSTATE] = e.some(t, nv)
    if rely:
        st.facts += rely(old, W(e, st, nv, t))


def outcall(name, effect=None, keep=(), rely=None, record=True):
    """contract of an async callee: any result; other messages may run meanwhile (effect(c, made) may add facts)"""
    def contract(call, env=None):
        e = call.eng
        pre = []
        for a, t in zip(call.args, call.argtys):
            v = e.deref(call.st, a)
            pre.append((v, v.ty if isinstance(v, Agg) else e.S.norm(strip(t))))
        b = e.resolve(call.callee, call.argtys, call.ret)[0]
        rt = subst(e.prog.coroutine(b.name).ret, env or {})

        def run(c):
            e.used_models["contract: " + name] = e.used_models.get("contract: " + name, 0) + 1
            havoc_state(c, *keep, rely=rely)
            r = e.fresh(c.st, rt, name) if rt != UNIT_T else Agg(UNIT_T, None, [])
            m = Made(e, name, pre, {}, r, rt)
            if record:
                c.st.ghost["calls"] = c.st.ghost.get("calls", ()) + (m,)
            out = effect(c, m) if effect else None
            return out if out is not None else [(c.st, (RET, r))]
        from .models import Fut
        return [(call.st, (RET, Fut(run)))]
    return contract


class Unit:
    """one function under contract"""

    def __init__(self, fn, requires=None, ensures=None, traps="any", loops=None, prop=None, setup=None, tenv=None, use=(), note="",
                 is_async=False, name=None, args=None, models=None, merge=False, crate="evm_minter", callee=None, gstate=False, log=False):
        self.fn, self.requires, self.ensures, self.traps = fn, requires, ensures, traps
        self.loops, self.prop, self.setup, self.tenv, self.use = loops or {}, prop, setup, tenv or {}, use
        self.merge, self.crate, self.callee, self.gstate, self.log = merge, crate, callee or {}, gstate, log
        self.note, self.is_async, self.name, self.args, self.models = note, is_async, name or fn, args, models or {}


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obligations = []
        self.status = "ok"        # ok | failed | undecided
        self.reason = ""
        self.paths = 0
        self.traps = 0
        self.seconds = 0.0
        self.functions = {}
        self.models = {}
        self.unknown = {}


def param_names(body):
    names = []
    for n in body.args:
        nm = None
        for k, ps in body.debug.items():
            for p in ps:
                if p == f"_{n}":
                    nm = k
        names.append(nm or f"_{n}")
    return names


def verify(eng, unit, budget=240):
    r = Result(unit)
    t0 = time.time()
    eng.obligations = []
    eng.unit = unit.name
    eng.merging = unit.merge
    eng.deadline = t0 + budget
    eng.inlined, eng.used_models, eng.unknown_calls = {}, {}, {}
    eng.loop_specs = {}
    eng.contracts = {}
    saved = dict(eng.models)
    for k, f in unit.models.items():
        eng.models[k] = f
    try:
        body = eng.find(unit.fn)
        eng.unit_body = body.name
        for k, s in unit.loops.items():
            if isinstance(k, tuple):
                eng.loop_specs[k] = s
            else:
                eng.loop_specs[(eng.short(body.name + ("::{closure#0}" if unit.is_async else "")), k)] = s
        st = St()
        names = param_names(body)
        tys = [subst(body.locals[n], unit.tenv) for n in body.args]
        args, pre = [], []
        for nm, t in zip(names, tys):
            if unit.args and nm in unit.args:
                v = unit.args[nm](eng, st, t)
            else:
                v = eng.fresh(st, t, nm)
            args.append(v)
            if isinstance(v, MRef):
                pre.append((eng.deref(st, v), v))
            else:
                pre.append((v, None))
        st0 = st
        if unit.gstate:
            gt = eng.S.norm(eng.ty("state::State"))
            gv = eng.fresh(st, gt, "STATE")
            st.cells[GSTATE] = eng.some(gt, gv)
            Ctx.g0v = (gv, gt)
        if unit.log:
            lt = eng.S.norm(eng.ty("std::vec::Vec<state::event::Event>"))
            lv = eng.fresh(st, lt, "LOG")
            st.cells[LOG] = lv
            Ctx.log0v = (lv, lt)
        for k, ct in unit.callee.items():
            b = eng.find(k)
            eng.contracts[b.name] = ct if callable(ct) else step(k)
        ctx = Ctx(eng, st, names, pre, tys, st0=st0)
        if unit.setup:
            unit.setup(ctx)
        if unit.requires:
            st.facts += [x for x in unit.requires(ctx)]
        # vacuity: the precondition must be satisfiable (quantifier-free part)
        if not eng.feasible(st, [z3.Bool("vacuity?")]) or eng.contradictory(st):
            raise Unsupported("precondition is contradictory")
        if unit.is_async:
            outs = run_async(eng, st, body, args, dict(unit.tenv))
        else:
            outs = eng.run_body(st, body, args, dict(unit.tenv), 0)
        rets = [(s, o[1]) for s, o in outs if o[0] == RET]
        traps = [(s, o[1]) for s, o in outs if o[0] == TRAP]
        r.traps = len(traps)
        ret_ty = subst(body.ret, unit.tenv)
        if unit.is_async:
            cb = eng.prog.coroutine(body.name)
            ret_ty = subst(cb.ret, unit.tenv)
        live = 0
        for s, v in rets:
            c = Ctx(eng, s, names, pre, tys, v, ret_ty, st0)
            if not eng.feasible(s, [z3.Bool("vacuity?")]):
                continue
            if eng.contradictory(s):
                continue
            live += 1
            if unit.ensures:
                for nm, cond in unit.ensures(c):
                    eng.oblige(s, nm, cond)
        r.paths = live
        for s, msg in traps:
            if unit.traps == "any":
                continue
            if not eng.feasible(s, [z3.Bool("vacuity?")]):
                continue
            c = Ctx(eng, s, names, pre, tys, None, ret_ty, st0)
            c.trap = msg
            cond = z3.BoolVal(False) if unit.traps == "never" else unit.traps(c)
            eng.oblige(s, "traps only when allowed", cond, str(msg))
        if unit.ensures and live == 0 and unit.traps == "any":
            raise Unsupported("no returning path: nothing would be proved")
        r.obligations = eng.obligations
        if not r.obligations:
            raise Unsupported("no obligation was generated")
        bad = [o for o in r.obligations if o.result == "failed"]
        unk = [o for o in r.obligations if o.result == "unknown"]
        if bad:
            r.status = "failed"
        elif unk:
            r.status, r.reason = "undecided", f"solver gave up on {len(unk)}: {unk[0].name}: {unk[0].detail[:100]}"
    except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, AssertionError, RecursionError, ValueError) as ex:
        r.obligations = eng.obligations
        r.status = "undecided"
        r.reason = f"{type(ex).__name__}: {ex}"
        r.trace = traceback.format_exc()
        if any(o.result == "failed" for o in eng.obligations):
            r.reason += " (some obligations had failed before)"
    finally:
        eng.models.clear()
        eng.models.update(saved)
        eng.deadline = None
    r.functions, r.models, r.unknown = dict(eng.inlined), dict(eng.used_models), dict(eng.unknown_calls)
    r.seconds = time.time() - t0
    return r


def run_async(eng, st, body, args, tenv):
    """call the async fn, then drive its future to completion"""
    from .models import run_future, then
    from .engine import Call
    outs = eng.run_body(st, body, args, tenv, 0)
    res = []
    for s, o in outs:
        if o[0] != RET:
            res.append((s, o))
            continue
        fr = Frame(0, body, {}, 0)
        c = Call(eng, s, fr, None, [o[1]], [], None)
        res += run_future(c, o[1])
    return res


def load_engine(built=None, crate="evm_minter"):
    from . import build, mirparse, srcdefs
    b = built or build.mir()
    p = mirparse.Program(*b[crate])
    d = srcdefs.Defs(p, b["ws"], build.source_files(b["ws"], {"evm_minter": "minter"}.get(crate, crate)))
    e = Engine(p, d)
    return e


def has(pred):
    return pred


def by_contract(unit):
    """a callee that is itself under contract: what its caller may assume is what was proved of it"""
    def contract(call, env=None):
        e, st = call.eng, call.st
        e.used_models["contract: " + unit.name] = e.used_models.get("contract: " + unit.name, 0) + 1
        names = param_names(e.find(unit.fn))
        pre, tys = [], []
        for a, t in zip(call.args, call.argtys):
            if isinstance(a, MRef) and t[0] == "ref" and t[1]:
                raise Unsupported("by_contract: &mut parameter")
            v = e.deref(st, a)
            pre.append((v, None))
            tys.append(v.ty if isinstance(v, Agg) else e.S.norm(strip(t)))
        rt = e.S.norm(call.ret)
        r = e.const(e.S.sort(rt), unit.fn.split("::")[-1])
        st.facts.extend(e.wf(rt, r))
        c = Ctx(e, st, names, pre, tys, r, rt, st)
        if unit.requires:
            for i, p in enumerate(unit.requires(c)):
                e.oblige(st, f"precondition {i} of {unit.name}", p)
        st.facts.extend(p for _, p in unit.ensures(c))
        return [(st, (RET, r))]
    return contract
