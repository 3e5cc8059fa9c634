import z3


def forall(vs, body, *pats):
    """quantifier with patterns where z3 accepts them"""
    if pats:
        bad = any(_has_bool(p) for p in pats if not isinstance(p, z3.PatternRef))
        if not bad:
            try:
                return z3.ForAll(vs, body, patterns=list(pats))
            except z3.Z3Exception:
                pass
    return z3.ForAll(vs, body)


def _has_bool(e, depth=0):
    if z3.is_app(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES):
            return True
        return any(_has_bool(x) for x in e.children())
    return z3.is_quantifier(e)


def N(w):
    """number inside a CheckedAmountOf / plain integer view"""
    try:
        return w.f(0).z
    except Exception:
        return w.z


def fields(w):
    t = w._v.ty if hasattr(w._v, "ty") else w._t
    d = w._e.S.adt_def(w._e.S.norm(t))
    return [fn for fn, _ in d[0][2]]


def frame(pre, post, *changed, label=""):
    """every field not named keeps its value"""
    out = []
    for f in fields(pre):
        if f not in changed:
            a, b = pre.f(f), post.f(f)
            try:
                eq = a == b
            except Exception:
                eq = a.z == b.z
            out.append((f"{label}{f} unchanged", eq))
    for f in changed:
        pre.f(f)        # anchor check
    return out


def same_seq(a, b):
    i = z3.Int("i!same")
    return z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len), a.at(i).z == b.at(i).z)))
