"""Rust types as printed in MIR, as hashable tuples.

  ('int','u64') ('bool',) ('str',) ('char',) ('never',) ('float',n)
  ('adt', path, (args...)) ('param', name) ('ref', mut, T) ('ptr', T)
  ('tuple', (..)) ('array', T, n) ('slice', T) ('closure', loc) ('coroutine', text)
  ('fndef', text) ('opaque', text) ('proj', T, trait, name)
"""
import re
from functools import lru_cache

ROOT = set()        # types and traits declared at a crate root: named without a path
INTS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
        "u128": (0, 2**128 - 1), "usize": (0, 2**64 - 1),
        "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1), "char": (0, 0x10FFFF)}


class ParseError(Exception):
    pass


class P:
    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def ws(self):
        s, i = self.s, self.i
        while i < len(s) and s[i] in " \n":
            i += 1
        self.i = i

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def expect(self, t):
        if not self.eat(t):
            raise ParseError(f"expected {t!r} at {self.s[self.i:self.i+60]!r} in {self.s[:200]!r}")

    def ident(self):
        self.ws()
        m = re.compile(r"[A-Za-z_][A-Za-z0-9_]*").match(self.s, self.i)
        if not m:
            raise ParseError(f"ident expected at {self.s[self.i:self.i+60]!r}")
        self.i = m.end()
        return m.group(0)


def balanced(s, i):
    """index just after the bracket that closes the one at s[i]; '->' is not a bracket."""
    op = {"(": ")", "[": "]", "{": "}", "<": ">"}
    st = []
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == "\\"):
            i += 1
            while s[i] != "'":
                i += 2 if s[i] == "\\" else 1
        elif c in op:
            st.append(op[c])
        elif c in ")]}>":
            if c == ">" and s[i - 1] in "-=":
                pass
            else:
                if not st or st[-1] != c:
                    raise ParseError(f"unbalanced {c} in {s!r}")
                st.pop()
                if not st:
                    return i + 1
        i += 1
    raise ParseError("unbalanced " + s)


def parse_type(p):
    p.ws()
    s = p.s
    if p.eat("&"):
        p.ws()
        m = re.compile(r"'[a-z_A-Z0-9]+ ").match(s, p.i)
        if m:
            p.i = m.end()
        mut = p.eat("mut ")
        return ("ref", mut, parse_type(p))
    if p.eat("*const "):
        return ("ptr", parse_type(p))
    if p.eat("*mut "):
        return ("ptr", parse_type(p))
    if p.eat("("):
        items = []
        while not p.eat(")"):
            items.append(parse_type(p))
            if not p.eat(","):
                p.expect(")")
                if len(items) == 1:
                    return items[0]
                break
        return ("tuple", tuple(items))
    if p.peek("["):
        p.eat("[")
        t = parse_type(p)
        if p.eat(";"):
            p.ws()
            j = s.index("]", p.i)
            n = s[p.i:j].strip()
            p.i = j + 1
            m = re.match(r"(?:const )?(\d+)(?:_usize)?$", n)
            return ("array", t, int(m.group(1)) if m else n)
        p.expect("]")
        return ("slice", t)
    if p.peek("{"):
        j = balanced(s, p.i)
        txt = s[p.i:j]
        p.i = j
        if txt.startswith("{closure@"):
            return ("closure", txt[9:-1])
        if txt.startswith("{async") or txt.startswith("{gen"):
            return ("coroutine", txt[1:-1])
        return ("fndef", txt)
    if p.eat("!"):
        return ("never",)
    if p.peek("<"):
        p.eat("<")
        t = parse_type(p)
        tr = None
        if p.eat("as "):
            tr = parse_path_type(p)
        p.expect(">")
        p.expect("::")
        name = p.ident()
        if p.peek("<") or p.peek("::<"):
            p.eat("::")
            p.ws()
            p.i = balanced(s, p.i)
        return ("proj", t, tr, name)
    for kw in ("dyn ", "impl "):
        if p.peek(kw):
            # up to an unbalanced delimiter
            i = p.i
            depth = 0
            while i < len(s):
                if s[i] in "([{<":
                    i = balanced(s, i)
                    continue
                if s[i] in ")]}>,;" and not (s[i] == ">" and s[i - 1] in "-="):
                    break
                if s[i] == "=" or s.startswith(" {", i):
                    break
                if s.startswith(" as ", i):
                    i += 1
                    break
                i += 1
            txt = s[p.i:i]
            p.i = i
            return ("opaque", txt.strip())
    for kw in ("for<", "fn(", "extern ", "unsafe "):
        if p.peek(kw):
            i = p.i
            while i < len(s):
                if s[i] in "([{<":
                    i = balanced(s, i)
                    continue
                if s[i] in ")]},;" or (s[i] == ">" and s[i - 1] not in "-="):
                    break
                i += 1
            txt = s[p.i:i]
            p.i = i
            return ("opaque", txt.strip())
    return parse_path_type(p)


def parse_generics(p):
    """after '<' was eaten"""
    args = []
    while not p.eat(">"):
        p.ws()
        m = re.compile(r"'[a-z_A-Z0-9]+").match(p.s, p.i)
        if m:
            p.i = m.end()
        elif re.compile(r"-?\d+").match(p.s, p.i):
            m = re.compile(r"-?\d+").match(p.s, p.i)
            p.i = m.end()
            args.append(("const", int(m.group(0))))
        elif p.peek("{") and not re.compile(r"\{(closure|async|gen|impl|coroutine)").match(p.s, p.i):
            j = balanced(p.s, p.i)
            args.append(("constexpr", p.s[p.i:j]))
            p.i = j
        else:
            m = re.compile(r"([A-Za-z_]\w*) = ").match(p.s, p.i)
            if m:  # assoc type binding
                p.i = m.end()
                parse_type(p)
            else:
                args.append(parse_type(p))
        p.eat(",")
    return tuple(args)


def parse_path_type(p):
    segs = [p.ident()]
    args = ()
    while True:
        if p.s.startswith("::<", p.i):
            p.i += 3
            args = parse_generics(p)
        elif p.s.startswith("<", p.i):
            p.i += 1
            args = parse_generics(p)
        elif p.s.startswith("::{", p.i):
            p.i += 2
            j = balanced(p.s, p.i)
            segs.append(p.s[p.i:j])
            p.i = j
        elif p.s.startswith("::", p.i):
            p.i += 2
            segs.append(p.ident())
        elif p.s.startswith("(", p.i) and segs[-1] in ("Fn", "FnMut", "FnOnce"):
            p.i = balanced(p.s, p.i)
            if p.eat("->"):
                parse_type(p)
        else:
            break
    path = "::".join(segs)
    if not args and len(segs) == 1:
        if path in INTS:
            return ("int", path)
        if path == "bool":
            return ("bool",)
        if path == "str":
            return ("str",)
        if path in ("f64", "f32"):
            return ("float", path)
        if path[0].isupper() and "::" not in path and path not in ROOT:
            return ("param", path)
    return ("adt", path, args)


@lru_cache(maxsize=None)
def ty(s):
    p = P(s)
    t = parse_type(p)
    p.ws()
    if p.i != len(s):
        raise ParseError(f"trailing {s[p.i:]!r} in type {s!r}")
    return t


def subst(t, env):
    if not env:
        return t
    k = t[0]
    if k == "param":
        return env.get(t[1], t)
    if k == "adt":
        return ("adt", t[1], tuple(subst(a, env) for a in t[2]))
    if k == "ref":
        return ("ref", t[1], subst(t[2], env))
    if k in ("ptr", "slice"):
        return (k, subst(t[1], env))
    if k == "tuple":
        return ("tuple", tuple(subst(a, env) for a in t[1]))
    if k == "array":
        n = t[2]
        if isinstance(n, str) and n in env and env[n][0] == "const":
            n = env[n][1]
        return ("array", subst(t[1], env), n)
    if k == "proj":
        return ("proj", subst(t[1], env), t[2] and subst(t[2], env), t[3])
    return t


def unify(pat, t, env):
    """match pattern type (with params) against t, extending env; False if impossible."""
    if pat[0] == "param":
        if pat[1] in env:
            return env[pat[1]] == t or True
        env[pat[1]] = t
        return True
    if pat[0] in ("proj", "opaque") or t[0] in ("opaque", "proj", "param"):
        return True
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k == "adt":
        if last(pat[1]) != last(t[1]):
            return False
        if pat[1] != t[1] and not (pat[1].endswith("::" + t[1]) or t[1].endswith("::" + pat[1])):
            return False
        return all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    if k == "ref":
        return unify(pat[2], t[2], env)
    if k in ("ptr", "slice"):
        return unify(pat[1], t[1], env)
    if k == "tuple":
        return len(pat[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(pat[1], t[1]))
    if k == "array":
        if isinstance(pat[2], str):
            env.setdefault(pat[2], ("const", t[2]))
        elif isinstance(t[2], int) and pat[2] != t[2]:
            return False
        return unify(pat[1], t[1], env)
    return pat == t


def last(path):
    return path.rsplit("::", 1)[-1]


def show(t):
    k = t[0]
    if k in ("int", "param", "closure", "coroutine", "fndef", "opaque", "float"):
        return t[1]
    if k in ("bool", "str", "never"):
        return k
    if k == "adt":
        return last(t[1]) + ("<" + ",".join(map(show, t[2])) + ">" if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + show(t[2])
    if k == "tuple":
        return "(" + ",".join(map(show, t[1])) + ")"
    if k == "array":
        return f"[{show(t[1])};{t[2]}]"
    if k == "slice":
        return f"[{show(t[1])}]"
    return str(t)
