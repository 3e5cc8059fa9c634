"""ADT definitions and impl headers of the code under verification.

Definitions are obtained from rustc itself: next to every struct/enum of the shadow copy a probe function
that destructures a reference to it is added (on the same line, so positions do not move); its MIR carries the
fully resolved field types."""
import os
import re

from .rtypes import ROOT, balanced, ty, subst

PRE = "__mirv_probe_"


def mask(text):
    """text with comments, strings and char literals blanked, same length."""
    out = list(text)
    i, n = 0, len(text)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif text.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if text.startswith("/*", j):
                    d += 1
                    j += 2
                elif text.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == "r" and re.match(r'r#*"', text[i:i + 12]) and not (i and (text[i - 1].isalnum() or text[i - 1] == "_")):
            m = re.match(r'r(#*)"', text[i:])
            e = text.find('"' + m.group(1), i + m.end())
            blank(i, e + 1 + len(m.group(1)))
            i = e + 1 + len(m.group(1))
        elif c == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            blank(i, j + 1)
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.[^']*|[^'\\])'", text[i:])
            if m:
                blank(i, i + m.end())
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def _split(s):
    out, i, st = [], 0, 0
    while i < len(s):
        if s[i] in "([{<":
            i = balanced(s, i)
            continue
        if s[i] == ",":
            out.append(s[st:i])
            st = i + 1
        i += 1
    if s[st:].strip():
        out.append(s[st:])
    return out


def _strip_attrs(s):
    s = s.strip()
    while s.startswith("#"):
        k = s.index("[")
        s = s[balanced(s, k):].strip()
    return s


def _fields_named(body):
    names = []
    for f in _split(body):
        f = _strip_attrs(f)
        if not f:
            continue
        m = re.match(r"(?:pub(?:\s*\([^)]*\))?\s+)?(\w+)\s*:", f)
        names.append(m.group(1))
    return names


def _fields_tuple(body):
    return [str(i) for i, f in enumerate(x for x in _split(body) if _strip_attrs(x))]


def scan(text):
    """yields (end offset, name, generics text, where text, kind, variants)"""
    m0 = mask(text)
    for m in re.finditer(r"\b(struct|enum)\s+(\w+)\s*", m0):
        line_start = m0.rfind("\n", 0, m.start()) + 1
        if not re.match(r"\s*(pub(\s*\([^)]*\))?\s+)?$", m0[line_start:m.start()]):
            continue
        # skip items under #[cfg(test)] / macro bodies
        before = text[:line_start].rstrip()
        bad = False
        while before.endswith("]"):
            k = before.rfind("#[")
            if k < 0:
                break
            if "cfg(" in before[k:]:
                bad = True
            before = before[:k].rstrip()
        if bad:
            continue
        i = m.end()
        gen = ""
        try:
            if m0[i] == "<":
                j = balanced(m0, i)
                gen = m0[i:j]
                i = j
            where = ""
            k = re.compile(r"[({;]").search(m0, i).start()
            head = m0[i:k]
            if "where" in head:
                where = head.strip()
                # a where clause with parens is not handled
            if m.group(1) == "struct":
                if m0[k] == ";":
                    variants = [(None, None, "unit", [])]
                    end = k + 1
                elif m0[k] == "{":
                    e = balanced(m0, k)
                    variants = [(None, None, "named", _fields_named(m0[k + 1:e - 1]))]
                    end = e
                else:
                    e = balanced(m0, k)
                    variants = [(None, None, "tuple", _fields_tuple(m0[k + 1:e - 1]))]
                    sc = m0.index(";", e)
                    if "where" in m0[e:sc]:
                        where = m0[e:sc].strip()
                    end = sc + 1
            else:
                e = balanced(m0, k)
                end = e
                variants = []
                for v in _split(m0[k + 1:e - 1]):
                    v = _strip_attrs(v)
                    if not v:
                        continue
                    mm = re.match(r"(\w+)\s*", v)
                    rest = v[mm.end():].strip()
                    if rest.startswith("("):
                        variants.append((mm.group(1), None, "tuple", _fields_tuple(rest[1:balanced(rest, 0) - 1])))
                    elif rest.startswith("{"):
                        variants.append((mm.group(1), None, "named", _fields_named(rest[1:balanced(rest, 0) - 1])))
                    else:
                        d = re.match(r"=\s*(-?\w+)", rest)
                        variants.append((mm.group(1), int(d.group(1), 0) if d and re.match(r"-?(0x)?\d+", d.group(1)) else None,
                                         "unit", []))
        except Exception:
            continue
        if "$" in text[line_start:end]:
            continue
        yield end, m.group(2), gen, where, m.group(1), variants


def gen_parts(gen):
    """'<'a, K: Ord, V = X>' -> (decl, use, names)"""
    if not gen:
        return "", "", []
    decl, use, names = [], [], []
    for g in _split(gen[1:-1]):
        g = g.strip()
        if not g:
            continue
        k = g.find("=")
        if k >= 0:
            g = g[:k].strip()
        decl.append(g)
        n = g.split(":")[0].strip()
        if n.startswith("const "):
            n = n[6:].strip()
        use.append(n)
        names.append(n)
    return "<" + ", ".join(decl) + ">", "<" + ", ".join(use) + ">", names


def add_probes(text):
    ins = []
    for end, name, gen, where, kind, variants in scan(text):
        d, u, _ = gen_parts(gen)
        s = f" #[allow(warnings)] #[doc(hidden)] fn {PRE}{name}{d}(x: &{name}{u}) {where} {{ match x {{ "
        if kind == "enum" and not variants:
            continue
        for vn, _, shape, fields in variants:
            p = name if vn is None else f"{name}::{vn}"
            if shape == "named":
                p += " { " + ", ".join(f"{f}: ref __f{i}" if False else f"{f}: __f{i}" for i, f in enumerate(fields)) + " }"
            elif shape == "tuple":
                p += "(" + ", ".join(f"__f{i}" for i in range(len(fields))) + ")"
            s += p + " => {} "
        s += "} }"
        ins.append((end, s))
    for end, s in reversed(ins):
        text = text[:end] + s + text[end:]
    return text


class Defs:
    """path -> dict(kind, params, variants=[(name, discr, [(fname, type)])])"""

    def __init__(self, program, src_root, files):
        self.adts = {}
        self.src_root = src_root
        self._src = {}
        shapes = {}
        for rel, modpath in files:
            try:
                t = open(os.path.join(src_root, rel)).read()
            except OSError:
                continue
            if modpath == "":
                ROOT.update(re.findall(r"^\s*(?:pub\s+)?(?:struct|enum|trait)\s+(\w+)", t, re.M))
            # strip probes again is unnecessary: scan looks at struct/enum keywords only
            for _, name, gen, where, kind, variants in scan(t):
                shapes.setdefault(name, []).append((modpath, gen, kind, variants))
        for b in program.order:
            if b.kind != "fn" or PRE not in b.name:
                continue
            name = b.name.split(PRE)[-1]
            if "::" in name or "<" in name:
                continue
            b.parse()
            t = b.locals[1][2]
            if t[0] != "adt":
                continue
            path, params = t[1], [a[1] for a in t[2] if a[0] == "param"]
            modp = path.rsplit("::", 1)[0] if "::" in path else ""
            cands = shapes.get(name, [])
            sh = [c for c in cands if c[0] == modp] or [c for c in cands if modp.startswith(c[0])] or cands
            if not sh:
                continue
            # choose the deepest module prefix
            sh.sort(key=lambda c: -len(c[0]))
            _, gen, kind, variants = sh[0]
            ftypes = {}
            for blk in b.blocks.values():
                for s in blk:
                    m = re.match(r"_\d+ = &\(\(\*_1\)\.(\d+): (.*)\);$", s)
                    if m:
                        ftypes[(None, int(m.group(1)))] = ty(m.group(2))
                    m = re.match(r"_\d+ = &\(\(\(\*_1\) as (\w+)\)\.(\d+): (.*)\);$", s)
                    if m:
                        ftypes[(m.group(1), int(m.group(2)))] = ty(m.group(3))
            vs = []
            nxt = 0
            ok = True
            for vn, d, shape, fields in variants:
                if d is None:
                    d = nxt
                nxt = d + 1
                fl = []
                for i, f in enumerate(fields):
                    if (vn, i) not in ftypes:
                        ok = False
                        break
                    fl.append((f, ftypes[(vn, i)]))
                vs.append((vn, d, fl))
            if ok:
                self.adts[path] = {"kind": kind, "params": params, "variants": vs}

    def src(self, rel):
        if rel not in self._src:
            p = os.path.join(self.src_root, rel)
            self._src[rel] = open(p).read().split("\n") if os.path.exists(p) else None
        return self._src[rel]

    def impl_header(self, loc):
        """'minter/src/map.rs:50:1: 50:59' -> source text"""
        m = re.match(r"(.*):(\d+):(\d+): (\d+):(\d+)$", loc)
        lines = self.src(m.group(1))
        if lines is None:
            return ""
        l1, c1, l2, c2 = (int(m.group(i)) for i in (2, 3, 4, 5))
        if l1 == l2:
            return lines[l1 - 1][c1 - 1:c2 - 1]
        seg = [lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]]
        return " ".join(x.strip() for x in seg)

    def renames(self, loc):
        """names a file gives to what it imports: `use a::X as Y` -> {Y: X}"""
        f = loc.split(":")[0]
        memo = self.__dict__.setdefault("_renames", {})
        if f not in memo:
            lines = self.src(f) or []
            memo[f] = {b: a for a, b in re.findall(r"\b([A-Z]\w*)\s+as\s+([A-Z]\w*)\b", " ".join(re.findall(r"\buse\s[^;]*;", "\n".join(lines))))}
        return memo[f]


def parse_impl(header):
    """-> (trait last name or None, self type head name, trait text, self text, derived?)"""
    h = header.strip()
    if not h.startswith(("impl", "unsafe impl")):
        return h.split("::")[-1], None, h, None, True
    h = re.sub(r"^unsafe\s+", "", h)[4:].strip()
    if h.startswith("<"):
        h = h[balanced(h, 0):].strip()
    # cut where clause
    k = re.search(r"\bwhere\b", h)
    if k:
        h = h[:k.start()].strip()
    # find ' for ' at depth 0
    i = 0
    pos = -1
    while i < len(h):
        if h[i] in "<([{":
            i = balanced(h, i)
            continue
        if h.startswith(" for ", i):
            pos = i
            break
        i += 1
    if pos >= 0:
        tr, st = h[:pos].strip(), h[pos + 5:].strip()
    else:
        tr, st = None, h

    def head(x):
        if not x:
            return None
        x = x.lstrip("&").strip()
        x = re.sub(r"^'\w+\s+", "", x)
        if x.startswith("mut "):
            x = x[4:]
        k = x.find("<")
        x = x if k < 0 else x[:k]
        return x.strip().split("::")[-1]
    return (head(tr) if tr else None), head(st), tr, st, False
