"""Parser for the MIR text printed by rustc -Zunpretty=mir / -Zdump-mir (1.83)."""
import os
import re
import ast as pyast
from functools import lru_cache

from .rtypes import P, ParseError, balanced, parse_generics, parse_path_type, parse_type, ty

RE_LOCAL = re.compile(r"_(\d+)")


class Body:
    """One MIR body; blocks are parsed on demand."""

    def __init__(self, kind, name, header, text):
        self.kind, self.name, self.header, self.text = kind, name, header, text
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.locals = {}
        self.debug = {}     # name -> list of places (text)
        self.blocks = {}
        self.args = []
        h = self.header
        if self.kind == "fn":
            i = find_sig(h)
            j = balanced(h, i)
            p = P(h[i + 1:j - 1])
            while True:
                p.ws()
                m = re.compile(r"(?:mut )?_(\d+): ").match(p.s, p.i)
                if not m:
                    break
                p.i = m.end()
                t = parse_type(p)
                self.locals[int(m.group(1))] = t
                self.args.append(int(m.group(1)))
                if not p.eat(","):
                    break
            rest = h[j:].strip()
            self.ret = ty(rest[2:].strip()) if rest.startswith("->") else ("tuple", ())
            self.locals[0] = self.ret
        else:
            i = h.rindex("= {") if h.rstrip().endswith("= {") else len(h)
            # `const NAME: TYPE`
            k = const_colon(h)
            self.ret = ty(h[k + 1:i].strip())
            self.locals[0] = self.ret
        cur = None
        for line in self.text.split("\n"):
            if not line:
                continue
            s = line.strip()
            if s.startswith("bb") and re.match(r"bb\d+( \(cleanup\))?: \{$", s):
                cur = int(re.match(r"bb(\d+)", s).group(1))
                self.blocks[cur] = []
                continue
            if cur is not None:
                if s == "}":
                    cur = None
                    continue
                k = s.find(" // ")
                if s.startswith("//"):
                    continue
                if k >= 0 and s.rfind(";", 0, k) == k - 1:
                    s = s[:k]
                if s.startswith(("StorageLive", "StorageDead", "nop", "PlaceMention", "FakeRead", "AscribeUserType",
                                 "Coverage", "ConstEvalCounter", "Retag")):
                    continue
                self.blocks[cur].append(s)
                continue
            m = re.match(r"let (?:mut )?_(\d+): (.*);", s)
            if m:
                try:
                    self.locals[int(m.group(1))] = ty(m.group(2))
                except (ParseError, ValueError, IndexError):
                    self.locals[int(m.group(1))] = ("opaque", m.group(2))
                continue
            m = re.match(r"debug ([\w]+) => (.*);", s)
            if m:
                self.debug.setdefault(m.group(1), []).append(m.group(2))
        self._stm = {}
        return self

    def stmts(self, bb):
        if bb not in self._stm:
            self._stm[bb] = [parse_stmt(x) for x in self.blocks[bb]]
        return self._stm[bb]


def const_colon(h):
    i = 0
    depth = 0
    while i < len(h):
        c = h[i]
        if c in "<([{":
            i = balanced(h, i)
            continue
        if c == ":" and h[i:i + 2] != "::" and h[i - 1] != ":":
            return i
        i += 1
    raise ParseError("no colon " + h[:100])


def find_sig(h):
    """index of the '(' that opens the parameter list of a fn header."""
    i = 0
    while i < len(h):
        c = h[i]
        if c == "(":
            return i
        if c in "<[{":
            i = balanced(h, i)
            continue
        i += 1
    raise ParseError("no signature: " + h[:120])


def split_commas(s):
    out, i, st = [], 0, 0
    while i < len(s):
        c = s[i]
        if c in "([{<" :
            if c == "<" and s[i:i+2] in ("<<", "<=") :
                i += 2
                continue
            i = balanced(s, i)
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'" and i + 2 < len(s) and (s[i + 2] == "'" or s[i + 1] == "\\"):
            i += 1
            while s[i] != "'":
                i += 2 if s[i] == "\\" else 1
        elif c == ",":
            out.append(s[st:i].strip())
            st = i + 1
        i += 1
    last = s[st:].strip()
    if last:
        out.append(last)
    return out


def parse_place_at(s, i):
    """-> (local, projs), next index"""
    if s[i] == "_":
        m = RE_LOCAL.match(s, i)
        base, i = (int(m.group(1)), ()), m.end()
    elif s[i] == "(":
        if s[i + 1] == "*":
            (l, pr), i = parse_place_at(s, i + 2)
            assert s[i] == ")", s
            i += 1
            base = (l, pr + (("deref",),))
        else:
            (l, pr), k = parse_place_at(s, i + 1)
            if s.startswith(" as ", k):
                if s.startswith(" as subtype ", k):
                    i = balanced(s, i)
                    return (l, pr), i
                m = re.compile(r" as (?:variant#)?(\w+)\)").match(s, k)
                base, i = (l, pr + (("downcast", m.group(1)),)), m.end()
            elif s[k] == ".":
                m = re.compile(r"\.(\d+): ").match(s, k)
                end = balanced(s, i)
                base = (l, pr + (("field", int(m.group(1)), s[m.end():end - 1]),))
                i = end
            elif s[k] == ")":
                base, i = (l, pr), k + 1
            else:
                raise ParseError("place " + s[i:i + 80])
    else:
        raise ParseError("place " + s[i:i + 80])
    l, pr = base
    while i < len(s) and s[i] == "[":
        j = s.index("]", i)
        x = s[i + 1:j]
        i = j + 1
        m = re.match(r"_(\d+)$", x)
        if m:
            pr += (("index", int(m.group(1))),)
            continue
        m = re.match(r"(-?)(\d+) of (\d+)$", x)
        if m:
            pr += (("cidx", int(m.group(2)), bool(m.group(1))),)
            continue
        m = re.match(r"(\d+):(-?\d*)$", x)
        if m:
            pr += (("sub", int(m.group(1)), m.group(2)),)
            continue
        raise ParseError("place index " + x)
    return (l, pr), i


def parse_place(s):
    s = s.strip()
    pl, i = parse_place_at(s, 0)
    if i != len(s):
        raise ParseError("place trailing " + s)
    return pl


def parse_operand(s):
    s = s.strip()
    if s.startswith("move "):
        return ("move", parse_place(s[5:]))
    if s.startswith("copy "):
        return ("copy", parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", parse_const(s[6:].strip()))
    if s.startswith("_") or s.startswith("("):
        return ("copy", parse_place(s))
    # function items as operands
    return ("const", ("item", s))


def unescape(s):
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    try:
        return pyast.literal_eval('"""' + s.replace('"', '\\"') .replace('\\\\"', '\\"') + '"""') if '"' not in s else s
    except Exception:
        return s


@lru_cache(maxsize=None)
def parse_const(s):
    if s in ("true", "false"):
        return ("bool", s == "true")
    if s == "()":
        return ("unit",)
    m = re.match(r"(-?\d+)_([iu](?:8|16|32|64|128|size))$", s)
    if m:
        return ("int", int(m.group(1)), m.group(2))
    m = re.match(r"(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|core::num::<impl (?:\w+)>|[ui]\d+)::(MAX|MIN)$", s)
    if m:
        from .rtypes import INTS
        n = re.search(r"(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)", m.group(1)).group(1)
        return ("int", INTS[n][1 if m.group(2) == "MAX" else 0], n)
    if s.startswith('"'):
        return ("str", unescape(s[1:-1]))
    if s.startswith('b"'):
        return ("bytes", s[2:-1])
    if s.startswith("'"):
        x = unescape(s[1:-1])
        return ("char", ord(x)) if len(x) == 1 else ("item", s)
    m = re.match(r"(-?[\d.]+(?:[eE]-?\d+)?)f(32|64)$", s)
    if m:
        return ("float", m.group(1))
    return ("item", s)


BINOPS = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge",
          "Gt", "Cmp", "Offset", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked",
          "MulUnchecked", "ShlUnchecked", "ShrUnchecked"}


def top_find(s, ch):
    """first index of ch at bracket depth 0"""
    i = 0
    while i < len(s):
        c = s[i]
        if c == ch:
            return i
        if c in "([{<":
            i = balanced(s, i)
            continue
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        i += 1
    return -1


def parse_rvalue(s):
    if s.startswith(("copy ", "move ", "const ")):
        # maybe a cast: `OP as T (Kind)`
        m = re.search(r" as (.*) \((IntToInt|PtrToPtr|Transmute|FloatToInt|IntToFloat|FloatToFloat|FnPtrToPtr|"
                      r"PointerExposeProvenance|PointerWithExposedProvenance|PointerCoercion\(.*\)|DynStar)\)$", s)
        if m and not s.startswith('const "'):
            return ("cast", parse_operand(s[:m.start()]), m.group(1), m.group(2))
        return ("use", parse_operand(s))
    if s.startswith("&"):
        m = re.match(r"&(raw const |raw mut |mut |fake shallow |fake )?", s)
        k = (m.group(1) or "").strip()
        pl = parse_place(s[m.end():])
        return ("ref", k in ("mut", "raw mut"), pl)
    m = re.match(r"(\w+)\((.*)\)$", s)
    if m and m.group(1) in BINOPS:
        a, b = split_commas(m.group(2))
        return ("bin", m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in ("Not", "Neg", "PtrMetadata"):
        return ("un", m.group(1), parse_operand(m.group(2)))
    if m and m.group(1) == "discriminant":
        return ("discr", parse_place(m.group(2)))
    if m and m.group(1) == "Len":
        return ("len", parse_place(m.group(2)))
    if m and m.group(1) in ("SizeOf", "AlignOf"):
        return ("sizeof", m.group(2))
    if m and m.group(1) == "ShallowInitBox":
        a, b = split_commas(m.group(2))
        return ("box", parse_operand(a), b)
    if m and m.group(1) == "CopyForDeref":
        return ("use", ("copy", parse_place(m.group(2))))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    if s.startswith("("):
        return ("tuple", [parse_operand(x) for x in split_commas(s[1:-1])])
    if s.startswith("["):
        inner = s[1:-1]
        k = top_find(inner, ";")
        if k >= 0:
            return ("repeat", parse_operand(inner[:k]), inner[k + 1:].strip())
        return ("array", [parse_operand(x) for x in split_commas(inner)])
    if s.startswith("{closure@") or s.startswith("{coroutine") or s.startswith("{async"):
        j = balanced(s, 0)
        head = s[:j]
        rest = s[j:].strip()
        ops = []
        if rest.startswith("{"):
            for x in split_commas(rest[1:-1]):
                n, o = x.split(": ", 1)
                ops.append((n.strip(), parse_operand(o)))
        elif rest.startswith("("):
            for x in split_commas(rest[1:-1]):
                ops.append((None, parse_operand(x)))
        return ("closure", head, ops)
    # ADT aggregate
    k = -1
    i = 0
    while i < len(s):
        if s[i] in "({":
            k = i
            break
        if s[i] in "<[":
            i = balanced(s, i)
            continue
        i += 1
    if k < 0:
        return ("adt", s, [])
    head = s[:k].strip()
    inner = s[k + 1:-1]
    ops = []
    for x in split_commas(inner):
        if s[k] == "{":
            n, o = x.split(": ", 1)
            ops.append((n.strip(), parse_operand(o)))
        else:
            ops.append((None, parse_operand(x)))
    return ("adt", head, ops)


def find_call_args(s):
    """s = 'callee(args)': index of the final argument list's '('"""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "([{<":
            j = balanced(s, i)
            if c == "(" and j == len(s):
                return i
            i = j
            continue
        i += 1
    raise ParseError("call " + s[:200])


def parse_stmt(s):
    assert s.endswith(";"), s
    s = s[:-1]
    if s.startswith("goto -> bb"):
        return ("goto", int(s[10:]))
    if s == "return":
        return ("return",)
    if s == "unreachable":
        return ("unreachable",)
    if s in ("resume", "coroutine_drop") or s.startswith("terminate"):
        return ("unreachable",)
    if s.startswith("switchInt("):
        j = balanced(s, 9)
        op = parse_operand(s[10:j - 1])
        tg = s[s.index("[", j) + 1:-1]
        cases, other = [], None
        for x in tg.split(", "):
            k, b = x.split(": ")
            if k == "otherwise":
                other = int(b[2:])
            else:
                cases.append((int(k), int(b[2:])))
        return ("switch", op, cases, other)
    if s.startswith("drop("):
        j = balanced(s, 4)
        m = re.search(r"return: bb(\d+)", s[j:]) or re.search(r"-> bb(\d+)", s[j:])
        return ("drop", parse_place(s[5:j - 1]), int(m.group(1)))
    if s.startswith("assert("):
        j = balanced(s, 6)
        a = split_commas(s[7:j - 1])
        neg = a[0].startswith("!")
        op = parse_operand(a[0][1:] if neg else a[0])
        m = re.search(r"success: bb(\d+)", s[j:]) or re.search(r"-> bb(\d+)", s[j:])
        return ("assert", op, not neg, a[1], int(m.group(1)))
    if s.startswith("falseEdge") or s.startswith("falseUnwind"):
        m = re.search(r"real: bb(\d+)", s)
        return ("goto", int(m.group(1)))
    if s.startswith("discriminant("):
        m = re.match(r"discriminant\((.*)\) = (\d+)$", s)
        return ("setdiscr", parse_place(m.group(1)), int(m.group(2)))
    if s.startswith("Deinit(") or s.startswith("assume("):
        return ("nop",)
    if s.startswith("BackwardIncompatibleDropHint"):
        return ("nop",)
    if s.startswith(("copy_nonoverlapping", "intrinsic")):
        return ("unsupported", s)
    # assignment, call or yield
    pl, i = parse_place_at(s, 0)
    assert s.startswith(" = ", i), s
    r = s[i + 3:]
    m = re.search(r" -> (?:\[return: bb(\d+), unwind[^\]]*\]|unwind \w+(?:\(\w+\))?|\[return: bb(\d+)\]|bb(\d+))$", r)
    if m and not r.startswith('const "'):
        head = r[:m.start()]
        tgt = next((int(g) for g in m.groups() if g), None)
        k = find_call_args(head)
        return ("call", pl, head[:k], tuple(parse_operand(x) for x in split_commas(head[k + 1:-1])), tgt)
    m = re.match(r"yield\((.*)\) -> \[resume: bb(\d+)", r)
    if m:
        return ("yield", pl, parse_operand(m.group(1)), int(m.group(2)))
    if r.startswith("yield("):
        raise ParseError(r)
    return ("assign", pl, parse_rvalue(r))


RE_HEAD = re.compile(r"^(fn|const|static|static mut) (.*)$")


class Program:
    """All bodies of a crate. `all_mir` from -Zunpretty=mir; coroutine bodies come from the StateTransform.before dump."""

    def __init__(self, all_mir, dump_dir=None, crate="evm_minter"):
        self.bodies = {}
        self.order = []
        self._read(open(all_mir).read())
        self.coro = {}
        if dump_dir and os.path.isdir(dump_dir):
            for f in os.listdir(dump_dir):
                if f.endswith("StateTransform.before.mir") and "{closure#" in f:
                    m = re.match(r"(\w+)\.(.*?)\.[\d-]+\.[\d-]*\.?StateTransform", f) or \
                        re.match(r"(\w+)\.(.*?)\.\d+-\d+\.StateTransform", f)
                    self.coro[m.group(2)] = os.path.join(dump_dir, f)
        self._corobody = {}

    def _read(self, txt):
        lines = txt.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l[:1] in ("f", "c", "s") and (l.startswith(("fn ", "const ", "static "))):
                m = RE_HEAD.match(l)
                head = m.group(2)
                j = i + 1
                while not l.endswith("{") :
                    l = lines[j]
                    head += " " + l.strip()
                    j += 1
                k = j
                while lines[k] != "}":
                    k += 1
                head = head.rstrip()
                assert head.endswith("{")
                kind = "fn" if m.group(1) == "fn" else "const"
                if kind == "fn":
                    h = head[:-1].rstrip()
                    name = h[:find_sig(h)]
                else:
                    h = head[:-1].rstrip()
                    h = h[:-1].rstrip() if h.endswith("=") else h
                    h = h[4:] if h.startswith("mut ") else h
                    name = h[:const_colon(h)]
                b = Body(kind, name, h, "\n".join(lines[j:k]))
                self.bodies.setdefault(name, []).append(b)
                self.order.append(b)
                i = k + 1
            else:
                i += 1

    def get(self, name):
        l = self.bodies.get(name)
        return l[0].parse() if l else None

    def coroutine(self, fnname):
        """pre-state-machine body of async fn `fnname` (MIR header name)."""
        if fnname in self._corobody:
            return self._corobody[fnname]
        # file names replace :: by - and "<impl at a/b.rs:L:C: L:C>" by something; matched by header instead
        res = None
        want = fnname + "::{closure#0}"
        for f in self.coro_candidates(fnname):
            txt = open(f).read()
            m = re.search(r"^fn (.*?)\((.*?)$", txt, re.M)
            k = txt.index("\nfn ") + 1 if "\nfn " in txt else 0
            head_end = txt.index("{\n", k)
            # header may span lines: 'fn X(_1: {async..}, _2: ResumeTy) -> T\nyields ()\n {'
            h = txt[k + 3:]
            i = find_sig(h)
            if h[:i] != want:
                continue
            j = balanced(h, i)
            e = h.index("\nyields", j)
            hdr = h[:e].replace("\n", " ")
            rest = h[e:]
            body = rest[rest.index("{\n") + 2:]
            body = body[:body.index("\n}\n")] if "\n}\n" in body else body
            res = Body("fn", want, hdr, body).parse()
            break
        self._corobody[fnname] = res
        return res

    def coro_candidates(self, fnname):
        last = fnname.split("::")[-1]
        for k, f in sorted(self.coro.items()):
            if k.endswith(last + "-{closure#0}"):
                yield f
