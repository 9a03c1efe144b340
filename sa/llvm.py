"""Reader and abstract interpreter for LLVM IR (textual, LLVM 18).

Integers are concrete, bit vectors of Boolean functions (bit provenance) or affine terms over unknowns; pointers are (object, offset).
Unknown branch conditions split the partition (explore_ir); facts are kept in the embedded Interp (dom.Facts / path condition)."""
import os
import re
import subprocess

from .dom import *
from .pyai import Infeasible, Interp, PathCut, StepLimit, bv_term

CLANG = "/usr/bin/clang++-18"


class Unsupp(Top):
    pass


# ------------------------------------------------------------------ reader
TOK = re.compile(r'''\s+|;[^\n]*|c"(?P<cstr>[^"]*)"|(?P<gname>@(?:"[^"]*"|[-\w.$]+))|(?P<lname>%(?:"[^"]*"|[-\w.$]+))|(?P<meta>!(?:"[^"]*"|[-\w.$]+)?)|(?P<attr>\#\d+)'''
                 r'''|"(?P<str>[^"]*)"|(?P<num>-?\d+(?:\.\d+(?:e[-+]?\d+)?)?\b|0x[0-9A-Fa-f]+)|(?P<dots>\.\.\.)|(?P<word>[A-Za-z_][\w.$]*)|(?P<p>[(){}\[\]<>,=*:|])|(?P<comdat>\$(?:"[^"]*"|[-\w.$]+))''')


def unescape(s):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


def bytes_of(s):
    return unescape(s).encode("latin-1")


def tokenize(line):
    out = []
    i, n = 0, len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            raise Unsupp("cannot read IR at %r" % line[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        v = m.group(k)
        if k in ("gname", "lname"):
            v = v[1:]
            if v[:1] == '"':
                v = unescape(v[1:-1])
        out.append((k, v))
    return out


class Ty:
    __slots__ = ("k", "n", "sub", "packed")
    cache = {}

    def __new__(cls, k, n=0, sub=(), packed=False):
        key = (k, n, sub, packed)
        t = cls.cache.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k, t.n, t.sub, t.packed = k, n, sub, packed
            cls.cache[key] = t
        return t

    def __repr__(self):
        return {"i": "i%s" % self.n, "arr": "[%s x %r]" % (self.n, self.sub[0] if self.sub else None), "named": "%%%s" % self.n}.get(self.k, "%s%s" % (self.k, list(self.sub) or ""))


PTR, VOID, I64, I32, I1, I8, LABEL = Ty("ptr"), Ty("void"), Ty("i", 64), Ty("i", 32), Ty("i", 1), Ty("i", 8), Ty("label")


class Fn:
    def __init__(self, name):
        self.name, self.params, self.ret, self.blocks, self.entry, self.varargs = name, [], VOID, None, None, False
        self.personality = False


class Ins:
    __slots__ = ("op", "res", "a", "line")

    def __init__(self, op, res, a, line=None):
        self.op, self.res, self.a, self.line = op, res, a, line


SKIP_WORDS = set("""tail musttail notail fastcc ccc coldcc nsw nuw exact inbounds volatile nneg disjoint samesign fast nnan ninf nsz arcp contract afn reassoc
 noundef nonnull zeroext signext inreg noalias nocapture readonly readnone writeonly nofree immarg returned swiftself noreturn nounwind dso_local dso_preemptable
 local_unnamed_addr unnamed_addr internal private linkonce_odr linkonce weak weak_odr external available_externally extern_weak common appending hidden protected default
 thread_local externally_initialized cleanup allocptr writable nofpclass dead_on_unwind dead_on_return allocalign atomic weak acquire release acq_rel seq_cst monotonic unordered inrange nusw""".split())
ATTR_ARGS = {"dereferenceable", "dereferenceable_or_null", "align", "captures", "initializes", "range", "memory", "allocsize", "comdat", "section", "partition", "syncscope",
             "nofpclass", "addrspace", "preallocated", "alignstack", "code_model"}


class Parser:
    def __init__(self, text):
        self.types, self.globals, self.fns = {}, {}, {}
        self.aliases = {}
        self.read(text)

    # token stream of one logical line
    def feed(self, line):
        self.t = tokenize(line)
        self.i = 0
        self.line = line

    def pk(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else (None, None)

    def nx(self):
        if self.i >= len(self.t):
            raise Unsupp("IR line ends early: %s" % self.line[:120])
        self.i += 1
        return self.t[self.i - 1]

    def is_(self, v):
        return self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] in ("p", "word", "dots")

    def opt(self, v):
        if self.is_(v):
            self.i += 1
            return True
        return False

    def want(self, v):
        if not self.opt(v):
            raise Unsupp("expected %r at %r in IR line %s" % (v, self.pk(), self.line[:160]))

    def parens(self):
        """skip a balanced parenthesis"""
        self.want("(")
        d = 1
        while d:
            k, v = self.nx()
            if k == "p":
                d += (v == "(") - (v == ")")

    def skip_attrs(self):
        while True:
            k, v = self.pk()
            if k == "word" and v in SKIP_WORDS:
                self.i += 1
            elif k == "word" and v in ATTR_ARGS:
                self.i += 1
                if self.is_("("):
                    self.parens()
                elif self.pk()[0] == "num":
                    self.i += 1
            elif k == "word" and v in ("sret", "byval", "byref", "elementtype", "inalloca"):
                self.i += 1
                self.parens()
            elif k == "attr":
                self.i += 1
            elif k == "str":
                self.i += 1
                if self.opt("="):
                    self.nx()
            elif k == "word" and v in ("cc",):
                self.i += 1
                self.nx()
            else:
                return

    def read(self, text):
        lines = text.split("\n")
        n, i = len(lines), 0
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target ", "attributes ", "module ", "$", "^")):
                continue
            if ln[0] == "%":
                self.feed(ln)
                name = self.nx()[1]
                self.want("=")
                self.want("type")
                self.types[name] = None if self.is_("opaque") else self.ty()
            elif ln[0] == "@":
                self.feed(ln)
                self.glob()
            elif ln.startswith("declare"):
                self.feed(ln[7:])
                self.header(False)
            elif ln.startswith("define"):
                self.feed(ln[6:])
                f = self.header(True)
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                f.body = body
            else:
                raise Unsupp("IR line %s" % ln[:100])

    def glob(self):
        name = self.nx()[1]
        self.want("=")
        while True:
            k, v = self.pk()
            if k == "word" and v in ("global", "constant", "alias", "ifunc"):
                self.i += 1
                break
            if k == "word" and v == "thread_local" and self.pk(1)[1] == "(":
                self.i += 1
                self.parens()
                continue
            j = self.i
            self.skip_attrs()
            if j == self.i:
                raise Unsupp("global %s" % self.line[:120])
        if v == "alias":
            self.ty()
            self.want(",")
            t = self.ty()
            c = self.const(t)
            self.aliases[name] = c[1]
            return
        t = self.ty()
        init = None
        if self.i < len(self.t) and not self.is_(","):
            init = self.const(t)
        self.globals[name] = (t, init, v == "constant")

    def header(self, define):
        self.skip_attrs()
        ret = self.ty()
        self.skip_attrs()
        name = self.nx()[1]
        f = Fn(name)
        f.ret = ret
        self.want("(")
        while not self.opt(")"):
            if self.opt("..."):
                f.varargs = True
            else:
                t = self.ty()
                self.skip_attrs()
                pn = None
                if self.pk()[0] == "lname":
                    pn = self.nx()[1]
                f.params.append((t, pn))
            self.opt(",")
        if not define:
            self.fns.setdefault(name, f)
            f.body = None
        else:
            n = 0
            for k, (t, pn) in enumerate(f.params):
                if pn is None:
                    f.params[k] = (t, str(n))
                    n += 1
            self.fns[name] = f
            f.body = None
            f.nunnamed = n
        return f

    # types and constants
    def ty(self):
        k, v = self.nx()
        if k == "word":
            if v == "ptr":
                while self.is_("addrspace"):
                    self.i += 1
                    self.parens()
                t = PTR
            elif v == "void":
                t = VOID
            elif v[0] == "i" and v[1:].isdigit():
                t = Ty("i", int(v[1:]))
            elif v in ("float", "double", "half", "x86_fp80", "fp128"):
                t = Ty("f", {"half": 16, "float": 32, "double": 64, "x86_fp80": 80, "fp128": 128}[v])
            elif v in ("label", "metadata", "token", "opaque"):
                t = Ty(v)
            else:
                raise Unsupp("type %s in %s" % (v, self.line[:120]))
        elif k == "lname":
            t = Ty("named", v)
        elif (k, v) == ("p", "["):
            n = int(self.nx()[1])
            self.want("x")
            e = self.ty()
            self.want("]")
            t = Ty("arr", n, (e,))
        elif (k, v) == ("p", "{"):
            t = self.struct("}")
        elif (k, v) == ("p", "<"):
            if self.opt("{"):
                t = self.struct("}", True)
                self.want(">")
            else:
                n = int(self.nx()[1])
                self.want("x")
                e = self.ty()
                self.want(">")
                t = Ty("vec", n, (e,))
        else:
            raise Unsupp("type at %r in %s" % (v, self.line[:120]))
        while self.is_("("):            # function type
            self.parens()
            t = Ty("fn", 0, (t,))
        while self.opt("*"):
            t = PTR
        return t

    def struct(self, end, packed=False):
        sub = []
        while not self.opt(end):
            sub.append(self.ty())
            self.opt(",")
        return Ty("struct", 0, tuple(sub), packed)

    def const(self, t):
        """constant or local operand of type t"""
        k, v = self.nx()
        if k == "lname":
            return ("loc", v)
        if k == "gname":
            return ("glob", v)
        if k == "num":
            if t.k == "f":
                return ("flt", v)
            return ("int", int(v) & ((1 << t.n) - 1) if t.k == "i" else int(v, 0))
        if k == "cstr":
            return ("bytes", bytes_of(v))
        if k == "word":
            if v in ("true", "false"):
                return ("int", int(v == "true"))
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "none":
                return ("null",)
            if v == "getelementptr":
                self.skip_attrs()
                self.want("(")
                st = self.ty()
                self.want(",")
                args = []
                while True:
                    self.skip_attrs()
                    at = self.ty()
                    self.skip_attrs()
                    args.append((at, self.const(at)))
                    if not self.opt(","):
                        break
                self.want(")")
                return ("gep", st, args)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.want("(")
                a = self.ty()
                c = self.const(a)
                self.want("to")
                b = self.ty()
                self.want(")")
                return ("cast", v, a, c, b)
            if v in ("add", "sub", "mul", "xor", "and", "or", "shl"):
                self.skip_attrs()
                self.want("(")
                a = self.ty()
                x = self.const(a)
                self.want(",")
                self.ty()
                y = self.const(a)
                self.want(")")
                return ("bin", v, a, x, y)
            if v == "dso_local_equivalent" or v == "no_cfi":
                return self.const(t)
            if v == "blockaddress":
                self.parens()
                return ("undef",)
            raise Unsupp("constant %s in %s" % (v, self.line[:120]))
        if (k, v) == ("p", "["):
            return ("agg", self.elems("]"))
        if (k, v) == ("p", "{"):
            return ("agg", self.elems("}"))
        if (k, v) == ("p", "<"):
            if self.opt("{"):
                r = self.elems("}")
                self.want(">")
                return ("agg", r)
            return ("agg", self.elems(">"))
        raise Unsupp("constant at %r in %s" % (v, self.line[:120]))

    def elems(self, end):
        out = []
        while not self.opt(end):
            t = self.ty()
            out.append((t, self.const(t)))
            self.opt(",")
        return out

    # function bodies (read on demand)
    def body(self, f):
        if f.blocks is not None or f.body is None:
            return f
        blocks, cur = {}, None
        un = f.nunnamed
        lines = f.body
        k = 0
        while k < len(lines):
            ln = lines[k]
            k += 1
            s = ln.strip()
            if not s or s[0] == ";":
                continue
            if not ln.startswith(" "):
                m = re.match(r'^(?:"([^"]*)"|([-\w.$]+)):', ln)
                if m:
                    lab = unescape(m.group(1)) if m.group(1) is not None else m.group(2)
                    cur = blocks.setdefault(lab, [])
                    if f.entry is None:
                        f.entry = lab
                    continue
            if cur is None:
                f.entry = str(un)
                un += 1
                cur = blocks.setdefault(f.entry, [])
            while s.startswith("switch") and "]" not in s or re.search(r"\b(invoke|landingpad)\b", s) and k < len(lines) and re.match(
                    r"\s+(to label|catch |cleanup|filter )", lines[k]):
                s += " " + lines[k].strip()
                k += 1
            cur.append(s)
        f.blocks = {b: None for b in blocks}
        f.raw = blocks
        return f

    def block(self, f, lab):
        b = f.blocks[lab]
        if b is None:
            b = f.blocks[lab] = [self.inst(s) for s in f.raw[lab]]
        return b

    def tv(self):
        t = self.ty()
        self.skip_attrs()
        return t, self.const(t)

    def inst(self, s):
        self.feed(s)
        res = None
        if self.pk()[0] == "lname" and self.pk(1) == ("p", "="):
            res = self.nx()[1]
            self.i += 1
        self.skip_attrs_call()
        op = self.nx()[1]
        g = getattr(self, "r_" + op, None)
        if op in BIN:
            self.skip_attrs()
            t = self.ty()
            x = self.const(t)
            self.want(",")
            y = self.const(t)
            return Ins("bin", res, (op, t, x, y), s)
        if op in CASTS:
            self.skip_attrs()
            t, x = self.tv()
            self.want("to")
            return Ins("cast", res, (op, t, x, self.ty()), s)
        if g is None:
            raise Unsupp("instruction %s" % s[:100])
        return Ins(op, res, g(), s)

    def skip_attrs_call(self):
        while self.pk()[0] == "word" and self.pk()[1] in ("tail", "musttail", "notail"):
            self.i += 1

    def r_ret(self):
        if self.opt("void"):
            return None
        return self.tv()

    def r_br(self):
        if self.opt("label"):
            return (None, self.nx()[1], None)
        t, c = self.tv()
        self.want(",")
        self.want("label")
        a = self.nx()[1]
        self.want(",")
        self.want("label")
        return (c, a, self.nx()[1])

    def r_switch(self):
        t, c = self.tv()
        self.want(",")
        self.want("label")
        d = self.nx()[1]
        self.want("[")
        cases = []
        while not self.opt("]"):
            tt = self.ty()
            v = self.const(tt)
            self.want(",")
            self.want("label")
            cases.append((v[1], self.nx()[1]))
        return (t, c, d, cases)

    def r_unreachable(self):
        return None

    def r_resume(self):
        return self.tv()

    def r_alloca(self):
        self.skip_attrs()
        t = self.ty()
        n = None
        if self.opt(",") and not self.is_("align"):
            n = self.tv()
        return (t, n)

    def r_load(self):
        self.skip_attrs()
        t = self.ty()
        self.want(",")
        pt, p = self.tv()
        return (t, p)

    def r_store(self):
        self.skip_attrs()
        t, v = self.tv()
        self.want(",")
        pt, p = self.tv()
        return (t, v, p)

    def r_getelementptr(self):
        self.skip_attrs()
        t = self.ty()
        self.want(",")
        args = [self.tv()]
        while self.opt(","):
            if self.pk()[0] == "meta":
                break
            args.append(self.tv())
        return (t, args)

    def r_icmp(self):
        self.skip_attrs()
        p = self.nx()[1]
        t = self.ty()
        x = self.const(t)
        self.want(",")
        return (p, t, x, self.const(t))

    def r_fcmp(self):
        self.skip_attrs()
        return self.r_icmp()

    def r_select(self):
        self.skip_attrs()
        c = self.tv()
        self.want(",")
        a = self.tv()
        self.want(",")
        return (c, a, self.tv())

    def r_phi(self):
        self.skip_attrs()
        t = self.ty()
        inc = []
        while self.opt("["):
            v = self.const(t)
            self.want(",")
            inc.append((v, self.nx()[1]))
            self.want("]")
            self.opt(",")
        return (t, inc)

    def r_freeze(self):
        return self.tv()

    def r_extractvalue(self):
        t, v = self.tv()
        idx = []
        while self.opt(","):
            if self.pk()[0] == "meta":
                break
            idx.append(int(self.nx()[1]))
        return (t, v, idx)

    def r_insertvalue(self):
        t, v = self.tv()
        self.want(",")
        et, e = self.tv()
        idx = []
        while self.opt(","):
            if self.pk()[0] == "meta":
                break
            idx.append(int(self.nx()[1]))
        return (t, v, et, e, idx)

    def r_call(self):
        self.skip_attrs()
        rt = self.ty()
        self.skip_attrs()
        k, v = self.nx()
        if k == "word" and v == "asm":
            return (rt, ("asm",), [])
        callee = ("glob", v) if k == "gname" else ("loc", v) if k == "lname" else ("null",)
        self.want("(")
        args = []
        while not self.opt(")"):
            if self.is_("metadata"):
                while not self.is_(",") and not self.is_(")"):
                    if self.is_("("):
                        self.parens()
                    else:
                        self.nx()
            else:
                args.append(self.tv())
            self.opt(",")
        return (rt, callee, args)

    def r_invoke(self):
        c = self.r_call()
        self.skip_attrs()
        self.want("to")
        self.want("label")
        a = self.nx()[1]
        self.want("unwind")
        self.want("label")
        return c + (a, self.nx()[1])

    def r_landingpad(self):
        t = self.ty()
        clauses = []
        cleanup = False
        while True:
            if self.opt("cleanup"):
                cleanup = True
            elif self.opt("catch"):
                clauses.append(("catch", self.tv()[1]))
            elif self.opt("filter"):
                clauses.append(("filter", self.tv()[1]))
            else:
                break
        # 'cleanup' may have been skipped as an attribute word
        return (t, clauses, cleanup or "cleanup" in self.line)

    def r_atomicrmw(self):
        self.skip_attrs()
        op = self.nx()[1]
        pt, p = self.tv()
        self.want(",")
        t, v = self.tv()
        return (op, p, t, v)

    def r_cmpxchg(self):
        self.skip_attrs()
        pt, p = self.tv()
        self.want(",")
        t, c = self.tv()
        self.want(",")
        t, n = self.tv()
        return (p, t, c, n)

    def r_fence(self):
        return None

    def r_fneg(self):
        self.skip_attrs()
        return self.tv()


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext"}


def demangle(names):
    names = list(names)
    p = subprocess.run(["c++filt", "-n"], input="\n".join(names), stdout=subprocess.PIPE, universal_newlines=True)
    if p.returncode:
        raise Unsupp("c++filt failed")
    return dict(zip(names, p.stdout.split("\n")))


# ------------------------------------------------------------------ values
class P:
    """pointer"""
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return "&%s%s" % (self.o, "+%s" % (self.off,) if self.off != 0 else "")

    def __eq__(self, x):
        return isinstance(x, P) and x.o is self.o and x.off == self.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class FnP:
    """function address"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "&" + self.name

    def __eq__(self, o):
        return isinstance(o, FnP) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Thrown(Exception):
    def __init__(self, exc):
        self.exc = exc           # pointer to the exception object (P) with .tinfo


class Mem:
    """memory object; cells: offset -> (size, value); bytes not written are given by `content` (None: undefined)"""
    serial = 0

    def __init__(self, name, size=None, content=None, kind="heap"):
        self.name, self.size, self.content, self.kind = name, size, content, kind
        Mem.serial += 1
        self.rank = Mem.serial
        self.cells = {}
        self.freed = False
        self.abs = {}            # abstract state kept by models (offset -> object)
        self.sym_writes = []     # (offset term, size, value)
        self.fills = []          # (start, end, offset -> pseudo-byte): large copies and fills

    def __repr__(self):
        return self.name

    def __str__(self):
        return self.name


def low_zeros(x):
    """k such that 2^k divides the affine value"""
    c, m = as_lin(x)
    k = 64
    for v in [c] + list(m.values()):
        if v:
            k = min(k, (v & -v).bit_length() - 1)
    return k


def unwrapped(off):
    """an offset without the atoms x mod 2^64: addresses wrap there anyway"""
    c, m = as_lin(off)
    for a, k in m.items():
        if isinstance(a, T) and a.op == "mod" and a.args[1] == 1 << 64:
            return unwrapped(lin_add(lin_add(off, a, -k), lin_mul(a.args[0], k)))
    return off


NULL = 0
HALF64 = 1 << 63


class Outc:
    def __init__(self, m, kind, value):
        self.m, self.kind, self.value = m, kind, value
        self.events, self.facts, self.I = m.I.events, m.I.facts, m.I

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.value)


class Machine:
    """interpreter of one partition"""

    def __init__(self, mod, script=(), models=None, max_steps=200000):
        self.mod = mod
        self.I = Interp(None, script)
        self.models = models or {}
        self.max_steps = max_steps
        self.steps = 0
        self.globals = {}
        self.depth = 0
        self.trail = []
        self.visits = {}
        self.loop_bound = 70
        self.padding = False     # values with undefined bytes are copied, not undefined

    # ---- layout
    def sizeof(self, t):
        if t.k == "i":
            n = (t.n + 7) // 8
            return 1 if n == 1 else 2 if n == 2 else 4 if n <= 4 else 8 if n <= 8 else 16
        if t.k == "ptr":
            return 8
        if t.k == "f":
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.n]
        if t.k == "arr":
            return t.n * self.sizeof(t.sub[0])
        if t.k == "vec":
            return t.n * self.sizeof(t.sub[0])
        if t.k == "named":
            u = self.mod.types.get(t.n)
            if u is None:
                raise Unsupp("size of opaque type %s" % t.n)
            return self.sizeof(u)
        if t.k == "struct":
            return self.layout(t)[1]
        raise Unsupp("size of %r" % t)

    def storesize(self, t):
        """bytes a load or store of the type touches"""
        return (t.n + 7) // 8 if t.k == "i" else self.sizeof(t)

    def alignof(self, t):
        if t.k == "named":
            return self.alignof(self.mod.types[t.n])
        if t.k == "arr":
            return self.alignof(t.sub[0])
        if t.k == "struct":
            return 1 if t.packed else max([self.alignof(x) for x in t.sub] or [1])
        return min(self.sizeof(t), 16)

    def layout(self, t):
        while t.k == "named":
            t = self.mod.types[t.n]
        offs, o = [], 0
        for x in t.sub:
            if not t.packed:
                a = self.alignof(x)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.sizeof(x)
        if not t.packed:
            a = self.alignof(t)
            o = (o + a - 1) // a * a
        return offs, o

    # ---- operands
    def val(self, t, c, env):
        k = c[0]
        if k == "loc":
            return env[c[1]]
        if k == "int":
            return c[1]
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            if t.k in ("i", "ptr"):
                return 0
            return ("agg0", t)
        if k == "glob":
            return self.glob(c[1])
        if k == "gep":
            return self.gep(c[1], [(a, self.val(a, x, env)) for a, x in c[2]])
        if k == "cast":
            return self.cast(c[1], c[2], self.val(c[2], c[3], env), c[4])
        if k == "bin":
            return self.binop(c[1], c[2], self.val(c[2], c[3], env), self.val(c[2], c[4], env))
        if k == "agg":
            return [self.val(a, x, env) for a, x in c[1]]
        if k == "flt":
            return T("float", (c[1],), "float")
        if k == "bytes":
            return list(c[1])
        raise Unsupp("operand %r" % (c,))

    def glob(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.fns:
            return FnP(name)
        g = self.globals.get(name)
        if g is None:
            t, init, const = self.mod.globals[name]
            try:
                size = self.sizeof(t)
            except Unsupp:
                size = None
            g = Mem("@" + name, size, None, "const" if const else "global")
            self.globals[name] = g
            if init is not None:
                self.init(g, 0, t, init)
            elif name == "__libc_single_threaded":
                g.cells[0] = (1, 1)     # selects plain instead of atomic reference counts
        return P(g, 0)

    def init(self, g, off, t, c):
        while t.k == "named":
            t = self.mod.types[t.n]
        if c[0] == "bytes":
            for i, b in enumerate(c[1]):
                g.cells[off + i] = (1, b)
        elif c[0] == "agg":
            if t.k == "struct":
                offs = self.layout(t)[0]
                for o, (et, e) in zip(offs, c[1]):
                    self.init(g, off + o, et, e)
            else:
                s = self.sizeof(t.sub[0])
                for i, (et, e) in enumerate(c[1]):
                    self.init(g, off + i * s, et, e)
        elif c[0] == "zero":
            for i in range(self.sizeof(t)):
                g.cells[off + i] = (1, 0)
        elif c[0] == "undef":
            pass
        else:
            g.cells[off] = (self.sizeof(t), self.val(t, c, {}))

    # ---- integers
    def bits(self, v, n):
        """list of n Boolean functions"""
        if isinstance(v, BV):
            return [v.bit(i) for i in range(n)]
        if isinstance(v, Bf):
            return [v] + [B0] * (n - 1)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return [bconst((v >> i) & 1) for i in range(n)]
        raise Unsupp("bits of %r" % (v,))

    def mk(self, bits):
        return BV(bits).simplify()

    def isbits(self, v):
        return isinstance(v, (BV, Bf, bool)) or isinstance(v, int)

    def term(self, v):
        """affine form of a value"""
        if isinstance(v, (BV,)):
            return bv_term(v)
        if isinstance(v, Bf):
            c = v.const()
            return c if c is not None else bv_term(BV([v]))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, P):
            self.__dict__.setdefault("by_addr", {})[id(v.o)] = v.o
            return lin_add(T("addr", (v.o.name, id(v.o)), "int"), v.off)
        if isinstance(v, FnP):
            return T("fnaddr", (v.name,), "int")
        if v is UNDEF:
            raise Unsupp("use of an undefined value")
        if isinstance(v, T) and v.ty == "bool":
            return T("boolint", (v,), "int")
        return v

    def known(self, cond):
        if isinstance(cond, bool):
            return cond
        return self.I.facts.decide(cond)

    def wrap(self, x, n):
        """mathematical integer -> [0, 2^n)"""
        if isinstance(x, int):
            return x & ((1 << n) - 1)
        lo = le0(lin_mul(x, -1))                  # x >= 0
        hi = le0(lin_add(x, (1 << n) - 1, -1))    # x <= 2^n - 1
        a, b = self.known(lo), self.known(hi)
        if a is True and b is True:
            return x
        if any(t.op == "addr" for t in walk_terms(x)):
            return x
        if a is not True:
            if not self.I.choose(lo):
                y = lin_add(x, 1 << n)
                if self.known(le0(lin_mul(y, -1))) is True:
                    return y
                return lin_mod(x, 1 << n)
        if b is not True:
            if not self.I.choose(hi):
                y = lin_add(x, -(1 << n))
                if self.known(le0(lin_add(y, (1 << n) - 1, -1))) is True:
                    return y
                return lin_mod(x, 1 << n)
        return x

    def signed(self, v, n):
        """two's complement reading of an affine value"""
        v = self.term(v)
        if isinstance(v, int):
            return v - (1 << n) if v >> (n - 1) & 1 else v
        small = le0(lin_add(v, (1 << (n - 1)) - 1, -1))
        if self.I.choose(small):
            return v
        return lin_add(v, -(1 << n))

    def binop(self, op, t, x, y):
        if t.k == "vec":
            xs, ys = self.vec(x, t), self.vec(y, t)
            return [self.binop(op, t.sub[0], a, b) for a, b in zip(xs, ys)]
        if t.k != "i":
            return self.I.fresh("f" + op, (), "float")
        n = t.n
        if x is UNDEF or y is UNDEF:
            if op == "and" and (x == 0 or y == 0):
                return 0
            return UNDEF
        if n == 1:
            return self.bool_op(op, x, y)
        x, y = self.I.norm(x), self.I.norm(y)
        if isinstance(x, T) and x.ty == "bool":
            x = self.term(x)
        if isinstance(y, T) and y.ty == "bool":
            y = self.term(y)
        M = (1 << n) - 1
        if isinstance(x, int) and isinstance(y, int):
            return self.int_op(op, x, y, n)
        if self.isbits(x) and self.isbits(y):
            r = self.bits_op(op, x, y, n)
            if r is not None:
                return r
        x, y = self.term(x), self.term(y)
        if op == "add":
            return self.wrap(self.joined(lin_add(x, y)) if not is_int(x) and not is_int(y) else lin_add(x, y if not isinstance(y, int) or y < 1 << (n - 1) else y - (1 << n)) if self.neg_const(y, n, x) else lin_add(x, y), n)
        if op == "sub":
            return self.wrap(lin_add(x, y, -1), n)
        if op == "mul":
            if isinstance(x, int) and x >> (n - 1):
                x -= 1 << n
            if isinstance(y, int) and y >> (n - 1):
                y -= 1 << n
            if is_int(x) or is_int(y):
                return self.wrap(lin_mul(x, y), n)
        if op == "shl" and is_int(y):
            return self.wrap(lin_mul(x, 1 << y), n) if y < n else UNDEF
        if op == "lshr" and is_int(y):
            return self.shifted(x, y)
        if op == "ashr" and is_int(y):
            return self.wrap(lin_floordiv(self.signed(x, n), 1 << y), n)
        if op == "udiv" and is_int(y) and y:
            return lin_floordiv(x, y)
        if op == "urem" and is_int(y) and y:
            return lin_mod(x, y)
        if op == "sdiv" and is_int(y) and y and not y >> (n - 1):
            s = self.signed(x, n)
            if self.known(le0(lin_mul(s, -1))) is True:
                return lin_floordiv(s, y)
            d = T("floordiv", (s, y), "int")
            if lin_mod(s, y) == 0:
                return self.wrap(lin_floordiv(s, y), n)
            return self.wrap(lin_mul(lin_floordiv(lin_mul(s, -1), y), -1), n)
        if op == "srem" and is_int(y) and y:
            s = self.signed(x, n)
            if self.known(le0(lin_mul(s, -1))) is True:
                return lin_mod(s, y)
        if op == "and":
            if is_int(x):
                x, y = y, x
            if is_int(y):
                if y & (y + 1) == 0:
                    return self.residue(lin_mod(x, y + 1))
                z = (y ^ M) + 1
                if z & (z - 1) == 0:          # clears the low bits
                    return lin_add(x, self.residue(lin_mod(x, z)), -1)
        if op == "or" and is_int(x):
            x, y = y, x
        if op == "or" and is_int(y):
            low = y & -y
            # or of disjoint parts
            if lin_mod(x, 1 << y.bit_length()) == 0:
                return lin_add(x, y)
        if op == "or":
            for a, b in ((x, y), (y, x)):
                k = low_zeros(a)
                if k and self.known(le0(lin_add(b, (1 << k) - 1, -1))) is True:      # or of disjoint parts
                    return self.joined(lin_add(a, b))
        if op == "xor" and is_int(y) and y == M:
            return lin_add(M, x, -1)
        if op == "xor" and x == y:
            return 0
        if op in ("and", "or") and x == y:
            return x
        v = T("op" + op, (x, y), "int")
        self.ranged(v, n)
        if op in ("or", "xor"):
            for k in (8, 16, 32, 48, 63):
                if k < n and all(self.known(le0(lin_add(a, (1 << k) - 1, -1))) is True for a in (x, y)):
                    self.ranged(v, k)
                    break
        return v

    def shifted(self, x, n):
        """x >> n of an unsigned x"""
        if n and self.known(le0(lin_add(x, (1 << n) - 1, -1))) is True:
            return 0
        return lin_floordiv(x, 1 << n)

    def joined(self, t):
        """c*(x mod m) + c*m*((x // m) mod p) is c*(x mod m*p): a number put together again from its bytes"""
        k0, m = as_lin(t)
        if not any(isinstance(a, T) and a.op == "mod" for a in m):
            return t
        for a, c in sorted(m.items(), key=lambda q: repr(q[0])):
            if not (isinstance(a, T) and a.op == "mod" and is_int(a.args[1]) and a.args[1] > 1):
                continue
            x, b = a.args
            hi = lin_floordiv(x, b)
            for d, e in m.items():
                if e != c * b or not isinstance(d, T):
                    continue
                if d == hi:
                    r = x
                elif d.op == "mod" and d.args[0] == hi and is_int(d.args[1]) and d.args[1] > 0:
                    r = lin_mod(x, b * d.args[1])
                    z = b * d.args[1]
                    for q in (0, -1):
                        if self.known(le0(lin_add(q * z, x, -1))) is True and self.known(le0(lin_add(x, (q + 1) * z - 1, -1))) is True:
                            r = lin_add(x, -q * z)
                            break
                else:
                    continue
                rest = {z: k for z, k in m.items() if z not in (a, d)}
                return self.joined(lin_add(mk_lin(k0, rest), r, c))
        return t

    def residue(self, t):
        """x mod b where x is known to be within two periods near 0"""
        if not (isinstance(t, T) and t.op == "mod" and is_int(t.args[1])):
            return t
        x, b = t.args
        for k in range(-2, 3):
            if self.known(le0(lin_add(k * b, x, -1))) is not True:
                break
            if self.known(le0(lin_add(x, (k + 1) * b - 1, -1))) is True:
                return lin_add(x, -k * b)
            if self.known(le0(lin_add(x, (k + 2) * b - 1, -1))) is True:
                return lin_add(x, -k * b if self.I.choose(le0(lin_add(x, (k + 1) * b - 1, -1))) else -(k + 1) * b)
        return t

    def neg_const(self, y, n, x):
        return isinstance(y, int) and y >> (n - 1) and n >= 8

    def ranged(self, v, n):
        self.I.facts.assume(le0(lin_mul(v, -1)), True)
        self.I.facts.assume(le0(lin_add(v, (1 << n) - 1, -1)), True)

    def int_op(self, op, x, y, n):
        M = (1 << n) - 1
        sx = x - (1 << n) if x >> (n - 1) else x
        sy = y - (1 << n) if y >> (n - 1) else y
        if op in ("udiv", "urem", "sdiv", "srem") and y == 0:
            raise Unsupp("division by zero")
        if op in ("shl", "lshr", "ashr") and y >= n:
            return UNDEF
        if op == "sdiv":
            q = abs(sx) // abs(sy)
            return (q if (sx < 0) == (sy < 0) else -q) & M
        if op == "srem":
            r = abs(sx) % abs(sy)
            return (-r if sx < 0 else r) & M
        return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: x // y, "urem": lambda: x % y, "shl": lambda: x << y,
                "lshr": lambda: x >> y, "ashr": lambda: sx >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]() & M

    def bits_op(self, op, x, y, n):
        if op in ("shl", "lshr", "ashr") and isinstance(y, int):
            if y >= n:
                return UNDEF
            b = self.bits(x, n)
            if op == "shl":
                return self.mk(([B0] * y + b)[:n])
            return self.mk(b[y:] + [B0 if op == "lshr" else b[-1]] * y)
        if op in ("and", "or", "xor"):
            f = {"and": Bf.and_, "or": Bf.or_, "xor": Bf.xor}[op]
            return self.mk([f(a, b) for a, b in zip(self.bits(x, n), self.bits(y, n))])
        if op in ("add", "sub"):
            a, b = self.bits(x, n), self.bits(y, n)
            c = B0
            if op == "sub":
                b = [q.inv() for q in b]
                c = B1
            out = []
            try:
                for p, q in zip(a, b):
                    out.append(p.xor(q).xor(c))
                    c = p.and_(q).xor(c.and_(p.xor(q)))
            except Top:
                return None
            return self.mk(out)
        if op == "mul" and (isinstance(x, int) or isinstance(y, int)):
            if isinstance(x, int):
                x, y = y, x
            if y and y & (y - 1) == 0:
                return self.bits_op("shl", x, y.bit_length() - 1, n)
            if y == 0:
                return 0
            return None
        if op in ("udiv", "urem") and isinstance(y, int) and y and y & (y - 1) == 0:
            k = y.bit_length() - 1
            b = self.bits(x, n)
            return self.mk(b[k:] + [B0] * k) if op == "udiv" else self.mk(b[:k])
        if op == "lshr" or op == "shl" or op == "ashr":
            return None
        return None

    def bool_of(self, v):
        """i1 value as bool / Bf / bool term"""
        v = self.I.norm(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, BV):
            return bf_simpl(v.bit(0))
        if isinstance(v, Bf):
            return bf_simpl(v)
        if v is UNDEF:
            raise Unsupp("branch on an undefined value")
        if isinstance(v, T):
            if v.ty == "bool":
                return v
            if v.op == "boolint":
                return v.args[0]
            return b_not(eq_int(v, 0))
        raise Unsupp("condition %r" % (v,))

    def bool_op(self, op, x, y):
        x, y = self.bool_of(x), self.bool_of(y)
        if op in ("and", "mul"):
            if x is False or y is False:
                return False
            if x is True:
                return y
            if y is True:
                return x
        elif op == "or":
            if x is True or y is True:
                return True
            if x is False:
                return y
            if y is False:
                return x
        elif op in ("xor", "add", "sub"):
            for a, b in ((x, y), (y, x)):
                if a is False:
                    return b
                if a is True:
                    return self.bnot(b)
        if isinstance(x, Bf) and isinstance(y, Bf):
            return bf_simpl({"and": Bf.and_, "or": Bf.or_, "xor": Bf.xor}[op](x, y))
        # split on one operand
        if self.I.choose(x):
            return self.bool_op(op, True, y)
        return self.bool_op(op, False, y)

    def bnot(self, x):
        if isinstance(x, bool):
            return not x
        if isinstance(x, Bf):
            return x.inv()
        return b_not(x)

    def icmp(self, p, t, x, y):
        if t.k == "vec":
            raise Unsupp("vector comparison")
        x, y = self.I.norm(x), self.I.norm(y)
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if t.k == "ptr":
            return self.ptrcmp(p, x, y)
        n = t.n
        if n == 1:
            x, y = self.bool_of(x), self.bool_of(y)
            if p == "eq":
                return self.bnot(self.bool_op("xor", x, y))
            if p == "ne":
                return self.bool_op("xor", x, y)
            x, y = (self.term(v) if isinstance(v, T) else v for v in (x, y))
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, int) and isinstance(y, int):
            if p[0] == "s":
                x = x - (1 << n) if x >> (n - 1) else x
                y = y - (1 << n) if y >> (n - 1) else y
            return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p if p in ("eq", "ne") else p[1:]]
        if self.isbits(x) and self.isbits(y):
            try:
                return self.bitcmp(p, x, y, n)
            except Top:
                pass
        if p[0] == "s":
            x, y = self.signed(x, n), self.signed(y, n)
        else:
            x, y = self.term(x), self.term(y)
        if p in ("eq", "ne"):
            for a, b in ((x, y), (y, x)):
                if b == 0 and is_int(b) and isinstance(self.pointer(a), P):
                    return p == "ne"
            for a, b in ((x, y), (y, x)):
                if b == 0 and is_int(b) and isinstance(a, T) and (r := self.xor_parts(a)) is not None:
                    x, y = r
                    break
        self.apart(lin_add(x, y, -1))
        if p == "eq":
            return eq_int(x, y)
        if p == "ne":
            return b_not(eq_int(x, y))
        q = p[1:]
        if q == "le":
            return le0(lin_add(x, y, -1))
        if q == "lt":
            return le0(lin_add(lin_add(x, y, -1), 1))
        if q == "ge":
            return le0(lin_add(y, x, -1))
        return le0(lin_add(lin_add(y, x, -1), 1))

    def apart(self, d):
        """different objects do not overlap; their addresses are in the order of their creation"""
        objs = [a for a in as_lin(d)[1] if isinstance(a, T) and a.op == "addr" and a.args[1] in self.__dict__.get("by_addr", {})]
        if len(objs) < 2:
            return
        done = self.__dict__.setdefault("_apart", set())
        for a in objs:
            for b in objs:
                if self.by_addr[a.args[1]].rank < self.by_addr[b.args[1]].rank and (a, b) not in done:
                    done.add((a, b))
                    self.I.facts.assume(le0(lin_add(lin_add(a, b, -1), 1 << 42)), True)

    def xor_parts(self, t):
        """(a, b) if t is a ^ b, or its low bits with a and b having no others: it is 0 just when a is b"""
        limit = None
        if t.op == "mod" and is_int(t.args[1]):
            t, limit = t.args
        if not isinstance(t, T) or t.op != "opxor":
            return None
        for v in t.args:
            if limit is not None and self.known(le0(lin_add(v, limit - 1, -1))) is not True:
                return None
        return t.args

    def bitcmp(self, p, x, y, n):
        a, b = self.bits(x, n), self.bits(y, n)
        if p in ("eq", "ne"):
            if any(u.xor(v).const() == 1 for u, v in zip(a, b)):
                return p == "ne"
            r = B1
            for u, v in zip(a, b):
                r = r.and_(u.xor(v).inv())
            return bf_simpl(r if p == "eq" else r.inv())
        if p[0] == "s":
            a[-1], b[-1] = a[-1].inv(), b[-1].inv()
        if p[1:] in ("gt", "le"):
            a, b = b, a
        lt = B0
        for u, v in zip(a, b):
            lt = mux(u.xor(v), v, lt)
        return bf_simpl(lt if p[1:] in ("lt", "gt") else lt.inv())

    def ptrcmp(self, p, x, y):
        if p[0] == "s":      # objects lie in the lower half of the address space
            p = "u" + p[1:]
        x, y = self.pointer(x), self.pointer(y)
        for a, b in ((x, y), (y, x)):
            if a == 0 and isinstance(b, (P, FnP)):
                if p in ("eq", "ne"):
                    return p == "ne"
                return {"ult": a is x, "ule": a is x, "ugt": a is y, "uge": a is y}[p]
        if isinstance(x, int) and isinstance(y, int):
            return {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p]
        if isinstance(x, P) and isinstance(y, P):
            if x.o is y.o:
                return self.icmp("s" + p[1:] if p not in ("eq", "ne") else p, Ty("i", 65), x.off, y.off) if not (is_int(x.off) and is_int(y.off)) else \
                    {"eq": x.off == y.off, "ne": x.off != y.off, "ult": x.off < y.off, "ule": x.off <= y.off, "ugt": x.off > y.off, "uge": x.off >= y.off}[p]
            if p in ("eq", "ne"):
                return p == "ne"
            # unrelated objects: one total order (creation) is assumed
            return (x.o.rank < y.o.rank) == (p[1:] in ("lt", "le"))
        if isinstance(x, FnP) and isinstance(y, FnP):
            return (x.name == y.name) == (p == "eq")
        if isinstance(x, (T, int)) and isinstance(y, (T, int)):
            t = eq_int(x, y) if p in ("eq", "ne") else None
            if t is not None:
                return t if p == "eq" else self.bnot(t)
        if p in ("eq", "ne") and type(x) is not type(y):
            if isinstance(x, FnP) or isinstance(y, FnP) or (1 << 64) - 1 in (x, y):
                return p == "ne"
        raise Unsupp("pointer comparison %r %r" % (x, y))

    def vec(self, v, t):
        if isinstance(v, list):
            return v
        if isinstance(v, tuple) and v[0] == "agg0":
            return [0] * t.n
        if v is UNDEF:
            return [UNDEF] * t.n
        raise Unsupp("vector value %r" % (v,))

    def cast(self, op, t, v, u):
        if v is UNDEF:
            return UNDEF
        if op in ("bitcast", "addrspacecast"):
            return v
        if op == "ptrtoint":
            return self.term(v) if not isinstance(v, int) else v
        if op == "inttoptr":
            if isinstance(v, int):
                return v
            q = self.pointer(v)
            if isinstance(q, P):
                return q
            raise Unsupp("inttoptr of %r" % (v,))
        if t.k == "f" or u.k == "f":
            return self.I.fresh(op, (), "float" if u.k == "f" else "int")
        if t.k == "vec":
            return [self.cast(op, t.sub[0], x, u.sub[0]) for x in self.vec(v, t)]
        v = self.I.norm(v)
        if op == "trunc":
            if isinstance(v, int):
                return v & ((1 << u.n) - 1)
            if isinstance(v, BV):
                return self.mk(self.bits(v, u.n))
            if isinstance(v, (Bf, bool)):
                return v
            if isinstance(v, T) and v.op == "boolint":
                return v.args[0] if u.n == 1 else v
            v = self.term(v)
            if self.known(le0(lin_add(v, (1 << u.n) - 1, -1))) is True and self.known(le0(lin_mul(v, -1))) is True:
                return v
            if u.n == 1:
                return b_not(eq_int(lin_mod(v, 2), 0))
            return lin_mod(v, 1 << u.n)
        if op == "zext":
            if t.n == 1:
                v = self.bool_of(v)
                if isinstance(v, bool):
                    return int(v)
                if isinstance(v, Bf):
                    return BV([v]).simplify()
                return T("boolint", (v,), "int")
            return v
        if op == "sext":
            if t.n == 1:
                v = self.bool_of(v)
                if isinstance(v, bool):
                    return ((1 << u.n) - 1) if v else 0
                if isinstance(v, Bf):
                    return self.mk([v] * u.n)
                return ((1 << u.n) - 1) if self.I.choose(v) else 0
            if self.isbits(v):
                b = self.bits(v, t.n)
                return self.mk(b + [b[-1]] * (u.n - t.n))
            return self.wrap(self.signed(v, t.n), u.n)
        raise Unsupp("cast %s" % op)

    # ---- memory
    def gep(self, st, args):
        p = args[0][1]
        off = 0
        t = st
        for k, (at, i) in enumerate(args[1:]):
            i = self.I.norm(i)
            if i is UNDEF:
                return UNDEF
            if k == 0:
                off = lin_add(off, self.scaled(i, at, self.sizeof(t)))
                continue
            while t.k == "named":
                t = self.mod.types[t.n]
            if t.k == "struct":
                off = lin_add(off, self.layout(t)[0][i])
                t = t.sub[i]
            else:
                t = t.sub[0]
                off = lin_add(off, self.scaled(i, at, self.sizeof(t)))
        if isinstance(p, P):
            off = lin_add(p.off, off)
            if isinstance(off, T) and off.op in ("lin", "mod"):
                off = unwrapped(off)
            if is_int(off) and not -HALF64 <= off < HALF64:
                off = (int(off) + HALF64) % (2 * HALF64) - HALF64       # addresses wrap
            return P(p.o, off)
        if p == 0:
            if off == 0:
                return 0
            return off if isinstance(off, int) and off > 0 else T("nullplus", (off,), "int")
        if isinstance(p, int) and isinstance(off, (int, T)):
            v = lin_add(p - 2 * HALF64 if p >= HALF64 else p, off)
            return self.pointer(v)
        if p is UNDEF:
            return UNDEF
        raise Unsupp("address arithmetic on %r" % (p,))

    def scaled(self, i, at, s):
        if isinstance(i, (BV, Bf)):
            i = bv_term(BV.of(i))
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if i >> (at.n - 1):
                i -= 1 << at.n
            return i * s
        big = le0(lin_add(1 << (at.n - 1), i, -1))
        k = self.known(big)
        if k is True:
            i = lin_add(i, -(1 << at.n))
        return lin_mul(i, s)

    trace = None        # called with every checked access
    atomic = False      # within an atomic instruction

    def access(self, p, size, what):
        """check hook: raises a fault when the access is invalid"""
        if p == 0 or isinstance(p, int):
            self.fault("%s through a null pointer" % what)
        if p is UNDEF:
            self.fault("%s through an undefined pointer" % what)
        if not isinstance(p, P):
            raise Unsupp("%s through %r" % (what, p))
        if p.o.freed:
            self.fault("%s of freed memory %s" % (what, p.o))
        if p.o.size is not None:
            inside = le0(lin_mul(p.off, -1))
            end = le0(lin_add(lin_add(p.off, size), p.o.size, -1))
            for c in (inside, end):
                if self.known(c) is not True:
                    if not self.I.choose(c):
                        self.fault("%s of %d bytes at %s+%s, outside of its %s bytes" % (what, size, p.o, p.off, p.o.size))
        if self.trace:
            self.trace(p, size, what)

    def fault(self, why):
        raise Fault(why)

    def load_bytes(self, o, off, size):
        """list of byte values"""
        out = []
        for i in range(size):
            out.append(self.load_byte(o, lin_add(off, i)))
        return out

    def load_byte(self, o, off):
        if is_int(off):
            off = int(off)
            c = o.cells.get(off)
            if c is not None and c[0] == 1:
                return c[1]
            for k in range(off - 1, off - 17, -1):
                c = o.cells.get(k)
                if c is not None and k + c[0] > off:
                    v = c[1]
                    if v is UNDEF:
                        return UNDEF
                    if isinstance(v, (int, BV, Bf, bool)):
                        return self.mk(self.bits(v, 8 * c[0])[8 * (off - k):8 * (off - k) + 8])
                    if isinstance(v, T):
                        return lin_mod(self.shifted(v, 8 * (off - k)), 256)
                    raise Unsupp("byte %d of %r" % (off - k, v))
            c = o.cells.get(off)
            if c is not None:
                v = c[1]
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, (int, BV, Bf, bool)):
                    return self.mk(self.bits(v, 8 * c[0])[:8])
                if isinstance(v, T):
                    return lin_mod(v, 256)
                raise Unsupp("first byte of %r" % (v,))
        return self.back(o, off)

    def back(self, o, off):
        """byte that no cell covers"""
        if is_int(off):
            for a, b, f in reversed(o.fills):
                if a <= off < b:
                    return f(off)
        if o.content is not None:
            return o.content(off)
        return UNDEF

    def view(self, o):
        """reader of the bytes of o outside of its cells, as they are now"""
        fills, content = list(o.fills), o.content

        def get(off):
            for a, b, f in reversed(fills):
                if a <= off < b:
                    return f(off)
            return content(off) if content is not None else UNDEF
        return get

    def inside(self, o, off, n):
        """cells of o that touch [off, off+n)"""
        if n > len(o.cells):
            return [k for k, c in o.cells.items() if k < off + n and k + c[0] > off]
        return [k for k in range(off - 16, off + n) if k in o.cells and k + o.cells[k][0] > off]

    def load(self, t, p):
        while t.k == "named":
            t = self.mod.types[t.n]
        if t.k == "struct":
            offs = self.layout(t)[0]
            return [self.load(x, P(p.o, lin_add(p.off, o))) for o, x in zip(offs, t.sub)]
        if t.k in ("arr", "vec"):
            s = self.sizeof(t.sub[0])
            return [self.load(t.sub[0], P(p.o, lin_add(p.off, i * s))) for i in range(t.n)]
        size = self.storesize(t)
        self.access(p, size, "read")
        o, off = p.o, p.off
        if is_int(off):
            c = o.cells.get(int(off))
            if c is not None and c[0] == size:
                v = c[1]
                return self.fit(v, t)
        elif o.sym_writes:
            for wo, ws, wv in reversed(o.sym_writes):
                d = lin_add(off, wo, -1)
                if d == 0 and ws == size:
                    return self.fit(wv, t)
                if self.known(le0(lin_add(lin_add(d, size), 0))) is True or self.known(le0(lin_add(ws, d, -1))) is True:
                    continue
                raise Unsupp("read of %s at an unknown position after a write at an unknown position" % o)
        if t.k == "ptr":
            if is_int(off) and o.content is None:
                bs = self.load_bytes(o, off, size)
                if all(b == 0 and not isinstance(b, bool) for b in bs):
                    return 0
                if all(b is UNDEF for b in bs):
                    return UNDEF
            raise Unsupp("read of a pointer at %r" % (p,))
        if t.k == "f":
            return self.I.fresh("fload", (), "float")
        if o.content is not None and hasattr(o.content, "word"):
            w = o.content.word(off, size)
            if w is not None and not any(k for k in o.cells if is_int(off) and off - 16 < k < off + size):
                return w
        bs = self.load_bytes(o, off, size)
        if any(b is UNDEF for b in bs):
            if not self.padding or all(b is UNDEF for b in bs):
                return UNDEF
            # padding is copied along
            self.pads = getattr(self, "pads", 0) + 1
            bs = [self.mk([bvar("padding%d.%d" % (self.pads, 8 * i + j)) for j in range(8)]) if b is UNDEF else b for i, b in enumerate(bs)]
        if len(bs) == 1:
            return self.fit(bs[0], t)
        if all(self.isbits(b) for b in bs):
            bits = []
            for b in bs:
                bits += self.bits(b, 8)
            return self.mk(bits[:t.n])
        r = 0
        for i, b in enumerate(bs):
            r = lin_add(r, lin_mul(self.term(b), 1 << (8 * i)))
        return r

    def pointer(self, v):
        """the pointer an affine address denotes, or v itself"""
        if isinstance(v, T) and v.op in ("lin", "addr"):
            for a in walk_terms(v):
                if a.op == "addr" and a.args[1] in self.__dict__.get("by_addr", {}):
                    d = lin_add(v, a, -1)
                    if not any(x.op == "addr" for x in walk_terms(d)):
                        return P(self.by_addr[a.args[1]], d)
                    return v
        return v

    def fit(self, v, t):
        if t.k == "ptr":
            return self.pointer(v)
        if t.k == "i" and t.n == 1:
            return v
        return v

    def store(self, t, v, p):
        while t.k == "named":
            t = self.mod.types[t.n]
        if t.k == "struct":
            offs = self.layout(t)[0]
            for i, (o, x) in enumerate(zip(offs, t.sub)):
                self.store(x, self.elem(v, i), P(p.o, lin_add(p.off, o)))
            return
        if t.k in ("arr", "vec"):
            s = self.sizeof(t.sub[0])
            for i in range(t.n):
                self.store(t.sub[0], self.elem(v, i), P(p.o, lin_add(p.off, i * s)))
            return
        size = self.storesize(t)
        self.access(p, size, "write")
        if p.o.kind == "const":
            self.fault("write to constant %s" % p.o)
        if isinstance(v, tuple) and v[:1] == ("agg0",):
            v = 0
        if t.k == "i" and t.n < 8 and isinstance(v, (Bf, bool, T)):
            v = self.cast("zext", t, v, I8)
        self.put(p.o, p.off, size, v)

    def elem(self, v, i):
        if isinstance(v, list):
            return v[i]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, tuple) and v[:1] == ("agg0",):
            t = v[1]
            while t.k == "named":
                t = self.mod.types[t.n]
            s = t.sub[i] if t.k == "struct" else t.sub[0]
            return 0 if s.k in ("i", "ptr") else ("agg0", s)
        if v == 0:
            return 0
        raise Unsupp("element of %r" % (v,))

    def put(self, o, off, size, v):
        if not is_int(off):
            o.sym_writes.append((off, size, v))
            return
        off = int(off)
        self.clear(o, off, size)
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        """remove cells overlapping [off, off+size), keeping the parts outside"""
        for k in (range(off - 16, off + size) if size < 64 else self.inside(o, off, size)):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + size:
                del o.cells[k]
                continue
            parts = [(i, self.load_byte(o, i)) for i in range(k, k + c[0])] if isinstance(c[1], (int, BV, Bf, T, bool)) or c[1] is UNDEF else []
            del o.cells[k]
            for i, b in parts:
                if not off <= i < off + size:
                    o.cells[i] = (1, b)

    def alloc(self, name, size, kind="heap", content=None):
        m = Mem("%s#%d" % (name, len(self.addr_objs)), size, content, kind)
        self.addr_objs.append(m)
        return m

    @property
    def addr_objs(self):
        o = self.__dict__.setdefault("_objs", [])
        return o

    def memcpy(self, d, s, n):
        n = self.term(n)
        if not is_int(n):
            raise Unsupp("copy of %s bytes" % (n,))
        n = int(n)
        if n == 0:
            return
        self.access(s, n, "read")
        self.access(d, n, "write")
        so, do = s.off, d.off
        if is_int(so) and is_int(do):
            so, do = int(so), int(do)
            if n > 512:
                get = self.view(s.o)
                mine = []
                for k in self.inside(s.o, so, n):
                    c = s.o.cells[k]
                    if k >= so and k + c[0] <= so + n:
                        mine.append((k - so, c))
                    else:
                        mine += [(i - so, (1, self.load_byte(s.o, i))) for i in range(max(k, so), min(k + c[0], so + n))]
                ab = [(k - so, v) for k, v in s.o.abs.items() if is_int(k) and so <= k < so + n]
                self.clear(d.o, do, n)
                d.o.fills.append((do, do + n, lambda off: get(off - do + so)))
                for i, c in mine:
                    d.o.cells[do + i] = c
                for k, v in ab:
                    d.o.abs[do + k] = v
                return
            moved = []
            i = 0
            while i < n:
                c = s.o.cells.get(so + i)
                if c is not None and i + c[0] <= n:
                    moved.append((i, c[0], c[1]))
                    i += c[0]
                elif s.o.content is not None and hasattr(s.o.content, "word") and n - i >= 8 and not any((so + i + j) in s.o.cells for j in range(8)):
                    moved.append((i, 1, self.load_byte(s.o, so + i)))
                    i += 1
                else:
                    moved.append((i, 1, self.load_byte(s.o, so + i)))
                    i += 1
            ab = [(k - so, v) for k, v in s.o.abs.items() if is_int(k) and so <= k < so + n]
            self.clear(d.o, do, n)
            for i, sz, v in moved:
                if v is not UNDEF or d.o.fills or d.o.content is not None:
                    d.o.cells[do + i] = (sz, v)
            for k, v in ab:
                d.o.abs[do + k] = v
            return
        if n in (1, 2, 4, 8):
            t = Ty("i", 8 * n)
            self.store(t, self.load(t, s), d)
            return
        if is_int(do) and not is_int(so) and s.o is not d.o and not s.o.sym_writes and not s.o.cells:
            got = [self.load_byte(s.o, lin_add(so, i)) for i in range(n)]
            self.clear(d.o, int(do), n)
            for i, v in enumerate(got):
                d.o.cells[int(do) + i] = (1, v)
            return
        for i in range(n):
            self.store(I8, self.load(I8, P(s.o, lin_add(so, i))), P(d.o, lin_add(do, i)))

    def memset(self, d, v, n):
        n = self.term(n)
        if not is_int(n):
            raise Unsupp("fill of %s bytes" % (n,))
        n = int(n)
        if n:
            self.access(d, n, "write")
        if n > 512 and is_int(d.off):
            self.clear(d.o, int(d.off), n)
            d.o.fills.append((int(d.off), int(d.off) + n, lambda off: v))
            return
        for i in range(n):
            self.put(d.o, lin_add(d.off, i), 1, v)

    # ---- execution
    def call(self, name, args):
        name = self.mod.aliases.get(name, name)
        f = self.mod.fns.get(name)
        for pat, fn in self.find_models(name):
            r = fn(self, name, args)
            if r is not NotImplemented:
                return r
        if name.startswith("llvm."):
            return self.intrinsic(name, args, f)
        if f is None or f.body is None and f.blocks is None:
            raise Unsupp("call of %s" % self.mod.dem(name))
        return self.run(f, args)

    def find_models(self, name):
        return self.models.get(name, ()) if isinstance(self.models, dict) else self.models(self, name)

    def run(self, f, args):
        if self.depth > 120:
            raise Unsupp("call depth")
        self.mod.body(f)
        self.mod.executed.add(f.name)
        env = {}
        for (t, n), a in zip(f.params, args):
            env[n] = a
        self.depth += 1
        frame = []
        counts = {}
        try:
            lab, prev = f.entry, None
            while True:
                self.where = (f.name, lab)
                counts[lab] = counts.get(lab, 0) + 1
                if counts[lab] > self.loop_bound:
                    raise PathCut("loop bound in %s" % f.name)
                ins = self.mod.block(f, lab)
                nxt = self.block(f, ins, lab, prev, env, frame)
                if nxt[0] == "ret":
                    return nxt[1]
                prev, lab = lab, nxt[1]
        finally:
            self.depth -= 1
            for m in frame:
                m.freed = True

    def block(self, f, inss, lab, prev, env, frame):
        i = 0
        # phis read simultaneously
        phis = []
        while i < len(inss) and inss[i].op == "phi":
            t, inc = inss[i].a
            for v, b in inc:
                if b == prev:
                    phis.append((inss[i].res, self.val(t, v, env)))
                    break
            else:
                raise Unsupp("phi without predecessor %s in %s" % (prev, f.name))
            i += 1
        for r, v in phis:
            env[r] = v
        for s in inss[i:]:
            self.steps += 1
            if self.steps > self.max_steps:
                raise StepLimit("more than %d IR steps" % self.max_steps)
            op = s.op
            a = s.a
            if self.trace:
                self.atomic = op in ("atomicrmw", "cmpxchg") or (op in ("load", "store") and " %s atomic " % op in " " + s.line)
            if op == "load":
                p = self.val(PTR, a[1], env)
                env[s.res] = self.load(a[0], p if isinstance(p, P) else self.deref(p, "read"))
            elif op == "store":
                p = self.val(PTR, a[2], env)
                self.store(a[0], self.val(a[0], a[1], env), p if isinstance(p, P) else self.deref(p, "write"))
            elif op == "getelementptr":
                env[s.res] = self.gep(a[0], [(t, self.val(t, v, env)) for t, v in a[1]])
            elif op == "bin":
                env[s.res] = self.binop(a[0], a[1], self.val(a[1], a[2], env), self.val(a[1], a[3], env))
            elif op == "icmp":
                env[s.res] = self.icmp(a[0], a[1], self.val(a[1], a[2], env), self.val(a[1], a[3], env))
            elif op == "cast":
                env[s.res] = self.cast(a[0], a[1], self.val(a[1], a[2], env), a[3])
            elif op == "br":
                if a[0] is None:
                    return ("br", a[1])
                c = self.bool_of(self.val(I1, a[0], env))
                return ("br", a[1] if self.I.choose(c) else a[2])
            elif op == "ret":
                return ("ret", None if a is None else self.val(a[0], a[1], env))
            elif op == "call":
                r = self.do_call(a, env)
                if s.res is not None:
                    env[s.res] = r
            elif op == "invoke":
                try:
                    r = self.do_call(a, env)
                    if s.res is not None:
                        env[s.res] = r
                    return ("br", a[3])
                except Thrown as e:
                    self.pending = e
                    return ("br", a[4])
            elif op == "landingpad":
                env[s.res] = self.landing(a)
            elif op == "resume":
                e = self.pending
                raise e
            elif op == "select":
                (ct, c), (t, x), (_, y) = a
                env[s.res] = self.select(self.val(ct, c, env), t, self.val(t, x, env), self.val(t, y, env))
            elif op == "alloca":
                t, n = a
                k = 1
                if n is not None:
                    k = self.val(n[0], n[1], env)
                    if not is_int(k):
                        raise Unsupp("variable length array")
                m = self.alloc("%s.%s" % (f.name[-30:], s.res), self.sizeof(t) * int(k), "stack")
                frame.append(m)
                env[s.res] = P(m, 0)
            elif op == "switch":
                t, c, d, cases = a
                return ("br", self.switch(t, self.val(t, c, env), d, cases))
            elif op == "extractvalue":
                v = self.val(a[0], a[1], env)
                for k in a[2]:
                    v = self.elem(v, k)
                env[s.res] = v
            elif op == "insertvalue":
                v = self.val(a[0], a[1], env)
                env[s.res] = self.insert(a[0], v, self.val(a[2], a[3], env), a[4])
            elif op == "freeze":
                v = self.val(a[0], a[1], env)
                env[s.res] = self.I.fresh("freeze", (), "int") if v is UNDEF else v
            elif op == "unreachable":
                self.fault("reaches unreachable code in %s" % self.mod.dem(f.name))
            elif op == "atomicrmw":
                p = self.val(PTR, a[1], env)
                old = self.load(a[2], p)
                v = self.val(a[2], a[3], env)
                env[s.res] = old
                new = v if a[0] == "xchg" else self.binop(a[0], a[2], old, v)
                self.store(a[2], new, p)
            elif op == "cmpxchg":
                p = self.val(PTR, a[0], env)
                old = self.load(a[1], p)
                eq = self.icmp("eq", a[1], old, self.val(a[1], a[2], env))
                if self.I.choose(self.bool_of(eq)):
                    self.store(a[1], self.val(a[1], a[3], env), p)
                    env[s.res] = [old, True]
                else:
                    env[s.res] = [old, False]
            elif op == "fence":
                pass
            elif op == "fcmp":
                env[s.res] = self.I.fresh("fcmp", (), "bool")
            elif op == "fneg":
                env[s.res] = self.I.fresh("fneg", (), "float")
            else:
                raise Unsupp("instruction %s" % op)
        raise Unsupp("block without terminator")

    def deref(self, p, what):
        if p == 0 or isinstance(p, int):
            self.fault("%s through a null pointer" % what)
        if p is UNDEF:
            self.fault("%s through an undefined pointer" % what)
        if isinstance(p, T) and p.op == "nullplus":
            self.fault("%s through a null pointer" % what)
        raise Unsupp("%s through %r" % (what, p))

    def insert(self, t, v, x, idx):
        while t.k == "named":
            t = self.mod.types[t.n]
        n = len(t.sub) if t.k == "struct" else t.n
        vs = [self.elem(v, i) for i in range(n)]
        if len(idx) == 1:
            vs[idx[0]] = x
        else:
            sub = t.sub[idx[0]] if t.k == "struct" else t.sub[0]
            vs[idx[0]] = self.insert(sub, vs[idx[0]], x, idx[1:])
        return vs

    def select(self, c, t, x, y):
        if x is y:
            return x
        c = self.bool_of(c)
        if isinstance(c, bool):
            return x if c else y
        if t.k == "i" and isinstance(c, Bf) and self.isbits(x) and self.isbits(y):
            try:
                a, b = self.bits(x, t.n), self.bits(y, t.n)
                r = [mux(c, p, q) for p, q in zip(a, b)]
                if t.n == 1:
                    return bf_simpl(r[0])
                return self.mk(r)
            except Top:
                pass
        return x if self.I.choose(c) else y

    def switch(self, t, v, d, cases):
        v = self.I.norm(v)
        if isinstance(v, int):
            for k, lab in cases:
                if k == v:
                    return lab
            return d
        for k, lab in cases:
            if self.I.choose(self.bool_of(self.icmp("eq", t, v, k))):
                return lab
        return d

    def do_call(self, a, env):
        rt, callee, args = a[0], a[1], a[2]
        if callee[0] == "asm":
            return None
        vals = [self.val(t, v, env) for t, v in args]
        if callee[0] == "glob":
            return self.call(callee[1], vals)
        f = self.val(PTR, callee, env)
        if isinstance(f, FnP):
            return self.call(f.name, vals)
        if callable(f):
            return f(self, vals)
        self.fault("call through %r" % (f,)) if f == 0 or f is UNDEF else None
        raise Unsupp("indirect call through %r" % (f,))

    def landing(self, a):
        """{ exception pointer, selector }"""
        t, clauses, cleanup = a
        e = self.pending
        for k, (what, c) in enumerate(clauses):
            if what == "catch":
                if c[0] == "null" or self.catches(c, e.exc):
                    e.sel = k + 1
                    return [e.exc, T("selector", (c[1] if c[0] == "glob" else "all",), "int") if False else self.typeid(c)]
        return [e.exc, 0]

    def typeid(self, c):
        name = c[1] if c[0] == "glob" else "*"
        ids = self.__dict__.setdefault("_typeids", {})
        return ids.setdefault(name, len(ids) + 1)

    def catches(self, c, exc):
        want = c[1] if c[0] == "glob" else None
        return want in getattr(exc, "tinfos", ())

    # ---- intrinsics
    def intrinsic(self, name, args, f):
        n = name.split(".")
        k = n[1]
        if k in ("lifetime", "dbg", "assume", "experimental", "invariant", "prefetch", "stacksave", "stackrestore", "donothing"):
            return None
        if k == "memcpy" or k == "memmove":
            return self.memcpy(args[0], args[1], args[2])
        if k == "memset":
            return self.memset(args[0], args[1], args[2])
        t = f.ret
        if k in ("umin", "umax", "smin", "smax"):
            x, y = args
            c = self.bool_of(self.icmp(("u" if k[0] == "u" else "s") + ("lt" if k.endswith("min") else "gt"), t, x, y))
            return self.select(c, t, x, y)
        if k in ("fshl", "fshr"):
            x, y, s = args
            if not is_int(s):
                raise Unsupp("funnel shift")
            s = int(s) % t.n
            b = self.bits(y, t.n) + self.bits(x, t.n)
            return self.mk(b[t.n - s:2 * t.n - s] if k == "fshl" else b[s:s + t.n])
        if k == "bswap":
            b = self.bits(args[0], t.n)
            out = []
            for i in range(t.n // 8 - 1, -1, -1):
                out += b[8 * i:8 * i + 8]
            return self.mk(out)
        if k == "expect":
            return args[0]
        if k == "is":
            return False
        if k == "objectsize":
            return (1 << t.n) - 1
        if k == "trap":
            self.fault("trap")
        if k == "eh":
            return self.typeid(("glob", args[0].name if isinstance(args[0], FnP) else args[0].o.name[1:])) if isinstance(args[0], (P, FnP)) else self.typeid(("null",))
        if k in ("uadd", "umul", "usub") and n[2] == "with":
            op = {"uadd": "add", "umul": "mul", "usub": "sub"}[k]
            w = int(n[-1][1:])
            x, y = self.term(args[0]), self.term(args[1])
            exact = lin_add(x, y) if op == "add" else lin_mul(x, y) if op == "mul" else lin_add(x, y, -1)
            over = le0(lin_add(1 << w, exact, -1)) if op != "sub" else le0(lin_add(exact, 1))
            if self.I.choose(over):
                return [self.wrap(exact, w), True]
            return [exact, False]
        if k == "usub" and n[2] == "sat":
            x, y = self.term(args[0]), self.term(args[1])
            if self.I.choose(le0(lin_add(x, y, -1))):
                return 0
            return lin_add(x, y, -1)
        if k == "abs":
            x = args[0]
            if self.I.choose(self.bool_of(self.icmp("slt", t, x, 0))):
                return self.binop("sub", t, 0, x)
            return x
        if k in ("ctpop", "ctlz", "cttz") and is_int(args[0]):
            v = int(args[0])
            w = t.n
            if k == "ctpop":
                return bin(v).count("1")
            if k == "ctlz":
                return w - v.bit_length()
            return (v & -v).bit_length() - 1 if v else w
        raise Unsupp("intrinsic %s" % name)


class Fault(Exception):
    """invalid memory access or other undefined behaviour on this path"""
    pass


def walk_terms(v):
    if isinstance(v, T):
        yield v
        if v.op == "lin":
            for x in v.args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, tuple):
                        for z in y:
                            yield from walk_terms(z)
                    else:
                        yield from walk_terms(y)


class Module(Parser):
    def __init__(self, text):
        self._dem = None
        self.executed = set()
        self.ctors = [f for l in text.splitlines() if l.startswith("@llvm.global_ctors") for f in re.findall(r"ptr @([\w.]+), ptr", l)]
        Parser.__init__(self, text)

    def dem(self, name):
        if self._dem is None:
            self._dem = demangle(list(self.fns) + list(self.aliases))
            self._dem.update({n: n for n in ()})
        return self._dem.get(name, name)


def explore_ir(mod, scenario, models=None, max_paths=3000, until=None, machine=None, **kw):
    """all partitions of scenario(machine) -> [Outc], up to the first with until(outcome)"""
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    stack = [[]]
    out = []
    while stack:
        pre = stack.pop()
        m = (machine or Machine)(mod, pre, models, **kw)
        try:
            v = scenario(m)
            out.append(Outc(m, "return", v))
        except Thrown as e:
            out.append(Outc(m, "throw", e.exc))
        except Fault as e:
            out.append(Outc(m, "fault", str(e)))
        except Infeasible:
            pass
        except PathCut as e:
            out.append(Outc(m, "cut", e.why))
        except StepLimit as e:
            out.append(Outc(m, "diverge", str(e)))
        except Top as e:
            w = getattr(m, "where", None)
            if w and "[in " not in str(e):
                e.args = ("%s [in %s, block %s]" % (e, mod.dem(w[0])[:200], w[1]),) + e.args[1:]
            raise
        I = m.I
        if until and out and until(out[-1]):
            break
        for i in range(len(pre), len(I.taken)):
            c, n = I.taken[i]
            for alt in range(c + 1, n):
                stack.append([x for x, _ in I.taken[:i]] + [alt])
        if len(out) > max_paths:
            raise Top("more than %d partitions" % max_paths)
    return out


def compile_cpp(text, repo, flags=("-O1",), name="probe.cpp", pch=None):
    """IR of a C++ text compiled against the repository's headers"""
    cmd = [CLANG, "-std=c++17", "-S", "-emit-llvm", "-fno-discard-value-names", "-w", "-I" + os.path.join(repo, "flatdata-cpp/include"), "-x", "c++", "-", "-o", "-"] + list(flags)
    if pch:
        cmd[1:1] = ["-include-pch", pch]
    p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    return p.returncode, p.stdout, p.stderr
