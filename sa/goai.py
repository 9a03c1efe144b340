"""Abstract interpreter of Go in SSA form (as printed by tools/gossa), over the domains of the LLVM interpreter."""
import atexit
import json
import math
import os
import shutil
import subprocess
import tempfile

from .dom import *
from .llvm import I1, I64, Fault, Machine, PathCut, StepLimit, Top, Ty, Unsupp, is_int, explore_ir
from .report import AnalysisBroken, REPO

GO = os.path.join(REPO, "flatdata-go/flatdata")
IMPORT = "github.com/heremaps/flatdata/flatdata-go/flatdata"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIDTHS = {"bool": (1, False), "int": (64, True), "uint": (64, False), "uintptr": (64, False), "byte": (8, False), "rune": (32, True)}
for _n in (8, 16, 32, 64):
    WIDTHS["int%d" % _n] = (_n, True)
    WIDTHS["uint%d" % _n] = (_n, False)
WIDTHS["untyped int"] = WIDTHS["untyped rune"] = (64, True)
WIDTHS["untyped bool"] = (1, False)

_tool = None


def tool():
    """the SSA printer, built once per run in a scratch directory"""
    global _tool
    if _tool is None:
        d = tempfile.mkdtemp(prefix="sa-go-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        for f in ("main.go", "go.mod", "go.sum"):
            p = os.path.join(HERE, "tools/gossa", f)
            if os.path.exists(p):
                shutil.copy(p, d)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOCACHE=os.path.join(d, "cache"), GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="")
        exe = "/usr/local/bin/go" if os.path.exists("/usr/local/bin/go") else shutil.which("go")
        if not exe:
            raise AnalysisBroken("go not found")
        p = subprocess.run([exe, "build", "-o", os.path.join(d, "gossa"), "."], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode:
            raise AnalysisBroken("the SSA printer does not build: %s" % p.stdout[-300:])
        shutil.rmtree(os.path.join(d, "cache"), ignore_errors=True)
        _tool = os.path.join(d, "gossa")
    return _tool


def ssa(pkg, files, dirs=()):
    """-> Package or (kind, text) of a type or syntax error"""
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0")
    env.setdefault("HOME", "/root")
    p = subprocess.run([tool(), pkg] + list(files) + ["%s=%s" % d for d in dirs], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, cwd="/")
    if p.returncode or not p.stdout:
        raise AnalysisBroken("SSA printer fails: %s" % (p.stderr or p.stdout)[-400:])
    d = json.loads(p.stdout)
    if "error" in d:
        return None, "%s: %s" % (d["error"], d["text"])
    return Package(d), None


class Package:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.fns = d["functions"]
        self.consts = d.get("consts", {})
        self.methods = d["methods"]
        self.name = d["package"]
        self.executed = set()
        self.byname = {t["s"]: i for i, t in enumerate(self.types)}

    def dem(self, n):
        return n

    def under(self, t):
        ty = self.types[t]
        while ty["k"] == "named":
            ty = self.types[ty["u"]]
        return ty

    fns_ = aliases = {}


class Cell:
    """a variable"""
    n = 0

    def __init__(self, v, name="cell"):
        Cell.n += 1
        self.v, self.name, self.id = v, name, Cell.n

    def __repr__(self):
        return "&%s" % self.name


class Ptr:
    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.cell is self.cell and o.path == self.path

    def __hash__(self):
        return hash((id(self.cell), self.path))

    def __repr__(self):
        return "%r%s" % (self.cell, "".join(".%s" % (x,) for x in self.path))


class Struct(list):
    """value of a struct or array type; copied on load and store"""


class Slice:
    """cell of a backing array (a list), offset, length, capacity"""

    def __init__(self, cell, off, n, cap):
        self.cell, self.off, self.n, self.cap = cell, off, n, cap


class Buffer:
    """byte slice of unknown length with a recorded content"""

    def __init__(self, n):
        self.n, self.content = n, None


class Iface:
    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, Iface) and o.t == self.t and o.v == self.v

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "iface(%s, %r)" % (self.t, self.v)


class GoMap(dict):
    pass


class Fn:
    def __init__(self, name, binds=()):
        self.name, self.binds = name, list(binds)


class Err:
    """an error value made by errors.New or a failing library call"""

    def __init__(self, text):
        self.text = text

    def m_Error(self, M):
        return self.text

    def __repr__(self):
        return "error(%r)" % (self.text,)


def copyval(v):
    return Struct(copyval(x) for x in v) if isinstance(v, Struct) else v


class GoMachine(Machine):
    def __init__(self, mod, script=(), models=None, max_steps=400000):
        Machine.__init__(self, mod, script, models, max_steps)
        self.heap = {}
        self.inits = set()

    # ---- types
    def width(self, t):
        u = self.mod.under(t)
        return WIDTHS.get(u["n"]) if u["k"] == "basic" else None

    def ity(self, t):
        w = self.width(t)
        if w is None:
            raise Unsupp("integer type %s" % self.mod.types[t]["s"])
        return Ty("i", w[0])

    def zero(self, t):
        u = self.mod.under(t)
        k = u["k"]
        if k == "basic":
            n = u["n"]
            return "" if "string" in n else False if n in ("bool", "untyped bool") else 0.0 if "float" in n else 0
        if k == "struct":
            return Struct(self.zero(f["t"]) for f in u["f"])
        if k == "array":
            return Struct(self.zero(u["e"]) for _ in range(u["len"]))
        return None

    # ---- values
    def value(self, v, env):
        k = v["k"]
        if k == "reg":
            return env[v["n"]]
        if k == "const":
            if v.get("int"):
                w = self.width(v["t"])
                if w is None:
                    return float(v["v"])
                return int(v["v"]) & ((1 << w[0]) - 1) if w[0] > 1 else int(v["v"])
            if v["v"] is None:
                return self.zero(v["t"])
            return v["v"]
        if k == "global":
            return Ptr(self.global_(v["n"], v["t"]))
        if k == "func":
            return Fn(v["n"])
        if k == "builtin":
            return Fn("builtin " + v["n"])
        raise Unsupp("value " + k)

    def global_(self, name, t):
        c = self.heap.get(name)
        if c is None:
            c = self.heap[name] = Cell(self.zero(self.mod.under(t)["e"]), name)
        return c

    # ---- memory
    def deref(self, p, what="read"):
        if p is None:
            self.fault("nil pointer dereference")
        if not isinstance(p, Ptr):
            raise Unsupp("pointer %r" % (p,))
        return p

    def read(self, p):
        p = self.deref(p)
        v = p.cell.v
        for k in p.path:
            v = v[k]
        return copyval(v)

    def write(self, p, x):
        p = self.deref(p, "write")
        x = copyval(x)
        if not p.path:
            p.cell.v = x
            return
        v = p.cell.v
        for k in p.path[:-1]:
            v = v[k]
        v[p.path[-1]] = x

    # ---- calls
    def init_package(self, pkg):
        n = pkg + ".init"
        if n in self.mod.fns and n not in self.inits:
            self.inits.add(n)
            self.call(n, [])

    def call(self, name, args):
        m = self.models.get(name) or STD.get(name)
        if m is not None:
            return m(self, args)
        f = self.mod.fns.get(name)
        if name.endswith(".init") and (f is None or not f["blocks"]):
            return None
        if f is None or not f["blocks"]:
            raise Unsupp("call of %s" % name)
        return self.run(name, f, args, ())

    def invoke(self, recv, method, args):
        if recv is None:
            self.fault("method %s of a nil interface" % method)
        if isinstance(recv, Iface):
            t = self.mod.types[recv.t]["s"]
            f = self.mod.methods.get(t, {}).get(method)
            if f is None:
                raise Unsupp("method %s of %s" % (method, t))
            return self.call(f, [recv.v] + args)
        g = getattr(recv, "m_" + method, None)
        if g is None:
            raise Unsupp("method %s of %r" % (method, recv))
        return g(self, *args)

    def run(self, name, f, args, binds):
        if self.depth > 60:
            raise Unsupp("call depth")
        self.mod.executed.add(name)
        env = {}
        for p, a in zip(f["params"], args):
            env[p["n"]] = copyval(a)
        for p, a in zip(f["free"], binds):
            env[p["n"]] = a
        self.depth += 1
        counts = {}
        try:
            cur, prev = 0, None
            while True:
                self.where = (name, cur)
                counts[cur] = counts.get(cur, 0) + 1
                if counts[cur] > self.loop_bound:
                    raise PathCut("loop bound in %s" % name)
                b = f["blocks"][cur]
                k, v = self.gblock(name, b, prev, env)
                if k == "ret":
                    return v
                prev, cur = cur, b["s"][v]
        finally:
            self.depth -= 1

    def gblock(self, name, b, prev, env):
        phis = {}
        for s in b["i"]:
            if s["op"] == "Phi":
                phis[s["reg"]] = self.value(s["xs"][b["p"].index(prev)], env)
        env.update(phis)
        for s in b["i"]:
            op = s["op"]
            if op == "Phi":
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise StepLimit("more than %d steps" % self.max_steps)
            self.pos = s.get("pos")
            if op == "Return":
                xs = [self.value(x, env) for x in s["xs"]]
                return "ret", (xs[0] if len(xs) == 1 else tuple(xs) if xs else None)
            if op == "Jump":
                return "go", 0
            if op == "If":
                return "go", 0 if self.I.choose(self.bool_of(self.value(s["x"], env))) else 1
            if op == "Panic":
                self.fault("panic at %s" % s.get("pos"))
            f = getattr(self, "i_" + op, None)
            if f is None:
                raise Unsupp("Go instruction %s in %s" % (op, name))
            r = f(s, env)
            if "reg" in s:
                env[s["reg"]] = r
        raise Unsupp("block without terminator")

    # ---- instructions
    def i_Alloc(self, s, env):
        return Ptr(Cell(self.zero(s["e"]), "%s in %s" % (s["reg"], self.where[0])))

    def i_Store(self, s, env):
        self.write(self.value(s["x"], env), self.value(s["y"], env))

    def i_BinOp(self, s, env):
        x, y = self.value(s["x"], env), self.value(s["y"], env)
        return self.arith(s["o"], s["xt"], x, y, s)

    def arith(self, o, t, x, y, s):
        w = self.width(t)
        if o in ("==", "!="):
            r = self.equal(x, y, w)
            return r if o == "==" else self.bnot(r)
        if w is None:
            if isinstance(x, str) and isinstance(y, str):
                return {"+": lambda: x + y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[o]()
            if isinstance(x, float) or isinstance(y, float):
                return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "<": lambda: x < y, "<=": lambda: x <= y,
                        ">": lambda: x > y, ">=": lambda: x >= y}[o]()
            if o == "+":
                return self.concat(x, y)
            raise Unsupp("operator %s of %r and %r" % (o, x, y))
        n, sg = w
        ty = Ty("i", n)
        if o in ("<", "<=", ">", ">="):
            p = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[o]
            return self.icmp(("s" if sg else "u") + p, ty, x, y)
        if o in ("<<", ">>"):
            return self.shift(o, n, sg, x, y)
        if o == "&^":
            return self.binop("and", ty, x, self.binop("xor", ty, y, (1 << n) - 1))
        if o in ("/", "%"):
            if self.I.choose(self.bool_of(self.icmp("eq", ty, y, 0))):
                self.fault("division by zero")
        name = {"+": "add", "-": "sub", "*": "mul", "/": "sdiv" if sg else "udiv", "%": "srem" if sg else "urem", "&": "and", "|": "or", "^": "xor"}[o]
        if sg and o in ("/", "%") and not is_int(x) and is_int(y) and int(y) < 1 << (n - 1):
            if self.known(le0(lin_mul(self.term(x), -1))) is True and self.known(le0(lin_add(self.term(x), (1 << (n - 1)) - 1, -1))) is True:
                name = "u" + name[1:]
        return self.binop(name, ty, x, y)

    def shift(self, o, n, sg, x, y):
        if not is_int(y):
            c = self.I.norm(y)
            c = c.const() if isinstance(c, BV) else c
            if not is_int(c):
                raise Unsupp("shift by an unknown amount")
            y = c
        y = int(y)
        ty = Ty("i", n)
        if y >= n:
            if o == "<<" or not sg:
                return 0
            y = n - 1
        return self.binop("shl" if o == "<<" else "ashr" if sg else "lshr", ty, x, y)

    def equal(self, x, y, w):
        if w is not None:
            return self.icmp("eq", Ty("i", w[0]), x, y)
        if isinstance(x, T) or isinstance(y, T):
            return self.same_text(x, y)
        if isinstance(x, Err) or isinstance(y, Err):
            return x is y
        return x == y if type(x) is type(y) else False if x is None or y is None else x == y

    def same_text(self, x, y):
        """equality of strings with unknown content"""
        return self.models["string =="](self, x, y)

    def concat(self, x, y):
        raise Unsupp("concatenation of %r and %r" % (x, y))

    def i_UnOp(self, s, env):
        x = self.value(s["x"], env)
        o = s["o"]
        if o == "*":
            return self.read(x)
        if o == "!":
            return self.bnot(self.bool_of(x))
        if isinstance(x, float):
            return -x
        ty = self.ity(s["t"])
        if o == "-":
            return self.binop("sub", ty, 0, x)
        if o == "^":
            return self.binop("xor", ty, x, (1 << ty.n) - 1)
        raise Unsupp("operator " + o)

    def i_Call(self, s, env):
        args = [self.value(a, env) for a in s["args"]]
        if "method" in s:
            return self.invoke(self.value(s["recv"], env), s["method"], args)
        f = self.value(s["fn"], env)
        if f is None:
            self.fault("call of a nil function")
        if f.name.startswith("builtin "):
            return self.builtin(f.name[8:], args, s)
        if f.binds:
            return self.run(f.name, self.mod.fns[f.name], args, f.binds)
        return self.call(f.name, args)

    def builtin(self, n, args, s):
        if n == "len":
            return self.length(args[0])
        if n == "cap":
            return args[0].cap if args[0] is not None else 0
        if n == "append":
            a, b = args
            xs = self.items(a) + (self.items(b) if not isinstance(b, str) else [x for x in b.encode()])
            return Slice(Cell(Struct(xs), "append"), 0, len(xs), len(xs))
        if n == "copy":
            a, b = args
            src = self.items(b) if not isinstance(b, str) else list(b.encode())
            k = min(len(src), a.n)
            for i in range(k):
                a.cell.v[a.off + i] = copyval(src[i])
            return k
        if n == "delete":
            if args[0] is not None:
                args[0].pop(args[1], None)
            return None
        if n in ("min", "max"):
            r = args[0]
            for x in args[1:]:
                w = self.width(s["t"])
                c = self.icmp(("s" if w[1] else "u") + ("lt" if n == "min" else "gt"), Ty("i", w[0]), x, r)
                r = x if self.I.choose(self.bool_of(c)) else r
            return r
        if n in ("print", "println"):
            return None
        raise Unsupp("builtin " + n)

    def items(self, a):
        if a is None:
            return []
        if not isinstance(a, Slice):
            raise Unsupp("elements of %r" % (a,))
        return [copyval(x) for x in a.cell.v[a.off:a.off + a.n]]

    def length(self, a):
        if a is None:
            return 0
        if isinstance(a, str):
            return len(a.encode())
        if isinstance(a, (Slice, Buffer)):
            return a.n
        if isinstance(a, (Struct, GoMap)):
            return len(a)
        if isinstance(a, T):
            return self.models["string len"](self, a)
        if hasattr(a, "length"):
            return a.length(self)
        raise Unsupp("length of %r" % (a,))

    def i_ChangeType(self, s, env):
        return self.value(s["x"], env)

    i_ChangeInterface = i_ChangeType

    def i_Convert(self, s, env):
        x = self.value(s["x"], env)
        a, b = self.width(s["xt"]), self.width(s["t"])
        ub = self.mod.under(s["t"])
        if a and b:
            if b[0] == a[0]:
                return x
            if b[0] < a[0]:
                return self.cast("trunc", Ty("i", a[0]), x, Ty("i", b[0]))
            return self.cast("sext" if a[1] else "zext", Ty("i", a[0]), x, Ty("i", b[0]))
        if a and ub["k"] == "basic" and "float" in ub["n"]:
            if not is_int(x):
                raise Unsupp("conversion of an unknown number to float")
            return float(int(x) - (1 << a[0]) if a[1] and int(x) >> (a[0] - 1) else int(x))
        if b and isinstance(x, float):
            return int(x) & ((1 << b[0]) - 1)
        if ub["k"] == "basic" and "float" in ub["n"] and isinstance(x, float):
            return x
        if ub["k"] == "basic" and "string" in ub["n"]:
            if isinstance(x, str):
                return x
            if isinstance(x, Slice) and all(is_int(v) for v in self.items(x)):
                return bytes(int(v) for v in self.items(x)).decode("utf-8", "replace")
            if hasattr(x, "text"):
                return x.text
            if isinstance(x, Buffer) and x.content is not None:
                return x.content
        if ub["k"] == "slice" and isinstance(x, str):
            xs = list(x.encode())
            return Slice(Cell(Struct(xs)), 0, len(xs), len(xs))
        raise Unsupp("conversion of %r to %s" % (x, self.mod.types[s["t"]]["s"]))

    def i_Extract(self, s, env):
        return self.value(s["x"], env)[s["i"]]

    def i_Field(self, s, env):
        return copyval(self.value(s["x"], env)[s["i"]])

    def i_FieldAddr(self, s, env):
        p = self.deref(self.value(s["x"], env))
        return Ptr(p.cell, p.path + (s["i"],))

    def index(self, i, n):
        """position i of n elements"""
        if not is_int(i):
            c = self.I.norm(i)
            if not is_int(c):
                raise Unsupp("unknown index")
            i = c
        i = int(i)
        if is_int(n) and not i < n or i >> 63:
            self.fault("index %d out of %s elements" % (i, n))
        return i

    def i_Index(self, s, env):
        x = self.value(s["x"], env)
        if isinstance(x, str):
            b = x.encode()
            return b[self.index(self.value(s["y"], env), len(b))]
        return copyval(x[self.index(self.value(s["y"], env), len(x))])

    def i_IndexAddr(self, s, env):
        x = self.value(s["x"], env)
        if isinstance(x, Ptr):
            a = x.cell.v
            for k in x.path:
                a = a[k]
            return Ptr(x.cell, x.path + (self.index(self.value(s["y"], env), len(a)),))
        if x is None:
            self.fault("index of a nil slice")
        if not isinstance(x, Slice):
            raise Unsupp("index of %r" % (x,))
        return Ptr(x.cell, (x.off + self.index(self.value(s["y"], env), x.n),))

    def i_Lookup(self, s, env):
        m, k = self.value(s["x"], env), self.value(s["y"], env)
        u = self.mod.under(s["xt"])
        if isinstance(m, str):
            b = m.encode()
            return b[self.index(k, len(b))]
        if m is not None and not isinstance(m, GoMap):
            r = m.lookup(self, k)
        else:
            r = self.find(m or {}, k)
        got = r is not None
        v = copyval(r[0]) if got else self.zero(u["e"])
        return (v, got) if s["commaok"] else v

    def find(self, m, k):
        if isinstance(k, (BV, T, Bf)):
            if getattr(self, "keys_known", False):
                self.fault("looks up bits that are no key of a map")
            for x in m:
                if self.I.choose(self.bool_of(self.icmp("eq", I64, k, x))):
                    return (m[x],)
            return None
        return (m[k],) if k in m else None

    def i_MapUpdate(self, s, env):
        m = self.value(s["m"], env)
        if m is None:
            self.fault("assignment to an entry of a nil map")
        k = self.value(s["x"], env)
        if isinstance(k, (BV, T)):
            raise Unsupp("unknown map key")
        m[k] = self.value(s["y"], env)

    def i_MakeMap(self, s, env):
        return GoMap()

    def i_MakeInterface(self, s, env):
        x = self.value(s["x"], env)
        if isinstance(x, Err):
            return x
        return Iface(s["xt"], x)

    def i_MakeClosure(self, s, env):
        return Fn(s["x"]["n"], [self.value(x, env) for x in s["xs"]])

    def i_MakeSlice(self, s, env):
        n = self.value(s["x"], env)
        if not is_int(n):
            if self.I.choose(self.bool_of(self.icmp("slt", I64, n, 0))):
                self.fault("make with a negative length")
            return Buffer(n)
        if int(n) >> 63:
            self.fault("make with a negative length")
        e = self.mod.under(s["t"])["e"]
        return Slice(Cell(Struct(self.zero(e) for _ in range(int(n))), "make"), 0, int(n), int(n))

    def i_Slice(self, s, env):
        x = self.value(s["x"], env)
        lo = self.value(s["lo"], env) if s["lo"] else 0
        if isinstance(x, Ptr):
            a = x.cell.v
            for k in x.path:
                a = a[k]
            if x.path:
                raise Unsupp("slice of a nested array")
            x = Slice(x.cell, 0, len(a), len(a))
        if isinstance(x, str):
            b = x.encode()
            hi = self.value(s["hi"], env) if s["hi"] else len(b)
            if not is_int(lo) or not is_int(hi):
                raise Unsupp("slice of a string at an unknown position")
            if not 0 <= int(lo) <= int(hi) <= len(b):
                self.fault("slice bounds out of range")
            return b[int(lo):int(hi)].decode("utf-8", "replace")
        if x is None:
            x = Slice(Cell(Struct()), 0, 0, 0)
        if not isinstance(x, Slice):
            raise Unsupp("slice of %r" % (x,))
        hi = self.value(s["hi"], env) if s["hi"] else x.n
        if not is_int(lo) or not is_int(hi):
            raise Unsupp("slice at an unknown position")
        lo, hi = int(lo), int(hi)
        if not 0 <= lo <= hi <= x.cap:
            self.fault("slice bounds out of range")
        return Slice(x.cell, x.off + lo, hi - lo, x.cap - lo)

    def i_Range(self, s, env):
        x = self.value(s["x"], env)
        if isinstance(x, str):
            out, i = [], 0
            for ch in x:
                out.append((i, ord(ch)))
                i += len(ch.encode())
            return {"k": out, "i": 0}
        # map order is unspecified: all that matters here are its entries
        return {"k": list((x or {}).items()), "i": 0}

    def i_Next(self, s, env):
        it = self.value(s["x"], env)
        if it["i"] >= len(it["k"]):
            return (False, None, None)
        k, v = it["k"][it["i"]]
        it["i"] += 1
        return (True, k, copyval(v))

    def i_TypeAssert(self, s, env):
        x = self.value(s["x"], env)
        at = s["at"]
        if self.mod.under(at)["k"] == "iface":
            ok, v = x is not None, x
        else:
            ok = isinstance(x, Iface) and x.t == at
            v = x.v if ok else self.zero(at)
        if s["commaok"]:
            return (v, ok)
        if not ok:
            self.fault("type assertion fails")
        return v

    def i_RunDefers(self, s, env):
        for f, args, s0 in reversed(env.pop("defers ", [])):
            f(*args)

    def i_Defer(self, s, env):
        args = [self.value(a, env) for a in s["args"]]
        if "method" in s:
            recv = self.value(s["recv"], env)
            env.setdefault("defers ", []).append((self.invoke, (recv, s["method"], args), s))
        else:
            f = self.value(s["fn"], env)
            if f.name.startswith("builtin "):
                raise Unsupp("deferred builtin")
            if f.binds:
                env.setdefault("defers ", []).append((self.run, (f.name, self.mod.fns[f.name], args, f.binds), s))
            else:
                env.setdefault("defers ", []).append((self.call, (f.name, args), s))


def le_word(n):
    def f(M, args):
        b = args[-1]
        if isinstance(b, Slice):
            if b.n < n:
                M.fault("reads %d bytes of a slice of %d" % (n, b.n))
            bs = M.items(b)[:n]
            if isinstance(bs[0], tuple) and all(isinstance(x, tuple) and x[1] is bs[0][1] and x[0] == i for i, x in enumerate(bs)):
                return bs[0][1] if n == 8 else NotImplemented
            bits = []
            for x in bs:
                bits += M.bits(x, 8)
            return M.mk(bits)
        raise Unsupp("bytes of %r" % (b,))
    return f


def num1(fn):
    def f(M, args):
        if not isinstance(args[0], (int, float)):
            raise Unsupp("math on an unknown number")
        return fn(float(args[0]))
    return f


def nothing(M, args):
    return None


def err_new(M, args):
    return Err(args[0])


def join(M, args):
    xs = M.items(args[0])
    if not all(isinstance(x, str) or hasattr(x, "joined") for x in xs):
        raise Unsupp("path of %r" % (xs,))
    for i, x in enumerate(xs):
        if not isinstance(x, str):
            return x.joined(M, [y for y in xs[i + 1:]])
    p = os.path.normpath("/".join(x for x in xs if x)) if any(xs) else ""
    return p


def go_dir(M, args):
    p = args[0]
    if not isinstance(p, str):
        return p.dir(M)
    i = p.rfind("/")
    d = os.path.normpath(p[:i + 1]) if i >= 0 else "."
    return d or "."


def formatted(M, a):
    """text of simple formats of known values; anything else is a text nobody knows"""
    args = [x.v if isinstance(x, Iface) else x for x in M.items(a[1])] if len(a) > 1 else []
    out, i, f = "", 0, a[0]
    k = 0
    while k < len(f):
        if f[k] != "%" or k + 1 == len(f):
            out += f[k]
            k += 1
            continue
        c = f[k + 1]
        k += 2
        if c == "%":
            out += "%"
            continue
        if i >= len(args) or c not in "svdw":
            return "?"
        x = args[i]
        i += 1
        if isinstance(x, Err):
            x = x.text
        if isinstance(x, bool) or not (isinstance(x, str) or is_int(x)):
            return "?"
        out += x if isinstance(x, str) else str(int(x))
    return out


def texts(fn):
    def f(M, args):
        if not all(isinstance(x, (str, int)) for x in args):
            raise Unsupp("operation on an unknown text")
        return fn(*args)
    return f


def strings_join(M, a):
    xs = M.items(a[0])
    if not all(isinstance(x, str) for x in xs) or not isinstance(a[1], str):
        raise Unsupp("strings.Join of unknown texts")
    return a[1].join(xs)


STD = {
    "strings.Join": strings_join, "strings.HasSuffix": texts(lambda x, y: x.endswith(y)), "strings.HasPrefix": texts(lambda x, y: x.startswith(y)),
    "strings.Contains": texts(lambda x, y: y in x), "strings.TrimSuffix": texts(lambda x, y: x[:-len(y)] if y and x.endswith(y) else x),
    "strings.TrimPrefix": texts(lambda x, y: x[len(y):] if x.startswith(y) else x), "strings.EqualFold": texts(lambda x, y: x.casefold() == y.casefold()),
    "strings.TrimSpace": texts(lambda x: x.strip()), "strings.ToLower": texts(lambda x: x.lower()), "strings.ToUpper": texts(lambda x: x.upper()),
    "strings.Compare": texts(lambda x, y: (x > y) - (x < y)),
    "math.Exp2": num1(lambda x: 2.0 ** x), "math.Pow": lambda M, a: float(a[0]) ** float(a[1]), "math.Floor": num1(math.floor), "math.Ceil": num1(math.ceil),
    "errors.New": err_new, "log.Println": nothing, "log.Printf": nothing, "log.Print": nothing, "fmt.Println": nothing, "fmt.Printf": nothing,
    "(encoding/binary.littleEndian).Uint64": le_word(8), "(encoding/binary.littleEndian).Uint32": le_word(4), "(encoding/binary.littleEndian).Uint16": le_word(2),
    "fmt.Sprintf": formatted, "fmt.Errorf": lambda M, a: Err(formatted(M, a)), "fmt.Sprint": lambda M, a: "?",
    "path/filepath.Join": join, "path/filepath.Dir": go_dir,
}


def explore_go(pkg, scenario, models=None, **kw):
    return explore_ir(pkg, scenario, models, machine=GoMachine, **kw)
