"""Abstract interpreter for the Python subset used by /repo (nothing of /repo is imported or executed).

It walks the ast of the source files.  Values are
  * None/bool/int/float/str/bytes/list/tuple/dict/set   constants and containers of known shape
  * T / lin terms                                       unknown values (value numbering / affine forms)
  * BV / Bf                                             integers / Booleans as bit-provenance vectors
  * BytesV / Mem                                        byte sequences (known bytes + opaque parts) / memory of unknown length
  * Obj / Cls / Func / ...                              heap objects, classes, functions
Control flow that depends on an unknown value is split into trace partitions: explore() enumerates
the partitions, pruning those whose conjunction of facts is empty in the numeric domain.
"""
import ast
import builtins as _py
import os
import re as _re

from .dom import *
from .dom import _key


class Unsupported(Top):
    pass


class StepLimit(Exception):
    pass


class PathCut(Exception):
    """partition infeasible / beyond the unrolling bound"""

    def __init__(self, why=""):
        self.why = why


class Infeasible(PathCut):
    """a partition without members"""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


UNBOUND = object()


class Cls:
    def __init__(self, name, bases, ns, module=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("MRO")
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return "<%s>" % self.cls.name


class NT(tuple):
    """namedtuple instance"""
    cls = None

    def __repr__(self):
        return "%s%s" % (self.cls.name, tuple.__repr__(self))


class Func:
    def __init__(self, name, node, scope, module, owner=None, defaults=(), kwdefaults=None):
        self.name, self.node, self.scope, self.module, self.owner = name, node, scope, module, owner
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.attrs = {}

    def __repr__(self):
        return "<func %s.%s>" % (self.module.name if self.module else "?", self.name)


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %r>" % (self.func,)


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class SM:
    def __init__(self, f):
        self.f = f


class CM:
    def __init__(self, f):
        self.f = f


class Super:
    def __init__(self, start, obj):
        self.start, self.obj = start, obj


class Module:
    def __init__(self, name, path):
        self.name, self.path, self.ns = name, path, {}

    def __repr__(self):
        return "<module %s>" % self.name


class Ext:
    """external (not analysed) module or object, by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))


class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class It:
    """iterator over an evaluated list, optionally ending with an exception"""

    def __init__(self, items, exc=None):
        self.items, self.pos, self.exc = items, 0, exc

    def next(self):
        if self.pos < len(self.items):
            self.pos += 1
            return self.items[self.pos - 1]
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        return UNBOUND


# ------------------------------------------------------------------ bytes
class BytesV:
    """known bytes (int/BV 0..255) and opaque parts (T of type bytes)"""

    def __init__(self, parts, kind="bytes"):
        self.parts, self.kind = list(parts), kind
        self.writes = []

    @staticmethod
    def of(v):
        if isinstance(v, BytesV):
            return v
        if isinstance(v, (bytes, bytearray)):
            return BytesV(list(v))
        if isinstance(v, T):
            return BytesV([v])
        raise Unsupported("bytes from %r" % (v,))

    def length(self):
        n = 0
        for p in self.parts:
            n = lin_add(n, part_len(p))
        return n

    def concrete(self):
        return all(is_int(p) for p in self.parts)

    def canon(self):
        return tuple(self.parts)

    def __repr__(self):
        if self.concrete():
            return "%s(%r)" % (self.kind, bytes(self.parts))
        return "%s<%s>" % (self.kind, ", ".join(map(repr, self.parts)))


def part_len(p):
    if isinstance(p, T):
        if p.op == "tobytes":
            return p.args[1]
        if p.op == "encode" and isinstance(p.args[0], T) and p.args[0].op == "cat":
            n = 0
            for q in p.args[0].args:
                n = lin_add(n, len(q.encode()) if isinstance(q, str) else T("len", (T("encode", (q,), "bytes"),), "int"))
            return n
        return T("len", (p,), "int")
    return 1


class Mem:
    """memory of unknown content: bytes are bit vectors over the variables (name, index, bit)"""

    def __init__(self, name, length=None):
        self.name = name
        self.length = length
        self.over = {}
        self.reads = []   # [lo, hi) index pairs
        self.writes = []

    def byte(self, i):
        if i in self.over:
            return self.over[i]
        for k in self.over:
            d = lin_add(i, k, -1)
            if not is_int(d):
                raise Top("may-alias read in %s" % self.name)
        return BV([bvar((self.name, i, b)) for b in range(8)])

    def __repr__(self):
        return "<mem %s>" % self.name


class MemView:
    def __init__(self, mem, off, length):
        self.mem, self.off, self.len_ = mem, off, length

    def __repr__(self):
        return "%s[%r:+%r]" % (self.mem.name, self.off, self.len_)


def bv_name(v):
    """BV that is exactly a run of consecutive memory bits -> read term, else None"""
    if not isinstance(v, BV) or not v.bits:
        return None
    run = []
    for b in v.bits:
        if len(b.m) != 1:
            return None
        (mono,) = b.m
        if len(mono) != 1:
            return None
        (var,) = mono
        run.append(var)
    if all(isinstance(x, tuple) and len(x) == 3 for x in run):
        m, i0, b0 = run[0]
        start = lin_add(lin_mul(i0, 8), b0)
        for k, (m2, i, b) in enumerate(run):
            if m2 != m or lin_add(lin_add(lin_mul(i, 8), b), start, -1) != k:
                return None
        key = T("read", (m, start, len(run)), "int")
    elif all(isinstance(x, str) for x in run):
        base = run[0].rsplit(".", 1)[0]
        k0 = int(run[0].rsplit(".", 1)[1])
        for k, x in enumerate(run):
            if x != "%s.%d" % (base, k0 + k):
                return None
        key = T("read", (base, k0, len(run)), "int")
    else:
        return None
    if v.ext.const() == 0:
        return key
    if v.ext == v.bits[-1]:
        return T("sread", key.args, "int")
    return None


def bv_term(v):
    c = v.const()
    if c is not None:
        return c
    n = bv_name(v)
    if n is not None:
        return n
    # constant multiple / shifted run
    k = 0
    while k < len(v.bits) and v.bits[k].const() == 0:
        k += 1
    if k:
        n = bv_name(BV(v.bits[k:], v.ext))
        if n is not None:
            return lin_mul(n, 1 << k)
    if v.ext.const() == 0:
        return T("bvint", (v,), "int")
    return T("bvsint", (v,), "int")


# ------------------------------------------------------------------ strings
def cat(parts):
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "cat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if not out:
        return ""
    if len(out) == 1 and (isinstance(out[0], str) or out[0].ty == "str"):
        return out[0]
    return T("cat", tuple(out), "str")


def cat_parts(v):
    if isinstance(v, str):
        return [v] if v else []
    if isinstance(v, T) and v.op == "cat":
        return list(v.args)
    return [v]


def is_abs(v):
    return isinstance(v, (T, BV, Bf, BytesV, Mem, MemView))


PYNAMES = {bool: "bool", int: "int", float: "float", str: "str", bytes: "bytes", list: "list", tuple: "tuple",
           dict: "dict", set: "set", frozenset: "frozenset", type(None): "NoneType"}


class PT:
    """builtin type as value"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<type %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, PT) and o.name == self.name

    def __hash__(self):
        return hash(("pt", self.name))


class Scope:
    __slots__ = ("vars", "parent", "kind", "module", "func", "globals_", "nonlocals", "yields", "cls")

    def __init__(self, kind, parent, module, func=None):
        self.vars, self.parent, self.kind, self.module, self.func = {}, parent, kind, module, func
        self.globals_, self.nonlocals = set(), set()
        self.yields = None
        self.cls = None


def _own_nodes(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)
            else:
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    todo.extend(getattr(c, "decorator_list", []))


STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "pystubs")


class Program:
    """parsed sources + the memory shared between partitions (ASTs, statistics)"""

    def __init__(self, roots):
        self.roots = roots      # {package prefix: directory}
        self.asts = {}
        self.functions = set()
        self.sites = set()
        self.consulted = set()
        self._isgen = {}

    def find(self, name):
        for prefix, d in self.roots.items():
            if name == prefix or name.startswith(prefix + "."):
                rel = name[len(prefix):].lstrip(".").replace(".", "/")
                p = os.path.join(d, rel) if rel else d
                if os.path.isfile(p + ".py"):
                    return p + ".py"
                if os.path.isfile(os.path.join(p, "__init__.py")):
                    return os.path.join(p, "__init__.py")
        stub = os.path.join(STUBS, name + ".py")
        return stub if os.path.isfile(stub) else None

    def parse(self, path):
        if path not in self.asts:
            with open(path) as f:
                self.asts[path] = ast.parse(f.read(), path)
        if not path.startswith(STUBS):
            self.consulted.add(path)
        return self.asts[path]

    def is_gen(self, node):
        r = self._isgen.get(node)
        if r is None:
            r = False
            if not isinstance(node, ast.Lambda):
                r = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(node.body))
            self._isgen[node] = r
        return r


class Interp:
    def __init__(self, prog, choices=(), max_steps=400000, unroll=4, models=None):
        self.prog = prog
        self.script = list(choices)
        self.taken = []          # (choice, number of options)
        self.facts = Facts()
        self.pc = B1
        self.env = {}
        self.events = []
        self.modules = {}
        self.steps = 0
        self.max_steps = max_steps
        self.unroll = unroll
        self.serial = 0
        self.depth = 0
        self.exc_cls = {}
        self.cur_exc = []
        self.models = dict(DEFAULT_MODELS)
        if models:
            self.models.update(models)
        self.trace_calls = []
        self.frames = []
        self.object_cls = Cls("object", [], {})
        self.notes = []
        self.fs = None
        self.lin_reads = False
        self.ph = None           # token text <-> unknown number (numbers rendered into text)
        self.missing = set()     # modules whose import fails
        self.hostmods = ()
        self.pt_bases = {}

    # ---- unknown numbers in text
    def token(self, v):
        """text standing for the unknown number v"""
        if isinstance(v, BV):
            v = bv_term(v)
        for k, x in self.ph.items():
            if x == v:
                return k
        k = "7%05d1" % (len(self.ph) + 1)
        self.ph[k] = v
        return k

    def foreign(self, x):
        return bool(self.hostmods) and type(x).__module__.split(".")[0] in self.hostmods

    # ---- partitioning
    def pick(self, n, label=None):
        i = len(self.taken)
        c = self.script[i] if i < len(self.script) else 0
        self.taken.append((c, n))
        return c

    def choose(self, t):
        """truth of an abstract Boolean, splitting the partition when undecided"""
        if isinstance(t, bool):
            return t
        if isinstance(t, Bf):
            t = t.subst(self.env)
            c = t.const()
            if c is not None:
                return bool(c)
            yes = self.pc.and_(t)
            no = self.pc.and_(t.inv())
            if yes == B0:
                return False
            if no == B0:
                return True
            if self.pick(2) == 0:
                self.pc = yes
                self._lit(t, 1)
                return True
            self.pc = no
            self._lit(t, 0)
            return False
        d = self.facts.decide(t)
        if d is not None:
            return d
        b = first_bool(t) if t.op in ("le0", "eq0", "not") else None
        if b is not None:
            # decide the inner truth value first
            return self.choose(with_bool(t, b, int(self.choose(b.args[0]))))
        v = self.pick(2) == 0
        self.facts.assume(t, v)
        if self.facts.hopeless:
            raise Infeasible("no such numbers")
        self._derive(t, v)
        return v

    def _derive(self, t, v):
        pass

    def _lit(self, t, val):
        if len(t.m) <= 2 and t.vars() and len(t.vars()) == 1:
            (var,) = t.vars()
            inv = frozenset() in t.m
            self.env[var] = bconst(val ^ inv)

    def assume(self, t):
        if isinstance(t, Bf):
            self.pc = self.pc.and_(t)
            return
        self.facts.assume(t, True)

    def bits_eq(self, a, b):
        """a == b under the path condition, bit by bit (exact)"""
        a, b = BV.of(self.norm(a)), BV.of(self.norm(b))
        n = max(len(a.bits), len(b.bits))
        for i in range(n + 1):
            if self.pc.and_(a.bit(i).xor(b.bit(i))) != B0:
                return False
        return True

    def norm(self, v):
        if isinstance(v, BV) and self.env:
            return v.subst(self.env).simplify()
        if isinstance(v, Bf) and self.env:
            return bf_simpl(v.subst(self.env))
        return v

    def fresh(self, op, args=(), ty="any"):
        self.serial += 1
        return T(op, tuple(args) + (("#", self.serial),), ty)

    def event(self, kind, *data):
        self.events.append((kind,) + data)

    # ---- exceptions
    def exc_class(self, name):
        c = self.exc_cls.get(name)
        if c is None:
            py = getattr(_py, name)
            bases = [self.exc_class(b.__name__) for b in py.__bases__ if b is not object]
            c = Cls(name, bases, {})
            self.exc_cls[name] = c
        return c

    def throw(self, name, *args):
        o = Obj(self.exc_class(name))
        o.attrs["args"] = tuple(args)
        raise self.mk_raise(o)

    def mk_raise(self, o):
        if not hasattr(o, "where"):
            o.where = ["%s:%s:%d" % (os.path.basename(fr[2] or "?"), fr[0].name, fr[1]) for fr in self.frames[-6:]]
        return PyRaise(o)

    # ---- modules
    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.models and isinstance(self.models[name], Module):
            return self.models[name]
        if name in self.missing:
            self.throw("ModuleNotFoundError", "No module named " + name)
        path = self.prog.find(name)
        if path is None:
            if name in NS_PACKAGES:
                m = Module(name, None)
                self.modules[name] = m
                return m
            return Ext(name)
        parent = None
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        self.modules[name] = m
        m.ns["__name__"] = name
        if isinstance(parent, Module):
            parent.ns.setdefault(name.rsplit(".", 1)[1], m)
        sc = Scope("module", None, m)
        sc.vars = m.ns
        self.exec_body(self.prog.parse(path).body, sc)
        return m

    def load_source(self, name, text, path="<generated>"):
        m = Module(name, path)
        self.modules[name] = m
        m.ns["__name__"] = name
        sc = Scope("module", None, m)
        sc.vars = m.ns
        self.exec_body(ast.parse(text, path).body, sc)
        return m

    def _rel(self, module, level, name):
        if not level:
            return name
        base = module.name
        if not (module.path and module.path.endswith("__init__.py")):
            base = base.rsplit(".", 1)[0] if "." in base else ""
        for _ in range(level - 1):
            base = base.rsplit(".", 1)[0]
        return base + ("." + name if name else "")

    # ---- statements
    def exec_body(self, body, sc):
        for st in body:
            self.exec(st, sc)

    def exec(self, st, sc):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit("more than %d steps" % self.max_steps)
        if self.frames:
            self.frames[-1][1] = st.lineno
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s line %d" % (type(st).__name__, st.lineno))
        m(st, sc)

    def s_Expr(self, st, sc):
        self.ev(st.value, sc)

    def s_Pass(self, st, sc):
        pass

    def s_Return(self, st, sc):
        raise _Return(self.ev(st.value, sc) if st.value else None)

    def s_Break(self, st, sc):
        raise _Break()

    def s_Continue(self, st, sc):
        raise _Continue()

    def s_Global(self, st, sc):
        sc.globals_.update(st.names)

    def s_Nonlocal(self, st, sc):
        sc.nonlocals.update(st.names)

    def s_Import(self, st, sc):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(sc, a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.store(sc, top, self.import_module(top))

    def s_ImportFrom(self, st, sc):
        name = self._rel(sc.module, st.level, st.module)
        m = self.import_module(name)
        for a in st.names:
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        self.store(sc, k, v)
                continue
            if isinstance(m, Module):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.import_module(name + "." + a.name)
                    if isinstance(v, Ext):
                        if m.path is None:
                            pass
                        else:
                            self.throw("ImportError", a.name)
            else:
                v = self.ext(name + "." + a.name)
            self.store(sc, a.asname or a.name, v)

    def ext(self, name):
        v = self.models.get(name)
        if v is None:
            return Ext(name)
        if callable(v) and not isinstance(v, (Native, PT, Cls)):
            if isinstance(v, _py.type):
                return v
            if name.startswith(("os.", "io.", "tarfile.", "shutil.")):
                return Native(name, lambda I, a, k: v(I, [I.fspath(x) for x in a], {n: I.fspath(x) for n, x in k.items()}))
            return Native(name, v)
        return v

    def fspath(self, x):
        """path objects stand for their text in calls of the library"""
        if isinstance(x, Obj):
            f, _ = x.cls.lookup("__fspath__")
            if f is not None:
                return self.call(f, [x], {})
        return x

    def s_FunctionDef(self, st, sc):
        f = self.make_func(st, sc, st.name)
        for d in reversed(st.decorator_list):
            f = self.decorate(d, f, sc)
        self.store(sc, st.name, f)

    def decorate(self, d, f, sc):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.ev(d.value, sc)
            if isinstance(p, Prop):
                return Prop(p.fget, f) if d.attr == "setter" else p
        dv = self.ev(d, sc)
        if isinstance(dv, Ext) and dv.name.startswith("abc."):
            return f
        if isinstance(dv, Ext) and dv.name.startswith("functools."):
            return f
        return self.call(dv, [f], {})

    def make_func(self, node, sc, name):
        a = node.args
        defaults = [self.ev(x, sc) for x in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, sc)
        owner = sc.cls if sc.kind == "class" else None
        if owner is None and sc.func is not None:
            owner = sc.func.owner
        scope = sc
        while scope is not None and scope.kind == "class":
            scope = scope.parent
        return Func(name, node, scope, sc.module, owner, defaults, kwd)

    def s_ClassDef(self, st, sc):
        bases = []
        nt = None
        for b in st.bases:
            v = self.ev(b, sc)
            if isinstance(v, Ext) and v.name == "typing.NamedTuple":
                nt = True
                continue
            if isinstance(v, Cls):
                bases.append(v)
            elif isinstance(v, Ext):
                c = Cls(v.name, [self.object_cls], {})
                c.ext = True
                bases.append(c)
            elif isinstance(v, PT) and v.name == "object":
                pass
            elif isinstance(v, PT):
                bases.append(self.pt_base(v.name))
            else:
                raise Unsupported("base class %r" % (v,))
        for k in st.keywords:
            self.ev(k.value, sc)
        if not bases:
            bases = [self.object_cls]
        csc = Scope("class", sc, sc.module, sc.func)
        holder = Cls(st.name, bases, {}, sc.module)
        csc.cls = holder
        csc.vars = holder.ns
        doc = ast.get_docstring(st)
        holder.ns["__doc__"] = doc
        self.exec_body(st.body, csc)
        if nt:
            holder.nt_fields = list(holder.ns.get("__annotations__", {}))
            holder.nt_defaults = {n: holder.ns.pop(n) for n in holder.nt_fields if n in holder.ns}
        v = holder
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, sc)
        self.store(sc, st.name, v)

    def pt_base(self, name):
        """class standing for a builtin type as a base class; its instances hold a value of that type"""
        c = self.pt_bases.get(name)
        if c is not None:
            return c
        c = self.pt_bases[name] = Cls(name, [self.object_cls], {})
        c.builtin = name
        if name not in ("dict", "list", "str", "tuple", "set"):
            return c
        held = lambda o: o.attrs["#base"]
        ops = {"__getitem__": lambda I, a, k: I.getitem(held(a[0]), a[1]),
               "__contains__": lambda I, a, k: I.contains(held(a[0]), a[1]),
               "__iter__": lambda I, a, k: It(I.iterate(held(a[0]))),
               "__len__": lambda I, a, k: len(held(a[0])),
               "__bool__": lambda I, a, k: len(held(a[0])) > 0,
               "__eq__": lambda I, a, k: I.eq(held(a[0]), held(a[1]) if isinstance(a[1], Obj) and "#base" in a[1].attrs else a[1]),
               "__str__": lambda I, a, k: I.str(held(a[0]))}
        if name in ("dict", "list"):
            ops["__setitem__"] = lambda I, a, k: I.setitem(held(a[0]), a[1], a[2])

            def init(I, a, k):
                new = I.call_type(PT(name), list(a[1:]), k)
                h = held(a[0])
                h.update(new) if name == "dict" else h.__setitem__(slice(None), new)
            ops["__init__"] = init
        c.ns.update({n: Native("%s.%s" % (name, n), f) for n, f in ops.items()})
        return c

    def s_If(self, st, sc):
        if self.truth(self.ev(st.test, sc)):
            self.exec_body(st.body, sc)
        else:
            self.exec_body(st.orelse, sc)

    def s_While(self, st, sc):
        n = 0
        sym = 0
        while True:
            k = len(self.taken)
            if not self.truth(self.ev(st.test, sc)):
                self.exec_body(st.orelse, sc)
                return
            if len(self.taken) > k:
                sym += 1
                if sym > self.unroll:
                    raise PathCut("loop bound")
            n += 1
            try:
                self.exec_body(st.body, sc)
            except _Break:
                return
            except _Continue:
                pass

    def s_For(self, st, sc):
        for item in self.iterate(self.ev(st.iter, sc)):
            self.assign(st.target, item, sc)
            try:
                self.exec_body(st.body, sc)
            except _Break:
                return
            except _Continue:
                pass
        self.exec_body(st.orelse, sc)

    def s_Assign(self, st, sc):
        v = self.ev(st.value, sc)
        for t in st.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, st, sc):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, sc), sc)
        if sc.kind == "class" and isinstance(st.target, ast.Name) and "ClassVar" not in ast.unparse(st.annotation):
            sc.vars.setdefault("__annotations__", {})[st.target.id] = ast.unparse(st.annotation)

    def s_AugAssign(self, st, sc):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load(sc, t.id)
            self.assign(t, self.inplace(st.op, cur, self.ev(st.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            name = self.mangle(t.attr, sc)
            cur = self.getattr(o, name)
            self.setattr(o, name, self.inplace(st.op, cur, self.ev(st.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            i = self.ev(t.slice, sc)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(st.op, cur, self.ev(st.value, sc)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(op, ast.Add):
            if isinstance(a, list):
                a.extend(list(self.iterate(b)))
                return a
            if isinstance(a, BytesV) and a.kind == "bytearray":
                a.parts.extend(BytesV.of(b).parts)
                return a
        if isinstance(op, ast.BitOr) and isinstance(a, (set, dict)):
            a.update(b)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, st, sc):
        for t in st.targets:
            if isinstance(t, ast.Name):
                del sc.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                i = self.ev(t.slice, sc)
                if isinstance(o, dict):
                    k = self.dict_find(o, i)
                    if k is UNBOUND:
                        self.throw("KeyError", i)
                    del o[k]
                else:
                    del o[i]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, sc)
                del o.attrs[t.attr]
            else:
                raise Unsupported("del")

    def s_Assert(self, st, sc):
        if not self.truth(self.ev(st.test, sc)):
            self.throw("AssertionError", *( [self.ev(st.msg, sc)] if st.msg else []))

    def s_Raise(self, st, sc):
        if st.exc is None:
            if not self.cur_exc:
                self.throw("RuntimeError", "No active exception to reraise")
            raise PyRaise(self.cur_exc[-1])
        e = self.ev(st.exc, sc)
        if st.cause is not None:
            self.ev(st.cause, sc)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Obj):
            raise self.mk_raise(e)
        if isinstance(e, (Ext, T)):
            o = Obj(Cls(getattr(e, "name", "ext"), [self.exc_class("Exception")], {}))
            o.attrs["args"] = ()
            raise self.mk_raise(o)
        if isinstance(e, BaseException):
            raise self.mk_raise(self.from_py(e))
        self.throw("TypeError", "exceptions must derive from BaseException")

    def from_py(self, e):
        n = type(e).__name__
        if hasattr(_py, n):
            o = Obj(self.exc_class(n))
        else:
            o = Obj(self.host_exc(type(e)))
            o.attrs["host"] = e
        o.attrs["args"] = tuple(e.args)
        return o

    def host_exc(self, t):
        c = self.exc_cls.get(t)
        if c is None:
            if hasattr(_py, t.__name__) and t.__module__ == "builtins":
                return self.exc_class(t.__name__)
            bases = [self.host_exc(b) for b in t.__bases__ if b is not object]
            c = Cls(t.__name__, bases or [self.object_cls], {})
            c.host = t
            self.exc_cls[t] = c
        return c

    def s_Try(self, st, sc):
        try:
            try:
                self.exec_body(st.body, sc)
            except PyRaise as pr:
                for h in st.handlers:
                    if h.type is None or self.exc_match(pr.exc, self.ev(h.type, sc)):
                        if h.name:
                            self.store(sc, h.name, pr.exc)
                        self.cur_exc.append(pr.exc)
                        try:
                            self.exec_body(h.body, sc)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, sc)
        finally:
            if st.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (PyRaise, _Return, _Break, _Continue)):
                    self.exec_body(st.finalbody, sc)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, Cls):
            return t in exc.cls.mro
        if isinstance(t, _py.type):
            return self.host_exc(t) in exc.cls.mro
        if isinstance(t, Ext):
            n = t.name.split(".")[-1]
            return any(c.name in (n, t.name) for c in exc.cls.mro)
        return False

    def s_With(self, st, sc):
        self.with_items(st, 0, sc)

    def with_items(self, st, k, sc):
        if k == len(st.items):
            self.exec_body(st.body, sc)
            return
        it = st.items[k]
        m = self.ev(it.context_expr, sc)
        v = self.ctx_enter(m)
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
            self.with_items(st, k + 1, sc)
        except PyRaise as pr:
            if not self.ctx_exit(m, pr.exc):
                raise
        except (_Return, _Break, _Continue):
            self.ctx_exit(m)
            raise
        else:
            self.ctx_exit(m)

    def ctx_enter(self, m):
        if isinstance(m, Obj) and m.cls.lookup("__enter__")[0] is not None:
            return self.call(self.getattr(m, "__enter__"), [], {})
        return m

    def ctx_exit(self, m, exc=None):
        """true: the exception is swallowed"""
        if isinstance(m, Obj):
            if m.cls.lookup("__exit__")[0] is not None:
                return self.truth(self.call(self.getattr(m, "__exit__"), [exc.cls if exc else None, exc, None], {}))
            if m.cls.lookup("close")[0] is not None:
                self.call(self.getattr(m, "close"), [], {})
        elif isinstance(m, Suppress):
            return exc is not None and any(self.exc_match(exc, t) for t in m.types)
        elif isinstance(m, T):
            self.event("exit", m)
        return False

    # ---- names
    def mangle(self, name, sc):
        if name.startswith("__") and not name.endswith("__"):
            s = sc
            owner = None
            while s is not None:
                if s.kind == "class":
                    owner = s.cls
                    break
                if s.func is not None and s.func.owner is not None:
                    owner = s.func.owner
                    break
                s = s.parent
            if owner is not None:
                return "_%s%s" % (owner.name.lstrip("_"), name)
        return name

    def store(self, sc, name, v):
        name = self.mangle(name, sc) if name.startswith("__") else name
        if name in sc.globals_:
            sc.module.ns[name] = v
            return
        if name in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if s.kind == "function" and name in s.vars:
                    s.vars[name] = v
                    return
                s = s.parent
        sc.vars[name] = v

    def load(self, sc, name):
        name = self.mangle(name, sc) if name.startswith("__") else name
        s = sc
        first = True
        while s is not None:
            if (first or s.kind != "class") and name in s.vars:
                return s.vars[name]
            first = False
            s = s.parent
        if sc.module is not None and name in sc.module.ns:
            return sc.module.ns[name]
        b = BUILTINS.get(name)
        if b is not None:
            return b
        if hasattr(_py, name):
            p = getattr(_py, name)
            if isinstance(p, _py.type) and issubclass(p, BaseException):
                return self.exc_class(name)
        if name in ("NotImplemented",):
            return NotImplemented
        if name == "__doc__":
            return None
        self.throw("NameError", name)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(sc, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                tail = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, sc)
                self.assign(t.elts[k].value, items[k:len(items) - tail], sc)
                for e, x in zip(t.elts[k + 1:], items[len(items) - tail:]):
                    self.assign(e, x, sc)
                return
            if len(items) != len(t.elts):
                self.throw("ValueError", "values to unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), self.mangle(t.attr, sc), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, sc), self.ev(t.slice, sc), v)
        else:
            raise Unsupported("assignment target")

    # ---- expressions
    def ev(self, e, sc):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s line %d" % (type(e).__name__, e.lineno))
        return m(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.load(sc, e.id)

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while s.kind == "comp":
            s = s.parent
        self.store(s, e.target.id, v)
        return v

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), self.mangle(e.attr, sc))

    def e_Subscript(self, e, sc):
        return self.getitem(self.ev(e.value, sc), self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        return Slice(self.ev(e.lower, sc) if e.lower else None, self.ev(e.upper, sc) if e.upper else None,
                     self.ev(e.step, sc) if e.step else None)

    def _elts(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Tuple(self, e, sc):
        return tuple(self._elts(e.elts, sc))

    def e_List(self, e, sc):
        return self._elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self._elts(e.elts, sc))

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                kk = self.ev(k, sc)
                d[kk] = self.ev(v, sc)
        return d

    def e_IfExp(self, e, sc):
        return self.ev(e.body if self.truth(self.ev(e.test, sc)) else e.orelse, sc)

    def e_BoolOp(self, e, sc):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, sc)
            if self.truth(v) != is_and:
                return v
        return self.ev(e.values[-1], sc)

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            return not self.truth(v)
        v = self.norm(v)
        if isinstance(op, ast.USub):
            if isinstance(v, T):
                return lin_mul(v, -1)
            if isinstance(v, BV):
                return bv_neg(v)
            if isinstance(v, Bf):
                return bv_neg(BV([v]))
            return -v
        if isinstance(op, ast.Invert):
            if isinstance(v, T):
                return lin_add(lin_mul(v, -1), -1)
            if isinstance(v, (BV, Bf)):
                return bv_not(v)
            return ~v
        if isinstance(op, ast.UAdd):
            return v
        raise Unsupported("unary")

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        return self.binop(e.op, a, self.ev(e.right, sc))

    def e_Compare(self, e, sc):
        a = self.ev(e.left, sc)
        res = True
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, sc)
            res = self.compare(op, a, b)
            if len(e.ops) > 1:
                if not self.truth(res):
                    return False
            a = b
        return res

    def e_Lambda(self, e, sc):
        return self.make_func(e, sc, "<lambda>")

    def e_JoinedStr(self, e, sc):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, sc)
                spec = self.ev(v.format_spec, sc) if v.format_spec else ""
                if v.conversion == 114:
                    x = self.repr(x)
                elif v.conversion == 115:
                    x = self.str(x)
                parts.append(self.format(x, spec))
        return cat(parts)

    def format(self, x, spec):
        if spec == "":
            return self.str(x)
        if isinstance(x, (int, str, float)) and isinstance(spec, str):
            return _py.format(x, spec)
        if spec == "d" and isinstance(x, (T, BV)):
            return self.str(x)
        if self.ph is not None and isinstance(x, (T, BV)) and (isinstance(x, BV) or x.ty == "int") and spec in ("_", "_d", ",", ",d"):
            t = self.str(x)
            if isinstance(t, str) and t.isdigit():      # the digits of the text standing for the number, grouped
                return _py.format(int(t), spec)
        return T("format", (x, spec), "str")

    def comp(self, gens, sc, emit):
        csc = Scope("comp", sc, sc.module, sc.func)

        def rec(i):
            if i == len(gens):
                emit(csc)
                return
            g = gens[i]
            src = self.ev(g.iter, csc if i else sc)
            for item in self.iterate(src):
                self.assign(g.target, item, csc)
                if all(self.truth(self.ev(c, csc)) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, sc, lambda s: out.append(self.ev(e.elt, s)))
        return out

    def e_SetComp(self, e, sc):
        out = set()
        self.comp(e.generators, sc, lambda s: out.add(self.ev(e.elt, s)))
        return out

    def e_GeneratorExp(self, e, sc):
        out = []
        try:
            self.comp(e.generators, sc, lambda s: out.append(self.ev(e.elt, s)))
        except PyRaise as pr:
            return It(out, pr)
        return It(out)

    def e_DictComp(self, e, sc):
        out = {}

        def emit(s):
            k = self.ev(e.key, s)
            out[k] = self.ev(e.value, s)
        self.comp(e.generators, sc, emit)
        return out

    def e_Yield(self, e, sc):
        v = self.ev(e.value, sc) if e.value else None
        s = sc
        while s.yields is None:
            s = s.parent
        s.yields.append(v)
        if len(s.yields) > 100000:
            raise StepLimit("generator yields without end")
        return None

    def e_YieldFrom(self, e, sc):
        s = sc
        while s.yields is None:
            s = s.parent
        for v in self.iterate(self.ev(e.value, sc)):
            s.yields.append(v)
        return None

    def e_Starred(self, e, sc):
        raise Unsupported("starred")

    def e_Call(self, e, sc):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = sc
            while s is not None and not (s.kind == "function" and s.func is not None):
                s = s.parent
            first = s.func.node.args.args[0].arg
            return Super(s.func.owner, s.vars[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars") and not e.args:
            if e.func.id == "globals":
                return sc.module.ns
            return dict(sc.vars)
        f = self.ev(e.func, sc)
        args = self._elts(e.args, sc)
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None:
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        if self.frames:
            self.frames[-1][1] = e.lineno
            self.prog.sites.add((self.frames[-1][2], e.lineno, e.col_offset))
        return self.call(f, args, kwargs)

    # ---- calls
    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit("more than %d steps" % self.max_steps)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, PT):
            return self.call_type(f, args, kwargs)
        if isinstance(f, SM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__")
            if c is not None:
                return self.call(c, [f] + list(args), kwargs)
            self.throw("TypeError", "%s object is not callable" % f.cls.name)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs)
        if isinstance(f, T):
            if f.op == "attr":
                self.event("call", f, tuple(args), dict(kwargs))
                return self.fresh("ret", (f,))
            self.event("call", f, tuple(args), dict(kwargs))
            return self.fresh("ret", (f,))
        if callable(f) and not isinstance(f, (Cls,)):
            return self.call_host(f, args, kwargs)
        self.throw("TypeError", "%r is not callable" % (f,))

    def call_ext(self, name, args, kwargs):
        m = self.models.get(name)
        if m is not None:
            if isinstance(m, (Native, PT, Cls)):
                return self.call(m, args, kwargs)
            return m(self, args, kwargs)
        self.event("ext", name, tuple(args), dict(kwargs))
        return self.fresh("ext", (name,) + tuple(x if not isinstance(x, (Obj, list, dict, set)) else "obj" for x in args))

    def to_host(self, v):
        if isinstance(v, Func) and self.hostmods and not v.node.args.vararg:
            n = len(v.node.args.posonlyargs + v.node.args.args)
            names = ", ".join("a%d" % i for i in range(n))
            return _py.eval("lambda %s: call([%s])" % (names, names), {"call": lambda xs: self.call(v, xs, {})})
        if isinstance(v, (Func, Bound)):
            return lambda *a, **k: self.call(v, list(a), k)
        if isinstance(v, list):
            return [self.to_host(x) for x in v]
        if isinstance(v, tuple) and not isinstance(v, NT):
            return tuple(self.to_host(x) for x in v)
        return v

    def call_host(self, f, args, kwargs):
        try:
            return f(*[self.to_host(a) for a in args], **{k: self.to_host(v) for k, v in kwargs.items()})
        except (PyRaise, PathCut, Top, StepLimit):
            raise
        except Exception as e:
            raise self.mk_raise(self.from_py(e))

    def call_func(self, f, args, kwargs):
        node = f.node
        sc = Scope("function", f.scope, f.module, f)
        self.bind(f, node.args, list(args), dict(kwargs), sc)
        path = f.module.path if f.module else None
        self.prog.functions.add((path, f.owner.name + "." + f.name if f.owner else f.name))
        self.depth += 1
        if self.depth > 180:
            self.depth = 0
            raise StepLimit("recursion deeper than 180 frames in %s" % f.name)
        self.frames.append([f, getattr(node, "lineno", 0), path])
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, sc)
            if self.prog.is_gen(node):
                sc.yields = []
                try:
                    self.exec_body(node.body, sc)
                except _Return:
                    pass
                except PyRaise as pr:
                    return It(sc.yields, pr)
                return It(sc.yields)
            try:
                self.exec_body(node.body, sc)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.frames.pop()

    def bind(self, f, a, args, kwargs, sc):
        pos = [x.arg for x in a.posonlyargs + a.args]
        v = sc.vars
        n = len(pos)
        for name, val in zip(pos, args):
            v[name] = val
        extra = args[n:]
        if a.vararg:
            v[a.vararg.arg] = tuple(extra)
        elif extra:
            self.throw("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
        for k in list(kwargs):
            if k in pos or any(k == x.arg for x in a.kwonlyargs):
                if k in v:
                    self.throw("TypeError", "multiple values for %s" % k)
                v[k] = kwargs.pop(k)
        if a.kwarg:
            v[a.kwarg.arg] = kwargs
        elif kwargs:
            self.throw("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, list(kwargs)))
        d0 = n - len(f.defaults)
        for i, name in enumerate(pos):
            if name not in v:
                if i >= d0:
                    v[name] = f.defaults[i - d0]
                else:
                    self.throw("TypeError", "%s() missing argument %s" % (f.name, name))
        for x in a.kwonlyargs:
            if x.arg not in v:
                if x.arg in f.kwdefaults:
                    v[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.throw("TypeError", "%s() missing argument %s" % (f.name, x.arg))

    def instantiate(self, c, args, kwargs):
        if getattr(c, "nt_fields", None) is not None or any(getattr(b, "nt_fields", None) for b in c.mro):
            nt = next(b for b in c.mro if getattr(b, "nt_fields", None) is not None)
            vals = list(args)
            if len(vals) > len(nt.nt_fields):
                self.throw("TypeError", "too many arguments for %s" % c.name)
            for fld in nt.nt_fields[len(vals):]:
                if fld in kwargs:
                    vals.append(kwargs.pop(fld))
                elif fld in nt.nt_defaults:
                    vals.append(nt.nt_defaults[fld])
                else:
                    self.throw("TypeError", "missing argument %s" % fld)
            if kwargs:
                self.throw("TypeError", "unexpected argument %s" % list(kwargs))
            r = NT(vals)
            r.cls = c
            return r
        o = Obj(c)
        bt = next((b.builtin for b in c.mro if getattr(b, "builtin", None)), None)
        if bt is not None:
            o.attrs["#base"] = self.call_type(PT(bt), [] if bt in ("dict", "list") else list(args), {})
            if bt not in ("dict", "list"):
                args, kwargs = [], {}
        is_exc = any(b.name == "BaseException" for b in c.mro)
        if is_exc:
            o.attrs["args"] = tuple(args)
        init, _ = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif (args or kwargs) and not is_exc and not any(getattr(b, "ext", False) for b in c.mro):
            self.throw("TypeError", "%s() takes no arguments" % c.name)
        return o

    # ---- attributes
    def getattr(self, o, name, default=UNBOUND):
        try:
            return self._getattr(o, name)
        except PyRaise as pr:
            if default is not UNBOUND and self.exc_class("AttributeError") in pr.exc.cls.mro:
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            v, c = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if v is not None or c is not None:
                return self.bind_attr(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.attrs
            if any(b.name == "BaseException" for b in o.cls.mro) and name in ("__init__", "__str__", "with_traceback"):
                return Native("exc." + name, lambda I, a, k: o.attrs.__setitem__("args", tuple(a)))
            if name == "__init__":
                return Native("object.__init__", lambda I, a, k: None)
            if "host" in o.attrs:
                return self.call_host(_py.getattr, [o.attrs["host"], name], {})
            if "#base" in o.attrs:
                h = o.attrs["#base"]
                if has_method(h, self.type_name(h), name):
                    return self.getattr(h, name)
            g, _ = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(g, [o, name], {})
            if any(getattr(b, "ext", False) for b in o.cls.mro):
                return T("attr", (T("objid", (id(o),)), name))
            self.throw("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
        if isinstance(o, Cls):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, SM):
                    return v.f
                if isinstance(v, CM):
                    return Bound(v.f, o)
                return v
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return o.ns.get("__doc__")
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__init__":
                if any(b.name == "BaseException" for b in o.mro):
                    return Native("exc.__init__", lambda I, a, k: a[0].attrs.__setitem__("args", tuple(a[1:])))
                return Native("object.__init__", lambda I, a, k: None)
            if name == "__module__":
                return o.module.name if o.module else "builtins"
            if name == "_fields" and getattr(o, "nt_fields", None) is not None:
                return tuple(o.nt_fields)
            if name == "_make":
                return Native("_make", lambda I, a, k: I.instantiate(o, list(I.iterate(a[0])), {}))
            self.throw("AttributeError", "type %s has no attribute %s" % (o.name, name))
        if isinstance(o, Super):
            obj = o.obj
            mro = obj.cls.mro if isinstance(obj, Obj) else obj.mro
            i = mro.index(o.start)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], obj, mro[0])
            if name == "__init__":
                if any(b.name == "BaseException" for b in mro) and isinstance(obj, Obj):
                    return Native("exc.__init__", lambda I, a, k: obj.attrs.__setitem__("args", tuple(a)))
                return Native("object.__init__", lambda I, a, k: None)
            if name == "__str__":
                return Native("exc.__str__", lambda I, a, k: I.exc_str(obj))
            self.throw("AttributeError", "super object has no attribute %s" % name)
        if isinstance(o, Module):
            if name in o.ns:
                return o.ns[name]
            sub = self.import_module(o.name + "." + name)
            if isinstance(sub, Module):
                return sub
            m = self.models.get(o.name + "." + name)
            if m is not None:
                return self.ext(o.name + "." + name)
            self.throw("AttributeError", "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Ext):
            return self.ext(o.name + "." + name)
        if isinstance(o, NT):
            nt = next(b for b in o.cls.mro if getattr(b, "nt_fields", None) is not None)
            if name in nt.nt_fields:
                return o[nt.nt_fields.index(name)]
            v, c = o.cls.lookup(name)
            if c is not None:
                return self.bind_attr(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "_fields":
                return tuple(nt.nt_fields)
            if name == "_asdict":
                return Native("_asdict", lambda I, a, k: dict(zip(nt.nt_fields, o)))
            if name == "_replace":
                def repl(I, a, k):
                    r = NT([k.get(f, v) for f, v in zip(nt.nt_fields, o)])
                    r.cls = o.cls
                    return r
                return Native("_replace", repl)
            if name in ("index", "count"):
                return Native(name, lambda I, a, k: call_method(I, tuple(o), name, a, k))
            self.throw("AttributeError", "%s has no attribute %s" % (o.cls.name, name))
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name in o.attrs:
                return o.attrs[name]
            self.throw("AttributeError", "function has no attribute %s" % name)
        if isinstance(o, Prop):
            if name == "setter":
                return Native("setter", lambda I, a, k: Prop(o.fget, a[0]))
        if isinstance(o, Slice):
            if name in ("start", "stop", "step"):
                return _py.getattr(o, name)
            if name == "indices":
                return Native("slice.indices", lambda I, a, k: slice_indices(I, o, a[0]))
        if isinstance(o, PT):
            if name == "__name__":
                return o.name
            return Native("%s.%s" % (o.name, name), lambda I, a, k: type_method(I, o.name, name, a, k))
        if isinstance(o, T) and o.ty in ("any", "obj"):
            key = T("attr", (o, name))
            return key
        if isinstance(o, SymRange):
            if name in ("start", "stop", "step"):
                return _py.getattr(o, name)
        t = self.type_name(o)
        if t is not None:
            if name == "__class__":
                return PT(t)
            if name == "__doc__":
                return None
            if not has_method(o, t, name):
                self.throw("AttributeError", "'%s' object has no attribute '%s'" % (t, name))
            return Native("%s.%s" % (t, name), lambda I, a, k: call_method(I, o, name, a, k))
        if isinstance(o, (It,)):
            self.throw("AttributeError", name)
        # host object
        return self.call_host(_py.getattr, [o, name], {})

    def bind_attr(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Native):
            return Bound(v, o)
        if isinstance(v, SM):
            return v.f
        if isinstance(v, CM):
            return Bound(v.f, cls)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            d, _ = o.cls.lookup(name)
            if isinstance(d, Prop):
                if d.fset is None:
                    self.throw("AttributeError", "can't set attribute " + name)
                self.call(d.fset, [o, v], {})
                return
            s, _ = o.cls.lookup("__setattr__")
            if s is not None:
                self.call(s, [o, name, v], {})
                return
            o.attrs[name] = v
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        if isinstance(o, Module):
            o.ns[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, T) and o.ty == "any":
            self.event("setattr", o, name, v)
            return
        if isinstance(o, NT) or self.type_name(o) is not None:
            self.throw("AttributeError", "cannot set %s" % name)
        if isinstance(o, Ext):
            self.event("setattr", o, name, v)
            return
        self.call_host(_py.setattr, [o, name, v], {})

    def type_name(self, o):
        """builtin type name of a value, None if it is not a builtin value"""
        for t, n in PYNAMES.items():
            if type(o) is t:
                return n
        if isinstance(o, ODict):
            return "dict"
        if isinstance(o, DView):
            return o.kind
        if isinstance(o, BytesV):
            return o.kind
        if isinstance(o, (Mem, MemView)):
            return "memoryview"
        if isinstance(o, BV):
            return "int"
        if isinstance(o, Bf):
            return "bool"
        if isinstance(o, T) and o.ty not in ("any", "obj"):
            return o.ty
        if isinstance(o, Deque):
            return "deque"
        if isinstance(o, bytearray):
            return "bytearray"
        if isinstance(o, SymRange):
            return "range"
        if isinstance(o, It):
            return "generator"
        return None

    # ---- items
    def index_value(self, i):
        if isinstance(i, BV):
            i = self.norm(i)
            c = i.const() if isinstance(i, BV) else i
            return i if c is None else c
        if isinstance(i, Bf):
            return int(self.choose(i))
        return i

    def getitem(self, o, i):
        i = self.index_value(i)
        if isinstance(o, (list, tuple, str, bytes, range)) and not isinstance(i, Slice):
            if isinstance(i, bool):
                i = int(i)
            if isinstance(o, DView):
                self.throw("TypeError", "'%s' object is not subscriptable" % o.kind)
            if is_int(i):
                if -len(o) <= i < len(o):
                    return o[i]
                self.throw("IndexError", "index out of range")
            if isinstance(i, (BV, T)):
                return self.pick_index(o, i)
            self.throw("TypeError", "indices must be integers")
        if isinstance(o, (list, tuple, str, bytes, range)):
            s = []
            for x in (i.start, i.stop, i.step):
                x = self.index_value(x)
                if x is not None and not is_int(x):
                    x = self.concretize(x, len(o))
                s.append(x)
            r = o[slice(*s)]
            return tuple(r) if isinstance(o, NT) else r
        if isinstance(o, dict):
            k = self.dict_find(o, i)
            if k is UNBOUND:
                d = _py.getattr(o, "default", None)
                if d is not None:
                    o[i] = self.call(d, [], {})
                    return o[i]
                if isinstance(o, Counter):
                    return 0
                self.throw("KeyError", i)
            return o[k]
        if isinstance(o, Obj):
            g, _ = o.cls.lookup("__getitem__")
            if g is None:
                self.throw("TypeError", "'%s' object is not subscriptable" % o.cls.name)
            return self.call(g, [o, i], {})
        if isinstance(o, BytesV):
            return bytes_getitem(self, o, i)
        if isinstance(o, (Mem, MemView)):
            return mem_getitem(self, o, i)
        if isinstance(o, Deque):
            return o.items[i]
        if isinstance(o, T):
            if o.ty == "str" and isinstance(i, Slice):
                return str_slice(self, o, i)
            if isinstance(i, Slice):
                key = T("slice", (o, i.start, i.stop, i.step), o.ty)
            else:
                key = T("item", (o, i))
            self.event("item", o, i if not isinstance(i, Slice) else (i.start, i.stop, i.step))
            return key
        if isinstance(o, SymRange):
            return lin_add(o.start, lin_mul(o.step, i))
        if isinstance(o, (Ext,)):
            return T("item", (T("ext", (o.name,)), i if not isinstance(i, Slice) else "slice"))
        if o is None or isinstance(o, (bool, int, float, set)):
            self.throw("TypeError", "object is not subscriptable")
        return self.call_host(lambda a, b: a[b], [o, i], {})

    def concretize(self, x, n):
        """unknown slice bound relative to a sequence of known length"""
        for k in range(n + 1):
            if self.truth(self.eq(x, k)):
                return k
        raise Unsupported("slice bound %r" % (x,))

    def pick_index(self, o, i):
        n = len(o)
        if isinstance(i, BV):
            opts = n + 1
            c = self.pick(opts)
            if c < n:
                env, ok = {}, True
                L = max(len(i.bits), c.bit_length())
                for b in range(L + 1):
                    want = (c >> b) & 1
                    f = i.bit(b).subst(self.env).subst(env)
                    k = f.const()
                    if k is not None:
                        if k != want:
                            raise PathCut("index value impossible")
                        continue
                    vs = f.vars()
                    if len(vs) != 1:
                        raise Unsupported("index bits")
                    (v,) = vs
                    inv = frozenset() in f.m
                    env[v] = bconst(want ^ inv)
                self.env.update(env)
                self.facts.truth[("idx", bv_term(i))] = c
                return o[c]
            self.notes.append(("index-out-of-range", bv_term(i), n))
            self.throw("IndexError", "index out of range")
        for k in range(n):
            if self.truth(eq_int(i, k)):
                return o[k]
        for k in range(1, n + 1):
            if self.facts.decide(le0(lin_mul(i, -1))) is True:
                break
            if self.truth(eq_int(i, -k)):
                return o[-k]
        self.throw("IndexError", "index out of range")

    def setitem(self, o, i, v):
        i = self.index_value(i)
        if isinstance(o, list):
            if isinstance(i, Slice):
                o[slice(i.start, i.stop, i.step)] = list(self.iterate(v))
                return
            if not is_int(i):
                raise Unsupported("store at unknown index")
            if not -len(o) <= i < len(o):
                self.throw("IndexError", "assignment index out of range")
            o[i] = v
            return
        if isinstance(o, dict):
            k = self.dict_find(o, i)
            o[i if k is UNBOUND else k] = v
            return
        if isinstance(o, BytesV):
            bytes_setitem(self, o, i, v)
            return
        if isinstance(o, (Mem, MemView)):
            mem_setitem(self, o, i, v)
            return
        if isinstance(o, Obj):
            g, _ = o.cls.lookup("__setitem__")
            if g is None:
                self.throw("TypeError", "'%s' object does not support item assignment" % o.cls.name)
            self.call(g, [o, i, v], {})
            return
        if isinstance(o, T):
            self.event("setitem", o, i, v)
            return
        if isinstance(o, (str, tuple, bytes, int)) or o is None:
            self.throw("TypeError", "object does not support item assignment")
        self.call_host(lambda a, b, c: a.__setitem__(b, c), [o, i, v], {})

    def dict_find(self, d, key):
        key = self.norm(key)
        try:
            if key in d:
                return next(k for k in d if k is key or (type(k) is type(key) and k == key) or k == key)
        except TypeError:
            self.throw("TypeError", "unhashable")
        if not (is_abs(key) or any(is_abs(k) for k in d) or (isinstance(key, tuple) and any(map(is_abs, key)))):
            return UNBOUND
        for k in list(d):
            if self.truth(self.eq(k, key)):
                return k
        return UNBOUND

    # ---- iteration
    def iterate(self, v):
        """python iterator over abstract values"""
        if isinstance(v, (list,)):
            i = 0
            while i < len(v):
                yield v[i]
                i += 1
            return
        if isinstance(v, (tuple, range, str, set, frozenset)):
            it = sorted(v, key=_setkey) if isinstance(v, (set, frozenset)) else v
            yield from it
            return
        if isinstance(v, bytes):
            yield from v
            return
        if isinstance(v, dict):
            n = len(v)
            for k in list(v):
                yield k
                if len(v) != n:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
            return
        if isinstance(v, It):
            while True:
                x = v.next()
                if x is UNBOUND:
                    return
                yield x
        elif isinstance(v, Deque):
            yield from list(v.items)
        elif isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                r = self.call(f, [v], {})
                if isinstance(r, Obj) and r.cls.lookup("__next__")[0] is not None:
                    n = 0
                    while True:
                        try:
                            x = self.call(self.getattr(r, "__next__"), [], {})
                        except PyRaise as pr:
                            if pr.exc.cls.name == "StopIteration":
                                return
                            raise
                        yield x
                        n += 1
                else:
                    yield from self.iterate(r)
                return
            g, _ = v.cls.lookup("__getitem__")
            if g is not None:
                i = 0
                while i <= 64:
                    try:
                        x = self.call(g, [v, i], {})
                    except PyRaise as pr:
                        if self.exc_class("IndexError") in pr.exc.cls.mro:
                            return
                        raise
                    yield x
                    i += 1
                raise PathCut("loop bound")
            self.throw("TypeError", "'%s' object is not iterable" % v.cls.name)
        elif isinstance(v, SymRange):
            i = v.start
            n = 0
            if is_int(v.step) and v.step != 0:
                while True:
                    c = self.lt(i, v.stop) if v.step > 0 else self.lt(v.stop, i)
                    k = len(self.taken)
                    if not self.truth(c):
                        return
                    n += 1
                    if n > self.unroll:
                        raise PathCut("loop bound")
                    yield i
                    i = lin_add(i, v.step)
            else:
                # unknown step: generic element i = start + k*step for k = 0..
                while n < self.unroll:
                    if not self.truth(T("inrange", (i, v.start, v.stop, v.step), "bool")):
                        return
                    yield i
                    i = self.binop(ast.Add(), i, v.step)
                    n += 1
                raise PathCut("loop bound")
        elif isinstance(v, BytesV):
            if v.concrete() or all(not isinstance(p, T) for p in v.parts):
                yield from list(v.parts)
            else:
                raise Unsupported("iteration over opaque bytes")
        elif isinstance(v, T):
            n = T("len", (v,), "int")
            if v.ty == "int":
                self.throw("TypeError", "'int' object is not iterable")
            i = 0
            while True:
                if not self.truth(self.lt(i, n)):
                    return
                if i >= self.unroll:
                    raise PathCut("loop bound")
                yield T("item", (v, i))
                i += 1
        elif v is None or isinstance(v, (bool, int, float, BV, Bf)):
            self.throw("TypeError", "'%s' object is not iterable" % type(v).__name__)
        elif isinstance(v, (Func, Cls, Native, Bound, Module)):
            self.throw("TypeError", "object is not iterable")
        elif isinstance(v, Ext):
            raise Unsupported("iteration over " + v.name)
        else:
            yield from v

    # ---- truth and comparisons
    def truth(self, v):
        if isinstance(v, bool):
            return v
        v = self.norm(v)
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes, list, tuple, dict, set, frozenset, range, bytearray)):
            if isinstance(v, NT):
                return len(v) > 0
            return bool(v)
        if isinstance(v, Bf):
            return self.choose(v)
        if isinstance(v, BV):
            return not self.choose(bv_eq(v, 0)) if len(v.bits) <= 9 else not self.choose(eq_int(bv_term(v), 0))
        if isinstance(v, T):
            if v.ty == "bool":
                return self.choose(v)
            if v.ty == "int":
                return not self.choose(eq_int(v, 0))
            if v.ty == "str":
                if any(isinstance(p, str) and p for p in cat_parts(v)):
                    return True
                return not self.choose(T("eq", (v, ""), "bool"))
            if v.ty in ("bytes",):
                return not self.choose(eq_int(T("len", (v,), "int"), 0))
            return self.choose(T("truth", (v,), "bool"))
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(f, [v], {}))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(f, [v], {}))
            return True
        if isinstance(v, BytesV):
            n = v.length()
            return n > 0 if is_int(n) else not self.choose(eq_int(n, 0))
        if isinstance(v, (Mem, MemView)):
            n = mem_len(v)
            return not self.choose(eq_int(n, 0)) if not is_int(n) else n != 0
        if isinstance(v, Deque):
            return bool(v.items)
        if isinstance(v, (Func, Bound, Native, Cls, Module, Ext, PT, It, Slice)):
            return True
        return bool(v)

    def num(self, v):
        """numeric operand as int or term"""
        v = self.norm(v)
        if isinstance(v, Bf):
            v = BV([v])
        if isinstance(v, BV):
            return bv_term(v)
        return v

    def lt(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, (BV, Bf)) or isinstance(b, (BV, Bf)):
            if not isinstance(a, T) and not isinstance(b, T) and not isinstance(a, float) and not isinstance(b, float):
                try:
                    return bf_simpl(bv_lt(a, b))
                except Top:
                    pass
            a, b = self.num(a), self.num(b)
        if isinstance(a, T) or isinstance(b, T):
            if (isinstance(a, T) and a.ty not in ("int", "any")) or (isinstance(b, T) and b.ty not in ("int", "any")):
                return T("lt", (a, b), "bool")
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                self.throw("TypeError", "unorderable")
            if isinstance(a, float) or isinstance(b, float):
                return T("lt", (a, b), "bool")
            r = self.lt_bits(a, b)
            if r is not None:
                return r
            return le0(lin_add(lin_add(a, b, -1), 1))
        try:
            return a < b
        except TypeError:
            self.throw("TypeError", "'<' not supported")

    def lt_bits(self, a, b):
        """a < b where a - b is k +- bit_length(x) (or 2^x with a constant): decided on x itself"""
        try:
            c, m = as_lin(lin_add(a, b, -1))
        except Top:
            return None
        if len(m) != 1:
            return None
        (t, k), = m.items()
        if abs(k) != 1 or not isinstance(t, T):
            return None
        if t.op == "bit_length":
            x = t.args[0]
            # k == 1: bl < -c  <=> bl <= -c-1 ; k == -1: bl > c <=> not bl <= c
            n = -c - 1 if k == 1 else c
            if n < 0:
                r = False
            else:
                hi = (1 << n) - 1
                if self.truth(self.lt(x, 0)):
                    r = neg(self.lt(x, -hi))
                else:
                    r = neg(self.lt(hi, x))
            return r if k == 1 else neg(r)
        if t.op == "pow2":
            x = t.args[0]
            n = -c if k == 1 else c      # k == 1: 2^x < n ; k == -1: n < 2^x
            if k == 1:
                return self.lt(x, (n - 1).bit_length()) if n >= 1 else False
            return True if n < 1 else neg(self.lt(x, n.bit_length()))
        return None

    def eq(self, a, b):
        if a is b:
            return True
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, DView) or isinstance(b, DView):
            x, y = (a, b) if isinstance(a, DView) else (b, a)
            if x.kind == "dict_values" or not isinstance(y, (set, frozenset, DView)):
                return False
            return self.eq(set(x), set(y))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    f, _ = x.cls.lookup("__eq__")
                    if f is not None:
                        return self.call(f, [x, y], {})
            if isinstance(a, T) or isinstance(b, T):
                t = a if isinstance(a, T) else b
                if t.ty == "any":
                    return T("eqobj", (t, ("id", id(b if t is a else a))), "bool")
            return False
        if isinstance(a, (BV, Bf)) or isinstance(b, (BV, Bf)):
            if isinstance(a, T) or isinstance(b, T):
                ta, tb = self.num(a), self.num(b)
                for t in (ta, tb):
                    if isinstance(t, T) and t.ty not in ("int", "any", "bool"):
                        return False
                return eq_int(ta, tb)
            if isinstance(a, (BV, Bf, int)) and isinstance(b, (BV, Bf, int)):
                A, B = BV.of(a), BV.of(b)
                if max(len(A.bits), len(B.bits)) <= 9:
                    return bf_simpl(bv_eq(A, B))
                for i in range(max(len(A.bits), len(B.bits)) + 1):
                    d = A.bit(i).xor(B.bit(i))
                    if d.const() == 1:
                        return False
                if A == B:
                    return True
                try:
                    return bf_simpl(bv_eq(A, B))
                except Top:
                    return eq_int(self.num(a), self.num(b))
            return False
        if isinstance(a, T) or isinstance(b, T):
            return self.eq_term(a, b)
        if isinstance(a, (BytesV, Mem, MemView)) or isinstance(b, (BytesV, Mem, MemView)):
            return bytes_eq(self, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k in a:
                k2 = self.dict_find(b, k)
                if k2 is UNBOUND or not self.truth(self.eq(a[k], b[k2])):
                    return False
            return True
        try:
            return bool(a == b)
        except Exception:
            return False

    def eq_term(self, a, b):
        ta = a.ty if isinstance(a, T) else self.type_name(a)
        tb = b.ty if isinstance(b, T) else self.type_name(b)
        if ta == "any" or tb == "any":
            if a is None or b is None:
                return T("isnone", (a if b is None else b,), "bool")
            x, y = sorted([a, b], key=repr) if not isinstance(a, (Obj, dict, list)) else (a, b)
            return T("eq", (x, y), "bool")
        num = ("int", "bool", "float")
        if ta in num and tb in num:
            if "float" in (ta, tb):
                return T("eq", tuple(sorted([a, b], key=repr)), "bool")
            return eq_int(a, b)
        if ta != tb:
            if {ta, tb} <= {"bytes", "bytearray", "memoryview"}:
                return bytes_eq(self, a, b)
            return False
        if ta == "str":
            return str_eq(a, b)
        return T("eq", tuple(sorted([a, b], key=repr)), "bool")

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, Obj):
                f, _ = a.cls.lookup("__ne__")
                if f is not None:
                    return self.call(f, [a, b], {})
            return neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return neg(self.contains(b, a))
        if isinstance(a, Obj) or isinstance(b, Obj):
            d = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
            if isinstance(a, Obj):
                f, _ = a.cls.lookup(d)
                if f is not None:
                    return self.call(f, [a, b], {})
            self.throw("TypeError", "not supported between instances")
        if isinstance(op, ast.Lt):
            return self.lt(a, b)
        if isinstance(op, ast.Gt):
            return self.lt(b, a)
        if isinstance(op, ast.LtE):
            if isinstance(a, float) or isinstance(b, float) or (isinstance(a, (set, str, tuple, list)) and type(a) is type(b)):
                return a <= b
            return neg(self.lt(b, a))
        if isinstance(op, ast.GtE):
            if isinstance(a, float) or isinstance(b, float) or (isinstance(a, (set, str, tuple, list)) and type(a) is type(b)):
                return a >= b
            return neg(self.lt(a, b))
        raise Unsupported("comparison")

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if x is None and isinstance(y, T):
                if y.ty != "any":
                    return False
                return T("isnone", (y,), "bool")
        if isinstance(a, (PT, Ext)) and isinstance(b, (PT, Ext)):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (Bf, T)) or isinstance(b, (Bf, T)):
                return self.eq(a, b)
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        return False

    def contains(self, c, x):
        if self.foreign(c):
            return self.call_host(lambda p, q: q in p, [c, x], {})
        if isinstance(c, dict):
            return self.dict_find(c, x) is not UNBOUND
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, T) and x.ty == "str":
                return T("substr", (x, c), "bool")
            self.throw("TypeError", "requires string as left operand")
        if isinstance(c, (set, frozenset)):
            if not is_abs(x) and not any(is_abs(y) for y in c):
                return x in c
        if isinstance(c, Obj):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(f, [c, x], {}))
        if isinstance(c, T) and c.ty == "str":
            if isinstance(x, str):
                if any(isinstance(p, str) and x in p for p in cat_parts(c)):
                    return True
                return T("substr", (x, c), "bool")
            return T("substr", (x, c), "bool")
        if isinstance(c, T):
            return T("in", (x, c), "bool")
        if isinstance(c, SymRange):
            r = T("inrange", (x, c.start, c.stop, c.step), "bool")
            return r
        if isinstance(c, range) and isinstance(x, (T, BV)):
            x = self.num(x)
            if c.step == 1:
                return self.truth(neg(self.lt(x, c.start))) and self.truth(self.lt(x, c.stop))
        if c is None or isinstance(c, (int, float)):
            self.throw("TypeError", "argument is not iterable")
        for y in self.iterate(c):
            if x is y or self.truth(self.eq(y, x)):
                return True
        return False

    # ---- arithmetic
    def binop(self, op, a, b):
        a, b = self.norm(a), self.norm(b)
        if self.foreign(a) or self.foreign(b):
            return self.call_host(PYOPS[type(op)], [a, b], {})
        if isinstance(a, Obj) or isinstance(b, Obj):
            d = OPNAMES.get(type(op))
            if isinstance(a, Obj):
                f, _ = a.cls.lookup("__%s__" % d)
                if f is not None:
                    return self.call(f, [a, b], {})
            if isinstance(b, Obj):
                f, _ = b.cls.lookup("__r%s__" % d)
                if f is not None:
                    return self.call(f, [b, a], {})
            if isinstance(op, ast.Mod) and isinstance(a, (str, T)):
                return str_mod(self, a, b)
            self.throw("TypeError", "unsupported operand type(s)")
        if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, T) and a.ty == "str")):
            return str_mod(self, a, b)
        if isinstance(op, ast.Add):
            if (isinstance(a, str) or (isinstance(a, T) and a.ty == "str")):
                if isinstance(b, str) or (isinstance(b, T) and b.ty in ("str",)):
                    return cat([a, b])
                if isinstance(b, T) and b.ty == "any":
                    return cat([a, T("asstr", (b,), "str")])
                self.throw("TypeError", "can only concatenate str")
            if isinstance(b, str):
                if isinstance(a, T) and a.ty == "any":
                    return cat([T("asstr", (a,), "str"), b])
                self.throw("TypeError", "unsupported operand")
            ba = isinstance(a, (BytesV, bytes, bytearray)) or (isinstance(a, T) and a.ty == "bytes")
            bb = isinstance(b, (BytesV, bytes, bytearray)) or (isinstance(b, T) and b.ty == "bytes")
            if ba and bb:
                if isinstance(a, bytes) and isinstance(b, bytes):
                    return a + b
                kind = a.kind if isinstance(a, BytesV) else "bytes"
                return BytesV(BytesV.of(a).parts + BytesV.of(b).parts, kind)
            if ba or bb:
                if isinstance(a, T) and a.ty == "any" or isinstance(b, T) and b.ty == "any":
                    return BytesV((BytesV.of(a)).parts + (BytesV.of(b)).parts)
                self.throw("TypeError", "can't concat to bytes")
            if isinstance(a, (list, tuple)):
                if type(a) is type(b) or (isinstance(a, tuple) and isinstance(b, tuple)):
                    return (list(a) + list(b)) if isinstance(a, list) else tuple(a) + tuple(b)
                if isinstance(a, list) and isinstance(b, It):
                    pass
                self.throw("TypeError", "can only concatenate list")
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (str, bytes, list, tuple)):
                    if is_int(y) or isinstance(y, bool):
                        return x * y
                    if isinstance(x, (str, bytes)) and isinstance(y, T):
                        return T("repeat", (x, y), "str" if isinstance(x, str) else "bytes")
                    self.throw("TypeError", "can't multiply sequence")
                if isinstance(x, BytesV):
                    if is_int(y):
                        return BytesV(x.parts * y, x.kind)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and (isinstance(a, DView) or isinstance(b, DView)):
            a = set(a) if isinstance(a, DView) else a
            b = set(self.iterate(b)) if isinstance(a, set) and not isinstance(b, (set, frozenset)) else b
        if isinstance(a, Counter) and isinstance(b, Counter) and isinstance(op, (ast.Add, ast.Sub)):
            r = Counter()
            for k in list(a) + [k for k in b if k not in a]:
                n = self.binop(op, a.get(k, 0), b.get(k, 0))
                if self.truth(self.lt(0, n)):
                    r[k] = n
            return r
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {ast.BitOr: a | b, ast.BitAnd: a & b, ast.Sub: a - b, ast.BitXor: a ^ b}[type(op)]
        if isinstance(a, dict) and isinstance(b, dict) and isinstance(op, ast.BitOr):
            r = dict(a)
            r.update(b)
            return r
        if a is None or b is None or isinstance(a, (str, list, tuple, dict)) or isinstance(b, (str, list, tuple, dict)):
            self.throw("TypeError", "unsupported operand type(s)")
        if isinstance(a, (BytesV,)) or isinstance(b, (BytesV,)):
            self.throw("TypeError", "unsupported operand type(s)")
        if isinstance(a, (T, BV, Bf)) or isinstance(b, (T, BV, Bf)):
            return self.num_binop(op, a, b)
        return self.call_host(PYOPS[type(op)], [a, b], {})

    def num_binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, T) and x.ty in ("str", "bytes"):
                self.throw("TypeError", "unsupported operand type(s)")
            if isinstance(x, float):
                return T(type(op).__name__, (a, b), "float")
            if isinstance(x, T) and x.ty == "float":
                return T(type(op).__name__, (a, b), "float")
        anyT = isinstance(a, T) or isinstance(b, T)
        if isinstance(op, ast.Pow):
            if is_int(b) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = self.num_binop(ast.Mult(), r, a) if not is_int(r) or r != 1 else a
                return r
            if a == 2:
                return T("pow2", (self.num(b),), "int")
            return T("pow", (self.num(a), self.num(b)), "int")
        if not anyT and self.lin_reads and isinstance(op, (ast.FloorDiv, ast.Mod)) and is_int(b) and isinstance(a, BV) \
                and len(a.bits) >= 32:
            ta = self.num(a)
            if isinstance(ta, T) and ta.op == "read":
                a, anyT = ta, True
        if not anyT and self.lin_reads and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            # address arithmetic on stored numbers: affine domain instead of bits
            ta, tb = self.num(a), self.num(b)
            if isinstance(ta, T) and ta.op == "read" and is_int(tb) or isinstance(tb, T) and tb.op == "read" and is_int(ta) \
                    or isinstance(ta, T) and isinstance(tb, T) and ta.op == tb.op == "read":
                a, b, anyT = ta, tb, True
        if not anyT:
            if isinstance(op, ast.BitAnd):
                return bv_and(a, b)
            if isinstance(op, ast.BitOr):
                return bv_or(a, b)
            if isinstance(op, ast.BitXor):
                return bv_xor(a, b)
            if isinstance(op, ast.LShift):
                if is_int(b):
                    return bv_shl(a, b)
                return T("shl", (self.num(a), self.num(b)), "int")
            if isinstance(op, ast.RShift):
                if is_int(b):
                    return bv_shr(a, b)
                return T("shr", (self.num(a), self.num(b)), "int")
            if isinstance(op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if is_int(y) and y > 0 and y & (y - 1) == 0:
                        return bv_shl(x, y.bit_length() - 1)
                    if y == 0 and is_int(y):
                        return 0
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Bf) or (isinstance(x, BV) and len(x.bits) == 1 and x.ext == B0):
                        f = x if isinstance(x, Bf) else x.bits[0]
                        Y = BV.of(y)
                        return BV([f.and_(q) for q in Y.bits], f.and_(Y.ext)).simplify()
            if isinstance(op, ast.FloorDiv) and is_int(b) and b > 0 and b & (b - 1) == 0:
                return bv_shr(a, b.bit_length() - 1)
            if isinstance(op, ast.Mod) and is_int(b) and b > 0 and b & (b - 1) == 0:
                return bv_and(a, b - 1)
            if isinstance(op, (ast.Add, ast.Sub)):
                if isinstance(op, ast.Add):
                    # disjoint supports add like or
                    A, B = BV.of(a), BV.of(b)
                    n = max(len(A.bits), len(B.bits))
                    if all(A.bit(i).and_(B.bit(i)) == B0 for i in range(n + 1)):
                        return bv_or(A, B)
                    small = max(len(A.bits), len(B.bits)) <= 9
                    if small or is_int(a) or is_int(b):
                        k = a if is_int(a) else b
                        if small or (is_int(k) and k != 0 and bin(abs(k)).count("1") == 1 and abs(k).bit_length() >= n - 1):
                            try:
                                return bv_add(a, b)
                            except Top:
                                pass
                else:
                    A, B = BV.of(a), BV.of(b)
                    if A == B:
                        return 0
                    # b's bits contained in a: subtraction clears bits
                    n = max(len(A.bits), len(B.bits))
                    try:
                        if all(B.bit(i).const() == 0 or A.bit(i) == B.bit(i) for i in range(n + 1)):
                            return BV([A.bit(i) if B.bit(i).const() == 0 else B0 for i in range(n)],
                                      A.ext if B.ext.const() == 0 else B0).simplify()
                        return bv_sub(a, b)
                    except Top:
                        pass
        # term arithmetic
        x, y = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            return lin_add(x, y)
        if isinstance(op, ast.Sub):
            return lin_add(x, y, -1)
        if isinstance(op, ast.Mult):
            return lin_mul(x, y)
        if isinstance(op, ast.FloorDiv):
            return self.divmod_(x, y)[0]
        if isinstance(op, ast.Mod):
            return self.divmod_(x, y)[1]
        if isinstance(op, ast.LShift):
            if is_int(y) and y >= 0:
                return lin_mul(x, 1 << y)
            return lin_mul(x, T("pow2", (y,), "int"))
        if isinstance(op, ast.RShift):
            if is_int(y) and y >= 0:
                return self.divmod_(x, 1 << y)[0]
            return T("shr", (x, y), "int")
        if isinstance(op, ast.BitAnd):
            for p, q in ((x, y), (y, x)):
                if is_int(q) and q >= 0 and (q & (q + 1)) == 0:
                    return self.divmod_(p, q + 1)[1]
                if is_int(q) and q < 0 and ((-q) & (-q - 1)) == 0:  # ~(2^k - 1): clear low bits
                    return lin_add(p, self.divmod_(p, -q)[1], -1)
            return T("and", tuple(sorted([x, y], key=repr)), "int")
        if isinstance(op, ast.BitOr):
            return T("or", tuple(sorted([x, y], key=repr)), "int")
        if isinstance(op, ast.BitXor):
            return T("xor", tuple(sorted([x, y], key=repr)), "int")
        if isinstance(op, ast.Div):
            return T("div", (x, y), "float")
        raise Unsupported("operator %s" % type(op).__name__)

    def divmod_(self, x, y):
        if is_int(y) and y > 0:
            q, r = lin_floordiv(x, y), lin_mod(x, y)
            if isinstance(r, T) and r.op == "mod":
                e = r.args[0]
                # collapse when the facts bound e
                if self.facts.implies_le(lin_mul(e, -1)) and self.facts.implies_le(lin_add(e, -(y - 1))):
                    return lin_floordiv(lin_add(x, e, -1), y), e
            return q, r
        if is_int(x) and is_int(y):
            if y == 0:
                self.throw("ZeroDivisionError", "division by zero")
            return x // y, x % y
        if isinstance(y, T):
            # a dividend within one divisor of zero: the sign decides
            le = self.facts.implies_le
            if le(lin_add(lin_mul(y, -1), 1)) or le(lin_mul(y, -1)):
                up, low = le(lin_add(lin_add(x, y, -1), 1)), le(lin_mul(lin_add(x, y), -1))
                if up and (low or le(lin_mul(x, -1))):
                    if le(lin_mul(x, -1)) or not self.truth(self.lt(x, 0)):
                        return 0, x
                    return -1, lin_add(x, y)
        return T("floordiv", (x, y), "int"), T("mod", (x, y), "int")

    # ---- conversions
    def str(self, v):
        v = self.norm(v)
        if isinstance(v, str):
            return v
        if isinstance(v, T):
            if v.ty == "str":
                return v
            if v.ty == "int":
                if self.ph is not None:
                    return self.token(v)
                return T("cat", (v,), "str")
            return T("str", (v,), "str")
        if isinstance(v, BV):
            if self.ph is not None:
                return self.token(v)
            return T("cat", (bv_term(v),), "str")
        if isinstance(v, Obj):
            f, c = v.cls.lookup("__str__")
            if f is not None:
                return self.call(f, [v], {})
            if any(b.name == "BaseException" for b in v.cls.mro):
                return self.exc_str(v)
            f, c = v.cls.lookup("__repr__")
            if f is not None:
                return self.call(f, [v], {})
            return "<%s object>" % v.cls.name
        if isinstance(v, (list, tuple, dict, set)) or isinstance(v, NT):
            return self.repr(v)
        if isinstance(v, (BytesV, Mem, MemView)):
            return T("str", (repr(v),), "str")
        return _py.str(v)

    def exc_str(self, v):
        a = v.attrs.get("args", ())
        if "host" in v.attrs:
            return _py.str(v.attrs["host"])
        if len(a) == 0:
            return ""
        return self.str(a[0]) if len(a) == 1 else self.repr(tuple(a))

    def repr(self, v):
        if isinstance(v, str):
            return _py.repr(v)
        if isinstance(v, T):
            return T("repr", (v,), "str") if v.ty != "int" else self.str(v)
        if isinstance(v, list):
            return cat(["["] + _join(", ", [self.repr(x) for x in v]) + ["]"])
        if isinstance(v, NT):
            return "%s(...)" % v.cls.name
        if isinstance(v, tuple):
            return cat(["("] + _join(", ", [self.repr(x) for x in v]) + [",)" if len(v) == 1 else ")"])
        if isinstance(v, dict):
            return cat(["{"] + _join(", ", [cat([self.repr(k), ": ", self.repr(x)]) for k, x in v.items()]) + ["}"])
        if isinstance(v, (set, frozenset)):
            return "{...}"
        if isinstance(v, Obj):
            f, c = v.cls.lookup("__repr__")
            if f is not None:
                return self.call(f, [v], {})
            return "<%s object>" % v.cls.name
        if isinstance(v, BV):
            return self.str(v)
        return _py.repr(v)

    def call_type(self, f, args, kwargs):
        n = f.name
        fn = TYPE_CALLS.get(n)
        if fn is None:
            raise Unsupported("call of type " + n)
        return fn(self, args, kwargs)

    def isinstance_(self, o, t):
        if isinstance(t, tuple):
            r = False
            for x in t:
                y = self.isinstance_(o, x)
                if y is True:
                    return True
                if y is not False:
                    r = y if r is False else T("or", (r, y), "bool")
            return r
        if isinstance(t, Cls):
            if isinstance(o, Obj):
                return t in o.cls.mro
            if isinstance(o, NT):
                return t in o.cls.mro
            if isinstance(o, T) and o.ty == "any":
                return T("isinstance", (o, t.name), "bool")
            return t is self.object_cls
        if isinstance(t, PT):
            tn = self.type_name(o)
            if tn is None:
                if isinstance(o, NT):
                    return t.name in ("tuple", "object")
                if isinstance(o, T):
                    return T("isinstance", (o, t.name), "bool")
                if isinstance(o, Slice):
                    return t.name == "slice"
                if isinstance(o, (Cls, PT)):
                    return t.name in ("type", "object")
                if isinstance(o, Obj):
                    return t.name == "object" or any(c.name == t.name for c in o.cls.mro)
                if isinstance(o, Func):
                    return False
                return t.name == "object"
            return tn == t.name or t.name == "object" or (tn == "bool" and t.name == "int") or \
                (isinstance(o, ODict) and t.name == "OrderedDict")
        if isinstance(t, Ext):
            if isinstance(o, Obj):
                return any(c.name == t.name for c in o.cls.mro)
            if isinstance(o, T) and o.ty == "any":
                return T("isinstance", (o, t.name), "bool")
            return False
        if isinstance(t, _py.type):
            return isinstance(o, t)
        raise Unsupported("isinstance against %r" % (t,))


def _join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return out


def _setkey(x):
    if isinstance(x, str):
        return (0, x)
    if isinstance(x, int):
        return (1, x)
    return (2, repr(x))


def neg(x):
    return (not x) if isinstance(x, bool) else b_not(x)


class Suppress:
    def __init__(self, types):
        self.types = types


class ODict(dict):
    default = None


class Counter(ODict):
    pass


class DView(list):
    """keys, values or items of a dict (in order)"""
    kind = "dict_keys"


def dview(kind, items):
    v = DView(items)
    v.kind = kind
    return v


class Deque:
    def __init__(self, items):
        self.items = list(items)


NS_PACKAGES = {"flatdata"}

OPNAMES = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv",
           ast.Mod: "mod", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift",
           ast.RShift: "rshift", ast.Pow: "pow"}
import operator as _op
PYOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.Div: _op.truediv, ast.FloorDiv: _op.floordiv,
         ast.Mod: _op.mod, ast.BitAnd: _op.and_, ast.BitOr: _op.or_, ast.BitXor: _op.xor, ast.LShift: _op.lshift,
         ast.RShift: _op.rshift, ast.Pow: _op.pow}


# ------------------------------------------------------------------ string helpers
def str_eq(a, b):
    if a is b:
        return True
    pa, pb = cat_parts(a), cat_parts(b)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
        elif x is y:
            pa.pop(0)
            pb.pop(0)
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[len(x) - n:] != y[len(y) - n:]:
                return False
            pa[-1], pb[-1] = x[:len(x) - n], y[:len(y) - n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
        elif x is y:
            pa.pop()
            pb.pop()
        else:
            break
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        if any(isinstance(p, str) and p for p in rest):
            return False
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], T) and isinstance(pb[0], T) \
            and pa[0].ty == "int" and pb[0].ty == "int":
        return eq_int(pa[0], pb[0])
    x, y = cat(pa), cat(pb)
    x, y = sorted([x, y], key=repr)
    return T("eq", (x, y), "bool")


def str_mod(I, a, b):
    if not isinstance(b, (tuple, dict)) or isinstance(b, NT):
        b = (b,)
    if isinstance(a, T):
        parts = cat_parts(a)
    else:
        parts = [a]
    out = []
    i = 0
    args = list(b) if isinstance(b, tuple) else None
    for p in parts:
        if isinstance(p, T):
            out.append(p)
            continue
        pos = 0
        for m in _re.finditer(r"%(\((\w+)\))?([-0-9.]*)([sdrifxc%])", p):
            out.append(p[pos:m.start()])
            pos = m.end()
            if m.group(4) == "%":
                out.append("%")
                continue
            if m.group(2):
                v = b[m.group(2)]
            else:
                if args is None or i >= len(args):
                    I.throw("TypeError", "not enough arguments for format string")
                v = args[i]
                i += 1
            if m.group(4) == "d" and isinstance(v, (str, list)):
                I.throw("TypeError", "%d format: a number is required")
            if m.group(4) in "xf" or m.group(3):
                out.append(("%" + m.group(3) + m.group(4)) % v if isinstance(v, (int, float, str)) else I.format(v, m.group(3) + m.group(4)))
            else:
                out.append(I.repr(v) if m.group(4) == "r" else I.str(v))
        out.append(p[pos:])
    if args is not None and i < len(args):
        I.throw("TypeError", "not all arguments converted during string formatting")
    return cat(out)


def str_slice(I, o, s):
    parts = cat_parts(o)
    a, b, st = s.start, s.stop, s.step
    if st is None and b is None and is_int(a) and a >= 0 and isinstance(parts[0], str) and len(parts[0]) >= a:
        return cat([parts[0][a:]] + parts[1:])
    if st is None and (a in (None, 0)) and is_int(b) and b < 0 and isinstance(parts[-1], str) and len(parts[-1]) >= -b:
        return cat(parts[:-1] + [parts[-1][:b]])
    if st is None and (a in (None, 0)) and is_int(b) and b >= 0 and isinstance(parts[0], str) and len(parts[0]) >= b:
        return parts[0][:b]
    if st is None and b is None and isinstance(a, T):
        # a == length of a prefix
        acc = 0
        for i in range(len(parts) + 1):
            if acc == a:
                return cat(parts[i:])
            if i < len(parts):
                p = parts[i]
                acc = lin_add(acc, len(p) if isinstance(p, str) else T("strlen", (p,), "int"))
    return T("slice", (o, a, b, st), "str")


def str_len(I, v):
    n = 0
    for p in cat_parts(v):
        n = lin_add(n, len(p) if isinstance(p, str) else T("strlen", (p,), "int"))
    return n


# ------------------------------------------------------------------ bytes helpers
def bytes_getitem(I, o, i):
    if isinstance(i, Slice):
        a = I.index_value(i.start)
        b = I.index_value(i.stop)
        st = I.index_value(i.step)
        if all(x is None or is_int(x) for x in (a, b, st)) and not any(isinstance(p, T) for p in o.parts):
            return BytesV(o.parts[slice(a, b, st)], o.kind)
        if st in (None, 1) and len(o.parts) == 0:
            return BytesV([], o.kind)
        # leading known bytes
        k = 0
        while k < len(o.parts) and not isinstance(o.parts[k], T):
            k += 1
        if st in (None, 1) and (a is None or is_int(a) and 0 <= a <= k):
            if b is None:
                return BytesV(o.parts[a or 0:], o.kind)
            if is_int(b) and 0 <= b <= k:
                return BytesV(o.parts[a or 0:b], o.kind)
            # symbolic end equal to prefix length
            acc = 0
            for j in range(len(o.parts) + 1):
                if eq_int(acc, b) is True:
                    return BytesV(o.parts[a or 0:j], o.kind)
                if j < len(o.parts):
                    acc = lin_add(acc, part_len(o.parts[j]))
        if st in (None, 1) and is_int(b) and b < 0 and len(o.parts) >= -b and not any(isinstance(p, T) for p in o.parts[b:]) \
                and (a is None or is_int(a) and 0 <= a <= k):
            return BytesV(o.parts[a or 0:b], o.kind)
        return BytesV([T("bslice", (tuple(o.parts), a, b, st), "bytes")], o.kind)
    if is_int(i):
        k = 0
        while k < len(o.parts) and not isinstance(o.parts[k], T):
            k += 1
        if 0 <= i < k:
            return o.parts[i]
        if not any(isinstance(p, T) for p in o.parts):
            if -len(o.parts) <= i < len(o.parts):
                return o.parts[i]
            I.throw("IndexError", "index out of range")
        if i < 0 and not any(isinstance(p, T) for p in o.parts[i:]) and len(o.parts) >= -i:
            return o.parts[i]
    raise Unsupported("byte index %r" % (i,))


def bytes_setitem(I, o, i, v):
    if o.kind != "bytearray" and o.kind != "memoryview":
        I.throw("TypeError", "'bytes' object does not support item assignment")
    v = I.norm(v)
    if isinstance(i, Slice):
        a, b = i.start, i.stop
        if (a is None or is_int(a)) and (b is None or is_int(b)) and not any(isinstance(p, T) for p in o.parts):
            o.parts[slice(a, b, i.step)] = BytesV.of(v).parts
            return
        raise Unsupported("bytes slice store")
    if not is_int(i):
        raise Unsupported("bytes store index %r" % (i,))
    if any(isinstance(p, T) for p in o.parts[:i + 1]):
        raise Unsupported("store behind opaque bytes")
    if not -len(o.parts) <= i < len(o.parts):
        I.throw("IndexError", "bytearray index out of range")
    o.parts[i] = byte_value(I, v)
    o.writes.append(i)


def byte_value(I, v):
    """value stored into a byte cell; ValueError partition if it may not fit"""
    if is_int(v):
        if not 0 <= v < 256:
            I.throw("ValueError", "byte must be in range(0, 256)")
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Bf):
        return BV([v]).simplify()
    if isinstance(v, BV):
        bad = v.ext
        for b in v.bits[8:]:
            bad = bad.or_(b)
        if I.choose(bad):
            I.throw("ValueError", "byte must be in range(0, 256)")
        return BV([v.bit(k) for k in range(8)]).simplify()
    if isinstance(v, T) and v.ty == "int":
        return v
    I.throw("TypeError", "an integer is required")


def bytes_eq(I, a, b):
    try:
        x, y = BytesV.of(a), BytesV.of(b)
    except Unsupported:
        if isinstance(a, (Mem, MemView)) and isinstance(b, (Mem, MemView)):
            return repr(a) == repr(b)
        return T("eqbytes", (repr(a), repr(b)), "bool")
    if len(x.parts) == len(y.parts):
        if all(p is q or p == q for p, q in zip(x.parts, y.parts)):
            return True
        if not any(isinstance(p, T) for p in x.parts + y.parts):
            r = B1
            for p, q in zip(x.parts, y.parts):
                r = r.and_(bv_eq(p, q))
            return bf_simpl(r)
    elif not any(isinstance(p, T) for p in x.parts + y.parts):
        return False
    sx, sy = _encoded(x), _encoded(y)
    if sx is not None and sy is not None:
        return I.eq(sx, sy)
    return T("eq", tuple(sorted([T("bytesv", x.canon(), "bytes"), T("bytesv", y.canon(), "bytes")], key=repr)), "bool")


def _encoded(x):
    """utf-8 encoding of a string value -> the string (encoding is injective)"""
    if len(x.parts) == 1 and isinstance(x.parts[0], T) and x.parts[0].op == "encode":
        return x.parts[0].args[0]
    if not any(isinstance(p, (T, BV)) for p in x.parts):
        try:
            return bytes(x.parts).decode()
        except Exception:
            return None
    return None


def mem_len(m):
    if isinstance(m, Mem):
        return m.length if m.length is not None else T("len", (sym(m.name, "bytes"),), "int")
    return m.len_


def _memof(m):
    return (m, 0) if isinstance(m, Mem) else (m.mem, m.off)


def mem_index(I, o, i):
    n = mem_len(o)
    i = I.num(i)
    if not I.truth(neg(I.lt(i, 0))):
        i = lin_add(i, n)
        if not I.truth(neg(I.lt(i, 0))):
            I.throw("IndexError", "index out of range")
    if not I.truth(I.lt(i, n)):
        I.throw("IndexError", "index out of range")
    return i


def mem_getitem(I, o, i):
    m, off = _memof(o)
    if not isinstance(i, Slice):
        i = lin_add(mem_index(I, o, i), off)
        m.reads.append((i, lin_add(i, 1)))
        return I.norm(m.byte(i))
    a, b, st = i.start, i.stop, i.step
    n = mem_len(o)
    st = I.index_value(st)
    if st not in (None, 1):
        return T("memslice", (m.name, off, n, a, b, st), "bytes")

    def clamp(x, dflt):
        if x is None:
            return dflt
        x = I.num(x)
        if not I.truth(neg(I.lt(x, 0))):
            x = lin_add(x, n)
            if not I.truth(neg(I.lt(x, 0))):
                x = 0
        if not I.truth(neg(I.lt(n, x))):
            x = n
        return x
    a = clamp(a, 0)
    b = clamp(b, n)
    ln = lin_add(b, a, -1)
    if not is_int(ln) and I.facts.implies_le(lin_add(ln, -16)):
        # short slice cut off by the end of the memory: split on its length
        for k in range(17):
            if I.truth(eq_int(ln, k)) if k else I.truth(neg(I.lt(0, ln))):
                ln = k
                break
    if is_int(ln) and 0 <= ln <= 4096:
        lo = lin_add(a, off)
        if ln:
            m.reads.append((lo, lin_add(lo, ln)))
        return BytesV([I.norm(m.byte(lin_add(lo, k))) for k in range(ln)], "memoryview")
    if is_int(ln) or not I.truth(neg(I.lt(ln, 0))):
        return BytesV([], "memoryview")
    return MemView(m, lin_add(a, off), ln)


def mem_setitem(I, o, i, v):
    m, off = _memof(o)
    if isinstance(i, Slice):
        a, b = i.start, i.stop
        bv = BytesV.of(v)
        if i.step is None and a is not None and b is not None and not any(isinstance(p, T) for p in bv.parts) \
                and lin_add(b, a, -1) == len(bv.parts):
            for k, p in enumerate(bv.parts):
                mem_setitem(I, o, lin_add(a, k), p)
            return
        raise Unsupported("memory slice store")
    i = lin_add(mem_index(I, o, i), off)
    v = byte_value(I, I.norm(v))
    for k in m.over:
        d = lin_add(i, k, -1)
        if not is_int(d):
            raise Top("may-alias store")
    m.over[i] = v
    m.writes.append(i)


def int_from_bytes(I, data, order, signed=False):
    if isinstance(data, MemView):
        raise Unsupported("int.from_bytes of a view of unknown length")
    v = BytesV.of(data)
    if any(isinstance(p, T) for p in v.parts):
        if len(v.parts) == 1 and v.parts[0].op == "tobytes" and v.parts[0].args[2] == order:
            return v.parts[0].args[0]
        return T("frombytes", (v.canon(), order, signed), "int")
    if order not in ("little", "big"):
        I.throw("ValueError", "byteorder must be either 'little' or 'big'")
    parts = v.parts if order == "little" else v.parts[::-1]
    bits = []
    for p in parts:
        p = BV.of(p)
        bits += [p.bit(k) for k in range(8)]
    ext = bits[-1] if signed and bits else B0
    return BV(bits, ext).simplify()


def int_to_bytes(I, v, n, order, signed=False):
    n = I.index_value(n)
    v = I.norm(v)
    if order not in ("little", "big"):
        I.throw("ValueError", "byteorder must be either 'little' or 'big'")
    signed = I.truth(signed)
    if isinstance(v, (bool, int)):
        if not is_int(n):
            return BytesV([T("tobytes", (v, n, order, signed), "bytes")])
        try:
            return int(v).to_bytes(n, order, signed=signed)
        except OverflowError:
            I.throw("OverflowError", "int too big to convert")
    if isinstance(v, Bf):
        v = BV([v])
    if isinstance(v, BV) and is_int(n):
        if signed:
            top = v.bit(8 * n - 1) if n else B0
            bad = B0
            for k in range(8 * n, max(len(v.bits), 8 * n) + 1):
                bad = bad.or_(v.bit(k).xor(top))
        else:
            bad = v.ext
            for k in range(8 * n, len(v.bits)):
                bad = bad.or_(v.bits[k])
        if I.choose(bad):
            I.throw("OverflowError", "int too big to convert")
        out = [BV([v.bit(8 * k + j) for j in range(8)]).simplify() for k in range(n)]
        return BytesV(out if order == "little" else out[::-1])
    if isinstance(v, (T, BV)):
        v = I.num(v)
        return BytesV([T("tobytes", (v, n, order, signed), "bytes")])
    I.throw("TypeError", "to_bytes")


# ------------------------------------------------------------------ slices
def slice_indices(I, s, n):
    vals = [I.index_value(x) for x in (s.start, s.stop, s.step)]
    if is_int(n) and all(x is None or is_int(x) for x in vals):
        return slice(*vals).indices(n)
    a, b, st = vals
    if st in (None, 1):
        def clamp(x, d):
            if x is None:
                return d
            if not I.truth(neg(I.lt(x, 0))):
                x = lin_add(x, n)
                if not I.truth(neg(I.lt(x, 0))):
                    return 0
            if I.truth(I.lt(n, x)):
                return n
            return x
        return (clamp(a, 0), clamp(b, n), 1)
    t = T("indices", (a, b, st, n))
    return (T("item", (t, 0), "int"), T("item", (t, 1), "int"), T("item", (t, 2), "int"))


# ------------------------------------------------------------------ methods of builtin values
METHODS = {
    "list": set(dir(list)), "dict": set(dir(dict)) | {"move_to_end", "most_common", "elements", "total"}, "set": set(dir(set)), "str": set(dir(str)),
    "bytes": set(dir(bytes)), "bytearray": set(dir(bytearray)), "tuple": set(dir(tuple)), "int": set(dir(int)),
    "bool": set(dir(bool)), "float": set(dir(float)), "memoryview": set(dir(memoryview)), "NoneType": set(dir(None)),
    "frozenset": set(dir(frozenset)), "range": set(dir(range)), "generator": {"__next__", "__iter__", "close", "send"},
    "dict_keys": set(dir({}.keys())), "dict_items": set(dir({}.items())), "dict_values": set(dir({}.values())),
    "deque": {"append", "appendleft", "popleft", "pop", "extend", "clear", "index", "count", "remove"},
}


def has_method(o, t, name):
    return name in METHODS.get(t, ())


def all_concrete(xs):
    for x in xs:
        if is_abs(x) or isinstance(x, (Obj, Func, Bound, Cls, Native, It, Slice, SymRange)):
            return False
        if isinstance(x, (list, tuple, set)):
            if not all_concrete(list(x)):
                return False
        if isinstance(x, dict):
            if not all_concrete(list(x.values())) or not all_concrete(list(x)):
                return False
    return True


def call_method(I, o, name, args, kwargs):
    t = I.type_name(o)
    fn = globals().get("m_%s_%s" % (t, name))
    if fn is not None:
        return fn(I, o, args, kwargs)
    if name in ("__len__",):
        return B_len(I, [o], {})
    if name == "__str__":
        return I.str(o)
    if name == "__getitem__":
        return I.getitem(o, args[0])
    if name == "__contains__":
        return I.contains(o, args[0])
    if name == "__iter__":
        return It(list(I.iterate(o)))
    if name == "__eq__":
        return I.eq(o, args[0])
    if name == "__hash__":
        return hash(o)
    if not is_abs(o) and t in ("str", "int", "bytes", "float", "tuple", "bool", "range", "frozenset"):
        if any(isinstance(a, It) for a in args):
            args = [list(I.iterate(a)) if isinstance(a, It) else a for a in args]
        if all_concrete(args) and all_concrete(kwargs.values()) and all_concrete([o]):
            return I.call_host(getattr(o, name), args, kwargs)
    raise Unsupported("method %s.%s%r" % (t, name, tuple(args)))


def m_list_append(I, o, a, k):
    o.append(a[0])


def m_list_extend(I, o, a, k):
    o.extend(list(I.iterate(a[0])))


def m_list_insert(I, o, a, k):
    o.insert(a[0], a[1])


def m_list_pop(I, o, a, k):
    if not o or (a and not -len(o) <= a[0] < len(o)):
        I.throw("IndexError", "pop from empty list")
    return o.pop(*a)


def m_list_clear(I, o, a, k):
    o.clear()


def m_list_reverse(I, o, a, k):
    o.reverse()


def m_list_copy(I, o, a, k):
    return list(o)


def m_list_count(I, o, a, k):
    n = 0
    for x in list(o):
        if I.truth(I.eq(x, a[0])):
            n += 1
    return n


m_tuple_count = m_list_count


def m_list_index(I, o, a, k):
    lo = a[1] if len(a) > 1 else 0
    for i, x in enumerate(list(o)):
        if i >= lo and I.truth(I.eq(x, a[0])):
            return i
    I.throw("ValueError", "not in list")


m_tuple_index = m_list_index


def m_list_remove(I, o, a, k):
    for i, x in enumerate(list(o)):
        if I.truth(I.eq(x, a[0])):
            del o[i]
            return None
    I.throw("ValueError", "list.remove(x): x not in list")


def m_list_sort(I, o, a, k):
    o[:] = B_sorted(I, [list(o)], k)


def m_dict_get(I, o, a, k):
    key = I.dict_find(o, a[0])
    if key is UNBOUND:
        return a[1] if len(a) > 1 else k.get("default")
    return o[key]


def m_dict_items(I, o, a, k):
    return dview("dict_items", [(x, y) for x, y in o.items()])


def m_dict_keys(I, o, a, k):
    return dview("dict_keys", o.keys())


def m_dict_values(I, o, a, k):
    return dview("dict_values", o.values())


def m_dict_keys_isdisjoint(I, o, a, k):
    other = list(I.iterate(a[0]))
    return not any(I.truth(I.contains(o, x)) for x in other)


m_dict_items_isdisjoint = m_dict_keys_isdisjoint


def m_dict_most_common(I, o, a, k):
    if not isinstance(o, Counter):
        I.throw("AttributeError", "'dict' object has no attribute 'most_common'")
    items = B_sorted(I, [[(x, y) for x, y in o.items()]], {"key": Native("count", lambda J, b, kk: b[0][1]), "reverse": True})
    return items[:a[0]] if a and a[0] is not None else items


def m_dict_elements(I, o, a, k):
    if not isinstance(o, Counter):
        I.throw("AttributeError", "'dict' object has no attribute 'elements'")
    return It([x for x, n in o.items() for _ in range(n)])


def m_dict_total(I, o, a, k):
    if not isinstance(o, Counter):
        I.throw("AttributeError", "'dict' object has no attribute 'total'")
    return sum(o.values())


def m_dict_update(I, o, a, k):
    if isinstance(o, Counter):
        if a and a[0] is not None:
            src = a[0].items() if isinstance(a[0], dict) else [(x, 1) for x in I.iterate(a[0])]
            for x, n in src:
                I.setitem(o, x, I.binop(ast.Add(), I.getitem(o, x), n))
        for x, n in k.items():
            I.setitem(o, x, I.binop(ast.Add(), I.getitem(o, x), n))
        return
    if a:
        src = a[0]
        if isinstance(src, dict):
            for x, y in src.items():
                I.setitem(o, x, y)
        else:
            for p in I.iterate(src):
                x, y = list(I.iterate(p))
                I.setitem(o, x, y)
    for x, y in k.items():
        I.setitem(o, x, y)


def m_dict_pop(I, o, a, k):
    key = I.dict_find(o, a[0])
    if key is UNBOUND:
        if len(a) > 1:
            return a[1]
        I.throw("KeyError", a[0])
    return o.pop(key)


def m_dict_popitem(I, o, a, k):
    if not o:
        I.throw("KeyError", "empty")
    last = a[0] if a else k.get("last", True)
    key = list(o)[-1 if last else 0]
    return (key, o.pop(key))


def m_dict_setdefault(I, o, a, k):
    key = I.dict_find(o, a[0])
    if key is UNBOUND:
        o[a[0]] = a[1] if len(a) > 1 else None
        return o[a[0]]
    return o[key]


def m_dict_copy(I, o, a, k):
    r = type(o)()
    r.update(o)
    return r


def m_dict_clear(I, o, a, k):
    o.clear()


def m_dict_move_to_end(I, o, a, k):
    v = o.pop(a[0])
    if (a[1] if len(a) > 1 else k.get("last", True)):
        o[a[0]] = v
    else:
        rest = list(o.items())
        o.clear()
        o[a[0]] = v
        o.update(rest)


def m_set_add(I, o, a, k):
    if not I.contains(o, a[0]):
        o.add(a[0])


def m_set_discard(I, o, a, k):
    o.discard(a[0])


def m_set_remove(I, o, a, k):
    if a[0] not in o:
        I.throw("KeyError", a[0])
    o.remove(a[0])


def m_set_update(I, o, a, k):
    for s in a:
        for x in I.iterate(s):
            o.add(x)


def m_set_clear(I, o, a, k):
    o.clear()


def m_set_copy(I, o, a, k):
    return set(o)


def _setop(f):
    def g(I, o, a, k):
        r = set(o)
        for s in a:
            r = f(r, set(I.iterate(s)))
        return r
    return g


m_set_union = _setop(lambda x, y: x | y)
m_set_intersection = _setop(lambda x, y: x & y)
m_set_difference = _setop(lambda x, y: x - y)
m_set_symmetric_difference = _setop(lambda x, y: x ^ y)


def m_set_pop(I, o, a, k):
    if not o:
        I.throw("KeyError", "pop from an empty set")
    x = sorted(o, key=_setkey)[0]
    o.remove(x)
    return x


def m_set_issubset(I, o, a, k):
    return o <= set(I.iterate(a[0]))


def m_set_issuperset(I, o, a, k):
    return o >= set(I.iterate(a[0]))


def m_set_isdisjoint(I, o, a, k):
    return not (o & set(I.iterate(a[0])))


def m_deque_append(I, o, a, k):
    o.items.append(a[0])


def m_deque_appendleft(I, o, a, k):
    o.items.insert(0, a[0])


def m_deque_popleft(I, o, a, k):
    if not o.items:
        I.throw("IndexError", "pop from an empty deque")
    return o.items.pop(0)


def m_deque_pop(I, o, a, k):
    if not o.items:
        I.throw("IndexError", "pop from an empty deque")
    return o.items.pop()


def m_deque_extend(I, o, a, k):
    o.items.extend(I.iterate(a[0]))


# -- str
def _allstr(*v):
    return all(isinstance(x, str) for x in v)


def m_str_format(I, o, a, k):
    parts = []
    auto = 0
    for p in cat_parts(o):
        if isinstance(p, T):
            parts.append(p)
            continue
        import string
        for lit, field, spec, conv in string.Formatter().parse(p):
            parts.append(lit)
            if field is None:
                continue
            m = _re.match(r"([^.\[]*)(.*)$", field)
            head, rest = m.group(1), m.group(2)
            if head == "":
                v = a[auto]
                auto += 1
            elif head.isdigit():
                v = a[int(head)]
            else:
                if head not in k:
                    I.throw("KeyError", head)
                v = k[head]
            for acc in _re.findall(r"\.(\w+)|\[(\w+)\]", rest):
                v = I.getattr(v, acc[0]) if acc[0] else I.getitem(v, int(acc[1]) if acc[1].isdigit() else acc[1])
            if conv == "r":
                v = I.repr(v)
            parts.append(I.format(v, spec or ""))
    return cat(parts)


def m_str_join(I, o, a, k):
    xs = list(I.iterate(a[0]))
    for x in xs:
        if not isinstance(x, str) and not (isinstance(x, T) and x.ty in ("str", "any")):
            I.throw("TypeError", "sequence item: expected str instance")
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(o)
        out.append(x)
    return cat([x if not (isinstance(x, T) and x.ty == "any") else T("asstr", (x,), "str") for x in out])


def _map_parts(o, f, op):
    return cat([f(p) if isinstance(p, str) else (p if p.ty == "int" else T(op, (p,), "str")) for p in cat_parts(o)])


def m_str_upper(I, o, a, k):
    return o.upper() if isinstance(o, str) else _map_parts(o, str.upper, "upper")


def m_str_lower(I, o, a, k):
    return o.lower() if isinstance(o, str) else _map_parts(o, str.lower, "lower")


def m_str_title(I, o, a, k):
    return o.title() if isinstance(o, str) else T("title", (o,), "str")


def m_str_replace(I, o, a, k):
    if _allstr(o, a[0], a[1]):
        return o.replace(*a)
    if isinstance(a[0], str):
        if isinstance(o, str):
            parts = o.split(a[0])
            return cat(_join(a[1], parts))
        out = []
        for p in cat_parts(o):
            if isinstance(p, str):
                out.extend(_join(a[1], p.split(a[0])))
            elif p.ty == "int":
                out.append(p)
            else:
                out.append(T("replace", (p, a[0], a[1]), "str"))
        return cat(out)
    return T("replace", (o,) + tuple(a), "str")


def m_str_split(I, o, a, k):
    if isinstance(o, str) and all_concrete(a):
        return I.call_host(o.split, a, k)
    if a and isinstance(a[0], str) and len(a) == 1 and not k:
        out = [[]]
        for p in cat_parts(o):
            if isinstance(p, str):
                bits = p.split(a[0])
                out[-1].append(bits[0])
                for b in bits[1:]:
                    out.append([b])
            else:
                out[-1].append(p)
        return [cat(x) for x in out]
    return T("split", (o,) + tuple(a), "any")


def m_str_rsplit(I, o, a, k):
    if isinstance(o, str) and all_concrete(a):
        return I.call_host(o.rsplit, a, k)
    return T("rsplit", (o,) + tuple(a), "any")


def m_str_splitlines(I, o, a, k):
    if isinstance(o, str):
        return I.call_host(o.splitlines, a, k)
    keep = bool(a and a[0]) or bool(k.get("keepends"))
    out = [[]]
    for p in cat_parts(o):
        if isinstance(p, str):
            bits = p.split("\n")
            for i, b in enumerate(bits):
                last = i == len(bits) - 1
                out[-1].append(b + ("\n" if keep and not last else ""))
                if not last:
                    out.append([])
        else:
            out[-1].append(p)
    res = [cat(x) for x in out]
    if res and res[-1] == "":
        res.pop()
    return res


def m_str_startswith(I, o, a, k):
    if _allstr(o) and all_concrete(a):
        return o.startswith(*a)
    if isinstance(a[0], tuple):
        return any(I.truth(m_str_startswith(I, o, [x], {})) for x in a[0])
    if isinstance(a[0], str) and len(a) == 1:
        parts = cat_parts(o)
        if a[0] == "":
            return True
        if isinstance(parts[0], str):
            if len(parts[0]) >= len(a[0]):
                return parts[0].startswith(a[0])
            if not a[0].startswith(parts[0]):
                return False
    else:
        po, pa = cat_parts(o), cat_parts(a[0])
        if po[:len(pa)] == pa:
            return True
        if len(pa) and po[:len(pa) - 1] == pa[:-1] and isinstance(pa[-1], str) and len(po) >= len(pa) and \
                isinstance(po[len(pa) - 1], str):
            x, y = po[len(pa) - 1], pa[-1]
            if x.startswith(y):
                return True
            if len(x) >= len(y):
                return False
    return T("startswith", (o,) + tuple(a), "bool")


def m_str_endswith(I, o, a, k):
    if _allstr(o) and all_concrete(a):
        return o.endswith(*a)
    if isinstance(a[0], tuple):
        return any(I.truth(m_str_endswith(I, o, [x], {})) for x in a[0])
    if isinstance(a[0], str):
        parts = cat_parts(o)
        if isinstance(parts[-1], str):
            if len(parts[-1]) >= len(a[0]):
                return parts[-1].endswith(a[0])
            if not a[0].endswith(parts[-1]):
                return False
    return T("endswith", (o,) + tuple(a), "bool")


def _strip(fn, l, r):
    def g(I, o, a, k):
        if isinstance(o, str) and all_concrete(a):
            return getattr(o, fn)(*a)
        parts = cat_parts(o)
        if l and isinstance(parts[0], str):
            s = parts[0].lstrip(*a)
            if s:
                parts[0] = s
                l2 = False
            else:
                return T(fn, (o,) + tuple(a), "str")
        elif l:
            if not (isinstance(parts[0], T) and parts[0].ty == "int"):
                return T(fn, (o,) + tuple(a), "str")
        if r and isinstance(parts[-1], str):
            s = parts[-1].rstrip(*a)
            if not s:
                return T(fn, (o,) + tuple(a), "str")
            parts[-1] = s
        elif r:
            if not (isinstance(parts[-1], T) and parts[-1].ty == "int"):
                return T(fn, (o,) + tuple(a), "str")
        return cat(parts)
    return g


m_str_strip = _strip("strip", True, True)
m_str_lstrip = _strip("lstrip", True, False)
m_str_rstrip = _strip("rstrip", False, True)


def m_str_encode(I, o, a, k):
    if isinstance(o, str):
        return o.encode(*a)
    return T("encode", (o,), "bytes")


def m_str_find(I, o, a, k):
    if isinstance(o, str) and all_concrete(a):
        return o.find(*a)
    return T("find", (o,) + tuple(a), "int")


def _opaque_str(name, ty):
    def g(I, o, a, k):
        if isinstance(o, str) and all_concrete(a):
            return I.call_host(getattr(o, name), a, k)
        return T(name, (o,) + tuple(a), ty)
    return g


for _n, _t in (("count", "int"), ("index", "int"), ("rfind", "int"), ("isdigit", "bool"), ("isalpha", "bool"),
               ("capitalize", "str"), ("zfill", "str"), ("partition", "any"), ("rpartition", "any"), ("isupper", "bool"),
               ("islower", "bool"), ("isspace", "bool"), ("isidentifier", "bool"), ("ljust", "str"), ("rjust", "str"),
               ("swapcase", "str"), ("removeprefix", "str"), ("removesuffix", "str"), ("expandtabs", "str"), ("translate", "str")):
    globals()["m_str_" + _n] = _opaque_str(_n, _t)


# -- bytes
def m_bytes_decode(I, o, a, k):
    if isinstance(o, bytes):
        return I.call_host(o.decode, a, k)
    if isinstance(o, BytesV):
        if o.concrete():
            return I.call_host(bytes(o.parts).decode, a, k)
        if len(o.parts) == 1 and isinstance(o.parts[0], T):
            o = o.parts[0]
        else:
            return T("decode", (T("bytesv", o.canon(), "bytes"),), "str")
    if isinstance(o, T) and o.op == "encode":
        return o.args[0]
    return T("decode", (o,), "str")


m_bytearray_decode = m_bytes_decode


def m_bytearray_extend(I, o, a, k):
    v = a[0]
    if isinstance(v, (list, tuple)):
        v = BytesV([byte_value(I, x) for x in v])
    o.parts.extend(BytesV.of(v).parts)


def m_bytearray_append(I, o, a, k):
    o.parts.append(byte_value(I, a[0]))


def m_bytearray_clear(I, o, a, k):
    o.parts.clear()


def m_bytearray_insert(I, o, a, k):
    o.parts.insert(a[0], byte_value(I, a[1]))


def m_bytearray_copy(I, o, a, k):
    return BytesV(o.parts, "bytearray")


def m_bytes_join(I, o, a, k):
    out = []
    for i, x in enumerate(I.iterate(a[0])):
        if i:
            out += list(BytesV.of(o).parts)
        out += BytesV.of(x).parts
    return BytesV(out)


def m_bytes_ljust(I, o, a, k):
    v = BytesV.of(o)
    n = v.length()
    if is_int(n) and is_int(a[0]):
        return BytesV(v.parts + [(a[1] if len(a) > 1 else b" ")[0]] * max(0, a[0] - n), v.kind)
    raise Unsupported("ljust")


m_bytearray_ljust = m_bytes_ljust


def m_memoryview_tobytes(I, o, a, k):
    return T_bytes(I, [o], {})


def m_memoryview_cast(I, o, a, k):
    return o


def m_memoryview_release(I, o, a, k):
    return None


# -- int
def m_int_to_bytes(I, o, a, k):
    n = a[0] if a else k.get("length", 1)
    order = a[1] if len(a) > 1 else k.get("byteorder", "big")
    return int_to_bytes(I, o, n, order, k.get("signed", False))


m_bool_to_bytes = m_int_to_bytes


def m_int_bit_length(I, o, a, k):
    if isinstance(o, BV):
        o = bv_term(o)
    if isinstance(o, T):
        return T("bit_length", (o,), "int")
    return o.bit_length()


def type_method(I, tname, name, a, k):
    if tname == "int" and name == "from_bytes":
        order = a[1] if len(a) > 1 else k.get("byteorder", "big")
        return int_from_bytes(I, a[0], order, k.get("signed", False))
    if tname in ("str", "bytes", "list", "dict", "int", "set") and a:
        if tname == "dict" and name == "fromkeys":
            d = {}
            for x in I.iterate(a[0]):
                d[x] = a[1] if len(a) > 1 else None
            return d
        if tname == "str" and name == "maketrans":
            return I.call_host(str.maketrans, a, k)
        return call_method(I, a[0], name, a[1:], k)
    if name in ("__init__", "__setattr__"):
        return None
    if tname == "object" and name == "__new__":
        return Obj(a[0])
    raise Unsupported("%s.%s" % (tname, name))


# ------------------------------------------------------------------ builtins
def T_int(I, a, k):
    if not a:
        return 0
    v = I.norm(a[0])
    if isinstance(v, BV):
        return v
    if isinstance(v, Bf):
        return BV([v]).simplify()
    if isinstance(v, T):
        if v.ty in ("int",):
            return v
        if v.op == "cat" and len(v.args) == 1 and isinstance(v.args[0], T) and v.args[0].ty == "int":
            return v.args[0]
        if v.ty == "bool":
            return 1 if I.choose(v) else 0
        return T("int", (v,) + tuple(a[1:]), "int")
    if isinstance(v, str) and isinstance(v, LiftStr):
        return v.value
    if isinstance(v, str) and I.ph and v.strip().lstrip("-") in I.ph:
        r = I.ph[v.strip().lstrip("-")]
        return lin_mul(r, -1) if v.strip().startswith("-") else r
    if isinstance(v, (int, float, str, bool)):
        return I.call_host(int, [v] + list(a[1:]), k)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__int__")
        if f is not None:
            return I.call(f, [v], {})
    I.throw("TypeError", "int() argument must be a string or a number")


class LiftStr(str):
    """token text standing for an unknown number"""
    value = None


def T_str(I, a, k):
    if not a:
        return ""
    if isinstance(a[0], (bytes, BytesV)) and len(a) > 1:
        return m_bytes_decode(I, a[0], [], {})
    return I.str(a[0])


def T_bool(I, a, k):
    return I.truth(a[0]) if a else False


def T_float(I, a, k):
    v = a[0]
    if isinstance(v, (T, BV)):
        return T("float", (I.num(v),), "float")
    return I.call_host(float, [v], {})


def T_list(I, a, k):
    return list(I.iterate(a[0])) if a else []


def T_tuple(I, a, k):
    return tuple(I.iterate(a[0])) if a else ()


def T_set(I, a, k):
    r = set()
    if a:
        for x in I.iterate(a[0]):
            m_set_add(I, r, [x], {})
    return r


def T_dict(I, a, k):
    d = {}
    m_dict_update(I, d, a, k)
    return d


def T_bytes(I, a, k, kind="bytes"):
    if not a:
        return BytesV([], kind)
    v = I.index_value(a[0])
    if isinstance(v, str):
        return v.encode() if kind == "bytes" else BytesV(list(v.encode()), kind)
    if isinstance(v, T) and v.ty == "str":
        return BytesV([T("encode", (v,), "bytes")], kind)
    if is_int(v):
        if v < 0:
            I.throw("ValueError", "negative count")
        return BytesV([0] * v, kind)
    if isinstance(v, (bytes, bytearray, BytesV)) or (isinstance(v, T) and v.ty in ("bytes", "bytearray")):
        if isinstance(v, bytes) and kind == "bytes":
            return v
        return BytesV(BytesV.of(v).parts, kind)
    if isinstance(v, (list, tuple, It, range)):
        return BytesV([byte_value(I, x) for x in I.iterate(v)], kind)
    if isinstance(v, (Mem, MemView)):
        m, off = _memof(v)
        n = mem_len(v)
        if is_int(n):
            m.reads.append((off, lin_add(off, n)))
            return BytesV([m.byte(lin_add(off, i)) for i in range(n)], kind)
        m.reads.append((off, lin_add(off, n)))
        return BytesV([T("memslice", (m.name, off, n), "bytes")], kind)
    if isinstance(v, T):
        if v.ty == "int":
            return BytesV([T("zeros", (v,), "bytes")], kind)
        return BytesV([T("tobytes_of", (v,), "bytes")], kind)
    if isinstance(v, Obj):
        if "bytes" in v.attrs:
            return T_bytes(I, [v.attrs["bytes"]], k, kind)
    I.throw("TypeError", "cannot convert to bytes")


def T_memoryview(I, a, k):
    v = a[0]
    if isinstance(v, (Mem, MemView)):
        return v
    if isinstance(v, (BytesV, bytes)):
        b = BytesV.of(v)
        r = BytesV(b.parts, "memoryview")
        if isinstance(v, BytesV) and v.kind in ("bytearray", "memoryview"):
            r.parts = b.parts
        return r
    if isinstance(v, T):
        if v.ty in ("any", "bytes"):
            return v
    if isinstance(v, Obj) and "mem" in v.attrs:
        return v.attrs["mem"]
    I.throw("TypeError", "memoryview: a bytes-like object is required")


def B_len(I, a, k):
    v = a[0]
    if isinstance(v, (list, tuple, str, bytes, dict, set, frozenset, range, bytearray)):
        return len(v)
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__len__")
        if f is None:
            I.throw("TypeError", "object of type '%s' has no len()" % v.cls.name)
        r = I.call(f, [v], {})
        if isinstance(r, BV):
            r = bv_term(r)
        if is_int(r) and r < 0:
            I.throw("ValueError", "__len__() should return >= 0")
        return r
    if isinstance(v, BytesV):
        return v.length()
    if isinstance(v, (Mem, MemView)):
        return mem_len(v)
    if isinstance(v, Deque):
        return len(v.items)
    if isinstance(v, T):
        if v.ty == "str":
            return str_len(I, v)
        if v.ty == "int":
            I.throw("TypeError", "object of type 'int' has no len()")
        return T("len", (v,), "int")
    if isinstance(v, SymRange):
        return T("nonneg", ("rangelen", v.start, v.stop, v.step), "int")
    if v is None or isinstance(v, (int, float, BV, Bf, It, Func)):
        I.throw("TypeError", "object has no len()")
    return I.call_host(len, [v], {})


def B_range(I, a, k):
    a = [I.index_value(x) for x in a]
    a = [I.num(x) if isinstance(x, (BV, Bf)) else x for x in a]
    a = [int(x) if isinstance(x, bool) else x for x in a]
    for x in a:
        if not is_int(x) and not isinstance(x, T):
            I.throw("TypeError", "range() integer argument expected")
    if all(is_int(x) for x in a):
        if len(a) == 3 and a[2] == 0:
            I.throw("ValueError", "range() arg 3 must not be zero")
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0], 1)
    return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)


def B_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    out = []
    for i, x in enumerate(I.iterate(a[0])):
        out.append((lin_add(start, i), x))
    return It(out)


def B_zip(I, a, k):
    ls = [list(I.iterate(x)) for x in a]
    return It(list(zip(*ls)))


def B_map(I, a, k):
    f = a[0]
    ls = [list(I.iterate(x)) for x in a[1:]]
    return It([I.call(f, list(xs), {}) for xs in zip(*ls)])


def B_filter(I, a, k):
    f = a[0]
    return It([x for x in I.iterate(a[1]) if I.truth(x if f is None else I.call(f, [x], {}))])


def B_sorted(I, a, k):
    xs = list(I.iterate(a[0]))
    key = k.get("key")
    ks = [I.call(key, [x], {}) if key is not None else x for x in xs]

    def flat(q):
        if isinstance(q, NT):
            q = tuple(q)
        if isinstance(q, (Obj,)):
            return _ObjKey(I, q)
        if isinstance(q, (tuple, list)):
            return tuple(flat(z) for z in q)
        if isinstance(q, T):
            return _ObjKey(I, q)
        return q
    order = sorted(range(len(xs)), key=lambda i: flat(ks[i]), reverse=I.truth(k.get("reverse", False)))
    return [xs[i] for i in order]


class _ObjKey:
    def __init__(self, I, v):
        self.I, self.v = I, v

    def __lt__(self, o):
        v = o.v if isinstance(o, _ObjKey) else o
        if isinstance(self.v, Obj):
            f, _ = self.v.cls.lookup("__lt__")
            if f is not None:
                return self.I.truth(self.I.call(f, [self.v, v], {}))
            self.I.throw("TypeError", "'<' not supported between instances")
        return self.I.truth(self.I.lt(self.v, v))

    def __gt__(self, o):
        v = o.v if isinstance(o, _ObjKey) else o
        return self.I.truth(self.I.lt(v, self.v))

    def __eq__(self, o):
        v = o.v if isinstance(o, _ObjKey) else o
        if isinstance(self.v, Obj):
            return self.v is v
        return self.I.truth(self.I.eq(self.v, v))


def B_reversed(I, a, k):
    v = a[0]
    if isinstance(v, SymRange):
        return SymRange(lin_add(lin_add(v.stop, v.step, -1), 0), lin_add(v.start, v.step, -1), -v.step)
    return It(list(I.iterate(v))[::-1])


def _minmax(I, a, k, want_lt):
    xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
    if not xs:
        if "default" in k:
            return k["default"]
        I.throw("ValueError", "arg is an empty sequence")
    key = k.get("key")
    best = xs[0]
    kb = I.call(key, [best], {}) if key else best
    for x in xs[1:]:
        kx = I.call(key, [x], {}) if key else x
        c = I.lt(kx, kb) if want_lt else I.lt(kb, kx)
        if I.truth(c):
            best, kb = x, kx
    return best


def B_min(I, a, k):
    return _minmax(I, a, k, True)


def B_max(I, a, k):
    return _minmax(I, a, k, False)


def B_sum(I, a, k):
    r = a[1] if len(a) > 1 else k.get("start", 0)
    for x in I.iterate(a[0]):
        r = I.binop(ast.Add(), r, x)
    return r


def B_any(I, a, k):
    return any(I.truth(x) for x in I.iterate(a[0]))


def B_all(I, a, k):
    return all(I.truth(x) for x in I.iterate(a[0]))


def B_abs(I, a, k):
    v = I.norm(a[0])
    if isinstance(v, (T, BV)):
        t = I.num(v)
        if I.truth(I.lt(t, 0)):
            return lin_mul(t, -1)
        return v
    return abs(v)


def B_divmod(I, a, k):
    x, y = I.norm(a[0]), I.norm(a[1])
    if isinstance(x, (BV, Bf)) and is_int(y):
        return (I.binop(ast.FloorDiv(), x, y), I.binop(ast.Mod(), x, y))
    if isinstance(x, (T, BV)) or isinstance(y, (T, BV)):
        return I.divmod_(I.num(x), I.num(y))
    return I.call_host(divmod, [x, y], {})


def B_isinstance(I, a, k):
    return I.isinstance_(a[0], a[1])


def B_issubclass(I, a, k):
    t = a[1] if isinstance(a[1], tuple) else (a[1],)
    return isinstance(a[0], Cls) and any(x in a[0].mro for x in t)


def B_getattr(I, a, k):
    if isinstance(a[1], T):
        if isinstance(a[0], T):
            return T("attr", (a[0], a[1]))
        if len(a) > 2:
            return T("getattr", (T("objid", (id(a[0]),)), a[1]))
        raise Unsupported("getattr with unknown name")
    return I.getattr(a[0], a[1], a[2] if len(a) > 2 else UNBOUND)


def B_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def B_hasattr(I, a, k):
    if isinstance(a[0], T) and a[0].ty == "any":
        return T("hasattr", (a[0], a[1]), "bool")
    return I.getattr(a[0], a[1], NotImplemented) is not NotImplemented


def B_next(I, a, k):
    v = a[0]
    if isinstance(v, It):
        x = v.next()
    elif isinstance(v, Obj):
        return I.call(I.getattr(v, "__next__"), [], {})
    else:
        raise Unsupported("next")
    if x is UNBOUND:
        if len(a) > 1:
            return a[1]
        I.throw("StopIteration")
    return x


def B_iter(I, a, k):
    if isinstance(a[0], It):
        return a[0]
    return It(list(I.iterate(a[0])))


def B_repr(I, a, k):
    return I.repr(a[0])


def B_print(I, a, k):
    I.event("print", tuple(a))


def B_id(I, a, k):
    return id(a[0])


def B_hash(I, a, k):
    return hash(a[0]) if not isinstance(a[0], Obj) else id(a[0])


def B_callable(I, a, k):
    v = a[0]
    return isinstance(v, (Func, Bound, Native, Cls, PT)) or (isinstance(v, Obj) and v.cls.lookup("__call__")[0] is not None)


def B_open(I, a, k):
    m = I.models.get("open")
    if m is not None:
        return m(I, a, k)
    I.event("ext", "open", tuple(a), dict(k))
    return I.fresh("ext", ("open",) + tuple(a))


def B_property(I, a, k):
    return Prop(a[0], a[1] if len(a) > 1 else k.get("fset"))


def B_super(I, a, k):
    return Super(a[0], a[1])


def B_slice(I, a, k):
    a = list(a)
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


def B_type(I, a, k):
    if len(a) == 3:
        return Cls(a[0], list(a[1]) or [I.object_cls], dict(a[2]))
    v = a[0]
    if isinstance(v, (Obj, NT)):
        return v.cls
    t = I.type_name(v)
    if t is not None:
        return PT(t)
    if isinstance(v, T):
        return T("type", (v,))
    if isinstance(v, Slice):
        return PT("slice")
    if isinstance(v, Cls):
        return PT("type")
    return type(v)


def B_ord(I, a, k):
    return ord(a[0])


def B_exec(I, a, k):
    I.event("exec", tuple(a))
    return None


def _b(name):
    def g(I, a, k):
        if all_concrete(a):
            return I.call_host(getattr(_py, name), a, k)
        return T(name, tuple(a), {"bin": "str", "hex": "str", "chr": "str", "round": "int", "pow": "int"}.get(name, "any"))
    return g


BUILTINS = {n[2:]: Native(n[2:], f) for n, f in list(globals().items()) if n.startswith("B_")}
for _n in ("bin", "hex", "chr", "round", "pow", "oct", "ascii"):
    BUILTINS[_n] = Native(_n, _b(_n))
BUILTINS["format"] = Native("format", lambda I, a, k: I.format(a[0], a[1] if len(a) > 1 else ""))
BUILTINS["staticmethod"] = Native("staticmethod", lambda I, a, k: SM(a[0]))
BUILTINS["classmethod"] = Native("classmethod", lambda I, a, k: CM(a[0]))
BUILTINS["property"] = Native("property", B_property)
BUILTINS["input"] = Native("input", lambda I, a, k: I.fresh("input", (), "str"))
BUILTINS["__import__"] = Native("__import__", lambda I, a, k: I.import_module(a[0]))
TYPE_CALLS = {"int": T_int, "str": T_str, "bool": T_bool, "float": T_float, "list": T_list, "tuple": T_tuple,
              "set": T_set, "frozenset": lambda I, a, k: frozenset(I.iterate(a[0])) if a else frozenset(), "dict": T_dict, "bytes": T_bytes,
              "bytearray": lambda I, a, k: T_bytes(I, a, k, "bytearray"), "memoryview": T_memoryview,
              "object": lambda I, a, k: Obj(I.object_cls), "slice": B_slice, "type": B_type, "range": B_range}
for _n in TYPE_CALLS:
    BUILTINS[_n] = PT(_n)
BUILTINS["type"] = PT("type")


# ------------------------------------------------------------------ models of library functions
def M_namedtuple(I, a, k):
    fields = a[1]
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    c = Cls(a[0], [I.object_cls], {})
    c.nt_fields = list(fields)
    d = k.get("defaults")
    c.nt_defaults = dict(zip(c.nt_fields[len(c.nt_fields) - len(d):], d)) if d else {}
    return c


def record_class(I, c, fields):
    """__init__, __eq__ and __repr__ from annotated fields"""
    def init(J, a, k):
        self, a = a[0], list(a[1:])
        k = dict(k)
        for f in fields:
            if a and not f[2]:
                v = a.pop(0)
                if f[0] in k:
                    J.throw("TypeError", "multiple values for argument " + f[0])
            elif f[0] in k:
                v = k.pop(f[0])
            elif f[3] is not UNBOUND:
                v = J.call(f[3], [], {})
            elif f[1] is not UNBOUND:
                v = f[1]
            else:
                J.throw("TypeError", "missing argument " + f[0])
            self.attrs[f[0]] = v
        if a or k:
            J.throw("TypeError", "unexpected arguments")
        post, _ = self.cls.lookup("__post_init__")
        if post is not None:
            J.call(post, [self], {})
    return init


def M_dataclass(I, a, k):
    def wrap(J, b, kk):
        c = b[0]
        fields = []
        for base in reversed(c.mro):
            for n in base.ns.get("__annotations__", {}):
                d = base.ns.get(n, UNBOUND)
                kwonly, factory, init = bool(k.get("kw_only", False)), UNBOUND, True
                if isinstance(d, FieldSpec):
                    factory, init = d.factory, d.init
                    d = d.default
                    if d is UNBOUND:
                        base.ns.pop(n, None)
                    else:
                        base.ns[n] = d
                fields = [f for f in fields if f[0] != n]
                if init:
                    fields.append((n, d, kwonly, factory))
        if "__init__" not in c.ns:
            c.ns["__init__"] = Native("__init__", record_class(J, c, fields))
        if "__eq__" not in c.ns and k.get("eq", True):
            c.ns["__eq__"] = Native("__eq__", lambda K, x, kk2: isinstance(x[1], Obj) and x[1].cls is x[0].cls and all(
                K.truth(K.compare(ast.Eq(), x[0].attrs[f[0]], x[1].attrs[f[0]])) for f in fields))
        return c
    return wrap(I, a, k) if a else Native("dataclass", wrap)


class FieldSpec:
    def __init__(self, default, factory, init):
        self.default, self.factory, self.init = default, factory, init


def M_field(I, a, k):
    return FieldSpec(k.get("default", UNBOUND), k.get("default_factory", UNBOUND), k.get("init", True))


STRUCT_SIZES = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, x=1)
STRUCT_SIZES["?"] = 1


def struct_codes(I, fmt):
    if isinstance(fmt, (bytes,)):
        fmt = fmt.decode()
    if not isinstance(fmt, str):
        raise Unsupported("struct format %r" % (fmt,))
    order, body = ("@", fmt) if fmt[:1] not in "@=<>!" or not fmt else (fmt[0], fmt[1:])
    sizes = dict(STRUCT_SIZES)
    if order == "@":
        sizes["l"] = sizes["L"] = 8
    out, n = [], ""
    for c in body.replace(" ", ""):
        if c.isdigit():
            n += c
        elif c in sizes:
            out += [(c, sizes[c])] * (int(n) if n else 1)
            n = ""
        elif c == "s":
            out.append(("s", int(n) if n else 1))
            n = ""
        else:
            raise Unsupported("struct format %r" % (fmt,))
    if order == "@" and len({s for c, s in out if c not in "xs"}) > 1:
        raise Unsupported("struct format with alignment %r" % (fmt,))
    return "big" if order in ">!" else "little", out


def M_struct_pack(I, a, k):
    order, codes = struct_codes(I, a[0])
    vals = list(a[1:])
    if len(vals) != len([c for c in codes if c[0] != "x"]):
        I.throw("struct.error", "pack expected other arguments")
    out = []
    for c, n in codes:
        if c == "x":
            out.append(0)
            continue
        v = vals.pop(0)
        if c == "s":
            v = BytesV.of(v).parts
            if any(isinstance(p, T) for p in v):
                raise Unsupported("struct.pack of bytes of unknown length")
            out += (list(v) + [0] * n)[:n]
            continue
        if c == "?":
            v = int(I.truth(v))
        if not isinstance(v, (bool, int, T, BV, Bf)):
            I.throw("struct.error", "required argument is not an integer")
        r = int_to_bytes(I, v, n, order, c.islower())
        out += BytesV.of(r).parts
    return BytesV(out)


def M_struct_unpack(I, a, k, exact=True):
    order, codes = struct_codes(I, a[0])
    data = a[1]
    total = sum(n for _, n in codes)
    off = (a[2] if len(a) > 2 else k.get("offset", 0)) if not exact else 0
    if exact:
        if not I.choose(I.compare(ast.Eq(), B_len(I, [data], {}), total)):
            I.throw("struct.error", "unpack requires a buffer of %d bytes" % total)
    out = []
    for c, n in codes:
        end = I.binop(ast.Add(), off, n)
        if c != "x":
            part = I.getitem(data, Slice(off, end, None))
            if not exact and not I.choose(I.compare(ast.Eq(), B_len(I, [part], {}), n)):
                I.throw("struct.error", "unpack_from requires a longer buffer")
            out.append(part if c == "s" else int_from_bytes(I, part, order, c.islower()))
            if c == "?":
                out[-1] = I.compare(ast.NotEq(), out[-1], 0)
        off = end
    return tuple(out)


class StructFormat:
    def __init__(self, fmt):
        self.fmt = fmt


def M_struct_Struct(I, a, k):
    fmt = a[0]
    c = Cls("Struct", [I.object_cls], {})
    o = Obj(c)
    o.attrs.update(format=fmt, size=sum(n for _, n in struct_codes(I, fmt)[1]),
                   pack=Native("pack", lambda J, b, kk: M_struct_pack(J, [fmt] + list(b), kk)),
                   unpack=Native("unpack", lambda J, b, kk: M_struct_unpack(J, [fmt] + list(b), kk)),
                   unpack_from=Native("unpack_from", lambda J, b, kk: M_struct_unpack(J, [fmt] + list(b), kk, False)))
    return o


def _listed(fn):
    return lambda I, a, k: It(list(fn(I, a, k)))


def M_takewhile(I, a, k):
    for x in I.iterate(a[1]):
        if not I.truth(I.call(a[0], [x], {})):
            return
        yield x


def M_dropwhile(I, a, k):
    on = False
    for x in I.iterate(a[1]):
        if not on and I.truth(I.call(a[0], [x], {})):
            continue
        on = True
        yield x


def M_zip_longest(I, a, k):
    xs = [list(I.iterate(x)) for x in a]
    n = max([len(x) for x in xs] or [0])
    return It([tuple(x[i] if i < len(x) else k.get("fillvalue") for x in xs) for i in range(n)])


def M_repeat(I, a, k):
    if len(a) < 2 and "times" not in k:
        raise Unsupported("itertools.repeat without end")
    n = a[1] if len(a) > 1 else k["times"]
    if not is_int(n):
        raise Unsupported("itertools.repeat of unknown length")
    return It([a[0]] * n)


def M_product(I, a, k):
    import itertools
    return It(list(itertools.product(*[list(I.iterate(x)) for x in a], repeat=k.get("repeat", 1))))


def M_pairwise(I, a, k):
    xs = list(I.iterate(a[0]))
    return It(list(zip(xs, xs[1:])))


def M_methodcaller(I, a, k):
    return Native("methodcaller", lambda J, b, kk: J.call(J.getattr(b[0], a[0]), list(a[1:]), dict(k)))


def M_fspath(I, a, k):
    v = I.fspath(a[0])
    if isinstance(v, Obj):
        I.throw("TypeError", "expected str, bytes or os.PathLike object")
    return v


def _compare(opname):
    return lambda I, a, k: I.compare(opname(), a[0], a[1])


def M_odict(I, a, k):
    d = ODict()
    m_dict_update(I, d, a, k)
    return d


def M_counter(I, a, k):
    d = Counter()
    m_dict_update(I, d, a, k)
    return d


def M_defaultdict(I, a, k):
    d = ODict()
    d.default = a[0] if a else None
    m_dict_update(I, d, a[1:], k)
    return d


def M_deque(I, a, k):
    return Deque(list(I.iterate(a[0])) if a else [])


def M_copy(I, a, k):
    v = a[0]
    if isinstance(v, Obj):
        f, _ = v.cls.lookup("__copy__")
        if f is not None:
            return I.call(f, [v], {})
        o = Obj(v.cls)
        o.attrs.update(v.attrs)
        return o
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        r = type(v)()
        r.update(v)
        return r
    if isinstance(v, set):
        return set(v)
    return v


def M_deepcopy(I, a, k, memo=None):
    memo = {} if memo is None else memo
    v = a[0]
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, Obj):
        o = Obj(v.cls)
        memo[id(v)] = o
        for n, x in v.attrs.items():
            o.attrs[n] = M_deepcopy(I, [x], {}, memo)
        return o
    if isinstance(v, NT):
        r = NT([M_deepcopy(I, [x], {}, memo) for x in v])
        r.cls = v.cls
        return r
    if isinstance(v, (list, tuple)):
        return type(v)(M_deepcopy(I, [x], {}, memo) for x in v)
    if isinstance(v, dict):
        r = type(v)()
        memo[id(v)] = r
        for n, x in v.items():
            r[n] = M_deepcopy(I, [x], {}, memo)
        return r
    return v


def M_path_join(I, a, k):
    out = a[0]
    for x in a[1:]:
        if isinstance(x, str) and x.startswith("/"):
            out = x
            continue
        s = cat_parts(out)
        if not s:
            out = x
        elif isinstance(s[-1], str) and s[-1].endswith("/"):
            out = cat([out, x])
        else:
            out = cat([out, "/", x])
    return out


def _re_fn(name):
    def g(I, a, k):
        if all_concrete(a) and all_concrete(k.values()):
            return I.call_host(getattr(_re, name), a, k)
        if name == "sub" and isinstance(a[0], str) and isinstance(a[1], str) and isinstance(a[2], T):
            return T("resub", tuple(a[:3]), "str")
        return T("re." + name, tuple(a), "any")
    return g


def M_reduce(I, a, k):
    xs = list(I.iterate(a[1]))
    if len(a) > 2:
        acc = a[2]
    else:
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = I.call(a[0], [acc, x], {})
    return acc


def M_chain(I, a, k):
    return It([x for s in a for x in I.iterate(s)])


def M_accumulate(I, a, k):
    out = []
    acc = UNBOUND
    if k.get("initial") is not None:
        acc = k["initial"]
        out.append(acc)
    for x in I.iterate(a[0]):
        if acc is UNBOUND:
            acc = x
        else:
            acc = I.call(a[1], [acc, x], {}) if len(a) > 1 else I.binop(ast.Add(), acc, x)
        out.append(acc)
    return It(out)


def M_islice(I, a, k):
    xs = list(I.iterate(a[0]))
    return It(xs[slice(*a[1:])])


def M_partial(I, a, k):
    return Native("partial", lambda J, b, kk: J.call(a[0], list(a[1:]) + list(b), dict(k, **kk)))


def _operator(opname):
    return lambda I, a, k: I.binop(opname(), a[0], a[1])


DEFAULT_MODELS = {
    "collections.namedtuple": M_namedtuple, "collections.OrderedDict": Native("OrderedDict", M_odict),
    "collections.defaultdict": M_defaultdict, "collections.deque": M_deque, "collections.Counter": M_counter,
    "copy.copy": M_copy, "copy.deepcopy": M_deepcopy, "os.path.join": M_path_join,
    "functools.reduce": M_reduce, "functools.partial": M_partial, "itertools.chain": M_chain,
    "itertools.accumulate": M_accumulate, "itertools.islice": M_islice,
    "itertools.chain.from_iterable": lambda I, a, k: It([x for s in I.iterate(a[0]) for x in I.iterate(s)]),
    "operator.add": _operator(ast.Add), "operator.or_": _operator(ast.BitOr), "operator.and_": _operator(ast.BitAnd),
    "operator.attrgetter": lambda I, a, k: Native("attrgetter", lambda J, b, kk: J.getattr(b[0], a[0])),
    "operator.itemgetter": lambda I, a, k: Native("itemgetter", lambda J, b, kk: J.getitem(b[0], a[0])),
    "re.sub": _re_fn("sub"), "re.match": _re_fn("match"), "re.search": _re_fn("search"), "re.split": _re_fn("split"),
    "re.findall": _re_fn("findall"), "re.compile": _re_fn("compile"), "re.escape": _re_fn("escape"), "re.fullmatch": _re_fn("fullmatch"),
    "abc.abstractmethod": lambda I, a, k: a[0],
    "re.MULTILINE": _re.MULTILINE, "re.DOTALL": _re.DOTALL, "re.IGNORECASE": _re.IGNORECASE,
    "os.sep": "/", "os.path.sep": "/",
    "contextlib.suppress": lambda I, a, k: Suppress(a),
    "dataclasses.dataclass": M_dataclass, "dataclasses.field": M_field,
    "struct.pack": M_struct_pack, "struct.unpack": M_struct_unpack, "struct.Struct": M_struct_Struct,
    "struct.unpack_from": lambda I, a, k: M_struct_unpack(I, a, k, False),
    "struct.calcsize": lambda I, a, k: sum(n for _, n in struct_codes(I, a[0])[1]),
    "itertools.takewhile": _listed(M_takewhile), "itertools.dropwhile": _listed(M_dropwhile),
    "itertools.zip_longest": M_zip_longest, "itertools.repeat": M_repeat, "itertools.product": M_product,
    "itertools.pairwise": M_pairwise,
    "itertools.starmap": lambda I, a, k: It([I.call(a[0], list(I.iterate(x)), {}) for x in I.iterate(a[1])]),
    "itertools.filterfalse": lambda I, a, k: It([x for x in I.iterate(a[1]) if not I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)]),
    "itertools.compress": lambda I, a, k: It([x for x, c in zip(list(I.iterate(a[0])), list(I.iterate(a[1]))) if I.truth(c)]),
    "operator.sub": _operator(ast.Sub), "operator.mul": _operator(ast.Mult), "operator.xor": _operator(ast.BitXor),
    "operator.floordiv": _operator(ast.FloorDiv), "operator.mod": _operator(ast.Mod), "operator.lshift": _operator(ast.LShift),
    "operator.rshift": _operator(ast.RShift), "operator.concat": _operator(ast.Add), "operator.ior": _operator(ast.BitOr),
    "operator.eq": _compare(ast.Eq), "operator.ne": _compare(ast.NotEq), "operator.lt": _compare(ast.Lt), "operator.le": _compare(ast.LtE),
    "operator.gt": _compare(ast.Gt), "operator.ge": _compare(ast.GtE), "operator.is_": _compare(ast.Is), "operator.is_not": _compare(ast.IsNot),
    "operator.contains": lambda I, a, k: I.compare(ast.In(), a[1], a[0]),
    "operator.getitem": lambda I, a, k: I.getitem(a[0], a[1]), "operator.not_": lambda I, a, k: not I.truth(a[0]),
    "operator.methodcaller": M_methodcaller, "os.fspath": M_fspath,
    "functools.lru_cache": lambda I, a, k: a[0] if a and not is_int(a[0]) and a[0] is not None else Native("lru_cache", lambda J, b, kk: b[0]),
    "functools.cache": lambda I, a, k: a[0], "functools.cached_property": lambda I, a, k: Prop(a[0], None), "functools.wraps": lambda I, a, k: Native("wraps", lambda J, b, kk: b[0]),
    "typing.cast": lambda I, a, k: a[1],
}


# ------------------------------------------------------------------ exploration of partitions
class Outcome:
    def __init__(self, I, kind, value, detail=None):
        self.I, self.kind, self.value, self.detail = I, kind, value, detail
        self.events, self.facts = I.events, I.facts

    def exc_name(self):
        return self.value.cls.name if self.kind == "raise" else None

    def is_exc(self, name):
        return self.kind == "raise" and any(c.name == name for c in self.value.cls.mro)

    def describe(self):
        if self.kind == "raise":
            a = self.value.attrs.get("args", ())
            return "raises %s(%s) at %s" % (self.value.cls.name, ", ".join(str(x)[:80] for x in a),
                                            " < ".join(reversed(getattr(self.value, "where", [])[-4:])))
        return "%s %s" % (self.kind, self.value)

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.value)


def explore(prog, scenario, max_paths=4000, **kw):
    """all partitions of scenario(I) -> [Outcome]"""
    import sys
    if sys.getrecursionlimit() < 20000:
        sys.setrecursionlimit(20000)
    stack = [[]]
    out = []
    while stack:
        pre = stack.pop()
        I = Interp(prog, pre, **kw)
        try:
            v = scenario(I)
            out.append(Outcome(I, "return", v))
        except PyRaise as pr:
            out.append(Outcome(I, "raise", pr.exc))
        except Infeasible:
            pass
        except PathCut as pcut:
            out.append(Outcome(I, "cut", pcut.why))
        except (StepLimit, RecursionError) as e:
            out.append(Outcome(I, "diverge", str(e)))
        for i in range(len(pre), len(I.taken)):
            c, n = I.taken[i]
            for alt in range(c + 1, n):
                stack.append([x for x, _ in I.taken[:i]] + [alt])
        if len(out) > max_paths:
            raise Top("more than %d partitions" % max_paths)
    return out
