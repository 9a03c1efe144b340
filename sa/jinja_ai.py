"""Abstract interpretation of jinja2 templates: the template is parsed with jinja2's parser (library), its syntax tree is
evaluated here over the values of the Python interpreter.  Nothing is compiled or executed by jinja2."""
import os
import sys

for _p in ("/opt/venv/lib/python3.12/site-packages",):
    if os.path.isdir(_p) and _p not in sys.path:
        sys.path.append(_p)

import ast

import jinja2
from jinja2 import nodes as jn
from jinja2.ext import Extension as HostExtension

from .dom import *
from .pyai import *
from . import pyai


class Undef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<undefined %s>" % self.name


class Macro:
    def __init__(self, node, env):
        self.node, self.env = node, env


class TModule:
    """imported template: exported names"""

    def __init__(self, ns):
        self.ns = ns


class Loop:
    pass


class Env:
    """names visible at one point of a template"""

    def __init__(self, parent=None, globals_=None):
        self.vars = {}
        self.parent = parent
        self.globals = globals_ if parent is None else parent.globals

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return self.globals.get(n, Undef(n))


def ext_for(tags):
    class TagExtension(HostExtension):
        def parse(self, parser):
            tok = next(parser.stream)
            e = parser.parse_expression()
            return jn.CallBlock(jn.Call(jn.Name("__tag_" + tok.value, "load"), [e], [], None, None), [], [], [], lineno=tok.lineno)
    TagExtension.tags = set(tags)
    return TagExtension


class Renderer:
    def __init__(self, I, envobj):
        self.I = I
        self.env = envobj
        self.tags = {}

    # ---- parsing
    def host_env(self):
        a = self.env.attrs
        opts = dict(a["__opts"])
        exts = []
        for x in opts.pop("extensions", []) or []:
            if isinstance(x, Cls):
                tags, _ = x.lookup("tags")
                for t in tags or ():
                    self.tags[t] = x
                exts.append(ext_for(tags))
            elif isinstance(x, str):
                exts.append(x)
        known = ("block_start_string", "block_end_string", "variable_start_string", "variable_end_string", "comment_start_string",
                 "comment_end_string", "line_statement_prefix", "line_comment_prefix", "trim_blocks", "lstrip_blocks",
                 "newline_sequence", "keep_trailing_newline")
        return jinja2.Environment(extensions=exts, **{k: v for k, v in opts.items() if k in known})

    def template(self, name):
        I = self.I
        roots = self.env.attrs["__dirs"]
        for d in roots:
            p = os.path.normpath(os.path.join(d, name))
            if os.path.isfile(p):
                break
        else:
            o = Obj(I.exc_class("LookupError"))
            o.cls = tmpl_error(I, "TemplateNotFound")
            o.attrs["args"] = (name,)
            raise I.mk_raise(o)
        key = (p, repr(sorted((k, str(v)) for k, v in self.env.attrs["__opts"].items())))
        cache = I.prog.asts
        henv = self.host_env()
        if key not in cache:
            with open(p) as f:
                try:
                    cache[key] = henv.parse(f.read(), name, p)
                except jinja2.TemplateSyntaxError as e:
                    raise I.mk_raise(I.from_py(e))
        I.prog.consulted.add(p)
        return cache[key]

    def render(self, name, ctx):
        env = Env(None, self.globals())
        env.vars.update(ctx)
        out = []
        self.body(self.template(name).body, env, out)
        return pyai.cat(out)

    def globals(self):
        g = {"range": BUILTINS["range"], "dict": BUILTINS["dict"],
             "namespace": Native("namespace", lambda I, a, k: TModule(dict(k)))}
        g.update(self.env.attrs["globals"])
        return g

    # ---- statements
    def body(self, stmts, env, out):
        for s in stmts:
            self.I.steps += 1
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("template statement %s" % type(s).__name__)
            m(s, env, out)

    def s_Output(self, s, env, out):
        for n in s.nodes:
            if isinstance(n, jn.TemplateData):
                out.append(n.data)
            else:
                out.append(self.text(self.ev(n, env)))

    def text(self, v):
        if isinstance(v, Undef):
            return ""
        return self.I.str(v)

    def s_If(self, s, env, out):
        if self.truth(self.ev(s.test, env)):
            self.body(s.body, env, out)
            return
        for e in s.elif_:
            if self.truth(self.ev(e.test, env)):
                self.body(e.body, env, out)
                return
        self.body(s.else_ or [], env, out)

    def truth(self, v):
        if isinstance(v, Undef):
            return False
        return self.I.truth(v)

    def s_For(self, s, env, out, items=None, depth=0):
        src = self.ev(s.iter, env) if items is None else items
        xs = [] if isinstance(src, Undef) else list(self.I.iterate(src))
        if s.test is not None:
            keep = []
            for x in xs:
                e = Env(env)
                self.assign(s.target, x, e)
                if self.truth(self.ev(s.test, e)):
                    keep.append(x)
            xs = keep
        if not xs:
            self.body(s.else_ or [], env, out)
            return
        for i, x in enumerate(xs):
            e = Env(env)
            self.assign(s.target, x, e)
            lp = Loop()
            lp.index, lp.index0, lp.first, lp.last = i + 1, i, i == 0, i == len(xs) - 1
            lp.length, lp.revindex, lp.revindex0 = len(xs), len(xs) - i, len(xs) - i - 1
            lp.depth, lp.depth0 = depth + 1, depth
            lp.previtem = xs[i - 1] if i else Undef("previtem")
            lp.nextitem = xs[i + 1] if i + 1 < len(xs) else Undef("nextitem")
            if s.recursive:
                def rec(a, env=env, depth=depth):
                    o = []
                    self.s_For(s, env, o, a[0], depth + 1)
                    return pyai.cat(o)
                lp.call = rec
            e.vars["loop"] = lp
            try:
                self.body(s.body, e, out)
            except _LoopControl as c:
                if c.kind == "break":
                    break

    def s_Break(self, s, env, out):
        raise _LoopControl("break")

    def s_Continue(self, s, env, out):
        raise _LoopControl("continue")

    def s_Macro(self, s, env, out):
        env.vars[s.name] = Macro(s, env)

    def s_Import(self, s, env, out):
        env.vars[s.target] = self.import_(s, env)

    def import_(self, s, env):
        name = self.ev(s.template, env)
        e = Env(None, self.globals())
        if s.with_context:
            e = Env(env)
        self.body(self.template(name).body, e, [])
        return TModule(e.vars)

    def s_FromImport(self, s, env, out):
        m = self.import_(s, env)
        for n in s.names:
            a, b = n if isinstance(n, tuple) else (n, n)
            env.vars[b] = m.ns.get(a, Undef(a))

    def s_Include(self, s, env, out):
        name = self.ev(s.template, env)
        self.body(self.template(name).body, Env(env) if s.with_context else Env(None, self.globals()), out)

    def s_Assign(self, s, env, out):
        self.assign(s.target, self.ev(s.node, env), env)

    def s_AssignBlock(self, s, env, out):
        o = []
        self.body(s.body, Env(env), o)
        v = pyai.cat(o)
        if s.filter is not None:
            v = self.filter_(s.filter, v, env)
        self.assign(s.target, v, env)

    def s_With(self, s, env, out):
        e = Env(env)
        for t, v in zip(s.targets, s.values):
            self.assign(t, self.ev(v, env), e)
        self.body(s.body, e, out)

    def s_Scope(self, s, env, out):
        self.body(s.body, Env(env), out)

    def s_ScopedEvalContextModifier(self, s, env, out):
        self.body(s.body, env, out)

    def s_EvalContextModifier(self, s, env, out):
        pass

    def s_ExprStmt(self, s, env, out):
        self.ev(s.node, env)

    def s_FilterBlock(self, s, env, out):
        o = []
        self.body(s.body, Env(env), o)
        out.append(self.text(self.filter_(s.filter, pyai.cat(o), env)))

    def s_CallBlock(self, s, env, out):
        c = s.call
        if isinstance(c.node, jn.Name) and c.node.name.startswith("__tag_"):
            cls = self.tags.get(c.node.name[6:])
            msg = self.ev(c.args[0], env)
            I = self.I
            o = I.instantiate(cls, [self.env], {}) if cls is not None and not any(getattr(b, "ext", False) for b in cls.mro) else Obj(cls)
            # the extension's parse() turns the tag into a call of one of its methods; find it by its raise statement
            f = None
            for n, v in cls.ns.items():
                if isinstance(v, Func) and n != "parse":
                    f = v
            if f is None:
                raise Unsupported("template tag " + c.node.name[6:])
            r = I.call(f, [o, msg], {"caller": None})
            out.append(self.text(r))
            return
        def caller(I, a, k):
            o = []
            e = Env(env)
            for p, v in zip(s.args, a):
                e.vars[p.name] = v
            self.body(s.body, e, o)
            return pyai.cat(o)
        f = self.ev(c.node, env)
        args, kw = self.args(c, env)
        if isinstance(f, Macro):
            out.append(self.macro(f, args, kw, Native("caller", caller)))
        else:
            kw["caller"] = Native("caller", caller)
            out.append(self.text(self.I.call(f, args, kw)))

    def assign(self, t, v, env):
        if isinstance(t, jn.Name):
            env.vars[t.name] = v
        elif isinstance(t, (jn.Tuple, jn.List)):
            xs = list(self.I.iterate(v))
            if len(xs) != len(t.items):
                self.I.throw("ValueError", "unpack")
            for a, b in zip(t.items, xs):
                self.assign(a, b, env)
        elif isinstance(t, jn.NSRef):
            env.get(t.name).ns[t.attr] = v
        else:
            raise Unsupported("template assignment")

    def macro(self, m, args, kw, caller=None):
        e = Env(m.env)
        names = [a.name for a in m.node.args]
        d0 = len(names) - len(m.node.defaults)
        for i, n in enumerate(names):
            if i < len(args):
                e.vars[n] = args[i]
            elif n in kw:
                e.vars[n] = kw[n]
            elif i >= d0:
                e.vars[n] = self.ev(m.node.defaults[i - d0], e)
            else:
                e.vars[n] = Undef(n)
        if len(args) > len(names):
            e.vars["varargs"] = tuple(args[len(names):])
        if caller is not None:
            e.vars["caller"] = caller
        out = []
        self.I.prog.functions.add((m.node.environment.__class__.__name__ and self.I.prog_path(m.node), m.node.name))
        self.body(m.node.body, e, out)
        return pyai.cat(out)

    # ---- expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("template expression %s" % type(n).__name__)
        return m(n, env)

    def e_Name(self, n, env):
        return env.get(n.name)

    def e_NSRef(self, n, env):
        return self.attr(env.get(n.name), n.attr)

    def e_Const(self, n, env):
        return n.value

    def e_TemplateData(self, n, env):
        return n.data

    def e_List(self, n, env):
        return [self.ev(x, env) for x in n.items]

    def e_Tuple(self, n, env):
        return tuple(self.ev(x, env) for x in n.items)

    def e_Dict(self, n, env):
        return {self.ev(p.key, env): self.ev(p.value, env) for p in n.items}

    def e_Getattr(self, n, env):
        return self.attr(self.ev(n.node, env), n.attr)

    def undefined_use(self, o):
        e = Obj(tmpl_error(self.I, "UndefinedError"))
        e.attrs["args"] = ("%s is undefined" % o.name,)
        raise self.I.mk_raise(e)

    def attr(self, o, name):
        if isinstance(o, Undef):
            self.undefined_use(o)
        if isinstance(o, TModule):
            return o.ns.get(name, Undef(name))
        if isinstance(o, Loop):
            return getattr(o, name, Undef(name))
        I = self.I
        r = I.getattr(o, name, Undef(name))
        if isinstance(r, Undef) and isinstance(o, dict):
            k = I.dict_find(o, name)
            return r if k is UNBOUND else o[k]
        return r

    def e_Getitem(self, n, env):
        o = self.ev(n.node, env)
        if isinstance(n.arg, jn.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return self.I.getitem(o, Slice(f(n.arg.start), f(n.arg.stop), f(n.arg.step)))
        i = self.ev(n.arg, env)
        if isinstance(o, Undef):
            self.undefined_use(o)
        try:
            return self.I.getitem(o, i)
        except PyRaise as pr:
            if isinstance(i, str):
                return self.attr(o, i)
            if any(c.name in ("LookupError", "TypeError", "AttributeError") for c in pr.exc.cls.mro):
                return Undef(str(i))
            raise

    def args(self, n, env):
        a = [self.ev(x, env) for x in n.args]
        k = {x.key: self.ev(x.value, env) for x in n.kwargs}
        if getattr(n, "dyn_args", None) is not None:
            a += list(self.I.iterate(self.ev(n.dyn_args, env)))
        if getattr(n, "dyn_kwargs", None) is not None:
            k.update(self.ev(n.dyn_kwargs, env))
        return a, k

    def e_Call(self, n, env):
        f = self.ev(n.node, env)
        a, k = self.args(n, env)
        if isinstance(f, Undef):
            self.undefined_use(f)
        if isinstance(f, Macro):
            return self.macro(f, a, k)
        if isinstance(f, Loop):
            return f.call(a)
        if f.__class__.__name__ == "function":
            return f(*a)
        return self.I.call(f, a, k)

    def e_Filter(self, n, env):
        return self.filter_(n, self.ev(n.node, env), env)

    def filter_(self, n, v, env):
        a, k = self.args(n, env)
        return self.apply_filter(n.name, v, a, k)

    def apply_filter(self, name, v, a, k):
        fs = self.env.attrs["filters"]
        if name in fs:
            return self.I.call(fs[name], [v] + a, k)
        f = globals().get("f_" + name)
        if f is None:
            e = Obj(tmpl_error(self.I, "TemplateAssertionError"))
            e.attrs["args"] = ("No filter named " + name,)
            if name in jinja2.filters.FILTERS:
                raise Unsupported("jinja2 filter " + name)
            raise self.I.mk_raise(e)
        return f(self, v, a, k)

    def e_Test(self, n, env):
        v = self.ev(n.node, env)
        a, k = self.args(n, env)
        return self.apply_test(n.name, v, a, k)

    def apply_test(self, name, v, a, k):
        I = self.I
        ts = self.env.attrs["tests"]
        if name in ts:
            return I.truth(I.call(ts[name], [v] + a, k))
        if name == "defined":
            return not isinstance(v, Undef)
        if name == "undefined":
            return isinstance(v, Undef)
        if name == "none":
            return v is None
        if name in ("eq", "equalto", "=="):
            return I.truth(I.eq(v, a[0]))
        if name in ("ne", "!="):
            return not I.truth(I.eq(v, a[0]))
        if name in ("lt", "lessthan", "<"):
            return I.truth(I.lt(v, a[0]))
        if name in ("gt", "greaterthan", ">"):
            return I.truth(I.lt(a[0], v))
        if name in ("ge", ">="):
            return not I.truth(I.lt(v, a[0]))
        if name in ("le", "<="):
            return not I.truth(I.lt(a[0], v))
        if name == "in":
            return I.truth(I.contains(a[0], v))
        if name == "string":
            return isinstance(v, str) or isinstance(v, T) and v.ty == "str"
        if name == "true":
            return v is True
        if name == "false":
            return v is False
        if name == "number":
            return isinstance(v, (int, float)) or isinstance(v, T) and v.ty == "int"
        if name == "sequence":
            return isinstance(v, (list, tuple, str))
        if name == "mapping":
            return isinstance(v, dict)
        if name in ("even", "odd", "divisibleby"):
            d = a[0] if name == "divisibleby" else 2
            z = I.truth(I.eq(I.binop(ast.Mod(), v, d), 0))
            return z != (name == "odd")
        if name == "filter":
            return v in self.env.attrs["filters"] or "f_" + v in globals()
        raise Unsupported("jinja2 test " + name)

    def e_CondExpr(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.ev(n.expr1, env)
        return self.ev(n.expr2, env) if n.expr2 is not None else Undef("")

    def e_And(self, n, env):
        v = self.ev(n.left, env)
        return self.ev(n.right, env) if self.truth(v) else v

    def e_Or(self, n, env):
        v = self.ev(n.left, env)
        return v if self.truth(v) else self.ev(n.right, env)

    def e_Not(self, n, env):
        return not self.truth(self.ev(n.node, env))

    def e_Neg(self, n, env):
        return self.I.unop(ast.USub(), self.ev(n.node, env))

    def e_Pos(self, n, env):
        return self.ev(n.node, env)

    def e_Concat(self, n, env):
        return pyai.cat([self.text(self.ev(x, env)) for x in n.nodes])

    def e_Compare(self, n, env):
        left = self.ev(n.expr, env)
        I = self.I
        for o in n.ops:
            right = self.ev(o.expr, env)
            if isinstance(left, Undef) or isinstance(right, Undef):
                r = {"eq": isinstance(left, Undef) and isinstance(right, Undef),
                     "ne": not (isinstance(left, Undef) and isinstance(right, Undef))}.get(o.op)
                if r is None:
                    self.undefined_use(left if isinstance(left, Undef) else right)
            else:
                r = I.truth(I.compare({"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "gt": ast.Gt, "lteq": ast.LtE, "gteq": ast.GtE,
                                       "in": ast.In, "notin": ast.NotIn}[o.op](), left, right))
            if not r:
                return False
            left = right
        return True

    def bin(self, n, env, op):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        for x in (a, b):
            if isinstance(x, Undef):
                self.undefined_use(x)
        return self.I.binop(op, a, b)

    def e_Add(self, n, env):
        return self.bin(n, env, ast.Add())

    def e_Sub(self, n, env):
        return self.bin(n, env, ast.Sub())

    def e_Mul(self, n, env):
        return self.bin(n, env, ast.Mult())

    def e_Div(self, n, env):
        return self.bin(n, env, ast.Div())

    def e_FloorDiv(self, n, env):
        return self.bin(n, env, ast.FloorDiv())

    def e_Mod(self, n, env):
        return self.bin(n, env, ast.Mod())

    def e_Pow(self, n, env):
        return self.bin(n, env, ast.Pow())


class _LoopControl(Exception):
    def __init__(self, kind):
        self.kind = kind


def tmpl_error(I, name):
    """jinja2 exception class"""
    return I.host_exc(getattr(jinja2.exceptions, name))


# ------------------------------------------------------------------ jinja2's own filters
def _strf(name):
    def f(R, v, a, k):
        v = R.text(v)
        if isinstance(v, str):
            return getattr(v, name)(*a)
        return call_method(R.I, v, name, a, k)
    return f


f_upper, f_lower, f_title, f_capitalize, f_trim = _strf("upper"), _strf("lower"), _strf("title"), _strf("capitalize"), _strf("strip")


def f_replace(R, v, a, k):
    return call_method(R.I, R.text(v), "replace", a, k)


def f_indent(R, v, a, k):
    width = a[0] if a else k.get("width", 4)
    first = a[1] if len(a) > 1 else k.get("first", False)
    blank = a[2] if len(a) > 2 else k.get("blank", False)
    v = R.text(v)
    if not isinstance(v, str):
        raise Unsupported("indent of %r" % (v,))
    return str(jinja2.filters.do_indent(v, width, first, blank))


def f_join(R, v, a, k):
    sep = a[0] if a else k.get("d", "")
    attr = a[1] if len(a) > 1 else k.get("attribute")
    xs = list(R.I.iterate(v))
    if attr is not None:
        xs = [_path(R, x, attr) for x in xs]
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(R.text(x))
    return pyai.cat(out)


def _path(R, x, attr):
    for p in str(attr).split("."):
        x = R.I.getitem(x, int(p)) if p.isdigit() else R.attr(x, p)
    return x


def f_length(R, v, a, k):
    if isinstance(v, Undef):
        return 0
    return BUILTINS["len"].fn(R.I, [v], {})


f_count = f_length


def f_first(R, v, a, k):
    for x in R.I.iterate(v):
        return x
    return Undef("first")


def f_last(R, v, a, k):
    r = Undef("last")
    for x in R.I.iterate(v):
        r = x
    return r


def f_list(R, v, a, k):
    return list(R.I.iterate(v))


def f_map(R, v, a, k):
    xs = [] if isinstance(v, Undef) else list(R.I.iterate(v))
    if "attribute" in k:
        return [_path(R, x, k["attribute"]) for x in xs]
    return [R.apply_filter(a[0], x, list(a[1:]), k) for x in xs]


def _sel(keep, attr):
    def f(R, v, a, k):
        out = []
        for x in R.I.iterate(v):
            y = _path(R, x, a[0]) if attr else x
            b = a[1:] if attr else a
            t = R.apply_test(b[0], y, list(b[1:]), k) if b else R.truth(y)
            if t == keep:
                out.append(x)
        return out
    return f


f_select, f_reject, f_selectattr, f_rejectattr = _sel(True, False), _sel(False, False), _sel(True, True), _sel(False, True)


def f_default(R, v, a, k):
    if isinstance(v, Undef) or (len(a) > 1 and a[1] and not R.truth(v)):
        return a[0] if a else ""
    return v


f_d = f_default


def f_string(R, v, a, k):
    return R.text(v)


def f_int(R, v, a, k):
    return R.I.call_type(PT("int"), [v], {})


def f_reverse(R, v, a, k):
    return v[::-1] if isinstance(v, str) else list(R.I.iterate(v))[::-1]


def f_unique(R, v, a, k):
    out = []
    for x in R.I.iterate(v):
        if not any(R.I.truth(R.I.eq(x, y)) for y in out):
            out.append(x)
    return out


def f_sum(R, v, a, k):
    t = 0
    for x in R.I.iterate(v):
        t = R.I.binop(ast.Add(), t, _path(R, x, k["attribute"]) if "attribute" in k else x)
    return t


def f_format(R, v, a, k):
    return pyai.str_mod(R.I, v, tuple(a) if not k else dict(k))


def f_safe(R, v, a, k):
    return v


def f_abs(R, v, a, k):
    return BUILTINS["abs"].fn(R.I, [v], {})


def f_max(R, v, a, k):
    return BUILTINS["max"].fn(R.I, [v], {})


def f_min(R, v, a, k):
    return BUILTINS["min"].fn(R.I, [v], {})


def f_batch(R, v, a, k):
    xs = list(R.I.iterate(v))
    return [xs[i:i + a[0]] for i in range(0, len(xs), a[0])]


def f_sort(R, v, a, k):
    xs = list(R.I.iterate(v))
    if "attribute" in k:
        return sorted(xs, key=lambda x: _path(R, x, k["attribute"]))
    return sorted(xs)


def f_items(R, v, a, k):
    return [tuple(p) for p in v.items()]


def f_attr(R, v, a, k):
    return R.I.getattr(v, a[0], Undef(a[0]))


def f_wordwrap(R, v, a, k):
    raise Unsupported("wordwrap")


# ------------------------------------------------------------------ the library objects
def install(I, package_dirs):
    """models for `jinja2` and `jinja2.*`; package_dirs: package name -> directory"""
    env_cls = Cls("Environment", [I.object_cls], {})

    def loader(I, a, k):
        o = Obj(Cls("Loader", [I.object_cls], {}))
        pkg = a[0] if a else k.get("package_name")
        sub = a[1] if len(a) > 1 else k.get("package_path", "templates")
        base = package_dirs.get(pkg)
        if base is None:
            raise Unsupported("template package %r" % (pkg,))
        o.attrs["dirs"] = [os.path.join(base, sub)]
        return o

    def fsloader(I, a, k):
        o = Obj(Cls("Loader", [I.object_cls], {}))
        p = a[0] if a else k.get("searchpath")
        o.attrs["dirs"] = [p] if isinstance(p, str) else list(p)
        return o

    def environment(I, a, k):
        o = Obj(env_cls)
        o.attrs.update(filters=ODict(), tests=ODict(), globals=ODict(), __opts=dict(k), autoescape=k.get("autoescape", False))
        ld = k.get("loader")
        o.attrs["loader"] = ld
        o.attrs["__opts"].pop("loader", None)
        o.attrs["__dirs"] = ld.attrs["dirs"] if ld is not None else []
        return o

    def get_template(I, a, k):
        envo = a[0]
        ti = Obj(Cls("Template", [I.object_cls], {}))
        ti.attrs["name"] = a[1]
        R = Renderer(I, envo)
        R.template(a[1])

        def render(I, a2, k2):
            ctx = {}
            for d in a2:
                ctx.update(d)
            ctx.update(k2)
            return R.render(a[1], ctx)
        ti.attrs["render"] = Native("Template.render", render)
        return ti

    env_cls.ns["get_template"] = Native("get_template", get_template)
    env_cls.ns["add_extension"] = Native("add_extension", lambda I, a, k: a[0].attrs["__opts"].setdefault("extensions", []).append(a[1]))
    m = I.models
    m["jinja2.Environment"] = Native("Environment", environment)
    m["jinja2.PackageLoader"] = Native("PackageLoader", loader)
    m["jinja2.FileSystemLoader"] = Native("FileSystemLoader", fsloader)
    for base in ("jinja2", "jinja2.exceptions"):
        for n in ("TemplateRuntimeError", "UndefinedError", "TemplateError", "TemplateNotFound", "TemplateSyntaxError"):
            m[base + "." + n] = I.host_exc(getattr(jinja2.exceptions, n))
