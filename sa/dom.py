"""Abstract domains.

 * T    - hash-consed Herbrand terms (value numbering): uninterpreted values
 * Lin  - affine integer forms  c0 + sum ci*ti  over integer terms (kept as T('lin', ...))
 * Facts- conjunctions of affine inequalities and truth facts about terms.  Entailment is decided
          by Fourier-Motzkin projection over the rationals (the emptiness test of the polyhedra domain)
 * BV   - two's complement integers as vectors of Boolean functions in algebraic normal form
          over input bits (bit-provenance domain), with sign extension beyond the top bit
"""
from math import gcd


class Top(Exception):
    """The domain cannot represent the result (analysis gives up on this path)."""


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "args", "ty", "_h", "_r")
    _cons = {}

    def __new__(cls, op, args=(), ty="any"):
        key = (op, tuple(_key(a) for a in args), ty)
        t = cls._cons.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.ty = op, tuple(args), ty
            t._h = hash(key)
            t._r = None
            cls._cons[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        if self._r is None:
            self._r = self._text()
        return self._r

    def _text(self):
        if self.op == "sym":
            return str(self.args[0])
        if self.op == "lin":
            c, m = self.args
            s = " + ".join(("%s*%r" % (k, a) if k != 1 else repr(a)) for a, k in m)
            return "(%s%s)" % (s, " + %d" % c if c else "")
        return "%s(%s)" % (self.op, ", ".join(repr(a) for a in self.args))


def _key(a):
    if isinstance(a, (bool, int, float, str, bytes)):
        return (type(a).__name__, a)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, (T, BV, Bf)):
        return a
    if isinstance(a, list):
        return ("list", tuple(_key(x) for x in a))
    if isinstance(a, dict):
        return ("dict", tuple((_key(k), _key(v)) for k, v in a.items()))
    return ("id", id(a)) if a is not None else None


def sym(name, ty="int"):
    return T("sym", (name,), ty)


def walk(t):
    yield t
    if isinstance(t, T):
        for a in t.args:
            yield from walk(a)
    elif isinstance(t, (tuple, list)):
        for a in t:
            yield from walk(a)


# ------------------------------------------------------------------ affine forms
def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def as_lin(v):
    """-> (const, {atom: coef})"""
    if isinstance(v, bool):
        return int(v), {}
    if isinstance(v, int):
        return v, {}
    if isinstance(v, T):
        if v.op == "lin":
            return v.args[0], dict(v.args[1])
        return 0, {v: 1}
    raise Top("not an integer: %r" % (v,))


def mk_lin(c, m):
    m = {a: k for a, k in m.items() if k != 0}
    if not m:
        return c
    if c == 0 and len(m) == 1:
        (a, k), = m.items()
        if k == 1:
            return a
    items = tuple(sorted(m.items(), key=lambda x: repr(x[0])))
    return T("lin", (c, items), "int")


def lin_add(a, b, kb=1):
    ca, ma = as_lin(a)
    cb, mb = as_lin(b)
    m = dict(ma)
    for x, k in mb.items():
        m[x] = m.get(x, 0) + k * kb
    return mk_lin(ca + kb * cb, m)


def lin_mul(a, b):
    ca, ma = as_lin(a)
    cb, mb = as_lin(b)
    if not ma:
        return mk_lin(ca * cb, {x: k * ca for x, k in mb.items()})
    if not mb:
        return mk_lin(ca * cb, {x: k * cb for x, k in ma.items()})
    return T("mul", tuple(sorted([a, b], key=repr)), "int")


def lin_floordiv(a, b):
    ca, ma = as_lin(a)
    if not is_int(b):
        return T("floordiv", (a, b), "int")
    if b == 1:
        return a
    if b > 0 and isinstance(a, T) and a.op == "floordiv" and is_int(a.args[1]) and a.args[1] > 0:
        return lin_floordiv(a.args[0], a.args[1] * b)
    if all(k % b == 0 for k in ma.values()):
        return mk_lin(ca // b, {x: k // b for x, k in ma.items()})
    # pull out the divisible part
    q = {x: k // b for x, k in ma.items() if k % b == 0}
    r = {x: k for x, k in ma.items() if k % b != 0}
    return lin_add(mk_lin(ca // b, q), T("floordiv", (mk_lin(ca % b, r), b), "int"))


def lin_mod(a, b):
    ca, ma = as_lin(a)
    if not is_int(b):
        return T("mod", (a, b), "int")
    r = {x: k for x, k in ma.items() if k % b != 0}
    if not r:
        return ca % b
    return T("mod", (mk_lin(ca % b, r), b), "int")


def only_bool(m):
    """the boolean whose 0/1 value is the only unknown of an affine form"""
    if len(m) == 1:
        a, = m
        if isinstance(a, T) and a.op == "boolint":
            return a
    return None


def by_cases(b, f, t):
    """condition that is f if the boolean is false and t if it is true"""
    return f if f == t else b.args[0] if t else b_not(b.args[0])


def first_bool(t):
    """a 0/1 atom inside of a term"""
    if isinstance(t, T):
        if t.op == "boolint":
            return t
        for a in t.args:
            b = first_bool(a)
            if b is not None:
                return b
    elif isinstance(t, tuple):
        for a in t:
            b = first_bool(a)
            if b is not None:
                return b
    return None


def with_bool(t, b, v):
    """the term t with the atom b replaced by its value"""
    if t is b or t == b:
        return v
    if not isinstance(t, T) or first_bool(t) is None:
        return t
    if t.op == "lin":
        out = t.args[0]
        for a, k in t.args[1]:
            out = lin_add(out, with_bool(a, b, v), k)
        return out
    if t.op in ("floordiv", "mod", "mul"):
        x, y = (with_bool(a, b, v) for a in t.args)
        return (lin_floordiv if t.op == "floordiv" else lin_mod if t.op == "mod" else lin_mul)(x, y)
    if t.op == "le0":
        return le0(with_bool(t.args[0], b, v))
    if t.op == "eq0":
        return eq_int(with_bool(t.args[0], b, v), 0)
    if t.op == "not":
        return b_not(with_bool(t.args[0], b, v))
    if t.op == "boolint":
        x = with_bool(t.args[0], b, v)
        return int(x) if isinstance(x, bool) else T("boolint", (x,), "int")
    raise Top("truth value inside of %s" % t.op)


def le0(a):
    """boolean term  a <= 0"""
    c, m = as_lin(a)
    if not m:
        return c <= 0
    b = only_bool(m)
    if b is not None:
        return by_cases(b, c <= 0, c + m[b] <= 0)
    # integer tightening: divide by gcd
    g = 0
    for k in m.values():
        g = gcd(g, abs(k))
    if g > 1:
        m = {x: k // g for x, k in m.items()}
        c = -((-c) // g)  # ceil(c/g)
    return T("le0", (mk_lin(c, m),), "bool")


def eq_int(a, b):
    d = lin_add(a, b, -1)
    c, m = as_lin(d)
    if not m:
        return c == 0
    b = only_bool(m)
    if b is not None:
        return by_cases(b, c == 0, c + m[b] == 0)
    lead = sorted(m.items(), key=lambda x: repr(x[0]))[0][1]
    if lead < 0:
        d = lin_mul(d, -1)
    return T("eq0", (d,), "bool")


def b_not(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, Bf):
        return x.inv()
    if x.op == "not":
        return x.args[0]
    if x.op == "le0":
        return le0(lin_add(1, x.args[0], -1))
    return T("not", (x,), "bool")


class Facts:
    def __init__(self):
        self.truth = {}
        self.cons = []  # list of (const, {atom:coef}) meaning <= 0
        self.neq = []   # terms known to be != 0
        self.hopeless = False   # no integers satisfy the facts

    def add_le(self, a):
        c, m = as_lin(a)
        self.cons.append((c, m))
        if len(m) > 1 and not self.hopeless and self.no_multiple(c, m):
            self.hopeless = True

    def no_multiple(self, c, m):
        """c + m <= 0 and a former d - m <= 0, with a modulus of most coefficients that has no multiple where the rest of m leaves room for one"""
        neg = {a: -k for a, k in m.items()}
        lows = [d for d, e in self.cons if e == neg]
        if not lows:
            return False
        for g in sorted({abs(k) for k in m.values() if abs(k) > 1}):
            rest = {a: k for a, k in m.items() if k % g}
            if len(rest) == len(m) or len(rest) > 8:
                continue
            top, low = self.upper(0, rest), self.upper(0, {a: -k for a, k in rest.items()})
            if top is None or low is None:
                continue
            lo, hi = max(lows) - top, -c + low       # the multiple of g is in between
            if hi // g * g < lo:
                return True
        return False

    def _atom_axioms(self, atoms):
        out = []
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a in seen or not isinstance(a, T):
                continue
            seen.add(a)
            if a.op == "len" or a.op == "strlen" or a.op == "nonneg":
                out.append((0, {a: -1}))
            if a.op == "floordiv" and is_int(a.args[1]) and a.args[1] > 0:
                c, m = as_lin(a.args[0])
                k = a.args[1]
                # k*q <= e <= k*q + k-1
                m1 = {x: -v for x, v in m.items()}
                m1[a] = m1.get(a, 0) + k
                out.append((-c, m1))
                m2 = dict(m)
                m2[a] = m2.get(a, 0) - k
                out.append((c - k + 1, m2))
                todo.extend(m)
            if a.op == "mod" and is_int(a.args[1]) and a.args[1] > 0:
                out.append((0, {a: -1}))
                out.append((-a.args[1] + 1, {a: 1}))
            if a.op == "pow2":
                out.append((1, {a: -1}))
            if a.op == "read":
                out.append((0, {a: -1}))
                out.append((1 - (1 << a.args[2]), {a: 1}))
        reads = [a for a in seen if isinstance(a, T) and a.op == "read"]
        for a in reads:
            for b in reads:
                # b is a without its k lowest bits
                if a is not b and a.args[0] == b.args[0]:
                    k = a.args[2] - b.args[2]
                    if k > 0 and lin_add(b.args[1], a.args[1], -1) == k:
                        out.append((0, {b: 1 << k, a: -1}))
                        out.append((1 - (1 << k), {a: 1, b: -(1 << k)}))
        return out

    def unsat_with(self, extra):
        cons = list(self.cons) + extra
        atoms = set()
        for c, m in cons:
            atoms.update(m)
        for c, m in self._atom_axioms(atoms):
            cons.append((c, m))
        if len(cons) > 60:
            return fm_unsat(connected(cons, extra))
        return fm_unsat(cons)

    def upper(self, c, m):
        """bound of c + sum k*x from the bounds of each x alone, or None"""
        b = {}
        for d, e in self.cons:
            if len(e) == 1:
                (a, k), = e.items()
                if a in m and (k > 0) == (m[a] > 0):
                    v = -d // k if k > 0 else -(d // k)      # x <= v, or x >= v
                    b[a] = v if a not in b else min(b[a], v) if k > 0 else max(b[a], v)
        if len(b) < len(m):
            return None
        return c + sum(k * b[a] for a, k in m.items())

    def implies_le(self, a):
        """facts |- a <= 0 (over integers, negation a >= 1)"""
        c, m = as_lin(a)
        if not m:
            return c <= 0
        g = 0
        for k in m.values():
            g = gcd(g, abs(k))
        if g > 1:
            m = {x: k // g for x, k in m.items()}
            c = -((-c) // g)
        u = self.upper(c, m)
        if u is not None and u <= 0:
            return True
        return self.unsat_with([(1 - c, {x: -k for x, k in m.items()})])

    def decide(self, t):
        """True/False/None"""
        if isinstance(t, bool):
            return t
        if t in self.truth:
            return self.truth[t]
        if t.op == "not":
            r = self.decide(t.args[0])
            return None if r is None else not r
        if t.op == "le0":
            if self.implies_le(t.args[0]):
                return True
            if self.implies_le(lin_add(1, t.args[0], -1)):
                return False
            return None
        if t.op == "eq0":
            d = t.args[0]
            lo = self.implies_le(d)
            hi = self.implies_le(lin_mul(d, -1))
            if lo and hi:
                return True
            if self.implies_le(lin_add(d, 1)) or self.implies_le(lin_add(lin_mul(d, -1), 1)):
                return False
            return None
        return None

    def assume(self, t, val):
        if isinstance(t, bool):
            return t == val
        if t.op == "not":
            return self.assume(t.args[0], not val)
        self.truth[t] = val
        if t.op == "le0":
            self.add_le(t.args[0] if val else lin_add(1, t.args[0], -1))
        elif t.op == "eq0":
            if val:
                self.add_le(t.args[0])
                self.add_le(lin_mul(t.args[0], -1))
            else:
                self.neq.append(t.args[0])
        if self.neq and t.op in ("le0", "eq0"):
            self._tighten(set(as_lin(t.args[0])[1]))
        return True

    def _tighten(self, atoms):
        """d != 0 together with d <= 0 is d <= -1 (integers)"""
        again = True
        while again:
            again = False
            for d in list(self.neq):
                if atoms.isdisjoint(as_lin(d)[1]):
                    continue
                lo, hi = self.implies_le(d), self.implies_le(lin_mul(d, -1))
                if lo or hi:
                    self.neq.remove(d)
                    again = True
                    if lo:
                        self.add_le(lin_add(d, 1))
                    if hi:
                        self.add_le(lin_add(lin_mul(d, -1), 1))


def connected(cons, extra):
    """the constraints that share variables with the extra ones, over any number of steps"""
    by = {}
    for e in cons:
        for a in e[1]:
            by.setdefault(a, []).append(e)
    out, seen, todo = [], set(), [a for _, m in extra for a in m]
    taken = set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        for e in by.get(a, ()):
            if id(e) not in taken:
                taken.add(id(e))
                out.append(e)
                todo.extend(e[1])
    return out + [e for e in cons if not e[1]]


def _tight(c, m):
    """divide an integer constraint by the gcd of its coefficients, rounding the constant (integer tightening)"""
    g = 0
    for k in m.values():
        g = gcd(g, k)
        if g == 1:
            return c, m
    return -((-c) // g), {x: k // g for x, k in m.items()}


def fm_unsat(cons, limit=4000):
    """Fourier-Motzkin: are the integer constraints  c + sum k*x <= 0  unsatisfiable?  (sound, incomplete)"""
    work = []
    for c, m in cons:
        m = {a: k for a, k in m.items() if k != 0}
        if not m:
            if c > 0:
                return True
            continue
        work.append(_tight(c, m))
    while work:
        occ = {}
        for c, m in work:
            for a, k in m.items():
                p = occ.get(a)
                if p is None:
                    p = occ[a] = [0, 0]
                p[0 if k > 0 else 1] += 1
        v = min(occ, key=lambda a: occ[a][0] * occ[a][1])
        pos, neg, rest = [], [], []
        for e in work:
            k = e[1].get(v, 0)
            (pos if k > 0 else neg if k < 0 else rest).append(e)
        seen = {}
        for cp, mp in pos:
            a = mp[v]
            for cn, mn in neg:
                b = -mn[v]
                c = cp * b + cn * a
                m = {x: k * b for x, k in mp.items()}
                for x, k in mn.items():
                    k = m.get(x, 0) + k * a
                    if k:
                        m[x] = k
                    else:
                        m.pop(x, None)
                if not m:
                    if c > 0:
                        return True
                    continue
                c, m = _tight(c, m)
                key = frozenset(m.items())
                if key not in seen or seen[key] < c:
                    seen[key] = c
        for key, c in seen.items():
            rest.append((c, dict(key)))
        work = rest
        if len(work) > limit:
            return False
    return False


# ------------------------------------------------------------------ Boolean functions (ANF) and bit vectors
ANF_LIMIT = 512


class Bf:
    """Boolean function as XOR of monomials (algebraic normal form); canonical."""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Bf) and self.m == o.m

    def __hash__(self):
        return hash(self.m)

    def const(self):
        if not self.m:
            return 0
        if self.m == _ONE:
            return 1
        return None

    def xor(self, o):
        return Bf(self.m ^ o.m)

    def inv(self):
        return Bf(self.m ^ _ONE)

    def and_(self, o):
        if not self.m or not o.m:
            return B0
        if self.m == _ONE:
            return o
        if o.m == _ONE:
            return self
        if self.m == o.m:
            return self
        if len(self.m) * len(o.m) > ANF_LIMIT:
            raise Top("Boolean function too large")
        r = set()
        for a in self.m:
            for b in o.m:
                r ^= {a | b}
        return Bf(frozenset(r))

    def or_(self, o):
        return self.xor(o).xor(self.and_(o))

    def subst(self, env):
        if not any(v in env for mono in self.m for v in mono):
            return self
        r = B0
        for mono in self.m:
            t = B1
            for v in mono:
                t = t.and_(env[v] if v in env else Bf(frozenset([frozenset([v])])))
            r = r.xor(t)
        return r

    def vars(self):
        return {v for mono in self.m for v in mono}

    def __repr__(self):
        if not self.m:
            return "0"
        return "^".join(sorted("*".join(sorted(map(str, mono))) or "1" for mono in self.m))


_ONE = frozenset([frozenset()])
B0 = Bf(frozenset())
B1 = Bf(_ONE)


def bvar(name):
    return Bf(frozenset([frozenset([name])]))


def bconst(x):
    return B1 if x else B0


def mux(c, a, b):
    """c ? a : b"""
    return c.and_(a).xor(c.inv().and_(b))


class BV:
    """Integer with bits[i] for i < len(bits) and `ext` for all higher bits."""
    __slots__ = ("bits", "ext")

    def __init__(self, bits, ext=B0):
        bits = list(bits)
        while bits and bits[-1] == ext:
            bits.pop()
        self.bits, self.ext = tuple(bits), ext

    def __eq__(self, o):
        return isinstance(o, BV) and self.bits == o.bits and self.ext == o.ext

    def __hash__(self):
        return hash((self.bits, self.ext))

    def bit(self, i):
        return self.bits[i] if i < len(self.bits) else self.ext

    def __repr__(self):
        return "BV[%s|%r]" % (",".join(repr(b) for b in reversed(self.bits)), self.ext)

    @staticmethod
    def of(v):
        if isinstance(v, BV):
            return v
        if isinstance(v, Bf):
            return BV([v])
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            n = v.bit_length() if v >= 0 else (-v - 1).bit_length()
            return BV([bconst((v >> i) & 1) for i in range(n)], bconst(v < 0))
        raise Top("not a bit vector: %r" % (v,))

    def simplify(self):
        """-> python int if constant"""
        v = 0
        for i, b in enumerate(self.bits):
            c = b.const()
            if c is None:
                return self
            v |= c << i
        e = self.ext.const()
        if e is None:
            return self
        return v - ((1 << len(self.bits)) if e else 0)

    def subst(self, env):
        return BV([b.subst(env) for b in self.bits], self.ext.subst(env))

    def const(self):
        s = self.simplify()
        return s if isinstance(s, int) else None


def bv_bitwise(a, b, f):
    a, b = BV.of(a), BV.of(b)
    n = max(len(a.bits), len(b.bits))
    return BV([f(a.bit(i), b.bit(i)) for i in range(n)], f(a.ext, b.ext)).simplify()


def bv_and(a, b):
    return bv_bitwise(a, b, Bf.and_)


def bv_or(a, b):
    return bv_bitwise(a, b, Bf.or_)


def bv_xor(a, b):
    return bv_bitwise(a, b, Bf.xor)


def bv_not(a):
    a = BV.of(a)
    return BV([x.inv() for x in a.bits], a.ext.inv()).simplify()


def bv_shl(a, n):
    a = BV.of(a)
    if not is_int(n):
        raise Top("shift by unknown amount")
    if n < 0:
        raise Top("negative shift")
    return BV([B0] * n + list(a.bits), a.ext).simplify()


def bv_shr(a, n):
    a = BV.of(a)
    if not is_int(n):
        raise Top("shift by unknown amount")
    return BV(a.bits[n:], a.ext).simplify()


def bv_add(a, b, carry=B0):
    a, b = BV.of(a), BV.of(b)
    n = max(len(a.bits), len(b.bits)) + 1
    out = []
    c = carry
    for i in range(n + 1):
        x, y = a.bit(i), b.bit(i)
        out.append(x.xor(y).xor(c))
        c = x.and_(y).xor(c.and_(x.xor(y)))
    # position n+1 and above: both operands are in their extension -> sum is sign-correct at index n
    return BV(out[:n], out[n]).simplify()


def bv_neg(a):
    return bv_add(bv_not(a), 0, B1)


def bv_sub(a, b):
    return bv_add(a, bv_not(b), B1)


def bv_eq(a, b):
    a, b = BV.of(a), BV.of(b)
    n = max(len(a.bits), len(b.bits))
    r = a.ext.xor(b.ext).inv()
    # bit by bit; only small functions survive
    for i in range(n):
        r = r.and_(a.bit(i).xor(b.bit(i)).inv())
    return r


def bv_lt0(a):
    return BV.of(a).ext


def bv_lt(a, b):
    return bv_lt0(bv_sub(a, b))


def bf_simpl(f):
    c = f.const()
    return f if c is None else bool(c)


def bv_sym(name, width, signed=False):
    bits = [bvar("%s.%d" % (name, i)) for i in range(width)]
    return BV(bits, bits[-1] if signed and bits else B0)
