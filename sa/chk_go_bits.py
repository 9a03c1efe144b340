"""O01: bit exactness of the Go field reader, decided on its SSA form in the bit-provenance domain."""
import os

from .report import Report, AnalysisBroken
from .chk_cpp_bits import as_bits, short, same_bits, want_read
from .dom import *
from .goai import *
from .llvm import Top
from .par import spread


class Memory:
    """descriptor of unknown content: byte base + k (k a small constant) consists of the inputs m.8k .. m.8k+7"""

    def __init__(self, M, base, n):
        self.base, self.n = base, n

    def m_At(self, M, i):
        k = lin_add(M.term(i), self.base, -1)
        if not is_int(k):
            # a position that is not known to be the one of the field: a violation where it may be another one
            if any(M.I.facts.decide(x) is not False for x in (le0(lin_add(1, k)), le0(lin_add(self.n, k, -1)))):
                M.fault("reads a byte outside of the field's surroundings of %d bytes" % self.n)
            raise Unsupp("byte at %r" % (i,))
        if not 0 <= k < self.n:
            M.fault("reads byte %d of a field's surroundings of %d bytes" % (k, self.n))
        return M.mk([bvar("m.%d" % (8 * int(k) + j)) for j in range(8)])

    def m_Len(self, M):
        n = sym("len")
        M.I.facts.assume(le0(lin_add(lin_add(self.base, self.n), n, -1)), True)
        M.I.facts.assume(le0(lin_add(n, -(1 << 50))), True)
        return n

    def m_ReadAt(self, M, b, off):
        k = lin_add(M.term(off), self.base, -1)
        if not is_int(k) or not isinstance(b, Slice):
            raise Unsupp("ReadAt %r" % (off,))
        if not 0 <= k or k + b.n > self.n:
            M.fault("reads bytes %d to %d of a field's surroundings of %d bytes" % (k, k + b.n, self.n))
        for i in range(b.n):
            b.cell.v[b.off + i] = M.mk([bvar("m.%d" % (8 * (int(k) + i) + j)) for j in range(8)])
        return (b.n, None)


def files():
    fs = sorted(os.path.join(GO, f) for f in os.listdir(GO) if f.endswith(".go") and not f.endswith("_test.go")) if os.path.isdir(GO) else []
    return [f for f in fs if "golang.org/x/" not in open(f).read()]


PAD = 8


def o01(pid):
    r = Report(pid, "Read(descriptor, offset, size, signed) is the unsigned or two's complement value of the bits [offset, offset+size)",
               "abstract interpretation of the SSA form of the Go package in a bit-provenance domain: all bit offsets modulo 8 at an unknown byte position x all "
               "widths x both signs, memory content symbolic")
    fs = files()
    pkg, err = ssa("flatdata", fs)
    if pkg is None:
        raise AnalysisBroken("flatdata-go does not compile: %s" % err)
    if not pkg.fns.get("flatdata.Read", {}).get("blocks"):
        raise AnalysisBroken("flatdata.Read not found in flatdata-go")

    def body(r, turn):
        n = 0
        for w in range(1, 65):
            for k in range(8):
                for sg in (False, True):
                    if turn():
                        n += 1
                        one(r, pkg, w, k, sg)
        return n
    n = sum(spread(r, body))
    r.floor("fields (offset x width x sign)", n, 1024)
    return r.finish()


def one(r, pkg, w, k, sg):
    site = "Read(offset 8*p+%d, size %d, signed %s)" % (k, w, str(sg).lower())

    def scen(M):
        p = sym("p")
        M.I.facts.assume(le0(lin_mul(p, -1)), True)
        M.I.facts.assume(le0(lin_add(p, -(1 << 40))), True)
        M.init_package("flatdata")
        return M.call("flatdata.Read", [Memory(M, p, (k + w + 7) // 8 + PAD), lin_add(lin_mul(p, 8), k), w, sg])
    try:
        outs = explore_go(pkg, scen)
    except Top as e:
        raise AnalysisBroken("%s: %s" % (site, e))
    for o in outs:
        if not r.ok("read-in-bounds", site, o.kind == "return", "%s %s" % (o.kind, short(o.value))):
            continue
        got, want = as_bits(o.value, 64), want_read(k, w, 64, sg)
        r.ok("read-exact", site, same_bits(o, got, want), "value is %s" % short(o.value))
