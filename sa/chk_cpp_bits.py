"""C01 / C02: bit exactness of the C++ field reader and writer.

For every basic type and every enumeration over it, every bit offset modulo 8 and every width, a probe function
instantiates flatdata::Reader / flatdata::Writer of the current headers; clang lowers the instantiation to LLVM IR and
the IR is interpreted in the bit-provenance domain (every memory bit and every bit of the value is an input)."""
import re

from .report import Report, AnalysisBroken, REPO
from .dom import *
from .llvm import *
from .par import spread

TYPES = [("bool", 1, False), ("int8_t", 8, True), ("uint8_t", 8, False), ("int16_t", 16, True), ("uint16_t", 16, False),
         ("int32_t", 32, True), ("uint32_t", 32, False), ("int64_t", 64, True), ("uint64_t", 64, False)]
HEAD = """
#include <flatdata/internal/Reader.h>
#include <flatdata/internal/Writer.h>
#include <cstdint>
"""


def combos():
    """(name, C++ type, native width, signed, bit offset in struct, width, struct size)"""
    out = []
    for t, n, sg in TYPES:
        for enum in (False, True):
            for w in range(1, n + 1):
                for k in range(8):
                    byte = (3 * w + 5 * k + n) % 4 if w % 3 else (w + k) % 2
                    off = 8 * byte + k
                    size = (off + w + 7) // 8
                    name = "%s%s_%d_%d" % ("E" if enum else "", t, w, k)
                    out.append((name, ("E_" if enum else "") + t, n, sg, off, w, size, enum))
    return out


def enums():
    return "".join("enum class E_%s : %s { A = 0, B = 1 };\n" % (t, t) for t, _, _ in TYPES)


def probe(cs, what):
    out = [HEAD, enums()]
    for name, t, n, sg, off, w, size, enum in cs:
        a = (t, off, w, size)
        if what == "r":
            out.append('extern "C" %s rd_%s( const unsigned char* d ) { return flatdata::Reader< %s, %d, %d, %d >{ d }; }\n' % ((t, name) + a))
        elif what == "rw":
            # the reading side of the mutable accessor
            out.append('extern "C" %s rd_%s( unsigned char* d ) { return flatdata::Writer< %s, %d, %d, %d >{ d }; }\n' % ((t, name) + a))
        elif what == "as":
            u = ("int64_t" if sg else "uint64_t")
            out.append('extern "C" %s rd_%s( const unsigned char* d ) { return flatdata::Reader< %s, %d, %d, %d >{ d }.as< %s >( ); }\n' % ((u, name) + a + (u,)))
        else:
            out.append('extern "C" void wr_%s( unsigned char* d, %s v ) { flatdata::Writer< %s, %d, %d, %d > x{ d }; x = v; }\n' % ((name, t) + a))
    return "".join(out)


PAD = 8


def buffer(M, size):
    o = M.alloc("data", size)
    o.content = lambda off: BV([bvar("m.%d" % (8 * off + i)) for i in range(8)])
    return o


def want_read(off, w, n, sg):
    bits = [bvar("m.%d" % (off + i)) for i in range(w)]
    return [bits[i] if i < w else (bits[-1] if sg else B0) for i in range(n)]


def as_bits(v, n):
    if isinstance(v, (bool, int)):
        return [bconst((int(v) >> i) & 1) for i in range(n)]
    if isinstance(v, Bf):
        return [v] + [B0] * (n - 1)
    if isinstance(v, BV):
        return [v.bit(i) for i in range(n)]
    return None


def short(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + "..."


def load(cs, what, flags, r):
    """module of the probes; an instantiation that does not compile is a violation of its own"""
    cs = list(cs)
    for _ in range(3):
        text = probe(cs, what)
        rc, ir, err = compile_cpp(text, REPO, tuple(flags) + ("-ferror-limit=0",))
        if not rc:
            return Module(ir), cs
        first = text[:text.index('extern "C"')].count("\n") + 1
        bad = {int(x) - first for x in re.findall(r"^<stdin>:(\d+):", err, re.M)}
        bad = {i for i in bad if 0 <= i < len(cs)}
        errors = [l for l in err.splitlines() if "error:" in l]
        if not bad or len(bad) == len(cs):
            raise AnalysisBroken("Reader.h/Writer.h do not compile: %s" % (errors[0] if errors else err[-300:]))
        for i in sorted(bad):
            r.ok("compiles", "%s<%s, offset %d, width %d>" % ("Writer" if what in ("w", "rw") else "Reader", cs[i][1], cs[i][4], cs[i][5]),
                 False, errors[0][-200:])
        cs = [c for i, c in enumerate(cs) if i not in bad]
    raise AnalysisBroken("probes of Reader.h/Writer.h do not compile")


def check_read(r, mod, c, kind):
    name, t, n, sg, off, w, size, enum = c
    site = "Reader<%s, offset %d, width %d>%s" % (t, off, w, {"r": "", "rw": " (through Writer)", "as": "::as"}[kind])
    if kind == "as":
        n = 64
    key = "one-bit signed field" if (w == 1 and sg) else "%s %s %d+%d" % (kind, t, off % 8, w)

    def scen(M):
        return M.call("rd_" + name, [P(buffer(M, size + PAD), 0)])
    try:
        outs = explore_ir(mod, scen)
    except Top as e:
        raise AnalysisBroken("%s: %s" % (site, e))
    for o in outs:
        if not r.ok("read-in-bounds", site, o.kind == "return", "%s %s" % (o.kind, short(o.value)), key="read-in-bounds|" + key):
            continue
        got, want = as_bits(o.value, n), want_read(off, w, n, sg)
        r.ok("read-exact", site, same_bits(o, got, want), "value is %s" % short(o.value), key="read-exact|" + key)


def same_bit(o, a, b):
    """a == b where the path of o is taken"""
    if a == b:
        return True
    I = o.m.I
    try:
        return I.pc.and_(a.subst(I.env).xor(b.subst(I.env))) == B0
    except Top:
        raise AnalysisBroken("the conditions of a path are too large to compare bits under them")


def same_bits(o, a, b):
    return a is not None and len(a) == len(b) and all(same_bit(o, x, y) for x, y in zip(a, b))


def check_write(r, mod, c):
    name, t, n, sg, off, w, size, enum = c
    site = "Writer<%s, offset %d, width %d>" % (t, off, w)
    key = "%s %d+%d" % (t, off % 8, w)
    vb = [bvar("v.%d" % i) for i in range(w)]

    def scen(M):
        b = buffer(M, size + PAD)
        full = [vb[i] if i < w else (vb[-1] if sg else B0) for i in range(n)]
        M.call("wr_" + name, [P(b, 0), vb[0] if n == 1 else BV(full)])
        return [M.load_byte(b, i) for i in range(size + PAD)]
    try:
        outs = explore_ir(mod, scen)
    except Top as e:
        raise AnalysisBroken("%s: %s" % (site, e))
    for o in outs:
        if not r.ok("write-in-bounds", site, o.kind == "return", "%s %s" % (o.kind, short(o.value)), key="write-in-bounds|" + key):
            continue
        bad = []
        for i, v in enumerate(o.value):
            got = as_bits(v, 8)
            for j in range(8):
                p = 8 * i + j
                exp = vb[p - off] if off <= p < off + w else bvar("m.%d" % p)
                if got is None or not same_bit(o, got[j], exp):
                    bad.append("bit %d becomes %s" % (p - off, "?" if got is None else short(got[j])))
        inside = [x for x in bad if 0 <= int(x.split()[1]) < w]
        outside = [x for x in bad if x not in inside]
        r.ok("write-exact", site, not inside, "bit counted from the field's first: " + "; ".join(inside[:3]), key="write-exact|" + key)
        r.ok("write-neighbours", site, not outside, "bit counted from the field's first: " + "; ".join(outside[:3]), key="write-neighbours|" + key)


FLAGS = ("-O1", "-DNDEBUG")


def c01(pid):
    r = Report(pid, "Reader<T, offset, width> (and the reading side of Writer, and as<U>) yields the bits [offset, offset+width) sign/zero "
                    "extended, loads only bytes of the struct and of 8 padding bytes",
               "abstract interpretation of the LLVM IR of flatdata/internal/Reader.h in a bit-provenance domain: every basic type and "
               "enumeration over it x all 8 bit offsets x all widths, memory content symbolic")
    cs = combos()

    def body(r, turn):
        mine = [c for i, c in enumerate(cs) if i % turn.n == turn.k]
        for kind, sel in (("r", mine), ("rw", mine[::3]), ("as", mine[::3])):
            mod, sel = load(sel, kind, FLAGS, r)
            for c in sel:
                check_read(r, mod, c, kind)
        return len(mine)
    n = sum(spread(r, body))
    r.floor("reader instantiations (type x offset x width)", n, 3800)
    return r.finish()


def c02(pid):
    r = Report(pid, "Writer<T, offset, width> = v for a fitting v makes the bits [offset, offset+width) the bits of v and leaves all others",
               "abstract interpretation of the LLVM IR of flatdata/internal/Writer.h in a bit-provenance domain: every basic type and "
               "enumeration over it x all 8 bit offsets x all widths, memory content and value symbolic")
    cs = combos()

    def body(r, turn):
        mine = [c for i, c in enumerate(cs) if i % turn.n == turn.k]
        mod, mine = load(mine, "w", FLAGS, r)
        for c in mine:
            check_write(r, mod, c)
        return len(mine)
    n = sum(spread(r, body))
    r.floor("writer instantiations (type x offset x width)", n, 3800)
    return r.finish()
