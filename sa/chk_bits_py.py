"""P01 / P02: bit exactness of the Python field reader and writer.

The public access paths (a Structure attribute, as_dict/as_tuple/as_list/iteration; the builder's field
writer) are interpreted in the bit-provenance domain: every byte of the buffer is a vector of 8 input
bits, the struct position is an unknown affine byte address B >= 0, and all (offset mod 8) x width x
signedness combinations are enumerated (offset = 8*J + k with J unknown).
"""
from .pylib import *
from .report import Report

SUBJECT_R = """
from flatdata.lib.structure import Structure, FieldSignature
class S(Structure):
    _SCHEMA = ""
    _NAME = "S"
    _FIELDS = {
        "f": FieldSignature(offset=OFF, width=W, is_signed=SG, dtype="x"),
    }
    _FIELD_KEYS = {"f"}
"""


def expected(mem, base_byte, k, w, signed):
    bits = []
    for i in range(w):
        q, b = divmod(k + i, 8)
        bits.append(bvar((mem, lin_add(base_byte, q), b)))
    return BV(bits, bits[-1] if signed else B0)


ACCESS = {
    "attribute": lambda I, s: I.getattr(s, "f"),
    "as_dict": lambda I, s: I.getitem(I.call(I.getattr(s, "as_dict"), [], {}), "f"),
    "as_list": lambda I, s: I.getitem(I.call(I.getattr(s, "as_list"), [], {}), 0),
    "as_tuple": lambda I, s: I.getitem(I.call(I.getattr(s, "as_tuple"), [], {}), 0),
    "iteration": lambda I, s: list(I.iterate(s))[0],
}


def p01(pid):
    r = Report(pid, "Structure field access yields the bits [offset, offset+width) sign/zero-extended and reads only "
                    "bytes of the struct plus 8 padding bytes",
               "abstract interpretation of flatdata.lib.structure/data_access in a bit-provenance domain: all 8 bit "
               "offsets x 64 widths x signedness, struct position and byte offset symbolic, buffer content symbolic")
    prog = program()
    cases = 0
    for w in range(1, 65):
        for k in range(8):
            for signed in (False, True):
                names = list(ACCESS) if (w in (1, 7, 64) and k in (0, 3)) else ["attribute"]
                for acc in names:
                    cases += 1
                    one_read(prog, r, w, k, signed, acc)
    r.floor("field layouts x access paths", cases, 1024)
    source_info(prog, r)
    return r.finish()


def one_read(prog, r, w, k, signed, acc):
    B, J, S, L = sym("B"), sym("J"), sym("S"), sym("L")

    def scen(I):
        # 0 <= B, 0 <= J, 8J+k+w <= 8S, B+S+8 <= L
        I.facts.add_le(lin_mul(B, -1))
        I.facts.add_le(lin_mul(J, -1))
        I.facts.add_le(lin_add(lin_add(lin_mul(J, 8), k + w), lin_mul(S, 8), -1))
        I.facts.add_le(lin_add(lin_add(lin_add(B, S), 8), L, -1))
        mem = Mem("buf", L)
        m = Module("subject", None)
        m.ns.update(__name__="subject", OFF=lin_add(lin_mul(J, 8), k), W=w, SG=signed)
        sc = Scope("module", None, m)
        sc.vars = m.ns
        I.exec_body(ast.parse(SUBJECT_R).body, sc)
        s = I.call(m.ns["S"], [mem, B], {})
        return ACCESS[acc](I, s), mem
    outs = run(prog, scen)
    site = "Structure.%s k=%d w=%d %s" % (acc, k, w, "signed" if signed else "unsigned")
    fkey = "read %s" % ("one-bit signed field" if w == 1 and signed else site)
    want = expected("buf", lin_add(B, J), k, w, signed)
    for o in outs:
        if o.kind == "cut":
            continue
        if o.kind != "return":
            r.ok("read-total", site, False, o.describe(), key="read-total|" + fkey)
            continue
        v, mem = o.value
        if isinstance(v, (bool,)):
            v = int(v)
        good = isinstance(v, (int, BV, Bf)) and o.I.bits_eq(v, want)
        r.ok("read-exact", site, good, "value is %s" % short(v), key="read-exact|" + fkey)
        # bounds: every byte read lies in [B, B+S+8)
        for lo, hi in mem.reads:
            inb = o.facts.implies_le(lin_add(B, lo, -1)) and \
                o.facts.implies_le(lin_add(hi, lin_add(lin_add(B, S), 8), -1))
            r.ok("read-in-bounds", site, inb, "reads bytes [%r, %r)" % (lo, hi), key="read-in-bounds|" + fkey)


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def p02(pid):
    r = Report(pid, "write_value stores exactly the bits [offset, offset+width), leaves all other bits as they were and "
                    "writes only bytes containing these bits",
               "abstract interpretation of flatdata.lib.data_access.write_value in a bit-provenance domain: all 8 bit "
               "offsets x 64 widths x signedness, byte offset symbolic, previous buffer content and value symbolic")
    prog = program()
    cases = 0
    for w in range(1, 65):
        for k in range(8):
            for signed in (False, True):
                cases += 1
                one_write(prog, r, w, k, signed)
    r.floor("field layouts", cases, 1024)
    source_info(prog, r)
    return r.finish()


def one_write(prog, r, w, k, signed):
    B, L = sym("B"), sym("L")

    def scen(I):
        I.facts.add_le(lin_mul(B, -1))
        # the buffer holds all bytes of the field, nothing more is guaranteed
        I.facts.add_le(lin_add(lin_add(B, (k + w + 7) // 8), L, -1))
        mem = Mem("buf", L)
        mod = I.import_module("flatdata.lib.data_access")
        f = mod.ns.get("write_value")
        if f is None:
            raise AnalysisBroken("flatdata.lib.data_access.write_value is gone")
        v = bv_sym("v", w, signed)
        I.call(f, [mem, lin_add(lin_mul(B, 8), k), w, signed, v], {})
        return mem
    outs = run(prog, scen)
    site = "write_value k=%d w=%d %s" % (k, w, "signed" if signed else "unsigned")
    fkey = "write %s" % ("one-bit signed field" if w == 1 and signed else site)
    val = bv_sym("v", w, signed)
    for o in outs:
        if o.kind == "cut":
            continue
        if o.kind != "return":
            r.ok("write-total", site, False, o.describe(), key="write-total|" + fkey)
            continue
        mem = o.value
        bad = []
        span = range(0, (k + w + 7) // 8)
        for q in span:
            idx = lin_add(B, q)
            got = mem.over.get(idx, BV([bvar(("buf", idx, b)) for b in range(8)]))
            want = []
            for b in range(8):
                g = 8 * q + b - k
                want.append(val.bit(g) if 0 <= g < w else bvar(("buf", idx, b)))
            if not isinstance(got, (int, BV)) or not o.I.bits_eq(got, BV(want)):
                bad.append("byte %d is %s" % (q, short(got)))
        r.ok("write-exact", site, not bad, "; ".join(bad), key="write-exact|" + fkey)
        outside = [repr(x) for x in mem.writes if not any(x is lin_add(B, q) or x == lin_add(B, q) for q in span)]
        r.ok("write-in-span", site, not outside, "writes bytes " + ", ".join(outside[:4]), key="write-in-span|" + fkey)
