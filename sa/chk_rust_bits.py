"""R01: bit exactness of the Rust field macros.

For every basic type, every bit offset modulo 8 and every width a probe function expands flatdata_read_bytes! / flatdata_write_bytes! of
the current sources the way generated code does; rustc lowers it to LLVM IR, which is interpreted in the bit-provenance domain."""
import os
import re

from .report import Report, AnalysisBroken
from .chk_cpp_bits import as_bits, buffer, same_bit, same_bits, short, want_read
from .dom import *
from .llvm import *
from .par import spread
from .rustlib import *

TYPES = [("bool", 1, False), ("i8", 8, True), ("u8", 8, False), ("i16", 16, True), ("u16", 16, False), ("i32", 32, True), ("u32", 32, False),
         ("i64", 64, True), ("u64", 64, False)]


def combos():
    """(name, type, native width, signed, bit offset, width, struct size)"""
    out = []
    for t, n, sg in TYPES:
        for w in range(1, n + 1):
            for k in range(8):
                byte = (3 * w + 5 * k + n) % 4 if w % 3 else (w + k) % 2
                off = 8 * byte + k
                out.append(("%s_%d_%d" % (t, w, k), t, n, sg, off, w, (off + w + 7) // 8 + (w + k) % 2))
    return out


def head():
    out = ["#![allow(warnings)]\n"]
    for m, use in (("bytereader", "#[macro_use] "), ("bytewriter", "#[macro_use] "), ("helper", "")):
        p = os.path.join(LIB, m + ".rs")
        if not os.path.exists(p):
            raise AnalysisBroken("flatdata-rs/lib/src/%s.rs is gone" % m)
        out.append('%s#[path = "%s"] pub mod %s;\n' % (use, p, m))
    return "".join(out)


def samples(n, w, sg):
    """values of an enumeration over the type: stands for how the writer converts them"""
    if sg:
        return sorted({0, (1 << (w - 1)) - 1, -1, -(1 << (w - 1))})
    return sorted({0, 1, (1 << w) - 1, 1 << (w - 1)})


def probe(cs, what):
    out = [head()]
    for name, t, n, sg, off, w, size in cs:
        if what == "r":
            out.append('#[no_mangle] pub unsafe extern "C" fn rd_%s( d: *const u8 ) -> %s { flatdata_read_bytes!(%s, d, %d, %d) }\n' % (name, t, t, off, w))
        elif what == "w":
            out.append('#[repr(transparent)] struct S_%s { data: [u8; %d] }\n' % (name, size))
            out.append('#[no_mangle] pub unsafe extern "C" fn wr_%s( d: *mut u8, v: %s ) { let s = &mut *( d as *mut S_%s ); flatdata_write_bytes!(%s; v, s.data, %d, %d) }\n' % (
                name, t, name, t, off, w))
        else:
            vs = samples(n, w, sg)
            out.append('#[repr(transparent)] struct S_%s { data: [u8; %d] }\n#[derive(Clone, Copy)] #[repr(%s)] enum E_%s { %s }\n' % (
                name, size, t, name, ", ".join("V%d = %d" % (i, v) for i, v in enumerate(vs))))
            for i in range(len(vs)):
                out.append('#[no_mangle] pub unsafe extern "C" fn we_%s_%d( d: *mut u8 ) { let s = &mut *( d as *mut S_%s ); flatdata_write_bytes!(%s; E_%s::V%d, s.data, %d, %d) }\n' % (
                    name, i, name, t, name, i, off, w))
    return "".join(out)


def abort(M, name, args):
    M.fault("panics (%s)" % name)


class Panics(dict):
    """every function of core/std that is only declared and never returns is a panic"""


def models(mod):
    out = {}
    for f in set(re.findall(r"@([\w.$]*panic[\w.$]*)", mod.text)):
        out[f] = [(None, abort)]
    return out


def load(cs, what, flags, r):
    cs = list(cs)
    rc, ir, err = compile_rust(probe(cs, what), flags)
    if rc:
        # which instantiations are to blame
        bad = []
        for c in cs:
            n = sum(1 for _ in re.finditer(r"\b[rw][dre]_%s\b" % c[0], err))
            if n:
                bad.append(c)
        if not bad or len(bad) == len(cs):
            raise AnalysisBroken("bytereader.rs/bytewriter.rs do not compile: %s" % first_error(err))
        for c in bad:
            r.ok("compiles", "%s, offset %d, width %d" % (c[1], c[4], c[5]), False, first_error(err))
        cs = [c for c in cs if c not in bad]
        rc, ir, err = compile_rust(probe(cs, what), flags)
        if rc:
            raise AnalysisBroken("bytereader.rs/bytewriter.rs do not compile: %s" % first_error(err))
    mod = Module(ir)
    mod.text = ir
    mod.panics = models(mod)
    return mod, cs


def run(mod, scen, site):
    try:
        return explore_ir(mod, scen, mod.panics)
    except Top as e:
        raise AnalysisBroken("%s: %s" % (site, e))


def check_read(r, mod, c, mode):
    name, t, n, sg, off, w, size = c
    site = "flatdata_read_bytes!(%s, offset %d, width %d)%s" % (t, off, w, mode)
    key = "%s %d+%d%s" % (t, off % 8, w, mode)
    for o in run(mod, lambda M: M.call("rd_" + name, [P(buffer(M, size), 0)]), site):
        if not r.ok("read-in-bounds", site, o.kind == "return", "%s %s" % (o.kind, short(o.value)), key="read-in-bounds|" + key):
            continue
        got, want = as_bits(o.value, n), want_read(off, w, n, sg)
        one = sg and w == 1 and same_bits(o, got, [want[0]] + [B0] * (n - 1))
        r.ok("read-exact", site, same_bits(o, got, want), "value is %s" % short(o.value), key="read-exact|" + ("one-bit signed field read as 0 or 1" if one else key))


def check_write(r, mod, c, mode, enum=None):
    name, t, n, sg, off, w, size = c
    site = "flatdata_write_bytes!(%s%s, offset %d, width %d)%s" % (t, "" if enum is None else " enumeration", off, w, mode)
    key = "%s%s %d+%d%s" % (t, "" if enum is None else " enumeration", off % 8, w, mode)
    vb = [bvar("v.%d" % i) for i in range(w)] if enum is None else [bconst((samples(n, w, sg)[enum] >> i) & 1) for i in range(w)]

    def scen(M):
        b = buffer(M, size)
        full = [vb[i] if i < w else (vb[-1] if sg else B0) for i in range(n)]
        if enum is None:
            M.call("wr_" + name, [P(b, 0), vb[0] if n == 1 else BV(full)])
        else:
            M.call("we_%s_%d" % (name, enum), [P(b, 0)])
        return [M.load_byte(b, i) for i in range(size)]
    for o in run(mod, scen, site):
        if not r.ok("write-in-bounds", site, o.kind == "return", "%s %s" % (o.kind, short(o.value)), key="write-in-bounds|" + key):
            continue
        inside, outside = [], []
        for i, v in enumerate(o.value):
            got = as_bits(v, 8)
            for j in range(8):
                p = 8 * i + j
                exp = vb[p - off] if off <= p < off + w else bvar("m.%d" % p)
                if got is None or not same_bit(o, got[j], exp):
                    (inside if off <= p < off + w else outside).append("bit %d becomes %s" % (p - off, "?" if got is None else short(got[j])))
        r.ok("write-exact", site, not inside, "bit counted from the field's first: " + "; ".join(inside[:3]), key="write-exact|" + key)
        r.ok("write-neighbours", site, not outside, "bit counted from the field's first: " + "; ".join(outside[:3]), key="write-neighbours|" + key)


def r01(pid):
    r = Report(pid, "flatdata_read_bytes!(T, data, offset, width) yields the bits [offset, offset+width) sign/zero extended; flatdata_write_bytes! makes them the bits "
                    "of a fitting value and leaves all others; neither leaves the struct's bytes nor panics",
               "abstract interpretation of the LLVM IR of the macros' expansions in a bit-provenance domain: every basic type x all 8 bit offsets x all widths, "
               "memory content and value symbolic; enumerations by representative values; with and without debug assertions")
    cs = combos()

    def body(r, turn):
        mine = [c for i, c in enumerate(cs) if i % turn.n == turn.k]
        for flags, mode, part in ((RELEASE, "", 1), (DEBUG, " with debug assertions", 3)):
            sel = mine[turn.k % part::part]
            mod, good = load(sel, "r", flags, r)
            for c in good:
                check_read(r, mod, c, mode)
            mod, good = load(sel, "w", flags, r)
            for c in good:
                check_write(r, mod, c, mode)
        sel = [c for c in mine if c[1] != "bool"][turn.k % 3::3]
        mod, good = load(sel, "e", RELEASE, r)
        for c in good:
            for i in range(len(samples(c[2], c[5], c[3]))):
                check_write(r, mod, c, "", i)
        return len(mine)
    n = sum(spread(r, body))
    r.floor("macro instantiations (type x offset x width)", n, 1928)
    return r.finish()
