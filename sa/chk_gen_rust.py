"""G12: generated Rust code.

The generator is interpreted on every schema shape; the code it renders is lowered by rustc together with flatdata-rs and probe functions
that use it the way a user does, and the probes' LLVM IR is interpreted in the bit-provenance domain."""
import re

from . import corpus, schema
from .chk_cpp_bits import as_bits, same_bits, short
from .chk_gen_cpp import Probes, cbits, changed, const_value, fbits, memory, None_I, rendered, samples, truth
from .chk_gen_py import layout
from .chk_gen_tree import SIGNED, spread, verdict
from .chk_rust_bits import models
from .dom import *
from .llvm import *
from .report import Report, AnalysisBroken
from .rustcrate import Crate
from .rustlib import first_error


def rs(path):
    return path.strip(".").replace(".", "::")


def upper(name):
    """constants are upper case"""
    return re.sub("(.)([A-Z][a-z]+)", r"\1_\2", name).upper()


def camel(name):
    return "".join(p.title() for p in name.split("_"))


def const_path(path):
    ns, _, n = path.rpartition(".")
    return rs(ns) + "::" + upper(n)


def collides(s):
    """declarations that share a name once they are Rust items"""
    seen = set()
    for d in s.decls:
        ns = d["path"].rpartition(".")[0]
        if d["kind"] == "enum":
            vs = [camel(n) for n, _ in d["values"]]
            if len(set(vs)) != len(vs):
                return True
        if d["kind"] != "archive":
            continue
        for x in d["resources"]:
            if x["kind"] == "multivector":
                names = [p.rpartition(".")[2] for p in x["types"]]
                if len(set(names)) != len(names) or (ns, camel(x["name"])) in seen:
                    return True
                seen.add((ns, camel(x["name"])))
    return False


class RustProbes(Probes):
    def add(self, ret, params, body):
        name = "probe_%d" % self.n
        self.n += 1
        self.text.append('#[no_mangle] pub unsafe extern "C" fn %s( %s )%s { %s }\n' % (name, params, " -> " + ret if ret else "", body))
        return name


def struct_probes(pr, s, d):
    out = []
    S = rs(d["path"])
    fields, bits = layout(None_I, s, d)
    ranged = any(f["range"] for f in d["fields"])
    # reading a one-bit signed enumeration is the known finding: its 1 is no enumerator, and what follows is undefined
    one_bit = any(w == 1 and signed and s.normal_field(d, f)[1] not in schema.NATIVE for (_, _, w, signed, _), f in zip(fields, d["fields"]))
    for (name, off, w, signed, base), f in zip(fields, d["fields"]):
        n, ty, _, rng, consts, opt = s.normal_field(d, f)
        enum = ty not in schema.NATIVE
        T = rs(ty) if enum else base
        wide = "i64" if signed else "u64"
        prim = "u8" if enum and base == "bool" else base
        e = {"name": name, "off": off, "w": w, "signed": signed, "const": const_value(s, opt) if opt else None, "range": rng, "enum": enum,
             "native": schema.NATIVE[prim], "flag": base == "bool"}
        num = lambda v: "( %s as %s ) as %s" % (v, prim, wide) if enum else "%s as %s" % (v, wide)
        if opt:
            out.append(("has", e, pr.add("bool", "d: *const u8", "let o: Option< %s > = ( *( d as *const %s ) ).%s(); o.is_some()" % (T, S, name))))
            out.append(("get-some", e, pr.add(wide, "d: *const u8", "match ( *( d as *const %s ) ).%s() { Some( v ) => %s, None => 0 }" % (S, name, num("v")))))
            out.append(("set", e, pr.add("", "d: *mut u8, v: %s" % prim, "( *( d as *mut %s ) ).set_%s( Some( v ) )" % (S, name))))
            out.append(("set-none", e, pr.add("", "d: *mut u8", "( *( d as *mut %s ) ).set_%s( None )" % (S, name))))
        else:
            out.append(("get", e, pr.add(wide, "d: *const u8", "let v: %s = ( *( d as *const %s ) ).%s(); %s" % (T, S, name, num("v")))))
            val = "std::mem::transmute::< %s, %s >( v )" % (prim, T) if enum else "v"
            out.append(("set", e, pr.add("", "d: *mut u8, v: %s" % prim, "( *( d as *mut %s ) ).set_%s( %s )" % (S, name, val))))
        out.append(("fill", (e, bits, one_bit), pr.add("", "d: *mut u8, o: *const u8", "( *( d as *mut %s ) ).fill_from( &*( o as *const %s ) )" % (S, S))))
        if rng:
            for k in ("start", "end"):
                out.append(("range-" + k, e, pr.add(wide, "d: *const u8", "let r: std::ops::Range< %s > = ( *( d as *const %s ) ).%s(); let v = r.%s; %s" % (T, S, rng, k, num("v")))))
    size = (bits + 7) // 8
    out.append(("size", size, pr.add("u64", "", "< %s as flatdata::Struct >::SIZE_IN_BYTES as u64" % S)))
    out.append(("size", size, pr.add("u64", "", "std::mem::size_of::< %s >() as u64" % S)))
    out.append(("overlap", ranged, pr.add("bool", "", "< %s as flatdata::Struct >::IS_OVERLAPPING_WITH_NEXT" % S)))
    if not ranged:
        out.append(("new", size, pr.add("", "d: *mut u8", "std::ptr::write( d as *mut %s, %s::new() )" % (S, S))))
        out.append(("view", size, pr.add("*const u8", "d: *const u8, n: usize", "match %s::from_bytes_slice( std::slice::from_raw_parts( d, n ) ) { Ok( s ) => s as *const %s as *const u8, Err( _ ) => std::ptr::null() }" % (S, S))))
        out.append(("view", size, pr.add("*const u8", "d: *mut u8, n: usize", "match %s::from_bytes_slice_mut( std::slice::from_raw_parts_mut( d, n ) ) { Ok( s ) => s as *const %s as *const u8, Err( _ ) => std::ptr::null() }" % (S, S))))
        out.append(("data", size, pr.add("*const u8", "d: *const u8", "( *( d as *const %s ) ).as_bytes().as_ptr()" % S)))
        out.append(("length", size, pr.add("u64", "d: *const u8", "( *( d as *const %s ) ).as_bytes().len() as u64" % S)))
    return size, out


def probes_of(s):
    pr = RustProbes()
    jobs = []
    for d in s.decls:
        if d["kind"] == "struct":
            jobs.append((d, struct_probes(pr, s, d)))
        elif d["kind"] == "const":
            w = "i64" if d["type"] in SIGNED else "u64"
            jobs.append((d, (0, [("const", d["value"], pr.add(w, "", "let v: %s = %s; v as %s" % (d["type"], const_path(d["path"]), w)))])))
        elif d["kind"] == "enum":
            w = "i64" if d["type"] in SIGNED else "u64"
            prim = "u8" if d["type"] == "bool" else d["type"]
            jobs.append((d, (0, [("enumerator", (n, v), pr.add(w, "", "( %s::%s as %s ) as %s" % (rs(d["path"]), camel(n), prim, w))) for n, v in d["values"]])))
    return "".join(pr.text), jobs


def g12(prop):
    r = Report(prop, "the generator is interpreted on every schema shape; LLVM IR of the rendered code with flatdata-rs and user-level probe functions is interpreted in the "
               "bit-provenance domain and compared with an independent reading of the schema",
               "Corpus of schema shapes, numbers at their lower bound, upper bound and in between: every field of every struct read and written, ranges, optionals, sizes, "
               "constants and enumerators.")
    return spread(r, g12_body, 120)


def g12_body(r, t, turn):
    w = Crate()
    try:
        for sh in corpus.shapes():
            for k, text in enumerate(samples(sh)):
                if turn():
                    one(r, t, w, "%s/%d" % (sh.name, k), text)
    finally:
        w.close()


def one(r, t, w, where, text):
    if collides(schema.Schema(text)):
        return
    o, v = rendered(t, text, "rust", "RustGenerator")
    if not r.ok("renders", where, v is not None, "" if v else verdict(o)):
        return
    s, src, texts, rtexts = v
    body, jobs = probes_of(s)
    rc, ir, err = w.probe("#![allow(warnings)]\n" + src + body)
    if not r.ok("compiles", where, rc == 0, first_error(err) if rc else ""):
        return
    mod = Module(ir)
    mod.text = ir
    mod.panics = models(mod)
    for d, (size, js) in jobs:
        for kind, e, name in js:
            try:
                run_probe(r, mod, where, d, size, kind, e, name)
            except Top as ex:
                raise AnalysisBroken("%s: %s of %s: %s" % (where, kind, d["path"], ex))


def run_probe(r, mod, where, d, size, kind, e, name):
    def go(scen):
        return explore_ir(mod, scen, mod.panics)
    f = e[0] if kind == "fill" else e
    site = "%s: %s.%s" % (where, d["path"], f["name"]) if isinstance(f, dict) else "%s: %s" % (where, d["path"])

    def ok(rule, outs, test, want, key=None):
        for o in outs:
            r.ok(rule, site, o.kind == "return" and test(o), "%s, expected %s" % (short(o.value) if o.kind == "return" else "%s %s" % (o.kind, o.value), want), key=key and key(o))

    def ext(bits, signed):
        return bits + [bits[-1] if signed else B0] * (64 - len(bits))

    def reads(rule, outs, bits, what):
        want = ext(bits, e["signed"])
        one = lambda o: "field-read|one-bit signed field read as 0 or 1" if e["signed"] and e["w"] == 1 and o.kind == "return" and (same_bits(o, as_bits(o.value, 64), [want[0]] + [B0] * 63) or e["enum"] and o.value == 0) else "%s|%s" % (rule, site)
        ok(rule, outs, lambda o: same_bits(o, as_bits(o.value, 64), want), what, one)
    if kind == "get":
        reads("field-read", go(lambda M: M.call(name, [P(memory(M, size), 0)])), fbits(e), "bits [%d, %d) of the struct" % (e["off"], e["off"] + e["w"]))
    elif kind == "range-start":
        reads(kind, go(lambda M: M.call(name, [P(memory(M, 2 * size), 0)])), fbits(e), "bits [%d, %d) of the struct" % (e["off"], e["off"] + e["w"]))
    elif kind == "range-end":
        reads(kind, go(lambda M: M.call(name, [P(memory(M, 2 * size), 0)])), fbits(e, 8 * size), "the field of the next element, %d bytes further" % size)
    elif kind == "set":
        vb = [bvar("v.%d" % i) for i in range(e["w"])]
        full = vb + [vb[-1] if e["signed"] else B0] * (e["native"] - e["w"])

        def scen(M):
            o = memory(M, size)
            M.call(name, [P(o, 0), full[0] if e["native"] == 1 else M.mk(full)])
            return changed(M, o, size)
        ok("field-write", go(scen), lambda o: o.value == {e["off"] + i: vb[i] for i in range(e["w"])}, "exactly bits [%d, %d) to be written" % (e["off"], e["off"] + e["w"]))
    elif kind == "set-none":
        def scen(M):
            o = memory(M, size)
            M.call(name, [P(o, 0)])
            return changed(M, o, size)
        ok("optional-reset", go(scen), lambda o: o.value == {e["off"] + i: b for i, b in enumerate(cbits(e["const"], e["w"]))}, "the invalid value %d to be written" % e["const"])
    elif kind == "fill":
        e, bits, one_bit = e

        def scen(M):
            a, b = M.alloc("target", size), memory(M, size)
            a.content = lambda off: M.mk([bvar("t.%d" % (8 * off + i)) for i in range(8)])
            M.call(name, [P(a, 0), P(b, 0)])
            return [as_bits(M.load_byte(a, i), 8) for i in range(size)]

        def right(o):
            got = [b for x in o.value for b in (x or [None] * 8)]
            return all(got[e["off"] + i] == bvar("m.%d" % (e["off"] + i)) for i in range(e["w"])) and all(got[i] == bvar("t.%d" % i) for i in range(bits, 8 * size))
        # the value copied is the one read: a one-bit signed integer keeps its bit either way
        ok("field-copy", go(scen), right, "the other's bits [%d, %d)" % (e["off"], e["off"] + e["w"]), one_bit and (lambda o: "field-read|one-bit signed field read as 0 or 1"))
    elif kind in ("has", "get-some"):
        c = cbits(e["const"], e["w"])
        if kind == "has":
            fixed = {e["off"] + i: b for i, b in enumerate(c)}
            ok("optional-empty", go(lambda M: M.call(name, [P(memory(M, size, fixed), 0)])), lambda o: truth(o.value) is False, "empty for the invalid value %d" % e["const"],
               lambda o: "optional-empty|" + ("one-bit signed field" if e["signed"] and e["w"] == 1 else site))
        for j in range(e["w"]):
            fixed = {e["off"] + j: c[j].inv()}
            bits = fbits(e)
            bits[j] = c[j].inv()
            outs = go(lambda M: M.call(name, [P(memory(M, size, fixed), 0)]))
            if kind == "has":
                ok("optional-present", outs, lambda o: truth(o.value) is True, "present for values that differ from %d in bit %d" % (e["const"], j))
            else:
                reads("optional-value", outs, bits, "the stored value")
    elif kind == "size":
        ok("struct-size", go(lambda M: M.call(name, [])), lambda o: o.value == e, "%d" % e)
    elif kind == "new":
        def scen(M):
            o = memory(M, e)
            M.call(name, [P(o, 0)])
            return [as_bits(M.load_byte(o, i), 8) for i in range(e)]
        ok("struct-new", go(scen), lambda o: o.value == [[B0] * 8] * e, "%d zero bytes" % e)
    elif kind == "view":
        for n in (e, e + 3):
            ok("struct-view", go(lambda M: inside(M, lambda p: M.call(name, [p, n]), n)), lambda o: o.value is True, "the bytes given")
        # too few bytes: an error or a panic, never an access
        for n in range(e):
            outs = go(lambda M: inside(M, lambda p: M.call(name, [p, n]), n))
            for o in outs:
                r.ok("struct-short", site, o.kind == "fault" and "panics" in str(o.value) or o.kind == "return" and o.value is None, "a view of %d bytes from %d is %s" % (e, n, o.value))
    elif kind == "data":
        ok("struct-data", go(lambda M: inside(M, lambda p: M.call(name, [p]), e)), lambda o: o.value is True, "the struct's bytes")
    elif kind == "length":
        ok("struct-data", go(lambda M: M.call(name, [P(memory(M, size), 0)])), lambda o: o.value == e, "%d bytes" % e)
    elif kind == "overlap":
        ok("struct-overlap", go(lambda M: M.call(name, [])), lambda o: truth(o.value) is e, "%s" % e)
    elif kind == "const":
        ok("constant", go(lambda M: M.call(name, [])), lambda o: is_int(o.value) and (int(o.value) - e) % (1 << 64) == 0, "%d" % e)
    elif kind == "enumerator":
        ok("enumerator", go(lambda M: M.call(name, [])), lambda o: is_int(o.value) and (int(o.value) - e[1]) % (1 << 64) == 0, "%s = %d" % e)
    else:
        raise AnalysisBroken("probe kind " + kind)


def inside(M, call, n):
    """the bytes handed over come back (True), nothing (None), or something else (False)"""
    o = memory(M, n)
    p = call(P(o, 0))
    if isinstance(p, P):
        return p.o is o and p.off == 0
    return None if p in (0, None) else False
