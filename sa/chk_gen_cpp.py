"""G10: struct, enumeration and constant bindings in the generated C++ headers.

The generator is interpreted on every schema shape; the header it renders is lowered to LLVM IR together with the C++ library
headers and probe functions that use it the way a user does, and the probes are interpreted in the bit-provenance domain."""
import os
import re
import shutil
import subprocess
import tempfile

from . import corpus, schema
from .chk_cpp_bits import as_bits, short, FLAGS
from .chk_gen_py import layout, render, stored, total
from .chk_gen_tree import SIGNED, spread, verdict
from .cpplib import *
from .dom import *
from .genlib import *
from .llvm import *
from .report import Report, REPO

CTYPE = {"bool": "bool", "i8": "int8_t", "u8": "uint8_t", "i16": "int16_t", "u16": "uint16_t", "i32": "int32_t", "u32": "uint32_t", "i64": "int64_t", "u64": "uint64_t"}


def cxx(path):
    return path.strip(".").replace(".", "::")


def samples(sh):
    """concrete schema texts of a shape: all numbers at their lower bound, at the upper bound, and mixed"""
    if not sh.nums:
        return [sh.text]
    pick = [lambda i, lo, hi: lo, lambda i, lo, hi: hi, lambda i, lo, hi: lo + (hi - lo) * (2 * i + 3) // 7 % (hi - lo + 1) if hi > lo else lo]
    out = []
    for p in pick:
        t = sh.text % tuple(p(i, lo, hi) for i, (_, lo, hi) in enumerate(sh.nums))
        if t not in out:
            out.append(t)
    return out


def rendered(t, text, mod, cls):
    """-> Schema, rendered text, {path: stored schema}, {(archive, resource): stored schema}"""
    def q(I, tr):
        s = schema.Schema(text)
        src = render(I, tr, mod, cls)
        if not isinstance(src, str):
            raise Top("rendered text is not known")
        return s, src, {d["path"]: stored(I, tr, d["path"]) for d in s.decls if d["kind"] in ("struct", "archive")}, {
            (d["path"], x["name"]): stored(I, tr, d["path"] + "." + x["name"]) for d in s.decls if d["kind"] == "archive" for x in d["resources"]}
    outs = t.run(text, q)
    if len(outs) != 1:
        raise Top("%d partitions of a concrete schema" % len(outs))
    o = outs[0]
    if o.kind != "return":
        return o, None
    return o, o.value


class Work:
    """scratch directory of one worker with the precompiled library header"""

    def __init__(self, flags=FLAGS):
        self.flags = tuple(flags)
        self.dir = tempfile.mkdtemp(prefix="sa-cpp-")
        self.pch = os.path.join(self.dir, "flatdata.pch")
        inc = os.path.join(REPO, "flatdata-cpp/include")
        p = subprocess.run([CLANG, "-std=c++17", "-I" + inc, "-w", "-x", "c++-header", os.path.join(inc, "flatdata/flatdata.h"), "-o", self.pch] + list(self.flags),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if p.returncode:
            shutil.rmtree(self.dir, ignore_errors=True)
            raise AnalysisBroken("flatdata/flatdata.h does not compile: %s" % first_error(p.stderr))

    def compile(self, text):
        return compile_cpp(text, REPO, self.flags, pch=self.pch)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def first_error(err):
    for l in err.splitlines():
        if "error:" in l:
            return l[-220:]
    return err[-220:]


class Probes:
    def __init__(self):
        self.n = 0
        self.text = []

    def add(self, ret, params, body):
        name = "probe_%d" % self.n
        self.n += 1
        self.text.append('extern "C" %s %s( %s ) { %s }\n' % (ret, name, params, body))
        return name


def memory(M, size, fixed=None):
    """object whose bits are inputs m.i, except the ones given in fixed"""
    o = M.alloc("data", size)
    o.content = lambda off: M.mk([(fixed or {}).get(8 * off + i, bvar("m.%d" % (8 * off + i))) for i in range(8)])
    return o


def const_value(s, path):
    return s.by_path[path]["value"]


def struct_probes(pr, s, d):
    """probe names of one struct declaration -> list of (kind, field layout entry, probe name)"""
    out = []
    S = cxx(d["path"])
    fields, bits = layout(None_I, s, d)
    for (name, off, w, signed, base), f in zip(fields, d["fields"]):
        n, ty, _, rng, consts, opt = s.normal_field(d, f)
        ct = CTYPE[base] if ty in schema.NATIVE else cxx(ty)
        wide = "int64_t" if signed else "uint64_t"
        enum = ty not in schema.NATIVE
        e = {"name": name, "off": off, "w": w, "signed": signed, "ct": ct, "const": const_value(s, opt) if opt else None, "range": rng, "enum": enum, "native": schema.NATIVE[base]}
        star = "*" if opt else ""
        # unary plus uses the type the generated field has, not the one expected
        val = (lambda obj, m, st=star: "static_cast< %s >( static_cast< %s >( %s%s.%s ) )" % (wide, ct, st, obj, m)) if enum else \
            (lambda obj, m, st=star: "static_cast< %s >( +%s%s.%s )" % (wide, st, obj, m))
        out.append(("get", e, pr.add(wide, "const unsigned char* d", "%s s( d ); return %s;" % (S, val("s", name)))))
        out.append(("get", e, pr.add(wide, "unsigned char* d", "%sMutator s( d ); return %s;" % (S, val("s", name)))))
        out.append(("set", e, pr.add("void", "unsigned char* d, %s v" % ct, "%sMutator s( d ); s.%s = v;" % (S, name))))
        if rng:
            for k in (0, 1):
                out.append(("range%d" % k, e, pr.add(wide, "const unsigned char* d", "%s s( d ); std::pair< %s, %s > p = s.%s; return static_cast< %s >( p.%s );" % (
                    S, ct, ct, rng, wide, ("first", "second")[k]))))
        if opt:
            for m, D in (("", "const unsigned char* d"), ("Mutator", "unsigned char* d")):
                out.append(("has", e, pr.add("bool", D, "%s%s s( d ); return static_cast< bool >( s.%s );" % (S, m, name))))
                out.append(("has", e, pr.add("bool", D, "%s%s s( d ); boost::optional< %s > o = s.%s; return static_cast< bool >( o );" % (S, m, ct, name))))
                out.append(("get-some", e, pr.add(wide, D, "%s%s s( d ); boost::optional< %s > o = s.%s; return o ? static_cast< %s >( *o ) : 0;" % (S, m, ct, name, wide))))
            out.append(("set", e, pr.add("void", "unsigned char* d, %s v" % ct, "%sMutator s( d ); s.%s = boost::optional< %s >( v );" % (S, name, ct))))
            out.append(("set-none", e, pr.add("void", "unsigned char* d", "%sMutator s( d ); s.%s = boost::optional< %s >( );" % (S, name, ct))))
    size = (bits + 7) // 8
    out.append(("size", size, pr.add("uint64_t", "", "return %s::size_in_bytes( );" % S)))
    out.append(("size", size, pr.add("uint64_t", "", "return %sMutator::size_in_bytes( );" % S)))
    out.append(("name", d["name"], pr.add("void", "std::string* o", "new ( o ) std::string( %s::name( ) );" % S)))
    out.append(("schema", d["path"], pr.add("void", "std::string* o", "new ( o ) std::string( %s::schema( ) );" % S)))
    out.append(("data", None, pr.add("const unsigned char*", "unsigned char* d", "return %s( d ).data( );" % S)))
    out.append(("data", None, pr.add("const unsigned char*", "unsigned char* d", "%s s = %sMutator( d ); return s.data( );" % (S, S))))
    out.append(("overlap", any(f["range"] for f in d["fields"]), pr.add("bool", "", "return %s::IS_OVERLAPPING_WITH_NEXT;" % S)))
    return size, out


None_I = type("NoTokens", (), {"ph": {}})()


def probes_of(s):
    pr = Probes()
    jobs = []
    for d in s.decls:
        if d["kind"] == "struct":
            jobs.append((d, struct_probes(pr, s, d)))
        elif d["kind"] == "const":
            w = "int64_t" if d["type"] in SIGNED else "uint64_t"
            jobs.append((d, (0, [("const", d["value"], pr.add(w, "", "return static_cast< %s >( +%s );" % (w, cxx(d["path"]))))])))
        elif d["kind"] == "enum":
            w = "int64_t" if d["type"] in SIGNED else "uint64_t"
            js = [("enumerator", (n, v), pr.add(w, "", "return static_cast< %s >( %s::%s );" % (w, cxx(d["path"]), n))) for n, v in d["values"]]
            for n, v in d["values"]:
                js.append(("to-string", "%s::%s" % (d["name"], n), pr.add("const char*", "", "return %s( %s::%s );" % (cxx(d["path"]).rpartition("::")[0] + "::to_string", cxx(d["path"]), n))))
            jobs.append((d, (0, js)))
    inst = "".join("template union %sTemplate< flatdata::Reader >;\n" % cxx(d["path"]) for d in s.decls if d["kind"] == "struct")
    return "".join(pr.text), jobs, inst


def g10(prop):
    r = Report(prop, "the generator is interpreted on every schema shape; LLVM IR of the rendered header with user-level probe functions is interpreted in the bit-provenance "
               "domain and compared with an independent reading of the schema",
               "Corpus of schema shapes, numbers at their lower bound, upper bound and in between: every field of every struct read and written, ranges, optionals, sizes, names, "
               "schemas, constants and enumerators.")
    return spread(r, g10_body, 128)


def g10_body(r, t, turn):
    w = Work()
    try:
        for sh in corpus.shapes():
            for k, text in enumerate(samples(sh)):
                if turn():
                    one(r, t, w, "%s/%d" % (sh.name, k), text)
    finally:
        w.close()


def one(r, t, w, where, text):
    o, v = rendered(t, text, "cpp", "CppGenerator")
    if not r.ok("renders", where, v is not None, "" if v else verdict(o)):
        return
    s, src, texts, rtexts = v
    body, jobs, inst = probes_of(s)
    src = src.replace("#pragma once", "")
    rc, ir, err = w.compile(src + body)
    if not r.ok("compiles", where, rc == 0, first_error(err) if rc else ""):
        return
    mod = Module(ir)
    for d, (size, js) in jobs:
        for kind, e, name in js:
            try:
                run_probe(r, mod, where, d, size, kind, e, name, texts)
            except Top as ex:
                raise AnalysisBroken("%s: %s of %s: %s" % (where, kind, d["path"], ex))


def fbits(e, base=0):
    return [bvar("m.%d" % (base + e["off"] + i)) for i in range(e["w"])]


def cbits(v, n):
    return [bconst((v >> i) & 1) for i in range(n)]


def run_probe(r, mod, where, d, size, kind, e, name, texts):
    def go(scen):
        return explore_ir(mod, scen, BASE)
    if isinstance(e, dict):
        site = "%s: %s.%s" % (where, d["path"], e["name"])
    else:
        site = "%s: %s" % (where, d["path"])
    span = size * 2 + 8

    def ok(rule, outs, test, want):
        for o in outs:
            r.ok(rule, site, o.kind == "return" and test(o.value), "%s, expected %s" % (short(o.value) if o.kind == "return" else "%s %s" % (o.kind, o.value), want))

    def ext(bits, signed):
        return bits + [bits[-1] if signed else B0] * (64 - len(bits))
    if kind == "get" or kind == "range0":
        want = ext(fbits(e), e["signed"])
        if e["const"] is not None and kind == "get":
            # *optional yields the stored value whatever it is
            pass
        ok("field-read" if kind == "get" else "range-first", go(lambda M: M.call(name, [P(memory(M, size + 8), 0)])), lambda v: as_bits(v, 64) == want,
           "bits [%d, %d) of the struct" % (e["off"], e["off"] + e["w"]))
    elif kind == "range1":
        want = ext(fbits(e, 8 * size), e["signed"])
        ok("range-second", go(lambda M: M.call(name, [P(memory(M, span), 0)])), lambda v: as_bits(v, 64) == want, "the field of the next element, %d bytes further" % size)
    elif kind == "set":
        vb = [bvar("v.%d" % i) for i in range(e["w"])]
        full = vb + [vb[-1] if e["signed"] else B0] * (e["native"] - e["w"])

        def scen(M):
            o = memory(M, size + 8)
            M.call(name, [P(o, 0), full[0] if e["native"] == 1 else M.mk(full)])
            return changed(M, o, size + 8)
        ok("field-write", go(scen), lambda v: v == {e["off"] + i: vb[i] for i in range(e["w"])}, "exactly bits [%d, %d) to be written" % (e["off"], e["off"] + e["w"]))
    elif kind == "set-none":
        def scen(M):
            o = memory(M, size + 8)
            M.call(name, [P(o, 0)])
            return changed(M, o, size + 8)
        ok("optional-reset", go(scen), lambda v: v == {e["off"] + i: b for i, b in enumerate(cbits(e["const"], e["w"]))}, "the invalid value %d to be written" % e["const"])
    elif kind in ("has", "get-some"):
        c = cbits(e["const"], e["w"])
        if kind == "has":
            fixed = {e["off"] + i: b for i, b in enumerate(c)}
            ok("optional-empty", go(lambda M: M.call(name, [P(memory(M, size + 8, fixed), 0)])), lambda v: truth(v) is False, "empty for the invalid value %d" % e["const"])
        for j in range(e["w"]):
            fixed = {e["off"] + j: c[j].inv()}
            bits = fbits(e)
            bits[j] = c[j].inv()
            want = ext(bits, e["signed"])
            outs = go(lambda M: M.call(name, [P(memory(M, size + 8, fixed), 0)]))
            if kind == "has":
                ok("optional-present", outs, lambda v: truth(v) is True, "present for values that differ from %d in bit %d" % (e["const"], j))
            else:
                ok("optional-value", outs, lambda v: as_bits(v, 64) == want, "the stored value")
    elif kind == "size":
        ok("struct-size", go(lambda M: M.call(name, [])), lambda v: v == e, "%d" % e)
    elif kind in ("name", "schema"):
        want = e if kind == "name" else texts[e]

        def scen(M):
            o = M.alloc("string", 32)
            M.call(name, [P(o, 0)])
            return std_string(M, o)
        ok("struct-" + kind, go(scen), lambda v: v == want, repr(want[:60]))
    elif kind == "data":
        def scen(M):
            o = memory(M, size + 8)
            p = M.call(name, [P(o, 0)])
            return isinstance(p, P) and p.o is o and p.off == 0
        ok("struct-data", go(scen), lambda v: v is True, "the address given")
    elif kind == "overlap":
        ok("struct-overlap", go(lambda M: M.call(name, [])), lambda v: truth(v) is e, "%s" % e)
    elif kind == "const":
        ok("constant", go(lambda M: M.call(name, [])), lambda v: is_int(v) and (int(v) - e) % (1 << 64) == 0, "%d" % e)
    elif kind == "enumerator":
        ok("enumerator", go(lambda M: M.call(name, [])), lambda v: is_int(v) and (int(v) - e[1]) % (1 << 64) == 0, "%s = %d" % e)
    elif kind == "to-string":
        ok("enumerator-text", go(lambda M: c_text(M, M.call(name, []))), lambda v: v == e, e)
    else:
        raise AnalysisBroken("probe kind " + kind)


def truth(v):
    if isinstance(v, Bf):
        v = v.const()
    return bool(v) if v in (0, 1, True, False) and v is not None else None


def changed(M, o, n):
    out = {}
    for i in range(n):
        b = as_bits(M.load_byte(o, i), 8)
        for j in range(8):
            p = 8 * i + j
            if b is None or b[j] != bvar("m.%d" % p):
                out[p] = None if b is None else b[j]
    return out
