"""G09: the generated Python module, interpreted together with the Python library."""
from . import corpus, schema
from .chk_gen_tree import SIGNED, spread, same, verdict
from .genlib import *
from .report import Report

# numpy type code -> (signed, bits)
DTYPES = {"?": (False, 1), "b": (True, 8), "B": (False, 8)}
for _n in (1, 2, 4, 8):
    for _p in ("", "<", "=", "|") if _n == 1 else ("", "<", "="):
        DTYPES["%si%d" % (_p, _n)] = (True, 8 * _n)
        DTYPES["%su%d" % (_p, _n)] = (False, 8 * _n)
for _n in (8, 16, 32, 64):
    DTYPES["int%d" % _n] = (True, _n)
    DTYPES["uint%d" % _n] = (False, _n)
DTYPES["bool"] = (False, 1)


def both_program():
    return Program(dict(ROOTS))


def lift(I, v):
    """numbers of the rendered text back to the unknowns they stand for"""
    if isinstance(v, int) and not isinstance(v, bool):
        return I.ph.get(str(v), v)
    return v


def total(xs):
    t = 0
    for x in xs:
        t = lin_add(t, x, 1)
    return t


def layout(I, s, d):
    """[(name, offset, width, signed, native type)], bits of a struct declaration"""
    out, off = [], 0
    for f in d["fields"]:
        n, ty, w, rng, consts, opt = s.normal_field(d, f)
        w = lift(I, w)
        base = ty if ty in schema.NATIVE else s.by_path[ty]["type"]
        out.append((n, off, w, base in SIGNED, base))
        off = lin_add(off, w, 1)
    return out, off


def index_structs(s):
    """widths of the multivector indexes the schema needs"""
    return sorted({r["width"] for d in s.decls if d["kind"] == "archive" for r in d["resources"] if r["kind"] == "multivector"})


def concrete(I, sh):
    return sh.text % tuple(I.token(sym(n)) for n, _, _ in sh.nums) if sh.nums else sh.text


def render(I, tree, mod, cls):
    g = I.import_module("flatdata.generator.generators." + mod).ns.get(cls)
    if g is None:
        raise AnalysisBroken("generator class %s.%s not found" % (mod, cls))
    return I.call(I.getattr(I.call(g, [], {}), "render"), [tree], {})


def stored(I, tree, path):
    return I.str(I.call(I.getattr(tree, "schema"), [find(I, tree, path)], {}))


def under(path):
    return path.strip(".").replace(".", "_")


def cls_attr(I, c, name):
    v = c.lookup(name)[0]
    return v


def g09(prop):
    r = Report(prop, "abstract interpretation of the generator; the rendered module is interpreted together with flatdata.lib and its tables compared with an "
               "independent reading of the schema",
               "Corpus of schema shapes with unknown widths and constants: every struct's field table and sizes, every archive's and builder's resource table.")
    return spread(r, g09_body, 128, both_program)


def g09_body(r, t, turn):
    for sh in corpus.shapes():
        if not turn():
            continue

        def q(I, tr):
            text = concrete(I, sh)
            s = schema.Schema(text)
            src = render(I, tr, "python", "PythonGenerator")
            if not isinstance(src, str):
                raise Top("rendered text of %s is not known" % sh.name)
            try:
                m = I.load_source("generated", src)
            except SyntaxError as e:
                return s, None, "generated module does not parse: %s" % e
            return s, m, {d["path"]: stored(I, tr, d["path"]) for d in s.decls}, {
                (d["path"], x["name"]): stored(I, tr, d["path"] + "." + x["name"]) for d in s.decls if d["kind"] == "archive" for x in d["resources"]}
        for o in t.run(sh.text, q, sh.nums):
            if not r.ok("module-loads", sh.name, o.kind == "return" and o.value[1] is not None, o.value[2] if o.kind == "return" else verdict(o)):
                continue
            compare(r, sh, o, *o.value)


def compare_struct(r, o, c, where, expected, text):
    I = o.I
    fields, bits = expected
    tab = cls_attr(I, c, "_FIELDS")
    if not r.ok("struct-fields", where, isinstance(tab, dict) and list(tab) == [f[0] for f in fields], "field table has %s, declared are %s" % (
            list(tab) if isinstance(tab, dict) else tab, [f[0] for f in fields])):
        return
    keys = cls_attr(I, c, "_FIELD_KEYS")
    r.ok("struct-field-keys", where, isinstance(keys, (set, frozenset, list, tuple, dict)) and set(keys) == set(tab), "_FIELD_KEYS is %s" % (keys,))
    for n, off, w, signed, base in fields:
        f = tab[n]
        fw = "%s.%s" % (where, n)
        r.ok("field-offset", fw, same(o, lift(I, I.getattr(f, "offset")), off), "offset is %s, expected %s" % (lift(I, I.getattr(f, "offset")), off))
        r.ok("field-width", fw, same(o, lift(I, I.getattr(f, "width")), w), "width is %s, expected %s" % (lift(I, I.getattr(f, "width")), w))
        r.ok("field-sign", fw, I.getattr(f, "is_signed") == signed and isinstance(I.getattr(f, "is_signed"), (bool, int)), "is_signed is %s" % (I.getattr(f, "is_signed"),))
        dt = I.getattr(f, "dtype")
        holds = dt in DTYPES and holds_all(o, DTYPES[dt], w, signed) if isinstance(dt, str) else False
        r.ok("field-dtype", fw, holds, "dtype %r cannot hold every %s-bit %s value" % (dt, w, "signed" if signed else "unsigned"))
    got = lift(I, cls_attr(I, c, "_SIZE_IN_BITS"))
    r.ok("struct-bits", where, same(o, got, bits), "size in bits is %s, expected %s" % (got, bits))
    got = lift(I, cls_attr(I, c, "_SIZE_IN_BYTES"))
    r.ok("struct-bytes", where, bytes_ok(o, got, bits), "size in bytes is %s for %s bits" % (got, bits))
    if text is not None:
        r.ok("struct-schema", where, cls_attr(I, c, "_SCHEMA") == text, "schema is %r, expected %r" % (str(cls_attr(I, c, "_SCHEMA"))[:80], str(text)[:80]))


def compare(r, sh, o, s, m, texts, rtexts):
    I = o.I
    lib = {n: I.import_module("flatdata.lib." + a).ns.get(n) for n, a in
           (("Structure", "structure"), ("Archive", "archive"), ("ArchiveBuilder", "archive_builder"), ("Vector", "resources"), ("Multivector", "resources"),
            ("Instance", "resources"), ("RawData", "resources"))}
    if None in lib.values():
        raise AnalysisBroken("flatdata.lib lacks %s" % sorted(n for n in lib if lib[n] is None))
    kinds = {"vector": "Vector", "multivector": "Multivector", "instance": "Instance", "raw_data": "RawData", "archive": "Archive"}
    structs = [(under(d["path"]), layout(I, s, d), texts[d["path"]]) for d in s.decls if d["kind"] == "struct"]
    for name, fields, text in structs:
        where = "%s: struct %s" % (sh.name, name)
        c = m.ns.get(name)
        if r.ok("struct-class", where, isinstance(c, Cls) and lib["Structure"] in c.mro, "no structure class %s" % name):
            compare_struct(r, o, c, where, fields, text)
    for d in s.decls:
        if d["kind"] != "archive":
            continue
        for suffix, base in (("", "Archive"), ("Builder", "ArchiveBuilder")):
            name = under(d["path"]) + suffix
            where = "%s: %s %s" % (sh.name, base, name)
            c = m.ns.get(name)
            if not r.ok("archive-class", where, isinstance(c, Cls) and lib[base] in c.mro, "no %s class %s" % (base, name)):
                continue
            r.ok("archive-name", where, cls_attr(I, c, "_NAME") == d["name"], "_NAME is %r" % (cls_attr(I, c, "_NAME"),))
            r.ok("archive-schema", where, cls_attr(I, c, "_SCHEMA") == texts[d["path"]], "archive schema differs from the stored schema text")
            tab = cls_attr(I, c, "_RESOURCES")
            want = [d["name"] + ".archive"] + [x["name"] for x in d["resources"]]
            if not r.ok("resource-table", where, isinstance(tab, dict) and sorted(tab) == sorted(want), "resources are %s, declared are %s" % (
                    list(tab) if isinstance(tab, dict) else tab, want)):
                continue
            sig = tab[want[0]]
            r.ok("signature-resource", where, I.getattr(sig, "container") is lib["RawData"] and I.getattr(sig, "initializer") is None
                 and I.getattr(sig, "schema") == texts[d["path"]] and I.getattr(sig, "is_optional") is False,
                 "signature resource is %s" % (sig,))
            for x in d["resources"]:
                n, kind, width, types, optional, refs = s.normal_resource(d, x)
                e = tab[n]
                rw = "%s.%s" % (where, n)
                r.ok("resource-container", rw, I.getattr(e, "container") is lib[kinds[kind]], "container of a %s is %s" % (kind, I.getattr(e, "container")))
                r.ok("resource-optional", rw, I.getattr(e, "is_optional") is optional, "is_optional is %s" % (I.getattr(e, "is_optional"),))
                r.ok("resource-schema", rw, I.getattr(e, "schema") == rtexts[(d["path"], n)], "schema differs from the stored schema text of the resource")
                ini = I.getattr(e, "initializer")
                names = [under(p) for p in types]
                want_i = [m.ns.get(x) for x in names]
                if kind == "multivector":
                    good = isinstance(ini, (list, tuple)) and len(ini) == len(want_i) + 1 and all(a is b for a, b in zip(ini[1:], want_i))
                    if good and r.ok("index-class", rw, isinstance(ini[0], Cls) and lib["Structure"] in ini[0].mro, "index type is %s" % (ini[0],)):
                        compare_struct(r, o, ini[0], rw + " index", ([("value", 0, width, False, "u64")], width), None)
                elif kind == "raw_data":
                    good = ini is None
                else:
                    good = ini is want_i[0] and ini is not None
                r.ok("resource-initializer", rw, good, "initializer is %s, expected %s" % (ini, names))


def holds_all(o, dt, w, signed):
    sg, bits = dt
    if sg == signed:
        need = w
    elif sg and not signed:
        need = lin_add(w, 1, 1)
    else:
        return False
    t = le0(lin_add(need, bits, -1))
    return t is True or t is not False and o.facts.decide(t) is True


def bytes_ok(o, got, bits):
    """8 * got - 8 < bits <= 8 * got"""
    if got is None or isinstance(got, (str, bool)):
        return False
    want = o.I.binop(ast.FloorDiv(), lin_add(bits, 7, 1), 8)
    if same(o, got, want):
        return True
    g8 = lin_mul(got, 8)
    for t in (le0(lin_add(bits, g8, -1)), le0(lin_add(lin_add(g8, bits, -1), -7, 1))):
        if not (t is True or t is not False and o.facts.decide(t) is True):
            return False
    return True
