"""G01-G07: schema text with unknown numbers interpreted through grammar, builder and resolver."""
import itertools

from .genlib import *
from . import par
from .report import Report

NATIVE = {"bool": 1, "i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}
SIGNED = {"i8", "i16", "i32", "i64"}


def same(o, a, b):
    t = o.I.eq(a, b)
    if isinstance(t, T):
        t = o.facts.decide(t)
    return t is True


def possible(o, *terms):
    """is the outcome's partition compatible with all these conditions?"""
    import copy
    f = copy.copy(o.facts)
    f.cons = list(o.facts.cons)
    f.truth = dict(o.facts.truth)
    f.neq = list(o.facts.neq)
    for t in terms:
        if isinstance(t, bool):
            if not t:
                return False
            continue
        if f.decide(t) is False:
            return False
        f.assume(t, True)
    return not f.unsat_with([])


def is_syntax_error(o):
    return o.kind == "raise" and o.is_exc("FlatdataSyntaxError")


def verdict(o):
    return "accepted" if o.kind == "return" else o.describe()[:300]


class Tree:
    """one schema shape; read back the properties of interest inside the interpretation"""

    def __init__(self, prog, turn=None):
        self.prog = prog
        self.shapes = 0
        self.partitions = 0
        self.turn = turn or par.Turns(0, 1)

    def run(self, text, query=None, nums=()):
        """nums: (name, lo, hi) in the order of the %s in text"""
        def sc(I):
            setup(I)
            toks = [num(I, n, lo, hi) for n, lo, hi in nums]
            t = build(I, text % tuple(toks) if nums else text)
            return query(I, t) if query else None
        outs = [o for o in run(self.prog, sc, max_paths=20000) if o.kind != "cut"]
        self.shapes += 1
        self.partitions += len(outs)
        return outs

    def check(self, r, rule, text, accept, why=""):
        """concrete schema: accepted, or rejected with a syntax error"""
        if not self.turn():
            return
        for o in self.run(text):
            if accept:
                r.ok(rule, text, o.kind == "return", "is legal but %s" % verdict(o), key="%s|%s" % (rule, why or text))
            else:
                r.ok(rule, text, is_syntax_error(o), "%s, expected a syntax error%s" % (verdict(o), " (" + why + ")" if why else ""),
                     key="%s|%s" % (rule, why or text))

    def summary(self):
        return {"shapes": self.shapes, "partitions": self.partitions, "functions": set(self.prog.functions), "consulted": set(self.prog.consulted),
                "sites": set(self.prog.sites)}


def spread(r, body, floor, program=None):
    """body(r, t, turn) over all processors"""
    def part(r, turn):
        t = Tree((program or gen_program)(), turn)
        body(r, t, turn)
        return t.summary()
    prog = (program or gen_program)()
    shapes = parts = 0
    for e in par.spread(r, part):
        shapes += e["shapes"]
        parts += e["partitions"]
        prog.functions |= e["functions"]
        prog.consulted |= e["consulted"]
        prog.sites |= e["sites"]
    r.extra["schema_shapes"] = shapes
    r.extra["partitions"] = parts
    source_info(prog, r)
    r.floor("schema shapes", shapes, floor)
    return r.finish()


def struct_info(I, t, path):
    s = find(I, t, path)
    return {"fields": [(name_of(I, f), attr(I, f, "offset"), attr(I, f, "type", "width"), attr(I, f, "type", "is_signed"))
                       for f in I.iterate(attr(I, s, "fields"))],
            "bits": attr(I, s, "size_in_bits"), "bytes": attr(I, s, "size_in_bytes")}


def total(xs):
    r = 0
    for x in xs:
        r = lin_add(r, x)
    return r


# ------------------------------------------------------------------ G01
def check_layout(r, o, where, info, names, widths):
    r.ok("declaration-order", where, [f[0] for f in info["fields"]] == names,
         "fields are %s, declared %s" % ([f[0] for f in info["fields"]], names))
    off = 0
    for (n, got, w, _), want_w in zip(info["fields"], widths):
        r.ok("packed-offset", "%s field %s" % (where, n), same(o, got, off),
             "offset is %r, sum of the widths before it is %r" % (got, off))
        r.ok("field-width", "%s field %s" % (where, n), same(o, w, want_w), "width is %r, declared %r" % (w, want_w))
        off = lin_add(off, want_w)
    r.ok("size-in-bits", where, same(o, info["bits"], off), "size_in_bits is %r, sum of widths %r" % (info["bits"], off))
    b = lin_mul(info["bytes"], 8)
    r.ok("size-in-bytes", where, o.facts.decide(le0(lin_add(off, b, -1))) is True and
         o.facts.decide(le0(lin_add(lin_add(b, -7), off, -1))) is True,
         "size_in_bytes %r is not %r bits rounded up" % (info["bytes"], off))


def g01(prop):
    r = Report(prop, "abstract interpretation of grammar+builder over schema shapes with unknown widths: offset = sum of preceding widths, "
               "bits = total, bytes = ceil(bits/8)",
               "Structs of 1 to 6 fields whose widths are unknowns in their legal range (affine domain), enum-typed fields with and "
               "without a spelled width, decorated fields, several structs, namespaces, enumerations and structs of the same name in "
               "several namespaces, multivector index structs.")
    return spread(r, g01_body, 60)


def g01_body(r, t, turn):
    wide = ["u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "bool"]
    shapes = [[x] for x in wide]
    shapes += [[a, b] for a in ("u64", "i32", "bool") for b in ("u64", "i8", "bool")]
    shapes += [["u64", "u8", "i32"], ["i8", "u64", "u64"], ["bool", "u64", "bool"], ["u64"] * 4, ["u16", "bool", "u64", "i64", "u8"],
               ["i64", "u64", "i32", "u32", "i8", "u64"]]
    deco = {1: "@range( r )", 2: "@const( C )", 3: "@optional( C )"}
    for k, shape in enumerate(shapes):
        for mode in (0, 1, 2):     # 0 plain, 1 enum fields interleaved, 2 decorated
            if not turn():
                continue
            fields, names, widths, nums = [], [], [], []
            for i, ty in enumerate(shape):
                n = "f%d" % i
                if NATIVE[ty] == 1:
                    fields.append("%s : %s;" % (n, ty))
                    widths.append(1)
                else:
                    d = ""
                    lo = 1
                    if mode == 2 and ty == "u64":
                        d = deco[1 + (i + k) % 3].replace("r ", "r%d " % i)
                        lo = 4
                    fields.append("%s %s : %s : %%s;" % (d, n, ty))
                    nums.append(("w%d" % i, lo, NATIVE[ty]))
                    widths.append(sym("w%d" % i))
                names.append(n)
                if mode == 1:
                    e, w = [("E3", 3), ("E3 : 3", 3), ("E8", 8), ("EI2", 2)][(i + k) % 4]
                    fields.append("e%d : %s;" % (i, e))
                    names.append("e%d" % i)
                    widths.append(w)
            text = ("namespace m { enum E3 : u8 : 6 { A } enum EI2 : u16 : 7 { A } struct Other { z : u32 : 5; y : i16; } "
                    "struct S { g : E3; h : EI2; f0 : u8 : 5; e0 : .n.E3; i : .n.q.E3; k : bool; } } "
                    "namespace n { enum E3 : u8 : 7 { A } struct Last { e0 : E3; f0 : u8 : 3; a : q.E3; z : .m.E3; f1 : i16; } } namespace n.q { const u64 C = 5; enum E3 : u8 : 3 { A, B } "
                    "enum E8 : u8 { A } enum EI2 : i16 : 2 { A } struct S { " + " ".join(fields) + " } struct Last { a : u8 : 7; b : bool; c : u32 : 9; } "
                    "archive X { v : vector<S>; l : vector<Last>; m : multivector<33, Last>; } }")

            def q(I, tr):
                return [struct_info(I, tr, p) for p in (".n.q.S", ".m.Other", ".n.q.Last", ".n.q._builtin.multivector.IndexType33", ".m.S",
                                                              ".n.Last")]
            where = "struct{%s}" % " ".join(f.replace("%s", "w") for f in fields)
            for o in t.run(text, q, nums):
                if not r.ok("legal-accepted", where, o.kind == "return", "legal struct is %s" % verdict(o)):
                    continue
                s, other, last, idx, ms, nlast = o.value
                check_layout(r, o, where, s, names, widths)
                check_layout(r, o, where + " / .m.S", ms, ["g", "h", "f0", "e0", "i", "k"], [6, 7, 5, 7, 3, 1])
                check_layout(r, o, where + " / .n.Last", nlast, ["e0", "f0", "a", "z", "f1"], [7, 3, 3, 6, 16])
                check_layout(r, o, where + " / Other", other, ["z", "y"], [5, 16])
                check_layout(r, o, where + " / Last", last, ["a", "b", "c"], [7, 1, 9])
                check_layout(r, o, where + " / IndexType33", idx, ["value"], [33])


# ------------------------------------------------------------------ G02
def g02(prop):
    r = Report(prop, "abstract interpretation with an unknown width per type: accepted iff 1 <= w <= native width; default widths; signedness",
               "Every basic type as field type (width absent / unknown), as enumeration type (absent / every width 0..66), enum-typed fields "
               "with an unknown width, multivector index widths.")
    return spread(r, g02_body, 200)


def g02_body(r, t, turn):

    def bounds(o, where, rule, lo, hi):
        w = sym("w")
        bad = [le0(lin_add(w, -(lo - 1))), le0(lin_add(hi + 1, w, -1))]
        good = [le0(lin_add(lo, w, -1)), le0(lin_add(w, -hi))]
        if o.kind == "return":
            r.ok(rule, where, not any(possible(o, b) for b in bad), "a width outside of %d..%d is accepted (partition %s)" % (lo, hi, o.facts.cons))
        else:
            r.ok(rule, where, is_syntax_error(o), "illegal width is reported as %s" % verdict(o))
            r.ok(rule + "-justified", where, not possible(o, *good), "a width within %d..%d is refused: %s" % (lo, hi, verdict(o)))
    for ty, n in NATIVE.items():
        if not turn():
            continue
        def q(I, tr):
            s = find(I, tr, ".n.S")
            f = list(I.iterate(attr(I, s, "fields")))[0]
            return attr(I, f, "type", "width"), attr(I, f, "type", "is_signed"), attr(I, f, "type", "name")
        seen = 0
        for o in t.run("namespace n { struct S { f : " + ty + " : %s; } }", q, [("w", 0, None)]):
            where = "field : %s : w" % ty
            bounds(o, where, "field-width", 1, n)
            if o.kind == "return":
                seen += 1
                r.ok("keeps-width", where, same(o, o.value[0], sym("w")), "width is %r" % (o.value[0],))
                r.ok("signedness", where, o.value[1] is (ty in SIGNED), "is_signed is %r" % (o.value[1],))
                r.ok("type-name", where, o.value[2] == ty, "type is %r" % (o.value[2],))
        r.ok("legal-accepted", "field : %s : w" % ty, seen > 0, "no width is accepted")
        for o in t.run("namespace n { struct S { f : %s; } }" % ty, q):
            if r.ok("legal-accepted", "field : %s" % ty, o.kind == "return", verdict(o)):
                r.ok("default-width", "field : %s" % ty, o.value[0] == n and type(o.value[0]) is int, "default width is %r, not %d" % (o.value[0], n))
                r.ok("signedness", "field : %s" % ty, o.value[1] is (ty in SIGNED), "is_signed is %r" % (o.value[1],))

        def qe(I, tr):
            e = find(I, tr, ".n.E")
            f = list(I.iterate(attr(I, find(I, tr, ".n.S"), "fields")))[0]
            return (attr(I, e, "type", "width"), attr(I, e, "type", "is_signed"), attr(I, f, "type", "width"), attr(I, f, "type", "is_signed"),
                    len(list(I.iterate(attr(I, e, "values")))))
        for w in [None] + list(range(0, 12)) + [15, 16, 17, 31, 32, 33, 63, 64, 65, 66]:
            text = "namespace n { enum E : %s%s { A } struct S { f : E; } }" % (ty, "" if w is None else " : %d" % w)
            where = text
            eff = n if w is None else w
            legal = 1 <= eff <= n and eff <= 8
            for o in t.run(text, qe):
                if legal:
                    if r.ok("legal-accepted", where, o.kind == "return", verdict(o)):
                        r.ok("enum-width", where, o.value[0] == eff and o.value[2] == eff, "enum/field width is %r/%r" % (o.value[0], o.value[2]))
                        r.ok("signedness", where, o.value[1] is (ty in SIGNED) and o.value[3] is (ty in SIGNED), "is_signed is %r/%r" % (o.value[1], o.value[3]))
                else:
                    r.ok("enum-width-refused", where, is_syntax_error(o), "%s" % verdict(o))
        for w in [1, 2, 3, 7, 8]:
            if w > n:
                continue
            def qf(I, tr):
                f = list(I.iterate(attr(I, find(I, tr, ".n.S"), "fields")))[0]
                return attr(I, f, "type", "width"), attr(I, f, "type", "is_signed")
            seen = 0
            for pos in ("enum E : %s : %d { A } struct S { f : E : %%s; }", "struct S { f : .n.E : %%s; } enum E : %s : %d { A }"):
                for o in t.run("namespace n { " + pos % (ty, w) + " }", qf, [("w", 0, None)]):
                    where = "enum E : %s : %d, field : E : w" % (ty, w)
                    bounds(o, where, "enum-field-width", w, w)
                    if o.kind == "return":
                        seen += 1
                        r.ok("enum-field-keeps", where, same(o, o.value[0], w), "field width is %r" % (o.value[0],))
                        r.ok("signedness", where, o.value[1] is (ty in SIGNED), "is_signed is %r" % (o.value[1],))
            r.ok("legal-accepted", "enum E : %s : %d as field : E : %d" % (ty, w, w), seen >= 2, "not accepted")

    # two enumerations of one name
    for k, (a, b) in enumerate([("u8 : 2", "u16 : 7"), ("i8 : 3", "u8 : 3"), ("u32 : 4", "u32 : 5"), ("u8", "i8"), ("i64 : 2", "i8 : 1")]):
        for decls in ("namespace n { enum E : %s { A } struct S { f : E; } } namespace k { enum E : %s { A } struct S { f : E; } }",
                      "namespace n { enum E : %s { A } struct S { f : E; g : .k.E; } } namespace k { struct S { f : E; g : .n.E; } enum E : %s { A } }",
                      "namespace n.k { enum E : %s { A } struct Z { f : E; } } namespace n { struct S { f : k.E; } } namespace k { enum E : %s { A } struct S { f : E; g : .n.k.E; } }"):
            if not turn():
                continue
            text = decls % (a, b)

            def qs(I, tr):
                out = []
                for p in (".n.S", ".k.S"):
                    for f in I.iterate(attr(I, find(I, tr, p), "fields")):
                        out.append((p, attr(I, f, "name"), attr(I, f, "type", "width"), attr(I, f, "type", "is_signed")))
                return out
            kind = {".n.S": {"f": a, "g": b}, ".k.S": {"f": b, "g": a}}
            for o in t.run(text, qs):
                if r.ok("legal-accepted", text, o.kind == "return", verdict(o)):
                    for p, f, w, sign in o.value:
                        ty, _, want = kind[p][f].partition(" : ")
                        want = int(want) if want else NATIVE[ty]
                        r.ok("same-name-width", "%s: %s.%s" % (text, p, f), w == want, "width is %r, not %d" % (w, want))
                        r.ok("same-name-signedness", "%s: %s.%s" % (text, p, f), sign is (ty in SIGNED), "is_signed is %r" % (sign,))

    def qm(I, tr):
        return attr(I, find(I, tr, ".n.X.m"), "width")
    seen = 0
    for o in () if not turn() else t.run("namespace n { struct S { f : u8; } archive X { m : multivector<%s, S>; } }", qm, [("w", 0, None)]):
        bounds(o, "multivector< w >", "index-width", 1, 64)
        if o.kind == "return":
            seen += 1
            r.ok("keeps-width", "multivector< w >", same(o, o.value, sym("w")), "width is %r" % (o.value,))
        r.ok("legal-accepted", "multivector< w >", o.kind == "return" or not possible(o, le0(lin_add(1, sym("w"), -1)), le0(lin_add(sym("w"), -64))), "refused")


# ------------------------------------------------------------------ G03
def enum_oracle(signed, width, entries):
    """entries: explicit value or None -> (verdict, values)"""
    vals, cur = [], 0
    for e in entries:
        cur = cur if e is None else e
        vals.append(cur)
        cur += 1
    lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
    ok = len(set(vals)) == len(vals) and all(lo <= v <= hi for v in vals) and not len(vals) * 2 + 256 < (1 << width)
    return ok, vals, range(lo, hi + 1)


def enum_query(I, tr):
    e = find(I, tr, ".n.E")
    return [(name_of(I, v), attr(I, v, "value"), attr(I, v, "auto_generated")) for v in I.iterate(attr(I, e, "values"))]


def g03(prop):
    r = Report(prop, "abstract interpretation of the enumeration builder; every accepted partition has the declared values and each "
               "representable value exactly once; every rejected partition contains no legal declaration",
               "Types x widths x value lists: implicit, explicit, mixed, with one or two unknown explicit constants (widths up to 3), "
               "concrete lists up to width 8, sparse enumerations up to width 16; stored schema text.")
    return spread(r, g03_body, 400)


def g03_body(r, t, turn):

    def complete(o, where, names, vals, full):
        got = o.value
        declared = [(n, v) for n, v, a in got if a is False]
        r.ok("declared-values", where, [n for n, _ in declared] == names and
             all(same(o, v, w) for (_, v), w in zip(declared, vals)), "declared enumerators are %s, expected %s" % (declared, list(zip(names, vals))))
        nm = [n for n, _, _ in got]
        r.ok("unique-names", where, len(set(nm)) == len(nm), "duplicate names %s" % nm)
        r.ok("count", where, len(got) == len(full), "%d enumerators for %d representable values" % (len(got), len(full)))
        for p in full:
            hit = [n for n, v, _ in got if same(o, v, p)]
            if len(hit) != 1:
                r.ok("complete", where, False, "value %d maps to the enumerators %s" % (p, hit))
                return
        r.ok("complete", where, True)

    def fmt(entries):
        return ", ".join("V%d%s" % (i, "" if e is None else " = %s" % e) for i, e in enumerate(entries))

    lists = [[None], [None, None], [1], [0, None], [None, 0], [1, 0], [1, 1], [3, None], [None, 3, None], [2, None, 5], [7, 0, None, None],
             [-1], [-1, None], [-2, None, None], [0, -1], [5, -4], [None, -4, None], [-5], [1, None, 1], [None, 1, None, 1], [0, None, 1],
             [127, -128], [128], [255], [256], [254, None], [255, None], [-128, None], [-129], [3, 2, 1, 0], [0, None, None, None, None]]
    for ty, w in [("u8", 1), ("u8", 2), ("u8", 3), ("u8", 8), ("i8", 1), ("i8", 2), ("i8", 3), ("i8", 8), ("bool", 1), ("u16", 8), ("i32", 3), ("u64", 4),
                  ("i64", 8)]:
        for ent in lists:
            if not turn():
                continue
            ok, vals, full = enum_oracle(ty in SIGNED, w, ent)
            where = "enum : %s : %d { %s }" % (ty, w, fmt(ent))
            for o in t.run("namespace n { enum E : %s : %d { %s } }" % (ty, w, fmt(ent)), enum_query):
                if ok:
                    if r.ok("legal-accepted", where, o.kind == "return", verdict(o)):
                        complete(o, where, ["V%d" % i for i in range(len(ent))], vals, full)
                else:
                    r.ok("illegal-refused", where, is_syntax_error(o), verdict(o))
    # density limit
    for ty, w, n in [("u16", 9, 1), ("u16", 9, 128), ("u16", 9, 127), ("u16", 10, 383), ("u16", 10, 384), ("u16", 16, 3), ("u32", 32, 2), ("u64", 64, 1), ("i16", 9, 127),
                     ("i16", 9, 128), ("u8", 8, 1), ("i64", 63, 1)]:
        if not turn():
            continue
        ent = [None] * n
        ok, vals, full = enum_oracle(ty in SIGNED, w, ent)
        where = "enum : %s : %d with %d values" % (ty, w, n)
        for o in t.run("namespace n { enum E : %s : %d { %s } }" % (ty, w, fmt(ent)), enum_query):
            if ok:
                if r.ok("legal-accepted", where, o.kind == "return", verdict(o)):
                    complete(o, where, ["V%d" % i for i in range(n)], vals, full)
            else:
                r.ok("sparse-refused", where, is_syntax_error(o), verdict(o))
    # unknown constants
    for ty, w in [("u8", 1), ("u8", 2), ("i8", 1), ("i8", 2), ("u16", 3), ("i32", 3)]:
        signed = ty in SIGNED
        for shape in (["c"], ["-c"], ["c", None], [None, "c", None], ["-c", None, None], ["c", "d"], ["-c", None, "d"]):
            if not turn():
                continue
            if w == 3 and "d" in shape:
                continue
            nums, ent, symv = [], [], []
            cur = 0
            for e in shape:
                if e is not None:
                    nums.append((e[-1], 0, None))
                    cur = sym(e[-1]) if e[0] != "-" else lin_mul(sym(e[-1]), -1)
                    ent.append("-%s" if e[0] == "-" else "%s")
                else:
                    ent.append(None)
                symv.append(cur)
                cur = lin_add(cur, 1)
            where = "enum : %s : %d { %s }" % (ty, w, fmt([None if e is None else e for e in shape]))
            outs = t.run("namespace n { enum E : %s : %d { " % (ty, w) + fmt(ent) + " } }", enum_query, nums)
            win = range(0, (1 << w) + 3)
            vars_ = [x[0] for x in nums]
            for o in outs:
                if o.kind == "return":
                    _, _, full = enum_oracle(signed, w, [0])
                    complete(o, where, ["V%d" % i for i in range(len(shape))], symv, full)
                else:
                    r.ok("illegal-refused", where, is_syntax_error(o), verdict(o))
            for combo in itertools.product(win, repeat=len(vars_)):
                env = dict(zip(vars_, combo))
                con = [None if e is None else (-env["c"] if e == "-c" else env[e]) for e in shape]
                ok, _, _ = enum_oracle(signed, w, con)
                for o in outs:
                    if possible(o, *[eq_int(sym(v), k) for v, k in env.items()]):
                        r.ok("verdict", where, (o.kind == "return") == ok, "with %s: %s" % (env, verdict(o)))
            # everything beyond the window is too large
            for v in vars_:
                for o in outs:
                    if o.kind == "return":
                        r.ok("verdict-large", where, not possible(o, le0(lin_add(len(win), sym(v), -1))), "%s >= %d is accepted" % (v, len(win)))

    def qs(I, tr):
        return I.str(I.call(I.getattr(tr, "schema"), [find(I, tr, ".n.E")], {}))
    for ty, w, ent in [("u8", 2, [2]), ("i8", 2, [-1]), ("u8", 8, [None, 7]), ("i16", 3, [1, None])]:
        if not turn():
            continue
        for o in t.run("namespace n { enum E : %s : %d { %s } }" % (ty, w, fmt(ent)), qs):
            _, vals, _ = enum_oracle(ty in SIGNED, w, ent)
            ok = o.kind == "return" and isinstance(o.value, str)
            txt = o.value if ok else ""
            r.ok("placeholders-not-stored", "enum : %s : %d { %s }" % (ty, w, fmt(ent)),
                 ok and "UNKNOWN" not in txt and txt.count("=") == len(vals), "stored schema %r" % (txt or verdict(o)))


# ------------------------------------------------------------------ G04
def g04(prop):
    r = Report(prop, "abstract interpretation with an unknown constant: accepted iff representable; decorations accepted iff type equal and value fits",
               "Constants of every type with an unknown value of either sign, hexadecimal and zero-padded literals; @const and @optional over every "
               "type pair and every field width with an unknown constant; missing, wrongly kinded and repeated annotations.")
    return spread(r, g04_body, 500)


def g04_body(r, t, turn):

    def rng(ty, w=None):
        w = w or NATIVE[ty]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty in SIGNED else (0, (1 << w) - 1)

    def judge(o, where, rule, val, lo, hi):
        bad = [le0(lin_add(val, -(lo - 1))), le0(lin_add(hi + 1, val, -1))]
        good = [le0(lin_add(lo, val, -1)), le0(lin_add(val, -hi))]
        if o.kind == "return":
            r.ok(rule, where, not any(possible(o, b) for b in bad), "a value outside of %d..%d is accepted" % (lo, hi))
        else:
            r.ok(rule, where, is_syntax_error(o), "refused with %s" % verdict(o))
            r.ok(rule + "-justified", where, not possible(o, *good), "a value within %d..%d is refused: %s" % (lo, hi, verdict(o)))

    def q(I, tr):
        c = find(I, tr, ".n.C")
        return attr(I, c, "value"), attr(I, c, "type", "name")
    for ty in NATIVE:
        lo, hi = rng(ty)
        for sign in ("", "-"):
            if not turn():
                continue
            val = sym("c") if not sign else lin_mul(sym("c"), -1)
            seen = 0
            for o in t.run("namespace n { const " + ty + " C = " + sign + "%s; }", q, [("c", 0, None)]):
                where = "const %s = %sc" % (ty, sign)
                judge(o, where, "constant-fits", val, lo, hi)
                if o.kind == "return":
                    seen += 1
                    r.ok("keeps-value", where, same(o, o.value[0], val) and o.value[1] == ty, "value/type %r" % (o.value,))
            r.ok("legal-accepted", "const %s = %sc" % (ty, sign), seen > 0, "nothing is accepted")
        for lit, v in [("0x%X" % hi, hi), ("0x%x" % (hi + 1), hi + 1), ("00%d" % hi, hi), ("0%d" % (hi + 1), hi + 1), (str(lo), lo), (str(lo - 1), lo - 1),
                       ("-0x%x" % -lo if lo else "0x0", lo), ("-0", 0), ("08", 8), ("0x08", 8)]:
            if not turn():
                continue
            for o in t.run("namespace n { const %s C = %s; }" % (ty, lit), q):
                where = "const %s = %s" % (ty, lit)
                if lo <= v <= hi:
                    r.ok("literal", where, o.kind == "return" and o.value[0] == v, "value %d is %s %s" % (v, verdict(o), o.value if o.kind == "return" else ""))
                else:
                    r.ok("literal", where, is_syntax_error(o), verdict(o))
    # decorations: widths x values
    for ty, n in NATIVE.items():
        ws = range(1, n + 1) if n <= 8 else sorted({1, 2, 7, 8, 9, n // 2, n - 1, n})
        for w in ws:
            lo, hi = rng(ty, w)
            nlo, nhi = rng(ty)
            for deco in ("const", "optional"):
                if not turn():
                    continue
                for sign in ("", "-"):
                    mx = nhi if not sign else -nlo
                    val = sym("c") if not sign else lin_mul(sym("c"), -1)
                    text = "namespace n { const " + ty + " C = " + sign + "%s; struct S { a : u8 : 3; @" + deco + "( C ) f : " + ty + " : %d; } }" % w
                    seen = 0
                    for o in t.run(text.replace("%s", "\0").replace("\0", "%s"), None, [("c", 0, mx)]):
                        where = "@%s( const %s = %sc ) f : %s : %d" % (deco, ty, sign, ty, w)
                        judge(o, where, "decoration-fits", val, lo, hi)
                        seen += o.kind == "return"
                    r.ok("legal-accepted", "@%s %s : %d" % (deco, ty, w), seen > 0, "nothing is accepted")
    # types
    for a in NATIVE:
        for b in NATIVE:
            for deco in ("const", "optional"):
                t.check(r, "type-match", "namespace n { const %s C = 0; struct S { @%s( C ) f : %s; } }" % (a, deco, b), a == b)
    base = "namespace m { const u8 D = 3; } namespace n { const u8 C = 1; const u8 C2 = 2; enum E : u8 : 2 { A, B } struct Z { z : u8; } archive X { z : vector<Z>; } struct S { %s } }"
    for body, ok in [("@const( C ) @const( C2 ) f : u8;", True), ("@optional( C ) @const( C2 ) f : u8;", True), ("@optional( C ) @optional( C2 ) f : u8;", False),
                     ("@const( .n.C ) f : u8;", True), ("@const( .m.D ) f : u8;", True), ("@optional( .m.D ) f : u8;", True), ("@const( D ) f : u8;", False),
                     ("@const( Missing ) f : u8;", False), ("@optional( Missing ) f : u8;", False), ("@const( E ) f : u8;", False), ("@optional( Z ) f : u8;", False),
                     ("@const( X ) f : u8;", False), ("@optional( .n.X.z ) f : u8;", False), ("@const( .n.E.A ) f : u8;", False), ("@const( C ) f : E;", False),
                     ("@optional( C ) f : E;", False), ("a : u8; @const( a ) f : u8;", False), ("@const( .m ) f : u8;", False),
                     ("@optional( C ) f : u8 : 1;", True), ("@optional( C2 ) f : u8 : 1;", False), ("@const( C2 ) f : u8 : 1;", False),
                     ("@const( C ) @const( C2 ) f : u8 : 1;", False), ("@const( C2 ) @optional( C ) f : u8 : 1;", False), ("@optional( C ) a : u8; @optional( C2 ) f : u8;", True),
                     ("@optional( C ) @const( C2 ) @optional( .m.D ) f : u8;", False)]:
        t.check(r, "decoration-legal" if ok else "decoration-refused", base % body, ok)


# ------------------------------------------------------------------ G05
def g05(prop):
    r = Report(prop, "abstract interpretation of the builder over every placement of a @range struct",
               "Range field first / middle / last, plain or with constants, in structs used by every combination of resource kinds and decorations; "
               "name clashes with fields and ranges; combination with @optional.")
    return spread(r, g05_body, 150)


def g05_body(r, t, turn):
    structs = {"first": "@range( r ) a : u32; b : u8; c : u8;", "middle": "a : u32; @range( r ) b : u8; c : u8;", "last": "a : u32; b : u8; @range( r ) c : u8;",
               "const": "a : u32; @const( K ) @range( r ) b : u8; c : u8;", "two": "@range( r ) a : u32; @range( q ) b : u8; c : u8;"}
    kinds = {"vector<R>": True, "R": False, "multivector<32, R>": False, "multivector<32, P, R>": False, "multivector<32, R, P>": False, "vector<.n.R>": True,
             ".n.R": False, "multivector<8, P, .n.R>": False, "vector<P>": True, "P": True, "multivector<32, P>": True, "raw_data": True, "archive Y": True}
    decos = ["", "@optional ", "@explicit_reference( %s, v0 ) "]
    for sn, body in structs.items():
        for kn, ok in kinds.items():
            for d in decos:
                if "%s" in d:
                    used = "R.a" if "R" in kn.replace("raw", "") else "P.p"
                    if kn in ("raw_data", "archive Y"):
                        continue
                    d = d % used
                for rest in ("", "o : vector<R>; ", "o : R; "):
                    if rest and d:
                        continue
                    want = ok and rest != "o : R; "
                    text = ("namespace n { const u8 K = 1; struct P { p : u16; } struct R { %s } archive Y { y : vector<P>; } "
                            "archive X { v0 : vector<P>; %s%sx : %s; } }" % (body, rest, d, kn))
                    t.check(r, "placement-legal" if want else "placement-refused", text, want)
    for b, ok in [("@range( f ) f : u8;", False), ("@range( g ) f : u8; g : u8;", False), ("g : u8; @range( g ) f : u8;", False), ("@range( h ) f : u8; g : u8;", True),
                  ("@range( h ) f : u8; @range( h ) g : u8;", False), ("@range( h ) @range( k ) f : u8;", False), ("@range( h ) f : u8; @range( k ) g : u8;", True),
                  ("@range( h ) @optional( K ) f : u8;", False), ("@optional( K ) @range( h ) f : u8;", False), ("@range( h ) @const( K ) f : u8;", True),
                  ("@optional( K ) f : u8; @range( h ) g : u8;", True), ("x : u8; y : u8; z : u8; @range( y ) w : u8;", False), ("@range( w ) x : u8; y : u8; w : u8;", False),
                  ("@range( h ) f : E;", True), ("@range( F ) f : u8;", True), ("@range( R ) f : u8;", True)]:
        for use in ("archive X { v : vector<R>; }", ""):
            t.check(r, "range-names-legal" if ok else "range-names-refused",
                    "namespace n { const u8 K = 1; enum E : u8 { A } struct R { %s } %s }" % (b, use), ok)
    # in the same struct name in another namespace / archive order
    for text, ok in [("namespace a { struct R { @range( r ) x : u8; } } namespace b { struct R { x : u8; } archive X { i : R; } }", True),
                     ("namespace a { struct R { @range( r ) x : u8; } } namespace b { struct R { x : u8; } archive X { i : .a.R; } }", False),
                     ("namespace b { archive X { i : .a.R; } } namespace a { struct R { @range( r ) x : u8; } }", False),
                     ("namespace b { archive X { s : archive Z; } archive Z { m : multivector<16, .a.R>; } } namespace a { struct R { @range( r ) x : u8; } }", False),
                     ("namespace b { archive X { s : archive Z; } archive Z { m : vector<.a.R>; } } namespace a { struct R { @range( r ) x : u8; } }", True),
                     ("namespace n { struct R { @range( r ) x : u8; } @bound_implicitly( b : v, w ) archive X { v : vector<R>; w : vector<R>; } }", True)]:
        t.check(r, "placement-legal" if ok else "placement-refused", text, ok)


# ------------------------------------------------------------------ G06
DECL = {"struct": ("struct %s { xf : u8; }", {"": "struct", ".xf": "field"}),
        "enum": ("enum %s : u8 { XV }", {"": "enum", ".XV": "value"}),
        "const": ("const u8 %s = 1;", {"": "const"}),
        "archive": ("archive %s { xr : raw_data; }", {"": "archive", ".xr": "resource"})}

# reference kind: (expected kind, container, site text, how to find the referenced node)
SITES = {
    "vector": ("struct", "A", "site : vector< $ >;", lambda I, n: list(I.iterate(attr(I, n, "referenced_structures")))[0]),
    "optional vector": ("struct", "A", "@optional site : vector< $ >;", lambda I, n: list(I.iterate(attr(I, n, "referenced_structures")))[0]),
    "instance": ("struct", "A", "site : $;", lambda I, n: list(I.iterate(attr(I, n, "referenced_structures")))[0]),
    "multivector": ("struct", "A", "site : multivector< 32, P, $ >;", lambda I, n: list(I.iterate(attr(I, n, "referenced_structures")))[2]),
    "sub-archive": ("archive", "A", "site : archive $;", lambda I, n: attr(I, n, "target")),
    "field type": ("enum", "S", "site : $;", lambda I, n: attr(I, n, "type_reference")),
    "const": ("const", "S", "@const( $ ) site : u8;", lambda I, n: list(I.iterate(attr(I, n, "const_value_refs")))[0]),
    "optional": ("const", "S", "@optional( $ ) site : u8;", lambda I, n: attr(I, n, "invalid_value")),
    "explicit destination": ("resource", "A", "@explicit_reference( P.p, $ ) site : vector< P >;",
                             lambda I, n: attr(I, list(I.iterate(attr(I, n, "explicit_references")))[0], "destination")),
    "bound": ("resource", "A", "@bound_implicitly( site : $ )", None),
}


def resolve(symbols, scopes, ref):
    if ref.startswith("."):
        return ref if ref in symbols else None
    for s in scopes:
        if s + "." + ref in symbols:
            return s + "." + ref
    return None


def name_schema(decls, member, site_kind, spelled):
    """schema with the reference `spelled` at the site, the symbol table and the scopes of the site"""
    want, cont, site, _ = SITES[site_kind]
    sym_ = {".p": "ns", ".p.q": "ns", ".z": "ns", ".p.q.P": "struct", ".p.q.P.p": "field", ".p.q.A": "archive", ".p.q.S": "struct", ".p.q.S.s0": "field",
            ".p.q.B": "archive", ".p.q.B.X": "resource", ".p.q.A.a0": "resource"}
    body = {".p": [], ".p.q": [], ".z": []}
    for ns, kind in decls.items():
        txt, syms = DECL[kind]
        body[ns].append(txt % "X")
        for suffix, k in syms.items():
            sym_[ns + ".X" + suffix] = k
    s = site.replace("$", spelled)
    mem = ""
    if member:
        mem = "X : raw_data;" if cont == "A" else "X : u8;"
        sym_[".p.q.%s.X" % cont] = "resource" if cont == "A" else "field"
    sym_[".p.q.%s.site" % cont] = "resource" if cont == "A" else "field"
    pre, inner = (s + " ", "") if site_kind == "bound" else ("", s)
    arch = "%sarchive A { a0 : vector< P >; %s }" % (pre if cont == "A" else "", (mem + " " + inner) if cont == "A" else "")
    stru = "struct S { s0 : u8; %s }" % ((mem + " " + inner) if cont == "S" else "")
    text = "namespace p { %s } namespace p.q { struct P { p : u8; } %s %s archive B { X : raw_data; } %s } namespace z { %s }" % (
        " ".join(body[".p"]), arch, stru, " ".join(body[".p.q"]), " ".join(body[".z"]))
    return text, sym_, [".p.q." + cont, ".p.q"], want


def g06(prop):
    r = Report(prop, "abstract interpretation of resolver and builder compared with an independent scope oracle over the symbol table of each schema",
               "Reference kinds x spellings (plain, absolute, relative dotted, wrong namespace) x declared locations (member of the enclosing archive or "
               "struct, same, parent, other namespace) x declared kinds; all pairs of duplicate declarations; cycles; explicit references to unused structs.")
    return spread(r, g06_body, 900)


def g06_body(r, t, turn):
    for kind, (want, cont, _, how) in SITES.items():
        others = {"struct": "archive", "archive": "struct", "enum": "struct", "const": "enum", "resource": "struct"}
        right = want if want != "resource" else "archive"
        configs = [({}, False), ({".p.q": right}, False), ({".p": right}, False), ({".z": right}, False), ({".p.q": right, ".z": right}, False),
                   ({".p.q": right, ".p": others[want], ".z": others[want]}, False), ({".p.q": others[want], ".p": right, ".z": right}, False),
                   ({".p": right, ".z": right}, False), ({".p.q": right}, True), ({}, True), ({".z": right}, True), ({".p.q": others[want]}, True)]
        spell = ["X", ".p.q.X", ".p.X", ".z.X", "z.X", "q.X"]
        if want == "resource":
            spell += ["B.X", ".p.q.B.X", ".p.q.A.X", "A.X", "A.a0", "a0", ".z.X.xr", "X.xr", "q.B.X", "P", "site"]
        if want == "enum":
            spell += ["X.XV"]
        for decls, member in configs:
            for sp in spell:
                if not turn():
                    continue
                text, symbols, scopes, want = name_schema(decls, member, kind, sp)
                path = resolve(symbols, scopes, sp)
                legal = path is not None and symbols[path] == want

                def q(I, tr):
                    n = find(I, tr, scopes[0] + ".site")
                    if how is None:
                        ref = [c for c in I.iterate(attr(I, n, "children"))][0]
                    else:
                        ref = how(I, n)
                    node = attr(I, ref, "node")
                    return attr(I, node, "path"), node is find(I, tr, path) if path else None
                where = "%s reference %s" % (kind, text)
                for o in t.run(text, q):
                    if legal:
                        if r.ok("legal-accepted", where, o.kind == "return", "resolves to %s but is %s" % (path, verdict(o))):
                            r.ok("innermost", where, o.value[0] == path and o.value[1] is True, "resolved to %r, expected %s" % (o.value[0], path))
                    else:
                        r.ok("refused", where, is_syntax_error(o), "%s is %s; it is %s" % (sp, "undeclared" if path is None else "a " + symbols[path], verdict(o)))
    # explicit references: source struct / field, usage
    base = ("namespace m { struct P { p : u8; } struct Q { p : u8; } } namespace n { struct P { p : u8; q : u16; } struct Q { p : u8; } struct X { y : u8; } "
            "archive A { d : vector< P >; %s e : %s; } archive B { x : vector< Q >; } }")
    types = {"vector< P >": {".n.P"}, "vector< .m.P >": {".m.P"}, "P": {".n.P"}, "multivector< 32, P, Q >": {".n.P", ".n.Q"}, "multivector< 32, Q, .m.P >": {".n.Q", ".m.P"},
             "raw_data": set(), "archive B": set()}
    srcs = {"P.p": (".n.P", True), "P.q": (".n.P", True), "P.x": (".n.P", False), "Q.p": (".n.Q", True), ".n.P.p": (".n.P", True), ".m.P.p": (".m.P", True),
            ".m.Q.p": (".m.Q", True), "X.y": (".n.X", True), "Missing.p": (None, False), ".m.P.q": (".m.P", False), "A.d": (None, False), "d.p": (None, False)}
    for ty, used in types.items():
        for src, (st, fld) in srcs.items():
            if not turn():
                continue
            legal = st in used and fld

            def q(I, tr):
                er = list(I.iterate(attr(I, find(I, tr, ".n.A.e"), "explicit_references")))[0]
                return attr(I, er, "field", "node", "path"), attr(I, er, "structure", "node", "path"), attr(I, er, "destination", "node", "path")
            text = base % ("@explicit_reference( %s, d )" % src, ty)
            for o in t.run(text, q):
                if legal:
                    if r.ok("legal-accepted", text, o.kind == "return", verdict(o)):
                        r.ok("explicit-source", text, o.value == (st + "." + src.split(".")[-1], st, ".n.A.d"), "resolved to %s" % (o.value,))
                else:
                    r.ok("explicit-source-refused", text, is_syntax_error(o), verdict(o))
    # duplicates
    forms = {k: v[0] % "X" for k, v in DECL.items()}
    for a in forms:
        for b in forms:
            for text, ok in [("namespace n { %s %s }" % (forms[a], forms[b]), False), ("namespace n { %s } namespace n { %s }" % (forms[a], forms[b]), False),
                             ("namespace n { %s } namespace m { %s }" % (forms[a], forms[b]), True), ("namespace n { %s } namespace n.m { %s }" % (forms[a], forms[b]), True),
                             ("namespace n.k { %s } namespace k { %s }" % (forms[a], forms[b]), True)]:
                t.check(r, "same-name-legal" if ok else "duplicate-refused", text, ok)
        for text, ok in [("namespace n { %s } namespace n.X { struct Y { y : u8; } }", False), ("namespace n.X { struct Y { y : u8; } } namespace n { %s }", False),
                         ("namespace n { %s } namespace n.X.Z { struct Y { y : u8; } }", False), ("namespace n { %s } namespace X { struct Y { y : u8; } }", True),
                         ("namespace n { %s } namespace X.n { struct Y { y : u8; } }", True)]:
            t.check(r, "same-name-legal" if ok else "duplicate-refused", text % forms[a], ok)
    for text, ok in [("namespace n { struct S { a : u8; a : u8; } }", False), ("namespace n { struct S { a : u8; b : u8; a : u16; } }", False),
                     ("namespace n { enum E : u8 { A, A } }", False), ("namespace n { enum E : u8 { A, B, A = 7 } }", False), ("namespace n { struct S { a : u8; } struct T { a : u8; } }", True),
                     ("namespace n { enum E : u8 { A } enum F : u8 { A } }", True),
                     ("namespace n { archive A { a : raw_data; a : raw_data; } }", False), ("namespace n { struct S { f : u8; } archive A { a : raw_data; a : vector< S >; } }", False),
                     ("namespace n { archive A { a : raw_data; } archive B { a : raw_data; } }", True),
                     ("namespace n { @bound_implicitly( b : a ) archive A { a : raw_data; b : raw_data; } }", False),
                     ("namespace n { @bound_implicitly( b : a ) @bound_implicitly( b : c ) archive A { a : raw_data; c : raw_data; } }", False),
                     ("namespace n { struct S { A : u8; S : u8; n : u8; } }", True), ("namespace n { struct s { f : u8; } struct S { f : u8; } }", True)]:
        t.check(r, "same-name-legal" if ok else "duplicate-refused", text, ok)
    # cycles
    for text, ok in [("namespace n { archive A { a : archive A; } }", False), ("namespace n { archive A { a : archive B; } archive B { a : archive A; } }", False),
                     ("namespace n { archive A { a : archive B; } archive B { a : archive C; } archive C { x : raw_data; @optional a : archive A; } }", False),
                     ("namespace n { archive A { a : archive .m.B; } } namespace m { archive B { a : archive .n.A; } }", False),
                     ("namespace n { archive Z { z : archive A; } archive A { a : archive B; } archive B { b : archive C; } archive C { c : archive B; } }", False),
                     ("namespace n { archive A { a : archive B; b : archive C; } archive B { c : archive C; } archive C { x : raw_data; } }", True),
                     ("namespace n { archive A { a : archive B; b : archive B; } archive B { x : raw_data; } }", True),
                     ("namespace n { archive C { x : raw_data; } archive B { c : archive C; d : archive C; } archive A { a : archive B; b : archive C; } }", True)]:
        t.check(r, "acyclic-legal" if ok else "cycle-refused", text, ok)


# ------------------------------------------------------------------ G07
def g07(prop):
    r = Report(prop, "abstract interpretation of the builder: max_size = 2^(smallest referencing width) for every order; rendered C++/Rust open checks",
               "All sequences of up to three explicit references with widths from {1, 5, 8, 31, 32, 63, 64}, from one or several resources, structs and archives, "
               "optional and mandatory destinations of every kind, with resources, structs and fields of the same names in other archives and namespaces; one unknown width; the conditions emitted by the C++ and Rust templates.")
    return spread(r, g07_body, 200)


def g07_body(r, t, turn):
    widths = [1, 5, 8, 31, 32, 63, 64]
    seqs = [()] + [(a,) for a in widths] + [(a, b) for a in widths for b in widths] + \
           [(a, b, c) for a in (1, 8, 63, 64) for b in (5, 32, 64) for c in (1, 31, 64)]
    dests = {"vector< T >": "", "vector< T > ": "@optional ", "multivector< 9, T >": "", "T": "", "raw_data": ""}
    for k, seq in enumerate(seqs):
        dl = list(dests.items())
        todo = dl if len(seq) <= 1 else [dl[k % len(dl)]]
        for dk, dopt in todo:
            for form in (0, 1, 2):
                if not turn():
                    continue
                fields = " ".join("f%d : u64 : %d;" % (i, w) for i, w in enumerate(seq)) or "g : u8;"
                if form == 0:      # one resource holding all references
                    refs = " ".join("@explicit_reference( S.f%d, d )" % i for i in range(len(seq))) + " s : vector< S >; "
                    text = "namespace n { struct S { pad : u8 : 3; %s } struct T { t : u8; } archive A { u : vector< T >; %s %sd : %s; } }" % (fields, refs, dopt, dk)
                elif form == 1:    # one resource per reference, after the destination
                    refs = " ".join("@explicit_reference( S.f%d, .n.A.d ) s%d : vector< S >; " % (i, i) for i in range(len(seq)))
                    text = "namespace n { archive A { %sd : %s; %s u : vector< T >; } struct T { t : u8; } struct S { %s pad : u8 : 3; } }" % (dopt, dk, refs, fields)
                else:              # from a multivector and another archive
                    if len(seq) < 2:
                        continue
                    refs = " ".join("@explicit_reference( S.f%d, d )" % i for i in range(1, len(seq))) + " s : multivector< 32, T, S >; "
                    text = ("namespace n { struct S { pad : u8 : 3; %s } struct T { t : u8; } archive A { u : vector< T >; %s %sd : %s; } "
                            "archive B { @explicit_reference( S.f0, A.d ) o : S; } }" % (fields, refs, dopt, dk))
                # the same names elsewhere, with limits of their own
                text = text[:-1] + ("archive C { d : %s; s : vector< S >; } struct Q { f0 : u8 : 2; f1 : u8; f2 : u16; } } "
                                    "namespace m { struct S { f0 : u32 : 17; f1 : u8 : 1; f2 : u8; } struct T { t : u8; } "
                                    "archive A { d : vector< T >; u : raw_data; @explicit_reference( S.f0, u ) s : vector< S >; } }" % dk)
                small = [w for w in seq if w < 64]
                want = 2 ** min(small) if small else None

                def q(I, tr):
                    return tuple(attr(I, find(I, tr, x), "max_size") for x in (".n.A.d", ".n.A.u", ".n.C.d", ".m.A.d", ".m.A.u"))
                for o in t.run(text, q):
                    if r.ok("legal-accepted", text, o.kind == "return", verdict(o)):
                        r.ok("limit", text, o.value[0] == want and type(o.value[0]) is type(want), "max_size is %r, smallest referencing width gives %r" % (o.value[0], want))
                        for v, what in zip(o.value[1:4], ("resource", "resource of the same name in another archive", "resource of the same path in another namespace")):
                            r.ok("unreferenced-unlimited", text, v is None, "max_size of an unreferenced %s is %r" % (what, v))
                        r.ok("limit", text, o.value[4] == 2 ** 17, "max_size in the other namespace is %r" % (o.value[4],))

    def q(I, tr):
        return attr(I, find(I, tr, ".n.A.d"), "max_size")
    for o in () if not turn() else t.run("namespace n { struct S { f : u64 : %s; } archive A { @explicit_reference( S.f, d ) s : vector< S >; d : vector< S >; } }", q, [("w", 1, 64)]):
        w = sym("w")
        if r.ok("legal-accepted", "width w", o.kind == "return", verdict(o)):
            if o.value is None:
                r.ok("limit", "width w", not possible(o, le0(lin_add(w, -63))), "no limit for a width below 64")
            else:
                r.ok("limit", "width w", not possible(o, eq_int(w, 64)) and repr(o.value) in (repr(T("pow2", (w,), "int")), repr(T("pow2", (w,)))) or
                     same(o, o.value, o.I.binop(ast.Pow, 2, w)), "limit is %r, not 2^w" % (o.value,))
    # enum-typed and wider fields as references
    for text, want in [("namespace n { enum E : u8 : 3 { A } struct S { e : E; f : u32; } archive A { @explicit_reference( S.e, d ) s : vector< S >; d : vector< S >; } }", 8),
                       ("namespace n { struct S { f : u32; } archive A { @explicit_reference( S.f, d ) s : vector< S >; d : vector< S >; } }", 2 ** 32),
                       ("namespace n { struct S { f : u64; } archive A { @explicit_reference( S.f, d ) s : vector< S >; d : vector< S >; } }", None),
                       ("namespace n { struct S { f : u16; } archive A { @explicit_reference( S.f, s ) s : vector< S >; d : vector< S >; } }", "self")]:
        if not turn():
            continue
        for o in t.run(text, q):
            if r.ok("legal-accepted", text, o.kind == "return", verdict(o)):
                r.ok("limit", text, o.value == (None if want == "self" else want), "max_size is %r" % (o.value,))

    # the generated bindings refuse to open what exceeds the limit
    from .chk_cpp_archive import limits_open
    limits_open(r, t, turn)
