"""G08: stored schema texts."""
from . import corpus, par, schema
from .chk_gen_tree import spread, verdict, is_syntax_error
from .genlib import *
from .report import Report


def texts_of(I, tree, s):
    """stored schema text of every node that has one"""
    out = []
    for d in s.decls:
        node = find(I, tree, d["path"])
        out.append((d["path"], None, I.str(I.call(I.getattr(tree, "schema"), [node], {}))))
        if d["kind"] == "archive":
            for r in d["resources"]:
                node = find(I, tree, d["path"] + "." + r["name"])
                out.append((d["path"], r["name"], I.str(I.call(I.getattr(tree, "schema"), [node], {}))))
    return out


def g08(prop):
    r = Report(prop, "abstract interpretation of builder, traversal and schema templates; the text is read back by an independent reader and compared with "
               "the declarations it has to contain",
               "Corpus of schema shapes with unknown widths and constants: every node's stored schema has exactly the transitive dependencies, each once, "
               "dependencies first, with every attribute spelled out; equal texts therefore mean equal attributes.")
    return spread(r, g08_body, 130)


# declarations of the same name in two namespaces: of each pair another one is used
SAME_NAMES = [corpus.Shape("same names %d" % i, x) for i, x in enumerate((
    """namespace a { const u8 K = 1; const u8 L = 2; const i16 M = 5; enum E : u8 : 2 { A } struct S { @const( K ) e : u8; x : E; } archive X { s : vector< S >; } }
       namespace b { const u8 K = 3; const u8 L = 4; enum E : u8 : 3 { B } struct S { @optional( L ) e : u8; y : E; } archive X { s : vector< S >; t : .a.S; } }""",
    """namespace b { const i8 K = -1; enum E : i8 : 3 { B } struct S { e : E; } archive I { s : S; } archive X { i : archive I; j : archive .c.I; } }
       namespace c { const u32 K = 7; enum E : u16 : 4 { Q = 2 } struct S { @optional( K ) k : u32 : 4; e : E; } archive I { s : vector< S >; } archive X { m : multivector< 9, S, .b.S >; } }"""))]


def g08_body(r, t, turn):
    for sh in corpus.shapes() + SAME_NAMES:
        if not turn():
            continue

        def q(I, tr):
            text = sh.text % tuple(I.token(sym(n)) for n, _, _ in sh.nums) if sh.nums else sh.text
            s = schema.Schema(text)
            got = texts_of(I, tr, s)
            again = []
            for p, only, x in got:
                # (the grammar has no nested namespace blocks, which stored texts use for dotted namespaces)
                flat = all(d["ns"].count(".") == 1 for d in s.decls)
                if only is None and s.by_path[p]["kind"] == "archive" and isinstance(x, str) and flat:
                    tr2 = build(I, x)
                    again.append((p, x, I.str(I.call(I.getattr(tr2, "schema"), [find(I, tr2, p)], {}))))
            return s, got, again
        for o in t.run(sh.text, q, sh.nums):
            if not r.ok("schema-text", sh.name, o.kind == "return", "%s: %s" % (sh.text, verdict(o))):
                continue
            s, got, again = o.value
            for p, only, x in got:
                where = "%s: %s%s" % (sh.name, p, "." + only if only else "")
                if not r.ok("text-known", where, isinstance(x, str), "text is %r" % (x,)):
                    continue
                bad = schema.check_text(s, p, only, x)
                r.ok("captures-dependencies", where, not bad, "; ".join(bad[:4]))
            for p, x, y in again:
                r.ok("stored-schema-is-stable", "%s: %s" % (sh.name, p), isinstance(y, str) and not schema.check_text(schema.Schema(x), p, None, y),
                     "schema built from the stored text stores %r" % (y,))
