"""G14: the schema literals of every backend denote the stored schema text, character for character.

The generator is interpreted on every schema shape and for every backend; the literals of the rendered text are read by the lexical rules
of its language and compared with the text the schema resolver yields for the archive, resource or structure."""
import ast
import re

from . import corpus, schema
from .chk_gen_py import concrete, stored
from .chk_gen_tree import spread, verdict
from .genlib import *
from .report import Report

LANGS = [("python", "PythonGenerator"), ("cpp", "CppGenerator"), ("rust", "RustGenerator"), ("go", "GoGenerator")]
NASTY = ['"# )" )schema" \\" \\n', "`x` \"\"\" ''' ", "R\"( r#\" \\u0041 %d {{ x }} {% y %}", "\u00e4\u20ac\u4e2d", "\ttab \\", "line one\n * line two\n *\n * line four"]


class Unlexed(Exception):
    pass


ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "?": "?"}


def unescape(body, lang):
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            if c == "\n" and lang in ("cpp", "go"):
                raise Unlexed("line break in a literal")
            out.append(c)
            i += 1
            continue
        e = body[i + 1]
        if e == "\n":
            i += 2
            if lang == "rust":
                while i < len(body) and body[i] in " \t\n\r":
                    i += 1
            continue
        if e == "x":
            m = re.compile(r"[0-9a-fA-F]+" if lang == "cpp" else r"[0-9a-fA-F]{2}").match(body, i + 2)
            out.append(chr(int(m.group(), 16)))
            i = m.end()
            continue
        if e in "uU":
            m = re.compile(r"\{([0-9a-fA-F_]+)\}").match(body, i + 2) if lang == "rust" else re.compile(r"([0-9a-fA-F]{%d})" % (4 if e == "u" else 8)).match(body, i + 2)
            out.append(chr(int(m.group(1).replace("_", ""), 16)))
            i = m.end()
            continue
        if e in "01234567" and lang != "rust":
            m = re.compile(r"[0-7]{1,3}" if lang == "cpp" else r"[0-7]{3}").match(body, i + 1)
            out.append(chr(int(m.group(), 8)))
            i = m.end()
            continue
        if e not in ESC:
            raise Unlexed("escape \\%s" % e)
        out.append(ESC[e])
        i += 2
    return "".join(out)


def literals(src, lang):
    """the string literals of a source text, adjacent C++ literals joined"""
    if lang == "python":
        return [n.value for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Constant) and isinstance(n.value, str)]
    out, i, n = [], 0, len(src)
    joined = False
    while i < n:
        c = src[i]
        two = src[i:i + 2]
        if two == "//":
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if two == "/*":
            depth, i = 1, i + 2
            while depth:
                if i >= n:
                    raise Unlexed("unterminated comment")
                if src[i:i + 2] == "*/":
                    depth, i = depth - 1, i + 2
                elif lang == "rust" and src[i:i + 2] == "/*":
                    depth, i = depth + 1, i + 2
                else:
                    i += 1
            continue
        if c.isspace():
            i += 1
            continue
        lit = None
        if lang == "cpp":
            m = re.compile(r'(?:u8|u|U|L)?R"([^()\\\s]{0,16})\(').match(src, i)
            if m and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
                end = src.find(")" + m.group(1) + '"', m.end())
                if end < 0:
                    raise Unlexed("unterminated raw literal")
                lit, j = src[m.end():end], end + len(m.group(1)) + 2
        elif lang == "rust":
            m = re.compile(r'b?r(#*)"').match(src, i)
            if m and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
                end = src.find('"' + m.group(1), m.end())
                if end < 0:
                    raise Unlexed("unterminated raw literal")
                lit, j = src[m.end():end], end + len(m.group(1)) + 1
        elif lang == "go" and c == "`":
            end = src.find("`", i + 1)
            if end < 0:
                raise Unlexed("unterminated raw literal")
            lit, j = src[i + 1:end].replace("\r", ""), end + 1
        if lit is None and c == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(src, i)
            if not m:
                raise Unlexed("unterminated literal")
            lit, j = unescape(m.group(1), lang), m.end()
        if lit is None and c == "'":
            m = re.compile(r"'(?:[^'\\\n]|\\.|\\x..|\\u\{?[0-9a-fA-F]+\}?)'").match(src, i)
            i = m.end() if m else i + 1
            joined = False
            continue
        if lit is not None:
            if joined and lang == "cpp":
                out[-1] += lit
            else:
                out.append(lit)
            joined = True
            i = j
            continue
        joined = False
        m = re.compile(r"\w+").match(src, i)
        i = m.end() if m else i + 1
    return out


def render(I, tree, mod, cls):
    g = I.import_module("flatdata.generator.generators." + mod).ns.get(cls)
    if g is None:
        raise AnalysisBroken("generator class %s.%s not found" % (mod, cls))
    return I.call(I.getattr(I.call(g, [], {}), "render"), [tree], {})


def shapes():
    for sh in corpus.shapes():
        yield sh.name, sh.text, sh.nums, has_enum_field(sh)
    for i, doc in enumerate(NASTY):
        d = "/** %s */ " % doc
        yield "documentation %d" % i, (d + "namespace n { " + d + "struct S { " + d + "a : u8 : 3; } " + d + "archive A { " + d + "v : vector< S >; " + d + "@optional r : raw_data; "
                                       + d + "m : multivector< 9, S >; } }").replace("%", "%%"), (), False
        yield "documentation of values %d" % i, (d + "namespace n { " + d + "enum E : u8 { " + d + "A, " + d + "B } " + d + "const u8 C = 3; struct S { e : E; @const( C ) f : u8; } archive A { "
                                                 + d + "v : S; } }").replace("%", "%%"), (), True


def has_enum_field(sh):
    return "enum " in sh.text


def g14(prop):
    r = Report(prop, "the generator is interpreted for every backend on every schema shape; the literals of the rendered source are read by the lexical rules of its language "
               "and compared with the text the schema resolver stores",
               "Python, C++, Rust and Go over the corpus of schema shapes (unknown widths and constants) and over documentation with quotes, escapes and delimiters of all languages: "
               "every archive's and resource's text is embedded unchanged and no other schema text is embedded.")
    return spread(r, g14_body, 440)


def g14_body(r, t, turn):
    for name, text, nums, enums in shapes():
        for mod, cls in LANGS:
            if not turn() or mod == "go" and enums:
                continue

            def q(I, tr):
                sh = corpus.Shape(name, text, nums)
                s = schema.Schema(concrete(I, sh) if nums else text.replace("%%", "%"))
                src = render(I, tr, mod, cls)
                if not isinstance(src, str):
                    raise Top("rendered text of %s is not known" % name)
                want = {}
                for d in s.decls:
                    if d["kind"] == "archive":
                        # Go has no literals for archives: it compares the schemas of their resources only
                        if mod != "go":
                            want[d["path"]] = stored(I, tr, d["path"])
                        for x in d["resources"]:
                            if mod == "go" and s.normal_resource(d, x)[1] == "archive":
                                continue
                            want[d["path"] + "." + x["name"]] = stored(I, tr, d["path"] + "." + x["name"])
                every = set(want.values()) | {stored(I, tr, d["path"]) for d in s.decls}
                return src, want, every
            where = "%s: %s" % (mod, name)
            for o in t.run(text if nums else text.replace("%%", "%"), q, nums):
                if not r.ok("renders", where, o.kind == "return", "" if o.kind == "return" else verdict(o)):
                    continue
                src, want, every = o.value
                try:
                    lits = literals(src, mod)
                except (Unlexed, SyntaxError) as e:
                    r.ok("lexes", where, False, "rendered text does not lex: %s" % e)
                    continue
                for path, text1 in want.items():
                    r.ok("embeds", "%s: %s" % (where, path), lits.count(text1) >= sum(1 for x in want.values() if x == text1),
                         "no literal denotes the schema text %r" % text1[:120])
                for l in lits:
                    if l.lstrip().startswith("namespace "):
                        r.ok("only-stored-texts", where, l in every, "literal %r is no stored schema text" % l[:160])
