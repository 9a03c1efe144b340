"""C12: describing archives."""
from collections import Counter

from . import corpus
from .chk_cpp_archive import *
from .chk_cpp_archive import Archives
from .cppenv import *

# string streams keep their text where the analysis finds it
STREAM = r'''
#include <sstream>
#include <fstream>
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <functional>
#include <memory>
#include <mutex>
#include <iostream>
#include <iomanip>
#include <boost/optional.hpp>
extern "C" {
void env_stream_begin( std::ostream* );
const char* env_stream_text( const std::ostream* );
size_t env_stream_size( const std::ostream* );
void env_text( const char* p, size_t n );
}
namespace std
{
struct text_stream_of_analysis : std::ostream
{
    text_stream_of_analysis( ) : std::ostream( static_cast< std::streambuf* >( nullptr ) ) { env_stream_begin( this ); }
    std::string str( ) const { return std::string( env_stream_text( this ), env_stream_size( this ) ); }
};
}
#define ostringstream text_stream_of_analysis
'''
TEXT_PRELUDE = PRELUDE.replace("#include <flatdata/flatdata.h>", STREAM + "#include <flatdata/flatdata.h>")


def m_begin(M, name, a):
    s = Stream("text %d" % len(M.world.log))
    s.mem = a[0].o
    a[0].o.abs["stream"] = s


def m_text(M, name, a):
    s = stream_of(M, a[0], "str")
    out = [b for op in s.ops if op[0] == "bytes" for b in op[1]]
    s.text = M.alloc("text", len(out))
    for i, b in enumerate(out):
        s.text.cells[i] = (1, b)
    return P(s.text, 0)


def m_size(M, name, a):
    return stream_of(M, a[0], "str").text.size


def m_told(M, name, a):
    p, n = a
    M.world.told = [M.load_byte(p.o, lin_add(p.off, i)) for i in range(int(n))]


def m_ios_init(M, name, a):
    """basic_ios of a stream whose text is kept"""
    o, off = a[0].o, a[0].off
    for at, n, v in ((8, 8, 6), (16, 8, 0), (24, 4, 0), (28, 4, 0), (32, 4, 0), (216, 8, 0), (224, 1, 32), (225, 1, 1)):
        o.cells[lin_add(off, at)] = (n, v)
    o.abs["ios"] = int(off)
    c = M.alloc("ctype", 600)
    c.cells[56] = (1, 1)
    for i in range(256):
        c.cells[57 + i] = (1, i)
    o.cells[lin_add(off, 240)] = (8, P(c, 0))


def put(M, stream, what, op):
    """formatted output: filled up to the width, which then is 0 again"""
    s = stream_of(M, stream, what)
    o = stream.o
    at = o.abs.get("ios")
    c = o.cells.get(at + 16) if at is not None else None
    width = c[1] if c else 0
    if not is_int(width):
        raise Unsupp("width of a stream")
    if op[0] == "bytes" and width > len(op[1]):
        flags, fill = o.cells[at + 24][1], o.cells[at + 224][1]
        if not is_int(flags) or not is_int(fill):
            raise Unsupp("format of a stream")
        pad = [fill] * (width - len(op[1]))
        op = ("bytes", list(op[1]) + pad if flags & 0xb0 == 0x20 else pad + list(op[1]))
    step(M, s, op)
    if at is not None:
        o.cells[at + 16] = (8, 0)
    return stream


def m_put_text(M, name, a):
    return put(M, a[0], "operator<<", data_op(M, a[1], a[2]))


def m_put_cstr(M, name, a):
    return put(M, a[0], "operator<<", data_op(M, a[1], strlen(M, name, [a[1]])))


def m_number(M, name, a):
    return put(M, a[0], "operator<<", ("bytes", list(str(int(a[1])).encode() if is_int(a[1]) else b"#")))


def m_endl(M, name, a):
    step(M, stream_of(M, a[0], "endl"), ("bytes", [10]))
    return a[0]


MODELS = dict(ENV)
MODELS.update({
    "env_stream_begin": [(None, m_begin)], "env_stream_text": [(None, m_text)], "env_stream_size": [(None, m_size)], "env_text": [(None, m_told)],
    "_ZNSt8ios_baseC2Ev": [(None, nothing)], "_ZNSt8ios_baseD2Ev": [(None, nothing)],
    "_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E": [(None, m_ios_init)],
    "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate": [(None, nothing)],
    "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l": [(None, m_put_text)],
    "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc": [(None, m_put_cstr)],
    "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_": [(None, m_endl)],
})
for _t in "mljiyx":
    MODELS["_ZNSo9_M_insertI%sEERSoT_" % _t] = [(None, m_number)]
    MODELS["_ZNSolsE%s" % _t] = [(None, m_number)]


class Described(Archives):
    def archive(self, s, d, t):
        Archives.archive(self, s, d, t)
        self.a[d["path"]]["describe"] = self.pr.add(
            "void", "const void* a", "const std::string s = static_cast< const flatdata::Archive* >( static_cast< const %s* >( a ) )->describe( ); env_text( s.data( ), s.size( ) );" % t["cxx"])


SHAPES = [
    ("kinds of resources", """namespace n { struct S { x : u32 : 30; } struct R { @range( r ) f : u32 : 30; } archive A { i : S; v : vector< S >; r : vector< R >; m : multivector< 20, S >; d : raw_data;
        @optional oi : S; @optional ov : vector< S >; @optional om : multivector< 20, S >; @optional od : raw_data; a_resource_with_a_name_of_more_than_thirty_seven_characters : S; } }"""),
    ("sub-archives", """namespace n { struct S { x : u8; } archive D { i : S; } archive B { d : archive D; @optional e : archive D; } archive A { b : archive B; @optional c : archive B; v : vector< S >; } }"""),
    ("empty archive", "namespace n { archive A { } }"),
]


def c12(prop):
    r = Report(prop, "LLVM IR of flatdata::Archive, of generated archives and of the library's views is interpreted over an abstract storage; the text of a description is followed byte for byte",
               "Archives with resources of every kind, sub-archives; entries present or missing in all combinations, no storage; stored schema texts that differ from the expected one in one "
               "line, in order, in all lines, of 0 to 130 lines.")
    return spread(r, c12_body, len(SHAPES))


def c12_body(r, t, turn):
    w = EnvWork(prelude=TEXT_PRELUDE)
    w.sources = "#define stringstream text_stream_of_analysis\n%s#undef stringstream\n" % w.sources
    try:
        for name, text in SHAPES:
            o, v = rendered(t, " ".join(text.split()), "cpp", "CppGenerator")
            if not r.ok("renders", name, v is not None, "" if v else verdict(o)):
                continue
            s, src, texts, rtexts = v
            tops = {d["path"]: tree(s, texts, rtexts, d["path"]) for d in s.decls if d["kind"] == "archive"}
            pr = Described(s, tops)
            rc, ir, err = w.compile(src.replace("#pragma once", "") + pr.text)
            if not r.ok("compiles", name, rc == 0, first_error(err) if rc else ""):
                continue
            mod = Module(ir)
            try:
                for path, t1 in tops.items():
                    site = "%s: %s" % (name, path)
                    if turn():
                        closed(r, site, mod, pr, t1)
                    states(r, site, mod, pr, t1, turn)
                    differences(r, site, mod, pr, t1, turn)
            except Top as ex:
                raise AnalysisBroken("%s: %s" % (name, ex))
        sizes(r, t, w, turn)
    finally:
        w.close()


def sizes(r, t, w, turn):
    """resources with as many elements as their references can denote, or more"""
    for width in (5, 20):
        for kind in ("vector< T >", "multivector< 9, T >", "raw_data", "vector< R >"):
            for opt in ("", "@optional "):
                if not turn():
                    continue
                name = "references of %d bits to %s%s" % (width, opt, kind)
                v = lower_in(r, w, t, name, """namespace n { struct S { pad : u8 : 3; f : u32 : %d; } struct T { t : u32 : 24; } struct R { @range( r ) a : u16 : 9; }
                    archive A { u : vector< T >; @explicit_reference( S.f, d ) s : vector< S >; %sd : %s; } }""" % (width, opt, kind))
                if v is None:
                    continue
                t1, pr, mod = v
                d = [x for x in t1["res"] if x["name"] == "d"][0]
                if d["limit"] != 2 ** width:
                    raise AnalysisBroken("limit of %s" % name)
                seen = set()
                for bad in [{}] + ([{k: "missing" for k, _ in d["keys"]}] if opt else []):
                    def sc(M):
                        text = said(M, pr, t1, opened(M, pr, t1))
                        settle(t1, M.world, M)
                        return text, None if bad else M.I.choose(le0(lin_add(d["limit"] + 1, count(d, M.world, M), -1)))
                    for o in run(mod, lambda: Store(t1, bad, free=True), sc):
                        at = name + (", absent" if bad else "")
                        if not r.ok("describes", at, o.kind == "return", "%s %s" % (o.kind, o.value)):
                            continue
                        text, big = o.value
                        got = row(text, "d")
                        seen.add(big)
                        r.ok("too-large", "%s, %s" % (at, "larger" if big else "not larger"), got is not None and got == [bool(opt), big, True] if not bad else got == [True, False, False],
                             "described with (optional, too large, loaded) %s where more elements than can be referred to are %s" % (got, {True: "there", False: "not there", None: "there or not"}[big]))
                r.floor("partitions of " + name, len(seen), 2)


def lower_in(r, w, t, name, text):
    o, v = rendered(t, " ".join(text.split()), "cpp", "CppGenerator")
    if not r.ok("renders", name, v is not None, "" if v else verdict(o)):
        return None
    s, src, texts, rtexts = v
    t1 = tree(s, texts, rtexts, ".n.A")
    pr = Described(s, {".n.A": t1})
    rc, ir, err = w.compile(src.replace("#pragma once", "") + pr.text)
    if not r.ok("compiles", name, rc == 0, first_error(err) if rc else ""):
        return None
    return t1, pr, Module(ir)


def said(M, pr, t, a):
    M.loop_bound = 40000
    M.max_steps = 2000000
    M.call(pr.a[t["path"]]["describe"], [a])
    b = M.world.told
    return "".join(chr(x) if is_int(x) else "?" for x in b)


def run(mod, world, sc):
    def go(M):
        M.world = world()
        M.world.M = M
        return sc(M)
    for o in explore_ir(mod, go, MODELS, max_paths=20000):
        if o.kind == "cut":
            raise AnalysisBroken("describe: %s" % (o.value,))
        yield o


def closed(r, site, mod, pr, t):
    p = pr.a[t["path"]]
    for what in ("default", "open"):
        def sc(M):
            a = M.alloc("archive", M.call(p["size"], []))
            M.call(p[what], [P(a, 0), 0] if what == "open" else [P(a, 0)])
            return said(M, pr, t, P(a, 0))
        for o in run(mod, World, sc):
            r.ok("no-storage", "%s (%s)" % (site, what), o.kind == "return" and "FATAL" in o.value, "%s %r" % (o.kind, o.value))


def states(r, site, mod, pr, t, turn):
    """each entry missing on its own, all together, and the kinds of damage of the signature"""
    ks = [k for k, _ in keys(t)]
    bad = [{}] + [{k: "missing"} for k in ks] + [{k: "other-schema"} for k in ks if k != t["sig"]] + [{k: "missing" for k in ks if k != t["sig"]}, {k: "missing" for k in ks}]
    for b in bad:
        if not turn():
            continue

        def sc(M):
            a = opened(M, pr, t)
            ok = flag(M, M.call(pr.a[t["path"]]["is"], [a]))
            settle(t, M.world, M)
            return ok, said(M, pr, t, a)
        for o in run(mod, lambda: Store(t, b), sc):
            at = "%s %s" % (site, "with everything" if not b else "with %s" % ", ".join("%s %s" % (k, v) for k, v in sorted(b.items())[:3]))
            if not r.ok("describes", at, o.kind == "return", "%s %s" % (o.kind, o.value)):
                continue
            ok, text = o.value
            r.ok("state", at, ("FATAL" in text) == (not ok), "an archive that is %s is described as %r" % ("open" if ok else "not open", text[:300]))
            if b.get(t["sig"]) is None:
                gone = [x["name"] for x in t["res"] if x["name"][:30] not in text]
                r.ok("listed", at, not gone and t["name"] in text, "%s are not in the description" % (gone or t["name"]))
                for x in t["res"]:
                    want = [x["optional"], loaded(x, b)]
                    said_ = row(text, x["name"][:30])
                    r.ok("columns", "%s: %s" % (at, x["name"]), said_ is not None and [said_[0], said_[2]] == want,
                         "%s is described with (optional, too large, loaded) %s, but it is %soptional and %sloaded" % (x["name"], said_, "" if want[0] else "not ", "" if want[1] else "not "))


def row(text, name):
    """the yes/no columns of a resource"""
    for x in text.split("\n"):
        w = x.split()
        if w[:1] == [name]:
            said_ = [y.upper() == "YES" for y in w[1:] if y.upper() in ("YES", "NO")][:3]
            return said_ if len(said_) == 3 else None
    return None


def loaded(x, bad):
    if x["kind"] == "archive":
        return x["sub"]["sig"] not in bad and all(y["optional"] or loaded(y, bad) for y in x["sub"]["res"])
    return not any(k in bad for k, _ in x["keys"])


def lines(s):
    out = s.split("\n")
    return out[:-1] if out and out[-1] == "" else out


def distance(a, b):
    """lines only in one of the two, at least"""
    d = [[i + j for j in range(len(b) + 1)] for i in range(len(a) + 1)]
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] if a[i - 1] == b[j - 1] else 10 ** 9)
    return d[-1][-1]


def part_of(a, b):
    """lines a, in their order, within b"""
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def variants(text):
    ls = lines(text)
    n = len(ls)
    join = "\n".join
    out = [("no lines", ""), ("an empty line", "\n"), ("empty lines", "\n\n\n"), ("no end of line", text.rstrip("\n") if text.endswith("\n") else text + "\n"), ("other lines", join(["other"] * 3)),
           ("one line", "x"), ("lines reversed", join(ls[::-1])), ("lines twice", join(ls + ls)), ("each line twice", join([x for x in ls for _ in (0, 1)])), ("line in front", "x\n" + text),
           ("line at the end", text + ("" if text.endswith("\n") else "\n") + "x"), ("other ends of lines", text.replace("\n", "\r\n"))]
    for i in sorted({0, 1, n // 2, n - 2, n - 1}):
        if 0 <= i < n:
            out += [("line %d missing" % i, join(ls[:i] + ls[i + 1:])), ("line %d changed" % i, join(ls[:i] + [ls[i] + "x"] + ls[i + 1:])), ("line %d added" % i, join(ls[:i] + ["x"] + ls[i:]))]
    # descriptions of exactly so many lines
    for total in (63, 64, 65, 128):
        if total > n:
            out.append(("%d lines in all" % total, join(["x%d" % i for i in range(total - n)] + ls)))
            out.append(("%d lines in all, all others" % total, join(ls + ["x"] * (total - n))))
    if n < 8:
        out.append(("300 more lines", join(["x%d" % i for i in range(300)] + ls)))
        out.append(("300 more lines in between", join(ls[:n // 2] + ["x%d" % i for i in range(300)] + ls[n // 2:])))
    return [(a, b) for a, b in out if b != text]


def differences(r, site, mod, pr, t, turn):
    want = t["schema"]
    for title, stored in variants(want):
        if not turn():
            continue

        def sc(M):
            return said(M, pr, t, opened(M, pr, t))
        for o in run(mod, lambda: Store(t, {t["sig"]: ("schema", stored)}), sc):
            at = "%s, stored schema with %s" % (site, title)
            if not r.ok("describes", at, o.kind == "return", "%s %s" % (o.kind, o.value)):
                continue
            d = wrong(want, stored, o.value)
            r.ok("difference", at, not d, d or "")


def wrong(want, stored, text):
    if "FATAL" not in text:
        return "not reported as a fatal error: %r" % text[:200]
    a, b = lines(want), lines(stored)
    shown = [x for x in text.split("\n") if len(x) > 2 and x[0] in "+- " and x[1] == '"' and x[-1] == '"']
    minus, plus, both = ([x[2:-1] for x in shown if x[0] == c] for c in "-+ ")
    if not part_of(minus, a) or not part_of(plus, b) or not part_of(both, a) or not part_of(both, b):
        return "lines %r missing, %r too much and %r in both are shown, in another order or not of the schemas" % (minus[:3], plus[:3], both[:3])
    if Counter(a) - Counter(minus) != Counter(b) - Counter(plus):
        return "%d lines are shown missing and %d too much, which does not explain the difference" % (len(minus), len(plus))
    n = distance(a, b)
    return None if len(minus) + len(plus) == n else "%d lines are shown to differ, though %d do" % (len(minus) + len(plus), n)
