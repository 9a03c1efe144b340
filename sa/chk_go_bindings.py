"""O02: generated Go bindings of the schemas the Go back end supports."""
import shutil
import tempfile

from .chk_cpp_bits import as_bits, same_bits, short
from .chk_gen_cpp import rendered
from .chk_gen_py import layout
from .chk_gen_tree import spread, verdict
from .chk_cpp_archive import None_I
from .dom import *
from .goai import *
from .llvm import Top
from .report import Report

MMAP = """package mmap
type ReaderAt struct { n int }
func Open(name string) (*ReaderAt, error) { return nil, nil }
func (r *ReaderAt) Close() error { return nil }
func (r *ReaderAt) Len() int { return r.n }
func (r *ReaderAt) At(i int) byte { return 0 }
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) { return 0, nil }
"""
GO_TYPES = {"u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "bool": "bool"}
PAD = 8
CANT = "can't open flatdata resource"


def fields(types, step):
    out = []
    for i, (t, n) in enumerate(types):
        for w in range(1 + i % step, n + 1, step):
            out.append("f_%s_%d : %s : %d;" % (t, w, t, w))
    return " ".join(out)


KINDS = """namespace n { const i32 NEGATIVE = -7; const u64 LARGE_VALUE = 18446744073709551615;
    struct P { a : u8 : 3; b : i8 : 5; c : bool; d : i64; long_name : u32 : 31; e : u64 : 61; f : u16; g : i32 : 17; h : i16 : 9; }
    struct Q { x : u8; y : i64 : 40; } struct two_words { one_field : u32 : 9; }
    archive A { v : vector< P >; my_vector : vector< two_words >; i : Q; raw : raw_data; m : multivector< 33, Q, two_words, P >; @optional oq : vector< Q >; @optional oi : P; @optional od : raw_data;
                @optional om : multivector< 40, Q > ; } }"""
SHAPES = [
    ("kinds of resources", KINDS),
    ("one vector", "namespace geo { struct S { x : i64 : 64; } archive Archive { s : vector< S >; } }"),
    ("unsigned widths", "namespace n { struct S { %s } archive A { s : vector< S >; i : S; } }" % fields([("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64)], 1)),
    ("signed widths", "namespace n { struct S { b : bool : 1; %s } archive A { s : vector< S >; } }" % fields([("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64)], 1)),
    ("two archives", "namespace n { struct S { x : u8 : 7; } struct T { y : i16 : 13; x : u8 : 2; } archive A { s : vector< S >; t : vector< T >; } archive B { s : vector< T >; i : S; } }"),
    ("ranges and bound resources", "namespace n { struct S { @range( r ) a : u32 : 20; b : u8 : 3; } @bound_implicitly( both : A.s, A.t ) archive A { s : vector< S >; t : vector< S >; } }"),
]


def go_case(n, up=True):
    if "_" in n:
        n = "".join(p.title() for p in n.split("_"))
    return (n[0].upper() if up else n[0].lower()) + n[1:]


class Payload:
    """a stored resource of unknown content and size"""

    def __init__(self, name, lo, hi):
        self.name, self.n = name, sym("size of " + name)
        self.lo, self.hi = lo, hi
        self.known = {}           # byte position -> bits

    def begin(self, M):
        M.I.facts.assume(le0(lin_add(self.lo, self.n, -1)), True)
        M.I.facts.assume(le0(lin_add(self.n, self.hi, -1)), True)

    def byte(self, M, k):
        if self.known and is_int(k) and int(k) in self.known:
            return self.known[int(k)]
        if not is_int(k):
            for b, v in self.known.items():
                pass
        if is_int(k) and k < 8:
            M.fault("decodes the size header of %s as data" % self.name)
        return M.mk([bvar("%s[%s].%d" % (self.name, k, j)) for j in range(8)])

    def inside(self, M, k, n):
        for c, what in ((le0(lin_mul(k, -1)), "before"), (le0(lin_add(lin_add(k, n), lin_add(self.n, 16), -1)), "behind")):
            ok = c if isinstance(c, bool) else M.I.facts.decide(c)
            if ok is not True:
                M.fault("reads %s the end of %s" % (what, self.name))

    def m_At(self, M, i):
        k = M.term(i)
        self.inside(M, k, 1)
        return self.byte(M, k)

    def m_Len(self, M):
        return lin_add(self.n, 16)

    def m_Close(self, M):
        return None

    def m_ReadAt(self, M, b, off):
        k = M.term(off)
        if isinstance(b, Buffer):
            self.inside(M, k, b.n)
            b.read = (self, k)
            return (b.n, None)
        if not isinstance(b, Slice):
            raise Unsupp("ReadAt %r" % (b,))
        self.inside(M, k, b.n)
        if is_int(k) and int(k) == 0 and b.n == 8:
            word = (self.n,)
            for i in range(8):
                b.cell.v[b.off + i] = (i, self.n)
            return (8, None)
        for i in range(b.n):
            b.cell.v[b.off + i] = self.byte(M, lin_add(k, i))
        return (b.n, None)


class Storage:
    def __init__(self, t, bad=None):
        self.t, self.bad, self.asked, self.objs = t, bad or {}, [], {}

    def m_GetBasePath(self, M):
        return ""

    def m_GetMemoryDescriptor(self, M, name):
        self.asked.append(name)
        mode = self.bad.get(name)
        if name not in self.t["texts"] or mode == "missing":
            return (None, "", Err(CANT))
        if mode == "error":
            return (None, "", Err("damaged"))
        return (self.payload(M, name), self.t["texts"][name] + (" " if mode == "other-schema" else ""), None)

    def payload(self, M, name):
        if name not in self.objs:
            lo = self.t["least"].get(name, 0)
            o = self.objs[name] = Payload(name, lo, 1 << 40)
            o.begin(M)
        return self.objs[name]


class Go:
    """the compiled bindings of one schema"""

    def __init__(self, s, pkg, ns):
        self.s, self.pkg, self.ns = s, pkg, ns

    def field(self, M, p, name):
        """value of a field of a struct behind a pointer"""
        t, v = p
        u = self.pkg.under(t)
        if u["k"] == "ptr":
            t = u["e"]
            u = self.pkg.under(t)
            v = M.read(v)
        for i, f in enumerate(u["f"]):
            if f["n"] == name:
                return f["t"], v[i]
        raise Missing("field %s" % name)

    def call(self, M, p, name, *args):
        t = self.pkg.types[p[0]]["s"]
        f = self.pkg.methods.get(t, {}).get(name)
        if f is None:
            raise Missing("%s has no method %s" % (t, name))
        fn = self.pkg.fns[f]
        return self.result(fn), M.call(f, [p[1]] + list(args))

    def result(self, fn):
        u = self.pkg.types[fn["res"]]
        return u["es"][0] if len(u["es"]) == 1 else None

    def open(self, M, arch, st):
        n = "%s.Open%sArchive" % (self.ns, go_case(arch))
        fn = self.pkg.fns.get(n)
        if fn is None:
            raise Missing("no function %s" % n)
        M.init_package(self.ns)
        M.init_package(IMPORT)
        v, err = M.call(n, [st])
        return (self.pkg.types[fn["res"]]["es"][0], v), err


class Missing(Exception):
    pass


def o02(pid):
    r = Report(pid, "generated Go bindings read the declared bits of the declared elements",
               "templates are rendered abstractly, the Go code is brought into SSA form and interpreted over resources of unknown size and content")
    tool()
    return spread(r, body, len(SHAPES))


def body(r, t, turn):
    d = tempfile.mkdtemp(prefix="sa-gob-")
    try:
        os.mkdir(os.path.join(d, "mmap"))
        with open(os.path.join(d, "mmap/mmap.go"), "w") as f:
            f.write(MMAP)
        for i, (name, text) in enumerate(SHAPES):
            if turn():
                one(r, t, d, i, name, " ".join(text.split()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(r, t, d, i, name, text):
    o, v = rendered(t, text, "go", "GoGenerator")
    if not r.ok("renders", name, v is not None, "" if v else verdict(o)):
        return
    s, src, texts, rtexts = v
    f = os.path.join(d, "gen%d.go" % i)
    with open(f, "w") as g:
        g.write(src)
    ns = src.split("package ", 1)[1].split()[0] if "package " in src else ""
    want_ns = [x["path"] for x in s.decls if x["kind"] == "archive"][0].split(".")[1]
    pkg, err = ssa(ns, [f], [(IMPORT, GO), ("golang.org/x/exp/mmap", os.path.join(d, "mmap"))])
    if not r.ok("compiles", name, pkg is not None and ns == want_ns, err or "package %s" % ns):
        return
    g = Go(s, pkg, ns)
    for x in s.decls:
        if x["kind"] == "const":
            constant(r, name, g, x)
        if x["kind"] == "archive":
            try:
                archive(r, name, g, x, rtexts)
            except Top as ex:
                raise AnalysisBroken("%s: %s" % (name, ex))


def constant(r, name, g, x):
    v = g.pkg.consts.get(go_case(x["name"]))
    r.ok("constant", "%s: %s" % (name, x["name"]), v is not None and v["v"] is not None and int(v["v"]) == int(x["value"]), "%r" % (v,))


SUFFIX = {"vector": "Vector", "instance": "Instance", "raw_data": "RawData", "multivector": "Multivector"}


def archive(r, name, g, d, rtexts):
    s = g.s
    t = {"texts": {}, "least": {}, "res": []}
    for x in d["resources"]:
        n, kind, width, types, opt, refs = s.normal_resource(d, x)
        if kind == "bound":
            continue
        sizes = [(layout(None_I, s, s.by_path[p])[1] + 7) // 8 for p in types]
        t["texts"][n] = rtexts[(d["path"], n)]
        if kind == "instance":
            t["least"][n] = sizes[0]
        if kind == "multivector":
            t["texts"][n + "_index"] = "index(%s)" % rtexts[(d["path"], n)]
        t["res"].append((n, kind, width, types, opt, sizes))
    site = "%s: %s" % (name, d["path"])

    def runs(key, bad, sc):
        def go(M):
            M.loop_bound = 400
            st = Storage(t, bad)
            try:
                a, err = g.open(M, d["name"], st)
                return sc(M, st, a, err)
            except Missing as ex:
                return ("missing", str(ex))
        for o in explore_go(g.pkg, go):
            if o.kind == "cut":
                raise Top("%s: %s" % (key, o.value))
            if o.kind == "return" and type(o.value) is tuple and o.value[:1] == ("missing",):
                r.ok("declared", "%s %s" % (site, key), False, o.value[1])
                continue
            if r.ok("safe", "%s %s" % (site, key), o.kind == "return", "%s %s" % (o.kind, short(o.value))):
                yield o

    # opening
    for bad in [{}] + [{k: m} for k in t["texts"] for m in ("missing", "error", "other-schema") if not (k.endswith("_index") and m == "other-schema")]:
        def sc(M, st, a, err):
            out = {}
            if err is None:
                for n, kind, width, types, opt, sizes in t["res"]:
                    h = g.field(M, a, go_case(n) + SUFFIX[kind])
                    desc = g.field(M, h, "descriptor")[1]
                    out[n] = (g.field(M, h, "IsOpen")[1], g.field(M, h, "IsOptional")[1], desc)
            return err, out, {v: k for k, v in st.objs.items()}, list(st.asked)
        key = "opened" if not bad else "opened with %s %s" % list(bad.items())[0]
        for o in runs(key, bad, sc):
            err, out, objs, asked = o.value
            at = "%s %s" % (site, key)
            k, m = list(bad.items())[0] if bad else (None, None)
            fails = m in ("error", "other-schema")
            r.ok("open-fails" if fails else "opens", at, (err is not None) == fails, "error %r" % (err,))
            r.ok("asked", at, fails or sorted(asked) == sorted(t["texts"]), "asked for %s, declared are %s" % (asked, sorted(t["texts"])))
            if err is None:
                for n, kind, width, types, opt, sizes in t["res"]:
                    gone = m == "missing" and k in (n, n + "_index" if kind == "multivector" else n)
                    io, oo, desc = out[n]
                    r.ok("state", "%s, %s" % (at, n), io is (not gone) and oo is bool(opt), "IsOpen %r, IsOptional %r" % (io, oo))
                    r.ok("descriptor", "%s, %s" % (at, n), k == n and gone or objs.get(desc) == n, "the data is %r" % (objs.get(desc),))

    for n, kind, width, types, opt, sizes in t["res"]:
        if kind == "raw_data":
            raw(r, g, site, n, runs)
            continue
        if kind == "multivector":
            multi(r, g, site, n, width, types, sizes, runs)
            continue

        def sc(M, st, a, err):
            h = g.field(M, a, go_case(n) + SUFFIX[kind])
            p = st.payload(M, n)
            i = 0
            if kind == "vector":
                i = sym("i")
                M.I.facts.assume(le0(lin_mul(i, -1)), True)
                M.I.facts.assume(le0(lin_add(lin_mul(lin_add(i, 1), sizes[0]), p.n, -1)), True)
                el = g.call(M, h, "Get", i)
            else:
                el = g.call(M, h, "Get")
            base = lin_add(lin_mul(i, sizes[0]), 8)
            return values(M, g, el, types[0], n, base)
        for o in runs("element of " + n, {}, sc):
            told(r, o, g, "%s element of %s" % (site, n), o.value)

        def sc(M, st, a, err):
            h = g.field(M, a, go_case(n) + SUFFIX[kind])
            return g.call(M, h, "GetSize")[1], st.payload(M, n).n
        for o in runs("size of " + n, {}, sc):
            got, bytes_ = o.value
            want = 1 if kind == "instance" else lin_floordiv(bytes_, sizes[0])
            r.ok("size", "%s %s" % (site, n), got == want or same(o, got, want), "%s has %r elements" % (n, got))
        if kind == "vector":
            sliced(r, g, site, n, types, sizes, runs)


def same(o, x, y):
    try:
        return o.entails_eq(x, y)
    except AttributeError:
        return False


def values(M, g, el, path, name, base):
    """[(field, its type, bits read, bits stored)]"""
    s = g.s
    out = []
    fs, _ = layout(None_I, s, s.by_path[path])
    for f in fs:
        nm, off, w, sg, ty = f
        rt, v = g.call(M, el, "Get" + go_case(nm))
        n = 1 if ty == "bool" else int(GO_TYPES[ty].lstrip("uint"))
        bits = [bvar("%s[%s].%d" % (name, lin_add(base, b // 8), b % 8)) for b in range(off, off + w)]
        want = [bits[i] if i < w else (bits[-1] if sg else B0) for i in range(n)]
        out.append((nm, g.pkg.types[rt]["s"], GO_TYPES[ty], as_bits(v, n), want))
    return out


def told(r, o, g, at, xs):
    for nm, rt, wt, got, want in xs:
        r.ok("field-type", "%s, %s" % (at, nm), rt == wt, "the type is %s instead of %s" % (rt, wt))
        r.ok("field-value", "%s, %s" % (at, nm), same_bits(o, got, want), "value is %s" % short(got))


def sliced(r, g, site, n, types, sizes, runs):
    for lo, hi, step in ((2, 6, 2), (2, 7, 2), (3, 3, 1), (4, 3, 1), (0, 2, 1)):
        def sc(M, st, a, err):
            h = g.field(M, a, go_case(n) + "Vector")
            p = st.payload(M, n)
            M.I.facts.assume(le0(lin_add(sizes[0] * 10, p.n, -1)), True)
            rt, xs = g.call(M, h, "GetSlice", lo, hi, step)
            et = g.pkg.under(rt)["e"]
            items = M.items(xs)
            return len(items), [values(M, g, (et, x), types[0], n, 8 + (lo + step * j) * sizes[0]) for j, x in enumerate(items)]
        for o in runs("slice of " + n, {}, sc):
            k, xs = o.value
            at = "%s %s, %d to %d in steps of %d" % (site, n, lo, hi, step)
            if r.ok("slice", at, k == len(range(lo, hi + 1, step)), "%d elements" % k):
                for x in xs:
                    told(r, o, g, at, x)


def raw(r, g, site, n, runs):
    def sc(M, st, a, err):
        h = g.field(M, a, go_case(n) + "RawData")
        v = g.call(M, h, "GetValue")[1]
        return g.call(M, h, "GetSize")[1], v, st.payload(M, n)
    for o in runs("raw data " + n, {}, sc):
        size, v, p = o.value
        r.ok("size", "%s %s" % (site, n), size == p.n, "%s has %r bytes" % (n, size))
        got = getattr(v, "read", None)
        r.ok("raw-data", "%s %s" % (site, n), got is not None and got[0] is p and is_int(got[1]) and int(got[1]) == 8 and v.n == p.n, "the value is %r read %r" % (v, got))


def multi(r, g, site, n, width, types, sizes, runs):
    """bucket i: the bytes from index[i] to index[i + 1]"""
    iw = (width + 7) // 8
    seqs = [()] + [(a,) for a in range(len(types))] + [(a, b) for a in range(len(types)) for b in range(len(types))]
    for seq in seqs:
        total = sum(1 + sizes[k] for k in seq)
        # (positions beyond 32 bits as well)
        for last, start, i in ((False, 7, 3), (True, 7, 3), (len(seq) % 2 == 0, (1 << min(width - 1, 35)) + 9, 1 << 31)):
            def sc(M, st, a, err):
                h = g.field(M, a, go_case(n) + "Multivector")
                p, ix = st.payload(M, n), st.payload(M, n + "_index")
                # as many buckets as i + 1 or more, and a sentinel
                if last:
                    M.I.facts.assume(le0(lin_add(ix.n, -(i + 2) * iw)), True)
                    M.I.facts.assume(le0(lin_add((i + 2) * iw, ix.n, -1)), True)
                    M.I.facts.assume(le0(lin_add(p.n, -(start + total))), True)
                else:
                    M.I.facts.assume(le0(lin_add((i + 3) * iw, ix.n, -1)), True)
                M.I.facts.assume(le0(lin_add(start + total, p.n, -1)), True)
                for k, v in ((i, start), (i + 1, start + total)):
                    for b in range(iw):
                        ix.known[8 + k * iw + b] = (v >> (8 * b)) & 255
                at, want = 8 + start, []
                for k in seq:
                    p.known[at] = k
                    want.append(at + 1)
                    at += 1 + sizes[k]
                M.keys_known = True
                rt, xs = g.call(M, h, "Get", i)
                items = M.items(xs)
                if len(items) != len(seq):
                    return len(items), None
                out = []
                for x, k, b in zip(items, seq, want):
                    if not isinstance(x, Iface):
                        return len(items), None
                    out.append((g.pkg.types[x.t]["s"], types[k], values(M, g, (x.t, x.v), types[k], n, b) if g.pkg.types[x.t]["s"] == name_of(g, types[k]) else []))
                return len(items), out
            key = "bucket of %s" % n
            for o in runs(key, {}, sc):
                k, out = o.value
                at = "%s %s with the types %s at %d%s" % (site, n, list(seq), start, " at the end" if last else "")
                if not r.ok("bucket", at, k == len(seq) and out is not None, "%d elements are read" % k):
                    continue
                for got, want, xs in out:
                    r.ok("bucket-types", at, got == name_of(g, want), "an element of type %s instead of %s" % (got, want))
                last_of = {k: xs for k, (_, _, xs) in zip(seq, out)}
                for j, (k, (_, _, xs)) in enumerate(zip(seq, out)):
                    again = k in seq[j + 1:]
                    if again and len(xs) and all(same_bits(o, x[3], y[4]) for x, y in zip(xs, last_of[k])):
                        r.ok("bucket-same-type", "two elements of one type in a bucket", False, "both are the last one")
                    else:
                        told(r, o, g, at, xs)


def name_of(g, path):
    return "*%s.%s" % (g.ns, go_case(path.split(".")[-1]))


# ---------------------------------------------------------------------------------------------------------------- O03

class Stored(GoMap):
    """a map of one entry under a name that is asked for or not"""

    def __init__(self, what, there, v):
        GoMap.__init__(self)
        if there:
            self["n"] = v


def o03(pid):
    r = Report(pid, "the storages of flatdata-go hand out a resource only if it is large enough and described",
               "abstract interpretation of the Go SSA form; the length of the data is unknown, files are models")
    d = tempfile.mkdtemp(prefix="sa-gob-")
    try:
        os.mkdir(os.path.join(d, "mmap"))
        with open(os.path.join(d, "mmap/mmap.go"), "w") as f:
            f.write(MMAP)
        fs = sorted(os.path.join(GO, f) for f in os.listdir(GO) if f.endswith(".go") and not f.endswith("_test.go"))
        pkg, err = ssa("flatdata", fs, [("golang.org/x/exp/mmap", os.path.join(d, "mmap"))])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if pkg is None:
        raise AnalysisBroken("flatdata-go does not compile: %s" % err)
    n = 0
    for kind in ("File", "InMemory"):
        for data in (True, False):
            for schema in (True, False):
                for text in ("text", ""):
                    n += handed(r, pkg, kind, data, schema, text)
    n += paths(r, pkg)
    r.floor("states of a resource", n, 20)
    return r.finish()


def storage_type(pkg, kind):
    t = "*flatdata.%sResourceStorage" % kind
    m = pkg.methods.get(t, {})
    if "GetMemoryDescriptor" not in m or "flatdata.%sResourceStorage" % kind not in pkg.byname:
        raise AnalysisBroken("%s not found in flatdata-go" % t)
    return m, pkg.byname["flatdata.%sResourceStorage" % kind]


def handed(r, pkg, kind, data, schema, text):
    m, t = storage_type(pkg, kind)
    site = "%s storage, data %s, schema %s" % (kind.lower(), "there" if data else "missing", "missing" if not schema else "there" if text else "empty")
    n = [0]

    def sc(M):
        M.init_package("flatdata")
        p = Payload("r", -16, 1 << 40)
        p.begin(M)
        p.closed = 0
        v = M.zero(t)
        if kind == "InMemory":
            for i, f in enumerate(pkg.under(t)["f"]):
                e = pkg.under(f["t"])
                if e["k"] == "map":
                    v[i] = Stored(f["n"], schema, text) if pkg.under(e["e"])["k"] == "basic" else Stored(f["n"], data, p)
        else:
            v[[f["n"] for f in pkg.under(t)["f"]].index("basePath")] = "base"
        out = M.call(m["GetMemoryDescriptor"], [Ptr(Cell(v)), "n"])
        small = M.I.choose(le0(lin_add(p.n, 1))) if data else None
        return out, p, small

    models = {}
    if kind == "File":
        models = {"golang.org/x/exp/mmap.Open": lambda M, a: (file_of(M), None) if data and a[0] == "base/n" else (None, Err("no such file")),
                  "io/ioutil.ReadFile": read_file(schema, text), "os.ReadFile": read_file(schema, text),
                  "(*golang.org/x/exp/mmap.ReaderAt).Len": lambda M, a: lin_add(a[0].cell.v.n, 16),
                  "(*golang.org/x/exp/mmap.ReaderAt).Close": lambda M, a: None}

        def sc2(M):
            M.init_package("flatdata")
            p = M.file = Payload("r", -16, 1 << 40)
            p.begin(M)
            v = M.zero(t)
            v[[f["n"] for f in pkg.under(t)["f"]].index("basePath")] = "base"
            out = M.call(m["GetMemoryDescriptor"], [Ptr(Cell(v)), "n"])
            return out, p, M.I.choose(le0(lin_add(p.n, 1))) if data else None
        run_ = sc2
    else:
        run_ = sc
    for o in explore_go(pkg, run_, models):
        if o.kind == "cut":
            raise AnalysisBroken("%s: %s" % (site, o.value))
        n[0] += 1
        if not r.ok("safe", site, o.kind == "return", "%s %s" % (o.kind, short(o.value))):
            continue
        (desc, got, err), p, small = o.value
        good = data and schema and text and not small
        at = site + (", less than 16 bytes" if small else "")
        r.ok("handed-out" if good else "refused", at, (err is None) == bool(good), "error %r" % (err,))
        if good:
            x = desc.v.cell.v if isinstance(desc, Iface) and isinstance(desc.v, Ptr) else desc.v if isinstance(desc, Iface) else desc
            r.ok("handed-out", at + ", data", x is p and text_of(got) == text, "%r described by %r" % (x, got))
        elif err is not None:
            want = CANT if not data else None
            r.ok("reason", at, not want or err.text == want, "the reason is %r instead of %r" % (err.text, want))
            r.ok("reason", at + ", absence", want or err.text != CANT, "the reason is %r, as for an absent resource" % err.text)
    return n[0]


def text_of(v):
    return v if isinstance(v, str) else None


def file_of(M):
    return Ptr(Cell(M.file))


def read_file(there, text):
    def f(M, a):
        if a[0] != "base/n.schema" or not there:
            return (None, Err("no such file"))
        b = text.encode()
        return (Slice(Cell(Struct(b)), 0, len(b), len(b)), None)
    return f


def paths(r, pkg):
    """the directory of an archive"""
    f = "flatdata.NewFileResourceStorage"
    m, t = storage_type(pkg, "File")
    if f not in pkg.fns:
        raise AnalysisBroken("NewFileResourceStorage not found")
    for path, want in (("/a/b/X.archive", "/a/b"), ("X.archive", "."), ("a/X.archive", "a")):
        def sc(M):
            M.init_package("flatdata")
            return M.call(m["GetBasePath"], [M.call(f, [path])])
        for o in explore_go(pkg, sc):
            r.ok("directory", path, o.kind == "return" and o.value == want, "%s %r" % (o.kind, o.value))
    return 3
