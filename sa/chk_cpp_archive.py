"""G11, C05, C11 and the C++ half of G07: generated C++ archives and builders.

The generator is interpreted on every schema shape; the header it renders is lowered to LLVM IR together with the library and probe
functions that use it the way a user does; the probes are interpreted over an abstract storage whose entries are present, missing,
differently described or of unknown size."""
from . import corpus, schema
from .chk_gen_cpp import None_I, Probes, cxx, first_error, rendered, samples, truth
from .chk_gen_py import layout
from .chk_gen_tree import spread, verdict
from .cppenv import *
from .report import Report

HELP = r'''
template < typename... A > struct TypeList { };
template < typename I, typename... A > const flatdata::MultiArrayView< I, A... >& as_multi( const flatdata::MultiArrayView< I, A... >& m, TypeList< A... >* ) { return m; }
template < typename I, typename... A > flatdata::MultiVector< I, A... > as_builder( flatdata::MultiVector< I, A... >&& m, TypeList< A... >* ) { return std::move( m ); }
'''
STRUCT_FREE = 1 << 40


def tree(s, texts, rtexts, path, prefix="", mandatory=True):
    """what has to be stored for an archive"""
    d = s.by_path[path]
    t = {"path": path, "cxx": "::" + cxx(path), "name": d["name"], "sig": prefix + d["name"] + ".archive", "schema": texts[path], "res": [], "prefix": prefix}
    lim = limits(s)
    for x in d["resources"]:
        name, kind, width, types, opt, refs = s.normal_resource(d, x)
        r = {"name": name, "kind": kind, "optional": opt, "key": prefix + name, "schema": rtexts[(path, name)], "types": types, "cxx": ["::" + cxx(p) for p in types],
             "limit": lim.get(path + "." + name) if kind in ("vector", "multivector", "raw_data") else None, "sizes": [], "width": width, "keys": []}
        if kind == "archive":
            r["sub"] = tree(s, texts, rtexts, types[0], prefix + name + "/")
        else:
            r["keys"] = [(r["key"], r["schema"])]
            r["sizes"] = [(layout(None_I, s, s.by_path[p])[1] + 7) // 8 for p in types]
            r["overlap"] = any(f["range"] for p in types for f in s.by_path[p]["fields"])
        if kind == "multivector":
            r["keys"].append((r["key"] + "_index", "index(%s)" % r["schema"]))
            r["index"] = (width + 7) // 8
        t["res"].append(r)
    return t


def limits(s):
    """{resource path: 2^(smallest referencing width)}"""
    out = {}
    for d in s.decls:
        for x in d.get("resources", ()):
            for st, fl, dst in s.normal_resource(d, x)[5]:
                sd = s.by_path[st]
                for n, ty, w, rng, consts, opt in (s.normal_field(sd, f) for f in sd["fields"]):
                    if n == fl and w < 64:
                        out[dst] = min(out.get(dst, 1 << w), 1 << w)
    return out


def keys(t, dirs=False):
    """(key, schema) of everything an archive consists of, sub-archives included"""
    out = [(t["sig"], t["schema"])]
    for r in t["res"]:
        if r["kind"] == "archive":
            if dirs:
                out.append((r["key"], None))
            out += keys(r["sub"], dirs)
        else:
            out += r["keys"]
    return out


def archives(t):
    out = [t]
    for r in t["res"]:
        if r["kind"] == "archive":
            out += archives(r["sub"])
    return out


class Store(World):
    """an archive as stored; bad: {key: how it is damaged}"""

    def __init__(self, t, bad=(), free=False, contents=None):
        World.__init__(self)
        self.t, self.bad, self.free, self.contents = t, dict(bad), free, contents or {}
        self.schemas = dict(keys(t))
        self.objs = {}
        self.elem = {}
        for a in archives(t):
            for r in a["res"]:
                if r["kind"] == "vector":
                    self.elem[r["key"]] = (r["sizes"][0], r["limit"], r["overlap"])
                elif r["kind"] == "multivector":
                    self.elem[r["key"] + "_index"] = (r["index"], r["limit"], True)
                elif r["kind"] == "raw_data":
                    self.elem[r["key"]] = (1, r["limit"], False)
        self.lost = set()        # keys no archive of this shape has

    def mode(self, M, key):
        return self.bad.get(key)

    def read(self, M, path):
        if path.endswith(".schema"):
            key = path[:-7]
            if key not in self.schemas:
                self.lost.add(path)
                return 0, 0
            mode = self.mode(M, key)
            if mode in ("missing", "no-schema"):
                return 0, 0
            text = self.schemas[key] + (" " if mode == "other-schema" else "")
            if type(mode) is tuple:
                text = mode[1]
            o = self.objs.get(path)
            if o is None:
                o = self.objs[path] = text_object(M, path, text)
            return P(o, 0), len(text.encode())
        if path not in self.schemas:
            self.lost.add(path)
            return 0, 0
        mode = self.mode(M, path)
        if mode in ("missing", "no-data"):
            return 0, 0
        o = self.objs.get(path)
        if o is None:
            n = self.size(M, path)
            o = self.objs[path] = M.alloc("file:" + path, lin_add(n, 16))
            o.cells[0] = (8, lin_add(n, 1) if mode == "size-mismatch" else n)
            o.content = lambda off: M.mk([bvar("%s[%s].%d" % (path, off, i)) for i in range(8)])
            for off, b in enumerate(self.contents.get(path, ())):
                o.cells[8 + off] = (1, b)
        return P(o, 0), lin_add(self.size(M, path), 16)

    def size(self, M, key):
        if key in self.contents:
            return len(self.contents[key])
        v = sym("size of " + key)
        if ("sized", key) not in self.objs:
            self.objs[("sized", key)] = True
            lo, hi = 0, STRUCT_FREE
            e = self.elem.get(key)
            if e and not self.free:
                lo, hi = 2 * e[0], (e[1] if e[1] else 1 << 20) * e[0]
            M.I.facts.assume(le0(lin_add(lo, v, -1)), True)
            M.I.facts.assume(le0(lin_add(v, hi, -1)), True)
        return v

    def directory(self, M, path):
        return self.mode(M, path) != "missing"


def other_schemas(text):
    """texts that are not the schema: shorter, longer, changed at one place, in another order"""
    n = len(text)
    change = lambda i: text[:i] + ("y" if text[i] == "x" else "x") + text[i + 1:]
    out = ["", text[:1], text[:n // 2], text[:-1], text[1:], text + "x", text + "\0", " " + text, text + text, change(0), change(n // 2), change(n - 1),
           text.replace("\n", " ", 1), text.swapcase(), text[::-1], text.replace("\n", "\r\n")]
    return [x for x in dict.fromkeys(out) if x != text]


def text_object(M, name, text):
    b = text.encode()
    o = M.alloc("text:" + name, len(b))
    for i, x in enumerate(b):
        o.cells[i] = (1, x)
    return o


def expected(t, w, M):
    """-> open, {resource name: present} or None if the resource bound is not decided"""
    ok, present = w.mode(M, t["sig"]) is None, {}
    for r in t["res"]:
        if r["kind"] == "archive":
            good = w.mode(M, r["key"]) is None and expected(r["sub"], w, M)[0]
        else:
            good = all(w.mode(M, k) is None for k, _ in r["keys"])
        present[r["name"]] = good
        if not good and not r["optional"]:
            ok = False
        if good and r["limit"] and ok is not False:
            f = decide(M, le0(lin_add(count(r, w, M), r["limit"], -1)))
            if f is False:
                ok = False
            elif f is not True:
                ok = None
    return ok, present


def decide(M, c):
    return c if isinstance(c, bool) else M.I.facts.decide(c)


def count(r, w, M):
    """elements of a present resource"""
    if r["kind"] == "raw_data":
        return w.size(M, r["key"])
    e, key = (r["index"], r["key"] + "_index") if r["kind"] == "multivector" else (r["sizes"][0], r["key"])
    n = lin_floordiv(w.size(M, key), e)
    if r["kind"] == "multivector" or r["overlap"]:
        z = decide(M, le0(n))
        if z is None:
            raise Top("is %s empty?" % key)
        return 0 if z else lin_add(n, -1)
    return n


def settle(t, w, M):
    """decides whether resources with a sentinel are empty, where the code did not have to know"""
    for r in t["res"]:
        if r["kind"] == "archive":
            settle(r["sub"], w, M)
        elif r["kind"] == "multivector" or r.get("overlap"):
            keys = [r["key"] + "_index"] if r["kind"] == "multivector" else [r["key"]]
            if all(w.mode(M, k) is None for k in keys):
                M.I.choose(le0(lin_floordiv(w.size(M, keys[0]), r["index"] if r["kind"] == "multivector" else r["sizes"][0])))


class Archives:
    """probe functions of the archives of one schema"""

    def __init__(self, s, tops):
        self.pr = Probes()
        self.a = {}
        self.b = {}
        for d in s.decls:
            if d["kind"] == "archive":
                self.archive(s, d, tops[d["path"]])
        self.text = HELP + "".join(self.pr.text)

    def archive(self, s, d, t):
        add, A, B = self.pr.add, t["cxx"], t["cxx"] + "Builder"
        p = self.a[d["path"]] = {
            "open": add("void", "void* o, const void* e", "new ( o ) %s( %s::open( e ? std::make_shared< Env >( e ) : std::shared_ptr< Env >( ) ) );" % (A, A)),
            "is": add("bool", "const void* a", "return static_cast< const %s* >( a )->is_open( );" % A),
            "bool": add("bool", "const void* a", "return static_cast< bool >( *static_cast< const %s* >( a ) );" % A),
            "default": add("void", "void* o", "new ( o ) %s( );" % A),
            "texts": [("name", add("const char*", "const void* a", "return static_cast< const flatdata::Archive* >( static_cast< const %s* >( a ) )->name( );" % A)),
                      ("schema", add("const char*", "const void* a", "return static_cast< const flatdata::Archive* >( static_cast< const %s* >( a ) )->schema( );" % A)),
                      ("name", add("const char*", "const void*", "return %s::name_definition( );" % A)),
                      ("schema", add("const char*", "const void*", "return %s::schema_definition( );" % A))],
            "bschema": add("const char*", "const void*", "return %s::schema_definition( );" % B), "size": add("size_t", "", "return sizeof( %s );" % A), "res": {}}
        q = self.b[d["path"]] = {
            "open": add("void", "void* o, const void* e", "new ( o ) %s( %s::open( e ? std::make_shared< Env >( e ) : std::shared_ptr< Env >( ) ) );" % (B, B)),
            "default": add("void", "void* o", "new ( o ) %s( );" % B),
            "is": add("bool", "const void* a", "return static_cast< const %s* >( a )->is_open( ) && static_cast< bool >( *static_cast< const %s* >( a ) );" % (B, B)),
            "texts": [("name", add("const char*", "const void* a", "return static_cast< const flatdata::ArchiveBuilder* >( static_cast< const %s* >( a ) )->name( );" % B)),
                      ("schema", add("const char*", "const void* a", "return static_cast< const flatdata::ArchiveBuilder* >( static_cast< const %s* >( a ) )->schema( );" % B))],
            "size": add("size_t", "", "return sizeof( %s );" % B), "res": {}}
        for r in t["res"]:
            n, kind, ty = r["name"], r["kind"], ", ".join(r["cxx"])
            obj = "static_cast< const %s* >( a )->%s( )" % (A, n)
            if r["optional"]:
                X = {"vector": "flatdata::ArrayView< %s >", "instance": "%s", "raw_data": "flatdata::MemoryDescriptor", "archive": "%s"}.get(kind)
                if X:
                    get = "const boost::optional< %s >& o = %s; " % (X % ty if "%" in X else X, obj)
                else:
                    get = "const auto& o = %s; " % obj
                has = get + "return static_cast< bool >( o );"
                get += "const auto& v = *o; "
            else:
                get = "const auto& v = %s; " % obj
                has = get + "return static_cast< bool >( v );"
            e = p["res"][n] = {"has": add("bool", "const void* a", has)}
            if kind == "archive":
                e["sub"] = add("const void*", "const void* a", get + "const %s& s = v; return &s;" % ty)
            elif kind == "instance":
                e["data"] = add("const void*", "const void* a", get + "%s s = v; return s.data( );" % ty)
            elif kind == "multivector":
                get += "const auto& m = as_multi( v, static_cast< TypeList< %s >* >( nullptr ) ); " % ty
                e["count"] = add("size_t", "const void* a", get + "return m.size( );")
                uniq = list(dict.fromkeys(r["cxx"]))
                f = "struct F { " + " ".join("void operator( )( %s s ) const { env_event( %d, reinterpret_cast< size_t >( s.data( ) ) ); }" % (c, i) for i, c in enumerate(uniq)) + " }; "
                e["each"] = add("void", "const void* a, size_t i", f + get + "m.for_each( i, F( ) );")
                for i, c in enumerate(uniq):
                    e["iter%d" % i] = add("void", "const void* a, size_t i",
                                          get + "for ( auto it = m.template iterator< %s >( i ); it.valid( ); it++ ) { %s s = *it; env_event( %d, reinterpret_cast< size_t >( s.data( ) ) ); }" % (c, c, i))
            else:
                V = "flatdata::MemoryDescriptor" if kind == "raw_data" else "flatdata::ArrayView< %s >" % ty
                e["data"] = add("const void*", "const void* a", get + "%s s = v; return s.data( );" % V)
                e["count"] = add("size_t", "const void* a", get + "%s s = v; return s.size( );" % V)
            # writing
            ob = "static_cast< %s* >( b )->" % B
            w = q["res"][n] = {}
            if kind == "archive":
                w["sub"] = add("void*", "void* b", "%sBuilder& s = %s%s( ); return &s;" % (ty, ob, n))
            if kind == "vector":
                w["set"] = add("bool", "void* b, const unsigned char* d, size_t n", "return %sset_%s( flatdata::ArrayView< %s >( d, d + n ) );" % (ob, n, ty))
                w["start"] = add("void", "void* b", "flatdata::ExternalVector< %s > v = %sstart_%s( ); v.grow( ); v.grow( ); v.close( );" % (ty, ob, n))
            if kind == "instance":
                w["set"] = add("bool", "void* b, const unsigned char* d, size_t n", "return %sset_%s( %s( d ) );" % (ob, n, ty))
            if kind == "raw_data":
                w["set"] = add("bool", "void* b, const unsigned char* d, size_t n", "return %sset_%s( flatdata::MemoryDescriptor( d, n ) );" % (ob, n))
            if kind == "multivector":
                adds = " ".join("l.template add< %s >( );" % c for c in r["cxx"])
                w["start"] = add("void", "void* b", "auto v = as_builder( %sstart_%s( ), static_cast< TypeList< %s >* >( nullptr ) ); { auto l = v.grow( ); %s } v.grow( ); v.close( );" % (
                    ob, n, ty, adds))


def lower(r, w, t, sh):
    """-> Schema, {archive: tree}, Archives, Module or None"""
    text = samples(sh)[-1]
    o, v = rendered(t, text, "cpp", "CppGenerator")
    if not r.ok("renders", sh.name, v is not None, "" if v else verdict(o)):
        return None
    s, src, texts, rtexts = v
    tops = {d["path"]: tree(s, texts, rtexts, d["path"]) for d in s.decls if d["kind"] == "archive"}
    pr = Archives(s, tops)
    rc, ir, err = w.compile(src.replace("#pragma once", "") + pr.text)
    if not r.ok("compiles", sh.name, rc == 0, first_error(err) if rc else ""):
        return None
    return s, tops, pr, Module(ir)


def report(r, outs, rule, site, want):
    """want(outcome) -> (ok, text)"""
    for o in outs:
        if o.kind == "return":
            ok, what = want(o)
        else:
            ok, what = False, "%s %s" % (o.kind, o.value)
        r.ok(rule, site, ok, what)


def equal(o, a, b):
    if is_int(a) and is_int(b):
        return a == b
    try:
        t = o.m.I.eq(a, b)
    except Top:
        return False
    if isinstance(t, T):
        t = o.m.I.facts.decide(t)
    return t is True


def opened(M, pr, t):
    """opens the archive of t in the machine's world; -> address of the archive object"""
    a = M.alloc("archive", M.call(pr.a[t["path"]]["size"], []))
    M.call(pr.a[t["path"]]["open"], [P(a, 0), M.world.dir(M, "")])
    return P(a, 0)


def flag(M, v):
    """a returned bool; both values are followed if the sizes decide"""
    v = M.I.norm(v)
    if isinstance(v, T):
        v = M.I.choose(M.bool_of(v))
    return truth(v)


def observe(M, pr, t, a):
    """everything a user sees of an archive"""
    p = pr.a[t["path"]]
    out = {"open": flag(M, M.call(p["is"], [a])), "bool": flag(M, M.call(p["bool"], [a])), "res": {}}
    for r in t["res"]:
        e = p["res"][r["name"]]
        x = out["res"][r["name"]] = {"has": flag(M, M.call(e["has"], [a]))}
        if not x["has"]:
            continue
        for k in ("data", "count"):
            if k in e:
                x[k] = M.call(e[k], [a])
        if "sub" in e:
            x["sub"] = observe(M, pr, r["sub"], M.call(e["sub"], [a]))
    return out


def compare_open(o, t, v, w, M, deep=True):
    """difference between what is seen and what has to be seen, or None"""
    ok, present = expected(t, w, M)
    if ok is None:
        return "%s: opens or not independently of its bounds" % t["path"]
    if v["open"] is not ok or v["bool"] is not ok:
        return "%s is %s, expected %s" % (t["path"], "open" if v["open"] else "not open", "open" if ok else "not open")
    if not ok:
        return None
    for r in t["res"]:
        x = v["res"][r["name"]]
        if x["has"] is not present[r["name"]]:
            return "%s.%s is %s" % (t["path"], r["name"], "present" if x["has"] else "absent")
        if not x["has"]:
            continue
        if r["kind"] == "archive":
            d = compare_open(o, r["sub"], x["sub"], w, M)
            if d:
                return d
            continue
        if "data" in x:
            q = x["data"]
            if not (isinstance(q, P) and q.o is w.objs.get(r["key"]) and q.off == 8):
                return "%s.%s starts at %r, expected byte 8 of the file %s" % (t["path"], r["name"], q, r["key"])
        if "count" in x:
            n = count(r, w, M)
            if not equal(o, x["count"], n):
                return "%s.%s has %r elements, expected %r" % (t["path"], r["name"], x["count"], n)
    return None


def check_open(r, rule, site, mod, pr, t, make):
    def sc(M):
        v = observe(M, pr, t, opened(M, pr, t))
        settle(t, M.world, M)
        return v, M.world
    n = 0
    for o in explore_env(mod, make, sc):
        n += 1
        w = o.m.world
        if o.kind != "return":
            r.ok(rule, site, False, "%s %s" % (o.kind, o.value))
            continue
        d = compare_open(o, t, o.value[0], w, o.m)
        if d is None and w.lost:
            d = "reads %s, which no writer of this schema produces" % sorted(w.lost)[0]
        r.ok(rule, site, d is None, d or "")
    return n


# ------------------------------------------------------------------------------------------------------------------ G11 reading

def g11(prop):
    r = Report(prop, "the generator is interpreted on every schema shape; LLVM IR of the rendered header, the library and user-level probes is interpreted over an abstract storage",
               "Corpus of schema shapes; per archive: everything stored, each entry (data, schema, sub-archive directory) missing or differently described, all optional "
               "resources missing, payload sizes unknown; multivector contents per type tag; every setter, incremental writer and sub-archive accessor of the builder.")
    return spread(r, g11_body, 100)


def g11_body(r, t, turn):
    w = EnvWork()
    try:
        for sh in corpus.shapes():
            if not turn():
                continue
            v = lower(r, w, t, sh)
            if v is None:
                continue
            try:
                shape_g11(r, sh, *v)
            except Top as ex:
                raise AnalysisBroken("%s: %s" % (sh.name, ex))
    finally:
        w.close()


def shape_g11(r, sh, s, tops, pr, mod):
    for path, t in tops.items():
        site = "%s: %s" % (sh.name, path)
        texts_check(r, site, mod, pr, t)
        check_open(r, "opens", site, mod, pr, t, lambda: Store(t, free=len(t["res"]) <= 3))
        for k, sc in keys(t, True):
            for bad in ("missing",) if sc is None or k == t["sig"] else ("no-data", "other-schema"):
                check_open(r, "damaged", "%s with %s of %s" % (site, bad, k), mod, pr, t, lambda: Store(t, {k: bad}))
        opts = [x for x in t["res"] if x["optional"]]
        if opts:
            gone = {k: "missing" for x in opts for k in ([x["key"]] + ([x["sub"]["sig"]] if x["kind"] == "archive" else [k for k, _ in x["keys"]]))}
            check_open(r, "optional-absent", site, mod, pr, t, lambda: Store(t, gone))
        for x in t["res"]:
            if x["kind"] == "multivector":
                tags(r, site, mod, pr, t, x)
        writes(r, site, mod, pr, t)


def texts_check(r, site, mod, pr, t):
    for which, table, rule in ((pr.a, pr.a[t["path"]]["texts"], "archive"), (pr.b, pr.b[t["path"]]["texts"], "builder")):
        for kind, name in table:
            want = t["name"] if kind == "name" else t["schema"]

            def sc(M):
                a = M.alloc("object", M.call(which[t["path"]]["size"], []))
                M.call(which[t["path"]]["default"], [P(a, 0)])
                return c_text(M, M.call(name, [P(a, 0)]))
            report(r, explore_env(mod, World, sc), "%s-%s" % (rule, kind), site, lambda o: (o.value == want, "%r" % o.value[:80]))
    report(r, explore_env(mod, World, lambda M: c_text(M, M.call(pr.a[t["path"]]["bschema"], [0]))), "builder-schema", site, lambda o: (o.value == t["schema"], "%r" % o.value[:80]))


def tags(r, site, mod, pr, t, x):
    """one stored element of every type tag, and an undeclared tag"""
    e = pr.a[t["path"]]["res"][x["name"]]
    uniq = list(dict.fromkeys(x["cxx"]))
    for tag in range(len(x["types"]) + 1):
        size = x["sizes"][tag] if tag < len(x["types"]) else 1
        n = 3 + 1 + size
        ix = b"".join(v.to_bytes(x["index"], "little") for v in (3, n))
        data = [7] * 3 + [tag] + [0] * size
        what = "%s.%s, tag %d" % (site, x["name"], tag)

        def make():
            return Store(t, contents={x["key"] + "_index": ix, x["key"]: data})
        for probe in ["each"] + ["iter%d" % i for i in range(len(uniq))]:
            def sc(M):
                a = opened(M, pr, t)
                M.call(e[probe], [a, 0])
                return [l[1:] for l in M.world.log if l[0] == "event"], M.world.objs.get(x["key"])
            for o in explore_env(mod, make, sc):
                if tag == len(x["types"]):
                    r.ok("unknown-tag", what, o.kind == "throw", "an undeclared tag is accepted: %s %s" % (o.kind, o.value))
                    continue
                if o.kind != "return":
                    r.ok("dispatch", what, False, "%s %s" % (o.kind, o.value))
                    continue
                k = uniq.index(x["cxx"][tag])
                if x["types"].index(x["types"][tag]) != tag:
                    continue
                ev, obj = o.value
                want = [(k, P(obj, 8 + 4))] if probe in ("each", "iter%d" % k) else []
                r.ok("dispatch", what, ev == want, "%s visits %r, expected %r" % (probe, ev, want))


# ------------------------------------------------------------------------------------------------------------------ writing

class Target(World):
    """a storage to build in: existing: signature keys that are already there, refuse: keys whose stream or directory cannot be created"""

    def __init__(self, existing=(), refuse=(), broken=()):
        World.__init__(self)
        self.existing, self.refuse, self.broken = dict(existing), set(refuse), broken
        self.objs = {}

    def exists(self, M, path):
        return path in self.existing

    def read(self, M, path):
        key = path[:-7] if path.endswith(".schema") else path
        if key not in self.existing:
            return 0, 0
        o = self.objs.get(path)
        if path.endswith(".schema"):
            text = self.existing[key]
            o = o or text_object(M, path, text)
            self.objs[path] = o
            return P(o, 0), len(text.encode())
        if o is None:
            o = self.objs[path] = M.alloc("file:" + path, 16)
            o.cells[0] = (8, 0)
        return P(o, 0), 16

    def stream(self, M, path):
        return path not in self.refuse

    def create_directory(self, M, path):
        return path not in self.refuse

    def fails(self, M, s, op):
        return s.path in self.broken


def image_bytes(M, s):
    """file content as list of concrete bytes / ('range', object, offset, size)"""
    im = s.image()
    if im is None:
        return None
    out = []
    for c in im:
        if c[0] == "byte":
            b = c[1]
            if not is_int(b):
                try:
                    k = M.bits(b, 8)
                    vs = [x.const() for x in k]
                    b = sum(v << i for i, v in enumerate(vs)) if None not in vs else b
                except Top:
                    pass
            out.append(b)
        else:
            out.append(c)
    return out


def text_of(M, w, path):
    s = w.streams.get(path)
    if s is None:
        return None
    b = image_bytes(M, s)
    try:
        return bytes(b).decode()
    except (TypeError, ValueError):
        return repr(b)


def le8(n):
    return list(n.to_bytes(8, "little"))


def resource_check(M, w, key, sc, payload):
    """difference of what was written for one resource to header + payload + padding and its schema"""
    s = w.streams.get(key)
    if s is None:
        return "%s is not written" % key
    if s.again or (w.streams.get(key + ".schema") is not None and w.streams[key + ".schema"].again):
        return "%s is opened for writing twice" % key
    b = image_bytes(M, s)
    want = le8(len(payload)) + list(payload) + [0] * 8
    if b != want:
        return "%s contains %r, expected %r" % (key, b, want)
    x = text_of(M, w, key + ".schema")
    if x != sc:
        return "%s is described by %r, expected %r" % (key, (x or "")[:100], sc[:100])
    if ("flush", key) not in w.log and not any(l[0] == "flush" and l[1] == key for l in w.log):
        return "%s is not flushed" % key
    return None


def builder(M, pr, t):
    b = M.alloc("builder", M.call(pr.b[t["path"]]["size"], []))
    M.call(pr.b[t["path"]]["open"], [P(b, 0), M.world.dir(M, "")])
    return P(b, 0)


def payload(M, n):
    o = M.alloc("payload", n + 8)
    for i in range(n + 8):
        o.cells[i] = (1, 16 + i % 200)
    return o, [16 + i % 200 for i in range(n)]


def writes(r, site, mod, pr, t):
    p = pr.b[t["path"]]

    def created(M):
        b = builder(M, pr, t)
        return flag(M, M.call(p["is"], [b])), dict(M.world.streams)

    def fresh(o):
        if o.value[0] is not True:
            return False, "a builder on an empty storage is not open"
        d = resource_check(o.m, o.m.world, t["sig"], t["schema"], [])
        if d is None and len(o.value[1]) != 2:
            d = "opening a builder writes %s" % sorted(o.value[1])
        return d is None, d
    report(r, explore_env(mod, Target, created), "signature", site, fresh)
    for x in t["res"]:
        what = "%s.%s" % (site, x["name"])
        e = p["res"][x["name"]]
        if "set" in e:
            n = 11 if x["kind"] == "raw_data" else x["sizes"][0] * (3 if x["kind"] == "vector" else 1)

            def sc(M):
                b = builder(M, pr, t)
                o, data = payload(M, n)
                return flag(M, M.call(e["set"], [b, P(o, 0), n])), data

            def good(o):
                if o.value[0] is not True:
                    return False, "set_%s fails" % x["name"]
                d = resource_check(o.m, o.m.world, x["key"], x["schema"], o.value[1])
                if d is None and len(o.m.world.streams) != 4:
                    d = "writes %s" % sorted(o.m.world.streams)
                return d is None, d
            report(r, explore_env(mod, Target, sc), "set", what, good)
        if "start" in e:
            def sc(M):
                M.call(e["start"], [builder(M, pr, t)])

            def good(o):
                w = o.m.world
                if x["kind"] == "vector":
                    d = resource_check(o.m, w, x["key"], x["schema"], [0] * (2 * x["sizes"][0]))
                    n = 4
                else:
                    data = [b for i, k in enumerate(x["sizes"]) for b in [x["types"].index(x["types"][i])] + [0] * k]
                    d = resource_check(o.m, w, x["key"], x["schema"], data)
                    ends = [0, len(data), len(data)]
                    d = d or resource_check(o.m, w, x["key"] + "_index", "index(%s)" % x["schema"], [b for v in ends for b in (v % (1 << x["width"])).to_bytes(x["index"], "little")])
                    n = 6
                if d is None and len(w.streams) != n:
                    d = "writes %s" % sorted(w.streams)
                return d is None, d
            report(r, explore_env(mod, Target, sc), "start", what, good)
        if "sub" in e:
            sub = x["sub"]

            def sc(M):
                b = builder(M, pr, t)
                s1 = M.call(e["sub"], [b])
                s2 = M.call(e["sub"], [b])
                return s1 == s2, flag(M, M.call(pr.b[sub["path"]]["is"], [s1])), [l for l in M.world.log if l[0] == "create_directory"]

            def good(o):
                if not (o.value[0] and o.value[1] is True):
                    return False, "the sub-archive builder is not open or not kept"
                if o.value[2] != [("create_directory", x["key"])]:
                    return False, "directories created: %r" % (o.value[2],)
                d = resource_check(o.m, o.m.world, sub["sig"], sub["schema"], [])
                return d is None, d
            report(r, explore_env(mod, Target, sc), "sub-archive", what, good)


# ------------------------------------------------------------------------------------------------------------------ C05

LOAD_SHAPES = [
    ("mandatory and optional resources", """namespace n { struct S { x : u32 : 7; y : i16; } struct R { @range( r ) a : u16 : 9; } archive A { v : vector< S >; @optional o : raw_data; i : S;
        @optional j : S; m : multivector< 9, S >; @optional k : vector< R >; } }"""),
    ("optional multivector", "namespace n { struct S { x : u32 : 7; } struct T { y : u8; } archive A { @optional m : multivector< 16, S, T >; r : raw_data; @optional v : vector< S >; } }"),
    ("sub-archives", """namespace n { struct S { x : u8; } archive B { i : S; @optional r : raw_data; } archive C { v : vector< S >; }
        archive A { b : archive B; @optional c : archive C; v : vector< S >; } }"""),
    ("nested sub-archives", """namespace n { struct S { x : u8; } archive D { } archive B { d : archive D; @optional e : archive D; } archive A { @optional b : archive B; c : archive B; } }"""),
    ("optional only", "namespace n { struct S { x : u8; } archive B { v : vector< S >; } archive A { @optional v : vector< S >; @optional b : archive B; } }"),
    ("empty archive", "namespace n { archive A { } }"),
]


class Lazy(Store):
    """every entry that is asked for is present or not; both cases are followed"""

    def __init__(self, t, free=False):
        Store.__init__(self, t, free=free)
        self.seen = {}

    def mode(self, M, key):
        if key not in self.seen:
            if self.closed:
                return "missing"
            self.seen[key] = None if M.I.pick(2) == 0 else "missing"
        return self.seen[key]

    closed = False


def lower_text(r, w, t, name, text):
    return lower(r, w, t, corpus.Shape(name, " ".join(text.split())))


def c05(prop):
    r = Report(prop, "LLVM IR of flatdata::Archive and of generated archives is interpreted over a storage in which every entry that is asked for is present or missing",
               "Archives with mandatory and optional resources of every kind, sub-archives and nested sub-archives: all combinations of missing entries and directories, archives "
               "without storage.")
    return spread(r, c05_body, len(LOAD_SHAPES))


def c05_body(r, t, turn):
    w = EnvWork()
    try:
        for name, text in LOAD_SHAPES:
            if not turn():
                continue
            v = lower_text(r, w, t, name, text)
            if v is None:
                continue
            s, tops, pr, mod = v
            n = 0
            try:
                for path, t1 in tops.items():
                    n += subsets(r, "%s: %s" % (name, path), mod, pr, t1)
                    closed_archives(r, "%s: %s" % (name, path), mod, pr, t1)
                    for k, sc in keys(t1):
                        bad = [("schema", x) for x in (other_schemas(sc) if k == t1["sig"] else (sc[:-1], sc + "x", sc[1:]))] + ["no-schema"]
                        for b in bad + (["size-mismatch"] if k == t1["sig"] else []):
                            n += check_open(r, "opens-iff-described", "%s: %s with %s of %s" % (name, path, b, k), mod, pr, t1, lambda: Store(t1, {k: b})) or 0
            except Top as ex:
                raise AnalysisBroken("%s: %s" % (name, ex))
            r.floor("combinations of %s" % name, n, 2)
    finally:
        w.close()


def subsets(r, site, mod, pr, t):
    def sc(M):
        v = observe(M, pr, t, opened(M, pr, t))
        M.world.closed = True
        return v
    n = 0
    for o in explore_env(mod, lambda: Lazy(t), sc, max_paths=20000):
        n += 1
        w = o.m.world
        gone = sorted(k for k, v in w.seen.items() if v)
        at = "%s without %s" % (site, ", ".join(gone) or "nothing missing") if gone else site
        if o.kind != "return":
            r.ok("opens-iff-complete", at, False, "%s %s" % (o.kind, o.value))
            continue
        w.closed = True
        d = compare_open(o, t, o.value, w, o.m)
        r.ok("opens-iff-complete", at, d is None, d or "")
    return n


def closed_archives(r, site, mod, pr, t):
    """a default-constructed archive and one opened without storage"""
    p = pr.a[t["path"]]
    for what in ("default", "open"):
        def sc(M):
            a = M.alloc("archive", M.call(p["size"], []))
            M.call(p[what], [P(a, 0), 0] if what == "open" else [P(a, 0)])
            return flag(M, M.call(p["is"], [P(a, 0)])), flag(M, M.call(p["bool"], [P(a, 0)]))
        report(r, explore_env(mod, World, sc), "no-storage", "%s (%s)" % (site, what), lambda o: (o.value == (False, False), "is_open is %r without a storage" % (o.value,)))


# ------------------------------------------------------------------------------------------------------------------ C11

def c11(prop):
    r = Report(prop, "LLVM IR of flatdata::ArchiveBuilder and of generated builders is interpreted over storages with and without the archive, that refuse or lose writes",
               "Builders with every resource kind and sub-archives: no storage, empty storage, existing archive with the same and another schema, signature stream refused or failing "
               "at any write, refused sub-archive directories; every setter, incremental writer and sub-archive accessor of a builder that is not created.")
    return spread(r, c11_body, 2)


def c11_body(r, t, turn):
    w = EnvWork()
    try:
        for name, text in LOAD_SHAPES[:1] + LOAD_SHAPES[2:4] + [("multivector", LOAD_SHAPES[1][1])]:
            if not turn():
                continue
            v = lower_text(r, w, t, name, text)
            if v is None:
                continue
            s, tops, pr, mod = v
            try:
                for path, t1 in tops.items():
                    builders(r, "%s: %s" % (name, path), mod, pr, t1)
            except Top as ex:
                raise AnalysisBroken("%s: %s" % (name, ex))
    finally:
        w.close()


def uses(pr, t):
    """(description, probe, scenario on a builder address, is it a sub-archive accessor) of everything a builder offers"""
    p = pr.b[t["path"]]
    out = []
    for x in t["res"]:
        e = p["res"][x["name"]]
        if "set" in e:
            n = 8 if x["kind"] == "raw_data" else x["sizes"][0]

            def run(M, b, e=e, n=n):
                o, data = payload(M, n)
                return flag(M, M.call(e["set"], [b, P(o, 0), n]))
            out.append(("set_" + x["name"], run, False))
        if "start" in e:
            out.append(("start_" + x["name"], lambda M, b, e=e: M.call(e["start"], [b]), False))
        if "sub" in e:
            sub = pr.b[x["types"][0]]
            out.append((x["name"], lambda M, b, e=e, sub=sub: flag(M, M.call(sub["is"], [M.call(e["sub"], [b])])), True))
    return out


def builders(r, site, mod, pr, t):
    p = pr.b[t["path"]]
    sig = t["sig"]

    def make_builder(M, how):
        b = M.alloc("builder", M.call(p["size"], []))
        if how == "default":
            M.call(p["default"], [P(b, 0)])
        else:
            M.call(p["open"], [P(b, 0), 0 if how == "null" else M.world.dir(M, "")])
        return P(b, 0)

    def is_open(how):
        return lambda M: flag(M, M.call(p["is"], [make_builder(M, how)]))

    other = t["schema"] + "x"
    cases = [  # how the builder comes about, storage, is it open, may it write
        ("default", Target, False), ("null", Target, False),
        ("existing", lambda: Target({sig: t["schema"]}), True),
    ] + [("existing with another schema", lambda x=x: Target({sig: x}), False) for x in [other] + other_schemas(t["schema"])] + [
        ("signature refused", lambda: Target(refuse=[sig]), False),
        ("signature schema refused", lambda: Target(refuse=[sig + ".schema"]), False),
    ]
    used = set()
    for how, world, want in cases:
        report(r, explore_env(mod, world, is_open(how)), "is-open", "%s, %s" % (site, how), lambda o: (o.value is want, "is_open is %r" % o.value))
        if how in used:
            continue              # one stored text is enough
        used.add(how)
        for name, run, sub in uses(pr, t):
            if sub and want:
                continue          # sub-archives may be added to an existing archive

            def sc(M):
                b = make_builder(M, how)
                M.world.log.append(("use",))
                return run(M, b)
            for o in explore_env(mod, world, sc):
                log = o.m.world.log
                late = log[log.index(("use",)):] if ("use",) in log else log
                wrote = [x for x in late if x[0] in ("stream", "bytes", "range", "create_directory")]
                r.ok("not-created", "%s.%s, %s" % (site, name, how), o.kind == "throw" and "runtime_error" in repr(o.value) and not wrote,
                     "%s %s%s, expected a std::runtime_error and nothing written" % (o.kind, o.value, " after %r" % wrote[:2] if wrote else ""))
    # writes of the signature that fail at any operation
    for victim in (sig, sig + ".schema"):
        n = 0

        class Failing(Target):
            def fails(self, M, s, op):
                if s.path != victim or getattr(self, "failed", False):
                    return False
                self.failed = M.I.pick(2) == 1
                return self.failed
        for o in explore_env(mod, Failing, is_open("failing")):
            n += 1
            w = o.m.world
            want = not getattr(w, "failed", False)
            r.ok("signature-write-fails", "%s, %s" % (site, victim), o.kind == "return" and o.value is want, "%s %s, expected is_open to be %r when a write to %s %s" % (
                o.kind, o.value, want, victim, "works" if want else "fails"))
        r.floor("write operations of " + victim, n, 2)
    # sub-archives whose directory cannot be created, and in existing archives
    for x in t["res"]:
        if x["kind"] != "archive":
            continue
        acc = pr.b[t["path"]]["res"][x["name"]]["sub"]
        sub = x["sub"]

        def sc(M):
            s = M.call(acc, [make_builder(M, "open")])
            return flag(M, M.call(pr.b[sub["path"]]["is"], [s]))
        for how, world, want in (("empty storage", Target, True), ("directory refused", lambda: Target(refuse=[x["key"]]), False),
                                 ("existing archive", lambda: Target({sig: t["schema"]}), True),
                                 ("existing sub-archive", lambda: Target({sig: t["schema"], sub["sig"]: sub["schema"]}), True),
                                 ("existing sub-archive with another schema", lambda: Target({sig: t["schema"], sub["sig"]: sub["schema"] + " "}), False)):
            report(r, explore_env(mod, world, sc), "sub-archive-open", "%s.%s, %s" % (site, x["name"], how), lambda o: (o.value is want, "is_open of the sub-archive builder is %r" % o.value))


# ------------------------------------------------------------------------------------------------------------------ G07

def limits_open(r, t, turn):
    """archives whose resource holds more elements than its references can denote"""
    w = None
    try:
        for widths in ((1,), (5, 31), (63,), (64,), (64, 9)):
            for kind in ("vector< T >", "multivector< 9, T >", "raw_data", "vector< R >"):
                for opt in ("", "@optional "):
                    if not turn():
                        continue
                    w = w or EnvWork()
                    text = """namespace n { struct S { pad : u8 : 3; %s } struct T { t : u24x : 24; } struct R { @range( r ) a : u16 : 9; }
                        archive A { u : vector< T >; %s s : vector< S >; %sd : %s; } }""" % (" ".join("f%d : u64 : %d;" % x for x in enumerate(widths)),
                        " ".join("@explicit_reference( S.f%d, d )" % i for i in range(len(widths))), opt, kind)
                    text = text.replace("u24x", "u32")
                    name = "references of %s bits to %s%s" % (" and ".join(map(str, widths)), opt, kind)
                    v = lower_text(r, w, t, name, text)
                    if v is None:
                        continue
                    s, tops, pr, mod = v
                    try:
                        a = tops[".n.A"]
                        small = [x for x in widths if x < 64]
                        d = [x for x in a["res"] if x["name"] == "d"][0]
                        if d["limit"] != (2 ** min(small) if small else None):
                            raise AnalysisBroken("limit of %s" % name)
                        n = check_open(r, "cpp-open-limit", name, mod, pr, a, lambda: Store(a, free=True))
                        if small and min(small) < 38:      # the other bounds lie beyond the sizes assumed here
                            r.floor("partitions of " + name, n, 2)
                        if opt:
                            check_open(r, "cpp-open-limit", name + ", absent", mod, pr, a, lambda: Store(a, {k: "missing" for k, _ in d["keys"]}, free=True))
                    except Top as ex:
                        raise AnalysisBroken("%s: %s" % (name, ex))
    finally:
        if w:
            w.close()
