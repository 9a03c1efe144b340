"""G16: generated Rust archives and builders.

The generator is interpreted on every schema shape; the code it renders is lowered by rustc together with flatdata-rs and probe functions
that use it the way a user does; the probes' LLVM IR is interpreted over an abstract storage that decides what each read yields and
records every name and schema text it is asked for."""
import re

from . import corpus, schema
from .chk_cpp_archive import keys, le8, tree, truth
from .chk_gen_cpp import rendered, samples
from .chk_gen_rust import camel, collides, rs
from .chk_gen_tree import spread, verdict
from .dom import *
from .llvm import *
from .report import Report, AnalysisBroken
from .rustcrate import Crate
from .rustenv import *

FAIL = {"missing": 1, "no-data": 2, "size": 3}
SHOWN = {1: 9, 2: 5, 3: 7}          # error code of what the storage answers
NONE = (1 << 64) - 1


def last(path):
    return path.rpartition(".")[2]


def snake(name):
    return re.sub("([a-z0-9])([A-Z])", r"\1_\2", re.sub("(.)([A-Z][a-z]+)", r"\1_\2", name)).lower()


class RustArchives:
    def __init__(self, s, tops):
        self.text, self.n = [], 0
        self.open, self.items, self.build = {}, {}, {}
        for path, t in tops.items():
            self.archive(path, t)

    def add(self, params, body, ret="i32"):
        name = "probe_%d" % self.n
        self.n += 1
        self.text.append('#[no_mangle] pub unsafe extern "C" fn %s( %s ) -> %s { %s }\n' % (name, params, ret, body))
        return name

    def archive(self, path, t):
        A, B = rs(path), rs(path) + "Builder"
        self.ids = []
        show = self.shows(t, "a", ())
        opened = "match %s::open( std::sync::Arc::new( Given( s ) ) ) { Ok( a ) => { %%s 0 } Err( e ) => code( e ) }" % A
        self.open[path] = self.add("s: usize", opened % show), self.ids
        new = "let b = match %s::new( std::sync::Arc::new( Given( s ) ) ) { Ok( b ) => b, Err( e ) => return code( e ) }; " % B
        done = "match %s { Ok( _ ) => 0, Err( e ) => if e.kind() == io::ErrorKind::PermissionDenied { 11 } else { 98 } }"
        p = self.build[path] = {"new": self.add("s: usize", new + "0")}
        for r in t["res"]:
            x, kind = r["name"], r["kind"]
            T = rs(r["types"][0]) if r["types"] else ""
            if kind == "multivector":
                ns = path.rpartition(".")[0]
                ref = rs(ns) + "::" + camel(x) + "Ref"
                arms = " ".join("%s::%s( v ) => { let v: &%s = v; env_event( %d, v as *const %s as *const u8, i ) }" % (ref, last(c), rs(c), k, rs(c)) for k, c in enumerate(r["types"]))
                get = "let m: &MultiArrayView< %s::%s > = a.%s()%s; " % (rs(ns), camel(x), x, ".unwrap()" if r["optional"] else "")
                self.items[(path, x)] = self.add("s: usize", opened % (get + "for i in 0..m.len() { for v in m.at( i ) { match v { %s } } }" % arms))
                adds = " ".join("l.add_%s();" % snake(last(c)) for c in r["types"])
                p[x] = self.add("s: usize", new + "let mut v = match b.start_%s() { Ok( v ) => v, Err( e ) => return 97 }; { match v.grow() { Ok( mut l ) => { %s } Err( _ ) => return 96 } } "
                                "match v.grow() { Ok( l ) => (), Err( _ ) => return 96 } match v.close() { Ok( m ) => { env_event( 900, std::ptr::null(), m.len() ); 0 }, Err( e ) => code( e ) }" % (x, adds))
            elif kind == "archive":
                p[x] = self.add("s: usize", new + "let c: Result< %sBuilder, ResourceStorageError > = b.%s(); match c { Ok( _ ) => 0, Err( e ) => code( e ) }" % (T, x))
            elif kind == "raw_data":
                p[x] = self.add("s: usize, d: *const u8, n: usize", new + done % ("b.set_%s( std::slice::from_raw_parts( d, n ) )" % x))
            elif kind == "instance":
                p[x] = self.add("s: usize, d: *const u8, n: usize", new + done % ("b.set_%s( &*( d as *const %s ) )" % (x, T)))
            elif kind == "vector":
                p[x] = self.add("s: usize, d: *const u8, n: usize", new + done % ("b.set_%s( std::slice::from_raw_parts( d as *const %s, n ) )" % (x, T)))
                p[x + " started"] = self.add("s: usize", new + "let mut v: flatdata::ExternalVector< %s > = match b.start_%s() { Ok( v ) => v, Err( e ) => return 97 }; "
                                             "if v.grow().is_err() || v.grow().is_err() { return 96 } match v.close() { Ok( m ) => { env_event( 900, std::ptr::null(), m.len() ); 0 }, Err( e ) => code( e ) }" % (T, x))

    def shows(self, t, obj, at):
        """statements showing every resource; ids: path of names by event number"""
        out = []
        for r in t["res"]:
            x, kind = r["name"], r["kind"]
            k = len(self.ids)
            self.ids.append(at + (x,))
            T = rs(r["types"][0]) if r["types"] else ""
            v = "v%d" % k
            if kind == "vector":
                ty, body = "&[%s]" % T, "env_event( %d, %s.as_ptr() as *const u8, %s.len() );" % (k, v, v)
            elif kind == "instance":
                ty, body = "&%s" % T, "env_event( %d, %s as *const %s as *const u8, 1 );" % (k, v, T)
            elif kind == "raw_data":
                ty, body = "RawData", "env_event( %d, %s.as_ptr(), %s.len() );" % (k, v, v)
            elif kind == "multivector":
                ty, body = "&MultiArrayView< %s::%s >" % (rs(t["path"].rpartition(".")[0]), camel(x)), "number( %d, %s.len() );" % (k, v)
            else:
                ty, body = "&%s" % T, "number( %d, 0 ); " % k + self.shows(r["sub"], v, at + (x,))
            if r["optional"]:
                out.append("let o: Option< %s > = %s.%s(); match o { Some( %s ) => { %s } None => number( %d, usize::MAX ) }" % (ty, obj, x, v, body, k))
            else:
                out.append("let %s: %s = %s.%s(); %s" % (v, ty, obj, x, body))
        return " ".join(out)


class RStore(Env):
    """an archive as stored; bad: {key: answer of the storage}; odd: {key: bytes beyond the last element}"""

    def __init__(self, t, bad=(), contents=None, odd=None, full=()):
        Env.__init__(self, {}, {k: FAIL[v] for k, v in dict(bad).items()})
        self.t, self.contents, self.odd, self.full = t, contents or {}, odd or {}, set(full)
        self.sizes = {}
        self.number("")
        self.learn(t)

    def learn(self, t):
        self.files[t["sig"]] = (0, 0)
        for r in t["res"]:
            if r["kind"] == "archive":
                self.learn(r["sub"])
            elif r["kind"] == "multivector":
                self.files[r["key"]] = (1, 0)
                self.files[r["key"] + "_index"] = (r["index"], 1)
            elif r["kind"] == "instance":
                self.files[r["key"]] = (r["sizes"][0], None)
            elif r["kind"] == "raw_data":
                self.files[r["key"]] = (1, 0)
            else:
                self.files[r["key"]] = (r["sizes"][0], 1 if r["overlap"] else 0)

    def elements(self, M, key):
        """unknown number of elements (sentinels included)"""
        return sym("elements of " + key)

    def size(self, M, key):
        if key in self.contents:
            return len(self.contents[key])
        e, least = self.files[key]
        if key in self.odd:
            n = self.odd[key]
            if isinstance(n, int) and n < 0:
                return e + n
        elif e == 0:
            return 0
        elif least is None:
            return e
        k = self.elements(M, key)
        if key not in self.sizes:
            self.sizes[key] = True
            M.I.facts.assume(le0(lin_add(least, k, -1)), True)
            M.I.facts.assume(le0(lin_add(k, (1 << 40) // max(e, 1), -1)), True)
        return lin_add(lin_mul(k, e), self.odd.get(key, 0))

    def object(self, M, path):
        if path not in self.files:
            return None
        o = self.objs.get(path)
        if o is None:
            o = self.objs[path] = M.alloc("file:" + path, self.size(M, path))
            o.content = lambda off: M.mk([bvar("%s[%s].%d" % (path, off, i)) for i in range(8)])
            for i, b in enumerate(self.contents.get(path, ())):
                o.cells[i] = (1, b)
        return o, self.size(M, path)


def expected(t, w, M):
    """-> code of open, or None (a limit is not decided)"""
    def at(key):
        return w.fail.get(key, 0)
    if at(t["sig"]):
        return SHOWN[at(t["sig"])]
    for r in t["res"]:
        c = state(r, w, M)
        if c == 9:
            if not r["optional"]:
                return 5
        elif c != 0:
            return c
        elif r["limit"]:
            f = M.known(le0(lin_add(count(r, w, M), r["limit"], -1)))
            if f is None:
                return None
            if f is False:
                return 8
    return 0


def state(r, w, M):
    """code of one resource, 9: missing"""
    if r["kind"] == "archive":
        return expected(r["sub"], w, M)
    if r["kind"] == "multivector":
        d, i = (w.fail.get(k, 0) for k, _ in r["keys"])
        if (d, i) == (1, 1):
            return 9
        if 1 in (d, i) and 0 in (d, i):
            return 5
        for c in (d, i):
            if c not in (0, 1):
                return SHOWN[c]
    c = w.fail.get(r["key"], 0)
    if c:
        return SHOWN[c]
    for k, _ in r["keys"]:
        if k in w.odd:
            return 7
    return 0


def count(r, w, M):
    if r["kind"] == "raw_data":
        return w.size(M, r["key"])
    if r["kind"] == "instance":
        return 1
    key = r["keys"][-1][0]
    n = w.elements(M, key) if key not in w.contents else len(w.contents[key]) // w.files[key][0]
    return lin_add(n, -1) if r["kind"] == "multivector" or r["overlap"] else n


def same_number(M, a, b):
    if is_int(a) and is_int(b):
        return a == b
    try:
        v = M.I.eq(a, b)
    except Top:
        return False
    return (M.I.facts.decide(v) if isinstance(v, T) else v) is True


def seen(t, ids, events, w, at=()):
    """difference between the resources shown and those stored, or None"""
    for r in t["res"]:
        k = ids.index(at + (r["name"],))
        es = [e for e in events if e[1] == k]
        if len(es) != 1:
            return "%s is shown %d times" % (r["key"], len(es))
        _, _, p, n = es[0]
        there = state(r, w, w.M) == 0
        if not there:
            if n != NONE:
                return "%s is present" % r["key"]
            continue
        if is_int(n) and int(n) == NONE:
            return "%s is absent" % r["key"]
        if r["kind"] == "archive":
            d = seen(r["sub"], ids, events, w, at + (r["name"],))
            if d:
                return d
            continue
        if r["kind"] != "multivector" and not (isinstance(p, P) and p.o is w.objs.get(r["key"]) and p.off == 0):
            return "%s starts at %r, expected the beginning of the payload" % (r["key"], p)
        if not same_number(w.M, n, count(r, w, w.M)):
            return "%s has %r elements, expected %r" % (r["key"], n, count(r, w, w.M))
    return None


def g16(prop):
    r = Report(prop, "the generator is interpreted on every schema shape; LLVM IR of the rendered Rust code, flatdata-rs and user-level probes is interpreted over an abstract storage "
               "that records the names and schema texts it is asked for",
               "Corpus of schema shapes; per archive: everything stored with unknown sizes, each entry missing, without data or refused, sizes that are no multiple of the element, "
               "all optional resources missing; multivector contents per type tag; every setter, incremental writer and sub-archive accessor of the builder.")
    return spread(r, g16_body, 80)


def g16_body(r, t, turn):
    w = Crate()
    try:
        for sh in corpus.shapes():
            if turn():
                one(r, t, w, sh)
    finally:
        w.close()


def one(r, t, w, sh):
    text = samples(sh)[-1]
    s = schema.Schema(text)
    if collides(s) or not any(d["kind"] == "archive" for d in s.decls):
        return
    o, v = rendered(t, text, "rust", "RustGenerator")
    if not r.ok("renders", sh.name, v is not None, "" if v else verdict(o)):
        return
    s, src, texts, rtexts = v
    tops = {d["path"]: tree(s, texts, rtexts, d["path"]) for d in s.decls if d["kind"] == "archive"}
    pr = RustArchives(s, tops)
    rc, ir, err = w.whole(PRELUDE + src + "".join(pr.text))
    if rc:
        from .rustlib import first_error
        r.ok("compiles", sh.name, False, first_error(err))
        return
    mod = Module(ir)
    mod.text = ir
    mod.std = std_models(mod)
    for path, a in tops.items():
        site = "%s: %s" % (sh.name, path)
        try:
            opening(r, site, mod, pr, a)
            building(r, site, mod, pr, a)
        except Top as ex:
            raise AnalysisBroken("%s: %s" % (site, ex))


def opening(r, site, mod, pr, t):
    name, ids = pr.open[t["path"]]
    wanted = dict(keys(t))

    def case(rule, what, **kw):
        def scen(M, w):
            w.M = M
            return M.call(name, [0])
        outs = run_world(mod, mod.std, lambda M: RStore(t, **kw), scen)
        if not outs:
            raise AnalysisBroken("no partition of " + what)
        for o in outs:
            w = o.m.world
            w.M = o.m
            if o.kind == "cut":
                raise AnalysisBroken("%s: %s" % (what, o.value))
            short = any(isinstance(n, int) and n < 0 for n in w.odd.values())
            if not r.ok(rule, what, o.kind == "return", "%s %s" % (o.kind, o.value),
                        key="odd-size|an instance with too few bytes panics" if short and o.kind == "fault" and "assert_failed" in str(o.value) else None):
                continue
            asked = [e[1:] for e in w.log if e[0] == "resource"]
            for k, sc in asked:
                r.ok("schema-asked", "%s: %s" % (site, k), wanted.get(k) == sc, "%s is read with the schema %r, expected %r" % (k, sc[:80], (wanted.get(k) or "nothing of this name")[:80]))
            want = expected(t, w, o.m)
            d = None
            if want is None:
                d = "opens or not independently of its limits"
            elif o.value != want:
                d = "%s, expected %s" % (CODES.get(o.value, o.value), CODES.get(want, want))
            elif want == 0:
                missing = sorted(set(wanted) - {k for k, _ in asked} - unread(t, w))
                d = "%s is never read" % missing[0] if missing else seen(t, ids, [e for e in w.log if e[0] == "event"], w)
            r.ok(rule, what, d is None, d or "")
    case("opens", site)
    for k in wanted:
        for bad in FAIL:
            case("damaged", "%s with %s: %s" % (site, k, bad), bad={k: bad})
    opts = [x for x in t["res"] if x["optional"]]
    if opts:
        case("optional-absent", site, bad={k: "missing" for x in opts for k in ([x["sub"]["sig"]] if x["kind"] == "archive" else [k for k, _ in x["keys"]])})
    for x in t["res"]:
        if x["kind"] == "multivector":
            for a in FAIL:
                for b in FAIL:
                    case("damaged", "%s with %s: %s, index: %s" % (site, x["key"], a, b), bad={x["key"]: a, x["key"] + "_index": b})
            items(r, site, mod, pr, t, x)
        for key, e in ((x["key"] + "_index", x.get("index")),) if x["kind"] == "multivector" else ((x["key"], x["sizes"][0]),) if x["kind"] == "vector" else ():
            for n in sorted({1, e // 2, e - 1} - {0}) if e > 1 else ():
                case("odd-size", "%s with %d bytes beyond the elements of %s" % (site, n, key), odd={key: n})
        if x["kind"] == "instance":
            for n in sorted({1, x["sizes"][0]}):
                case("odd-size", "%s with %d bytes too few in %s" % (site, n, x["key"]), odd={x["key"]: -n})


def unread(t, w, dead=False):
    """keys that need not be read: those of archives whose signature is missing"""
    out = set()
    for r in t["res"]:
        if r["kind"] == "archive":
            gone = w.fail.get(r["sub"]["sig"], 0)
            if gone:
                out |= {k for k, _ in keys(r["sub"])} - {r["sub"]["sig"]}
            elif state(r, w, w.M) == 0:
                out |= unread(r["sub"], w)
            else:
                out |= {k for k, _ in keys(r["sub"])} - {r["sub"]["sig"]}
    return out


def items(r, site, mod, pr, t, x):
    """buckets of one element of every type tag, of all types, and of an undeclared tag"""
    k = len(x["types"])
    for tags in [[i] for i in range(k)] + [list(range(k)), list(range(k))[::-1], [k], [0, k], [255]]:
        data, want, junk = [7] * 3, [], 0
        for g in tags:
            want.append((g, len(data) + 1))
            data += [g] + [0] * (x["sizes"][g] if g < k else 5)
        if x["types"].count(x["types"][0]) > 1:
            continue
        ends = [3, len(data), len(data)]
        ix = b"".join(v.to_bytes(x["index"], "little") for v in ends)
        if any(v >> x["width"] for v in ends):
            continue
        what = "%s.%s, tags %s" % (site, x["name"], tags)

        def scen(M, w):
            w.M = M
            return M.call(pr.items[(t["path"], x["name"])], [0])
        for o in run_world(mod, mod.std, lambda M: RStore(t, contents={x["key"] + "_index": ix, x["key"]: data}), scen):
            w = o.m.world
            if o.kind == "cut":
                raise AnalysisBroken("%s: %s" % (what, o.value))
            if o.kind == "return" and expected(t, w, o.m) == 8 == o.value:
                continue
            if any(g >= k for g in tags):
                r.ok("unknown-tag", what, o.kind == "fault" and "panics" in str(o.value), "an undeclared tag is accepted: %s %s" % (o.kind, o.value))
                continue
            ev = [(e[1], e[2].off if isinstance(e[2], P) and e[2].o is w.objs.get(x["key"]) else e[2], e[3]) for e in w.log if e[0] == "event"]
            r.ok("dispatch", what, o.kind == "return" and o.value == 0 and ev == [(g, at, 0) for g, at in want],
                 "%s %s, elements %r, expected %r" % (o.kind, o.value, ev, want))


def image(M, w, key):
    s = w.streams.get(key)
    if s is None:
        return None
    im = s.image()
    if im is None:
        return None
    out = []
    for c in im:
        b = c[1] if c[0] == "byte" else c
        if c[0] == "byte" and not is_int(b):
            try:
                vs = [q.const() for q in M.bits(b, 8)]
                b = sum(v << i for i, v in enumerate(vs)) if None not in vs else b
            except Top:
                pass
        out.append(b)
    return out


def framed(M, w, key, sc, payload):
    got = image(M, w, key)
    want = le8(len(payload)) + list(payload) + [0] * 8
    if got != want:
        return "%s contains %r, expected %r" % (key, got, want)
    x = image(M, w, key + ".schema")
    if x != list(sc.encode()):
        return "%s is described by %r, expected %r" % (key, bytes(x or b"")[:80], sc[:80])
    return None


class RTarget(Env):
    def __init__(self, there=(), fail=()):
        Env.__init__(self, {k: True for k in there}, fail)
        self.number("")

    def object(self, M, path):
        if path not in self.streams:
            return None
        o = self.objs.get(path)
        n = sum(len(op[1]) for op in self.streams[path].ops if op[0] == "bytes") - 24      # payload: without the header (written twice) and padding
        if o is None:
            o = self.objs[path] = M.alloc("file:" + path, n)
        return o, n


def building(r, site, mod, pr, t):
    p = pr.build[t["path"]]

    def case(rule, what, name, args, good, there=(), fail=()):
        def scen(M, w):
            w.M = M
            return M.call(name, [0] + (args(M, w) if args else []))
        for o in run_world(mod, mod.std, lambda M: RTarget(there, fail), scen):
            if o.kind == "cut":
                raise AnalysisBroken("%s: %s" % (what, o.value))
            d = "%s %s" % (o.kind, o.value) if o.kind != "return" else good(o, o.m.world)
            r.ok(rule, what, not d, d or "")

    def stored(w):
        return [e[1:] for e in w.log if e[0] == "stored"]
    sig = (t["sig"], t["schema"], None, 0)

    def fresh(o, w):
        return None if o.value == 0 and stored(w) == [sig] and not w.streams else "%s, stores %r" % (CODES.get(o.value, o.value), [(e[0], e[1][:40], e[3]) for e in stored(w)])
    case("signature", site, p["new"], None, fresh)
    case("signature", site + " (exists already)", p["new"], None, lambda o, w: None if o.value == 12 and not stored(w) and not w.streams else "%s, stores %r" % (CODES.get(o.value, o.value), stored(w)),
         there=[t["sig"]])
    case("signature", site + " (cannot be written)", p["new"], None, lambda o, w: None if o.value == 11 else "%s" % CODES.get(o.value, o.value), fail={0: 2})
    for x in t["res"]:
        what = "%s.%s" % (site, x["name"])
        if x["kind"] in ("vector", "instance", "raw_data"):
            for n in (0, 1, 3) if x["kind"] != "instance" else (1,):
                e = x["sizes"][0] if x["kind"] != "raw_data" else 1
                size = e * n if x["kind"] != "raw_data" else 11 * n
                ghost = e if x["kind"] == "vector" and x["overlap"] else 0

                def args(M, w):
                    o = w.given = M.alloc("payload", size + ghost)
                    o.content = lambda off: M.mk([bvar("m.%d" % (8 * off + i)) for i in range(8)])
                    return [P(o, 0), n if x["kind"] != "raw_data" else size]

                def good(o, w):
                    if o.value != 0:
                        return "set_%s fails: %s" % (x["name"], CODES.get(o.value, o.value))
                    st = stored(w)
                    ok = len(st) == 2 and st[0] == sig and st[1][:2] == (x["key"], x["schema"]) and st[1][3] == size + ghost and (size + ghost == 0 or st[1][2] == P(w.given, 0))
                    return None if ok else "stores %r, expected %d bytes of %s" % ([(e[0], e[1][:60], e[2], e[3]) for e in st], size + ghost, x["key"])
                case("set", what, p[x["name"]], args, good)
            case("set", what + " (cannot be written)", p[x["name"]], args, lambda o, w: None if o.value == 11 else "a failed write is reported as %s" % CODES.get(o.value, o.value), fail={1: 2})
        if x["kind"] == "vector":
            # elements with ranges are not self-contained: the last one written is the sentinel
            e = x["sizes"][0]

            def good(o, w):
                ev = [l[1:] for l in w.log if l[0] == "event"]
                n = 2
                if o.value != 0:
                    return "start_%s fails: %s" % (x["name"], CODES.get(o.value, o.value))
                d = framed(o.m, w, x["key"], x["schema"], [0] * (n * e))
                if d:
                    return d
                return None if len(w.streams) == 2 and stored(w) == [sig] and asked(w, x["key"], x["schema"]) else "writes %s" % sorted(w.streams)
            case("start", what, p[x["name"] + " started"], None, good)
        if x["kind"] == "multivector":
            def good(o, w):
                if o.value != 0:
                    return "start_%s fails: %s" % (x["name"], CODES.get(o.value, o.value))
                data = [b for i, k in enumerate(x["sizes"]) for b in [i] + [0] * k]
                ends = [0, len(data), len(data)]
                d = framed(o.m, w, x["key"], x["schema"], data)
                d = d or framed(o.m, w, x["key"] + "_index", "index(%s)" % x["schema"], [b for v in ends for b in (v % (1 << x["width"])).to_bytes(x["index"], "little")])
                if d:
                    return d
                return None if len(w.streams) == 4 and stored(w) == [sig] else "writes %s" % sorted(w.streams)
            if not sum(x["sizes"]) + len(x["sizes"]) >> x["width"]:
                case("start", what, p[x["name"]], None, good)
        if x["kind"] == "archive":
            sub = x["sub"]
            want = [sig, (sub["sig"], sub["schema"], None, 0)]
            case("sub-archive", what, p[x["name"]], None, lambda o, w: None if o.value == 0 and stored(w) == want else "%s, stores %r" % (CODES.get(o.value, o.value), [e[0] for e in stored(w)]))


def asked(w, key, sc):
    return all(e[1:] == (key, sc) for e in w.log if e[0] == "resource")
