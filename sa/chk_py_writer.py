"""P06 / P07: what the Python builder writes, and what it refuses."""
from .pylib import *
from .report import Report

STUB = """
from flatdata.lib.archive_builder import ArchiveBuilder, ResourceSignature
from flatdata.lib.archive import Archive
from flatdata.lib.resources import Vector, Multivector, Instance, RawData
from flatdata.lib.structure import Structure, FieldSignature
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_writer import FileResourceWriter

class File:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
    def write(self, data):
        fs_write(self.name, data)
    def flush(self):
        pass
    def close(self):
        fs_close(self.name)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()

class E(Structure):
    _SCHEMA = "e"
    _NAME = "ns_E"
    _SIZE_IN_BITS = 27
    _SIZE_IN_BYTES = 4
    _FIELDS = {
        "a": FieldSignature(offset=0, width=13, is_signed=False, dtype="u2"),
        "b": FieldSignature(offset=13, width=9, is_signed=True, dtype="i2"),
        "c": FieldSignature(offset=22, width=5, is_signed=False, dtype="u1"),
    }
    _FIELD_KEYS = {"a", "b", "c"}

class E2(Structure):
    _SCHEMA = "e2"
    _NAME = "ns_E2"
    _SIZE_IN_BITS = 8
    _SIZE_IN_BYTES = 1
    _FIELDS = {"g": FieldSignature(offset=0, width=8, is_signed=False, dtype="u1")}
    _FIELD_KEYS = {"g"}

class Index(Structure):
    _SCHEMA = "i"
    _NAME = "IndexType32"
    _SIZE_IN_BITS = 8 * ISIZE
    _SIZE_IN_BYTES = ISIZE
    _FIELDS = {"value": FieldSignature(offset=0, width=8 * ISIZE, is_signed=False, dtype="u8")}
    _FIELD_KEYS = {"value"}

class Sub(Archive):
    _SCHEMA = "s"
    _NAME = "S"
    _RESOURCES = {}

class Builder(ArchiveBuilder):
    _SCHEMA = schema("A")
    _NAME = "A"
    _RESOURCES = {
        "A.archive": ResourceSignature(container=RawData, initializer=None, schema=_SCHEMA, is_optional=False, doc="sig"),
        "vec": ResourceSignature(container=Vector, initializer=E, schema=schema("vec"), is_optional=False, doc="d"),
        "vec2": ResourceSignature(container=Vector, initializer=E2, schema=schema("vec2"), is_optional=True, doc="d"),
        "inst": ResourceSignature(container=Instance, initializer=E, schema=schema("inst"), is_optional=False, doc="d"),
        "raw": ResourceSignature(container=RawData, initializer=None, schema=schema("raw"), is_optional=False, doc="d"),
        "mv": ResourceSignature(container=Multivector, initializer=[Index, E2, E], schema=schema("mv"), is_optional=False, doc="d"),
        "sub": ResourceSignature(container=Archive, initializer=Sub, schema=schema("sub"), is_optional=False, doc="d"),
    }
    def __init__(self, resource_storage):
        ArchiveBuilder.__init__(self, resource_storage)

def builder():
    return Builder(ResourceStorage(FileResourceWriter(), "/out"))
"""

E_FIELDS = [("a", 0, 13, False), ("b", 13, 9, True), ("c", 22, 5, False)]
E2_FIELDS = [("g", 0, 8, False)]


def schema_of(key):
    return sym("schema(%s)" % key, "str")


def world(I, isize=4):
    """builder module over a file system model: fs[path] = written parts, per open()"""
    I.fs = {}
    I.opened = []
    m = Module("subject", None)

    def fs_open(J, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(mode, str) or "w" not in mode and "a" not in mode and "x" not in mode or "b" not in mode:
            raise Top("open mode %r" % (mode,))
        if "x" in mode and a[0] in I.fs:
            J.throw("FileExistsError", a[0])
        if "a" not in mode or a[0] not in I.fs:
            I.fs[a[0]] = []
        I.opened.append(a[0])
        return J.call(m.ns["File"], [a[0], mode], {})

    def fs_write(J, a, k):
        name, data = a
        if isinstance(data, (str, int, list, dict)) or data is None:
            J.throw("TypeError", "a bytes-like object is required")
        I.fs[name] += BytesV.of(data).parts
        return None

    def exists(J, a, k):
        return J.choose(T("exists", (a[0],), "bool"))
    I.models.update({"open": fs_open, "os.path.exists": exists, "os.path.isdir": exists,
                     "os.mkdir": lambda J, a, k: None, "os.makedirs": lambda J, a, k: None,
                     "io.open": fs_open})
    for k in ("A", "vec", "vec2", "inst", "raw", "mv", "sub"):
        I.facts.add_le(lin_add(1, T("len", (T("encode", (schema_of(k),), "bytes"),), "int"), -1))     # schema texts are not empty
    m.ns.update(__name__="subject", ISIZE=isize, schema=Native("schema", lambda J, a, k: schema_of(a[0])),
                fs_write=Native("fs_write", fs_write), fs_close=Native("fs_close", lambda J, a, k: None))
    sc = Scope("module", None, m)
    sc.vars = m.ns
    I.exec_body(ast.parse(STUB).body, sc)
    return m.ns


def val(tag, fields):
    return {n: bv_sym("%s.%s" % (tag, n), w, s) for n, _, w, s in fields}


def payload(tag, fields, size):
    """expected bits of a struct"""
    bits = [B0] * (8 * size)
    for n, off, w, s in fields:
        v = bv_sym("%s.%s" % (tag, n), w, s)
        for b in range(w):
            bits[off + b] = v.bit(b)
    return [BV(bits[8 * k:8 * k + 8]) for k in range(size)]


def framed(parts):
    n = len(parts)
    return [(n >> (8 * k)) & 255 for k in range(8)] + list(parts) + [0] * 8


def same_bytes(I, got, want):
    if len(got) != len(want):
        return "%d bytes instead of %d" % (len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        if isinstance(g, T) or isinstance(w, T):
            if g is not w:
                return "part %d is %r instead of %r" % (k, g, w)
        elif not I.bits_eq(g, w):
            return "byte %d is %r instead of %r" % (k, g, w)
    return ""


def schema_bytes(text):
    return [T("encode", (text,), "bytes")]


def has_schema(I, got, text):
    """the file holds exactly the utf-8 text"""
    try:
        v = pyai.m_bytes_decode(I, BytesV(got), [], {})
    except Exception:
        v = None
    if isinstance(text, str):
        return v == text
    return v is text or got == schema_bytes(text) or enc_parts(got) == enc_parts(schema_bytes(text))


def enc_parts(parts):
    """flatten encoded concatenations"""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == "encode":
            for q in pyai.cat_parts(p.args[0]):
                if isinstance(q, str):
                    out += list(q.encode())
                else:
                    out.append(q)
        else:
            out.append(p)
    return out


BASE = {"/out/A.archive": [0] * 16}


def signature(r, o, site):
    fs = o.I.fs
    got = fs.get("/out/A.archive")
    r.ok("archive-signature", site, got is not None and not same_bytes(o.I, got, [0] * 16), "A.archive holds %r" % (got,), key="archive-signature")
    got = fs.get("/out/A.archive.schema")
    r.ok("archive-schema", site, got is not None and has_schema(o.I, got, schema_of("A")), "A.archive.schema holds %r" % (got,),
         key="archive-schema")


def p06(pid):
    r = Report(pid, "after every accepted set() the resource file is LE64(payload size) + payload + 8 zero bytes, the .schema file "
                    "the resource's schema, and a multivector has the matching index resource",
               "abstract interpretation of ArchiveBuilder.set / ResourceStorage / FileResourceWriter against a file system model; "
               "field values, schema texts and raw payload are symbolic; 0..3 elements, buckets of 0..2 elements of two types, index widths 1..8")
    prog = program()
    n = 0
    for count in (0, 1, 3):
        n += 1
        check_set(prog, r, "vec", [val("v%d" % k, E_FIELDS) for k in range(count)],
                  [b for k in range(count) for b in payload("v%d" % k, E_FIELDS, 4)], "vector of %d" % count)
        n += 1
        check_set(prog, r, "vec2", [val("w%d" % k, E2_FIELDS) for k in range(count)],
                  [b for k in range(count) for b in payload("w%d" % k, E2_FIELDS, 1)], "one-byte vector of %d" % count)
    check_set(prog, r, "inst", val("x", E_FIELDS), payload("x", E_FIELDS, 4), "instance")
    for kind in ("bytes", "bytearray", "memoryview"):
        n += 1
        check_raw(prog, r, kind)
    for isize in (1, 3, 4, 8):
        for shape in ([], [""], ["g"], ["", "Eg", ""], ["gE", "E", "g"], ["EE"]):
            n += 1
            check_mv(prog, r, isize, shape)
    creation(prog, r)
    r.floor("resources written", n, 30)
    source_info(prog, r)
    return r.finish()


def creation(prog, r):
    def scen(I):
        ns = world(I)
        b = I.call(ns["builder"], [], {})
        I.call(I.getattr(b, "finish"), [], {})
    for o in run(prog, scen):
        r.ok("builder-opens", "ArchiveBuilder()", o.kind == "return", o.describe(), key="builder-opens")
        if o.kind == "return":
            signature(r, o, "ArchiveBuilder()")
            extra = set(o.I.fs) - {"/out/A.archive", "/out/A.archive.schema"}
            r.ok("only-signature", "ArchiveBuilder()", not extra, "also writes %s" % sorted(map(str, extra)), key="only-signature")


def run_set(prog, name, value, isize=4):
    def scen(I):
        ns = world(I, isize)
        b = I.call(ns["builder"], [], {})
        I.event("created")
        I.call(I.getattr(b, "set"), [name, value(I) if callable(value) else value], {})
        I.event("set")
        I.call(I.getattr(b, "finish"), [], {})
    return run(prog, scen)


def check_set(prog, r, name, value, want, label, isize=4, index=None):
    done = 0
    for o in run_set(prog, name, value, isize):
        site = "set(%s) %s" % (name, label)
        if o.kind != "return":
            r.ok("set-accepts", site, False, o.describe(), key="set-accepts|" + label)
            continue
        done += 1
        fs = o.I.fs
        got = fs.get("/out/" + name)
        why = "file is not written" if got is None else same_bytes(o.I, got, framed(want))
        r.ok("framing", site, not why, why, key="framing|" + label)
        got = fs.get("/out/%s.schema" % name)
        r.ok("schema-file", site, got is not None and has_schema(o.I, got, schema_of(name)), "holds %r" % (got,), key="schema-file|" + name)
        signature(r, o, site)
        files = {"/out/A.archive", "/out/A.archive.schema", "/out/" + name, "/out/%s.schema" % name}
        if index is not None:
            files |= {"/out/%s_index" % name, "/out/%s_index.schema" % name}
            got = fs.get("/out/%s_index" % name)
            why = "index is not written" if got is None else same_bytes(o.I, got, framed(index))
            r.ok("index-framing", site, not why, why, key="index-framing|" + label)
            got = fs.get("/out/%s_index.schema" % name)
            want_s = cat(["index(", schema_of(name), ")"])
            r.ok("index-schema", site, got is not None and has_schema(o.I, got, want_s), "holds %r" % (got,), key="index-schema")
        r.ok("no-other-files", site, set(fs) == files, "files are %s" % sorted(map(str, fs)), key="no-other-files|" + name)
        twice = [f for f in files if o.I.opened.count(f) > 1]
        r.ok("opened-once", site, not twice, "opens %s more than once" % twice, key="opened-once|" + name)
    r.ok("set-completes", label, done > 0, "no path completes", key="set-completes|" + label)


def check_raw(prog, r, kind):
    part = sym("payload", "bytes")

    def value(I):
        return BytesV([part], kind)
    n = T("len", (part,), "int")
    for o in run_set(prog, "raw", value):
        site = "set(raw) %s" % kind
        if o.kind != "return":
            r.ok("set-accepts", site, False, o.describe(), key="set-accepts|raw")
            continue
        got = o.I.fs.get("/out/raw")
        empty = o.facts.implies_le(n)
        ok = False
        if got:
            forms = [[T("tobytes", (n, 8, "little", False), "bytes"), part] + [0] * 8]
            if empty:
                forms += [[0] * 16, [0] * 8 + [part] + [0] * 8]
            ok = got in forms
        r.ok("framing", site, ok, "holds %r" % (got,), key="framing|raw")
        got = o.I.fs.get("/out/raw.schema")
        r.ok("schema-file", site, got is not None and has_schema(o.I, got, schema_of("raw")), "holds %r" % (got,), key="schema-file|raw")


def check_mv(prog, r, isize, shape):
    value, data, index = [], [], []
    k = 0
    for bucket in shape:
        index.append(len(data))
        items = []
        for c in bucket:
            fields, size, tag, sname = (E_FIELDS, 4, 1, "ns_E") if c == "E" else (E2_FIELDS, 1, 0, "ns_E2")
            t = "m%d" % k
            k += 1
            items.append({"name": sname, "attributes": val(t, fields)})
            data += [tag] + payload(t, fields, size)
        value.append(items)
    index.append(len(data))
    idx = [(x >> (8 * q)) & 255 for x in index for q in range(isize)]
    check_set(prog, r, "mv", value, data, "multivector %s, %d-byte index" % (shape, isize), isize, idx)


def p07(pid):
    r = Report(pid, "bad input raises the documented error before any element reaches the resource's data file; a second set() leaves "
                    "the file alone; what cannot be written is reported",
               "abstract interpretation of ArchiveBuilder.set against a file system model, bad element placed first / in the middle / last, "
               "symbolic values, all resource kinds")
    prog = program()
    good = lambda t: val(t, E_FIELDS)               # noqa: E731
    missing = {k: v for k, v in val("bad", E_FIELDS).items() if k != "b"}
    extra = dict(val("bad", E_FIELDS), zzz=1)
    n = 0
    for bad, exc, what in ((missing, "MissingFieldError", "missing field"), (extra, "UnknownFieldError", "unknown field")):
        for pos in range(3):
            n += 1
            vec = [good("v%d" % k) for k in range(2)]
            vec.insert(pos, bad)
            refused(prog, r, "vec", vec, (exc,), "%s in element %d" % (what, pos))
            n += 1
            for shape in (0, 1):
                mv = [[{"name": "ns_E", "attributes": good("m%d" % k)} for k in range(2)] for _ in range(2)]
                mv[shape].insert(pos, {"name": "ns_E", "attributes": bad})
                refused(prog, r, "mv", mv, (exc,), "%s in bucket %d, element %d" % (what, shape, pos))
        n += 1
        refused(prog, r, "inst", bad, (exc,), what)
    for pos in range(3):
        mv = [[{"name": "ns_E", "attributes": good("m%d" % k)} for k in range(2)], []]
        mv[0].insert(pos, {"name": "Nope", "attributes": good("q")})
        n += 1
        refused(prog, r, "mv", mv, ("UnknownStructureError",), "unknown struct in element %d" % pos)
    refused(prog, r, "nope", [], ("UnknownResourceError",), "undeclared resource")
    for v, what in (("text", "str"), (5, "int"), ([1, 2], "list")):
        n += 1
        refused(prog, r, "raw", v, None, "raw data given as " + what)
    n += 1
    refused(prog, r, "sub", {}, None, "archive resource")
    for name, v1, v2 in (("vec", [good("v0")], [good("w0")]), ("vec", [], [good("w0")]), ("inst", good("v0"), good("w0")),
                         ("raw", BytesV([sym("p1", "bytes")]), BytesV([sym("p2", "bytes")])),
                         ("mv", [[{"name": "ns_E2", "attributes": val("m", E2_FIELDS)}]], [[]]), ("mv", [], [[]])):
        n += 1
        twice(prog, r, name, v1, v2)
    n += 1
    signature_protected(prog, r)
    subarchive(prog, r)
    r.floor("bad inputs", n, 28)
    source_info(prog, r)
    return r.finish()


def refused(prog, r, name, value, excs, label):
    site = "set(%s) %s" % (name, label)
    for o in run_set(prog, name, value):
        created = any(e[0] == "created" for e in o.events)
        ok = created and o.kind == "raise" and (excs is None or any(o.is_exc(e) for e in excs))
        r.ok("bad-input-refused", site, ok, o.describe() if created else "builder not created: " + o.describe(),
             key="bad-input-refused|%s" % site)
        got = (o.I.fs or {}).get("/out/" + name, [])
        r.ok("no-element-written", site, got == [], "data file holds %d parts" % len(got), key="no-element-written|%s" % site)
    # the failed call must not leave elements behind when the builder is closed afterwards
    def scen(I):
        ns = world(I)
        b = I.call(ns["builder"], [], {})
        try:
            I.call(I.getattr(b, "set"), [name, value], {})
        except PyRaise:
            pass
        I.call(I.getattr(b, "finish"), [], {})
    for o in run(prog, scen):
        got = (o.I.fs or {}).get("/out/" + name, [])
        r.ok("no-element-written", site + ", then finish()", o.kind == "return" and got == [], "%s; data file holds %r" % (o.describe(), got[:20]),
             key="no-element-after-finish|%s" % site)


def twice(prog, r, name, v1, v2):
    def scen(I):
        ns = world(I)
        b = I.call(ns["builder"], [], {})
        I.call(I.getattr(b, "set"), [name, v1], {})
        I.first = {k: list(v) for k, v in I.fs.items()}
        I.event("first")
        try:
            I.call(I.getattr(b, "set"), [name, v2], {})
        except PyRaise as e:
            I.event("second", e.exc)
        I.call(I.getattr(b, "finish"), [], {})
    site = "set(%s) twice" % name
    for o in run(prog, scen):
        if not any(e[0] == "first" for e in o.events) or o.kind != "return":
            r.ok("first-set", site, False, o.describe(), key="first-set|" + site)
            continue
        exc = [e[1] for e in o.events if e[0] == "second"]
        r.ok("second-set-refused", site, bool(exc) and exc[0].cls.name == "ResourceAlreadySetError", repr(exc), key="second-set-refused|" + site)
        changed = [k for k, v in o.I.first.items() if o.I.fs.get(k) != v]
        r.ok("file-untouched", site, not changed, "second set changed %s" % changed, key="file-untouched|" + site)


def signature_protected(prog, r):
    """the archive signature is written by the constructor; a later set() of it must not replace it"""
    def scen(I):
        ns = world(I)
        b = I.call(ns["builder"], [], {})
        try:
            I.call(I.getattr(b, "set"), ["A.archive", BytesV([sym("p", "bytes")])], {})
        except PyRaise as e:
            I.event("refused", e.exc)
        I.call(I.getattr(b, "finish"), [], {})
    for o in run(prog, scen):
        r.ok("signature-protected", "set(A.archive)", o.kind == "return" and any(e[0] == "refused" for e in o.events)
             and o.I.fs.get("/out/A.archive") == [0] * 16, o.describe(), key="signature-protected")


def subarchive(prog, r):
    """a builder method that cannot create a sub-archive must say so"""
    def scen(I):
        ns = world(I)
        b = I.call(ns["builder"], [], {})
        return I.call(I.getattr(b, "subarchive"), ["sub"], {})
    for o in run(prog, scen):
        ok = o.kind == "raise" or o.kind == "return" and o.value is not None
        r.ok("subarchive-reported", "ArchiveBuilder.subarchive", ok, "returns None silently", key="subarchive-reported")
