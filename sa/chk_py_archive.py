"""P03: archives hand out only resources whose stored schema matches."""
import itertools

from .pylib import *
from .report import Report

STUB = """
from collections import namedtuple
from flatdata.lib.archive import Archive, ResourceSignature
from flatdata.lib.resources import Vector, Multivector, Instance, RawData
from flatdata.lib.structure import Structure, FieldSignature
from flatdata.lib.errors import MissingResourceError

class Storage:
    def __init__(self, prefix):
        self.prefix = prefix
    def get(self, key, is_optional=False):
        kind, value = lookup(self.prefix + key)
        if kind == "missing":
            if is_optional:
                return None
            raise MissingResourceError(key)
        if kind == "dir":
            return Storage(self.prefix + key + "/")
        return value
    def ls(self):
        return []

class Elem(Structure):
    _SCHEMA = "e"
    _NAME = "Elem"
    _SIZE_IN_BITS = 24
    _SIZE_IN_BYTES = 3
    _FIELDS = {"f": FieldSignature(offset=0, width=24, is_signed=False, dtype="u4")}
    _FIELD_KEYS = {"f"}

class Index(Structure):
    _SCHEMA = "i"
    _NAME = "Index"
    _SIZE_IN_BITS = 32
    _SIZE_IN_BYTES = 4
    _FIELDS = {"value": FieldSignature(offset=0, width=32, is_signed=False, dtype="u4")}
    _FIELD_KEYS = {"value"}

class Sub(Archive):
    _SCHEMA = schema("sub/S.archive")
    _NAME = "S"
    _RESOURCES = {
        "S.archive": ResourceSignature(container=RawData, initializer=None, schema=_SCHEMA, is_optional=False, doc="sig"),
        "inner": ResourceSignature(container=RawData, initializer=None, schema=schema("sub/inner"), is_optional=False, doc="d"),
    }
    def __init__(self, resource_storage):
        Archive.__init__(self, resource_storage)
"""

MAIN = """
class A(Archive):
    _SCHEMA = schema("A.archive")
    _NAME = "A"
    _RESOURCES = {
        "A.archive": ResourceSignature(container=RawData, initializer=None, schema=_SCHEMA, is_optional=False, doc="sig"),
%s    }
    def __init__(self, resource_storage):
        Archive.__init__(self, resource_storage)
"""

KINDS = {
    "vec": ("Vector", "Elem"), "mv": ("Multivector", "[Index, Elem]"), "inst": ("Instance", "Elem"),
    "raw": ("RawData", "None"), "sub": ("Archive", "Sub"),
}


def stored(key):
    return sym("stored(%s)" % key, "str")


def expected(key):
    return sym("expected(%s)" % key, "str")


def build(I, resources):
    """module with archive class A holding the given (name, optional) resources over an abstract storage"""
    keys = {"A.archive": ("raw", False)}
    for n, opt in resources:
        keys[n] = (n.rstrip("0123456789"), opt)
    m = Module("subject", None)
    present = {}

    def lookup(J, a, k):
        key = a[0]
        if key == "sub" or key.rstrip("/") == "sub":
            kind = "dir"
        else:
            kind = "file"
        p = T("present", (key,), "bool")
        I.event("get", key)
        if not I.choose(p):
            return ("missing", None)
        if kind == "dir":
            return ("dir", None)
        if key.endswith(".schema"):
            s = stored(key[:-7])
            I.facts.add_le(lin_add(1, T("len", (T("encode", (s,), "bytes"),), "int"), -1))
            return ("file", BytesV([T("encode", (s,), "bytes")], "memoryview"))
        mem = present.get(key)
        if mem is None:
            n = T("len", (sym("file(%s)" % key, "bytes"),), "int")
            present[key] = mem = Mem(key, n)
        return ("file", mem)
    m.ns.update(__name__="subject", lookup=Native("lookup", lookup),
                schema=Native("schema", lambda J, a, k: expected(a[0])))
    sc = Scope("module", None, m)
    sc.vars = m.ns
    rows = ""
    for n, opt in resources:
        cont, init = KINDS[n.rstrip("0123456789")]
        rows += "        %r: ResourceSignature(container=%s, initializer=%s, schema=%s, is_optional=%r, doc='d'),\n" % (
            n, cont, init, "schema(%r)" % n, opt)
    I.exec_body(ast.parse(STUB).body, sc)
    I.exec_body(ast.parse(MAIN % rows).body, sc)
    return m


def eqfact(o, key):
    """True / False / None: what the partition knows about stored schema == expected schema"""
    t = o.I.eq(stored(key), expected(key))
    return o.facts.decide(t) if not isinstance(t, bool) else t


def present(o, key):
    return o.facts.decide(T("present", (key,), "bool"))


DATA_ERRORS = ("CorruptResourceError", "AssertionError", "ValueError")


def p03(pid):
    r = Report(pid, "on every path that hands out an archive, each declared resource was found and its stored schema "
                    "compared equal (or it is a missing optional one, reading None); every other path raises the "
                    "documented error",
               "path-partitioned abstract interpretation of flatdata.lib.archive / resources against a storage whose "
               "entries, contents and stored schema texts are unknown; all resource kinds x optionality, pairs of "
               "resources, nested sub-archives")
    prog = program()
    singles = [[(k, opt)] for k in KINDS for opt in (False, True)]
    pairs = [[("raw", False), ("vec", True)], [("inst", True), ("raw", True)], [("mv", False), ("vec", False)],
             [("sub", True), ("raw", True)], [("raw1", False), ("raw2", False)]]
    n = 0
    for res in singles + pairs:
        n += 1
        one(prog, r, res)
    # access to an undeclared name
    def unknown(I):
        m = build(I, [])
        a = I.call(m.ns["A"], [I.call(m.ns["Storage"], [""], {})], {})
        return I.getattr(a, "nope")
    for o in run(prog, unknown, max_paths=20000):
        if o.kind == "cut":
            continue
        done = o.is_exc("AttributeError") or o.is_exc("SchemaMismatchError") or o.is_exc("MissingResourceError") or \
            any(o.is_exc(e) for e in DATA_ERRORS)
        r.ok("undeclared-name", "Archive.__getattr__", done, o.describe())
    r.floor("resource configurations", n, 15)
    source_info(prog, r)
    return r.finish()


def one(prog, r, res):
    label = ", ".join("%s%s" % ("optional " if o else "", n) for n, o in res)

    def scen(I):
        m = build(I, res)
        a = I.call(m.ns["A"], [I.call(m.ns["Storage"], [""], {})], {})
        vals = {n: I.getattr(a, n) for n, _ in res}
        vals["A.archive"] = I.getattr(a, "A.archive")
        return vals
    outs = run(prog, scen, max_paths=60000)
    decl = [("A.archive", False)] + list(res)
    returned = mism = 0
    for o in outs:
        if o.kind == "cut":
            continue
        site = "archive {%s}" % label
        info = []     # (key, mandatory, schema file?)
        keys = []
        for n, opt in decl:
            if n == "sub":
                if present(o, "sub") is not False:
                    keys += [("sub/S.archive", False), ("sub/inner", False)]
            else:
                keys.append((n, opt))
        mismatch = [k for k, _ in keys if eqfact(o, k) is False]
        missing = [k for k, opt in keys if not opt and (present(o, k + ".schema") is False or present(o, k) is False)]
        missing += [k for k, opt in keys if not opt and k == "mv" and present(o, k + "_index") is False]
        missing += [n for n, opt in decl if n == "sub" and not opt and present(o, "sub") is False]
        if o.kind == "return":
            returned += 1
            r.ok("opened-implies-matching", site, not mismatch, "archive handed out although the stored schema of %s differs" % mismatch,
                 key="opened-implies-matching|" + label)
            r.ok("opened-implies-present", site, not missing, "archive handed out although %s is missing" % missing,
                 key="opened-implies-present|" + label)
            for n, opt in decl:
                v = o.value[n]
                if n == "sub":
                    ok = (v is None and opt and present(o, "sub") is False) or \
                        (v is not None and all(eqfact(o, k) is True for k in ("sub/S.archive", "sub/inner")))
                else:
                    gone = any(present(o, k) is False for k in (n, n + ".schema", n + "_index"))
                    if v is None:
                        ok = opt and gone
                    else:
                        ok = not gone and eqfact(o, n) is True and present(o, n) is True and present(o, n + ".schema") is True
                r.ok("exposed-implies-validated", "%s resource %s" % (site, n), ok,
                     "reads as %r with schema equal=%s, data present=%s, schema present=%s" % (
                         v, eqfact(o, n), present(o, n), present(o, n + ".schema")),
                     key="exposed-implies-validated|%s|%s" % (label, n))
        elif o.kind == "raise":
            if o.is_exc("SchemaMismatchError"):
                mism += 1
                r.ok("mismatch-error-justified", site, bool(mismatch), o.describe())
            elif o.is_exc("MissingResourceError"):
                r.ok("missing-error-justified", site, bool(missing), o.describe())
            elif any(o.is_exc(e) for e in DATA_ERRORS):
                r.ok("corrupt-data-error", site, not mismatch and not missing, "%s although schema differs for %s / missing %s" % (
                    o.describe(), mismatch, missing))
            else:
                r.ok("documented-error", site, False, o.describe(), key="documented-error|%s|%s" % (label, o.exc_name()))
        else:
            r.ok("terminates", site, False, o.describe())
    r.ok("can-open", label, returned > 0, "no path opens the archive")
    r.ok("mismatch-reported", label, mism > 0, "no path reports a schema mismatch")
