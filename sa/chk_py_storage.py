"""P08: storages return exactly the requested entry, read-only."""
from .pylib import *
from .report import Report

STUB = """
class File:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
    def fileno(self):
        return fileno(self.name, self.mode)
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass

class Info:
    def __init__(self, name, kind, offset, offset_data, size):
        self.name = name
        self.path = name
        self.kind = kind
        self.offset = offset
        self.offset_data = offset_data
        self.size = size
        self.type = tar_type(kind)
        self.sparse = [] if kind == "sparse" else None
        self.linkname = "a" if kind in ("link", "symlink") else ""
    def isreg(self):
        return self.kind in ("reg", "sparse")
    def isfile(self):
        return self.isreg()
    def isdir(self):
        return self.kind == "dir"
    def issym(self):
        return self.kind == "symlink"
    def islnk(self):
        return self.kind == "link"
    def issparse(self):
        return self.kind == "sparse"

class Tar:
    def __init__(self, members):
        self.members = members
    def __iter__(self):
        return iter(self.members)
    def getmembers(self):
        return list(self.members)
    def getnames(self):
        return [m.name for m in self.members]
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def close(self):
        pass
"""


def stubs(I):
    m = Module("stubs", None)
    m.ns["__name__"] = "stubs"
    sc = Scope("module", None, m)
    sc.vars = m.ns
    m.ns["fileno"] = Native("fileno", lambda J, a, k: T("fileno", (a[0], a[1]), "int"))
    m.ns["tar_type"] = Native("tar_type", lambda J, a, k: J.ext("tarfile." + {
        "reg": "REGTYPE", "dir": "DIRTYPE", "sparse": "GNUTYPE_SPARSE", "symlink": "SYMTYPE", "link": "LNKTYPE",
        "fifo": "FIFOTYPE"}[a[0]]))
    I.exec_body(ast.parse(STUB).body, sc)
    return m.ns


def norm_path(p):
    return p


def kind_of(I, p):
    if not I.choose(T("exists", (p,), "bool")):
        return "missing"
    return "file" if I.choose(T("isfile", (p,), "bool")) else "dir"


def known_kind(o, p):
    e = o.facts.decide(T("exists", (p,), "bool"))
    f = o.facts.decide(T("isfile", (p,), "bool"))
    return "missing" if e is False else "file" if e and f else "dir" if e and f is False else "unknown"


def models(I, ns):
    def fopen(J, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        kd = kind_of(J, a[0])
        if kd == "missing":
            J.throw("FileNotFoundError", a[0])
        if kd == "dir":
            J.throw("IsADirectoryError", a[0])
        J.event("open", a[0], mode)
        return J.call(ns["File"], [a[0], mode], {})

    def mmap(J, a, k):
        fn = a[0] if a else k.get("fileno")
        ln = a[1] if len(a) > 1 else k.get("length")
        acc = k.get("access", a[3] if len(a) > 3 else None)
        if not (isinstance(fn, T) and fn.op == "fileno"):
            raise Top("mmap of %r" % (fn,))
        J.event("mmap", fn.args[0], ln, acc, k.get("prot"), k.get("offset", 0))
        return mem_of(J, fn.args[0])
    I.maps = {}
    I.models.update({
        "open": fopen, "io.open": fopen, "mmap.mmap": mmap,
        "os.path.exists": lambda J, a, k: kind_of(J, a[0]) != "missing",
        "os.path.isfile": lambda J, a, k: kind_of(J, a[0]) == "file",
        "os.path.isdir": lambda J, a, k: kind_of(J, a[0]) == "dir",
    })


def mem_of(J, name):
    m = J.maps.get(name)
    if m is None:
        m = J.maps[name] = Mem("map(%r)" % (name,), T("len", (sym("map(%r)" % (name,), "bytes"),), "int"))
    return m


def maps_ok(o):
    """every mapping is read-only, of the whole file"""
    bad = []
    for e in o.events:
        if e[0] == "mmap":
            _, name, ln, acc, prot, off = e
            ro = isinstance(acc, Ext) and acc.name == "mmap.ACCESS_READ" or \
                acc is None and isinstance(prot, Ext) and prot.name == "mmap.PROT_READ"
            if not ro or ln != 0 or off != 0:
                bad.append("mmap(%r, %r, access=%r, prot=%r)" % (name, ln, acc, prot))
        if e[0] == "open" and (not isinstance(e[2], str) or any(c in e[2] for c in "wax+")):
            bad.append("open(%r, %r)" % (e[1], e[2]))
    return bad


def p08(pid):
    r = Report(pid, "get(key) yields exactly the entry stored under that path, None / MissingResourceError when it is missing, and "
                    "maps files read-only",
               "abstract interpretation of FileResourceStorage and TarArchiveResourceStorage: unknown file system (every path may be "
               "missing, a file or a directory), symbolic paths; tar members with symbolic offsets and sizes, all member types and name forms")
    prog = program()
    file_storage(prog, r)
    tar_storage(prog, r)
    r.floor("obligation kinds", len(r.by_rule), 6)
    source_info(prog, r)
    return r.finish()


def file_storage(prog, r):
    base, key, key2 = sym("base", "str"), sym("key", "str"), sym("key2", "str")
    p1 = cat([base, "/", key])
    p2 = cat([p1, "/", key2])
    for opt in (False, True, None):
        for nested in (False, True):
            def scen(I):
                ns = stubs(I)
                models(I, ns)
                mod = I.import_module("flatdata.lib.file_resource_storage")
                s = I.call(mod.ns["FileResourceStorage"], [base], {})
                args = [] if opt is None else [opt]
                if nested:
                    s2 = I.call(I.getattr(s, "get"), [key], {})
                    if not isinstance(s2, Obj):
                        raise PathCut("not a directory")
                    I.event("nested")
                    return I.call(I.getattr(s2, "get"), [key2] + args, {}), I
                return I.call(I.getattr(s, "get"), [key] + args, {}), I
            path = p2 if nested else p1
            site = "FileResourceStorage.get%s optional=%s" % (" in sub-storage" if nested else "", opt)
            seen = set()
            for o in run(prog, scen):
                if o.kind == "cut" or nested and not any(e[0] == "nested" for e in o.events):
                    continue
                kd = known_kind(o, path)
                seen.add(kd)
                if kd == "missing":
                    ok = (o.kind == "return" and o.value[0] is None) if opt else o.is_exc("MissingResourceError")
                elif kd == "file":
                    ok = o.kind == "return" and isinstance(o.value[0], Mem) and o.value[0] is o.I.maps.get(path)
                elif kd == "dir":
                    ok = o.kind == "return" and isinstance(o.value[0], Obj) and o.value[0].cls.name == "FileResourceStorage"
                else:
                    ok = False
                r.ok("file-entry", site, ok, "%s, for a path that is %s" % (o.describe(), kd), key="file-entry|%s|%s" % (site, kd))
                bad = maps_ok(o)
                r.ok("read-only-map", site, not bad, "; ".join(bad), key="read-only-map")
            r.ok("file-cases", site, seen >= {"missing", "file", "dir"}, "cases reached %s" % sorted(seen), key="file-cases|" + site)


MEMBERS = [
    ("./", None), (".", "dir"), ("./a", "reg"), ("b", "reg"), (".hidden", "reg"), ("./.hidden2", "reg"), ("./sub", "dir"),
    ("./sub/a", "reg"), ("sub/c", "reg"), ("./sub/deep", "dir"), ("./sub/deep/c", "reg"), ("sub2/a", "reg"), ("subc", "reg"),
    ("./ln", "symlink"), ("./hl", "link"), ("./ff", "fifo"), ("plain", "dir"), ("plain/x.archive", "reg"),
]
KEYS = ["a", "b", ".hidden", ".hidden2", "sub", "c", "sub2", "sub/a", "./a", "ln", "hl", "ff", "plain", "x.archive", "", ".", "hidden", "ub",
        "subc", "deep"]


def strip(n):
    return n[2:] if n.startswith("./") else n


def tar_storage(prog, r):
    members = [(n, k) for n, k in MEMBERS if k]
    L = T("len", (sym("map('/x.tar')", "bytes"),), "int")

    def build(I, extra=()):
        ns = stubs(I)
        models(I, ns)
        infos = []
        for i, (n, k) in enumerate(members + list(extra)):
            off, size = sym("data%d" % i), sym("size%d" % i)
            I.facts.add_le(lin_mul(off, -1))
            I.facts.add_le(lin_mul(size, -1))
            I.facts.add_le(lin_add(lin_add(off, size), L, -1))
            infos.append(I.call(ns["Info"], [n, k, sym("hdr%d" % i), off, size], {}))

        def topen(J, a, k):
            mode = a[1] if len(a) > 1 else k.get("mode", "r")
            J.event("tar", a[0] if a else k.get("name"), mode)
            return J.call(ns["Tar"], [infos], {})
        I.models["tarfile.open"] = topen
        I.models["tarfile.TarFile"] = topen
        I.facts.assume(T("exists", ("/x.tar",), "bool"), True)
        I.facts.assume(T("isfile", ("/x.tar",), "bool"), True)
        mod = I.import_module("flatdata.lib.tar_archive_resource_storage")
        return I.call(I.getattr(mod.ns["TarArchiveResourceStorage"], "create"), ["/x.tar"], {})
    files = {strip(n): i for i, (n, k) in enumerate(members) if k == "reg"}
    dirs = {strip(n) for n, k in members if k == "dir" and n != "."}
    for prefix in ([], ["sub"], ["sub", "deep"], ["plain"]):
        for key in KEYS:
            for opt in (False, True):
                def scen(I):
                    s = build(I)
                    for p in prefix:
                        s = I.call(I.getattr(s, "get"), [p], {})
                    I.event("ready")
                    return I.call(I.getattr(s, "get"), [key, opt], {})
                path = "/".join(prefix + [key])
                site = "TarArchiveResourceStorage.get(%r)%s" % (path, " optional" if opt else "")
                for o in run(prog, scen):
                    if not any(e[0] == "ready" for e in o.events):
                        r.ok("tar-opens", site, False, o.describe(), key="tar-opens")
                        continue
                    if path in files:
                        i = files[path]
                        v = o.value
                        if isinstance(v, MemView):
                            ok = v.mem is o.I.maps.get("/x.tar") and same_lin(o, v.off, sym("data%d" % i)) and \
                                same_lin(o, v.len_, sym("size%d" % i))
                        else:
                            # empty view: only if the entry is empty
                            ok = isinstance(v, BytesV) and not v.parts and o.facts.implies_le(sym("size%d" % i))
                        ok = ok and o.kind == "return"
                    elif path in dirs:
                        ok = o.kind == "return" and isinstance(o.value, Obj) and o.value.cls.name == "TarArchiveResourceStorage"
                    else:
                        ok = o.kind == "return" and o.value is None if opt else o.is_exc("MissingResourceError")
                    r.ok("tar-entry", site, ok, o.describe(), key="tar-entry|" + path)
                    bad = maps_ok(o)
                    modes = [e[2] for e in o.events if e[0] == "tar"]
                    bad += ["tarfile.open mode %r (offsets are only valid for uncompressed tar files)" % m for m in modes if m not in ("r:",)]
                    bad += ["tarfile.open(%r)" % e[1] for e in o.events if e[0] == "tar" and e[1] != "/x.tar"]
                    r.ok("read-only-map", site, not bad, "; ".join(bad), key="read-only-map-tar")

    for pos in ("sparse", "./sub/sparse"):
        def sparse(I):
            return build(I, [(pos, "sparse")])
        for o in run(prog, sparse):
            r.ok("sparse-rejected", "TarArchiveResourceStorage.create", o.is_exc("CorruptResourceError"), o.describe(), key="sparse-rejected")
    # a sub-storage created directly
    def direct(I):
        ns = stubs(I)
        build(I)
        mod = I.import_module("flatdata.lib.tar_archive_resource_storage")
        s = I.call(I.getattr(mod.ns["TarArchiveResourceStorage"], "create"), ["/x.tar", "sub"], {})
        return I.call(I.getattr(s, "get"), ["a"], {})
    for o in run(prog, direct):
        i = files["sub/a"]
        ok = o.kind == "return" and (isinstance(o.value, MemView) and same_lin(o, o.value.off, sym("data%d" % i)) and
                                     same_lin(o, o.value.len_, sym("size%d" % i)) or
                                     isinstance(o.value, BytesV) and o.facts.implies_le(sym("size%d" % i)))
        r.ok("tar-sub-path", "TarArchiveResourceStorage.create(sub_path)", ok, o.describe(), key="tar-sub-path")


def same_lin(o, a, b):
    d = lin_add(a, b, -1)
    return o.facts.implies_le(d) and o.facts.implies_le(lin_mul(d, -1))
