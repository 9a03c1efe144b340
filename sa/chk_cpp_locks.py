"""C07: the state that C++ storages share is only used under one lock.

Every public operation is interpreted from a number of shared states with a record of its memory accesses, each with the locks held at it;
two operations that may run at the same time race if they touch the same bytes of an object that existed before, one of them writes, and no
lock excludes the two."""
from .chk_cpp_store import *
from .osmodel import *

PROBES = r'''
#include <flatdata/MemoryResourceStorage.h>
#include <flatdata/FileResourceStorage.h>
#include <flatdata/TarArchiveResourceStorage.h>
using flatdata::ResourceStorage;
using flatdata::MemoryResourceStorage;
extern "C" ResourceStorage* mem_create( ) { return MemoryResourceStorage::create( ).release( ); }
extern "C" ResourceStorage* file_open( ) { return flatdata::FileResourceStorage::open( "d" ).release( ); }
extern "C" ResourceStorage* tar_open( ) { return flatdata::TarArchiveResourceStorage::create( "t.tar" ).release( ); }
extern "C" bool op_exists( ResourceStorage* s, const char* k ) { return s->exists( k ); }
extern "C" ResourceStorage* op_directory( ResourceStorage* s, const char* k ) { return s->directory( k ).release( ); }
extern "C" ResourceStorage* op_create_directory( ResourceStorage* s, const char* k ) { return s->create_directory( k ).release( ); }
extern "C" bool op_read( ResourceStorage* s, const char* k ) { return bool( s->read< flatdata::MemoryDescriptor >( k, "schema" ) ); }
extern "C" bool op_write( ResourceStorage* s, const char* k ) { return s->write( k, "schema", flatdata::MemoryDescriptor( "abc", 3 ) ); }
extern "C" void op_assign( MemoryResourceStorage* s, const char* k ) { s->assign_value( k, "text" ); }
extern "C" void op_assign_data( MemoryResourceStorage* s, const char* k ) { s->assign_value( k, flatdata::MemoryDescriptor( "abc", 3 ) ); }
extern "C" void op_hexdump( const MemoryResourceStorage* s, const char* ) { s->hexdump( true ); }
extern "C" void op_bindump( const MemoryResourceStorage* s, const char* ) { s->bindump( false ); }
'''


# ---- locks

def m_lock(M, name, args):
    w, p = M.world, args[0]
    k = lock_id(M, p)
    how = "shared" if "rdlock" in name else "exclusive"
    if k in w.held:
        M.fault("locks %s, which it holds already" % (k,))
    for other in w.held:
        w.order.add((other, k))
    w.held[k] = how
    w.taken.append(k)
    return 0


def m_unlock(M, name, args):
    w = M.world
    k = lock_id(M, args[0])
    if k not in w.held:
        M.fault("unlocks %s, which it does not hold" % (k,))
    del w.held[k]
    return 0


def lock_id(M, p):
    if not isinstance(p, P):
        M.fault("lock at %r" % (p,))
    return ident(M, p.o), p.off


def ident(M, o):
    """the same for an object in all interpretations that start with the same operations"""
    return o.name if o.name.startswith("@") else o.rank - M.world.base


def m_try(M, name, args):
    if M.I.choose(T("lock is taken by another thread", (M.fresh_id(),), "bool")):
        return 16
    return m_lock(M, name, args)


# ---- streams of the standard library, whose text is not followed

def m_stringstream(size):
    """complete object of a stream with a string buffer behind its parts and its virtual base at the end"""
    def f(M, name, args):
        o, ios = args[0].o, size - 264
        at = int(args[0].off)
        for i in range(0, size, 8):
            o.cells[at + i] = (8, 0)
        for part in (0, 16) if "basic_stringstream" in name else (0,):
            vt = M.alloc("stream vtable", 64)
            vt.cells[0] = (8, ios - part)
            vt.cells[24] = vt.cells[32] = (8, FnP("stream_end"))
            o.cells[at + part] = (8, P(vt, 24))
        vt = M.alloc("stream vtable", 64)
        vt.cells[0] = (8, -ios & (1 << 64) - 1)
        o.cells[at + ios] = (8, P(vt, 24))
        if "string" in name:
            o.cells[at + ios - 32] = (8, P(o, at + ios - 16))      # the empty string of the buffer
        ct = M.alloc("ctype", 576)
        for i in range(576):
            ct.cells[i] = (1, 1)
        o.cells[at + ios + 240] = (8, P(ct, 0))
        o.abs["stream"] = Stream("stream")
        o.abs["stream"].again = False
        o.abs["stream"].mem = M.alloc("state of the stream", 264)
        return None
    return f


CLASS_TABLES = {"_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE": 376, "_ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE": 392,
                "_ZTTSt14basic_ofstreamIcSt11char_traitsIcEE": 512}


def class_tables(M):
    """for destructors that were inlined: they look for the virtual base in the tables of the parts"""
    for n, size in CLASS_TABLES.items():
        vt = M.alloc("stream vtable", 64)
        vt.kind = "const"
        vt.cells[0] = (8, size - 264)
        g = M.globals[n] = Mem("@" + n, 80, None, "const")
        for i in range(10):
            g.cells[8 * i] = (8, P(vt, 24))


def m_same_stream(M, name, args):
    return args[0]


def m_stream_end(M, name, args):
    return None


# ---- boost file system

def m_status(M, name, args):
    out, path, ec = args
    f = M.world.file(M, c_text(M, M.load(PTR, path)))
    M.store(I32, 2 if f is not None else 1, out)
    M.store(I32, 0o644, P(out.o, lin_add(out.off, 4)))
    if isinstance(ec, P):
        M.store(I32, 0 if f is not None else 2, ec)
        M.store(I64, 0 if f is not None else 3, P(ec.o, lin_add(ec.off, 16)))


def m_make_directory(M, name, args):
    if isinstance(args[2], P):
        M.store(I32, 0, args[2])
        M.store(I64, 0, P(args[2].o, lin_add(args[2].off, 16)))
    return True


def m_filename(M, name, args):
    out, path = args
    text = c_text(M, M.load(PTR, path)).split("/")[-1]
    M.store(PTR, P(out.o, lin_add(out.off, 16)), out)
    M.store(I64, len(text), P(out.o, lin_add(out.off, 8)))
    for i, c in enumerate(text.encode() + b"\0"):
        M.store(I8, c, P(out.o, lin_add(out.off, 16 + i)))


def m_new(M, name, args):
    w = M.world
    if w.watching and w.may_fail:
        w.allocations += 1
        if w.allocations == w.failing:
            raise Thrown(Exc("bad_alloc"))
    return new(M, name, args)


def m_delete(M, name, args):
    if isinstance(args[0], P) and M.trace and is_int(args[0].o.size):
        M.trace(P(args[0].o, 0), args[0].o.size, "write: release")
    return delete(M, name, args)


LOCKS = dict(FILES)
for n in ("pthread_mutex_lock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock"):
    LOCKS[n] = [(None, m_lock)]
for n in ("pthread_mutex_trylock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock"):
    LOCKS[n] = [(None, m_try)]
for n in ("pthread_mutex_unlock", "pthread_rwlock_unlock"):
    LOCKS[n] = [(None, m_unlock)]
for n in ("_Znwm", "_Znam"):
    LOCKS[n] = [(None, m_new)]
for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm"):
    LOCKS[n] = [(None, m_delete)]
for n in ("_ZNSt6localeD1Ev", "_ZNSt8ios_baseD2Ev", "_ZNSt8ios_baseD1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev",
          "_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev", "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev"):
    LOCKS[n] = [(None, m_stream_end)]
LOCKS.update({
    "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ESt13_Ios_Openmode": [(None, m_stringstream(392))],
    "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev": [(None, m_stringstream(392))],
    "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev": [(None, m_stringstream(376))],
    "_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode": [(None, m_stringstream(512))],
    "_ZStlsIcSt11char_traitsIcELm8EERSt13basic_ostreamIT_T0_ES6_RKSt6bitsetIXT1_EE": [(None, m_same_stream)],
    "stream_end": [(None, m_stream_end)],
    "_ZN5boost10filesystem6detail6statusERKNS0_4pathEPNS_6system10error_codeE": [(None, m_status)],
    "_ZN5boost10filesystem6detail15path_algorithms11filename_v3ERKNS0_4pathE": [(None, m_filename)],
    "_ZN5boost10filesystem6detail16create_directoryERKNS0_4pathEPS3_PNS_6system10error_codeE": [(None, m_make_directory)],
    "isprint": [(None, lambda M, name, args: 1)],
})


for c in "bmltxyjiPKdf":
    LOCKS["_ZNSo9_M_insertI%sEERSoT_" % c] = LOCKS["_ZNSols%s" % ("E" + c)] = [(None, m_same_stream)]


class Shared(World):
    def __init__(self, files):
        World.__init__(self)
        self.files = files
        self.base = Mem.serial
        self.held, self.order, self.taken = {}, set(), []
        self.watching, self.may_fail, self.allocations, self.failing = False, False, 0, 0
        self.accesses = []

    def file(self, M, path):
        f = self.files.get(path)
        return f(M) if f else None


# ---- accesses

class Access:
    __slots__ = ("obj", "off", "size", "write", "atomic", "locks", "where", "name")

    def overlaps(self, b):
        if not all(is_int(x) for x in (self.off, self.size, b.off, b.size)):
            return True
        return self.off < b.off + b.size and b.off < self.off + self.size

    def excluded(self, b):
        d = dict(b.locks)
        return any(k in d and "exclusive" in (how, d[k]) for k, how in self.locks)

    def key(self):
        return self.obj, self.off, self.size, self.write, self.atomic, self.locks


def watch(M):
    w = M.world
    w.watching = True
    limit = Mem.serial
    seen = set()

    def trace(p, size, what):
        o = p.o
        if o.kind == "const" or (o.rank > limit and not o.name.startswith("@")):
            return
        a = Access()
        a.obj, a.off, a.size, a.name = ident(M, o), p.off if not is_int(p.off) else int(p.off), size if not is_int(size) else int(size), o.name
        a.write, a.atomic, a.locks = "write" in what, M.atomic, tuple(sorted(w.held.items()))
        a.where = M.where[0] if getattr(M, "where", None) else "?"
        if a.key() not in seen:
            seen.add(a.key())
            w.accesses.append(a)
    M.trace = trace


class Plan:
    """operations that lead to a shared state; handles: 0 is the root, each directory operation adds one"""

    def __init__(self, root, steps, files=None):
        self.root, self.steps, self.files = root, steps, files or {}

    def __repr__(self):
        return "%s%s" % (self.root, "".join(", %s( %s )" % (op[3:], k) for _, op, k in self.steps))


def prepare(M, mod, plan):
    M.globals["__libc_single_threaded"] = g = Mem("@__libc_single_threaded", 1, None, "const")
    g.cells[0] = (1, 0)
    start_up(M, mod)
    handles = [M.pointer(M.call(plan.root, []))]
    for at, op, k in plan.steps:
        v = M.call(op, [handles[at], P(text_object(M, k, k + "\0"), 0)])
        if op in ("op_directory", "op_create_directory"):
            handles.append(M.pointer(v))
    if not all(isinstance(h, P) for h in handles):
        raise AnalysisBroken("%s gives no storage" % plan)
    return handles


def start_up(M, mod):
    M.globals["_ZSt4clog"] = log_stream(M)
    class_tables(M)
    for f in mod.ctors:
        M.call(f, [])


def operate(mod, plan, at, op, key, failing=0):
    """partitions of one operation on handle `at` in the state of a plan"""
    def sc(M):
        M.world = w = Shared(plan.files)
        w.M = M
        M.loop_bound = 5000
        handles = prepare(M, mod, plan)
        if w.held:
            raise Fault("holds locks after %s" % plan)
        k = P(text_object(M, key, key + "\0"), 0)
        w.may_fail, w.failing, w.taken = True, failing, []
        watch(M)
        try:
            return M.call(op, [handles[at], k])
        finally:
            M.trace = None
    return explore_ir(mod, sc, LOCKS)


# ---- what may run at the same time

def fixed(data):
    def f(M):
        o = M.alloc("file", len(data))
        for i, b in enumerate(data):
            o.cells[i] = (1, b)
        return o
    return f


RESOURCE = b"\x03" + bytes(7) + b"abc" + bytes(8)
ON_DISK = {"d/": fixed(b"x"), "d": fixed(b"x"), "d/x": fixed(RESOURCE), "d/x.schema": fixed(b"schema"), "d/y": fixed(b""), "d/s": fixed(b"x"), "d/s/": fixed(b"x"),
           "d/s/x": fixed(RESOURCE), "d/s/x.schema": fixed(b"schema")}


def tar_file(*members):
    out = b""
    for name, data in members:
        h = bytearray(512)
        h[:len(name)] = name
        h[124:136] = b"%011o\0" % len(data)
        h[148:156] = b" " * 8
        h[156:157] = b"0"
        h[148:156] = b"%06o\0 " % sum(h)
        out += bytes(h) + data + bytes(-len(data) % 512)
    return fixed(out + bytes(512))


TAR = {"t.tar": tar_file((b"x", RESOURCE), (b"x.schema", b"schema"), (b"s/x", RESOURCE))}
ANY = ("exists", "directory", "create_directory", "read", "write")
MEM = ANY + ("assign", "assign_data", "hexdump", "bindump")

PLANS = [
    (MEM, Plan("mem_create", [])),
    (MEM, Plan("mem_create", [(0, "op_create_directory", "d")])),
    (MEM, Plan("mem_create", [(0, "op_create_directory", "d"), (0, "op_write", "x"), (1, "op_write", "x")])),
    (MEM, Plan("mem_create", [(0, "op_create_directory", "d"), (0, "op_write", "x"), (0, "op_read", "x"), (1, "op_write", "x"), (1, "op_read", "x"), (0, "op_directory", "d")])),
    (MEM, Plan("mem_create", [(0, "op_assign", "x"), (0, "op_assign_data", "y"), (0, "op_create_directory", "d"), (1, "op_create_directory", "e"), (2, "op_write", "x")])),
    (ANY, Plan("file_open", [], ON_DISK)),
    (ANY, Plan("file_open", [(0, "op_read", "x"), (0, "op_directory", "s")], ON_DISK)),
    (ANY, Plan("file_open", [(0, "op_directory", "s"), (1, "op_read", "x")], ON_DISK)),
    (ANY, Plan("tar_open", [], TAR)),
    (ANY, Plan("tar_open", [(0, "op_directory", "s"), (0, "op_read", "x")], TAR)),
]


def c07(prop):
    return run_body(prop, "LLVM IR of the memory, file and tar storages is interpreted with a record of all accesses to shared objects and of the locks held at them; all pairs of "
                          "operations from the same state are compared",
                    "10 shared states, every public operation on every storage object and two keys, each of its allocations failing; two operations at a time. Text behind standard "
                    "streams is not followed.", c07_body, floor=0, sources=("TarReader.cpp", "ResourceStorage.cpp"))


def short(mod, f):
    return mod.dem(f).split("(")[0][-90:]


def c07_body(r, w, t, turn):
    mod = w.module(PROBES, "the probes do not compile")
    for ops, plan in PLANS:
        if turn():
            with r.part("sharing of %s" % plan):
                sharing(r, mod, ops, plan)


def sharing(r, mod, ops, plan):
    runs, order, shared = [], set(), 0
    handles = 1 + sum(op in ("op_directory", "op_create_directory") for _, op, _ in plan.steps)
    for op in ops:
        for at in range(handles):
            for key in ("x", "y") if "dump" not in op else ("x",):
                site = "%s( %s ) of storage %d after %s" % (op, key, at, plan)
                failing = 0
                while True:
                    outs = operate(mod, plan, at, "op_" + op, key, failing)
                    for o in outs:
                        v = o.m.world
                        r.ok("released", site, o.kind in ("return", "throw") and not v.held,
                             "%s %s%s" % (o.kind, o.value, ", holding %s" % sorted(v.held) if v.held else ""))
                        order |= v.order
                        runs.append((op, at, key, v.accesses))
                    if failing > max(o.m.world.allocations for o in outs):
                        break
                    failing += 1
    for a, b in order:
        r.ok("lock-order", "%s after %s" % (plan, a), (b, a) not in order, "%s and %s are taken in both orders" % (a, b))
    by = {}
    for op, at, key, acc in runs:
        d = by.setdefault((op, at), {})
        for a in acc:
            d.setdefault(a.key(), a)
    names = sorted(by)
    for i, m in enumerate(names):
        for n in names[i:]:
            bad = None
            for a in by[m].values():
                for b in by[n].values():
                    if a.obj != b.obj or not (a.write or b.write) or (a.atomic and b.atomic) or not a.overlaps(b):
                        continue
                    shared += 1
                    if bad is None and not a.excluded(b):
                        bad = "%s of %s in %s and %s in %s are not excluded (locks %s and %s)" % (
                            "write" if a.write else "read", a.name, short(mod, a.where), "write" if b.write else "read", short(mod, b.where), list(a.locks), list(b.locks))
            r.ok("excluded", "%s of storage %d with %s of storage %d, %s" % (m + n + (plan,)), bad is None, bad or "")
    r.floor("conflicting accesses after %s" % plan, shared, 0 if plan.root == "tar_open" else 1)
