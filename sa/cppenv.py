"""Abstract environment of the C++ library: a ResourceStorage whose virtual functions end in unknown external calls, and output
streams that record what is written.  Everything else (the library's sources and headers, generated headers) is interpreted."""
import os
import shutil
import subprocess
import tempfile

from .cpplib import *
from .report import AnalysisBroken, REPO

# std::string is instantiated into the module (its members are interpreted); streams stay external and are modelled
PRELUDE = r'''
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include <flatdata/flatdata.h>
#include <iostream>
#include <iomanip>
extern "C" {
const unsigned char* env_read( const void* env, const char* key, size_t* size );
bool env_exists( const void* env, const char* key );
std::ostream* env_stream( const void* env, const char* key );
const void* env_directory( const void* env, const char* key );
const void* env_create_directory( const void* env, const char* key );
void env_event( size_t a, size_t b );
}
struct Env : flatdata::ResourceStorage
{
    const void* id;
    explicit Env( const void* i ) : id( i ) { }
    struct Keep { void operator( )( std::ostream* ) const { } };
    std::unique_ptr< flatdata::ResourceStorage > make( const void* d )
    { return std::unique_ptr< flatdata::ResourceStorage >( d ? new Env( d ) : nullptr ); }
    std::unique_ptr< flatdata::ResourceStorage > create_directory( const char* key ) override { return make( env_create_directory( id, key ) ); }
    std::unique_ptr< flatdata::ResourceStorage > directory( const char* key ) override { return make( env_directory( id, key ) ); }
    bool exists( const char* key ) override { return env_exists( id, key ); }
    std::shared_ptr< std::ostream > create_output_stream( const char* key ) override
    {
        std::ostream* s = env_stream( id, key );
        return s ? std::shared_ptr< std::ostream >( s, Keep( ) ) : std::shared_ptr< std::ostream >( );
    }
    flatdata::MemoryDescriptor read_resource( const char* key ) override
    {
        size_t n = 0;
        const unsigned char* p = env_read( id, key, &n );
        return p ? flatdata::MemoryDescriptor( p, n ) : flatdata::MemoryDescriptor( );
    }
};
'''
SOURCES = ("Archive.cpp", "ArchiveBuilder.cpp", "ResourceStorage.cpp")


class EnvWork:
    """scratch directory with the precompiled prelude"""

    def __init__(self, flags=("-O1", "-DNDEBUG", "-Wno-c++11-narrowing"), sources=SOURCES, prelude=None):
        self.flags = tuple(flags)
        self.dir = tempfile.mkdtemp(prefix="sa-env-")
        self.pch = os.path.join(self.dir, "prelude.pch")
        inc = os.path.join(REPO, "flatdata-cpp/include")
        src = os.path.join(REPO, "flatdata-cpp/src")
        self.sources = "".join('#include "%s"\n' % os.path.join(src, x) for x in sources if os.path.exists(os.path.join(src, x)))
        hdr = os.path.join(self.dir, "prelude.hpp")
        with open(hdr, "w") as f:
            f.write(prelude or PRELUDE)
        p = subprocess.run([CLANG, "-std=c++17", "-I" + inc, "-w", "-x", "c++-header", hdr, "-o", self.pch] + list(self.flags),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if p.returncode:
            self.close()
            raise AnalysisBroken("flatdata/flatdata.h does not compile: %s" % "".join(l for l in p.stderr.splitlines() if "error:" in l)[:300])

    def compile(self, text):
        return compile_cpp(self.sources + text, REPO, self.flags, pch=self.pch)

    def module(self, text, what):
        rc, ir, err = self.compile(text)
        if rc:
            raise AnalysisBroken("%s: %s" % (what, "\n".join(l for l in err.splitlines() if "error:" in l)[:400]))
        return Module(ir)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class World:
    """one storage; entries: path -> (address, size); policies are methods a check overrides"""

    def __init__(self):
        self.log = []              # events in order
        self.streams = {}          # path -> Stream (latest)
        self.dirs = {}

    def read(self, M, path):
        return 0, 0

    def exists(self, M, path):
        return False

    def stream(self, M, path):
        return True

    def directory(self, M, path):
        return True

    def create_directory(self, M, path):
        return True

    def fails(self, M, stream, op):
        """does this stream operation fail?"""
        return False

    # ---- plumbing
    def dir(self, M, path):
        d = self.dirs.get(path)
        if d is None:
            d = self.dirs[path] = M.alloc("storage:" + path, 8)
            d.abs["path"] = path
        return P(d, 0)


class Stream:
    """recorded output: list of ("bytes", [8-bit values]) / ("range", object, offset, size) / ("seek", pos) / ("flush",)"""

    def __init__(self, path):
        self.path, self.ops, self.bad = path, [], False
        self.mem = None

    def image(self):
        """file content after all operations: list of chunks ("byte", value) / ("range", object, offset, size); None if not expressible"""
        out, pos = [], None
        for op in self.ops:
            if op[0] == "seek":
                pos = op[1]
            elif op[0] == "bytes":
                if pos is None:
                    out += [("byte", b) for b in op[1]]
                else:
                    for b in op[1]:
                        if not is_int(pos) or pos >= len(out) or out[pos][0] != "byte":
                            return None
                        out[pos] = ("byte", b)
                        pos += 1
            elif op[0] == "range":
                if pos is not None:
                    return None
                out.append(("range",) + op[1:])
        return out


def m_read(M, name, args):
    w = M.world
    path = join(args[0], c_text(M, args[1]))
    w.log.append(("read", path))
    p, n = w.read(M, path)
    M.store(I64, n, args[2])
    return p


def join(d, key):
    base = d.o.abs["path"]
    return base + "/" + key if base else key


def m_exists(M, name, args):
    path = join(args[0], c_text(M, args[1]))
    M.world.log.append(("exists", path))
    return M.world.exists(M, path)


def m_stream(M, name, args):
    w = M.world
    path = join(args[0], c_text(M, args[1]))
    w.log.append(("stream", path))
    if not w.stream(M, path):
        return 0
    return P(stream_object(M, path), 0)


def stream_object(M, path):
    s = Stream(path)
    s.again = path in M.world.streams
    M.world.streams[path] = s
    vt = M.alloc("ostream vtable", 64)
    vt.cells[0] = (8, 8)
    o = M.alloc("ostream:" + path, 280)
    o.cells[0] = (8, P(vt, 24))
    o.cells[8 + 32] = (4, 0)
    o.abs["stream"] = s
    s.mem = o
    return o


def m_directory(M, name, args):
    w = M.world
    path = join(args[0], c_text(M, args[1]))
    w.log.append(("directory", path))
    return w.dir(M, path) if w.directory(M, path) else 0


def m_create_directory(M, name, args):
    w = M.world
    path = join(args[0], c_text(M, args[1]))
    w.log.append(("create_directory", path))
    return w.dir(M, path) if w.create_directory(M, path) else 0


def stream_of(M, p, what):
    if not isinstance(p, P):
        M.access(p, 8, what)
    s = p.o.abs.get("stream")
    if s is None:
        raise Unsupp("%s on %r" % (what, p))
    return s


def step(M, s, op):
    """records an operation unless the stream is or becomes bad"""
    if s.bad:
        M.world.log.append(("lost", s.path, op[0]))
        return
    if M.world.fails(M, s, op):
        s.bad = True
        s.mem.cells[40] = (4, 1)
        M.world.log.append(("failed", s.path, op[0]))
        return
    s.ops.append(op)
    M.world.log.append((op[0], s.path))


class Snapshot:
    """n bytes of an object as they are now"""

    def __init__(self, M, o, off, n):
        self.M, self.off = M, off
        self.o = type(o)(o.name, o.size, M.view(o), o.kind)
        for k in M.inside(o, off, n):
            self.o.cells[k] = o.cells[k]

    def __call__(self, i):
        return self.M.load_byte(self.o, self.off + i)


def data_op(M, p, n):
    if is_int(n):
        n = int(n)
        if n:
            M.access(p, n, "write of")
        if n > 4096 and is_int(p.off):
            off = int(p.off)
            cells = {k - off: c for k, c in ((k, p.o.cells[k]) for k in M.inside(p.o, off, n))}
            snap = Snapshot(M, p.o, off, n)
            inner = sorted({k for c in cells for k in (c, c + cells[c][0])} | {k - off for a, b, _ in p.o.fills for k in (a, b)})
            return ("piece", snap, n, inner)
        return ("bytes", [M.load_byte(p.o, lin_add(p.off, i)) for i in range(n)] if n else [])
    M.access(p, n, "write of")
    return ("range", p.o, p.off, n)


def m_write(M, name, args):
    s = stream_of(M, args[0], "write")
    n = M.signed(args[2], 64)
    if not is_int(n) and M.I.choose(le0(lin_add(n, 1))):
        M.fault("negative size given to ostream::write")
    step(M, s, data_op(M, args[1], n))
    return args[0]


def m_flush(M, name, args):
    s = stream_of(M, args[0], "flush")
    step(M, s, ("flush",))
    return args[0]


def m_seekp(M, name, args):
    s = stream_of(M, args[0], "seekp")
    step(M, s, ("seek", args[1]))
    return args[0]


def m_put(M, name, args):
    s = stream_of(M, args[0], "put")
    step(M, s, ("bytes", [args[1]]))
    return args[0]


def m_insert_text(M, name, args):
    s = stream_of(M, args[0], "operator<<")
    step(M, s, data_op(M, args[1], args[2]))
    return args[0]


def m_insert_cstr(M, name, args):
    s = stream_of(M, args[0], "operator<<")
    n = strlen(M, name, [args[1]])
    step(M, s, data_op(M, args[1], n))
    return args[0]


def m_clear(M, name, args):
    # ios_base of a modelled stream; only "set state" calls reach this
    o, off = args[0].o, args[0].off
    s = o.abs.get("stream")
    if s is None:
        raise Unsupp("ios::clear")
    st = args[1]
    o.cells[40] = (4, st)
    s.bad = bool(st)
    return None


def compare(M, a, b, n):
    """0 if surely equal, None if undecided, else a non-zero int"""
    sign = 0
    for i in range(n):
        x, y = M.load_byte(a.o, lin_add(a.off, i)), M.load_byte(b.o, lin_add(b.off, i))
        if is_int(x) and is_int(y):
            if int(x) != int(y):
                return (-1 if int(x) < int(y) else 1) if sign == 0 else 1
            continue
        if x is UNDEF or y is UNDEF:
            M.fault("comparison of undefined bytes")
        try:
            bx, by = M.bits(x, 8), M.bits(y, 8)
        except Top:
            sign = None
            continue
        if bx == by:
            continue
        if any(u.xor(v).const() == 1 for u, v in zip(bx, by)):
            return 1
        sign = None
    return sign


def m_memcmp(M, name, args):
    n = args[2]
    if not is_int(n):
        raise Unsupp("comparison of unknown length")
    n = int(n)
    if n == 0:
        return 0
    for p in args[:2]:
        M.access(p, n, "memcmp of")
    r = compare(M, args[0], args[1], n)
    if r is None:
        # the contents decide; both outcomes are followed
        return 0 if M.I.pick(2) == 0 else 1
    return r & 0xFFFFFFFF


def m_strcmp(M, name, args):
    i = 0
    while True:
        x, y = (M.load_byte(p.o, lin_add(p.off, i)) for p in args[:2])
        if not (is_int(x) and is_int(y)):
            raise Unsupp("strcmp of unknown text")
        if x != y:
            return 1
        if x == 0:
            return 0
        i += 1


def m_memchr(M, name, args):
    p, c, n = args
    for i in range(int(n)):
        x = M.load_byte(p.o, lin_add(p.off, i))
        if not is_int(x):
            raise Unsupp("memchr in unknown text")
        if int(x) == int(c) & 255:
            return P(p.o, lin_add(p.off, i))
    return 0


def m_event(M, name, args):
    M.world.log.append(("event", args[0], M.pointer(args[1])))


PARENTS = {"runtime_error": ("exception",), "length_error": ("logic_error", "exception"), "logic_error": ("exception",), "out_of_range": ("logic_error", "exception"),
           "bad_alloc": ("exception",)}


class Exc:
    def __init__(self, kind, obj=None, tinfos=()):
        self.kind, self.obj = kind, obj
        self.tinfos = set(tinfos) | {"_ZTISt%d%s" % (len(k), k) for k in (kind,) + PARENTS.get(kind, ())}

    def __repr__(self):
        return self.kind


def throws(what):
    def f(M, name, args):
        raise Thrown(Exc(what))
    return f


def m_alloc_exc(M, name, args):
    return P(M.alloc("exception", args[0]), 0)


def m_throw(M, name, args):
    t = args[1]
    n = t.o.name[1:] if isinstance(t, P) else getattr(t, "name", "?")
    d = demangle([n]).get(n, n)
    kind = d.replace("typeinfo for ", "").split("::")[-1]
    raise Thrown(Exc(kind, args[0], [n]))


def m_begin_catch(M, name, args):
    M.__dict__.setdefault("caught", []).append(args[0])
    return args[0].obj if isinstance(args[0], Exc) and args[0].obj is not None else args[0]


def m_end_catch(M, name, args):
    M.caught.pop()


def m_rethrow(M, name, args):
    raise Thrown(M.caught[-1])


def nothing(M, name, args):
    return None


ENV = dict(BASE)
ENV.update({
    "env_read": [(None, m_read)], "env_exists": [(None, m_exists)], "env_stream": [(None, m_stream)], "env_directory": [(None, m_directory)],
    "env_create_directory": [(None, m_create_directory)], "env_event": [(None, m_event)],
    "_ZNSo5writeEPKcl": [(None, m_write)], "_ZNSo5flushEv": [(None, m_flush)], "_ZNSo3putEc": [(None, m_put)],
    "_ZNSo5seekpESt4fposI11__mbstate_tE": [(None, m_seekp)],
    "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l": [(None, m_insert_text)],
    "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc": [(None, m_insert_cstr)],
    "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate": [(None, m_clear)],
    "__cxa_allocate_exception": [(None, m_alloc_exc)], "__cxa_throw": [(None, m_throw)], "__cxa_begin_catch": [(None, m_begin_catch)],
    "__cxa_end_catch": [(None, m_end_catch)], "__cxa_rethrow": [(None, m_rethrow)], "__cxa_free_exception": [(None, nothing)],
    "bcmp": [(None, m_memcmp)], "memcmp": [(None, m_memcmp)], "strcmp": [(None, m_strcmp)], "memchr": [(None, m_memchr)],
    "_ZSt20__throw_length_errorPKc": [(None, throws("length_error"))], "_ZSt19__throw_logic_errorPKc": [(None, throws("logic_error"))],
    "_ZSt24__throw_out_of_range_fmtPKcz": [(None, throws("out_of_range"))], "_ZSt17__throw_bad_allocv": [(None, throws("bad_alloc"))],
    "_ZNSt13runtime_errorC1EPKc": [(None, nothing)], "_ZNSt13runtime_errorD1Ev": [(None, nothing)],
})


def explore_env(mod, world, scenario, **kw):
    """world: function -> World, one per partition"""
    def sc(M):
        M.world = world()
        M.world.M = M
        return scenario(M)
    return explore_ir(mod, sc, ENV, **kw)
