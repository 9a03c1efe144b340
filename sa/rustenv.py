"""Environment of flatdata-rs on LLVM IR: models of the parts of std that are only declared, and a storage whose entries the check gives."""
import re

from .chk_rust_bits import abort
from .cppenv import Stream, World, m_memcmp, m_memchr
from .dom import *
from .llvm import *
from .report import AnalysisBroken

PRELUDE = r'''#![allow(warnings)]
use flatdata::{ResourceStorage, ResourceStorageError, StorageHandle, RawData, MultiArrayView, SliceExt, Struct};
use std::io;
#[derive(Debug)] pub struct Env( pub usize );
extern "C" {
    fn env_read( s: usize, n: *const u8, nl: usize, out: *mut Found ) -> i32;
    fn env_resource( s: usize, n: *const u8, nl: usize, t: *const u8, tl: usize, out: *mut Found ) -> i32;
    fn env_stored( s: usize, n: *const u8, nl: usize, t: *const u8, tl: usize, d: *const u8, dl: usize ) -> i32;
    fn env_exists( s: usize, n: *const u8, nl: usize ) -> bool;
    fn env_subdir( s: usize, n: *const u8, nl: usize ) -> usize;
    fn env_stream( s: usize, n: *const u8, nl: usize, out: *mut Found ) -> i32;
    fn env_write( s: usize, d: *const u8, n: usize ) -> i32;
    fn env_seek( s: usize, whence: i32, off: u64 ) -> i32;
    fn env_flush( s: usize ) -> i32;
    fn env_event( k: u64, p: *const u8, n: usize );
}
#[repr(C)] pub struct Found { p: *const u8, n: usize }
fn failure( k: i32 ) -> io::Error { io::Error::from( if k == 1 { io::ErrorKind::NotFound } else { io::ErrorKind::PermissionDenied } ) }
#[derive(Debug)] pub struct Out( usize );
impl io::Write for Out {
    fn write( &mut self, d: &[u8] ) -> io::Result< usize > { let k = unsafe { env_write( self.0, d.as_ptr(), d.len() ) }; if k == 0 { Ok( d.len() ) } else { Err( failure( k ) ) } }
    fn write_all( &mut self, d: &[u8] ) -> io::Result< () > { let k = unsafe { env_write( self.0, d.as_ptr(), d.len() ) }; if k == 0 { Ok( () ) } else { Err( failure( k ) ) } }
    fn flush( &mut self ) -> io::Result< () > { let k = unsafe { env_flush( self.0 ) }; if k == 0 { Ok( () ) } else { Err( failure( k ) ) } }
}
impl io::Seek for Out {
    fn seek( &mut self, to: io::SeekFrom ) -> io::Result< u64 > {
        let ( w, o ) = match to { io::SeekFrom::Start( n ) => ( 0, n ), io::SeekFrom::End( n ) => ( 1, n as u64 ), io::SeekFrom::Current( n ) => ( 2, n as u64 ) };
        let k = unsafe { env_seek( self.0, w, o ) };
        if k == 0 { Ok( o ) } else { Err( failure( k ) ) }
    }
}
impl Env {
    fn get( &self, n: &str ) -> Result< &[u8], io::Error > {
        let mut f = Found { p: std::ptr::null(), n: 0 };
        let k = unsafe { env_read( self.0, n.as_ptr(), n.len(), &mut f ) };
        if k == 0 { Ok( unsafe { std::slice::from_raw_parts( f.p, f.n ) } ) } else { Err( failure( k ) ) }
    }
    fn out( &self, n: &str ) -> io::Result< Box< dyn STREAM > > {
        let mut f = Found { p: std::ptr::null(), n: 0 };
        let k = unsafe { env_stream( self.0, n.as_ptr(), n.len(), &mut f ) };
        if k == 0 { Ok( Box::new( Out( f.n ) ) ) } else { Err( failure( k ) ) }
    }
}
// the checks of the library in front of the environment
impl ResourceStorage for Env {
    fn subdir( &self, d: &str ) -> StorageHandle { std::sync::Arc::new( Env( unsafe { env_subdir( self.0, d.as_ptr(), d.len() ) } ) ) }
    fn exists( &self, n: &str ) -> bool { unsafe { env_exists( self.0, n.as_ptr(), n.len() ) } }
    fn read_resource( &self, n: &str ) -> Result< &[u8], io::Error > { self.get( n ) }
    fn create_output_stream( &self, n: &str ) -> io::Result< Box< dyn STREAM > > { self.out( n ) }
}
// a storage whose checks are decided by the environment
#[derive(Debug)] pub struct Given( pub usize );
impl ResourceStorage for Given {
    fn read( &self, n: &str, t: &str ) -> Result< &[u8], ResourceStorageError > {
        let mut f = Found { p: std::ptr::null(), n: 0 };
        match unsafe { env_resource( self.0, n.as_ptr(), n.len(), t.as_ptr(), t.len(), &mut f ) } {
            0 => Ok( unsafe { std::slice::from_raw_parts( f.p, f.n ) } ),
            1 => Err( ResourceStorageError::Missing ),
            2 => Err( ResourceStorageError::MissingData ),
            _ => Err( ResourceStorageError::UnexpectedDataSize ),
        }
    }
    fn write( &self, n: &str, t: &str, d: &[u8] ) -> io::Result< () > {
        let k = unsafe { env_stored( self.0, n.as_ptr(), n.len(), t.as_ptr(), t.len(), d.as_ptr(), d.len() ) };
        if k == 0 { Ok( () ) } else { Err( failure( k ) ) }
    }
    fn subdir( &self, d: &str ) -> StorageHandle { std::sync::Arc::new( Given( unsafe { env_subdir( self.0, d.as_ptr(), d.len() ) } ) ) }
    fn exists( &self, n: &str ) -> bool { unsafe { env_exists( self.0, n.as_ptr(), n.len() ) } }
    fn read_resource( &self, n: &str ) -> Result< &[u8], io::Error > { Err( failure( 1 ) ) }
    fn create_output_stream( &self, n: &str ) -> io::Result< Box< dyn STREAM > > { Env( self.0 ).out( n ) }
}
unsafe fn text< 'a >( p: *const u8, n: usize ) -> &'a str { std::str::from_utf8_unchecked( std::slice::from_raw_parts( p, n ) ) }
fn code( e: ResourceStorageError ) -> i32 {
    match e {
        ResourceStorageError::Io( e, _ ) => if e.kind() == io::ErrorKind::NotFound { 10 } else if e.kind() == io::ErrorKind::AlreadyExists { 12 } else { 11 },
        ResourceStorageError::Utf8Error( _ ) => 3,
        ResourceStorageError::MissingSchema( _ ) => 4,
        ResourceStorageError::MissingData => 5,
        ResourceStorageError::WrongSignature { .. } => 6,
        ResourceStorageError::UnexpectedDataSize => 7,
        ResourceStorageError::TooBig { .. } => 8,
        ResourceStorageError::Missing => 9,
        _ => 99,
    }
}
unsafe fn show( k: u64, d: &[u8] ) { env_event( k, d.as_ptr(), d.len() ) }
unsafe fn number( k: u64, n: usize ) { env_event( k, std::ptr::null(), n ) }
'''.replace("STREAM", "crate::storage::Stream")

CODES = {0: "success", 3: "not text", 4: "missing schema", 5: "missing data", 6: "wrong schema", 7: "wrong size", 8: "too big", 9: "missing", 10: "not found", 11: "no access",
         12: "exists already"}


def name_at(M, p, n):
    """bytes of a &str of the program"""
    if not is_int(n):
        raise Unsupp("text of unknown length")
    out = []
    for i in range(int(n)):
        b = M.load_byte(p.o, lin_add(p.off, i))
        if not is_int(b):
            raise Unsupp("unknown text")
        out.append(int(b))
    return bytes(out).decode("utf-8", "replace")


class Env(World):
    """files: path -> (size, content)"""

    def __init__(self, files=None, fail=()):
        World.__init__(self)
        self.files = dict(files or {})
        self.objs = {}
        self.fail = dict(fail)       # index of a stream operation or path -> error
        self.ops = 0
        self.order = []              # storages by number
        self.handles = []

    def where(self, k):
        return self.order[int(k)] if is_int(k) and int(k) < len(self.order) else ""

    def number(self, path):
        if path not in self.order:
            self.order.append(path)
        return self.order.index(path)

    def object(self, M, path):
        f = self.files.get(path)
        if f is None:
            return None
        n = f(M, None)
        o = self.objs.get(path)
        if o is None:
            o = self.objs[path] = M.alloc("file:" + path, n)
            o.content = lambda off: M.mk([bvar("%s[%s].%d" % (path, off, i)) for i in range(8)])
            f(M, o)
        return o, n

    def written(self, M, p, n):
        return p.o, p.off

    def op(self):
        self.ops += 1
        return self.fail.get(self.ops - 1, 0)


def found(M, out, p, n):
    M.store(PTR, p, out)
    M.store(I64, n, P(out.o, lin_add(out.off, 8)))


I64 = Ty("i", 64)


def m_env_read(M, name, a):
    w = M.world
    path = w.where(a[0]) + name_at(M, a[1], a[2])
    if path in w.fail:
        return w.fail[path]
    r = w.object(M, path)
    w.log.append(("read", path, r is not None))
    if r is None:
        return 1
    found(M, a[3], P(r[0], 0), r[1])
    return 0


def m_env_resource(M, name, a):
    w = M.world
    path = w.where(a[0]) + name_at(M, a[1], a[2])
    w.log.append(("resource", path, name_at(M, a[3], a[4])))
    if path in w.fail:
        return w.fail[path]
    r = w.object(M, path)
    if r is None:
        return 1
    found(M, a[5], P(r[0], 0), r[1])
    return 0


def m_env_stored(M, name, a):
    w = M.world
    w.log.append(("stored", w.where(a[0]) + name_at(M, a[1], a[2]), name_at(M, a[3], a[4]), a[5] if a[6] != 0 else None, a[6]))
    return w.op()


def m_env_exists(M, name, a):
    w = M.world
    path = w.where(a[0]) + name_at(M, a[1], a[2])
    w.log.append(("exists", path))
    return w.files.get(path) is not None


def m_env_subdir(M, name, a):
    w = M.world
    path = w.where(a[0]) + name_at(M, a[1], a[2])
    w.log.append(("subdir", path))
    return w.number(path + "/")


def m_env_stream(M, name, a):
    w = M.world
    path = w.where(a[0]) + name_at(M, a[1], a[2])
    k = w.op()
    w.log.append(("stream", path))
    if k:
        return k
    s = Stream(path)
    w.handles.append(s)
    w.streams[path] = s
    found(M, a[3], 0, len(w.handles) - 1)
    return 0


def handle(M, k):
    if not is_int(k):
        raise Unsupp("unknown stream")
    return M.world.handles[int(k)]


def m_env_write(M, name, a):
    s, n = handle(M, a[0]), a[2]
    k = M.world.op()
    if k:
        s.bad = True
        return k
    if is_int(n) and int(n) <= 4096:
        if int(n):
            M.access(a[1], int(n), "write of")
            s.ops.append(("bytes", [M.load_byte(a[1].o, lin_add(a[1].off, i)) for i in range(int(n))]))
    else:
        s.ops.append(("range",) + M.world.written(M, a[1], n) + (n,))
    return 0


def m_env_seek(M, name, a):
    s = handle(M, a[0])
    k = M.world.op()
    if k:
        return k
    if a[1] != 0:
        raise Unsupp("seek from elsewhere")
    s.ops.append(("seek", int(a[2]) if is_int(a[2]) else a[2]))
    return 0


def m_env_flush(M, name, a):
    k = M.world.op()
    if not k:
        handle(M, a[0]).ops.append(("flush",))
    return k


def m_env_event(M, name, a):
    M.world.log.append(("event", int(a[0]), a[1], a[2]))


def m_alloc(M, name, a):
    return P(M.alloc("heap", a[0]), 0)


def m_alloc_zeroed(M, name, a):
    o = M.alloc("heap", a[0])
    o.content = lambda off: 0
    return P(o, 0)


def m_dealloc(M, name, a):
    p = a[0]
    if not isinstance(p, P) or p.off != 0 or p.o.freed or p.o.kind != "heap":
        M.fault("release of %r" % (p,))
    p.o.freed = True


def m_realloc(M, name, a):
    p, old, new = a[0], a[1], a[3]
    q = P(M.alloc("heap", new), 0)
    if not is_int(old):
        raise Unsupp("reallocation of unknown size")
    n = min(int(old), int(new)) if is_int(new) else int(old)
    if n:
        M.memcpy(q, p, n)
    p.o.freed = True
    return q


def text_of(M, fn, v):
    """what Display prints for an argument"""
    d = M.mod.dem(fn.name) if isinstance(fn, FnP) else ""
    d = re.sub(r"\[[0-9a-f]+\]", "", d)
    if "&str as" in d or d.startswith("<str as") and False:
        p, n = M.load(PTR, v), M.load(I64, P(v.o, lin_add(v.off, 8)))
    elif "string::String as" in d:
        p, n = M.load(PTR, P(v.o, lin_add(v.off, 8))), M.load(I64, P(v.o, lin_add(v.off, 16)))
    elif "&alloc::string::String as" in d:
        v = M.load(PTR, v)
        p, n = M.load(PTR, P(v.o, lin_add(v.off, 8))), M.load(I64, P(v.o, lin_add(v.off, 16)))
    else:
        return list(b"?")
    if not is_int(n):
        return list(b"?")
    return [M.load_byte(p.o, lin_add(p.off, i)) for i in range(int(n))]


def m_format(M, name, a):
    out, t, args = a[0], a[1], a[2]
    bs = []
    if is_int(args):
        bs = [M.load_byte(t.o, lin_add(t.off, i)) for i in range(int(args) >> 1)]
    else:
        i = k = 0
        while True:
            n = int(M.load_byte(t.o, lin_add(t.off, i)))
            i += 1
            if n == 0:
                break
            if n < 0x80 or n == 0x80:
                if n == 0x80:
                    n = int(M.load_byte(t.o, lin_add(t.off, i))) + 256 * int(M.load_byte(t.o, lin_add(t.off, i + 1)))
                    i += 2
                bs += [M.load_byte(t.o, lin_add(t.off, i + j)) for j in range(n)]
                i += n
                continue
            i += 4 * (n & 1) + 2 * (n >> 1 & 1) + 2 * (n >> 2 & 1)
            if n & 8:
                k = int(M.load_byte(t.o, lin_add(t.off, i))) + 256 * int(M.load_byte(t.o, lin_add(t.off, i + 1)))
                i += 2
            at = P(args.o, lin_add(args.off, 16 * k))
            k += 1
            fn = M.load(PTR, P(at.o, lin_add(at.off, 8)))
            if n != 0xC0:
                bs += list(b"?")
            else:
                bs += text_of(M, fn, M.load(PTR, at))
    o = M.alloc("heap", max(1, len(bs)))
    for i, b in enumerate(bs):
        o.cells[i] = (1, b)
    M.store(I64, max(1, len(bs)), out)
    M.store(PTR, P(o, 0), P(out.o, lin_add(out.off, 8)))
    M.store(I64, len(bs), P(out.o, lin_add(out.off, 16)))


def m_string_clone(M, name, a):
    out, s = a[0], a[1]
    p, n = M.load(PTR, P(s.o, lin_add(s.off, 8))), M.load(I64, P(s.o, lin_add(s.off, 16)))
    if not is_int(n):
        raise Unsupp("copy of a text of unknown length")
    o = M.alloc("heap", max(1, int(n)))
    for i in range(int(n)):
        o.cells[i] = (1, M.load_byte(p.o, lin_add(p.off, i)))
    M.store(I64, int(n), out)
    M.store(PTR, P(o, 0) if int(n) else 1, P(out.o, lin_add(out.off, 8)))
    M.store(I64, int(n), P(out.o, lin_add(out.off, 16)))


def m_from_utf8(M, name, a):
    """is it text? known for known bytes, else both"""
    out, p, n = a
    valid = None
    if is_int(n):
        bs = [M.load_byte(p.o, lin_add(p.off, i)) for i in range(int(n))] if isinstance(p, P) else []
        if all(is_int(b) for b in bs):
            try:
                bytes(int(b) for b in bs).decode("utf-8")
                valid = True
            except UnicodeDecodeError:
                valid = False
    if valid is None:
        valid = M.I.pick(2) == 0
    if valid:
        M.store(I64, 0, out)
        M.store(PTR, p, P(out.o, lin_add(out.off, 8)))
        M.store(I64, n, P(out.o, lin_add(out.off, 16)))
    else:
        M.store(I64, 1, out)
        M.store(I64, 0, P(out.o, lin_add(out.off, 8)))
        M.store(I64, 0, P(out.o, lin_add(out.off, 16)))


def m_error_new(M, name, a):
    """an I/O error of a kind with a text: what the error says is not followed"""
    if not is_int(a[0]):
        raise Unsupp("error of unknown kind")
    return (int(a[0]) << 32) | 3


def nothing(M, name, a):
    return None


def impossible(M, name, a):
    raise Infeasible("objects are aligned")


PATTERNS = [
    (r"panic_misaligned_pointer_dereference$", impossible),
    (r"__rust_alloc$", m_alloc), (r"__rust_alloc_zeroed$", m_alloc_zeroed), (r"__rust_dealloc$", m_dealloc), (r"__rust_realloc$", m_realloc),
    (r"__rust_no_alloc_shim", nothing), (r"alloc::fmt::format::format_inner$", m_format), (r"core::str::converts::from_utf8$", m_from_utf8),
    (r"<alloc::string::String as core::clone::Clone>::clone$", m_string_clone),
    (r"panicking::|::unwrap_failed$|::expect_failed$|slice_index_fail|panic_|handle_alloc_error|raw_vec::handle_error|slice_\w+_fail|len_mismatch_fail|assert_failed", abort),
]
# replaced even where their code is there
INSTEAD = [(r"core::io::error::Error>::new::<alloc::string::String>$", m_error_new)]
FIXED = {"bcmp": m_memcmp, "memcmp": m_memcmp, "memchr": m_memchr, "env_read": m_env_read, "env_resource": m_env_resource, "env_stored": m_env_stored, "env_exists": m_env_exists,
         "env_subdir": m_env_subdir, "env_stream": m_env_stream, "env_write": m_env_write, "env_seek": m_env_seek, "env_flush": m_env_flush, "env_event": m_env_event}


def std_models(mod):
    """models of the functions that are only declared"""
    out = {n: [(None, f)] for n, f in FIXED.items()}
    for n, f in mod.fns.items():
        if n in out:
            continue
        if f.body is not None:
            for pat, m in INSTEAD:
                if "5Error3new" in n and re.search(pat, re.sub(r"\[[0-9a-f]+\]", "", mod.dem(n))):
                    out[n] = [(None, m)]
            continue
        d = re.sub(r"\[[0-9a-f]+\]", "", mod.dem(n))
        for pat, m in PATTERNS:
            if re.search(pat, d):
                out[n] = [(None, m)]
                break
    return out


def rust_text(M, s, kind="const"):
    """&str arguments holding this text"""
    b = s.encode()
    o = M.alloc("text", len(b))
    for i, c in enumerate(b):
        o.cells[i] = (1, c)
    return [P(o, 0), len(b)]


def run_world(mod, models, make, scen):
    """scen(M, world) over all partitions; the outcome's machine keeps its world"""
    def go(M):
        M.world = make(M)
        M.padding = True
        return scen(M, M.world)
    return explore_ir(mod, go, models)


def module_of(crate, text, what, flags=None):
    rc, ir, err = crate.whole(PRELUDE + text) if flags is None else crate.whole(PRELUDE + text, flags)
    if rc:
        from .rustlib import first_error
        raise AnalysisBroken("%s do not compile: %s" % (what, first_error(err)))
    m = Module(ir)
    m.text = ir
    m.std = std_models(m)
    return m
