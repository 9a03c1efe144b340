"""C03, C04, C08, C09, C10: the storage, writer and view classes of the C++ library.

A small schema is rendered by the interpreted generator; user-level probes over its types are lowered to LLVM IR together with the
library and interpreted over an abstract storage (symbolic sizes, contents and texts, streams that fail anywhere)."""
from .chk_cpp_archive import *
from .llvm import *

TEXT = """namespace n { struct S { x : u32 : 7; y : i16; } struct T { z : u8; } struct U { b : u64 : 37; } struct R { @range( r ) a : u16 : 9; }
          archive A { s : S; v : vector< S >; m : multivector< 9, S, T, U >; k : multivector< 33, T, S >; r : vector< R >; } }"""
HUGE = 1 << 62


def header(t):
    """rendered header of TEXT, {struct: size in bytes}"""
    text = " ".join(TEXT.split())
    o, v = rendered(t, text, "cpp", "CppGenerator")
    if v is None:
        raise AnalysisBroken("the schema of the probes is not rendered: %s" % verdict(o))
    s, src = v[:2]
    return src.replace("#pragma once", ""), {k: (layout(None_I, s, s.by_path[".n." + k])[1] + 7) // 8 for k in "STUR"}


def program(w, t, probes):
    src, sizes = header(t)
    return w.module(src + probes, "the probes do not compile"), sizes


def run_body(prop, tool, bounds, body, floor=1, sources=None):
    r = Report(prop, tool, bounds)

    def part(r, t, turn):
        w = EnvWork(sources=sources) if sources is not None else EnvWork()
        try:
            body(r, w, t, turn)
        except Top as ex:
            raise AnalysisBroken(str(ex))
        finally:
            w.close()
    return spread(r, part, floor)


# ------------------------------------------------------------------------------------------------------------------ C03

READ = r'''
#define OUT const unsigned char** d, size_t* n, size_t* k
extern "C" bool rd_raw( const void* e, const char* s, OUT )
{ Env env( e ); auto v = env.read< flatdata::MemoryDescriptor >( "x", s ); if ( !v ) return false; *d = v->data( ); *n = v->size_in_bytes( ); *k = v->size( ); return true; }
extern "C" bool rd_vec( const void* e, const char* s, OUT )
{ Env env( e ); auto v = env.read< flatdata::ArrayView< n::S > >( "x", s ); if ( !v ) return false; *d = v->data( ); *n = 0; *k = v->size( ); return true; }
extern "C" bool rd_rng( const void* e, const char* s, OUT )
{ Env env( e ); auto v = env.read< flatdata::ArrayView< n::R > >( "x", s ); if ( !v ) return false; *d = v->data( ); *n = 0; *k = v->size( ); return true; }
extern "C" bool rd_one( const void* e, const char* s, OUT )
{ Env env( e ); auto v = env.read< n::S >( "x", s ); if ( !v ) return false; *d = v->data( ); *n = *k = 0; return true; }
extern "C" bool rd_mul( const void* e, const char* s, OUT )
{ Env env( e ); auto v = env.read< %s >( "x", s ); if ( !v ) return false; *d = 0; *n = 0; *k = v->size( ); return true; }
extern "C" bool rd_builder( const void* e, const char* s, OUT )
{ Env env( e ); flatdata::MemoryDescriptor v = env.read_schema( "x" ); if ( !v ) return false; *d = v.data( ); *n = v.size_in_bytes( ); *k = 0; return true; }
'''


class Files(World):
    """storage whose files are given: path -> (size, fill function) or None"""

    def __init__(self, files):
        World.__init__(self)
        self.files, self.objs = files, {}

    def read(self, M, path):
        f = self.files.get(path)
        if f is None:
            self.objs.setdefault(path, None)
            return 0, 0
        n = f(M, None)
        o = self.objs.get(path)
        if o is None:
            o = self.objs[path] = M.alloc("file:" + path, n)
            o.content = lambda off: M.mk([bvar("%s[%s].%d" % (path, off, i)) for i in range(8)])
            f(M, o)
        return P(o, 0), n


def const_file(data):
    def f(M, o):
        if o is not None:
            for i, b in enumerate(data):
                o.cells[i] = (1, b)
        return len(data)
    return f


def part_file(known, size):
    """file whose first bytes are known and the others not; None in known: not known"""
    def f(M, o):
        if o is not None:
            for i, b in enumerate(known):
                if b is not None:
                    o.cells[i] = (1, b(M, i) if callable(b) else b)
        return size
    return f


def payload_file(delta=None, name="x"):
    """size header + n bytes + padding with n unknown; delta(M, n) is added to the header"""
    def f(M, o):
        n = sym("payload of " + name)
        if o is None:
            M.I.facts.assume(le0(lin_mul(n, -1)), True)
            M.I.facts.assume(le0(lin_add(n, STRUCT_FREE, -1)), True)
        else:
            o.cells[0] = (8, delta(M, n) if delta else n)
        return lin_add(n, 16)
    return f


def bounded(M, name, lo, hi):
    v = sym(name)
    M.I.facts.assume(le0(lin_add(lo, v, -1)), True)
    M.I.facts.assume(le0(lin_add(v, hi, -1)), True)
    return v


def damaged_files(name="x"):
    """(what, file) for every way in which sizes can disagree"""
    for n in range(16):
        yield "a file of %d bytes" % n, part_file([], n)
        yield "a file of %d bytes with header 0" % n, part_file([0] * min(n, 8), n)
    # headers that satisfy n = header + 16 modulo 2^64
    for n in range(8, 16):
        yield "a file of %d bytes with the header %d - 16" % (n, n), part_file(list((n - 16).to_bytes(8, "little", signed=True)), n)
    yield "a header that is too large", payload_file(lambda M, n: lin_add(n, bounded(M, "excess", 1, HUGE)), name)
    yield "a header that is too small", payload_file(lambda M, n: lin_add(n, short(M, n), -1), name)
    yield "a header near 2^64", payload_file(lambda M, n: lin_add(1 << 64, bounded(M, "below", 1, HUGE), -1), name)
    for k in (8, 16):
        yield "a header that counts %d more bytes" % k, payload_file(lambda M, n: lin_add(n, k), name)


def short(M, n):
    v = sym("missing")
    M.I.facts.assume(le0(lin_add(1, v, -1)), True)
    M.I.facts.assume(le0(lin_add(v, n, -1)), True)
    return v


def flip(byte, bit):
    """a byte that differs from the given one in this bit and is otherwise unknown"""
    return lambda M, i: M.mk([bconst(1 - (byte >> bit & 1)) if j == bit else bvar("text[%d].%d" % (i, j)) for j in range(8)])


def other_texts(want):
    b = list(want.encode())
    for n in range(len(b)):
        yield "the first %d characters of the schema" % n, const_file(b[:n])
        yield "an unknown shorter text of %d characters" % n, part_file([], n)
    for k in (1, 2, 15, 16, 700):
        yield "the schema and %d more characters" % k, part_file(b + ([None] * k if k < 16 else [65] * k), len(b) + k)
        if k < 16:
            yield "an unknown text of %d more characters" % k, part_file([], len(b) + k)
        yield "the schema and %d NUL" % k, const_file(b + [0] * k)
    for i in range(len(b)):
        for j in range(8):
            yield "a text differing in bit %d of character %d" % (j, i), part_file([flip(c, j) if k == i else None for k, c in enumerate(b)], len(b))
        yield "the schema with character %d changed" % i, const_file(b[:i] + [b[i] ^ 0x20] + b[i + 1:])


def c03(prop):
    return run_body(prop, "LLVM IR of ResourceStorage::read< T > is interpreted over a storage with absent, present and damaged entries of symbolic size and content",
                    "Every kind of resource; files of any size up to 2^40 with any size header; every shorter text, texts longer by 1, 2, 15, 16, 700 characters, every same-length "
                    "text (by the first bit in which it differs), expected texts of 0, 5, 15, 16 and 40 characters.", c03_body)


WANTS = ("", "ab cd", "fifteen letters", "sixteen letters.", "namespace n { struct S { x : u8; } }    ")
KINDS = {"raw": "rd_raw", "vector": "rd_vec", "ranged vector": "rd_rng", "instance": "rd_one", "multivector": "rd_mul"}


def multi_type(archive="A", name="m"):
    return "std::decay< decltype( std::declval< const n::%s& >( ).%s( ) ) >::type" % (archive, name)


def c03_body(r, w, t, turn):
    mod, sizes = program(w, t, READ % multi_type())
    for kind, fn in KINDS.items():
        multi = kind == "multivector"
        for want in WANTS:
            if not turn():
                continue
            ixs, n = "index(%s)" % want, 0

            def entries(**kw):
                f = {"x": payload_file(), "x.schema": const_file(want.encode())}
                if multi:
                    f.update({"x_index": payload_file(None, "x_index"), "x_index.schema": const_file(ixs.encode())})
                f.update({k.replace("__", "."): v for k, v in kw.items()})
                return f
            site = "%s, schema of %d characters" % (kind, len(want))
            read(r, "reads", site, mod, fn, want, entries(), True, kind, sizes)
            n += 1
            for suffix in ("", "_index") if multi else ("",):
                text = ixs if suffix else want
                which = "%s: %s" % (site, suffix or "data")
                for gone in ({"x" + suffix: None}, {"x" + suffix + "__schema": None}, {"x" + suffix: None, "x" + suffix + "__schema": None}):
                    read(r, "missing", which + " without " + ", ".join(gone), mod, fn, want, entries(**gone), False)
                for what, f in damaged_files("x" + suffix):
                    read(r, "framing", "%s is %s" % (which, what), mod, fn, want, entries(**{"x" + suffix: f}), False)
                    n += 1
                for what, f in other_texts(text):
                    read(r, "schema", "%s is described by %s" % (which, what), mod, fn, want, entries(**{"x" + suffix + "__schema": f}), False)
                    n += 1
                r.floor("partitions of stored entries of " + which, n, 50)
                if suffix:
                    read(r, "schema", which + " is described by the schema of the data", mod, fn, want, entries(x_index__schema=const_file(want.encode())), False)


def read(r, rule, site, mod, fn, want, files, good, kind=None, sizes=None):
    def sc(M):
        s = text_object(M, "expected schema", want + "\0")
        out = M.alloc("results", 24)
        v = flag(M, M.call(fn, [M.world.dir(M, ""), P(s, 0), P(out, 0), P(out, 8), P(out, 16)]))
        return v, [M.load(t, P(out, 8 * i)) for i, t in enumerate((PTR, I64, I64))] if v is True else None

    def check(o):
        v, x = o.value
        if v is not good:
            return False, "%s is returned" % ("data" if v else "nothing")
        if not good:
            return True, ""
        f = o.m.world.objs["x"]
        n = sym("payload of x")
        if kind == "multivector":
            k = lin_floordiv(sym("payload of x_index"), 2)
            k = 0 if o.facts.decide(le0(lin_add(k, -1))) else lin_add(k, -1)
        else:
            if not (isinstance(x[0], P) and x[0].o is f and x[0].off == 8):
                return False, "the data starts at %r" % (x[0],)
            if kind == "raw":
                k = n
                if not equal(o, x[1], n):
                    return False, "%r bytes, expected %r" % (x[1], n)
            elif kind == "vector":
                k = lin_floordiv(n, sizes["S"])
            elif kind == "ranged vector":
                k = lin_floordiv(n, sizes["R"])
                k = 0 if o.facts.decide(le0(lin_add(k, -1))) else lin_add(k, -1)      # none without a successor
            else:
                return True, ""
        return equal(o, x[2], k), "%r elements, expected %r" % (x[2], k)
    if len(r.violations) > 30:
        return                   # broken throughout; the rest adds nothing
    with r.part(site):
        report(r, explore_env(mod, lambda: Files(files), sc), rule, site, check)


# ------------------------------------------------------------------------------------------------------------------ C04

WRITE = r'''
extern "C" bool wr_raw( const void* e, const char* s, const unsigned char* d, size_t n )
{ Env env( e ); return env.write< flatdata::MemoryDescriptor >( "x", s, flatdata::MemoryDescriptor( d, n ) ); }
extern "C" bool wr_vec( const void* e, const char* s, const unsigned char* d, size_t n )
{ Env env( e ); return env.write< flatdata::ArrayView< n::S > >( "x", s, flatdata::ArrayView< n::S >( d, d + n ) ); }
extern "C" bool wr_rng( const void* e, const char* s, const unsigned char* d, size_t n )
{ Env env( e ); return env.write< flatdata::ArrayView< n::R > >( "x", s, flatdata::ArrayView< n::R >( d, d + n ) ); }
extern "C" bool wr_one( const void* e, const char* s, const unsigned char* d, size_t )
{ Env env( e ); return env.write< n::S >( "x", s, n::S( d ) ); }
extern "C" bool wr_sig( const void* e, const char* s, const unsigned char*, size_t )
{ Env env( e ); return env.write< flatdata::MemoryDescriptor >( "x", s, flatdata::MemoryDescriptor( ) ); }
''' 

GROW = r'''
typedef %(multi)s View;
typedef decltype( as_builder( std::declval< n::ABuilder& >( ).start_m( ), static_cast< TypeList< n::S, n::T, n::U >* >( nullptr ) ) ) Multi;
typedef decltype( as_builder( std::declval< n::ABuilder& >( ).start_k( ), static_cast< TypeList< n::T, n::S >* >( nullptr ) ) ) Multi33;
template < typename C > struct BigT { using AccessorType = BigT< const unsigned char* >; using MutatorType = BigT< unsigned char* >; using StreamType = C; C p;
    explicit BigT( C d = nullptr ) : p( d ) { } BigT( const BigT& ) = default; C data( ) const { return p; }
    static constexpr size_t size_in_bytes( ) { return 12 * 1024 * 1024 + 1; } static constexpr bool IS_OVERLAPPING_WITH_NEXT = false; };
typedef BigT< const unsigned char* > Big;
template < typename > struct index_of_multi; template < typename I, typename... A > struct index_of_multi< flatdata::MultiVector< I, A... > > { typedef I type; };
typedef flatdata::MultiVector< index_of_multi< Multi33 >::type, n::T, Big > MultiBig;
template < typename > struct args_of; template < typename I, typename... A > struct args_of< flatdata::MultiVector< I, A... > >
{ static Env* env( void* e ) { return static_cast< Env* >( e ); }
  static flatdata::MultiVector< I, A... > create( void* e, const char* s ) { return env( e )->template create_multi_vector< I, A... >( "x", s ); } };
extern "C" size_t env_size( ) { return sizeof( Env ); }
extern "C" void env_make( void* o, const void* e ) { new ( o ) Env( e ); }
#define VEC( NAME, TYPE ) \
extern "C" size_t NAME##_size( ) { return sizeof( flatdata::ExternalVector< TYPE > ); } \
extern "C" void NAME##_create( void* o, void* e, const char* s ) { new ( o ) flatdata::ExternalVector< TYPE >( static_cast< Env* >( e )->create_external_vector< TYPE >( "x", s ) ); } \
extern "C" void NAME##_move( void* o, void* a ) { new ( o ) flatdata::ExternalVector< TYPE >( std::move( *static_cast< flatdata::ExternalVector< TYPE >* >( a ) ) ); } \
extern "C" unsigned char* NAME##_grow( void* o ) { TYPE::MutatorType m = static_cast< flatdata::ExternalVector< TYPE >* >( o )->grow( ); return m.data( ); } \
extern "C" size_t NAME##_count( void* o ) { return static_cast< flatdata::ExternalVector< TYPE >* >( o )->size( ); } \
extern "C" bool NAME##_empty( void* o ) { return static_cast< flatdata::ExternalVector< TYPE >* >( o )->empty( ); } \
extern "C" bool NAME##_close( void* o, const unsigned char** d, size_t* n ) { flatdata::ArrayView< TYPE > v = static_cast< flatdata::ExternalVector< TYPE >* >( o )->close( ); \
    *d = v.data( ); *n = v.size_in_bytes( ); return static_cast< bool >( v ); }
#define MUL( NAME, TYPE, A, B ) \
extern "C" size_t NAME##_size( ) { return sizeof( TYPE ); } \
extern "C" size_t NAME##_list_size( ) { return sizeof( TYPE::ListBuilder ); } \
extern "C" void NAME##_create( void* o, void* e, const char* s ) { new ( o ) TYPE( args_of< TYPE >::create( e, s ) ); } \
extern "C" void NAME##_move( void* o, void* a ) { new ( o ) TYPE( std::move( *static_cast< TYPE* >( a ) ) ); } \
extern "C" void NAME##_grow( void* o, void* l ) { new ( l ) TYPE::ListBuilder( static_cast< TYPE* >( o )->grow( ) ); } \
extern "C" unsigned char* NAME##_add0( void* l ) { A::MutatorType m = static_cast< TYPE::ListBuilder* >( l )->template add< A >( ); return m.data( ); } \
extern "C" unsigned char* NAME##_add1( void* l ) { B::MutatorType m = static_cast< TYPE::ListBuilder* >( l )->template add< B >( ); return m.data( ); } \
extern "C" bool NAME##_close( void* o, const unsigned char** d, size_t* n ) { auto v = static_cast< TYPE* >( o )->close( ); *d = 0; *n = v.size( ); return static_cast< bool >( v ); }
extern "C" unsigned char* ms_add2( void* l ) { n::U::MutatorType m = static_cast< Multi::ListBuilder* >( l )->add< n::U >( ); return m.data( ); }
VEC( vs, n::S ) VEC( vt, n::T ) VEC( vr, n::R ) VEC( vbig, Big )
MUL( ms, Multi, n::S, n::T ) MUL( mk, Multi33, n::T, n::S ) MUL( mbig, MultiBig, n::T, Big )
'''
BIG = 12 * 1024 * 1024 + 1
SCHEMA = "schema of x"


class Sink(World):
    """storage to write in: the fail-th stream operation fails, the streams in refuse cannot be created; what is read is well-formed"""

    def __init__(self, fail=None, refuse=()):
        World.__init__(self)
        self.fail, self.refuse, self.ops, self.objs = fail, refuse, 0, {}

    def stream(self, M, path):
        return path not in self.refuse

    def fails(self, M, s, op):
        self.ops += 1
        return self.ops - 1 == self.fail

    def read(self, M, path):
        if path.endswith(".schema"):
            o = self.objs.get(path)
            text = "index(%s)" % SCHEMA if path == "x_index.schema" else SCHEMA
            if o is None:
                o = self.objs[path] = text_object(M, path, text)
            return P(o, 0), len(text)
        o = self.objs.get(path)
        n = sym("payload of " + path)
        if o is None:
            n = bounded(M, "payload of " + path, 0, STRUCT_FREE)
            o = self.objs[path] = M.alloc("file:" + path, lin_add(n, 16))
            o.cells[0] = (8, n)
        return P(o, 0), lin_add(n, 16)


def c04(prop):
    return run_body(prop, "LLVM IR of ResourceStorage::write, ExternalVector and MultiVector is interpreted over streams that fail at any operation or cannot be created",
                    "One-shot writes of raw data, vectors and structs of any size up to 2^40 bytes; incremental vectors and multivectors of up to three elements; a failure at every "
                    "stream operation, every stream refused.", c04_body)


def framing(o, w, key, schema_text, data):
    """difference of a stream to header + data + padding, its schema stored and everything flushed; data: list of bytes or ('range', object, size)"""
    M = o.m
    s = w.streams.get(key)
    if s is None:
        return "%s is not written" % key
    if s.again:
        return "%s is opened twice" % key
    im = s.image()
    if im is None:
        return "%s is not written in a known order" % key
    n = data[2] if isinstance(data, tuple) else len(data)
    if not isinstance(data, tuple):
        body = [("byte", b) for b in data]
    else:
        body = [] if n == 0 or o.facts.decide(le0(n)) is True and len(im) == 16 else [("range", data[1], 0, n)]
    if len(im) != 16 + len(body):
        return "%s consists of %d parts, expected header, %d and padding" % (key, len(im), len(body))
    if [c[0] for c in im] != ["byte"] * 8 + [c[0] for c in body] + ["byte"] * 8:
        return "%s is not header, payload, padding" % key
    for i in range(8):
        small = i and not is_int(n) and o.facts.decide(le0(lin_add(n, (1 << (8 * i)) - 1, -1))) is True
        if not same_byte(o, im[i][1], 0 if small else byte_of(n, i)) and not same_byte(o, im[i][1], byte_of(n, i)):
            return "byte %d of the size header of %s is %r, the payload has %r bytes" % (i, key, im[i][1], n)
    for a, b in zip(im[8:-8], body):
        if a[0] == "range":
            if a[1] is not b[1] or a[2] != 0 or not equal(o, a[3], b[3]):
                return "the payload of %s is %r, expected %r" % (key, a[1:], b[1:])
        elif not same_byte(o, a[1], b[1]):
            return "the payload of %s is %r, expected %r" % (key, [c[1] for c in im[8:-8]][:40], [c[1] for c in body][:40])
    if not all(is_int(c[1]) and c[1] == 0 for c in im[-8:]):
        return "the padding of %s is %r" % (key, [c[1] for c in im[-8:]])
    x = text_of(M, w, key + ".schema")
    if x != schema_text:
        return "%s is described by %r" % (key, x)
    for k in (key, key + ".schema"):
        if w.streams[k].ops[-1][0] != "flush":
            return "%s is not flushed at the end" % k
    return None


def byte_of(n, i):
    return (n >> (8 * i)) & 255 if is_int(n) else lin_mod(lin_floordiv(n, 1 << (8 * i)), 256)


def same_byte(o, a, b):
    if a is b:
        return True
    if isinstance(a, (T, int)) and isinstance(b, (T, int)):
        return equal(o, a, b)
    try:
        x, y = o.m.bits(a, 8), o.m.bits(b, 8)
    except Top:
        return equal(o, a, b)
    return x == y


def one_shot(M, mod, fn, form, sizes):
    s = text_object(M, "schema", SCHEMA + "\0")
    unit = {"wr_raw": 1, "wr_vec": sizes["S"], "wr_rng": sizes["R"], "wr_one": sizes["S"], "wr_sig": 0}[fn]
    if form == "any":
        n = lin_mul(bounded(M, "elements", 0, (1 << 40) // unit), unit)
    else:
        n = form * unit
    d = M.alloc("payload", n)
    d.content = lambda off: M.mk([bvar("d[%s].%d" % (off, i)) for i in range(8)])
    v = flag(M, M.call(fn, [M.world.dir(M, ""), P(s, 0), P(d, 0), n]))
    if is_int(n):
        return v, [M.load_byte(d, i) for i in range(n)]
    return v, ("range", d, n)


def failing(mod, scenario):
    """(what, World) of an undisturbed history and of every failure in it"""
    top = max(o.m.world.ops for o in explore_env(mod, Sink, scenario))
    for i in range(top + 1):
        yield "stream operation %d fails" % i, dict(fail=i)


def c04_body(r, w, t, turn):
    mod, sizes = program(w, t, WRITE + HELP + GROW % {"multi": multi_type()})
    for fn, forms in (("wr_raw", ("any", 0, 1, 7, 40)), ("wr_vec", ("any", 0, 1, 5)), ("wr_rng", ("any", 0, 1, 2, 4)), ("wr_one", (1,)), ("wr_sig", (0,))):
        for form in forms:
            if not turn():
                continue
            site = "%s of %s elements" % (fn, form)
            sc = lambda M: one_shot(M, mod, fn, form, sizes)

            def good(o):
                if o.value[0] is not True:
                    return False, "an undisturbed write fails"
                d = framing(o, o.m.world, "x", SCHEMA, o.value[1])
                if d is None and set(o.m.world.streams) != {"x", "x.schema"}:
                    d = "writes %s" % sorted(o.m.world.streams)
                return d is None, d

            def bad(o):
                if not any(l[0] in ("failed", "lost") for l in o.m.world.log) and not o.m.world.refuse:
                    return good(o)
                return o.value[0] is False, "a failed write is reported as success"
            with r.part(site):
                report(r, explore_env(mod, Sink, sc), "one-shot", site, good)
                n = 0
                for what, kw in failing(mod, sc):
                    report(r, explore_env(mod, lambda: Sink(**kw), sc), "one-shot-failure", "%s, %s" % (site, what), bad)
                    n += 1
                r.floor("stream operations of " + site, n, 4)
                for k in (("x",), ("x.schema",), ("x", "x.schema")):
                    report(r, explore_env(mod, lambda: Sink(refuse=k), sc), "one-shot-failure", "%s, %s refused" % (site, " and ".join(k)), bad)
    for kind in ("vs", "vt", "vr", "ms", "mk", "vbig", "mbig"):
        for hist in {"vbig": ("gggg", "ggggggg"), "mbig": ("g111g0", "g111g1g111g0")}.get(kind) or (("", "g", "gg", "ggg") if kind[0] == "v" else ("", "g", "g0", "g01", "g1g", "gg10")):
            if not turn():
                continue
            site = "%s: %s" % ({"v": "vector", "m": "multivector"}[kind[0]] + " " + kind, hist or "nothing")
            sc = lambda M: history(M, kind, hist + "c", sizes)
            ok = lambda o: finished(o, kind, hist, sizes)

            def bad(o):
                if not any(l[0] in ("failed", "lost") for l in o.m.world.log) and not o.m.world.refuse:
                    return ok(o)
                return o.value["closed"][0] is False, "closing an incremental writer whose stream failed yields data"
            with r.part(site):
                report(r, explore_env(mod, Sink, sc), "incremental", site, ok)
                n = 0
                for what, kw in failing(mod, sc):
                    report(r, explore_env(mod, lambda: Sink(**kw), sc), "incremental-failure", "%s, %s" % (site, what), bad)
                    n += 1
                r.floor("stream operations of " + site, n, 6)
                keys = ["x", "x.schema"] + (["x_index", "x_index.schema"] if kind[0] == "m" else [])
                for k in [(k,) for k in keys] + [tuple(keys)]:
                    report(r, explore_env(mod, lambda: Sink(refuse=k), sc), "incremental-failure", "%s, %s refused" % (site, " and ".join(k)), bad)


# ------------------------------------------------------------------------------------------------------------------ C08

TYPES = {"vs": "S", "vt": "T", "vr": "R", "vbig": "B", "ms": "STU", "mk": "TS", "mbig": "TB"}
INDEX = {"ms": (9, 2), "mk": (33, 5), "mbig": (33, 5)}


class Pattern:
    """content of element number `i`"""

    def __init__(self, i, n):
        self.i, self.n, self.stale = i, n, None

    def byte(self, off):
        return (17 * self.i + off * 7 + off // 251) % 255 + 1

    def put(self, M, p):
        if self.n:
            M.access(p, self.n, "write of an element to")
        off = int(p.off)
        for k in range(self.n) if self.n < 64 else sorted({0, 1, 7, 8, 9, 31, 32, 33, self.n // 2, self.n - 9, self.n - 8, self.n - 1}):
            b = M.load_byte(p.o, off + k)
            if not (is_int(b) and b == 0):
                self.stale = "byte %d of a new element is %r" % (k, b)
        if self.n > 512:
            M.clear(p.o, off, self.n)
            p.o.fills.append((off, off + self.n, lambda x: self.byte(x - off)))
            return
        for k in range(self.n):
            M.put(p.o, off + k, 1, self.byte(k))


def history(M, kind, ops, sizes):
    """g: grow, 0/1: add an element of that type, c: close, m: move; -> what is visible"""
    size = dict(sizes, B=BIG)
    s = text_object(M, "schema", SCHEMA + "\0")
    env = P(M.alloc("storage object", M.call("env_size", [])), 0)
    M.call("env_make", [env, M.world.dir(M, "")])
    v = P(M.alloc("writer", M.call(kind + "_size", [])), 0)
    M.call(kind + "_create", [v, env, P(s, 0)])
    out = {"data": [], "starts": [], "counts": [], "closed": None, "after": []}
    lst = P(M.alloc("list builder", M.call(kind + "_list_size", [])), 0) if kind[0] == "m" else None
    n = pos = 0

    def add(p, ty):
        q = Pattern(len(out["data"]), size[ty])
        q.put(M, p)
        out["data"].append(q)
        return q.n
    for op in ops:
        if op == "g" and kind[0] == "v":
            add(M.call(kind + "_grow", [v]), TYPES[kind])
            n += 1
            out["counts"].append((M.call(kind + "_count", [v]), flag(M, M.call(kind + "_empty", [v])), n))
        elif op == "g":
            M.call(kind + "_grow", [v, lst])
            out["starts"].append(pos)
        elif op in "012":
            p = M.call(kind + "_add" + op, [lst])
            out["data"].append(int(op))
            pos += 1 + add(p, TYPES[kind][int(op)])
        elif op == "m":
            u = P(M.alloc("moved writer", M.call(kind + "_size", [])), 0)
            M.call(kind + "_move", [u, v])
            v = u
        elif op == "c":
            res = P(M.alloc("results", 16), 0)
            c = flag(M, M.call(kind + "_close", [v, res, P(res.o, 8)]))
            c = (c, M.load(PTR, res), M.load(I64, P(res.o, 8)))
            if out["closed"] is None:
                out["closed"] = c
                out["end"], out["starts_end"] = len(out["data"]), len(out["starts"])
                out["streams"] = {k: len(x.ops) for k, x in M.world.streams.items()}
            else:
                out["after"].append(c)
    out["pos"] = pos
    return out


def expected_image(elements):
    """pieces (start, end, function of the offset within the payload)"""
    out, at = [], 0
    for e in elements:
        if isinstance(e, int):
            out.append((at, at + 1, lambda off, e=e: e))
            at += 1
        else:
            out.append((at, at + e.n, lambda off, e=e, a=at: e.byte(off - a)))
            at += e.n
    return out, at


def chunks(s):
    """stream as pieces [(start, end, reader)] after seeks; None if not expressible"""
    out, end, pos = [], 0, None
    for op in s.ops:
        if op[0] == "seek":
            pos = op[1]
        elif op[0] in ("bytes", "piece"):
            at = end if pos is None else pos
            if not is_int(at):
                return None, None
            n = len(op[1]) if op[0] == "bytes" else op[2]
            out.append((at, at + n, (lambda off, b=op[1], a=at: b[off - a]) if op[0] == "bytes" else (lambda off, f=op[1], a=at: f(off - a)), op[3] if op[0] == "piece" else ()))
            if pos is not None:
                pos = at + n
            end = max(end, at + n)
        elif op[0] == "range":
            return None, None
    return out, end


def written(o, s, want, size):
    """difference of a stream to size header + pieces + padding"""
    got, end = chunks(s)
    if got is None:
        return "%s is not written in a known order" % s.path
    if end != size + 16:
        return "%s has %s bytes, expected %d + header and padding" % (s.path, end, size)
    pieces = [(0, 8, lambda off: size >> (8 * off) & 255)] + [(8 + a, 8 + b, lambda off, f=f: f(off - 8)) for a, b, f in want] + [(8 + size, 16 + size, lambda off: 0)]
    # both are piecewise defined: equal if equal around every boundary and inside of every piece
    marks = set()
    for a, b, *_ in pieces + got:
        marks |= {a, a + 1, b - 1, b, (a + b) // 2}
    for a, b, f, inner in got:
        for k in inner:
            marks |= {a + k - 1, a + k, a + k + 1}
    small = end < 4096
    for off in range(end) if small else sorted(m for m in marks if 0 <= m < end):
        w = next(f for a, b, f in pieces if a <= off < b)(off)
        g = next((f for a, b, f, _ in reversed(got) if a <= off < b), None)
        g = g(off) if g else None
        if g is None or not (is_int(g) and is_int(w) and g == w or g is not UNDEF and same_byte(o, g, w)):
            return "byte %d of %s is %r, expected %r" % (off, s.path, g, w)
    return None


def finished(o, kind, hist, sizes):
    """a history that ends with close and was not disturbed"""
    v, w = o.value, o.m.world
    for got, empty, n in v["counts"]:
        if not equal(o, got, n) or empty is not (n == 0):
            return False, "size() is %r after %d elements" % (got, n)
    ok, ptr, n = v["closed"]
    if ok is not True:
        return False, "closing yields no data"
    elements = v["data"][:v["end"]]
    for e in elements:
        if isinstance(e, Pattern) and e.stale:
            return False, e.stale
    pieces, size = expected_image(elements)
    streams = {"x": (pieces, size, SCHEMA)}
    if kind[0] == "m":
        width, isize = INDEX[kind]
        starts = v["starts"][:v["starts_end"]]
        ix = b"".join((x % (1 << width)).to_bytes(isize, "little") for x in starts + [size])
        streams["x_index"] = ([(0, len(ix), lambda off: ix[off])], len(ix), "index(%s)" % SCHEMA)
    for k, (pc, sz, text) in streams.items():
        s = w.streams.get(k)
        if s is None or s.again:
            return False, "%s is not written, or twice" % k
        d = written(o, s, pc, sz)
        if d:
            return False, d
        if s.ops[-1][0] != "flush":
            return False, "%s is not flushed at the end" % k
        x = text_of(o.m, w, k + ".schema")
        if x != text:
            return False, "%s is described by %r" % (k, x)
    if set(w.streams) != set(streams) | {k + ".schema" for k in streams}:
        return False, "writes %s" % sorted(w.streams)
    # what closing returns is what the storage holds now
    if kind[0] == "v":
        f = w.objs["x"]
        if not (isinstance(ptr, P) and ptr.o is f and ptr.off == 8):
            return False, "closing returns data at %r" % (ptr,)
    if any(l[0] == "read" for l in w.log[:first_close(w)]):
        return False, "reads back before it has written"
    return True, ""


def first_close(w):
    for i, l in enumerate(w.log):
        if l[0] == "read":
            # everything written has to be flushed before
            last = max([j for j, x in enumerate(w.log) if x[0] in ("bytes", "piece", "seek") and x[1].split(".")[0] == l[1].split(".")[0]] or [0])
            return i if last < i else i + 1
    return 0


def c08(prop):
    return run_body(prop, "LLVM IR of ExternalVector and MultiVector is interpreted on histories of grow, add, move and close over recorded streams",
                    "All histories of up to 4 operations (vectors: 5), index widths 9 and 33, two element types; histories with elements of 12 MB that flush up to three times; "
                    "operations after close.", c08_body)


def words(alphabet, n):
    out = [""]
    for w in out:
        if len(w) < n:
            out += [w + a for a in alphabet]
    return out


def c08_body(r, w, t, turn):
    mod, sizes = program(w, t, HELP + GROW % {"multi": multi_type()})
    vectors = words("gm", 5)
    multis = [""] + ["g" + x for x in words("g01", 3)] + ["gmg01", "g0mg1", "mg0", "g0gmg1", "gg0011", "g01g10", "g010101g0"]
    big = ["g" * i for i in range(8)] + ["ggmgg", "mggggm"]
    mbig = ["g111", "g1g1g1g1", "g111g", "g111gg", "g111g0g1", "g011g0g11", "gg111gg", "g1111g0", "g111g1g111g0", "g11g1g", "g111mg0", "gg0g111g0g111g0"]
    for kind, hists in (("vs", vectors), ("vt", vectors), ("vr", vectors), ("ms", multis + ["g2", "g02g1", "g21g2", "g222", "gg2g0"]), ("mk", multis), ("vbig", big), ("mbig", mbig)):
        n = 0
        for hist in hists:
            for after in ("", "g", "gc", "c", "gg") if kind[0] == "v" else ("", "g", "g0", "g0c", "c", "01c"):
                if after[:1] in ("0", "1") and "g" not in hist:
                    continue
                if kind[1:] == "big" and after not in ("", "gc", "g0c"):
                    continue
                n += 1
                if not turn():
                    continue
                site = "%s: %s, close%s" % (kind, hist, after and ", " + after)
                with r.part(site):
                    def sc(M):
                        v = history(M, kind, hist + "c" + after, sizes)
                        v["streams_end"] = {k: len(x.ops) for k, x in M.world.streams.items()}
                        return v

                    def check(o):
                        if after:
                            if o.value["streams"] != o.value["streams_end"]:
                                return False, "writes after close"
                            if any(c[0] for c in o.value["after"]):
                                return False, "closing again yields data"
                        return finished(o, kind, hist, sizes)
                    report(r, explore_env(mod, Sink, sc), "after-close" if after else "history", site, check)
        r.floor("histories of " + kind, n, 20)


# ------------------------------------------------------------------------------------------------------------------ C09

VIEWS = r'''
#define EV( k, s ) env_event( k, reinterpret_cast< size_t >( ( s ).data( ) ) )
struct All { void operator( )( n::S s ) const { EV( 0, s ); } void operator( )( n::T s ) const { EV( 1, s ); } void operator( )( n::U s ) const { EV( 2, s ); } };
template < typename > struct view_args; template < typename I, typename... A > struct view_args< flatdata::MultiArrayView< I, A... > >
{ static flatdata::MultiArrayView< I, A... > make( const unsigned char* b, size_t n, const unsigned char* d ) { return flatdata::MultiArrayView< I, A... >( flatdata::ArrayView< I >( b, b + n ), d ); } };
#define ARGS const unsigned char* b, size_t n, const unsigned char* d, size_t i
#define MAKE( V ) V v = view_args< V >::make( b, n, d );
#define COMMON( NAME, V ) \
extern "C" size_t NAME##_count( ARGS ) { MAKE( V ) return v.size( ); } \
extern "C" bool NAME##_bool( ARGS ) { MAKE( V ) return static_cast< bool >( v ); } \
extern "C" void NAME##_all( ARGS ) { MAKE( V ) v.template for_each< n::S, n::T >( i, All( ) ); } \
extern "C" void NAME##_over( ARGS ) { MAKE( V ) v.for_each( i, flatdata::make_overload( [ & ]( n::S s ) { EV( 0, s ); }, [ & ]( n::T s ) { EV( 1, s ); } ) ); } \
extern "C" void NAME##_onlyS( ARGS ) { MAKE( V ) v.template for_each< n::S >( i, [ & ]( n::S s ) { EV( 0, s ); } ); } \
extern "C" void NAME##_onlyT( ARGS ) { MAKE( V ) v.for_each( i, flatdata::make_overload( [ & ]( n::T s ) { EV( 1, s ); } ) ); } \
extern "C" void NAME##_iterS( ARGS ) { MAKE( V ) for ( auto it = v.template iterator< n::S >( i ); it.valid( ); ++it ) { n::S s = *it; EV( 0, s ); } } \
extern "C" void NAME##_iterT( ARGS ) { MAKE( V ) for ( auto it = v.template iterator< n::T >( i ); it.valid( ); it++ ) { n::T s = *it; EV( 1, s ); } } \
extern "C" bool NAME##_none( ) { typename V::Iterator< n::S > it; return it.valid( ); } \
extern "C" bool NAME##_dflt( ) { V v; return static_cast< bool >( v ); }
typedef std::decay< decltype( std::declval< const n::A& >( ).m( ) ) >::type ViewM;
typedef std::decay< decltype( std::declval< const n::A& >( ).k( ) ) >::type ViewK;
COMMON( vm, ViewM ) COMMON( vk, ViewK )
extern "C" void vm_full( ARGS ) { MAKE( ViewM ) v.for_each( i, All( ) ); }
extern "C" void vk_full( ARGS ) { MAKE( ViewK ) v.for_each( i, All( ) ); }
extern "C" void vm_onlyU( ARGS ) { MAKE( ViewM ) v.template for_each< n::U >( i, [ & ]( n::U s ) { EV( 2, s ); } ); }
extern "C" void vm_iterU( ARGS ) { MAKE( ViewM ) for ( auto it = v.iterator< n::U >( i ); it.valid( ); it++ ) { n::U s = *it; EV( 2, s ); } }
template < int K > struct Many
{
    typedef Many AccessorType; typedef Many MutatorType; typedef const unsigned char* StreamType;
    const unsigned char* d;
    explicit Many( const unsigned char* x ) : d( x ) { }
    const unsigned char* data( ) const { return d; }
    static constexpr size_t size_in_bytes( ) { return 1 + K % 3; }
};
struct Each { template < int K > void operator( )( Many< K > s ) const { EV( K, s ); } };
template < typename > struct wide_view; template < typename I, typename... A > struct wide_view< flatdata::MultiArrayView< I, A... > >
{ template < size_t... K > static flatdata::MultiArrayView< I, Many< K >... > make( std::index_sequence< K... > ); };
typedef decltype( wide_view< ViewM >::make( std::make_index_sequence< 256 >( ) ) ) ViewW;
extern "C" void vw_full( ARGS ) { MAKE( ViewW ) v.for_each( i, Each( ) ); }
#define WIDE( K ) extern "C" void vw_iter##K( ARGS ) { MAKE( ViewW ) for ( auto it = v.iterator< Many< K > >( i ); it.valid( ); it++ ) { Many< K > s = *it; EV( K, s ); } }
WIDE( 0 ) WIDE( 63 ) WIDE( 127 ) WIDE( 128 ) WIDE( 255 )
'''
TYPE_NO = {"S": 0, "T": 1, "U": 2}


def c09(prop):
    return run_body(prop, "LLVM IR of MultiArrayView::for_each and iterators is interpreted on buckets of every sequence of type tags with symbolic content",
                    "All buckets of up to 3 elements (three and two types), first, middle and last bucket of the index, positions near 0, at the limit of the index width and beyond "
                    "2^32, every undeclared tag, callbacks for all types, for one type and overload sets, iterators of every type.", c09_body)


def c09_body(r, w, t, turn):
    mod, sizes = program(w, t, HELP + VIEWS)
    for view, types, width, isize, bases in (("vm", "STU", 9, 2, (0, 300, 480)), ("vk", "TS", 33, 5, (0, (1 << 32) + 3, (1 << 33) - 40))):
        probes = [("_full", "STU"), ("_all", "STU"), ("_over", "ST"), ("_onlyS", "S"), ("_onlyT", "T"), ("_iterS", "S"), ("_iterT", "T")] + ([("_onlyU", "U"), ("_iterU", "U")] if view == "vm" else [])
        n = 0
        for tags in words("012"[:len(types)], 3):
            if not turn():
                continue
            n += 1
            tags = [int(x) for x in tags]
            for base in bases:
                for before, after in ((0, 0), (1, 2), (2, 0)):
                    site = "%s: tags %s at %d, bucket %d of %d" % (view, tags, base, before, before + after + 1)
                    with r.part(site):
                        bucket(r, mod, site, view, probes, types, sizes, tags, base, isize, before, after)
        if n:
            r.floor("buckets of " + view, n, 1)
        for tag in list(range(len(types), 256)):
            if not turn():
                continue
            with r.part("undeclared tag %d" % tag):
                for tags in ([tag], [0, tag], [tag, 1]):
                    bucket(r, mod, "%s: tags %s" % (view, tags), view, probes, types, sizes, tags, 5, isize, 1, 1)
        if turn():
            for fn in ("_none", "_dflt"):
                report(r, explore_env(mod, World, lambda M: flag(M, M.call(view + fn, []))), "empty", view + fn, lambda o: (o.value is False, "%r" % o.value))
    # every value a tag can have is that of a declared type
    n = 0
    for tag in range(256):
        if not turn():
            continue
        with r.part("256 types, tag %d" % tag):
            for tags in ([tag], [tag, 0], [255, tag]):
                n += 1
                wide(r, mod, "256 types: tags %s" % tags, tags)
    if n:
        r.floor("buckets of a view of 256 types", n, 1)


def wide(r, mod, site, tags):
    total = sum(2 + x % 3 for x in tags)

    def sc(M, fn):
        ix = M.alloc("index", 4 + 8)
        for i, b in enumerate((3).to_bytes(2, "little") + (3 + total).to_bytes(2, "little") + bytes(8)):
            ix.cells[i] = (1, b)
        d = M.alloc("data", 3 + total + 8)

        def payload(off):
            b = T("payload", (off,), "int")
            M.ranged(b, 8)
            return b
        d.content = payload
        at, want = 3, []
        for x in tags:
            d.cells[at] = (1, x)
            want.append((x, P(d, at + 1)))
            at += 2 + x % 3
        M.call(fn, [P(ix, 0), 4, P(d, 0), 0])
        return [l[1:] for l in M.world.log if l[0] == "event"], want
    for fn, only in [("vw_full", None)] + [("vw_iter%d" % k, k) for k in (0, 63, 127, 128, 255) if k in tags]:
        def check(o):
            got, want = o.value
            want = [x for x in want if only in (None, x[0])]
            return got == want, "%s visits %r, expected %r" % (fn, got, want)
        report(r, explore_env(mod, World, lambda M: sc(M, fn)), "visits", site, check)


def bucket(r, mod, site, view, probes, types, sizes, tags, base, isize, before, after):
    """one bucket between others"""
    length = sum(1 + sizes[types[x]] if x < len(types) else 4 for x in tags)
    pad = 1 + sizes[types[0]]
    starts = [max(0, base - pad) for _ in range(before)] + [base] + [base + length + i * pad for i in range(after + 1)]
    bad = any(x >= len(types) for x in tags)

    def build(M):
        ix = M.alloc("index", len(starts) * isize + 8)
        for i, b in enumerate(b"".join(x.to_bytes(isize, "little") for x in starts) + bytes(8)):
            ix.cells[i] = (1, b)
        d = M.alloc("data", starts[-1] + 8)

        def payload(off):
            b = T("payload", (off,), "int")
            M.ranged(b, 8)
            return b
        d.content = payload
        at, want = base, []
        for x in tags:
            d.cells[at] = (1, x)
            if x < len(types):
                want.append((TYPE_NO[types[x]], P(d, at + 1)))
                at += 1 + sizes[types[x]]
            else:
                at += 4
        return ix, d, want

    def sc(M, fn):
        ix, d, want = build(M)
        M.call(fn, [P(ix, 0), len(starts) * isize, P(d, 0), before])
        return [l[1:] for l in M.world.log if l[0] == "event"], want
    for suffix, seen in probes:
        def check(o):
            got, want = o.value
            want = [x for x in want if "STU"[x[0]] in seen]
            return got == want, "%s visits %r, expected %r" % (suffix, got, want)
        outs = explore_env(mod, World, lambda M: sc(M, view + suffix), until=None if bad else lambda o: o.kind != "return" or not check(o)[0])
        if bad:
            for o in outs:
                r.ok("undeclared", site, o.kind == "throw", "%s: an undeclared tag is accepted: %s %s" % (suffix, o.kind, o.value))
            continue
        report(r, outs, "visits", site, check)
    if bad:
        return

    def count(M):
        ix, d, want = build(M)
        a = [P(ix, 0), len(starts) * isize, P(d, 0), before]
        return M.call(view + "_count", a), flag(M, M.call(view + "_bool", a))
    report(r, explore_env(mod, World, count), "size", site, lambda o: (is_int(o.value[0]) and o.value[0] == len(starts) - 1 and o.value[1] is True, "%r" % (o.value,)))


# ------------------------------------------------------------------------------------------------------------------ C10

ARRAYS = r'''
#define ARGS const unsigned char* d, size_t n, size_t i, size_t j
#define RESULT const unsigned char** p, size_t* k, size_t* bytes
#define GIVE( X ) { auto r = X; *p = r.data( ); *k = r.size( ); *bytes = r.size_in_bytes( ); }
#define OF( T ) flatdata::ArrayView< T > v( d, d + n );
#define ARR( NAME, T ) \
extern "C" void NAME##_view( ARGS, RESULT ) { OF( T ) GIVE( v ) } \
extern "C" bool NAME##_empty( ARGS ) { OF( T ) return v.empty( ); } \
extern "C" bool NAME##_bool( ARGS ) { OF( T ) return static_cast< bool >( v ); } \
extern "C" void NAME##_slice( ARGS, RESULT ) { OF( T ) GIVE( v.slice( i, j ) ) } \
extern "C" void NAME##_range( ARGS, RESULT ) { OF( T ) GIVE( v.slice( std::make_pair( i, i + j ) ) ) } \
extern "C" void NAME##_before( ARGS, RESULT ) { OF( T ) GIVE( v.slice_before( i ) ) } \
extern "C" void NAME##_after( ARGS, RESULT ) { OF( T ) GIVE( v.slice_after( i ) ) } \
extern "C" void NAME##_skip( ARGS, RESULT ) { OF( T ) GIVE( v.skip( i ) ) } \
extern "C" void NAME##_skip_last( ARGS, RESULT ) { OF( T ) GIVE( v.skip_last( i ) ) } \
extern "C" const void* NAME##_at( ARGS ) { OF( T ) T x = v[ i ]; return x.data( ); } \
extern "C" const void* NAME##_front( ARGS ) { OF( T ) T x = v.front( ); return x.data( ); } \
extern "C" const void* NAME##_back( ARGS ) { OF( T ) T x = v.back( ); return x.data( ); } \
extern "C" const void* NAME##_begin( ARGS ) { OF( T ) T x = *v.begin( ); return x.data( ); } \
extern "C" const void* NAME##_arrow( ARGS ) { OF( T ) return v.begin( )->data( ); } \
extern "C" const void* NAME##_plus( ARGS ) { OF( T ) T x = *( v.begin( ) + i ); return x.data( ); } \
extern "C" const void* NAME##_minus( ARGS ) { OF( T ) T x = *( v.end( ) - ( static_cast< ptrdiff_t >( v.size( ) ) - static_cast< ptrdiff_t >( i ) ) ); return x.data( ); } \
extern "C" const void* NAME##_iat( ARGS ) { OF( T ) T x = v.begin( )[ i ]; return x.data( ); } \
extern "C" const void* NAME##_back_iat( ARGS ) { OF( T ) T x = v.end( )[ static_cast< ptrdiff_t >( i ) - static_cast< ptrdiff_t >( v.size( ) ) ]; return x.data( ); } \
extern "C" const void* NAME##_pluseq( ARGS ) { OF( T ) auto it = v.begin( ); it += i; it += j; it -= j; T x = *it; return x.data( ); } \
extern "C" const void* NAME##_inc( ARGS ) { OF( T ) auto it = v.begin( ) + i; ++it; auto jt = it--; ++it; auto kt = it++; --it; auto lt = --it; T x = *lt; \
    return jt == kt && jt == lt + 1 && jt - 1 == lt ? x.data( ) : nullptr; } \
extern "C" const void* NAME##_last( ARGS ) { OF( T ) auto it = v.end( ); --it; T x = *it; return x.data( ); } \
extern "C" size_t NAME##_dist( ARGS ) { OF( T ) return static_cast< size_t >( v.end( ) - v.begin( ) ); } \
extern "C" ptrdiff_t NAME##_back_dist( ARGS ) { OF( T ) return v.begin( ) - ( v.begin( ) + i ); } \
extern "C" bool NAME##_same( ARGS ) { OF( T ) return v.begin( ) + i == v.begin( ) + j; } \
extern "C" bool NAME##_differ( ARGS ) { OF( T ) return v.begin( ) + i != v.begin( ) + j; } \
extern "C" bool NAME##_lt( ARGS ) { OF( T ) return v.begin( ) + i < v.begin( ) + j; } \
extern "C" bool NAME##_le( ARGS ) { OF( T ) return v.begin( ) + i <= v.begin( ) + j; } \
extern "C" bool NAME##_gt( ARGS ) { OF( T ) return v.begin( ) + i > v.begin( ) + j; } \
extern "C" bool NAME##_ge( ARGS ) { OF( T ) return v.begin( ) + i >= v.begin( ) + j; }
ARR( as, n::S ) ARR( at, n::T ) ARR( au, n::U ) ARR( ar, n::R )
extern "C" void loop_s( ARGS ) { OF( n::S ) for ( n::S x : v ) env_event( 0, reinterpret_cast< size_t >( x.data( ) ) ); }
extern "C" void loop_r( ARGS ) { OF( n::R ) for ( n::R x : v ) env_event( 0, reinterpret_cast< size_t >( x.data( ) ) ); }
extern "C" void loop_t( ARGS ) { OF( n::T ) for ( auto it = v.begin( ); it != v.end( ); it++ ) env_event( 0, reinterpret_cast< size_t >( ( *it ).data( ) ) ); }
extern "C" bool dflt( ) { flatdata::ArrayView< n::R > v; return !v && v.size( ) == 0 && v.empty( ) && v.size_in_bytes( ) == 0 && v.begin( ) == v.end( ); }

#define BOX( NAME, T ) \
typedef flatdata::Vector< T > NAME##V; \
extern "C" size_t NAME##_size( ) { return sizeof( NAME##V ); } \
extern "C" void NAME##_make( void* o, size_t n ) { new ( o ) NAME##V( n ); } \
extern "C" void NAME##_default( void* o ) { new ( o ) NAME##V; } \
extern "C" void NAME##_copy( void* o, void* a ) { new ( o ) NAME##V( *static_cast< const NAME##V* >( a ) ); } \
extern "C" void NAME##_move( void* o, void* a ) { new ( o ) NAME##V( std::move( *static_cast< NAME##V* >( a ) ) ); } \
extern "C" unsigned char* NAME##_grow( void* o ) { T::MutatorType m = static_cast< NAME##V* >( o )->grow( ); return m.data( ); } \
extern "C" void NAME##_pop( void* o ) { static_cast< NAME##V* >( o )->pop_back( ); } \
extern "C" void NAME##_resize( void* o, size_t n ) { static_cast< NAME##V* >( o )->resize( n ); } \
extern "C" void NAME##_reserve( void* o, size_t n ) { static_cast< NAME##V* >( o )->reserve( n ); } \
extern "C" size_t NAME##_count( void* o ) { return static_cast< const NAME##V* >( o )->size( ); } \
extern "C" size_t NAME##_bytes( void* o ) { return static_cast< const NAME##V* >( o )->size_in_bytes( ); } \
extern "C" unsigned char* NAME##_data( void* o ) { return static_cast< NAME##V* >( o )->data( ); } \
extern "C" const unsigned char* NAME##_cdata( void* o ) { return static_cast< const NAME##V* >( o )->data( ); } \
extern "C" const unsigned char* NAME##_at( void* o, size_t i ) { T::MutatorType m = ( *static_cast< NAME##V* >( o ) )[ i ]; return m.data( ); } \
extern "C" const unsigned char* NAME##_cat( void* o, size_t i ) { T m = ( *static_cast< const NAME##V* >( o ) )[ i ]; return m.data( ); } \
extern "C" const unsigned char* NAME##_front( void* o ) { T::MutatorType m = static_cast< NAME##V* >( o )->front( ); return m.data( ); } \
extern "C" const unsigned char* NAME##_cfront( void* o ) { T m = static_cast< const NAME##V* >( o )->front( ); return m.data( ); } \
extern "C" const unsigned char* NAME##_back( void* o ) { T::MutatorType m = static_cast< NAME##V* >( o )->back( ); return m.data( ); } \
extern "C" const unsigned char* NAME##_cback( void* o ) { T m = static_cast< const NAME##V* >( o )->back( ); return m.data( ); } \
extern "C" void NAME##_view( void* o, const unsigned char** p, size_t* k, size_t* bytes ) { flatdata::ArrayView< T > r = *static_cast< const NAME##V* >( o ); *p = r.data( ); *k = r.size( ); *bytes = r.size_in_bytes( ); }
BOX( bs, n::S ) BOX( bt, n::T ) BOX( br, n::R )
'''


def c10(prop):
    return run_body(prop, "LLVM IR of ArrayView, its iterators and Vector is interpreted with symbolic payload sizes, positions and lengths",
                    "Views: payloads of any size up to 2^40 bytes, all positions, lengths and pairs of iterators; element sizes 1, 2 (ranged), 3 and 5. Vectors: all histories of up to "
                    "4 construct, grow, pop_back, resize, reserve, copy and move operations.", c10_body)


def three(M, fn, args):
    out = P(M.alloc("results", 24), 0)
    M.call(fn, args + [out, P(out.o, 8), P(out.o, 16)])
    return M.load(PTR, out), M.load(I64, P(out.o, 8)), M.load(I64, P(out.o, 16))


def c10_body(r, w, t, turn):
    mod, sizes = program(w, t, ARRAYS)
    for name, ty in (("as", "S"), ("at", "T"), ("au", "U"), ("ar", "R")):
        e, ranged = sizes[ty], ty == "R"
        for fn in ("view", "empty", "bool", "slice", "range", "before", "after", "skip", "skip_last", "at", "front", "back", "begin", "arrow", "plus", "minus", "iat", "back_iat", "pluseq",
                   "inc", "last", "dist", "back_dist", "same", "differ", "lt", "le", "gt", "ge"):
            if turn():
                for rest in range(e):
                    site = "%s of ArrayView< %s >%s" % (fn, ty, " with %d more bytes" % rest if rest else "")
                    with r.part(site):
                        view_op(r, mod, name + "_" + fn, fn, site, e, ranged, rest)
    for fn, ty in (("loop_s", "S"), ("loop_t", "T"), ("loop_r", "R")):
        for n in range(6):
            if turn():
                def sc(M):
                    d = M.alloc("data", n * sizes[ty] + 8)
                    M.call(fn, [P(d, 0), n * sizes[ty], 0, 0])
                    return [l[2] for l in M.world.log if l[0] == "event"], [P(d, i * sizes[ty]) for i in range(max(0, n - 1) if ty == "R" else n)]
                report(r, explore_env(mod, World, sc), "iteration", "%s over %d" % (fn, n), lambda o: (o.value[0] == o.value[1], "visits %r" % (o.value[0],)))
    if turn():
        report(r, explore_env(mod, World, lambda M: flag(M, M.call("dflt", []))), "default-view", "ArrayView< R >", lambda o: (o.value is True, "is not empty"))
    for name, ty in (("bs", "S"), ("bt", "T"), ("br", "R")):
        n = 0
        for start in ("0", "1", "2", "3", "d"):
            for hist in words("gpR0135cmV", 3):
                if not turn():
                    continue
                n += 1
                site = "Vector< %s >: %s %s" % (ty, start, hist)
                with r.part(site):
                    vector(r, mod, name, ty, sizes[ty], start, hist, site)
        r.floor("histories of Vector< %s >" % ty, n, 100)


def view_op(r, mod, fn, op, site, e, ranged, rest):
    """symbolic payload of elements and less than one more (rest), and positions i, j that are legal for the operation"""
    def sc(M):
        stored = k = bounded(M, "elements", 0, STRUCT_FREE)
        n = lin_add(lin_mul(k, e), rest)
        d = M.alloc("data", lin_add(n, 8))
        if ranged:
            if M.I.choose(le0(k)):
                k = 0
            else:
                k = lin_add(k, -1)
        i, j = bounded(M, "i", 0, STRUCT_FREE), bounded(M, "j", 0, STRUCT_FREE)
        assume = lambda a, b: M.I.facts.assume(le0(lin_add(a, b, -1)), True)       # a <= b
        need = {"slice": [(lin_add(i, j), k)], "range": [(lin_add(i, j), k)], "at": [(lin_add(i, 1), k)], "front": [(1, k)], "back": [(1, k)], "begin": [(1, k)], "arrow": [(1, k)],
                "plus": [(lin_add(i, 1), k)], "minus": [(lin_add(i, 1), k)], "iat": [(lin_add(i, 1), k)], "back_iat": [(lin_add(i, 1), k)],
                "pluseq": [(lin_add(lin_add(i, j), 1), k)], "inc": [(lin_add(i, 2), k)], "last": [(1, k)],
                "before": [(i, k)], "after": [(i, k)], "skip": [(i, k)], "skip_last": [(i, k)], "back_dist": [(i, k)]}.get(op, [(i, k), (j, k)])
        for a, b in need:
            c = le0(lin_add(a, b, -1))
            if M.known(c) is not True and not M.I.choose(c):
                raise PathCut("not a legal position")
        args = [P(d, 0), n, i, j]
        if op in ("view", "slice", "range", "before", "after", "skip", "skip_last"):
            if op != "view" and ranged and M.known(le0(k)) is True and M.known(le0(stored)) is not False:
                raise PathCut("nothing to slice")
            return three(M, fn, args), (d, n, k, stored, i, j)
        v = M.call(fn, args)
        if op in ("empty", "bool", "same", "differ", "lt", "le", "gt", "ge"):
            v = flag(M, v)
        return v, (d, n, k, stored, i, j)

    def check(o):
        v, (d, n, k, stored, i, j) = o.value
        at = {"at": i, "plus": i, "minus": i, "iat": i, "back_iat": i, "pluseq": i, "inc": i, "front": 0, "begin": 0, "arrow": 0, "back": lin_add(k, -1), "last": lin_add(k, -1)}
        if op in at:
            return isinstance(v, P) and v.o is d and equal(o, v.off, lin_mul(at[op], e)), "is %r, expected data + %r" % (v, lin_mul(at[op], e))
        if op == "dist":
            return equal(o, v, k), "is %r, expected %r" % (v, k)
        if op == "back_dist":
            return equal(o, o.m.signed(v, 64), lin_mul(i, -1)), "is %r, expected -i" % (v,)
        if op == "bool":
            return v is True, "is false"
        if op in ("empty", "same", "differ", "lt", "le", "gt", "ge"):
            le = lambda a, b: le0(lin_add(a, b, -1))
            c, neg = {"empty": (le0(k), False), "same": (eq_int(i, j), False), "differ": (eq_int(i, j), True), "lt": (le(j, i), True), "le": (le(i, j), False),
                      "gt": (le(i, j), True), "ge": (le(j, i), False)}[op]
            x = c if isinstance(c, bool) else o.facts.decide(c)
            return x is not None and v is (x is not neg), "is %r" % v
        first, count = {"view": (0, k), "slice": (i, j), "range": (i, j), "before": (0, i), "after": (i, lin_add(k, i, -1)), "skip": (i, lin_add(k, i, -1)), "skip_last": (0, lin_add(k, i, -1))}[op]
        p, c, b = v
        if not (isinstance(p, P) and p.o is d and equal(o, p.off, lin_mul(first, e))):
            return False, "starts at %r, expected data + %r" % (p, lin_mul(first, e))
        if not equal(o, c, count):
            return False, "has %r elements, expected %r" % (c, count)
        want = lin_mul(stored if op == "view" else lin_add(count, 1) if ranged else count, e)
        return equal(o, b, want), "has %r bytes, expected %r" % (b, want)
    outs = [o for o in explore_env(mod, World, sc) if o.kind != "cut"]
    if not outs:
        raise AnalysisBroken("no partition of %s" % site)
    report(r, outs, "view", site, check)


def vector(r, mod, name, ty, e, start, hist, site):
    def sc(M):
        v = P(M.alloc("vector", M.call(name + "_size", [])), 0)
        if start == "d":
            M.call(name + "_default", [v])
        else:
            M.call(name + "_make", [v, int(start)])
        model = [None] * (0 if start == "d" else int(start))
        serial = [0]

        def fill(i):
            p = M.call(name + "_at", [v, i])
            serial[0] += 1
            q = Pattern(serial[0], e)
            q.put(M, p)
            model[i] = q
        for i in range(len(model)):
            fill(i)
        for op in hist:
            if op == "g":
                p = M.call(name + "_grow", [v])
                model.append(None)
                if p != M.call(name + "_at", [v, len(model) - 1]):
                    return "grow() returns %r, which is not the last element" % (p,)
                fill(len(model) - 1)
            elif op == "p":
                if not model:
                    raise PathCut("nothing to remove")
                M.call(name + "_pop", [v])
                model.pop()
            elif op == "R":
                M.call(name + "_reserve", [v, 7])
            elif op == "V":
                M.call(name + "_reserve", [v, 0])
            elif op in "0135":
                k = int(op)
                old = len(model)
                M.call(name + "_resize", [v, k])
                model[:] = model[:k] + [None] * (k - old)
                for i in range(old, k):
                    fill(i)
            elif op in "cm":
                u = P(M.alloc("other vector", M.call(name + "_size", [])), 0)
                M.call(name + {"c": "_copy", "m": "_move"}[op], [u, v])
                v = u
            d = compare_vector(M, v, name, ty, e, model)
            if d:
                return "%s (after %s)" % (d, op)
        return compare_vector(M, v, name, ty, e, model)
    report(r, [o for o in explore_env(mod, World, sc) if o.kind != "cut"], "vector", site, lambda o: (o.value is None, o.value))


def compare_vector(M, v, name, ty, e, model):
    n = len(model)
    if M.call(name + "_count", [v]) != n:
        return "size() is %r, expected %d" % (M.call(name + "_count", [v]), n)
    if M.call(name + "_bytes", [v]) != n * e:
        return "size_in_bytes() is %r, expected %d" % (M.call(name + "_bytes", [v]), n * e)
    d = M.call(name + "_data", [v])
    if d != M.call(name + "_cdata", [v]):
        return "data() differs"
    M.access(d, n * e + 8, "read of elements and padding at")
    for i in range(n * e, n * e + 8):
        if M.load_byte(d.o, d.off + i) is UNDEF:
            return "the padding is not initialised"
    for i, q in enumerate(model):
        want = P(d.o, lin_add(d.off, i * e))
        for fn, args in (("_at", [v, i]), ("_cat", [v, i])) + ((("_front", [v]), ("_cfront", [v])) if i == 0 else ()) + ((("_back", [v]), ("_cback", [v])) if i == n - 1 else ()):
            p = M.call(name + fn, args)
            if p != want:
                return "%s of %d is %r, expected %r" % (fn, i, p, want)
        for k in range(e):
            if M.load_byte(d.o, d.off + i * e + k) != q.byte(k):
                return "element %d has lost its content" % i
    p, k, b = three(M, name + "_view", [v])
    if (n and p != d) or k != (max(0, n - 1) if ty == "R" else n) or b != n * e:
        return "its view has %r elements and %r bytes at %r" % (k, b, p)
    return None
