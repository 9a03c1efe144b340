"""R03: writing through the Rust storages."""
from . import par
from .chk_cpp_store import bounded, byte_of, equal, same_byte
from .chk_rust_archive import le8
from .dom import *
from .llvm import *
from .report import Report, AnalysisBroken
from .rustcrate import Crate
from .rustenv import *
from .rustlib import DEBUG, RELEASE

BIG = 1000003         # some of these are above the size at which growing vectors write what they have
HUGE = 34603008       # one of these
SCHEMA = "namespace n { structS }"


def struct(name, size, overlap, extra=""):
    return '''
#[repr(transparent)] #[derive(Debug)] pub struct %(n)s( [u8; %(s)d] );
impl Struct for %(n)s { unsafe fn create_unchecked() -> Self { %(n)s( [0; %(s)d] ) } const SIZE_IN_BYTES: usize = %(s)d; const IS_OVERLAPPING_WITH_NEXT: bool = %(o)s; }
''' % {"n": name, "s": size, "o": "true" if overlap else "false"} + extra


def index(name):
    return '''
impl flatdata::IndexStruct for %s {
    fn range( &self ) -> std::ops::Range< usize > { 0..0 }
    fn set_index( &mut self, v: usize ) { self.0[0] = v as u8; self.0[1] = ( v >> 8 ) as u8; self.0[2] = ( v >> 16 ) as u8; self.0[3] = ( v >> 24 ) as u8; self.0[4] = ( v >> 32 ) as u8; }
}
''' % name


def items(name, ix):
    return '''
#[derive(Clone)] pub struct %(n)s;
impl flatdata::VariadicIndex for %(n)s { type Index = %(i)s; }
impl< 'a > flatdata::VariadicStruct< 'a > for %(n)s {
    type Item = Item; fn create( _: flatdata::TypeIndex, d: &'a [u8] ) -> Item { Item }
    type ItemMut = &'a mut Vec< u8 >; fn create_mut( d: &'a mut Vec< u8 > ) -> Self::ItemMut { d }
}
''' % {"n": name, "i": ix}


VECTORS = {"Plain": (5, False), "Over": (5, True), "Big": (BIG, False), "BigOver": (BIG, True)}
MULTI = {"Items": "Ix", "ItemsBigIndex": "BigIx"}
TEXT = "".join(struct(n, s, o) for n, (s, o) in VECTORS.items())
TEXT += struct("Ix", 8, True, index("Ix")) + struct("BigIx", BIG, True, index("BigIx"))
TEXT += r'''
#[derive(Clone, Debug, PartialEq)] pub struct Item;
impl flatdata::VariadicRef for Item { fn size_in_bytes( &self ) -> usize { 0 } }
''' + "".join(items(n, i) for n, i in MULTI.items())
TEXT += r'''
// 200 + code: creating fails, 100 + code: an element cannot be added, code: closing
fn io_code( e: io::Error ) -> i32 { if e.kind() == io::ErrorKind::PermissionDenied { 11 } else { 10 } }
#[no_mangle] pub unsafe extern "C" fn once( s: usize, t: *const u8, tl: usize, d: *const u8, n: usize ) -> i32 {
    match ResourceStorage::write( &Env( s ), "x", text( t, tl ), std::slice::from_raw_parts( d, n ) ) { Ok( () ) => 0, Err( e ) => io_code( e ) }
}
#[no_mangle] pub unsafe extern "C" fn once_handle( s: usize, t: *const u8, tl: usize, d: *const u8, n: usize ) -> i32 {
    let e: StorageHandle = std::sync::Arc::new( Env( s ) );
    match e.write( "x", text( t, tl ), std::slice::from_raw_parts( d, n ) ) { Ok( () ) => 0, Err( e ) => io_code( e ) }
}
#[no_mangle] pub unsafe extern "C" fn archive( s: usize, t: *const u8, tl: usize ) -> i32 {
    let e: StorageHandle = std::sync::Arc::new( Env( s ) );
    match flatdata::create_archive( "A", text( t, tl ), &e ) { Ok( () ) => 0, Err( e ) => code( e ) }
}
'''
for _n in VECTORS:
    TEXT += r'''
#[no_mangle] pub unsafe extern "C" fn vec_%(n)s( s: usize, t: *const u8, tl: usize, d: *const u8, k: usize, again: usize ) -> i32 {
    let e = Env( s );
    let mut v = match flatdata::create_external_vector::< %(n)s >( &e, "x", text( t, tl ) ) { Ok( v ) => v, Err( e ) => return 200 + io_code( e ) };
    let mut i = 0; let mut tries = 0;
    if v.len() != 0 || !v.is_empty() { return 90; }
    while i < k {
        match v.grow() {
            Ok( x ) => { std::ptr::copy_nonoverlapping( d.add( 5 * i ), x.0.as_mut_ptr(), 5 ); i += 1; }
            Err( e ) => { if tries == again { return 100 + io_code( e ) } tries += 1; }
        }
        if v.len() != i || v.is_empty() != ( i == 0 ) { return 91; }
    }
    match v.close() { Ok( m ) => { show( 1, std::slice::from_raw_parts( m.as_ptr() as *const u8, m.len() ) ); 0 } Err( e ) => code( e ) }
}
''' % {"n": _n}
for _n in MULTI:
    TEXT += r'''
#[no_mangle] pub unsafe extern "C" fn multi_%(n)s( s: usize, t: *const u8, tl: usize, d: *const u8, sizes: *const usize, k: usize, again: usize ) -> i32 {
    let e = Env( s );
    let mut v = match flatdata::create_multi_vector::< %(n)s >( &e, "x", text( t, tl ) ) { Ok( v ) => v, Err( e ) => return 200 + io_code( e ) };
    let mut i = 0; let mut tries = 0;
    while i < k {
        match v.grow() {
            Ok( x ) => {
                let n = *sizes.add( i );
                if n > 100 { x.resize( x.len() + n, 65 + i as u8 ); } else { x.extend_from_slice( std::slice::from_raw_parts( d.add( 8 * i ), n ) ); }
                i += 1;
            }
            Err( e ) => { if tries == again { return 100 + io_code( e ) } tries += 1; }
        }
    }
    match v.close() { Ok( m ) => { number( 1, m.len() ); 0 } Err( e ) => code( e ) }
}
''' % {"n": _n}


class Target(Env):
    """a storage that keeps what is written to it"""
    def __init__(self, there=(), fail=()):
        Env.__init__(self, {k: True for k in there}, fail)
        self.number("")

    def object(self, M, path):
        s = self.streams.get(path)
        if s is None:
            return None
        im = s.image()
        if im is None:
            return None
        n = sum(1 if c[0] == "byte" else int(c[3]) for c in im)
        o = self.objs[path] = M.alloc("file:" + path, n)
        at = 0
        for c in im:
            if c[0] == "byte":
                o.cells[at] = (1, c[1])
                at += 1
            else:
                M.memcpy(P(o, at), P(c[1], c[2]), int(c[3]))
                at += int(c[3])
        return o, n

    def written(self, M, p, n):
        """what is written, as it is now"""
        if not is_int(n):
            return p.o, p.off
        o = M.alloc("written", int(n))
        M.memcpy(P(o, 0), p, int(n))
        return o, 0


def same(M, a, b):
    if is_int(a) and is_int(b):
        return int(a) == int(b)
    if a is UNDEF or b is UNDEF:
        return False
    return all(x == y for x, y in zip(M.bits(a, 8), M.bits(b, 8)))


def differs(M, w, path, parts):
    """the file is not: size, the parts (("bytes", values) or ("fill", value, size)), padding"""
    total = sum(len(p[1]) if p[0] == "bytes" else p[2] for p in parts)
    r = w.object(M, path)
    if r is None:
        return "%s is not written, or not in a way that is understood" % path
    o, n = r
    if n != total + 16:
        return "%s has %s bytes, expected %d" % (path, n, total + 16)
    at = 0
    for p in [("bytes", le8(total))] + parts + [("bytes", [0] * 8)]:
        if p[0] == "bytes":
            want = [(at + i, v) for i, v in enumerate(p[1])]
            at += len(p[1])
        else:
            want = [(at + i, p[1]) for i in sorted({0, 1, 7, p[2] // 2, p[2] - 2, p[2] - 1}) if 0 <= i < p[2]]
            at += p[2]
        for i, v in want:
            got = M.load_byte(o, i)
            if not same(M, got, v):
                return "byte %d of %s is %s, expected %s" % (i, path, got, v)
    return None


def described(M, w, path, text):
    r = w.object(M, path + ".schema")
    got = None if r is None else [M.load_byte(r[0], i) for i in range(r[1])]
    if got is None or len(got) != len(text) or not all(is_int(b) and int(b) == c for b, c in zip(got, text.encode())):
        return "%s.schema contains %r" % (path, got if got is None else bytes(int(b) for b in got if is_int(b))[:80])
    return None


def payload(M, n):
    o = M.alloc("payload", n)
    o.content = lambda off: M.mk([bvar("m.%d" % (8 * off + i)) for i in range(8)])
    return o


def elements(M, o, n, size, ks):
    """what ks elements of this size with 5 bytes of the payload each look like"""
    out = []
    for i in ks:
        out.append(("bytes", [M.load_byte(o, 5 * i + j) for j in range(5)]))
        if size > 5:
            out.append(("fill", 0, size - 5))
    return out


def r03(prop):
    r = Report(prop, "abstract interpretation of the LLVM IR of flatdata-rs over a storage that keeps what is written: files byte for byte for unknown payloads, every operation "
               "of a stream failing in turn; release and debug code",
               "One-shot writes of 0 to 100 bytes and of every size up to 2^40; vectors of 0 to 4 elements, and of up to 70 of 1 MB, which are written before they are closed; multivectors of 0 to 6 "
               "items of 0 to 33 MiB; every stream operation failing, once or for good")

    def part(r, turn):
        w = Crate()
        try:
            for flags, mode in ((RELEASE, ""), (DEBUG, " (debug)")):
                mod = module_of(w, TEXT, "the probes", flags)
                one_shot(r, mod, mode, turn)
                for n in VECTORS:
                    vectors(r, mod, mode, n, turn)
                for n in MULTI:
                    multis(r, mod, mode, n, turn)
        except Top as ex:
            raise AnalysisBroken(str(ex))
        finally:
            w.close()
    for e in par.spread(r, part):
        pass
    r.floor("obligations", r.obligations, 1500)
    return r.finish()


class Case:
    def __init__(self, r, mod, what):
        self.r, self.mod, self.what = r, mod, what

    def run(self, rule, title, scen, good, there=(), fail=()):
        """number of stream operations if nothing failed; good(outcome, world) is what is wrong, or None"""
        n = 0
        def go(M, w):
            M.loop_bound = 1000
            return scen(M, w)
        for o in run_world(self.mod, self.mod.std, lambda M: Target(there, fail), go):
            if o.kind == "cut":
                raise AnalysisBroken("%s %s: %s" % (self.what, title, o.value))
            w = o.m.world
            d = "%s: %s" % (o.kind, o.value) if o.kind != "return" else good(o, w)
            self.r.ok(rule, "%s %s" % (self.what, title), not d, d or "")
            n = max(n, w.ops)
        return n


def failing(c, scen, good, n, retry, recovered, title):
    """each of n operations failing: reported, and what a second attempt leaves behind is right or reported"""
    for i in range(n):
        c.run("failure", "%s, operation %d of %d fails" % (title, i + 1, n), lambda M, w: scen(M, w, 0),
              lambda o, w: None if int(o.value) % 100 == 11 else "a failed operation is reported as %s" % CODES.get(int(o.value), o.value), fail={i: 2})
        c.run("failure", "%s, all operations from %d of %d on fail" % (title, i + 1, n), lambda M, w: scen(M, w, 0),
              lambda o, w: None if int(o.value) % 100 == 11 else "failed operations are reported as %s" % CODES.get(int(o.value), o.value), fail={j: 2 for j in range(i, n + 9)})
        if retry:
            c.run("failure", "%s, operation %d of %d fails and is tried again" % (title, i + 1, n), lambda M, w: scen(M, w, 1),
                  lambda o, w: recovered(o, w) if o.value == 0 else None if int(o.value) % 100 == 11 else "a failed operation is reported as %s" % CODES.get(int(o.value), o.value), fail={i: 2})


def one_shot(r, mod, mode, turn):
    for fn in ("once", "once_handle"):
        c = Case(r, mod, fn + mode)
        for n in (0, 1, 8, 100):
            if not turn():
                continue
            scen = lambda M, w, again=0: M.call(fn, [0] + rust_text(M, SCHEMA) + [P(setattr_(w, "given", payload(M, max(n, 1))), 0), n])

            def good(o, w):
                if o.value != 0:
                    return CODES.get(o.value, o.value)
                return differs(o.m, w, "x", [("bytes", [o.m.load_byte(w.given, i) for i in range(n)])]) or described(o.m, w, "x", SCHEMA) \
                    or (None if set(w.streams) == {"x", "x.schema"} else "writes %s" % sorted(w.streams))
            k = c.run("written", "%d bytes" % n, scen, good)
            failing(c, scen, good, k, False, None, "%d bytes" % n)
        if turn():
            def sized(M, w):
                w.given = M.alloc("payload", n)
                w.given.content = lambda off: (off * 7 + 1) % 251
                return M.call(fn, [0] + rust_text(M, SCHEMA) + [P(w.given, 0), n])

            def good_sized(o, w):
                if o.value != 0:
                    return CODES.get(o.value, o.value)
                x, k = w.object(o.m, "x")
                if k != n + 16:
                    return "%s bytes are written" % k
                want = dict(enumerate(le8(n)))
                want.update({8 + i: (i * 7 + 1) % 251 for i in (0, 1, 2, n // 2, n - 2, n - 1)})
                want.update({8 + n + i: 0 for i in range(8)})
                bad = [i for i, v in want.items() if not same(o.m, o.m.load_byte(x, i), v)]
                return "byte %d is %r" % (bad[0], o.m.load_byte(x, bad[0])) if bad else None

            def scen(M, w):
                size = w.size = bounded(M, "size", 1, 1 << 40)
                w.given = M.alloc("payload", size)
                return M.call(fn, [0] + rust_text(M, SCHEMA) + [P(w.given, 0), size])

            def good(o, w):
                if o.value != 0:
                    return CODES.get(o.value, o.value)
                im = w.streams["x"].image()
                if im is None or len(im) != 17 or im[8][:3] != ("range", w.given, 0) or not equal(o, im[8][3], w.size):
                    return "writes %r" % ([x[0] for x in im or ()][:20],)
                for i, x in enumerate(im[:8]):
                    small = i and o.facts.decide(le0(lin_add(w.size, (1 << (8 * i)) - 1, -1))) is True
                    if not same_byte(o, x[1], 0 if small else byte_of(w.size, i)) and not same_byte(o, x[1], byte_of(w.size, i)):
                        return "byte %d of the size header is %r" % (i, x[1])
                return None if all(x == ("byte", 0) for x in im[9:]) else "the padding is %r" % (im[9:],)
            try:
                c.run("written", "1 to 2^40 bytes", scen, good)
            except (AnalysisBroken, Unsupp, Top):
                # sizes cannot be unknown where the bytes are copied
                for n in (4095, 4097, 70000):
                    c.run("written", "%d bytes" % n, sized, good_sized)
    if turn():
        c = Case(r, mod, "create_archive" + mode)
        scen = lambda M, w, again=0: M.call("archive", [0] + rust_text(M, SCHEMA))

        def good(o, w):
            if o.value != 0:
                return CODES.get(o.value, o.value)
            return differs(o.m, w, "A.archive", []) or described(o.m, w, "A.archive", SCHEMA) or (None if set(w.streams) == {"A.archive", "A.archive.schema"} else "writes %s" % sorted(w.streams))
        k = c.run("written", "", scen, good)
        failing(c, scen, good, k, False, None, "")
        c.run("exists", "over an archive of the name", scen, lambda o, w: None if o.value == 12 and not w.streams else "%s, writes %s" % (CODES.get(o.value, o.value), sorted(w.streams)), there=["A.archive"])


def setattr_(o, k, v):
    setattr(o, k, v)
    return v


def vectors(r, mod, mode, n, turn):
    size, over = VECTORS[n]
    c = Case(r, mod, "external vector of %s%s" % (n, mode))
    for k in range(5) if size < 100 else (0, 1, 2, 33, 34, 35, 36, 70):
        if not turn():
            continue

        def scen(M, w, again=0):
            o = w.given = payload(M, 640)
            return M.call("vec_" + n, [0] + rust_text(M, SCHEMA) + [P(o, 0), k, again])

        def good(o, w):
            if o.value != 0:
                return "%s" % CODES.get(o.value, o.value)
            M = o.m
            parts = elements(M, w.given, k, size, range(k))
            if over and not k:
                parts = [("bytes", [0] * size)] if size < 100 else [("fill", 0, size)]
            d = differs(M, w, "x", parts) or described(M, w, "x", SCHEMA)
            if d:
                return d
            ev = [e for e in w.log if e[0] == "event"]
            n_view = max(k - 1, 0) if over else k
            if len(ev) != 1 or ev[0][3] != n_view:
                return "the returned view has %s elements, expected %d" % (ev and ev[0][3], n_view)
            if n_view and not (isinstance(ev[0][2], P) and ev[0][2].o.name.startswith("file:x#") and ev[0][2].off == 8):
                return "the returned view is at %r" % (ev[0][2],)
            return None if set(w.streams) == {"x", "x.schema"} else "writes %s" % sorted(w.streams)
        ops = c.run("written", "of %d elements" % k, scen, good)
        if k < 5 or k in (35, 70):
            failing(c, scen, good, ops, True, good, "of %d elements" % k)


CASES = [(), (0,), (3,), (0, 8), (4, 0, 7), (HUGE,), (HUGE, 5), (2, HUGE, HUGE), (HUGE, 0, 3), (HUGE, HUGE, 3), (HUGE, HUGE, HUGE, 1), (1, 2, 3, 4, 5, 6)]


def multis(r, mod, mode, n, turn):
    c = Case(r, mod, "multivector %s%s" % (n, mode))
    isize = BIG if "Big" in n else 8
    for sizes in CASES:
        if not turn():
            continue
        if "Big" in n:
            if len(sizes) > 3 or len(sizes) > 2 and HUGE in sizes:
                continue
            sizes = sizes + (0,) * 70

        def scen(M, w, again=0):
            o = w.given = payload(M, 640)
            a = M.alloc("sizes", 8 * max(1, len(sizes)))
            for i, s in enumerate(sizes):
                M.store(I64, s, P(a, 8 * i))
            return M.call("multi_" + n, [0] + rust_text(M, SCHEMA) + [P(o, 0), P(a, 0), len(sizes), again])

        def good(o, w):
            if o.value != 0:
                return "%s" % CODES.get(o.value, o.value)
            M = o.m
            parts = [("bytes", [M.load_byte(w.given, 8 * i + j) for j in range(s)]) if s <= 100 else ("fill", 65 + i, s) for i, s in enumerate(sizes)]
            ends = [sum(sizes[:i]) for i in range(len(sizes) + 1)]
            ix = []
            for e in ends:
                ix.append(("bytes", le8(e)[:5]))
                ix.append(("fill", 0, isize - 5))
            d = differs(M, w, "x", parts) or described(M, w, "x", SCHEMA) or differs(M, w, "x_index", ix) or described(M, w, "x_index", "index(%s)" % SCHEMA)
            if d:
                return d
            ev = [e for e in w.log if e[0] == "event"]
            if len(ev) != 1 or ev[0][3] != len(sizes):
                return "the returned view has %s items, expected %d" % (ev and ev[0][3], len(sizes))
            return None if len(w.streams) == 4 else "writes %s" % sorted(w.streams)
        title = "of items of %s%s bytes" % (", ".join(map(str, sizes[:4])), ", ..." if len(sizes) > 4 else "")
        ops = c.run("written", title, scen, good)
        failing(c, scen, good, ops, True, good, title)
