"""R05: the containers and views of flatdata-rs in memory."""
import itertools

from . import par
from .chk_rust_archive import le8
from .chk_rust_write import Case as WriteCase, same, struct
from .dom import *
from .llvm import *
from .report import Report, AnalysisBroken
from .rustcrate import Crate
from .rustenv import *
from .rustlib import DEBUG, RELEASE

VECTORS = {"Plain": (5, False), "Over": (5, True), "One": (1, False), "OneOver": (1, True), "Wide": (24, False)}
SIZES = (3, 5, 0)       # of the types a multivector holds
IW = 5                  # bytes of an index element

TEXT = "use flatdata::Vector;\n"
for _n, (_s, _o) in VECTORS.items():
    TEXT += struct(_n, _s, _o, "%s for %s {}\n" % ("impl flatdata::Overlap" if _o else "unsafe impl flatdata::NoOverlap", _n))
    TEXT += r'''
#[no_mangle] pub unsafe extern "C" fn slice_%(n)s( d: *const u8, n: usize ) -> i32 {
    match < &[ %(n)s ] >::from_bytes( std::slice::from_raw_parts( d, n ) ) {
        Ok( v ) => { env_event( 1, v.as_ptr() as *const u8, v.len() ); show( 2, v.as_bytes() ); 0 }
        Err( e ) => code( e ),
    }
}
unsafe fn tell_%(n)s( v: &Vector< %(n)s > ) {
    env_event( 1, v.as_view().as_ptr() as *const u8, v.as_view().len() );
    show( 2, v.as_view().as_bytes() );
    env_event( 3, v.as_ptr() as *const u8, v.len() );
}
// how: 0 new, 1 default, 2 with_len; then k elements are added, `at` becomes cleared before that element, `room` is reserved before that element
#[no_mangle] pub unsafe extern "C" fn vector_%(n)s( how: i32, n: usize, d: *const u8, k: usize, at: usize, room: usize ) {
    let mut v: Vector< %(n)s > = match how { 0 => Vector::new(), 1 => Default::default(), _ => Vector::with_len( n ) };
    tell_%(n)s( &v );
    let mut i = 0;
    while i < k {
        if i == at { v.clear(); tell_%(n)s( &v ); }
        if i == room { v.reserve( 10 ); tell_%(n)s( &v ); }
        let x = v.grow();
        env_event( 4, x.0.as_ptr(), x.0.len() );
        std::ptr::copy_nonoverlapping( d.add( %(s)d * i ), x.0.as_mut_ptr(), %(s)d );
        i += 1;
        tell_%(n)s( &v );
    }
}
// an element is written through an index, another read
#[no_mangle] pub unsafe extern "C" fn index_%(n)s( n: usize, d: *const u8, i: usize, j: usize, kind: i32 ) {
    let mut v: Vector< %(n)s > = Vector::with_len( n );
    if kind != 1 { std::ptr::copy_nonoverlapping( d, v[i].0.as_mut_ptr(), %(s)d ); }
    if kind != 2 { env_event( 5, v[j].0.as_ptr(), %(s)d ); }
    tell_%(n)s( &v );
}
''' % {"n": _n, "s": _s}
TEXT += struct("Ix", IW, True, r'''
impl flatdata::IndexStruct for Ix {
    fn range( &self ) -> std::ops::Range< usize > { unsafe {
        let p = self as *const Ix as *const u8;
        ( *p.add( 0 ) as usize | ( *p.add( 1 ) as usize ) << 8 )..( *p.add( 5 ) as usize | ( *p.add( 6 ) as usize ) << 8 )
    } }
    fn set_index( &mut self, v: usize ) { self.0[0] = v as u8; self.0[1] = ( v >> 8 ) as u8; }
}
#[derive(Clone, Debug, PartialEq)] pub struct Item( usize );
impl flatdata::VariadicRef for Item { fn size_in_bytes( &self ) -> usize { self.0 } }
#[derive(Clone)] pub struct Items;
impl flatdata::VariadicIndex for Items { type Index = Ix; }
impl< 'a > flatdata::VariadicStruct< 'a > for Items {
    type Item = Item;
    fn create( t: flatdata::TypeIndex, d: &'a [u8] ) -> Item {
        unsafe { env_event( 10 + t as u64, d.as_ptr(), d.len() ); }
        Item( match t { 0 => 3, 1 => 5, _ => 0 } )
    }
    type ItemMut = &'a mut Vec< u8 >; fn create_mut( d: &'a mut Vec< u8 > ) -> Self::ItemMut { d }
}
unsafe fn view< 'a >( ix: *const u8, k: usize, d: *const u8, n: usize ) -> MultiArrayView< 'a, Items > {
    MultiArrayView::new( std::slice::from_raw_parts( ix as *const Ix, k ), std::slice::from_raw_parts( d, n ) )
}
unsafe fn drain( mut b: impl Iterator< Item = Item > ) {
    number( 1, 0 );
    while let Some( _ ) = b.next() { }
    if b.next().is_some() { number( 9, 0 ); }
}
#[no_mangle] pub unsafe extern "C" fn bucket( ix: *const u8, k: usize, d: *const u8, n: usize, i: usize ) {
    let v = view( ix, k, d, n );
    number( 2, v.len() ); number( 3, v.is_empty() as usize );
    drain( v.at( i ) );
    drain( v.clone().at( i ) );
}
// pattern: bit j set: the j-th step takes from the back
#[no_mangle] pub unsafe extern "C" fn walk( ix: *const u8, k: usize, d: *const u8, n: usize, kind: i32, a: usize, b: usize, pattern: usize ) {
    let v = view( ix, k, d, n );
    let v = match kind { 0 => v, 1 => v.slice( a..b ), 2 => v.slice( a..=b ), 3 => v.slice( a.. ), 4 => v.slice( ..b ), _ => v.slice( .. ).slice( a.. ).slice( ..b - a ) };
    number( 2, v.len() ); number( 3, v.is_empty() as usize );
    let mut it = if kind == 0 { v.into_iter() } else { v.iter() };
    let mut j = 0;
    loop {
        number( 4, it.len() ); number( 5, it.size_hint().0 );
        let x = if pattern >> j & 1 == 1 { it.next_back() } else { it.next() };
        j += 1;
        match x { Some( b ) => drain( b ), None => break }
    }
    if it.next().is_some() || it.next_back().is_some() { number( 9, 0 ); }
}
#[no_mangle] pub unsafe extern "C" fn raw( d: *const u8, n: usize, at: usize, kind: i32 ) -> i32 {
    let r = RawData::new( std::slice::from_raw_parts( d, n ) );
    match kind {
        0 => show( 1, r.substring_raw( at ) ),
        1 => show( 1, r.substring_unchecked( at ).as_bytes() ),
        2 => match r.substring( at ) { Ok( s ) => show( 1, s.as_bytes() ), Err( _ ) => return 3 },
        3 => { show( 1, r.as_bytes() ); show( 1, &r ); number( 2, r.len() ) }
        _ => match r.substring_lossy( at ) { std::borrow::Cow::Borrowed( s ) => show( 1, s.as_bytes() ), _ => return 4 },
    }
    0
}
''')


def event(M, name, a):
    """what is told is looked at now"""
    if hasattr(M.world, "shot"):
        M.world.shot(M, int(a[0]), a[1], a[2])
    else:
        m_env_event(M, name, a)


def lossy(M, name, a):
    """text is borrowed as it is"""
    out, p, n = a[0], a[1], a[2]
    for i in range(int(n)):
        b = M.load_byte(p.o, lin_add(p.off, i))
        if not is_int(b) or int(b) > 127:
            raise Unsupp("lossy conversion of bytes that are no text")
    M.store(I64, (1 << 64) - 1, out)        # no capacity: borrowed
    M.store(I64, p, P(out.o, lin_add(out.off, 8)))
    M.store(I64, n, P(out.o, lin_add(out.off, 16)))


class Case(WriteCase):
    def go(self, rule, title, scen, good, panics=False):
        """good(events, machine) is what is wrong, or None; or it panics"""
        def f(M, w):
            M.loop_bound = 2000
            return scen(M, w)
        outs = run_world(self.mod, self.mod.views, lambda M: Env(), f)
        for o in outs:
            if o.kind == "cut":
                raise AnalysisBroken("%s %s: %s" % (self.what, title, o.value))
            if panics:
                self.r.ok(rule, "%s %s" % (self.what, title), o.kind == "fault" and "panics" in str(o.value), "%s %s, expected to panic" % (o.kind, o.value))
                continue
            d = "%s: %s" % (o.kind, o.value) if o.kind != "return" else good(o.m.world, o)
            self.r.ok(rule, "%s %s" % (self.what, title), not d, d or "")


def r05(prop):
    r = Report(prop, "abstract interpretation of the LLVM IR of flatdata-rs and of probe functions using its containers: the address and length of everything handed out, "
               "as functions of the memory given; release and debug code",
               "Slices of any size; vectors of up to 40 elements of five kinds, cleared or reserved in between; raw data of every pattern of up to 4 terminators and other bytes, and longer ones; "
               "multivector views of 0 to 3 buckets, every way of slicing and of walking them from both ends, and damaged indexes and buckets")

    def part(r, turn):
        w = Crate()
        try:
            for flags, mode in ((RELEASE, ""), (DEBUG, " (debug)")):
                mod = module_of(w, TEXT, "the probes", flags)
                mod.views = dict(mod.std, env_event=[(None, event)])
                for n, f in mod.fns.items():
                    if "from_utf8_lossy" in n and f.body is None:
                        mod.views[n] = [(None, lossy)]
                for n in VECTORS:
                    slices(r, mod, mode, n, turn)
                    vectors(r, mod, mode, n, turn)
                raw_data(r, mod, mode, turn)
                buckets(r, mod, mode, turn)
        except Top as ex:
            raise AnalysisBroken(str(ex))
        finally:
            w.close()
    for e in par.spread(r, part):
        pass
    r.floor("obligations", r.obligations, 1500)
    return r.finish()


def events(w):
    return [e[1:] for e in w.log if e[0] == "event"]


def at(o, p, obj, off):
    """the pointer is into this object at this offset"""
    if not isinstance(p, P) or p.o is not obj:
        return False
    return p.off == off or o.m.known(eq_int(p.off, off)) is True


def number_is(o, a, b):
    return a == b or o.m.known(eq_int(a, b)) is True


def slices(r, mod, mode, n, turn):
    size, over = VECTORS[n]
    c = Case(r, mod, "slice of %s%s" % (n, mode))
    for rest in range(size):
        for few in (0, 1, None):
            if not turn():
                continue

            def scen(M, w):
                k = sym("k") if few is None else few
                if few is None:
                    M.I.facts.assume(le0(lin_add(2, k, -1)), True)
                    M.I.facts.assume(le0(lin_add(k, 1 << 50, -1)), True)
                w.k = k
                w.n = lin_add(lin_mul(k, size), rest)
                w.given = M.alloc("given", w.n)
                return M.call("slice_" + n, [P(w.given, 0), w.n])

            def good(w, o):
                bad = rest or over and few == 0
                if bad:
                    return None if o.value == 7 and not events(w) else "a slice of %d bytes beside %s whole elements is %s" % (rest, w.k, CODES.get(o.value, o.value))
                if o.value != 0:
                    return CODES.get(o.value, o.value)
                e = events(w)
                want = [(1, lin_add(w.k, -1) if over else w.k), (2, w.n)]
                ok = len(e) == 2 and all(x[0] == y[0] and (at(o, x[1], w.given, 0) or o.m.known(eq_int(w.n, 0)) is True) and number_is(o, x[2], y[1]) for x, y in zip(e, want))
                return None if ok else "hands out %r" % (e,)
            c.go("slice", "of %s elements and %d bytes" % ("any number of" if few is None else few, rest), scen, good)


def image_at(M, p, n):
    return [M.load_byte(p.o, lin_add(p.off, i)) for i in range(n)]


def vectors(r, mod, mode, n, turn):
    size, over = VECTORS[n]
    c = Case(r, mod, "Vector of %s%s" % (n, mode))

    def given(M, w, k):
        w.given = M.alloc("given", max(k, 1) * size)
        w.given.content = lambda off: M.mk([bvar("m.%d" % (8 * off + i)) for i in range(8)])
        return P(w.given, 0)
    for how, first in ((0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (2, 9)):
        for k, cleared, room in ((0, 99, 99), (1, 99, 99), (2, 99, 99), (5, 99, 2), (5, 0, 99), (5, 1, 3), (4, 3, 3), (40, 99, 99)):
            if not turn():
                continue

            def scen(M, w):
                w.seen = []
                w.shot = lambda M, key, p, m: w.seen.append((key, p, m, image_at(M, p, int(m) * (1 if key in (2, 4) else size)) if int(m) else []))
                return M.call("vector_" + n, [how, first, given(M, w, k), k, cleared, room])

            def good(w, o):
                M = o.m
                live = [[0] * size for _ in range(first)]
                pos = iter(w.seen)

                def told():
                    views = len(live) - 1 if over and live else len(live)
                    whole = [b for e in live for b in e]
                    for key, num, what in ((1, views, whole[:views * size]), (2, (len(live) if over and live else 1 if over else views) * size, whole if not over or live else [0] * size), (3, len(live), whole)):
                        x = next(pos, None)
                        if x is None or x[0] != key or x[2] != num:
                            return "after %d elements: %r, expected %s of %d" % (len(live), x and x[:3], {1: "a view", 2: "bytes", 3: "elements"}[key], num)
                        if not all(same(M, a, b) for a, b in zip(x[3], what)) or len(x[3]) != len(what):
                            return "after %d elements: contents %r" % (len(live), x[3][:40])
                    return None
                d = told()
                for i in range(k):
                    if d:
                        return d
                    if i == cleared:
                        live = []
                        d = d or told()
                    if i == room:
                        d = d or told()
                    x = next(pos, None)
                    if d or x is None or x[0] != 4 or x[2] != size or any(not same(M, b, 0) for b in x[3]):
                        return d or "the new element is %r" % (x and x[3],)
                    live.append([M.load_byte(w.given, size * i + j) for j in range(size)])
                    d = told()
                return d
            c.go("vector", "%s, %d added%s%s" % (("new", "default", "with %d" % first)[how], k, ", cleared before %d" % cleared if cleared < k else "", ", reserved before %d" % room if room < k else ""),
                 scen, good)
    for m in (1, 2, 4):
        for i in range(m + 3):
            for j in range(m + 3):
                for kind in (0, 1, 2):
                    if kind == 1 and i or kind == 2 and j or not turn():
                        continue
                    top = m if over else m - 1      # the element after the last is part of a ranged vector
                    panics = kind != 1 and i > top or kind != 2 and j > top

                    def scen(M, w):
                        w.seen = []
                        w.shot = lambda M, key, p, m: w.seen.append((key, p, m, image_at(M, p, int(m) * (1 if key in (2, 4, 5) else size)) if int(m) else []))
                        return M.call("index_" + n, [m, given(M, w, 1), i, j, kind])

                    def good(w, o):
                        M = o.m
                        data = [M.load_byte(w.given, b) for b in range(size)]
                        live = [data if e == i and kind != 1 else [0] * size for e in range(m + 1)]
                        if kind != 2:
                            if not w.seen or w.seen[0][0] != 5 or not all(same(M, a, b) for a, b in zip(w.seen[0][3], live[j])):
                                return "element %d reads %r" % (j, w.seen and w.seen[0][3])
                        got = [x for x in w.seen if x[0] == 3]
                        want = [b for e in live[:m] for b in e]
                        return None if len(got) == 1 and len(got[0][3]) == len(want) and all(same(M, a, b) for a, b in zip(got[0][3], want)) else "contents %r" % (got and got[0][3],)
                    c.go("index", "of %d, %s" % (m, "%d written, %d read" % (i, j) if not kind else "%d read" % j if kind == 1 else "%d written" % i), scen, good, panics)


def bytes_object(M, data, name="given"):
    o = M.alloc(name, len(data))
    for i, b in enumerate(data):
        o.cells[i] = (1, b)
    return o


def raw_data(r, mod, mode, turn):
    c = Case(r, mod, "raw data" + mode)
    texts = [list(p) for n in range(5) for p in itertools.product((0, 97), repeat=n)]
    texts += [[97] * i + [0] + [98] * j for i in (15, 16, 17, 40) for j in (0, 1, 20)] + [[97] * 33, [128, 255, 0, 255], [97, 0, 200]]
    texts += [[97] * i + [b] * 3 + [97] * 9 + [0, b, 0] for i in (0, 5, 8, 14) for b in (1, 127, 128, 129, 195, 255)] + [list(range(1, 256)) + [0, 1, 2]]
    for t in texts:
        if not turn():
            continue
        for s in list(range(len(t) + 2 if len(t) < 6 else 3)) + ([len(t) - 1, len(t), len(t) + 1, 1 << 40] if len(t) >= 6 else [(1 << 64) - 1]):
            for kind in (0, 1, 2, 3, 4):
                end = next((i for i in range(s, len(t)) if t[i] == 0), len(t))
                want = list(range(0, len(t))) if kind == 3 else list(range(s, end))
                if kind in (1, 2, 4) and any(t[i] > 127 for i in want):
                    continue
                lo = 0 if kind == 3 else s

                def scen(M, w):
                    w.given = bytes_object(M, t)
                    return M.call("raw", [P(w.given, 0), len(t), s, kind])

                def good(w, o):
                    e = [x for x in events(w) if x[0] == 1]
                    if o.value != 0 or len(e) != (2 if kind == 3 else 1):
                        return "result %s" % o.value
                    for x in e:
                        if x[2] != len(want) or want and not at(o, x[1], w.given, lo):
                            return "hands out %r, expected %d bytes at %d" % (x, len(want), lo)
                    return None
                c.go("text", "%s of %s from %d" % (("bytes", "unchecked text", "text", "all", "lossy text")[kind], bytes(t[:20]), s), scen, good, panics=kind != 3 and s > len(t))


LAYOUTS = [[], [[]], [[0]], [[1], [0]], [[0, 1, 2], [], [1]], [[], [1, 1], [2]], [[0], [1], [2]]]


def lay(layout, lead=2, tail=4):
    """index bytes, data, per bucket the (tag, offset behind the tag, bytes left in the bucket)"""
    data, ends, want = [9] * lead, [lead], []
    for b in layout:
        x = []
        for t in b:
            data += [t] + [7] * SIZES[t]
            x.append((t, len(data) - SIZES[t]))
        want.append([(t, o, len(data) - o) for t, o in x])
        ends.append(len(data))
    data += [9] * tail
    return [b for e in ends for b in e.to_bytes(IW, "little")], data, want


def buckets(r, mod, mode, turn):
    c = Case(r, mod, "multivector view" + mode)

    def told(w, o, want):
        """events: numbers as they are; elements (tag, offset, rest)"""
        got = []
        for k, p, n in events(w):
            if k >= 10:
                off = p.off if isinstance(p, P) and p.o is w.given else None
                got.append((k - 10, off, n) if n else (k - 10, None, 0))
            else:
                got.append(("n", k, n))
        want = [x if x[0] == "n" or x[2] else (x[0], None, 0) for x in want]
        return None if got == want else "%s, expected %s" % (got[:12], want[:12])

    def start(M, w, ix, data):
        w.given = bytes_object(M, data)
        return [P(bytes_object(M, ix, "index"), 0), len(ix) // IW - 1, P(w.given, 0), len(data)]
    for layout in LAYOUTS:
        ix, data, want = lay(layout)
        k = len(layout)
        for i in list(range(k + 2)) + [(1 << 64) - 1]:
            if turn():
                c.go("bucket", "%d of %r" % (i, layout), lambda M, w: M.call("bucket", start(M, w, ix, data) + [i]),
                     lambda w, o: told(w, o, [("n", 2, k), ("n", 3, int(k == 0))] + 2 * ([("n", 1, 0)] + want[i])), panics=i >= k)
        for kind in range(6):
            for a, b in itertools.product(range(k + 2), repeat=2):
                if kind == 0 and (a or b) or kind == 3 and b or kind == 4 and a or kind == 5 and b < a:
                    continue
                lo, hi = {0: (0, k), 1: (a, b), 2: (a, b + 1), 3: (a, k), 4: (0, b), 5: (a, b)}[kind]
                panics = lo > hi or hi > k
                for pattern in range(1 << max(hi - lo, 0)) if not panics else (0,):
                    if not turn():
                        continue

                    def good(w, o):
                        left = list(range(lo, hi))
                        e = [("n", 2, len(left)), ("n", 3, int(not left))]
                        j = 0
                        while True:
                            e += [("n", 4, len(left)), ("n", 5, None)]
                            if not left:
                                break
                            x = left.pop() if pattern >> j & 1 else left.pop(0)
                            j += 1
                            e += [("n", 1, 0)] + want[x]
                        # a lower bound of the number of elements
                        for i, x in enumerate(events(w)):
                            if x[0] == 5:
                                if i >= len(e) or not x[2] <= e[i - 1][2]:
                                    return "at least %s elements to come, though there are %s" % (x[2], e[i - 1][2] if i < len(e) else "none")
                                e[i] = ("n", 5, x[2])
                        return told(w, o, e)
                    c.go("walk", "%s of %r, %s" % (("all", "%d..%d" % (a, b), "%d..=%d" % (a, b), "%d.." % a, "..%d" % b, "%d.. and then ..%d" % (a, b - a))[kind], layout, bin(pattern)),
                         lambda M, w: M.call("walk", start(M, w, ix, data) + [kind, a, b, pattern]), good, panics)
    # damaged: index past the data, falling, elements that reach behind their bucket
    for title, ends, data in (("index past the data", [0, 9], [2] * 8), ("falling index", [4, 2], [2] * 8), ("element longer than its bucket", [0, 2], [0, 7, 7, 7, 7]),
                              ("element of a bucket of its tag only", [0, 1], [1]), ("index far past the data", [60000, 60001], [2])):
        if turn():
            ix = [b for e in ends for b in e.to_bytes(IW, "little")]
            c.go("damaged", title, lambda M, w: M.call("bucket", start(M, w, ix, data) + [0]), None, panics=True)
