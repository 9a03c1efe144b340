"""C06: the reader of tar archives."""
from .chk_cpp_store import *
from .osmodel import *

PROBES = r'''
#include <flatdata/internal/TarReader.h>
#include <flatdata/TarArchiveResourceStorage.h>
extern "C" void tar_entry( const char* name, size_t length, size_t offset, size_t size );
extern "C" void tar_list( const unsigned char* d, size_t n )
{
    std::vector< flatdata::internal::TarFileEntry > v = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( d, n ) );
    for ( const auto& e : v ) tar_entry( e.name.data( ), e.name.size( ), e.offset, e.size );
}
extern "C" void tar_open( const char* path, const char* key, const unsigned char** d, size_t* n )
{
    flatdata::MemoryMappedTarFileStorage s( path );
    flatdata::MemoryDescriptor m = s.read( key );
    *d = m.data( ); *n = m.size_in_bytes( );
}
extern "C" int tar_exists( const char* path, const char* sub, const char* directory, const char* key )
{
    std::unique_ptr< flatdata::ResourceStorage > s = flatdata::TarArchiveResourceStorage::create( path, sub );
    if ( !s ) return 2;
    if ( directory ) s = s->directory( directory );
    return s->write( key, "schema", flatdata::MemoryDescriptor( ) ) ? 3 : s->exists( key ) ? 1 : 0;
}
'''

SYM = "symbolic"


class Head:
    """a header block; size: number, "oct", "few", "even" or "odd" (unknown digits of that encoding), or raw bytes; text: the bytes behind it (long names)"""

    def __init__(self, name=b"a", size=0, type=b"0", text=None, check="good", field=None, blank=False):
        self.name, self.size, self.type, self.text, self.check, self.field, self.blank = name, size, type, text, check, field, blank

    def __repr__(self):
        if self.blank:
            return "end"
        return "%s%s:%s%s" % (repr(self.type)[2:-1], repr(self.name[:12])[2:-1], self.size if self.field is None else repr(self.field)[2:-1], "" if self.check == "good" else "!" + self.check)


def digit(M, name, hi, base):
    t = T("digit", (name,), "int")
    M.I.facts.assume(le0(lin_mul(t, -1)), True)
    M.I.facts.assume(le0(lin_add(t, -hi)), True)
    return t, lin_add(t, base)


def size_field(M, h, k):
    """-> bytes of the field, value (None: not a number)"""
    if h.field is not None:
        f = list(h.field)
        return f + [0] * (12 - len(f)), h.size
    if h.size in ("oct", "few"):
        zeros = 7 if h.size == "few" else 0
        v, out = 0, [48] * zeros
        for i in range(zeros, 11):
            t, b = digit(M, "s%d.%d" % (k, i), 7, 48)
            out.append(b)
            v = lin_add(lin_mul(v, 8), t)
        return out + [0], v
    if h.size in ("even", "odd"):
        v, out = 0, [128] + [0] * 5     # the large ones: concrete fields
        for i in range(6, 12):
            t, b = digit(M, "b%d.%d" % (k, i), 127 if i == 10 else 255, 0)
            if i == 10:
                t = b = lin_add(lin_mul(t, 2), h.size == "odd")     # the number of bytes in the last block is that of the last byte(s)
            out.append(b)
            v = lin_add(lin_mul(v, 256), t)
        return out, v
    return list(b"%011o" % h.size) + [0], h.size


def block(M, h, k):
    """-> bytes of the header, size, unknown sum of the digits: (digits, sum) or None"""
    if h.blank:
        return [0] * 512, 0, None
    b = [0] * 512
    b[:len(h.name)] = list(h.name)
    b[124:136], v = size_field(M, h, k)
    b[156] = h.type[0]
    b[257:263] = list(b"ustar ")
    s = 8 * 32
    for i, x in enumerate(b):
        if not 148 <= i < 156:
            s = lin_add(s, x)
    free = None
    if h.check == "good" and is_int(s):
        b[148:156] = list(b"%06o" % int(s)) + [0, 32]
    elif h.check == "bad":
        b[148:156] = list(b"%06o" % (int(s) ^ 1)) + [0, 32]
    elif h.check == "text":
        b[148:156] = list(b"00x000") + [0, 32]
    else:
        c, out = 0, []
        for i in range(6):
            t, x = digit(M, "c%d.%d" % (k, i), 7, 48)
            out.append(x)
            c = lin_add(lin_mul(c, 8), t)
        b[148:156] = out + [0, 32]
        free = (c, s)
    return b, v, free


BLOCK = 512


def archive(M, heads, size):
    """memory object of the file and what reading it has to give: [(condition that must hold, condition of the end, entry)]"""
    pieces, plan, pos = [], [], 0
    long = None
    for k, h in enumerate(heads):
        b, v, free = block(M, h, k)
        pieces.append((pos, b))
        data = lin_add(pos, BLOCK)
        step = {"at": pos, "head": h, "sum": free, "size": v, "data": data, "name": h.name.split(b"\0")[0]}
        plan.append(step)
        if h.text is not None:
            pieces.append((data, list(h.text)))
        if h.blank:
            break
        if v is None or h.type == b"5" or h.type not in (b"0", b"\0", b"L"):
            pos = data
            continue
        r = lin_mod(v, BLOCK)
        if not is_int(r):
            r = M.residue(r)
        full = r == 0 if is_int(r) else M.I.choose(le0(r))
        pos = lin_add(lin_add(lin_add(data, v), r, -1), 0 if full else BLOCK)
    unknown = {}

    def content(off):
        for at, b in pieces:
            i = lin_add(off, at, -1)
            if is_int(i) and 0 <= i < len(b):
                return b[int(i)]
        if repr(off) not in unknown:
            if len(unknown) >= BLOCK // 2:
                raise Fault("a header is read at %r" % (off,))
            t = T("stray", (off,), "int")
            M.ranged(t, 8)
            unknown[repr(off)] = t
        return unknown[repr(off)]
    return M.alloc("tar", size, content=content), plan


def cases(M, plan, size):
    """-> ["fails" or entries], with the facts of M narrowed to what each of them needs; the code may not have told them apart"""
    facts, todo = M.I.facts, [[]]
    while todo:
        pre = todo.pop()
        f = M.I.facts = Facts()
        f.truth, f.cons, f.neq = dict(facts.truth), list(facts.cons), list(facts.neq)
        more = []
        turn = iter(pre)

        def yes(c):
            v = c if isinstance(c, bool) else f.decide(c)
            if v is None:
                v = next(turn, None)
                if v is None:
                    v = True
                    todo.append(pre + more + [False])
                    more.append(True)
                f.assume(c, v)
            return v
        want = expected_tar(plan, size, yes)
        if not f.hopeless:
            yield want
    M.I.facts = facts


def expected_tar(plan, size, yes):
    out, long = [], None
    for p in plan:
        h = p["head"]
        if yes(le0(lin_add(size, p["at"], -1))) or h.blank:
            return out
        if h.check in ("bad", "text") or (p["sum"] is not None and not yes(eq_int(p["sum"][0], p["sum"][1]))):
            return "fails"
        if h.type in (b"0", b"\0", b"L"):
            if p["size"] is None:
                return "fails"
            whole = yes(le0(lin_add(lin_add(p["data"], p["size"]), size, -1)))
            if not whole and h.type == b"L":
                return "fails"
            if h.type == b"L":
                long = bytes(h.text[:h.size]).split(b"\0")[0]
            else:
                out.append((long or p["name"], p["data"], p["size"], p["size"] if whole else lin_add(size, p["data"], -1)))
                long = None
                if not whole:
                    return out
        elif h.type == b"5":
            long = None
        else:
            return "fails"
    raise Unsupp("the header list of the check has no end")


class TarWorld(World):
    def __init__(self, heads, size):
        World.__init__(self)
        self.heads, self.size = heads, size

    def file(self, M, path):
        if path != "t.tar":
            return None
        n = self.size(M)
        o, self.plan = archive(M, self.heads, n)
        self.total = n
        return o


def m_entry(M, name, args):
    p, n, off, size = args
    name = [M.load_byte(p.o, lin_add(p.off, i)) for i in range(int(n))] if is_int(n) else [n]
    M.world.log.append(("entry", bytes(map(int, name)) if all(map(is_int, name)) else repr(name), off, size))


FILES["tar_entry"] = [(None, m_entry)]


def blocks(k, rest=0):
    def size(M):
        t = T("blocks", (), "int")
        M.I.facts.assume(le0(lin_mul(t, -1)), True)
        M.I.facts.assume(le0(lin_add(t, -(1 << 40))), True)
        return lin_add(lin_mul(t, BLOCK), rest)
    return size if k is None else (lambda M: k * BLOCK + rest)


def explore_files(mod, world, scenario, **kw):
    def sc(M):
        M.world = world()
        M.world.M = M
        return scenario(M)
    return explore_ir(mod, sc, FILES, **kw)


def listing(r, mod, heads, size, rest=False):
    site = "entries of %s%s" % (heads, " and a part of a block" if rest else "")

    def sc(M):
        M.loop_bound = BLOCK * (len(heads) + 2)
        n = size(M)
        o, plan = archive(M, heads, n)
        M.note = (plan, n)
        M.call("tar_list", [P(o, 0), n])
        return None
    seen = 0
    for o in explore_files(mod, World, sc):
        seen += 1
        r.ok("entries", site, *judge(o, *o.m.note, rest))
    return seen


def judge(o, plan, n, rest):
    if o.kind not in ("return", "throw"):
        return False, "%s %s" % (o.kind, o.value)
    for want in ["fails"] if rest else cases(o.m, plan, n):
        d = differs(o, want)
        if d:
            return False, d
    return True, ""


def differs(o, want):
    if o.kind == "throw":
        return "" if want == "fails" and "runtime_error" in repr(o.value) else "fails with %s, expected %s" % (o.value, want)
    if want == "fails":
        return "completes, expected an error"
    got = [l[1:] for l in o.m.world.log if l[0] == "entry"]
    if len(got) != len(want):
        return "%d entries, expected %d" % (len(got), len(want))
    for g, w in zip(got, want):
        if g[0] != w[0]:
            return "the name %r, expected %r" % (g[0], w[0])
        if not equal(o, g[1], w[1]):
            return "%r starts at %r, expected %r" % (g[0], g[1], w[1])
        if not equal(o, g[2], w[2]):
            return "%r has %r bytes, expected %r" % (g[0], g[2], w[2])
    return ""


def start_up(M, mod):
    M.globals["_ZSt4clog"] = log_stream(M)
    for f in mod.ctors:
        M.call(f, [])


def by_name(want):
    return [(n[2:] if n[:2] == b"./" else n, at, size, cut) for n, at, size, cut in want]


def texts(M, *names):
    return [P(text_object(M, n, n + "\0"), 0) for n in names]


def reading(r, mod, heads, size, path, key):
    """the storage of a mapped archive gives the bytes of the named entry, up to the end of the file"""
    site = "reading %r of %s in %s" % (key, heads, path)

    def sc(M):
        M.loop_bound = BLOCK * (len(heads) + 2)
        start_up(M, mod)
        d, n = M.alloc("d", 8), M.alloc("n", 8)
        M.call("tar_open", texts(M, path, key) + [P(d, 0), P(n, 0)])
        return M.pointer(M.load(PTR, P(d, 0))), M.load(I64, P(n, 0))
    seen = 0
    for o in explore_files(mod, lambda: TarWorld(heads, size), sc):
        seen += 1
        r.ok("read", site, *judge_read(o, key))
    return seen


def contents(o):
    """[entries by their names in the storage, or "fails" if the archive is refused]"""
    w = o.m.world
    if not hasattr(w, "plan") or o.m.I.facts.decide(le0(w.total)):
        return [[]]
    return (by_name(x) if isinstance(x, list) else x for x in cases(o.m, w.plan, w.total))


def judge_read(o, key):
    if o.kind not in ("return", "throw"):
        return False, "%s %s" % (o.kind, o.value)
    for want in contents(o):
        if o.kind == "throw":
            if not (want == "fails" and "runtime_error" in repr(o.value)):
                return False, "fails with %s, expected %s" % (o.value, want)
            continue
        if want == "fails":
            return False, "opens, expected an error"
        hit = [e for e in want if e[0] == key.encode()]
        p, n = o.value
        if not hit:
            if not (is_int(p) and p == 0 and is_int(n) and n == 0):
                return False, "%r with %r bytes for a name that is not there" % (p, n)
        elif not (isinstance(p, P) and p.o.name.startswith("tar") and equal(o, p.off, hit[0][1]) and equal(o, n, hit[0][3])):
            return False, "%r with %r bytes, expected %r bytes at %r" % (p, n, hit[0][3], hit[0][1])
    return True, ""


def presence(r, mod, heads, size, path, sub, dirs, key):
    """exists() of a resource storage over the archive, opened at a sub-path and moved through directories"""
    full = "/".join([x for x in [sub] + list(dirs) if x] + [key])
    site = "exists( %r ) of %s in %s under %r" % (key, heads, path, "/".join([sub] + list(dirs)))

    def sc(M):
        M.loop_bound = BLOCK * (len(heads) + 2)
        start_up(M, mod)
        return M.call("tar_exists", texts(M, path, sub) + (texts(M, *dirs) if dirs else [0]) + texts(M, key))
    seen = 0
    for o in explore_files(mod, lambda: TarWorld(heads, size), sc):
        seen += 1
        if o.kind != "return":
            r.ok("resource-storage", site, False, "%s %s" % (o.kind, o.value))
            continue
        for want in contents(o):
            w = 2 if want == "fails" else 1 if any(e[0] == full.encode() for e in want) else 0
            r.ok("resource-storage", site, is_int(o.value) and o.value == w, "%r, expected %d (0: absent, 1: present, 2: no storage, 3: writes)" % (o.value, w))
    return seen


# ------------------------------------------------------------------------------------------------------------------ cases

END = Head(blank=True)


def reg(name=b"f", size=3, **kw):
    return Head(name, size, **kw)


def long_name(text, size=None, **kw):
    return Head(b"././@LongLink", len(text) if size is None else size, b"L", text, **kw)


def base256(n):
    return bytes([128 | n >> 88]) + (n & (1 << 88) - 1).to_bytes(11, "big")


def fields():
    """(content of the size field, its value; None: not a number of 64 bits)"""
    for text in (b"", b"0", b"7", b"17", b"1000", b"777", b"1001", b"00000000777", b"77777777777", b"777777777777", b"000000001000", b"5\0" + b"77", b"3\0x"):
        t = text.split(b"\0")[0]
        yield text, int(t, 8) if t else 0
    for text in (b"8", b"9", b"18", b"1 ", b" 7", b"x", b"-1", b"7a", b"1/", b"0000000000:", b"00000000000/", b"\x7f"):
        yield text, None
    for n in (0, 1, 511, 512, 513, 1 << 32, (1 << 32) + 513, (1 << 40) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 511, (1 << 64) - 512, (1 << 64) - 513, (1 << 64) - 1024,
              (1 << 64) - 1025, (1 << 64) - 1536):
        yield base256(n), n
    for n in (1 << 64, (1 << 64) + 512, 1 << 72, (1 << 72) + 5, (1 << 88) + 1, (1 << 95) - 1, 1 << 94, 3 << 66):
        yield base256(n), None


def lists():
    """archives with numbers at their bounds"""
    for n in (0, 1, 511, 512, 513, 1023, 1024, 1025):
        yield [reg(b"first", n), reg(b"second", 4), END]
    for text, v in fields():
        yield [Head(b"n", v, field=text), reg(b"next"), END]
        yield [Head(b"m", v, b"L", b"abc\0", field=text), reg(b"next"), END] if v is None or v > 4 * BLOCK else [reg(b"before", 1), Head(b"n", v, field=text), reg(b"next"), END]
    for t in range(256):
        yield [reg(b"one", 1), Head(b"two", 700 if t in b"0" or t == 0 else 0, bytes([t])) if t != ord("L") else long_name(b"three"), reg(b"four", 2), END]
    for c in ("bad", "text"):
        for t in b"05L\0":
            yield [reg(b"one"), Head(b"d", 3, bytes([t]), b"xyz" if t == ord("L") else None, check=c), END]
    for k in (0, 1, 99, 100):
        yield [reg((b"0123456789" * 10)[:k]), reg(b"b"), END]
    yield [reg(b"\xc3\xa4\xff" * 20), reg(b"./\xe2\x82\xac"), END]
    yield [reg(b"name\0rest", 9), END]
    for k in (1, 2, 100, 101, 155, 511, 512, 513, 700):
        t = (b"long/path0" * 71)[:k]
        yield [long_name(t), reg(b"short"), reg(b"b"), END]
        yield [long_name(t + b"\0"), reg(b"short"), END]
    yield [long_name(b"x\0yz"), reg(b"short"), END]
    yield [long_name(b"\0"), reg(b"short"), END]
    yield [long_name(b"x"), long_name(b"second"), reg(b"short"), reg(b"b"), END]
    yield [long_name(b"a/directory"), Head(b"a", type=b"5"), reg(b"file"), END]
    yield [Head(b"a", type=b"5"), long_name(b"x"), reg(b"a/b", type=b"\0"), Head(b"c", type=b"5"), Head(b"d", type=b"5"), reg(b"c/d", 512), END]
    yield [long_name(b"x"), END]
    yield [END]
    yield [reg(b"a"), END, reg(b"b")]


UNKNOWN = [[reg(b"a", "oct"), END], [reg(b"a", "even"), END], [reg(b"a", "odd"), END], [Head(b"d", type=b"5"), reg(b"a", "oct"), END], [reg(b"a", 513), reg(b"b", "odd"), END],
           [long_name(b"named"), reg(b"a", "even"), END], [reg(b"a", "oct", type=b"\0"), END], [reg(b"a", "few"), reg(b"b", 700), END],
           [reg(b"a", "odd"), Head(b"d", type=b"5"), END], [reg(b"a", "even"), long_name(b"named"), reg(b"b", 5), END]]


def c06(prop):
    return run_body(prop, "LLVM IR of the tar reader, the mapped archive and its resource storage is interpreted with a file of unknown length, positions of headers depending on unknown sizes",
                    "Archives of up to 3 entries followed by an end block, over files of any number of blocks. Sizes of entries: all octal numbers of 11 digits, all binary ones of 48 bits, larger ones at "
                    "their bounds; all 256 types; long names up to 700 bytes.", c06_body, floor=0, sources=("TarReader.cpp", "ResourceStorage.cpp"))


def c06_body(r, w, t, turn):
    mod = w.module(PROBES, "the probes do not compile")
    n = 0
    for heads in UNKNOWN:
        if turn():
            with r.part("entries of %s" % heads):
                n += listing(r, mod, heads, blocks(None))
    for heads in lists():
        if turn():
            with r.part("entries of %s" % heads):
                n += listing(r, mod, heads, blocks(None))
    r.floor("partitions of lists of entries", n, 100)
    for rest in (1, 2, 255, 256, 511):
        for k in (0, 1, None):
            if turn():
                listing(r, mod, [reg(b"a", 0), END], blocks(k, rest), True)
    for heads, key in ((UNKNOWN[0], "a"), (UNKNOWN[0], "b"), (UNKNOWN[1], "a"), (UNKNOWN[2], "a"), ([reg(b"./a", "oct"), END], "a"), ([reg(b"./a", "even"), END], "./a"),
                       ([reg(b"b", 513), reg(b"a", "odd"), END], "a"), ([reg(b"b"), reg(b"a", 600), reg(b"c"), END], "a"), ([reg(b"b"), reg(b"a", 600), reg(b"c"), END], "b"),
                       ([reg(b"b"), reg(b"a", 600), reg(b"c"), END], "c"), ([reg(b"d/a"), Head(b"d", type=b"5"), END], "d"), ([reg(b"d/a", 0), END], "d/a"), ([reg(b"x"), reg(b"y"), reg(b"x.schema", 9), END], "x.schema"),
                       ([long_name(b"./" + b"n" * 120), reg(b"s"), END], "n" * 120), ([long_name(b"q" * 120), reg(b"s"), END], "s"), ([reg(b"a"), Head(b"l", type=b"2"), END], "a"),
                       ([reg(b"a", check="bad"), END], "a"), ([END], "a"), ([reg(b".a"), reg(b"..b"), reg(b"a/./b"), END], ".a"),
                       ([reg(b".a"), reg(b"..b"), reg(b"a/./b"), END], "..b"), ([reg(b"."), reg(b"./"), reg(b"a/./b"), END], "a/./b"), ([reg(b"x"), reg(b"."), END], ".")):
        for path in ("t.tar", "missing.tar")[:2 if heads is UNKNOWN[0] else 1]:
            if turn():
                with r.part("reading %r of %s" % (key, heads)):
                    r.floor("partitions of reading", reading(r, mod, heads, blocks(None), path, key), 1)
    for sub, dirs, key, heads in (("", (), "a", [reg(b"a"), END]), ("", (), "b", [reg(b"a"), END]), ("d", (), "a", [reg(b"d/a"), END]), ("d", (), "a", [reg(b"./d/a"), END]), ("d", (), "a", [reg(b"a"), END]),
                                  ("", ("e",), "a", [reg(b"e/a"), END]), ("d", ("e",), "a", [reg(b"d/e/a"), END]), ("d/e", (), "a", [reg(b"d/e/a"), END]), ("d", ("e",), "a", [reg(b"e/a"), END]),
                                  ("", ("e",), "a", [reg(b"a"), END]), ("", (), "a", [reg(b"a", "odd"), END]), ("", (), "a", [reg(b"a"), Head(b"x", type=b"7"), END]), ("", (), "a", [reg(b"a", 0), END])):
        for path in ("t.tar", "missing.tar")[:2 if key == "b" else 1]:
            if turn():
                with r.part("exists( %r ) of %s" % (key, heads)):
                    r.floor("partitions of exists()", presence(r, mod, heads, blocks(None), path, sub, dirs, key), 1)
