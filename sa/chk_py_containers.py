"""P04 / P05: containers address exactly the stored elements."""
from .pylib import *
from .report import Report

STUB = """
from flatdata.lib.resources import Vector, Multivector, Instance, RawData
from flatdata.lib.structure import Structure, FieldSignature

class E(Structure):
    _SCHEMA = "e"
    _NAME = "E"
    _SIZE_IN_BITS = 8 * ESIZE
    _SIZE_IN_BYTES = ESIZE
    _FIELDS = {"f": FieldSignature(offset=0, width=8, is_signed=False, dtype="u1")}
    _FIELD_KEYS = {"f"}

class E2(Structure):
    _SCHEMA = "e2"
    _NAME = "E2"
    _SIZE_IN_BITS = 8 * E2SIZE
    _SIZE_IN_BYTES = E2SIZE
    _FIELDS = {"g": FieldSignature(offset=0, width=8, is_signed=False, dtype="u1")}
    _FIELD_KEYS = {"g"}

class Index(Structure):
    _SCHEMA = "i"
    _NAME = "Index"
    _SIZE_IN_BITS = 8 * ISIZE
    _SIZE_IN_BYTES = ISIZE
    _FIELDS = {"value": FieldSignature(offset=0, width=8 * ISIZE, is_signed=False, dtype="u8")}
    _FIELD_KEYS = {"value"}

class Storage:
    def __init__(self, files):
        self.files = files
    def get(self, key, is_optional=False):
        return self.files[key]
"""


def module(I, esize=3, e2size=5, isize=4):
    m = Module("subject", None)
    I.lin_reads = True
    m.ns.update(__name__="subject", ESIZE=esize, E2SIZE=e2size, ISIZE=isize)
    sc = Scope("module", None, m)
    sc.vars = m.ns
    I.exec_body(ast.parse(STUB).body, sc)
    return m.ns


def header(mem):
    return T("read", (mem.name, 0, 64), "int")


def file_mem(I, name, payload=None):
    """resource file: size header, payload, 8 bytes padding.  payload None: length unknown but consistent"""
    L = T("len", (sym("file(%s)" % name, "bytes"),), "int")
    mem = Mem(name, L)
    if payload is None:
        I.facts.add_le(lin_add(L, lin_add(header(mem), 16), -1))
        I.facts.add_le(lin_add(lin_add(header(mem), 16), L, -1))
        I.facts.add_le(lin_mul(header(mem), -1))
    else:
        mem.length = payload + 16
        for k in range(8):
            mem.over[k] = (payload >> (8 * k)) & 255
    return mem


def address(o, v, mem, width=8):
    """byte address at which the value v was decoded, None if it is not a plain field of that memory"""
    v = o.I.norm(v)
    if not isinstance(v, BV) or len(v.bits) > width:
        return None
    base = None
    for k in range(width):
        b = v.bit(k)
        vs = b.vars()
        if len(b.m) != 1 or len(vs) != 1:
            return None
        (x,) = vs
        if not isinstance(x, tuple) or x[0] != mem.name or x[2] != k % 8:
            return None
        a = lin_add(x[1], -(k // 8))
        if base is None:
            base = a
        elif a != base:
            return None
    return base


def same(o, a, b):
    if a is None:
        return False
    d = lin_add(a, b, -1)
    return o.facts.implies_le(d) and o.facts.implies_le(lin_mul(d, -1))


def p04(pid):
    r = Report(pid, "every access path of Vector, Instance and RawData delivers exactly the element or bytes at its documented "
                    "position for every valid index and raises IndexError for every other index; short files are rejected",
               "abstract interpretation of flatdata.lib.resources over memories of unknown size and content (size header "
               "symbolic), symbolic index, element sizes 1..16; slices for all start/stop/step in a box around each size 0..4")
    prog = program()
    for es in (1, 2, 3, 5, 8, 16):
        vector_index(prog, r, es)
        vector_iter(prog, r, es)
        instance(prog, r, es)
    vector_slices(prog, r)
    vector_tables(prog, r)
    rawdata(prog, r)
    short_files(prog, r)
    r.floor("access paths", len(r.by_rule), 10)
    source_info(prog, r)
    return r.finish()


def vector_index(prog, r, es):
    i = sym("i")

    def scen(I):
        ns = module(I, es)
        mem = file_mem(I, "buf")
        v = I.call(ns["Vector"], [mem, ns["E"]], {})
        n = I.call(Native("len", lambda J, a, k: pyai.B_len(J, a, k)), [v], {})
        I.event("len", n, mem)
        e = I.getitem(v, i)
        return n, I.getattr(e, "f"), mem, I.getitem(I.call(I.getattr(e, "as_tuple"), [], {}), 0)
    outs = run(prog, scen)
    ok = 0
    for o in outs:
        site = "Vector.__getitem__ element size %d" % es
        if o.kind == "cut":
            continue
        ev = [e for e in o.events if e[0] == "len"]
        if not ev:
            r.ok("vector-opens", site, o.kind == "raise" and o.is_exc("AssertionError"), o.describe())
            continue
        _, n, mem = ev[0]
        if isinstance(n, BV):
            n = bv_term(n)
        want_n = lin_floordiv(header(mem), es)
        r.ok("vector-size", site, same(o, n, want_n), "len is %r" % (n,), key="vector-size")
        if o.kind == "return":
            ok += 1
            _, f, _, g = o.value
            a = address(o, f, mem)
            lo, hi = o.facts.implies_le(lin_mul(i, -1)), o.facts.implies_le(lin_add(lin_add(i, want_n, -1), 1))
            nlo = o.facts.implies_le(lin_mul(lin_add(i, want_n), -1))
            nhi = o.facts.implies_le(lin_add(i, 1))
            want = lin_add(lin_mul(i, es), 8)
            if nhi:
                want = lin_add(lin_mul(lin_add(i, want_n), es), 8)
            r.ok("vector-index", site, (lo and hi or nlo and nhi) and same(o, a, want) and same(o, address(o, g, mem), want),
                 "index i returns the element at %r under %s" % (a, facts(o)), key="vector-index|%d" % es)
        elif o.kind == "raise":
            out = o.facts.implies_le(lin_add(want_n, i, -1)) or o.facts.implies_le(lin_add(lin_add(i, want_n), 1))
            r.ok("vector-bounds", site, o.is_exc("IndexError") and out, "%s under %s" % (o.describe(), facts(o)),
                 key="vector-bounds|%d" % es)
        else:
            r.ok("vector-terminates", site, False, o.describe())
    r.ok("vector-readable", "element size %d" % es, ok >= 2, "no path returns an element", key="vector-readable|%d" % es)


def facts(o):
    return ", ".join("%s=%s" % (k, v) for k, v in list(o.facts.truth.items())[-4:])


def vector_iter(prog, r, es):
    def scen(I):
        ns = module(I, es)
        mem = file_mem(I, "buf")
        v = I.call(ns["Vector"], [mem, ns["E"]], {})
        I.event("open", mem)
        return mem, [I.getattr(e, "f") for e in I.iterate(v)]
    outs = run(prog, scen, unroll=3)
    done = set()
    for o in outs:
        if o.kind == "cut" or not any(e[0] == "open" for e in o.events):
            continue
        site = "Vector.__iter__ element size %d" % es
        if o.kind != "return":
            r.ok("vector-iteration", site, False, o.describe(), key="vector-iteration|%d" % es)
            continue
        mem, items = o.value
        n = lin_floordiv(header(mem), es)
        good = same(o, n, len(items)) and all(same(o, address(o, f, mem), 8 + es * k) for k, f in enumerate(items))
        r.ok("vector-iteration", site, good, "delivers %d items" % len(items), key="vector-iteration|%d" % es)
        done.add(len(items))
    r.ok("vector-iteration-reach", "element size %d" % es, done >= {0, 1, 2}, "sizes reached: %s" % sorted(done),
         key="vector-iteration-reach|%d" % es)


BOX = [None, -6, -2, -1, 0, 1, 3, 6]


def vector_slices(prog, r):
    es = 3
    for n in (0, 1, 4):
        def scen(I):
            ns = module(I, es)
            mem = file_mem(I, "buf", n * es)
            v = I.call(ns["Vector"], [mem, ns["E"]], {})
            out = []
            for a in BOX:
                for b in BOX:
                    for c in (None, 1, 2, -1, -3):
                        s = I.getitem(v, Slice(a, b, c))
                        got = [I.getattr(e, "f") for e in I.iterate(s)]
                        out.append(((a, b, c), got))
            return mem, out
        for o in run(prog, scen, max_steps=50000000):
            if o.kind != "return":
                r.ok("vector-slice", "Vector slice n=%d" % n, False, o.describe(), key="vector-slice")
                continue
            mem, res = o.value
            for (a, b, c), got in res:
                want = list(range(n))[a:b:c]
                good = len(got) == len(want) and all(same(o, address(o, f, mem), 8 + es * k) for f, k in zip(got, want))
                r.ok("vector-slice", "Vector[%s:%s:%s] n=%d" % (a, b, c, n), good,
                     "delivers %s" % [address(o, f, mem) for f in got], key="vector-slice")


class Unset:
    """a row of an array that nobody has written"""

    def __repr__(self):
        return "<uninitialised row>"


def np_empty(I, args, kw):
    n = kw.get("shape", args[0] if args else None)
    if isinstance(n, tuple) and len(n) == 1:
        n = n[0]
    n = I.num(n)
    if not is_int(n):
        raise Top("array of %r rows" % (n,))
    I.event("array", kw.get("dtype", args[1] if len(args) > 1 else None))
    return [Unset() for _ in range(n)]


def np_array(I, args, kw):
    xs = list(I.iterate(args[0]))
    n = kw.get("count", -1)
    if n != -1 and len(xs) < n:
        I.throw("ValueError", "iterator too short")
    I.event("array", kw.get("dtype", args[1] if len(args) > 1 else None))
    return xs if n == -1 else xs[:n]


def data_frame(I, args, kw):
    return ("frame", list(I.iterate(kw["data"] if "data" in kw else args[0])), list(I.iterate(kw["columns"])) if "columns" in kw else None)


TABLES = {"numpy.empty": np_empty, "numpy.zeros": np_empty, "numpy.array": np_array, "numpy.asarray": np_array, "numpy.fromiter": np_array,
          "numpy.dtype": lambda I, a, k: ("dtype", a[0]), "pandas.DataFrame": data_frame}


def vector_tables(prog, r):
    """arrays and data frames have the rows of the elements, the first ones if their number is limited"""
    es = 3
    for n in (0, 1, 4):
        uses = []
        for a, b, c in ((None, None, None), (1, 3, None), (-3, None, 2), (None, None, -1), (3, 1, None), (0, 6, 3)):
            for limit in (None, 1, 2, 4, 100):
                uses.append(("to_numpy", Slice(a, b, c), limit))
                uses.append(("to_data_frame", Slice(a, b, c), limit))
            uses.append(("f", Slice(a, b, c), None))
        uses += [("to_data_frame", None, None), ("f", None, None)]
        for what, sl, limit in uses:
            site = "Vector%s.%s(%s) n=%d" % ("" if sl is None else "[%s:%s:%s]" % (sl.start, sl.stop, sl.step), what, "" if limit is None else limit, n)

            def scen(I):
                ns = module(I, es)
                mem = file_mem(I, "buf", n * es)
                s = v = I.call(ns["Vector"], [mem, ns["E"]], {})
                if sl is not None:
                    s = I.getitem(v, sl)
                x = I.getattr(s, what)
                if what != "f":
                    x = I.call(x, [], {} if limit is None else {"limit": limit})
                return mem, x
            for o in run(prog, scen, models=dict(TABLES)):
                if not r.ok("vector-table", site, o.kind == "return", o.describe(), key="vector-table|" + what):
                    continue
                mem, rows = o.value
                names = None
                if what != "to_numpy":
                    if not r.ok("vector-table", site, isinstance(rows, tuple) and rows[0] == "frame", "is %r" % (rows,), key="vector-table|" + what):
                        continue
                    _, rows, names = rows
                want = list(range(n)) if sl is None else list(range(n))[sl.start:sl.stop:sl.step]
                want = want[:limit]
                got = [x[0] if isinstance(x, (tuple, list)) and len(x) == 1 else None for x in rows]
                good = len(got) == len(want) and all(same(o, address(o, f, mem), 8 + es * k) for f, k in zip(got, want))
                r.ok("vector-table", site, good, "has rows %s" % [x if isinstance(x, Unset) else address(o, g, mem) if g is not None else x for x, g in zip(rows, got)], key="vector-table|" + what)
                types = [e[1] for e in o.events if e[0] == "array"]
                r.ok("vector-table-columns", site, names == ["f"] if what == "f" else len(types) == 1 and list(types[0] or []) == [("f", ("dtype", "u1"))],
                     "columns %s" % (names if what == "f" else types,), key="vector-table-columns|" + what)


def instance(prog, r, es):
    for idx in (0, -1, 1, -2, 2, 7):
        def scen(I):
            ns = module(I, es)
            mem = file_mem(I, "buf", es)
            v = I.call(ns["Instance"], [mem, ns["E"]], {})
            return mem, I.getattr(I.getitem(v, idx), "f"), v
        for o in run(prog, scen):
            site = "Instance[%d]" % idx
            if idx in (0, -1):
                r.ok("instance-index", site, o.kind == "return" and same(o, address(o, o.value[1], o.value[0]), 8), o.describe(),
                     key="instance-index|%d" % idx)
            else:
                r.ok("instance-index", site, o.is_exc("IndexError"), o.describe(), key="instance-index|%d" % idx)

    def scen2(I):
        ns = module(I, es)
        mem = file_mem(I, "buf", es)
        v = I.call(ns["Instance"], [mem, ns["E"]], {})
        return mem, I.getattr(v, "f"), [I.getattr(e, "f") for e in I.iterate(v)], pyai.B_len(I, [v], {})
    for o in run(prog, scen2):
        if o.kind != "return":
            r.ok("instance-access", "Instance", False, o.describe(), key="instance-access")
            continue
        mem, f, it, n = o.value
        r.ok("instance-access", "Instance attribute", same(o, address(o, f, mem), 8), repr(f), key="instance-access")
        r.ok("instance-access", "Instance iteration", len(it) == 1 and same(o, address(o, it[0], mem), 8), repr(it), key="instance-iter")
        r.ok("instance-access", "Instance len", n == 1, repr(n), key="instance-len")

    def scen3(I):
        ns = module(I, es)
        mem = file_mem(I, "buf", es)
        v = I.call(ns["Instance"], [mem, ns["E"]], {})
        return list(I.iterate(I.getitem(v, Slice(None, None, None))))
    for o in run(prog, scen3):
        r.ok("instance-slice", "Instance slice", o.is_exc("IndexError") or o.kind == "return" and len(o.value) == 1, o.describe(),
             key="instance-slice")


def raw_bytes(I, v):
    """bytes value -> list of byte values"""
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, BytesV):
        return list(v.parts)
    if isinstance(v, (Mem, MemView)):
        n = pyai.mem_len(v)
        if not is_int(n):
            raise Top("view of unknown length")
        return [pyai.mem_getitem(I, v, k) for k in range(n)]
    raise Top("not bytes: %r" % (v,))


def rawdata(prog, r):
    for n in (0, 1, 4):
        def scen(I):
            ns = module(I)
            mem = file_mem(I, "buf", n)
            v = I.call(ns["RawData"], [mem, None], {})
            ln = pyai.B_len(I, [v], {})
            out = []
            for a in BOX:
                for b in BOX:
                    for c in (None, 1):
                        try:
                            out.append(((a, b, c), raw_bytes(I, I.getitem(v, Slice(a, b, c)))))
                        except PyRaise as e:
                            out.append(((a, b, c), e.exc))
            one = []
            for i in range(-n - 2, n + 3):
                try:
                    x = I.getitem(v, i)
                    one.append((i, [x] if isinstance(x, (BV, int)) else raw_bytes(I, x)))
                except PyRaise as e:
                    one.append((i, e.exc))
            return mem, ln, out, one
        for o in run(prog, scen, max_steps=50000000):
            if o.kind != "return":
                r.ok("raw-access", "RawData n=%d" % n, False, o.describe(), key="raw-access")
                continue
            mem, ln, out, one = o.value
            r.ok("raw-size", "len(RawData) n=%d" % n, o.I.num(ln) == n, repr(ln), key="raw-size")

            def at(bs, want):
                return isinstance(bs, list) and len(bs) == len(want) and all(
                    same(o, address(o, b, mem), 8 + k) for b, k in zip(bs, want))
            for (a, b, c), got in out:
                want = list(range(n))[a:b:c]
                r.ok("raw-slice", "RawData[%s:%s:%s] n=%d" % (a, b, c, n), at(got, want), "delivers %s" % (got,),
                     key="raw-slice|%s:%s" % (sgn(a), sgn(b)))
            for i, got in one:
                if -n <= i < n:
                    good = at(got, [i % n])
                else:
                    good = isinstance(got, Obj) and got.cls.name == "IndexError"
                r.ok("raw-index", "RawData[%d] n=%d" % (i, n), good, "delivers %s" % (got,), key="raw-index|%s" % ("in" if -n <= i < n else "out"))
    # zero-terminated strings inside the payload: contents concrete separators, payload bounds must hold
    for content, idx, want in ((b"ab\0cd\0", 0, "ab"), (b"ab\0cd\0", 3, "cd"), (b"\0a", 0, "")):
        def scen(I):
            ns = module(I)
            mem = file_mem(I, "buf", len(content))
            for k, b in enumerate(content):
                mem.over[8 + k] = b
            v = I.call(ns["RawData"], [mem, None], {})
            return I.call(I.getattr(v, "sub_str"), [idx], {})
        for o in run(prog, scen):
            r.ok("raw-sub-str", "RawData.sub_str(%d) of %r" % (idx, content), o.kind == "return" and o.value == want, o.describe(),
                 key="raw-sub-str|%s" % ("terminated" if 0 in content[idx:] else "unterminated"))


def sgn(a):
    return "none" if a is None else "neg" if a < 0 else "pos"


def short_files(prog, r):
    for kind in ("Vector", "Instance", "RawData", "Multivector"):
        def scen(I):
            ns = module(I)
            L = T("len", (sym("file", "bytes"),), "int")
            mem = Mem("buf", L)
            if kind == "Multivector":
                idx = file_mem(I, "idx", 8)
                st = I.call(ns["Storage"], [{"x": mem, "x_index": idx}], {})
                return I.call(I.getattr(ns["Multivector"], "open"), [], dict(storage=st, name="x", initializer=[ns["Index"], ns["E"]]))
            st = I.call(ns["Storage"], [{"x": mem}], {})
            return I.call(I.getattr(ns[kind], "open"), [], dict(storage=st, name="x", initializer=None if kind == "RawData" else ns["E"]))
        rej = 0
        L = T("len", (sym("file", "bytes"),), "int")
        for o in run(prog, scen):
            if o.kind == "return":
                r.ok("short-file-rejected", kind, o.facts.implies_le(lin_add(lin_mul(L, -1), 16)),
                     "opens a file that may be shorter than 16 bytes", key="short-file-rejected|" + kind)
            elif o.is_exc("CorruptResourceError"):
                rej += 1
                r.ok("corrupt-only-if-short", kind, o.facts.implies_le(lin_add(L, -15)), "rejects a file of 16 bytes or more",
                     key="corrupt-only-if-short|" + kind)
            elif o.kind == "raise":
                r.ok("documented-error", kind, o.is_exc("AssertionError"), o.describe(), key="documented-error|" + kind)
        r.ok("short-file-reported", kind, rej > 0, "no path raises CorruptResourceError", key="short-file-reported|" + kind)


def p05(pid):
    r = Report(pid, "bucket i of a Multivector is the walk from index[i] to index[i+1]: tag byte, element of the type at that "
                    "position, next tag behind the element",
               "abstract interpretation of Multivector over unknown index and data memories, symbolic bucket number and index "
               "entries, 1-3 element types of different sizes, index widths 1..8 bytes; up to 3 elements per bucket unrolled")
    prog = program()
    for isz in (1, 2, 4, 5, 8):
        for types in ([("E", 3)], [("E", 3), ("E2", 5)], [("E2", 1), ("E", 4)]):
            bucket(prog, r, isz, types)
        mv_size(prog, r, isz)
    r.floor("index widths x type lists", 15, 15)
    source_info(prog, r)
    return r.finish()


def setup(I, isz, types, index_payload=None):
    sizes = dict(types)
    ns = module(I, sizes.get("E", 3), sizes.get("E2", 5), isz)
    idx = file_mem(I, "idx", index_payload)
    dat = file_mem(I, "dat")
    st = I.call(ns["Storage"], [{"x": dat, "x_index": idx}], {})
    mv = I.call(I.getattr(ns["Multivector"], "open"), [], dict(
        storage=st, name="x", initializer=[ns["Index"]] + [ns[t] for t, _ in types]))
    return ns, idx, dat, mv


FIELD = {"E": "f", "E2": "g"}


def entry(j, isz):
    """stored index entry j (also as sentinel: j+1)"""
    return T("read", ("idx", lin_mul(lin_add(lin_mul(j, isz), 8), 8), 8 * isz), "int")


def bucket(prog, r, isz, types):
    i = sym("i")
    label = "%d-byte index, types %s" % (isz, types)
    entries = lin_floordiv(T("read", ("idx", 0, 64), "int"), isz)
    nb = lin_add(entries, -1)
    site = "Multivector.__getitem__ " + label
    tops = {"inside": ([lin_mul(i, -1), lin_add(lin_add(i, nb, -1), 1)], i),
            "from the end": ([lin_add(i, 1), lin_mul(lin_add(i, nb), -1)], lin_add(i, nb)),
            "behind the last": ([lin_add(nb, i, -1), lin_mul(i, -1)], None),
            "before the first": ([lin_add(lin_add(i, nb), 1), lin_add(i, 1)], None)}
    for top, (cons, j) in tops.items():
        def scen(I):
            ns, idx, dat, mv = setup(I, isz, types)
            for c in cons:
                I.facts.add_le(c)
            if j is not None:
                # a well-formed multivector: entries are ordered and end within the payload
                I.facts.add_le(lin_add(entry(j, isz), entry(lin_add(j, 1), isz), -1))
                I.facts.add_le(lin_add(entry(lin_add(j, 1), isz), header(dat), -1))
                I.facts.add_le(lin_mul(entry(j, isz), -1))
            I.event("go")
            b = I.getitem(mv, i)
            return [(e.cls.name, I.getattr(e, FIELD[e.cls.name])) for e in I.iterate(b)]
        lens = set()
        for o in run(prog, scen, unroll=3):
            if o.kind == "cut" or not any(e[0] == "go" for e in o.events):
                continue
            if j is None:
                r.ok("bucket-bounds", "%s, index %s" % (site, top), o.is_exc("IndexError"), o.describe()[:200],
                     key="bucket-bounds|%s|%s" % (top, label))
                continue
            if o.kind == "raise":
                badtag = any(x[0] == "index-out-of-range" for x in o.I.notes)
                r.ok("bucket-readable", site, badtag, "%s for a bucket %s" % (o.describe()[:200], top), key="bucket-readable|%s|%s" % (top, label))
                continue
            if o.kind != "return":
                r.ok("bucket-terminates", site, False, o.describe(), key="bucket-terminates|" + label)
                continue
            walk(r, o, j, isz, types, site, "%s|%s" % (top, label), lens)
        if j is not None:
            r.ok("bucket-reach", site + " " + top, lens >= {0, 1, 2}, "bucket lengths reached %s" % sorted(lens),
                 key="bucket-reach|%s|%s" % (top, label))


def read_is(o, v, mem, addr):
    """v is the byte at address addr of mem (known bits replaced by the partition's knowledge)"""
    return o.I.bits_eq(v, BV([bvar((mem, addr, b)) for b in range(8)])) if isinstance(v, (int, BV)) else False


def walk(r, o, j, isz, types, site, key, lens):
    pos, end = entry(j, isz), entry(lin_add(j, 1), isz)
    good, why = True, ""
    lens.add(len(o.value))
    for name, f in o.value:
        if not o.facts.implies_le(lin_add(lin_add(pos, end, -1), 1)):
            good, why = False, "element at %r although the bucket may end before" % (pos,)
            break
        tag, size = next((k, sz) for k, (t, sz) in enumerate(types) if t == name)
        if not read_is(o, tag, "dat", lin_add(pos, 8)):
            good, why = False, "%s chosen although the tag at %r is not %d" % (name, lin_add(pos, 8), tag)
            break
        if not read_is(o, f, "dat", lin_add(pos, 9)):
            good, why = False, "element is not decoded at %r but reads %r" % (lin_add(pos, 9), f)
            break
        pos = lin_add(pos, 1 + size)
    if good and not o.facts.implies_le(lin_add(end, pos, -1)):
        good, why = False, "bucket left at %r before its end %r" % (pos, end)
    r.ok("bucket-exact", site, good, why, key="bucket-exact|" + key)


def mv_size(prog, r, isz):
    for entries in (0, 1, 2, 4):
        def scen(I):
            ns, idx, dat, mv = setup(I, isz, [("E", 3)], entries * isz)
            # all buckets empty: index entries equal
            for k in range(entries * isz):
                idx.over[8 + k] = 0
            got = []
            for b in I.iterate(mv):
                got.append(list(I.iterate(b)))
            return pyai.B_len(I, [mv], {}), got
        for o in run(prog, scen):
            site = "Multivector len, %d index entries of %d bytes" % (entries, isz)
            want = max(0, entries - 1)
            r.ok("bucket-count", site, o.kind == "return" and o.I.num(o.value[0]) == want and len(o.value[1]) == want, o.describe(),
                 key="bucket-count|%d" % entries)
