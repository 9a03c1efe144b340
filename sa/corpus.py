"""Schema shapes the generator checks quantify over: every declaration kind, decoration and resource kind in combination.
%s stands for an unknown number; nums gives (name, lo, hi) per unknown."""
from .schema import NATIVE

SIGNED = {"i8", "i16", "i32", "i64"}


class Shape:
    def __init__(self, name, text, nums=()):
        self.name, self.text, self.nums = name, text, tuple(nums)


class Numbers:
    def __init__(self):
        self.nums = []

    def __call__(self, lo, hi):
        self.nums.append(("u%d" % len(self.nums), lo, hi))
        return "%s"


def shapes():
    out = []

    def add(name, text, n=None):
        out.append(Shape(name, " ".join(text.split()), n.nums if n else ()))

    # structs: types, widths, decorations
    for ty in NATIVE:
        n = Numbers()
        w = (lambda lo=1: n(lo, NATIVE[ty])) if NATIVE[ty] > 1 else (lambda lo=1: "1")
        c = "-2" if ty in SIGNED else "0" if ty == "bool" else "3"
        lo = 3
        add("fields of type " + ty, """namespace n { const %s C = %s; const %s D = 0;
            struct S { a : %s : %s; @range( r0 ) b : %s : %s; @const( C ) c : %s : %s; @const( C ) @const( D ) d : %s; @optional( C ) e : %s : %s;
                       @const( C ) @optional( D ) f : %s; @range( r1 ) @const( D ) g : %s : %s; h : %s : %s; }
            archive A { v : vector< S >; } }""" % (ty, c, ty, ty, w(), ty, w(), ty, w(lo), ty, ty, w(lo), ty, ty, w(), ty, w()), n)
        for ew in ([1] if NATIVE[ty] == 1 else [1, 2, 3] + ([8] if NATIVE[ty] == 8 else [])):
            n = Numbers()
            vals = "A, B" if ty not in SIGNED else "A = -1, B = 0"
            add("enum of type %s : %d" % (ty, ew), """namespace n { enum E : %s : %d { %s } struct S { p : u16 : %s; e : E; q : i32 : %s; @range( r ) f : .n.E : %d; z : E; }
                archive A { v : vector< S >; w : vector< S >; } }""" % (ty, ew, vals, n(1, 16), n(1, 32), ew), n)
    for ty, val in [("u8", "255"), ("i8", "-128"), ("u16", "0xFFFF"), ("i16", "-0x8000"), ("u32", "4294967295"), ("i32", "-2147483648"), ("u64", "18446744073709551615"),
                    ("i64", "-9223372036854775808"), ("bool", "1"), ("i64", "9223372036854775807"), ("u64", "1000"), ("i32", "100000"), ("i32", "-100000")]:
        add("constant %s = %s" % (ty, val), "namespace n { const %s C = %s; const %s OTHER = 1; struct S { a : u8; } archive A { v : vector< S >; } archive B { r : raw_data; } }" % (ty, val, ty))
    for ty in ("u8", "i8", "u64", "i64", "i32", "u16"):
        n = Numbers()
        hi = (1 << (NATIVE[ty] - (ty in SIGNED))) - 1
        add("unknown constant " + ty, "namespace n { const %s C = %s; struct S { @const( C ) a : %s; b : u8; } archive A { v : S; } }" % (ty, n(0, hi), ty), n)

    # resources
    kinds = ["vector< S >", "S", "multivector< 33, S >", "multivector< 32, S, T >", "multivector< 8, T, S, .m.S >", "raw_data", "archive Sub", "archive .m.Sub",
             "vector< .m.S >", ".m.S", "vector< T >"]
    base = """namespace m { struct S { s : u32 : 7; t : i8; } archive Sub { data : vector< S >; } }
              namespace n { struct S { x : u32 : 30; y : i16; z : u64; } struct T { k : u16; l : bool; } archive Sub { q : raw_data; @optional w : T; } %s }"""
    for k in kinds:
        for opt in ("", "@optional "):
            for refs in (0, 1, 2):
                if refs and ("raw" in k or "archive" in k or "m.S >" in k and "multi" not in k or k in (".m.S", "vector< T >")):
                    continue
                er = ["@explicit_reference( S.x, other ) ", "@explicit_reference( .n.S.y, A.res ) @explicit_reference( S.z, .n.A.last ) "]
                r = er[refs - 1] if refs else ""
                for swap in ((0, 1) if refs == 1 else (0,)):
                    d = (opt + r) if not swap else (r + opt)
                    add("resource %s%s" % (d, k), base % ("archive A { other : vector< T >; %sres : %s; last : vector< S >; }" % (d, k)))
    # all kinds in one archive, in different orders
    full = ["vec : vector< S >;", "@optional inst : T;", "multi : multivector< 20, S, T >;", "@optional blob : raw_data;", "sub : archive Sub;",
            "@optional sub2 : archive .m.Sub;", "@optional ovec : vector< .m.S >;", "omulti : multivector< 40, .m.S >;", "blob2 : raw_data;", "inst2 : S;",
            "@optional @explicit_reference( S.x, vec ) omv : multivector< 20, T, S >;"]
    for k in range(4):
        body = full[k:] + full[:k] if k % 2 == 0 else list(reversed(full[k:] + full[:k]))
        add("all resource kinds %d" % k, base % ("archive A { %s }" % " ".join(body)))
    # bindings
    for b in ["@bound_implicitly( b : v, w )", "@bound_implicitly( b : w, v, x )", "@bound_implicitly( b : v ) @bound_implicitly( c : w, x )",
              "@bound_implicitly( b : .n.A.v, A.w )", "@bound_implicitly( b : v, w ) @bound_implicitly( c : v, x )"]:
        for er in ("", "@explicit_reference( S.x, b ) "):
            add("bindings " + b + er, base % ("%s archive A { v : vector< S >; w : vector< T >; @optional x : vector< .m.S >; %sy : vector< S >; }" % (b, er)))
    # namespaces, scoping and order
    add("nested namespaces", """namespace a.b.c { struct S { x : u8 : 3; } const u16 K = 4; } namespace a.b { enum E : u8 : 2 { P, Q } struct S { e : E; f : u8 : 4; }
        archive A { v : vector< S >; w : vector< c.S >; z : vector< .a.b.c.S >; s : archive .x.A; } } namespace x { archive A { r : raw_data; } struct Unused { u : u8; } }""")
    add("declarations after use", """namespace n { archive A { v : vector< S >; b : archive B; } archive B { m : multivector< 16, S, T >; } struct T { @optional( K ) k : u32 : 20; e : E; }
        struct S { e : F; g : E; } enum F : i8 : 4 { M = -8, N } enum E : u8 : 4 { X = 0xF, } const u32 K = 0xFFFFF; const i64 FREE = -5; }""")
    add("split namespaces", """namespace n { struct S { a : u8; } } namespace k { struct S { b : .n.E; } } namespace n { enum E : u8 : 1 { Z } archive A { v : vector< S >; w : vector< .k.S >; } }
        namespace k { archive A { i : S; } archive B { a : archive A; b : archive .n.A; c : archive A; } }""")
    add("same names", """namespace n { enum E : u8 : 2 { P, Q, R } const u32 K = 3; struct S { e : E; @optional( K ) f : u32 : 7; } archive A { v : vector< S >; w : vector< .k.S >; } }
        namespace k { enum E : i16 : 7 { Q = -5, P } const u32 K = 900; struct S { a : u8 : 3; e : E; @optional( K ) f : u32 : 11; g : .n.E; } archive A { v : vector< S >; a : archive .n.A; } }""")
    add("deep sub-archives", """namespace n { struct S { a : u8; } archive D { v : vector< S >; } archive C { d : archive D; @optional e : archive D; } archive B { c : archive C; d : archive D; }
        archive A { b : archive B; @optional c : archive C; } const u8 FREE = 7; struct U { @const( USED ) a : u8; } const u8 USED = 9; archive Z { }}""")
    add("shared multivector widths", """namespace n { struct S { a : u8; } struct T { b : u8; } archive A { m : multivector< 8, S >; k : multivector< 8, T >; l : multivector< 9, S, T >; }
        archive B { m : multivector< 8, S >; } } namespace k { archive C { m : multivector< 8, .n.S >; } }""")
    n = Numbers()
    add("wide struct", """namespace n { struct S { %s } struct One { b : bool; } archive A { v : vector< S >; o : One; r : vector< One >; m : multivector< 64, S, One >; } }"""
        % " ".join("f%d : %s : %s;" % (i, ty, n(1, NATIVE[ty]) if NATIVE[ty] > 1 else "1") for i, ty in
                   enumerate(["u64", "i64", "u8", "i8", "bool", "u16", "i16", "u32", "i32", "bool", "u64"])), n)
    add("comments", """/** file */ namespace n { /** doc of S */ struct S { // first
        a : u8; /** doc of b */ b : u16 : 9; } /* c */ const u8 C = 4; // trailing """ + "\n" + """ /** archive doc */ archive A { /** doc of v */ v : vector< S >; } }""")
    out[-1].text = out[-1].text.replace("// first", "// first\n").replace("// trailing", "// trailing\n")
    return out
