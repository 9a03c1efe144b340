"""Models of the C++ run-time functions the generated IR calls, and readers of C++ objects in the abstract memory."""
from .llvm import *
from .dom import *


def new(M, name, args):
    n = args[0]
    return P(M.alloc("new", n if is_int(n) else M.term(n)), 0)


def delete(M, name, args):
    p = args[0]
    if isinstance(p, P):
        if p.o.freed:
            M.fault("double delete of %s" % p.o)
        p.o.freed = True
    return None


def strlen(M, name, args):
    p = args[0]
    n = 0
    while True:
        M.access(P(p.o, lin_add(p.off, n)) if isinstance(p, P) else p, 1, "strlen")
        if is_nul(M, M.load_byte(p.o, lin_add(p.off, n))):
            return n
        n += 1


def is_nul(M, b):
    """is the byte zero? an unknown one is followed as both"""
    if b is UNDEF:
        M.fault("an undefined byte decides")
    if is_int(b):
        return int(b) == 0
    try:
        if any(x.const() == 1 for x in M.bits(b, 8)):
            return False
    except Top:
        pass
    return M.I.pick(2) == 0


def str_create(M, name, args):
    cap = M.load(I64, args[1])
    return P(M.alloc("chars", lin_add(cap, 1)), 0)


STR = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
BASE = {STR + "9_M_createERmm": [(None, str_create)],
        "_Znwm": [(None, new)], "_ZdlPv": [(None, delete)], "_ZdlPvm": [(None, delete)], "strlen": [(None, strlen)], "_Znam": [(None, new)], "_ZdaPv": [(None, delete)]}


def text_at(M, p, n):
    out = bytearray()
    for i in range(n):
        b = M.load_byte(p.o, lin_add(p.off, i))
        if not is_int(b):
            raise Unsupp("unknown text")
        out.append(int(b))
    return bytes(out).decode("utf-8", "replace")


def std_string(M, o, off=0):
    """text of a std::string object (libstdc++ layout: pointer, length)"""
    p = M.load(PTR, P(o, off))
    n = M.load(I64, P(o, off + 8))
    return text_at(M, p, int(n))


def c_text(M, p):
    return text_at(M, p, strlen(M, "strlen", [p]))
