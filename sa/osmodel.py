"""Models of POSIX file calls and of the libstdc++ tree functions, for the IR interpreter."""
from .cppenv import *
from .cpplib import is_nul
from .dom import *
from .llvm import *


def m_strnlen(M, name, args):
    p, n = args
    if not is_int(n):
        raise Unsupp("strnlen of an unknown number of bytes")
    for i in range(int(n)):
        if is_nul(M, M.load_byte(p.o, lin_add(p.off, i))):
            return i
    return n


def m_strcpy(M, name, args):
    n = strlen_of(M, args[1])
    M.memcpy(args[0], args[1], n + 1)
    return args[0]


def strlen_of(M, p):
    from .cpplib import strlen
    return strlen(M, "strlen", [p])


# ---- tree of std::map: color, parent, left, right

def ld(M, n, k):
    return M.pointer(M.load(PTR, P(n.o, lin_add(n.off, 8 * k))))


def st(M, n, k, v):
    M.store(PTR, v, P(n.o, lin_add(n.off, 8 * k)))


PARENT, LEFT, RIGHT = 1, 2, 3


def same(a, b):
    return isinstance(a, P) and isinstance(b, P) and a.o is b.o and a.off == b.off or (is_int(a) and is_int(b) and a == b)


def is_header(M, n):
    """the header's colour is red and its parent's parent is itself"""
    p = ld(M, n, PARENT)
    c = M.load(I32, n)
    return is_int(c) and c == 0 and isinstance(p, P) and same(ld(M, p, PARENT), n)


def m_tree_insert(M, name, args):
    left, x, p, h = args
    st(M, x, PARENT, p)
    st(M, x, LEFT, 0)
    st(M, x, RIGHT, 0)
    M.store(I32, 1, x)                        # no node but the header is red; no rebalancing
    left = M.bool_of(left)
    if not isinstance(left, bool):
        left = M.I.choose(M.term(left))
    if left:
        st(M, p, LEFT, x)
        if same(p, h):
            st(M, h, PARENT, x)
            st(M, h, RIGHT, x)
        elif same(p, ld(M, h, LEFT)):
            st(M, h, LEFT, x)
    else:
        st(M, p, RIGHT, x)
        if same(p, ld(M, h, RIGHT)):
            st(M, h, RIGHT, x)
    return None


def m_tree_increment(M, name, args):
    n = args[0]
    r = ld(M, n, RIGHT)
    if isinstance(r, P):
        while isinstance(ld(M, r, LEFT), P):
            r = ld(M, r, LEFT)
        return r
    y = ld(M, n, PARENT)
    while same(n, ld(M, y, RIGHT)):
        n, y = y, ld(M, y, PARENT)
    return n if same(ld(M, n, RIGHT), y) else y


def m_tree_decrement(M, name, args):
    n = args[0]
    if is_header(M, n):
        return ld(M, n, RIGHT)
    l = ld(M, n, LEFT)
    if isinstance(l, P):
        while isinstance(ld(M, l, RIGHT), P):
            l = ld(M, l, RIGHT)
        return l
    y = ld(M, n, PARENT)
    while same(n, ld(M, y, LEFT)):
        n, y = y, ld(M, y, PARENT)
    return y


TREE = {"_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_": [(None, m_tree_insert)],
        "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": [(None, m_tree_increment)], "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base": [(None, m_tree_increment)],
        "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base": [(None, m_tree_decrement)], "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base": [(None, m_tree_decrement)]}


# ---- files: M.world.file(path) -> memory object, or None if there is no such file

def errno(M):
    if not hasattr(M, "errno_object"):
        M.errno_object = M.alloc("errno", 4)
        M.store(I32, 0, P(M.errno_object, 0))
    return P(M.errno_object, 0)


def m_errno(M, name, args):
    return errno(M)


def m_open(M, name, args):
    path = c_text(M, args[0])
    f = M.world.file(M, path)
    M.world.log.append(("open", path, args[1]))
    if f is None:
        M.store(I32, 2, errno(M))
        return 0xFFFFFFFF
    M.world.fds = getattr(M.world, "fds", {})
    fd = 3 + len(M.world.fds)
    M.world.fds[fd] = f
    return fd


def m_close(M, name, args):
    M.world.log.append(("close", args[0]))
    return 0


def m_fstat(M, name, args):
    f = M.world.fds[int(args[0])]
    M.store(I64, f.size, P(args[1].o, lin_add(args[1].off, 48)))
    M.store(I32, 0o100644, P(args[1].o, lin_add(args[1].off, 24)))
    return 0


def m_mmap(M, name, args):
    addr, n, prot, flags, fd, off = args
    f = M.world.fds[int(fd)]
    if not (is_int(off) and off == 0):
        raise Unsupp("mapping of a part of a file")
    if is_int(prot) and int(prot) & 2:
        M.fault("maps a file for writing")
    d = lin_add(M.term(n), f.size, -1)
    if d != 0:
        raise Unsupp("mapping of %s of %s bytes" % (n, f.size))
    return P(f, 0)


def m_munmap(M, name, args):
    M.world.log.append(("munmap", args[0]))
    return 0


def m_strerror(M, name, args):
    o = M.alloc("strerror", 6)
    for i, c in enumerate(b"error\0"):
        M.store(I8, c, P(o, i))
    return P(o, 0)


POSIX = {"strerror": [(None, m_strerror)], "open": [(None, m_open)], "close": [(None, m_close)], "fstat": [(None, m_fstat)], "mmap": [(None, m_mmap)], "munmap": [(None, m_munmap)],
         "__errno_location": [(None, m_errno)], "strnlen": [(None, m_strnlen)], "strcpy": [(None, m_strcpy)],
         "sysconf": [(None, lambda M, name, args: 4096)]}

FILES = dict(ENV)
FILES.update(TREE)
FILES.update(POSIX)


# ---- exceptions of the standard library and the log stream

def m_exception(M, name, args):
    vt = M.alloc("exception vtable", 24)
    vt.cells[16] = (8, FnP("exception_what"))
    M.store(PTR, P(vt, 0), args[0])


def m_what(M, name, args):
    return m_strerror(M, name, args)


def log_stream(M):
    """std::clog, with a character type that widens"""
    o = stream_object(M, "clog")
    c = M.alloc("ctype", 576)
    c.cells[56] = (1, 1)
    for i in range(256):
        c.cells[57 + i] = (1, i)
    o.cells[8 + 240] = (8, P(c, 0))
    return o


for n in ("_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
          "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1EOS_", "_ZNSt13runtime_errorC1ERKS_"):
    FILES[n] = [(None, m_exception)]
FILES["exception_what"] = FILES["_ZNKSt13runtime_error4whatEv"] = [(None, m_what)]
FILES["_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = [(None, lambda M, name, args: args[0])]
