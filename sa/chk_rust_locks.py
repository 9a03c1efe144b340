"""R04: Rust storages shared by threads.

Lockset and typestate analysis of the MIR of flatdata-rs: which guards are held where, in which order locks are taken (through calls and
closures), and which operations on a guarded map can drop an entry whose bytes have been handed out."""
import os
import re

from . import mir
from .mir import short
from .report import Report, AnalysisBroken
from .rustcrate import Crate
from .rustlib import LIB, first_error

GUARD = re.compile(r"(?:MutexGuard|RwLockReadGuard|RwLockWriteGuard)<")
OWNED_REF = re.compile(r"^&(?:'\w+ )?(?:mut )?(?=[\w:]*(?:BTreeMap|HashMap)<)")
OWNED = re.compile(r"^(?:&|\*)")
LENT = "lent"
# operations on a map that can drop values kept in it
DROPS = {"remove", "remove_entry", "clear", "retain", "pop_first", "pop_last", "append", "extend", "extract_if", "drain", "split_off", "first_entry", "last_entry", "insert_entry"}
HANDS = re.compile(r"(?:from_raw_parts|transmute)\b")


def guard_class(t):
    """what the guard in a value of this type protects, or None"""
    if OWNED.match(t):
        return None
    m = GUARD.search(t)
    if not m:
        return None
    return short(t[m.end():mir.balanced(t, m.end() - 1) - 1])


def local_of(x):
    m = re.search(r"_\d+", x)
    return m.group(0) if m else None


def base(callee):
    """(self type or None, method) of a called path"""
    c = callee.strip()
    if c.startswith("<"):
        i = mir.balanced(c, 0)
        t = re.sub(r" as .*", "", c[1:i - 1])
        rest = c[i:]
    else:
        t, rest = None, c
    parts, depth, cur = [], 0, ""
    k = 0
    while k < len(rest):
        if rest[k] in "<({[":
            depth += 1
        elif rest[k] in ")}]" or rest[k] == ">" and rest[k - 1] != "-":
            depth -= 1
        if depth == 0 and rest.startswith("::", k):
            parts.append(cur)
            cur = ""
            k += 2
            continue
        cur += rest[k]
        k += 1
    parts.append(cur)
    parts = [p for p in parts if p and not p.startswith("<")]
    m = re.sub(r"<.*", "", parts[-1]) if parts else ""
    if t is None and len(parts) > 1:
        t = parts[-2]
    return re.sub(r"^&(mut )?", "", short(t)) if t else None, m


class Program:
    def __init__(self, text):
        self.fns = mir.parse(text)
        self.closures = {}
        self.methods = {}
        for f in self.fns:
            if f.params and "{closure@" in f.types[f.params[0]] and "{closure" in f.name:
                self.closures[re.search(r"\{closure@[^}]*\}", f.types[f.params[0]]).group(0)] = f
            else:
                self.methods.setdefault(f.method, []).append(f)
        self.acq = {}
        self.protected = set()
        self.protected = {guard_class(f.types.get(c.dst, "")) for f in self.fns for c in self.calls(f) if self.locks(f, c)} - {None}

    def lent(self, f):
        """parameters that are references to what a lock protects: the caller holds it"""
        return {p: short(OWNED_REF.sub("", f.types[p])) for p in f.params if OWNED_REF.match(f.types[p]) and short(OWNED_REF.sub("", f.types[p])) in self.protected}

    def asks(self, g):
        """g only answers whether a key is in a map lent to it"""
        calls = self.calls(g)
        return bool(self.lent(g)) and g.ret == "bool" and [base(c.callee)[1] for c in calls if base(c.callee)[1] not in ("deref", "as_ref", "borrow", "as_str")] == ["contains_key"] \
            and not any(s[0] == "switch" for b in g.blocks.values() for s in b) and any(c.dst == "_0" for c in calls)

    def callees(self, f, c):
        """functions of the crate a call can enter"""
        out = []
        t, m = base(c.callee)
        for g in self.methods.get(m, ()):
            own = [g.types[p] for p in g.params[:1]] + [g.ret]
            if t is None or re.match(r"^[a-z_]\w*$", t):
                if "impl at" not in g.name:
                    out.append(g)
            elif any(re.search(r"\b%s\b" % re.escape(re.sub(r"<.*", "", t)), o) for o in own):
                out.append(g)
        if not out and re.match(r"^[A-Z]\w*$", t or "") and not any(t in v for v in f.types.values() if re.search(r"\b(?:std|alloc|core)::[\w:]*\b%s\b" % t, v)):
            # a function of a type that does not mention the type
            out += [g for g in self.methods.get(m, ()) if "impl at" in g.name and len(g.params) == len(c.args) and self.lent(g)]
        for a in c.args:
            l = local_of(a)
            ty = f.types.get(l, "") + (a if "{closure@" in a else "")
            for k in re.findall(r"\{closure@[^}]*\}", ty):
                if k in self.closures:
                    out.append(self.closures[k])
        return out

    def calls(self, f):
        return [s[1] for b in f.blocks.values() for s in b if s[0] == "call"]

    def locks(self, f, c):
        """lock classes this call acquires itself"""
        t, m = base(c.callee)
        if m in ("lock", "read", "write", "try_lock") and re.match(r"(?:Mutex|RwLock)\b", t or ""):
            return [guard_class(f.types.get(c.dst, "")) or "?"]
        return []

    def acquires(self, f):
        """lock classes f may take, itself or through what it calls"""
        if f.name in self.acq:
            return self.acq[f.name]
        self.acq[f.name] = set()
        out = set()
        for c in self.calls(f):
            out |= set(self.locks(f, c))
            for g in self.callees(f, c):
                out |= self.acquires(g)
        self.acq[f.name] = out
        return out


def roots(f, prog):
    """local -> guards (locals) it points into; flow-insensitive"""
    r = {l: {l} for l, t in f.types.items() if guard_class(t)}
    r.update({l: {l} for l in prog.lent(f)})
    change = True
    while change:
        change = False
        for b in f.blocks.values():
            for s in b:
                if s[0] == "assign":
                    dst, src = s[1], re.findall(r"_\d+", s[2])
                elif s[0] == "call":
                    dst, src = s[1].dst, [x for a in s[1].args for x in re.findall(r"_\d+", a)]
                else:
                    continue
                d = local_of(dst)
                t = f.types.get(d, "")
                if d is None or guard_class(t):
                    continue
                # owned results do not point into what they were made from, except wrappers of references
                if not ("&" in t or "*" in t or "Entry<" in t or "Iter" in t or "Drain" in t):
                    continue
                new = set().union(*[r.get(x, set()) for x in src]) if src else set()
                if not new <= r.get(d, set()):
                    r[d] = r.get(d, set()) | new
                    change = True
    return r


class State:
    __slots__ = ("held", "absent", "known")

    def __init__(self, held=(), absent=(), known=()):
        self.held = frozenset(held)        # (local, class, token)
        self.absent = frozenset(absent)    # tokens under which the key was looked up and not found
        self.known = frozenset(known)      # (local, token, polarity): true/1 iff found

    def key(self):
        return self.held, self.absent, self.known


def explore(prog, f, visit, absent=()):
    """visit(kind, block, statement, state, roots) at every statement reached in every state"""
    rt = roots(f, prog)
    first = sorted(f.blocks, key=lambda b: int(b[2:]))[:1]
    lent = prog.lent(f)
    work = [(b, State([(p, c, LENT + p) for p, c in lent.items()], [LENT + p for p in lent if p in absent])) for b in first]
    done = set()
    while work:
        b, st = work.pop()
        if (b, st.key()) in done:
            continue
        done.add((b, st.key()))
        if len(done) > 20000:
            raise AnalysisBroken("too many states in " + f.title())
        for s in f.blocks[b]:
            visit(b, s, st, rt)
            nxt = None
            if s[0] == "assign":
                st = assign(f, st, s[1], s[2])
            elif s[0] == "drop":
                st = release(st, local_of(s[1]) if re.match(r"^_\d+$", s[1]) else None)
                nxt = [(s[2], st)]
            elif s[0] == "goto":
                nxt = [(s[1], st)]
            elif s[0] == "end":
                nxt = []
            elif s[0] == "switch":
                nxt = switch(st, s)
            elif s[0] == "call":
                c = s[1]
                st = call(prog, f, st, c, b, rt)
                nxt = [(c.to, st)] if c.to else []
            if nxt is not None:
                work += nxt
                break


def release(st, l):
    toks = {t for x, _, t in st.held if x == l}
    return State([h for h in st.held if h[0] != l], st.absent - toks, [k for k in st.known if k[1] not in toks])


def assign(f, st, dst, src):
    d = local_of(dst)
    held, known = set(st.held), set(st.known)
    known = {k for k in known if k[0] != d or dst != d}
    m = re.match(r"^(?:move |copy )?\(*\(?(_\d+)\b", src)
    x = local_of(src)
    if x and "move" in src:
        for h in list(held):
            if h[0] == x and guard_class(f.types.get(d, "")):
                held.discard(h)
                held.add((d,) + h[1:])
    if x:
        for k in list(known):
            if k[0] == x:
                if re.match(r"^Not\(", src):
                    known.add((d, k[1], not k[2]))
                elif re.match(r"^(?:move |copy |&|discriminant\()", src):
                    known.add((d, k[1], k[2]))
    return State(held, st.absent, known)


def switch(st, s):
    x = local_of(s[1])
    out = []
    ks = [k for k in st.known if k[0] == x]
    for v, to in s[2]:
        absent = set(st.absent)
        for _, tok, pol in ks:
            zero = v == "0"
            if zero == pol:          # found iff value is not 0: value 0 means absent
                absent.add(tok)
        out.append((to, State(st.held, absent, st.known)))
    return out


def call(prog, f, st, c, b, rt):
    t, m = base(c.callee)
    d = local_of(c.dst)
    held, known = set(st.held), {k for k in st.known if k[0] != d}
    cls = guard_class(f.types.get(d, ""))
    moved = [local_of(a) for a in c.args if a.startswith("move")]
    carried = [h for h in held if h[0] in moved and guard_class(f.types.get(h[0], ""))]
    for h in carried:
        held.discard(h)
    if cls:
        same = [h for h in carried if h[1] == cls]
        if same:
            held |= {(d,) + h[1:] for h in same}
        else:
            held.add((d, cls, b))
    tokens = {h[2] for h in held}
    toks = {h[2] for a in c.args[:1] for g in rt.get(local_of(a), ()) for h in st.held if h[0] == g}
    if m in ("contains_key", "get", "get_mut", "get_key_value") and len(toks) == 1:
        known.add((d, next(iter(toks)), True))
    if len(toks) == 1 and any(prog.asks(g) for g in prog.callees(f, c)):
        known.add((d, next(iter(toks)), True))
    if m in ("is_some", "is_none"):
        for k in st.known:
            if k[0] == local_of(c.args[0]):
                known.add((d, k[1], k[2] if m == "is_some" else not k[2]))
    return State(held, {a for a in st.absent if a in tokens}, {k for k in known if k[1] in tokens})


def r04(prop):
    r = Report(prop, "lockset, lock-order and typestate analysis of the MIR of flatdata-rs (guards held per path, locks taken through calls and closures, entries of guarded "
               "maps whose bytes are handed out)",
               "Every function of flatdata-rs that takes a lock, all its paths; locks are identified by the type they protect.")
    w = Crate()
    try:
        out = os.path.join(w.dir, "lib.mir")
        p = w.cc(["--crate-type", "lib", "--crate-name", "flatdata", "--emit=mir", "-o", out, os.path.join(LIB, "lib.rs")] + w.ext, flags=["-C", "opt-level=0"])
        if p.returncode:
            raise AnalysisBroken("flatdata-rs does not compile: " + first_error(p.stderr))
        with open(out) as f:
            prog = Program(f.read())
    finally:
        w.close()
    body(r, prog)
    return r.finish()


def visitor(prog, f, edges, handed, sites, now):
    lent = prog.lent(f)

    def cls_of(g):
        return lent.get(g) or guard_class(f.types[g])

    def visit(b, s, st, rt):
        if s[0] != "call":
            if s[0] == "assign" and s[1].startswith("(*") and not s[1].startswith("(*_1)"):
                for g in rt.get(local_of(s[1]), ()):
                    sites.append((f, "assignment", cls_of(g), "an entry is assigned to", False))
            return
        c = s[1]
        t, m = base(c.callee)
        new = set(prog.locks(f, c))
        for g in prog.callees(f, c):
            new |= prog.acquires(g)
        for g in prog.callees(f, c):
            borrowed = prog.lent(g)
            for p, a in zip(g.params, c.args):
                if p in borrowed:
                    toks = {h[2] for x in rt.get(local_of(a), ()) for h in st.held if h[0] == x}
                    now[g.name, p] = now.get((g.name, p), True) and bool(toks) and toks <= st.absent
        moved = {local_of(a) for a in c.args if a.startswith("move")}
        for l, cls, tok in st.held:
            for x in new if not tok.startswith(LENT) else ():
                edges.setdefault((cls, x), set()).add(f.title())
        gs = [g for a in c.args[:1] for g in rt.get(local_of(a), ())]
        if HANDS.search(c.callee):
            for a in c.args:
                for g in rt.get(local_of(a), ()):
                    handed.setdefault(cls_of(g), set()).add(f.title())
        ty = short(t or "")
        for g in gs:
            cls = cls_of(g)
            is_map = re.match(r"(?:BTreeMap|HashMap)\b", ty)
            if is_map and m == "insert":
                toks = {h[2] for h in st.held if h[0] == g}
                sites.append((f, "insert", cls, "an entry is inserted without having been found absent since the lock was taken, and replaces the one another thread inserted meanwhile",
                              bool(toks) and toks <= st.absent))
            elif is_map and m in DROPS or "OccupiedEntry" in ty and m in ("insert", "remove", "remove_entry"):
                sites.append((f, m, cls, "entries are dropped by %s()" % m, False))
            elif is_map and m == "entry" or "VacantEntry" in ty and m == "insert":
                sites.append((f, m, cls, "", True))
        if m in ("take", "replace", "swap") and re.search(r"\bmem::", c.callee):
            for a in c.args:
                for g in rt.get(local_of(a), ()):
                    sites.append((f, "mem::" + m, cls_of(g), "the entries are moved out", False))
    return visit


def body(r, prog):
    edges, handed, sites, n = {}, {}, [], 0
    calls = {}      # (function, parameter) -> is the key known to be absent, at every call
    todo = [f for f in prog.fns if any(guard_class(t) for t in f.types.values()) or prog.acquires(f) or prog.lent(f)]
    for rounds in range(4):
        seen = dict(calls)
        edges, handed, sites, n = {}, {}, [], 0
        now = {}
        for f in todo:
            explore(prog, f, visitor(prog, f, edges, handed, sites, now), {p for p in prog.lent(f) if seen.get((f.name, p))})
            n += 1
        calls = now
        if now == seen:
            break
    order(r, edges)
    for f, what, cls, msg, good in sites:
        if cls in handed:
            r.ok("entries-kept", "%s: %s on %s" % (f.title(), what, cls), good, "%s: bytes of %s are handed out by %s" % (msg, cls, ", ".join(sorted(handed[cls]))))
    locks = sorted({c for f in prog.fns for x in prog.calls(f) for c in prog.locks(f, x)})
    for c in locks:
        r.ok("lock-known", c, c != "?", "a lock whose content is not known")
    r.extra["functions with locks"] = n
    r.extra["locks"] = locks
    r.extra["lock order"] = ["%s before %s (%s)" % (a, b, ", ".join(sorted(v))) for (a, b), v in sorted(edges.items())]
    r.extra["handed out"] = {k: sorted(v) for k, v in handed.items()}
    unsafe_impls(r)
    r.floor("functions with locks", n, 4)
    r.floor("maps whose bytes are handed out", len(handed), 1)
    r.floor("operations that change these maps", len([1 for s in sites if s[2] in handed]), 1)


def order(r, edges):
    """no two locks are taken in both orders, also through others"""
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, work = set(), [a]
        while work:
            x = work.pop()
            for y in succ.get(x, ()):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return False
    for (a, b), fs in sorted(edges.items()):
        back = sorted({f for (x, y), v in edges.items() if y == a and (x == b or reach(b, x)) for f in v})
        r.ok("lock-order", "%s, then %s" % (a, b), not reach(b, a) and a != b,
             "%s takes %s while it holds %s; taken in the opposite order by %s" % (", ".join(sorted(fs)), b, a, ", ".join(back) or "itself"))


def unsafe_impls(r):
    """the compiler decides what may be shared, unless it is told"""
    for d, _, names in sorted(os.walk(LIB)):
        for x in sorted(names):
            if x.endswith(".rs"):
                with open(os.path.join(d, x)) as f:
                    text = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"", " ", f.read(), flags=re.S)
                bad = re.search(r"unsafe\s+impl\s*(?:<[^{]*?>)?\s*(?:[\w:]+::)?(Send|Sync)\b|\bstatic\s+mut\b|\bUnsafeCell\b", text)
                r.ok("sharing-checked", x, bad is None, "shares data without the compiler's checks: %s" % (bad and bad.group(0)))
