"""Reader of rustc's MIR text: functions, locals with their types, basic blocks."""
import re


def short(t):
    """type or path without module prefixes, lifetimes and spaces"""
    t = re.sub(r"\{closure@[^}]*\}", lambda m: m.group(0).replace("::", ";"), t)
    t = re.sub(r"'\w+(, )?", "", t)
    t = re.sub(r"\b(?:[a-z_]\w*::)+(?=[A-Z{])", "", t)
    return re.sub(r"\s+", " ", t).replace("<>", "")


def balanced(s, i):
    """index behind the bracket that closes the one at i"""
    close, depth = {"(": ")", "<": ">", "[": "]", "{": "}"}, 0
    o, c = s[i], close[s[i]]
    j = i
    while j < len(s):
        if s[j] == o:
            depth += 1
        elif s[j] == c and not (c == ">" and s[j - 1] in "-="):
            depth -= 1
            if depth == 0:
                return j + 1
        j += 1
    return len(s)


def split(s):
    """arguments separated by commas outside brackets"""
    out, depth, cur = [], 0, ""
    for k, ch in enumerate(s):
        if ch in "(<[{":
            depth += 1
        elif ch in ")]}" or ch == ">" and s[k - 1] not in "-=":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Fn:
    def __init__(self, name, params, ret):
        self.name, self.ret = name, short(ret)
        self.types = {"_0": self.ret}
        self.params = []
        for p in split(params):
            n, _, t = p.partition(":")
            self.params.append(n.strip())
            self.types[n.strip()] = short(t.strip())
        self.blocks = {}
        self.method = re.sub(r"<impl at [^>]*>", "", name).rpartition("::")[2]
        m = re.search(r"impl at ([^ ]+?):\d+", name)
        self.file = m.group(1) if m else name.partition("::")[0]

    def title(self):
        m = re.search(r"impl at \S*/([\w.]+):(\d+)", self.name)
        return "%s::%s" % (m.group(1) if m else "", re.sub(r"^.*>::", "", self.name)) if m else self.name


class Call:
    def __init__(self, dst, callee, args, to):
        self.dst, self.callee, self.args, self.to = dst, callee, args, to


def parse(text):
    fns, f, block = [], None, None
    for line in text.splitlines():
        if line.startswith("fn "):
            i = line.index("(_1") if "(_1" in line else line.index("() ")
            j = balanced(line, i)
            ret = line[j:].strip()
            ret = ret[2:].strip() if ret.startswith("->") else "()"
            f = Fn(line[3:i], line[i + 1:j - 1], ret.rstrip("{").strip())
            fns.append(f)
            block = None
            continue
        if line and not line[0].isspace():
            f = None if line.startswith("}") or not line.startswith("fn ") else f
            continue
        if f is None:
            continue
        s = line.strip()
        m = re.match(r"let (?:mut )?(_\d+): (.*);$", s)
        if m:
            f.types[m.group(1)] = short(m.group(2))
            continue
        m = re.match(r"(bb\d+)(?: \(cleanup\))?: \{$", s)
        if m:
            block = f.blocks[m.group(1)] = []
            continue
        if s == "}":
            block = None
            continue
        if block is not None and s.endswith(";"):
            block.append(statement(s[:-1]))
    return fns


def targets(s):
    return re.findall(r"bb\d+", s)


def statement(s):
    if s.startswith(("drop(",)):
        m = re.match(r"drop\((.*?)\) -> \[return: (bb\d+)", s)
        return ("drop", m.group(1), m.group(2))
    if s.startswith("switchInt("):
        i = balanced(s, 9)
        arms = re.findall(r"(\w+): (bb\d+)", s[i:])
        return ("switch", s[10:i - 1], arms)
    if s.startswith("goto"):
        return ("goto", targets(s)[0])
    if s.startswith("assert("):
        return ("goto", re.search(r"success: (bb\d+)", s).group(1))
    if s.startswith(("falseEdge", "falseUnwind")):
        return ("goto", targets(s)[0])
    if s in ("return", "unreachable", "resume") or s.startswith("terminate"):
        return ("end", s)
    m = re.match(r"(\S.*?) = (.*)$", s)
    if m and re.search(r"\) -> (?:\[return|unwind|\[unwind|bb)", s):
        dst, rest = m.groups()
        k = re.search(r"\) -> [^()]*$", rest).start()
        depth, i = 0, k
        while i >= 0:
            if rest[i] == ")":
                depth += 1
            elif rest[i] == "(":
                depth -= 1
                if depth == 0:
                    break
            i -= 1
        t = re.search(r"return: (bb\d+)", rest[k:])
        return ("call", Call(dst, rest[:i], split(rest[i + 1:k]), t.group(1) if t else None))
    if m:
        return ("assign", m.group(1), m.group(2))
    return ("other", s)
