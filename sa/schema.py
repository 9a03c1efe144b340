"""Independent reader of the flatdata schema language: text -> declarations with every default made explicit.

Used as oracle: the checks compare what the interpreted generator produces with what this reader says the schema means.
Numbers may be unknowns written as tokens; they are kept as given."""
import re

NATIVE = {"bool": 1, "i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}
TOKEN = re.compile(r"(?P<ws>\s+)|(?P<com>/\*.*?\*/|//[^\n]*)|(?P<num>-?(?:0x[0-9a-fA-F]+|\d+))|(?P<name>[A-Za-z_.][A-Za-z0-9_.]*)|(?P<p>[{}<>():;,=@])", re.S)


class Bad(Exception):
    pass


def tokens(text):
    i, out = 0, []
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise Bad("cannot read schema text at %r" % text[i:i + 30])
        i = m.end()
        if m.lastgroup not in ("ws", "com"):
            out.append(m.group())
    return out


def number(s):
    return int(s, 16) if "0x" in s else int(s)


class Reader:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("text ends early")
        self.i += 1
        return self.t[self.i - 1]

    def want(self, s):
        x = self.next()
        if x != s:
            raise Bad("expected %r, found %r" % (s, x))

    def opt(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def name(self):
        x = self.next()
        if not re.match(r"[A-Za-z_.]", x):
            raise Bad("expected a name, found %r" % x)
        return x

    def num(self):
        x = self.next()
        if not re.match(r"-?\d", x):
            raise Bad("expected a number, found %r" % x)
        return number(x)

    def schema(self):
        out = []
        while self.peek() is not None:
            self.want("namespace")
            self.namespace("", out)
        return out

    def namespace(self, prefix, out):
        p = prefix + "." + self.name()
        self.want("{")
        while not self.opt("}"):
            if self.opt("namespace"):
                self.namespace(p, out)
            else:
                out.append(self.decl(p))

    def deco(self):
        """[(name, args)]"""
        out = []
        while self.opt("@"):
            n = self.name()
            a = None
            if self.opt("("):
                a = []
                while not self.opt(")"):
                    a.append(self.next())
            out.append((n, a))
        return out

    def decl(self, ns):
        d = self.deco()
        k = self.name()
        if k == "const":
            ty, n = self.name(), self.name()
            self.want("=")
            v = self.num()
            self.want(";")
            return {"kind": "const", "ns": ns, "path": ns + "." + n, "name": n, "type": ty, "value": v}
        n = self.name()
        if k == "enum":
            self.want(":")
            ty = self.name()
            w = self.num() if self.opt(":") else NATIVE[ty]
            self.want("{")
            vals, cur = [], 0
            while not self.opt("}"):
                vn = self.name()
                if self.opt("="):
                    cur = self.num()
                vals.append((vn, cur))
                cur += 1
                self.opt(",")
            return {"kind": "enum", "ns": ns, "path": ns + "." + n, "name": n, "type": ty, "width": w, "values": vals}
        if k == "struct":
            self.want("{")
            fields = []
            while not self.opt("}"):
                fd = self.deco()
                fn = self.name()
                self.want(":")
                ty = self.name()
                w = self.num() if self.opt(":") else None
                self.want(";")
                f = {"name": fn, "type": ty, "width": w, "range": None, "consts": [], "optional": None}
                for dn, a in fd:
                    if dn == "range":
                        f["range"] = a[0]
                    elif dn == "const":
                        f["consts"].append(a[0])
                    elif dn == "optional":
                        f["optional"] = a[0]
                    else:
                        raise Bad("decoration @%s of a field" % dn)
                fields.append(f)
            return {"kind": "struct", "ns": ns, "path": ns + "." + n, "name": n, "fields": fields}
        if k == "archive":
            self.want("{")
            res = []
            while not self.opt("}"):
                rd = self.deco()
                rn = self.name()
                self.want(":")
                ty = self.name()
                r = {"name": rn, "types": [], "width": None, "optional": False, "refs": []}
                if ty == "vector":
                    self.want("<")
                    r["kind"], r["types"] = "vector", [self.name()]
                    self.want(">")
                elif ty == "multivector":
                    self.want("<")
                    r["kind"], r["width"] = "multivector", self.num()
                    while self.opt(","):
                        r["types"].append(self.name())
                    self.want(">")
                elif ty == "raw_data":
                    r["kind"] = "raw_data"
                elif ty == "archive":
                    r["kind"], r["types"] = "archive", [self.name()]
                else:
                    r["kind"], r["types"] = "instance", [ty]
                self.want(";")
                for dn, a in rd:
                    if dn == "optional" and a is None:
                        r["optional"] = True
                    elif dn == "explicit_reference":
                        src, dst = "".join(a).split(",")
                        r["refs"].append((src, dst))
                    else:
                        raise Bad("decoration @%s of a resource" % dn)
                res.append(r)
            bounds = []
            for dn, a in d:
                if dn != "bound_implicitly":
                    raise Bad("decoration @%s of an archive" % dn)
                bn, _, rest = "".join(a).partition(":")
                bounds.append((bn, rest.split(",")))
            return {"kind": "archive", "ns": ns, "path": ns + "." + n, "name": n, "resources": res, "bounds": bounds}
        raise Bad("declaration %r" % k)


class Schema:
    def __init__(self, text):
        self.decls = Reader(text).schema()
        self.by_path = {}
        self.symbols = set()
        for d in self.decls:
            if d["path"] in self.by_path:
                raise Bad("%s is declared twice" % d["path"])
            self.by_path[d["path"]] = d
            self.symbols.add(d["path"])
            for f in d.get("fields", ()):
                self.symbols.add(d["path"] + "." + f["name"])
            for x in d.get("resources", ()):
                self.symbols.add(d["path"] + "." + x["name"])
            for b in d.get("bounds", ()):
                self.symbols.add(d["path"] + "." + b[0])
            p = d["ns"]
            while p:
                self.symbols.add(p)
                p = p.rpartition(".")[0]

    def res(self, d, ref, keep=()):
        if ref in keep:
            return ref
        if ref.startswith("."):
            return ref
        for s in (d["path"], d["ns"]):
            if s + "." + ref in self.symbols:
                return s + "." + ref
        return "?" + ref

    def normal_field(self, d, f):
        ty = self.res(d, f["type"], NATIVE)
        w = f["width"]
        if w is None:
            w = NATIVE[ty] if ty in NATIVE else self.by_path[ty]["width"] if ty in self.by_path else None
        return (f["name"], ty, w, f["range"], tuple(self.res(d, c) for c in f["consts"]), self.res(d, f["optional"]) if f["optional"] else None)

    def normal_resource(self, d, r):
        refs = []
        for s, t in r["refs"]:
            st, _, fl = s.rpartition(".")
            refs.append((self.res(d, st), fl, self.res(d, t)))
        return (r["name"], r["kind"], r["width"], tuple(self.res(d, t) for t in r["types"]), r["optional"], tuple(refs))

    def normal(self, d, only=None):
        """declaration with absolute names; only: restrict an archive to one resource (resource schema)"""
        if d["kind"] == "const":
            return ("const", d["path"], d["type"], d["value"])
        if d["kind"] == "enum":
            return ("enum", d["path"], d["type"], d["width"], tuple(d["values"]))
        if d["kind"] == "struct":
            return ("struct", d["path"], tuple(self.normal_field(d, f) for f in d["fields"]))
        if only is not None:
            return ("archive", d["path"], (), tuple(self.normal_resource(d, r) for r in d["resources"] if r["name"] == only))
        return ("archive", d["path"], tuple((n, tuple(self.res(d, x) for x in ts)) for n, ts in d["bounds"]),
                tuple(self.normal_resource(d, r) for r in d["resources"]))

    def loose_constants(self):
        """constants no field refers to; they belong to every archive"""
        used = set()
        for d in self.decls:
            if d["kind"] == "struct":
                for f in d["fields"]:
                    used.update(self.res(d, c) for c in f["consts"])
                    if f["optional"]:
                        used.add(self.res(d, f["optional"]))
        return [d["path"] for d in self.decls if d["kind"] == "const" and d["path"] not in used]

    def direct(self, n):
        """paths a normal-form declaration depends on directly"""
        out = set()
        if n[0] == "struct":
            for _, ty, _, _, cs, op in n[2]:
                if ty not in NATIVE:
                    out.add(ty)
                out.update(cs)
                if op:
                    out.add(op)
        if n[0] == "archive":
            for _, _, _, types, _, refs in n[3]:
                out.update(types)
                out.update(s for s, _, _ in refs)
        return out

    def closure(self, path, only=None):
        """expected declarations of the stored schema of the node: {path: normal form}"""
        out = {}
        todo = [(path, only)]
        while todo:
            p, o = todo.pop()
            if p in out:
                continue
            d = self.by_path.get(p)
            if d is None:
                continue
            n = out[p] = self.normal(d, o)
            todo += [(q, None) for q in self.direct(n)]
            if d["kind"] == "archive" and o is None:
                todo += [(q, None) for q in self.loose_constants()]
        return out


def check_text(schema, path, only, text):
    """problems of a stored schema text with respect to what it has to contain"""
    want = schema.closure(path, only)
    try:
        got = Schema(text)
    except Bad as e:
        return ["not a readable schema: %s" % e]
    out = []
    order = [d["path"] for d in got.decls]
    for p in want:
        if p not in order:
            out.append("%s is missing" % p)
    for d in got.decls:
        if d["path"] not in want:
            out.append("%s is not a dependency" % d["path"])
            continue
        n = literal(d)
        if n != want[d["path"]]:
            out.append("%s reads %s, expected %s" % (d["path"], n, want[d["path"]]))
    for p in order:
        if p in want:
            for q in schema.direct(want[p]):
                if q in order and order.index(q) > order.index(p):
                    out.append("%s appears after its dependent %s" % (q, p))
    return out


def literal(d):
    """normal form of a declaration read from stored text, where every name has to be spelled absolutely"""
    if d["kind"] == "const":
        return ("const", d["path"], d["type"], d["value"])
    if d["kind"] == "enum":
        return ("enum", d["path"], d["type"], d["width"], tuple(d["values"]))
    if d["kind"] == "struct":
        return ("struct", d["path"], tuple((f["name"], f["type"], f["width"], f["range"], tuple(f["consts"]), f["optional"]) for f in d["fields"]))
    res = []
    for r in d["resources"]:
        refs = tuple((s.rpartition(".")[0], s.rpartition(".")[2], t) for s, t in r["refs"])
        res.append((r["name"], r["kind"], r["width"], tuple(r["types"]), r["optional"], refs))
    return ("archive", d["path"], tuple((n, tuple(ts)) for n, ts in d["bounds"]), tuple(res))
