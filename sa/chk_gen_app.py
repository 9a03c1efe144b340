"""G15: command line driver and the error family of the tree builder."""
import posixpath
import re

from . import corpus, schema
from .chk_gen_tree import spread, verdict, is_syntax_error
from .genlib import *
from .report import Report

STUBS = {
    "sys": '''
argv = ["generator"] + ARGV
class _Stream:
    def write(self, text):
        return len(text)
    def flush(self):
        pass
stderr = _Stream()
stdout = _Stream()
version_info = (3, 12, 0)
def exit(code=None):
    raise SystemExit(code)
''',
    "logging": '''
DEBUG = 10
INFO = 20
WARNING = 30
ERROR = 40
CRITICAL = 50
FATAL = 50
class Logger:
    level = 0
    def __getattr__(self, name):
        return _nothing
def _nothing(*a, **k):
    return None
def getLogger(*a):
    return Logger()
class StreamHandler(Logger):
    pass
class Formatter(Logger):
    pass
basicConfig = debug = info = warning = error = critical = fatal = exception = log = disable = warn = _nothing
''',
    "argparse": '''
import sys
class Namespace:
    def __init__(self, **k):
        for n in k:
            setattr(self, n, k[n])
class RawDescriptionHelpFormatter:
    pass
class ArgumentDefaultsHelpFormatter:
    pass
class ArgumentError(Exception):
    pass
class ArgumentTypeError(Exception):
    pass
class ArgumentParser:
    def __init__(self, *a, **k):
        self._args = []
    def add_argument(self, *names, **k):
        dest = k.get("dest")
        if dest is None:
            long = [n for n in names if n.startswith("--")]
            dest = (long or list(names))[0].lstrip("-").replace("-", "_")
        self._args.append((names, dest, k))
    def add_argument_group(self, *a, **k):
        return self
    add_mutually_exclusive_group = add_argument_group
    def set_defaults(self, **k):
        for n in k:
            self._args.append(((), n, {"default": k[n]}))
    def error(self, message):
        sys.exit(2)
    def exit(self, status=0, message=None):
        sys.exit(status)
    def print_usage(self, *a):
        pass
    print_help = print_usage
    def parse_args(self, args=None, namespace=None):
        args = list(sys.argv[1:] if args is None else args)
        out = namespace or Namespace()
        for names, dest, k in self._args:
            flag = k.get("action") == "store_true"
            setattr(out, dest, k.get("default", False if flag else None))
        given = set()
        i = 0
        while i < len(args):
            hit = None
            for entry in self._args:
                if args[i] in entry[0]:
                    hit = entry
            if hit is None:
                self.error("unrecognized arguments")
            names, dest, k = hit
            given.add(dest)
            action = k.get("action", "store")
            if action == "store":
                i += 1
                v = args[i]
                if k.get("type") is not None:
                    v = k["type"](v)
                if k.get("choices") is not None and v not in k["choices"]:
                    self.error("invalid choice")
                setattr(out, dest, v)
            elif action == "store_true":
                setattr(out, dest, True)
            elif action == "store_false":
                setattr(out, dest, False)
            elif action == "store_const":
                setattr(out, dest, k["const"])
            else:
                raise NotImplementedError(action)
            i += 1
        for names, dest, k in self._args:
            if k.get("required") and dest not in given:
                self.error("the following arguments are required")
        return out
''',
    "pathlib": '''
class Path:
    def __init__(self, *parts):
        self._p = path_join(*parts)
    def __str__(self):
        return self._p
    def __fspath__(self):
        return self._p
    def __truediv__(self, o):
        return Path(self._p, o)
    @property
    def parent(self):
        return Path(path_dirname(self._p))
    @property
    def name(self):
        return path_basename(self._p)
    def resolve(self, strict=False):
        return Path(path_abs(self._p))
    absolute = resolve
    def exists(self):
        return path_exists(self._p)
    def is_file(self):
        return path_isfile(self._p)
    def is_dir(self):
        return path_isdir(self._p)
    def open(self, mode="r", *a, **k):
        return open(self._p, mode)
    def read_text(self, *a, **k):
        with open(self._p, "r") as f:
            return f.read()
    def write_text(self, text, *a, **k):
        with open(self._p, "w") as f:
            return f.write(text)
    def mkdir(self, mode=0, parents=False, exist_ok=False):
        path_mkdir(self._p, parents, exist_ok)
    def unlink(self, missing_ok=False):
        if not missing_ok or path_exists(self._p):
            path_unlink(self._p)
    def replace(self, o):
        path_rename(self._p, o)
    rename = replace
PurePath = PosixPath = Path
''',
    "$file": '''
class File:
    def __init__(self, name, mode):
        self.name = name
        self.mode = mode
        self.closed = False
        self._read = False
    def read(self, *a):
        data = "" if self._read else fs_read(self.name, self.mode)
        self._read = True
        return data
    def readlines(self):
        return self.read().splitlines(True)
    def __iter__(self):
        return iter(self.readlines())
    def write(self, text):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return fs_write(self.name, self.mode, text)
    def writelines(self, lines):
        for line in lines:
            self.write(line)
    def flush(self):
        pass
    def fileno(self):
        return 3
    def close(self):
        self.closed = True
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
''',
}


def path_of(I, p):
    if isinstance(p, Obj) and "_p" in p.attrs:
        p = p.attrs["_p"]
    if not isinstance(p, str):
        raise Top("path %r" % (p,))
    return p


def world(I, argv, files, dirs):
    """argument vector and file system; fs: path -> text"""
    I.fs = dict(files)
    I.dirs = set(dirs)
    full = lambda p: posixpath.normpath(posixpath.join("/cwd", path_of(I, p)))

    def opn(J, a, k):
        p = full(a[0])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(mode, str):
            raise Top("mode %r" % (mode,))
        if p in I.dirs:
            J.throw("IsADirectoryError", p)
        if "r" in mode:
            if p not in I.fs:
                J.throw("FileNotFoundError", p)
        else:
            if posixpath.dirname(p) not in I.dirs:
                J.throw("FileNotFoundError", p)
            if "x" in mode and p in I.fs:
                J.throw("FileExistsError", p)
            if "a" not in mode or p not in I.fs:
                I.fs[p] = ""
        return J.call(fm["File"], [p, mode], {})

    def fs_read(J, a, k):
        if "r" not in a[1] and "+" not in a[1]:
            J.throw("ValueError", "not readable")
        return I.fs[a[0]].encode() if "b" in a[1] else I.fs[a[0]]

    def fs_write(J, a, k):
        p, mode, text = a
        if "r" in mode and "+" not in mode:
            J.throw("ValueError", "not writable")
        if "b" in mode:
            text = text.decode() if isinstance(text, bytes) else J.throw("TypeError", "a bytes-like object is required")
        elif not isinstance(text, str):
            if isinstance(text, T) and text.ty == "str":
                I.fs[p] = cat([I.fs[p], text])
                return 0
            J.throw("TypeError", "write() argument must be str")
        I.fs[p] = cat([I.fs[p], text]) if not isinstance(I.fs[p], str) else I.fs[p] + text
        return len(text)

    def mkdir(J, a, k):
        p = full(a[0])
        parents = a[1] if len(a) > 1 else k.get("parents", False)
        ok = a[2] if len(a) > 2 else k.get("exist_ok", False)
        if p in I.dirs or p in I.fs:
            if not ok or p in I.fs:
                J.throw("FileExistsError", p)
            return
        if not parents and posixpath.dirname(p) not in I.dirs:
            J.throw("FileNotFoundError", p)
        while p not in I.dirs:
            I.dirs.add(p)
            p = posixpath.dirname(p)

    def unlink(J, a, k):
        if full(a[0]) not in I.fs:
            J.throw("FileNotFoundError", full(a[0]))
        del I.fs[full(a[0])]

    def rename(J, a, k):
        if full(a[0]) not in I.fs:
            J.throw("FileNotFoundError", full(a[0]))
        I.fs[full(a[1])] = I.fs.pop(full(a[0]))

    exists = lambda J, a, k: full(a[0]) in I.fs or full(a[0]) in I.dirs
    isfile = lambda J, a, k: full(a[0]) in I.fs
    isdir = lambda J, a, k: full(a[0]) in I.dirs
    fspath = lambda f: lambda J, a, k: f(*[path_of(J, x) for x in a])
    I.models.update({
        "open": opn, "io.open": opn, "codecs.open": opn, "os.path.exists": exists, "os.path.isfile": isfile, "os.path.isdir": isdir,
        "os.path.abspath": lambda J, a, k: full(a[0]), "os.path.realpath": lambda J, a, k: full(a[0]),
        "os.path.dirname": fspath(posixpath.dirname), "os.path.basename": fspath(posixpath.basename), "os.path.normpath": fspath(posixpath.normpath),
        "os.path.join": fspath(posixpath.join), "os.path.split": fspath(posixpath.split), "os.path.splitext": fspath(posixpath.splitext), "os.fspath": fspath(lambda p: p),
        "os.makedirs": lambda J, a, k: mkdir(J, [a[0], True, a[2] if len(a) > 2 else k.get("exist_ok", False)], {}),
        "os.mkdir": lambda J, a, k: mkdir(J, [a[0]], {}), "os.remove": unlink, "os.unlink": unlink, "os.replace": rename, "os.rename": rename,
        "shutil.move": rename, "os.fsync": lambda J, a, k: None, "os.getcwd": lambda J, a, k: "/cwd", "os.access": exists,
    })
    env = {"fs_read": fs_read, "fs_write": fs_write, "path_join": fspath(posixpath.join), "path_dirname": fspath(posixpath.dirname),
           "path_basename": fspath(posixpath.basename), "path_abs": lambda J, a, k: full(a[0]), "path_exists": exists, "path_isfile": isfile,
           "path_isdir": isdir, "path_mkdir": mkdir, "path_unlink": unlink, "path_rename": rename}
    fm = {}
    for name, text in STUBS.items():
        m = Module(name, None)
        m.ns.update({n: Native(n, f) for n, f in env.items()})
        m.ns["ARGV"] = list(argv)
        m.ns["__name__"] = name
        I.modules[name] = m
        if name == "$file":
            fm = m.ns
        sc = Scope("module", None, m)
        sc.vars = m.ns
        I.exec_body(ast.parse(text).body, sc)


GOOD = """namespace n { const u8 C = 5; enum E : u8 : 2 { A, B } struct S { a : u8 : 3; b : i32; e : E; @range( r ) f : u16; }
/** doc */ archive Inner { blob : raw_data; } archive A { v : vector< S >; inst : T; @optional m : multivector< 16, S2 >; raw : raw_data; inner : archive Inner; }
struct T { t : u64; } struct S2 { t : i8 : 2; } }"""
BAD = {
    "not a schema": "hello", "unterminated": "namespace n { struct S { a : u8; }", "unknown reference": "namespace n { archive A { v : vector< S >; } }",
    "field too wide": "namespace n { struct S { a : u8 : 9; } }", "duplicate": "namespace n { struct S { a : u8; } struct S { a : u8; } }",
    "constant too big": "namespace n { const u8 C = 256; }", "cycle": "namespace n { archive A { b : archive B; } archive B { a : archive A; } }",
    "wrong kind": "namespace n { const u8 S = 1; archive A { v : vector< S >; } }", "bad namespace": "namespace n..m { struct S { a : u8; } }",
    "range in instance": "namespace n { struct S { @range( r ) a : u8; } archive A { i : S; } }",
}
LANGS = {"py": ("python", "PythonGenerator"), "cpp": ("cpp", "CppGenerator"), "rust": ("rust", "RustGenerator"), "go": ("go", "GoGenerator"),
         "flatdata": ("flatdata", "FlatdataGenerator"), "dot": ("dot", "DotGenerator")}
OUTS = ["x.out", "d/x.out", "/abs/new/deep/x.out", "./d/../d2/x.out"]


def g15(prop):
    r = Report(prop, "abstract interpretation of app.main over models of argument parser, file system and process exit; interpretation of the tree builder over "
               "schema shapes with one wrong name, type or number",
               "Every failing command line exits non-zero through sys.exit and leaves the output file as it was; every succeeding one leaves exactly the text of the "
               "requested generator; build_ast either returns a tree or raises a FlatdataSyntaxError.")
    return spread(r, g15_body, 700)


def exit_code(o):
    if o.kind == "return":
        return 0
    if o.kind == "raise" and o.is_exc("SystemExit"):
        a = o.value.attrs.get("args", ())
        c = a[0] if a else None
        return 0 if c is None else c if isinstance(c, int) else 1
    return None


def command(t, argv, files, dirs, extra=None):
    def sc(I):
        setup(I)
        world(I, argv, files, dirs)
        m = I.import_module("flatdata.generator.app")
        if extra:
            I.expected = extra(I)
        I.call(m.ns["main"], [], {})
    t.shapes += 1
    outs = [o for o in run(t.prog, sc, max_paths=2000) if o.kind != "cut"]
    t.partitions += len(outs)
    return outs


def g15_body(r, t, turn):
    dirs = {"/", "/cwd", "/abs"}
    # failing command lines
    cases = []
    for lang in list(LANGS) + ["nope", "", "PY"]:
        if lang not in LANGS:
            cases.append(("unknown language %r" % lang, "/cwd/in.flatdata", {"/cwd/in.flatdata": GOOD}, lang))
        for k, text in BAD.items():
            if lang in ("py", "nope", "cpp"):
                cases.append(("%s, language %r" % (k, lang), "in.flatdata", {"/cwd/in.flatdata": text}, lang))
        cases.append(("missing schema, language %r" % lang, "in.flatdata", {}, lang))
        cases.append(("schema is a directory, language %r" % lang, "/abs", {}, lang))
    cases.append(("unsupported by the language", "in.flatdata", {"/cwd/in.flatdata": GOOD}, "go"))
    for what, path, files, lang in cases:
        for out in (OUTS[:2] if lang in LANGS and lang != "py" else OUTS):
            for old in (None, "OLD"):
                for flags in ([], ["--debug"], ["-v"]):
                    if flags and (out != OUTS[0] or old is None):
                        continue
                    if not turn():
                        continue
                    target = posixpath.normpath(posixpath.join("/cwd", out))
                    fs = dict(files)
                    dd = set(dirs)
                    if old:
                        fs[target] = old
                        d = posixpath.dirname(target)
                        while d not in dd:
                            dd.add(d)
                            d = posixpath.dirname(d)
                    name = "%s -> %s%s%s" % (what, out, " (exists)" if old else "", "".join(flags))
                    for o in command(t, ["-s", path, "-g", lang, "-O", out] + flags, fs, dd):
                        c = exit_code(o)
                        r.ok("failure-exits-nonzero", name, c is not None and c != 0 or c is None and what.startswith("unsupported"), "%s" % (verdict(o) if c is None else "exit status %s" % c), key="failure-exits-nonzero|" + what)
                        r.ok("failure-leaves-output", name, o.I.fs.get(target) == old, "output is %r" % (str(o.I.fs.get(target))[:80],), key="failure-leaves-output|" + what)
                        r.ok("failure-keeps-inputs", name, all(o.I.fs.get(p) == x for p, x in fs.items() if p != target), "an input file was changed",
                             key="failure-keeps-inputs|" + what)
    # succeeding ones
    for lang, (mod, cls) in LANGS.items():
        for out in OUTS:
            for old in (None, "OLD"):
                for flags in ([], ["--debug"], ["--verbose"]):
                    if flags and (out != OUTS[1] or old is None):
                        continue
                    if not turn():
                        continue
                    target = posixpath.normpath(posixpath.join("/cwd", out))
                    fs = {"/cwd/in.flatdata": GOOD_GO if lang == "go" else GOOD}
                    dd = set(dirs)
                    if old:
                        fs[target] = old
                        d = posixpath.dirname(target)
                        while d not in dd:
                            dd.add(d)
                            d = posixpath.dirname(d)

                    def expected(I):
                        g = I.import_module("flatdata.generator.generators." + mod).ns.get(cls)
                        if g is None:
                            raise AnalysisBroken("generator class %s not found" % cls)
                        return I.call(I.getattr(I.call(g, [], {}), "render"), [build(I, fs["/cwd/in.flatdata"])], {})
                    name = "%s -> %s%s%s" % (lang, out, " (exists)" if old else "", "".join(flags))
                    for o in command(t, ["-s", "in.flatdata", "-g", lang, "-O", out] + flags, fs, dd, expected):
                        c = exit_code(o)
                        if r.ok("success-exits-zero", name, c == 0, "%s" % (verdict(o) if c is None else "exit status %s" % c), key="success-exits-zero|" + lang):
                            got = o.I.fs.get(target)
                            r.ok("success-writes-rendered-text", name, got is not None and got == o.I.expected,
                                 "output is %r..., expected %r..." % (str(got)[:60], str(o.I.expected)[:60]), key="success-writes-rendered-text|" + lang)
                            others = {p for p in o.I.fs if p not in fs and p != target}
                            r.ok("success-leaves-nothing-else", name, not others and o.I.fs["/cwd/in.flatdata"] == fs["/cwd/in.flatdata"], "also wrote %s" % sorted(others),
                                 key="success-leaves-nothing-else|" + lang)
    # error family: one name, type or number replaced
    seen = set()
    for text in mutants():
        if text in seen:
            continue
        seen.add(text)
        if not turn():
            continue
        for o in t.run(text):
            r.ok("only-syntax-errors-escape", text, o.kind == "return" or is_syntax_error(o), o.describe()[:300])


GOOD_GO = GOOD.replace("e : E;", "").replace("enum E : u8 : 2 { A, B }", "").replace("inner : archive Inner;", "")      # Go has no enumerations

BASES = [
    "namespace n { const u8 C = 5; enum E : u8 : 2 { P, Q } struct S { @const( C ) a : u8 : 3; e : E; @optional( C ) f : u8; @range( rng ) g : u16; }"
    " archive B { r : raw_data; } archive A { v : vector< S >; b : archive B; } }",
    "namespace n { struct S { x : u32 : 30; } struct T { k : u16; } @bound_implicitly( bd : v, w ) archive A { v : vector< S >; @explicit_reference( S.x, w ) y : vector< S >;"
    " w : vector< T >; m : multivector< 20, S, T >; i : T; } } namespace o { archive Z { a : archive .n.A; } }",
]


def mutants():
    for base in BASES:
        words = [m for m in re.finditer(r"[A-Za-z_.0-9]+|@\w+|[:;{}<>(),=]", base)]
        names = []
        for m in words:
            if re.match(r"[A-Za-z_.]", m.group()) and m.group() not in names:
                names.append(m.group())
        for m in words:
            w = m.group()
            if re.match(r"[A-Za-z_.]", w):
                reps = names + [".n." + x for x in ("S", "A", "A.v", "C", "n", "S.x")] + ["Nope", ".n", "_builtin", "n", "_builtin.multivector.IndexType20"]
            elif w.isdigit():
                reps = ["0", "1", "64", "65", "-1", "007", "0x", "99999999999999999999", "1.5", ""]
            else:
                reps = ["", w + w]
            for x in reps:
                if x != w:
                    yield base[:m.start()] + x + base[m.end():]
