"""flatdata-rs as one crate with generated code and probe functions, lowered to LLVM IR.

The crates flatdata-rs depends on are replaced by the declarations in sa/ruststubs (environment models: their bodies only matter where a
check models them)."""
import os
import shutil
import subprocess
import tempfile

from .report import REPO, AnalysisBroken
from .rustlib import DEBUG, FLAGS, LIB, RELEASE, first_error, rustc

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ruststubs")


class Crate:
    """scratch directory with the compiled stand-ins; `whole` puts the library's modules beside the probes, else it is a separate crate"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="sa-rust-")
        try:
            self.ext = ["-L", self.dir]
            for f in sorted(os.listdir(STUBS)):
                if f.endswith(".rs"):
                    n = f[:-3]
                    self.cc(["--crate-type", "rlib", "--crate-name", n, "-o", os.path.join(self.dir, "lib%s.rlib" % n), os.path.join(STUBS, f)], must=True)
                    self.ext += ["--extern", "%s=%s" % (n, os.path.join(self.dir, "lib%s.rlib" % n))]
            self.lib = None
        except BaseException:
            self.close()
            raise

    def cc(self, args, flags=RELEASE, must=False):
        env = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable"))
        p = subprocess.run([rustc()] + FLAGS + list(flags) + ["--cap-lints", "allow"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, cwd=self.dir, env=env)
        if must and p.returncode:
            raise AnalysisBroken("does not compile: %s" % first_error(p.stderr))
        return p

    def library(self):
        """flatdata-rs as it is, for macros, traits and generic code"""
        if self.lib is None:
            self.lib = os.path.join(self.dir, "libflatdata.rlib")
            if not os.path.exists(os.path.join(LIB, "lib.rs")):
                raise AnalysisBroken("flatdata-rs/lib/src/lib.rs is gone")
            self.cc(["--crate-type", "rlib", "--crate-name", "flatdata", "-o", self.lib, os.path.join(LIB, "lib.rs")] + self.ext, must=True)
        return self.lib

    def probe(self, text, flags=RELEASE):
        """probes using the library crate -> (exit code, IR, diagnostics)"""
        lib = self.library()
        return self.ir("probe", text, self.ext + ["--extern", "flatdata=" + lib], flags)

    def whole(self, text, flags=RELEASE):
        """the library with `text` as its module `probe` -> (exit code, IR, diagnostics)"""
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            for f in os.listdir(LIB):
                if f != "lib.rs":
                    os.symlink(os.path.join(LIB, f), os.path.join(d, f))
            if not os.path.exists(os.path.join(LIB, "lib.rs")):
                raise AnalysisBroken("flatdata-rs/lib/src/lib.rs is gone")
            with open(os.path.join(LIB, "lib.rs")) as f:
                root = f.read()
            with open(os.path.join(d, "probe_of_analysis.rs"), "w") as f:
                f.write(text)
            with open(os.path.join(d, "lib.rs"), "w") as f:
                f.write(root + "\nextern crate self as flatdata;\n#[doc(hidden)] pub mod probe_of_analysis;\n")
            return self.emit(os.path.join(d, "lib.rs"), "flatdata", self.ext, flags)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def ir(self, name, text, args, flags):
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            src = os.path.join(d, name + ".rs")
            with open(src, "w") as f:
                f.write(text)
            return self.emit(src, name, args, flags)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def emit(self, src, name, args, flags):
        out = os.path.join(os.path.dirname(src), "out.ll")
        p = self.cc(["--crate-type", "lib", "--crate-name", name, "--emit=llvm-ir", "-o", out, src] + args, flags)
        ir = ""
        if p.returncode == 0:
            with open(out) as f:
                ir = f.read()
        return p.returncode, ir, p.stderr

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
