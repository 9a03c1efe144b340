"""Lowering of Rust probes with modules of flatdata-rs to LLVM IR."""
import os
import shutil
import subprocess
import tempfile

from .report import REPO, AnalysisBroken

LIB = os.path.join(REPO, "flatdata-rs/lib/src")
FLAGS = ["-C", "opt-level=2", "-C", "panic=abort", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "codegen-units=1", "-A", "warnings", "--edition", "2018"]
RELEASE = ["-C", "debug-assertions=off", "-C", "overflow-checks=off"]
DEBUG = ["-C", "debug-assertions=on", "-C", "overflow-checks=on"]


def rustc():
    for c in ("/usr/local/bin/rustc", shutil.which("rustc") or ""):
        if c and os.path.exists(c):
            return c
    raise AnalysisBroken("rustc not found")


def compile_rust(text, flags=RELEASE, extra=()):
    """-> (exit code, IR, diagnostics)"""
    d = tempfile.mkdtemp(prefix="sa-rust-")
    try:
        src = os.path.join(d, "probe.rs")
        with open(src, "w") as f:
            f.write(text)
        out = os.path.join(d, "probe.ll")
        env = dict(os.environ, RUSTUP_TOOLCHAIN=os.environ.get("RUSTUP_TOOLCHAIN", "stable"))
        p = subprocess.run([rustc(), "--crate-type", "lib", "--crate-name", "probe", "--emit=llvm-ir", "-o", out, src] + FLAGS + list(flags) + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, cwd=d, env=env)
        ir = ""
        if p.returncode == 0:
            with open(out) as f:
                ir = f.read()
        return p.returncode, ir, p.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_error(err):
    for l in err.splitlines():
        if l.startswith("error"):
            return l[:220]
    return err[-220:]
