"""Compiling witness translation units against /repo's current working tree."""
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("MILO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = ["-DMILO_INTERNAL_ASM=true", "-DMILO_INTERNAL_ABI_UNIX=true"]
BASE = ["-std=c++20", "-I" + REPO + "/src", "-I" + VERIF + "/witness"]

VARIANT = []        # further flags of every witness: the code for constant evaluation instead of that for run time
CONSTEVAL = ["-include", VERIF + "/witness/consteval_on.h"]
if os.environ.get("MILO_VARIANT") == "consteval":
    VARIANT = CONSTEVAL

_tmp = None


class BuildError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="milo-verif-")
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


def bitcode(src, flags=(), defs=DEFS, name=None):
    """witness source -> bitcode; unoptimised IR of the headers, with debug locations."""
    if not os.path.isabs(src):
        src = os.path.join(VERIF, "witness", src)
    out = os.path.join(tmpdir(), (name or os.path.basename(src)) + ".bc")
    cmd = ["clang++"] + BASE + list(defs) + VARIANT + list(flags) + [
        "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", src, "-o", out]
    r = run(cmd)
    if r.returncode:
        raise BuildError("%s does not compile:\n%s" % (src, r.stderr[:4000]))
    return out


def syntax(src_text, compiler="g++", flags=(), defs=DEFS, name="w.cpp"):
    """does this text compile? returns (ok, diagnostics)."""
    p = os.path.join(tmpdir(), name)
    with open(p, "w") as f:
        f.write(src_text)
    r = run([compiler] + BASE + list(defs) + list(flags) + ["-fsyntax-only", p])
    return r.returncode == 0, r.stderr
