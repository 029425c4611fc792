"""Compile /repo's library translation units (and reference definitions) to LLVM IR.  Nothing is executed."""
import os, subprocess, tempfile, glob, shutil, atexit, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("ECOS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang-18" if shutil.which("clang-18") else "/usr/lib/llvm-18/bin/clang"
OPT = "opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt"

class BuildError(Exception):
    pass

def flags(repo=None):
    repo = repo or REPO
    inc = ["include", "ecos_bb", "external/amd/include", "external/ldl/include", "external/SuiteSparse_config"]
    return ["-I%s/%s" % (repo, i) for i in inc] + ["-DCTRLC=1", "-DLDL_LONG", "-DDLONG"]

def library_sources(repo=None):
    """The units of the library: everything in src/, ecos_bb/ and the vendored ordering/factorisation code
    except the command line drivers."""
    repo = repo or REPO
    out = []
    for pat in ("src/*.c", "ecos_bb/*.c", "external/ldl/src/*.c", "external/amd/src/*.c"):
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            b = os.path.basename(f)
            if b.startswith("runecos"):
                continue
            out.append(f)
    return out

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="ecosir.")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

def compile_one(src, extra=(), repo=None, outdir=None, passes="sroa,mem2reg,loop-simplify"):
    outdir = outdir or tmpdir()
    name = os.path.relpath(src, "/").replace("/", "_")
    raw = os.path.join(outdir, name + ".raw.ll")
    ll = os.path.join(outdir, name + ".ll")
    # helpers of the interrupt module are seen through: its rule is about the order of the system calls
    flat = os.path.basename(src) == "ctrlc.c"
    if flat: passes = "cgscc(inline),sroa,mem2reg,globaldce"
    cmd = [CLANG] + (["-O1", "-Xclang", "-disable-llvm-passes"] if flat else ["-O0"]) + ["-g", "-gno-column-info", "-std=gnu99", "-ffp-contract=off", "-w", "-fno-discard-value-names",
           "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm"] + flags(repo) + list(extra) + [src, "-o", raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("clang failed on %s:\n%s" % (src, r.stderr))
    r = subprocess.run([OPT, "-S", "-inline-threshold=100000", "-passes=" + passes, raw, "-o", ll], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("opt failed on %s:\n%s" % (src, r.stderr))
    os.unlink(raw)
    return ll

def compile_all(srcs, extra=(), repo=None):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_one(s, extra, repo), srcs))

def only(paths, repo=None):
    repo = repo or REPO
    return [os.path.join(repo, p) for p in paths]
