"""Front end: turns the current working tree of the repository into a resolved program dump.

Every run parses the sources afresh (the cache key is the content of every repository source file),
with clang's own front end, so callees, overloads, fields, implicit conversions and template
instantiations are the compiler's, not text matches."""
import hashlib, json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SFA_REPO", "/repo")
WORK = os.environ.get("SFA_WORK", os.path.join(VERIF, ".work"))


class Broken(Exception):
    """The analysis could not be carried out (exit 2, never a verdict)."""


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def llvm_prefix():
    for p in ("/usr/lib/llvm-18",):
        if os.path.exists(p + "/include/clang/AST/AST.h"):
            return p
    raise Broken("clang 18 development headers not found")


def exporter():
    src = os.path.join(VERIF, "tools/exporter/export.cpp")
    out = os.path.join(WORK, "export-" + _sha(src)[:16])
    if os.path.exists(out):
        return out
    os.makedirs(WORK, exist_ok=True)
    p = llvm_prefix()
    lib = p + "/lib/libclang-cpp.so.18.1"
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-O1", "-fno-rtti", "-std=c++17", "-w", "-I" + p + "/include", src, "-o", tmp,
           lib, p + "/lib/libLLVM.so", "-Wl,-rpath," + p + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("building the exporter failed:\n" + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def _patch(src, dst, subs):
    with open(src) as f:
        t = f.read()
    for a, b in subs:
        if a not in t:
            raise Broken("cannot adapt %s: %r not found" % (src, a))
        t = t.replace(a, b)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(t)


def gen_headers():
    """Headers the build would generate, plus the differences between the absl the sources are
    written for and the one installed here."""
    proto = os.path.join(REPO, "protos/params.proto")
    fuset = os.path.join(REPO, "sources/is_fuse_t.h.in")
    key = hashlib.sha256((_sha(proto, fuset, __file__)).encode()).hexdigest()[:16]
    out = os.path.join(WORK, "gen-" + key)
    if os.path.exists(out + "/ok"):
        return out
    tmp = out + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    r = subprocess.run(["protoc", "--cpp_out=" + tmp, "-I", os.path.dirname(proto), proto],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("protoc failed: " + r.stderr)
    with open(fuset) as f:
        t = f.read()
    import re
    with open(tmp + "/is_fuse_t.h", "w") as f:
        f.write(re.sub(r"@[A-Z_]+@", "false", t))
    _patch("/usr/include/absl/base/options.h", tmp + "/absl/base/options.h",
           [("#define ABSL_OPTION_USE_STD_STRING_VIEW 0", "#define ABSL_OPTION_USE_STD_STRING_VIEW 1"),
            ("#define ABSL_OPTION_USE_STD_VARIANT 0", "#define ABSL_OPTION_USE_STD_VARIANT 1"),
            ("#define ABSL_OPTION_USE_STD_OPTIONAL 0", "#define ABSL_OPTION_USE_STD_OPTIONAL 1"),
            ("#define ABSL_OPTION_USE_STD_ANY 0", "#define ABSL_OPTION_USE_STD_ANY 1")])
    _patch("/usr/include/absl/synchronization/mutex.h", tmp + "/absl/synchronization/mutex.h",
           [("  Condition(bool (*func)(void *), void *arg);",
             "  Condition(bool (*func)(void *), void *arg);\n"
             "  template <typename T, typename = void>\n"
             "  Condition(bool (*func)(const T *), T *arg);\n")])
    open(tmp + "/ok", "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


FLAGS = ["-std=c++17", "-D_FILE_OFFSET_BITS=64", "-DFUSE_USE_VERSION=29", "-w",
         "-ferror-limit=0", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


def includes(gen):
    return ["-I" + gen, "-I" + VERIF + "/tools/stubs", "-I" + REPO + "/sources",
            "-isystem", "/usr/include/fuse"]


def list_tus():
    d = os.path.join(REPO, "sources")
    return sorted(f for f in os.listdir(d) if f.endswith(".cpp") and f != "win.cpp")


def tree_hash():
    d = os.path.join(REPO, "sources")
    fs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith((".cpp", ".h", ".in"))]
    return _sha(*fs)


def dump(tus=None):
    """Parse the translation units and return the list of their dumps."""
    exp = exporter()
    gen = gen_headers()
    allt = list_tus()
    if tus is None:
        tus = allt
    missing = [t for t in tus if t not in allt]
    tus = [t for t in tus if t in allt]
    key = hashlib.sha256((tree_hash() + exp + gen + REPO).encode()).hexdigest()[:20]
    out = os.path.join(WORK, "dump-" + key)
    os.makedirs(out, exist_ok=True)

    def one(tu):
        dst = os.path.join(out, tu + ".json")
        if not os.path.exists(dst):
            tmp = dst + ".%d" % os.getpid()
            src = os.path.join(REPO, "sources", tu)
            cmd = [exp, tmp, tu, REPO.rstrip("/") + "/", src, "--"] + FLAGS + includes(gen)
            r = subprocess.run(cmd, capture_output=True, text=True)
            if not os.path.exists(tmp):
                raise Broken("parsing %s failed:\n%s" % (tu, r.stderr[-2000:]))
            with open(tmp + ".err", "w") as f:
                f.write(r.stderr)
            os.rename(tmp + ".err", dst + ".err")
            os.rename(tmp, dst)
        with open(dst) as f:
            d = json.load(f)
        with open(dst + ".err") as f:
            d["diag"] = f.read()
        return d

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(one, tus))
    # Keep the cache small: drop dumps of other trees.
    for n in os.listdir(WORK):
        if n.startswith("dump-") and n != "dump-" + key:
            p = os.path.join(WORK, n)
            try:
                import time
                if time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass
    return res, missing
