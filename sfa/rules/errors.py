"""How failures are reported: callbacks, error numbers, system calls, code that must not throw."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from ..escape import Escapes, tname

OPS = "securefs::FuseHighLevelOpsBase"


def stripped_path(P, S, k, t):
    return S.path(k, t)


# ------------------------------------------------------------------------------------------- callbacks
def op_fields(P):
    """assignments to fields of fuse_operations: (field, rhs node, function)"""
    out = []
    for f in P.funcs.values():
        for n in f.nodes():
            if n.get("k") == "asg" and n["a"].get("k") == "mem" and n["a"]["f"].startswith("fuse_operations::"):
                out.append((n["a"]["f"].split("::")[-1], n["b"], f))
    return out


def fn_refs(P, f, node):
    out = []
    for n in slice_nodes(f, node):
        if n.get("k") == "fn" and n.get("f") in P.funcs:
            out.append(P.funcs[n["f"]])
        elif n.get("k") == "lambda" and n["f"] in P.funcs:
            out.append(P.funcs[n["f"]])
    return out


def vops(P):
    """the virtual file system operations: name -> key of the base declaration"""
    r = P.rec_by_t.get(OPS)
    if not r:
        return {}
    return {m["key"]: m["n"] for m in r["methods"] if m.get("virt") and m.get("ret") == "int"
            and base(m["n"]).startswith("v")}


def vop_keys(P):
    c = P.__dict__.get("_vopkeys")
    if c is None:
        c = set()
        for k in vops(P):
            c.add(k)
            c |= P.all_overriders(k)
        P._vopkeys = c
    return c


def callbacks(P):
    cb = {}
    for field, node, f in op_fields(P):
        for g in fn_refs(P, f, node):
            cb.setdefault(g.key, (field, g))
    return cb


@rule("E01")
def no_exception_leaves_a_callback(P, R):
    """Every function installed in fuse_operations is a root.  A fixpoint over the call graph computes which
    exceptions can leave each function, honouring try blocks and rethrows; every virtual file system operation
    is taken to throw any std::exception, the throw expressions of the repository throw their own type.  No
    exception may leave a callback, and every type thrown anywhere in the repository is a std::exception, so
    that the handlers cover it."""
    ks = vop_keys(P)
    R.need(ks, "virtual file system operations")
    S = Escapes(P, lambda n: "std::exception" if n.get("vt") and n.get("f") in ks else None)
    cb = callbacks(P)
    R.need(cb, "functions installed as FUSE callbacks")
    for k, (field, g) in sorted(cb.items()):
        R.fn(g)
        esc = S.inside(k)
        esc = {t: w for t, w in esc.items()}
        t = sorted(esc)[0] if esc else None
        R.ob("callback", g.sn if not g.d.get("lambda") else "fuse_operations::" + field, not esc, g.where,
             "%s can leave the callback" % ", ".join(sorted(esc)) if esc else "", S.path(k, t) if t else [])
    seen = {}
    for f in P.funcs.values():
        for n in f.nodes():
            if n.get("k") == "throw" and n.get("t"):
                seen.setdefault(tname(n["t"]), []).append((f, n))
    R.need(seen, "throw expressions")
    for t, us in sorted(seen.items()):
        f, n = us[0]
        R.ob("thrown-type", t, t == "std::exception" or "std::exception" in S.kind_of(t), "%s:%s" % (f.short, n.get("l")),
             "an exception that is not a std::exception passes every handler")


# ------------------------------------------------------------------------------------- noexcept, destructors
STORAGE_FREE = ("securefs::InvalidArgumentException",)


def full_cls(f):
    return f.n[:f.n.rfind("::")]


def ctor_sites(P, S, cls):
    """throw sites already passed by every constructor of a class"""
    out = None
    for f in P.funcs.values():
        if f.d.get("ctor") and full_cls(f) == cls and f.body and f.d["p"]:
            if len(f.d["p"]) == 1 and f.d["p"][0]["t"].startswith(("const " + cls, cls)):
                continue
            o = origins(P, S, f.key)
            out = o if out is None else out & o
    return out or set()


def origins(P, S, k, seen=None):
    """functions containing throw expressions whose exceptions leave k"""
    out = set()
    todo = [k]
    seen = {k}
    while todo:
        x = todo.pop()
        for t, (l, c) in S.inside(x).items():
            pass
        for w, hs in S.shape[x]:
            if w[0] == "throw":
                out.add((x, w[1]))
            elif w[0] == "call":
                for c in w[1]:
                    if c not in seen and S.esc.get(c):
                        seen.add(c)
                        todo.append(c)
    return out


def threads(P):
    """functions run by threads: lambdas or functions given to std::thread"""
    out = {}
    for f in P.funcs.values():
        for n in f.nodes():
            if n.get("k") == "ctor" and PR.strip_t(n.get("cls") or "") in ("std::thread", "std::jthread"):
                for a in n["a"]:
                    for g in fn_refs(P, f, a):
                        out[g.key] = g
    return out


@rule("E05")
def nothing_throws_where_it_would_terminate(P, R):
    """The same exception fixpoint, applied to every destructor, every function declared noexcept and every
    function started as a thread: no exception that reports a storage failure, a failed verification or corrupt
    data (every repository exception except the programmer-error type InvalidArgumentException) may leave it,
    since that ends the process and loses whatever was not written yet.  Scoped guards may repeat a check their
    constructor has already passed."""
    S = Escapes(P)
    n = 0
    th = threads(P)
    for k, f in sorted(P.funcs.items()):
        if not (S.nx(f) or k in th) or not (f.body or f.d.get("inits")):
            continue
        n += 1
        esc = {t: w for t, w in S.inside(k).items() if t not in STORAGE_FREE}
        if "::~" in f.sn and esc and f.cls:
            ok = ctor_sites(P, S, full_cls(f))
            mine = {o for o in origins(P, S, k) if o[1] not in STORAGE_FREE}
            if mine <= ok:
                esc = {}
        R.fn(f)
        t = sorted(esc)[0] if esc else None
        if not esc and not S.shape[k]:
            continue
        R.ob("no-throw", f.sn if not f.d.get("lambda") else "thread in " + (f.owner.sn if f.owner else "?"), not esc, f.where,
             "%s can leave it and terminate the process" % ", ".join(sorted(esc)) if esc else "", S.path(k, t) if t else [])
    R.need(n, "destructors and noexcept functions")
    R.need(th, "threads")


# --------------------------------------------------------------------------------------------- error numbers
class Cb(Rule):
    """what a callback returns when the operation throws"""
    loop_iters = 1
    max_states = 200

    def __init__(s, ks):
        s.ks = ks

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and not base(f.n).startswith("print_function")

    def resolve(s, eng, st, ev, targets):
        return []

    def on_ret(s, eng, st, ev, val):
        if ev.node.get("f") in s.ks:
            st.emit(("op", base(ev.node["n"]), val))
        elif ev.base == "error_number":
            st.emit(("errno", val))

    def throws(s, eng, st, ev):
        if ev.node.get("f") in s.ks:
            return ("securefs::VFSException", "securefs::POSIXException", "std::runtime_error")
        return ()

    def on_catch(s, eng, st, exc, h, fr):
        st.emit(("caught", exc[0]))


@rule("E02")
def errors_are_negative_numbers(P, R):
    """Every callback in fuse_operations is executed symbolically with the virtual operation it calls either
    returning or throwing (a VFSException, another repository exception, a std::exception).  When it throws, the
    callback must return the negation of that exception's error_number(), or a negative constant; when it
    returns, its value must be passed on.  error_number() must yield a positive constant or a stored number;
    every construction of an exception with a number is checked to receive a positive one (a positive constant,
    the current errno, or a value known to be positive there); and no operation returns a positive constant or
    an unnegated errno."""
    ks = vop_keys(P)
    cb = callbacks(P)
    R.need(cb, "functions installed as FUSE callbacks")
    n = 0
    for k, (field, g) in sorted(cb.items()):
        if g.d["ret"] == "void" or g.d["ret"].endswith("*"):
            continue
        outs, eng = R.engine(P, Cb(ks), g)
        bad = set()
        for kind, st, v in outs:
            ops = [e for e in st.trace if e[0] == "op"]
            caught = [e for e in st.trace if e[0] == "caught"]
            if kind != "r":
                continue
            if caught:
                n += 1
                lo, hi = st.rng(v)
                en = [e[1] for e in st.trace if e[0] == "errno"]
                if not (hi < 0 or any(v == scale(x, -1) for x in en)):
                    bad.add("when the operation throws %s the callback returns %s" % (caught[-1][1], show(v)))
            elif not ops or v != ops[-1][2]:
                lo, hi = st.rng(v)
                if not ops and not hi < 0:
                    bad.add("a path reports %s without running the operation" % show(v))
                elif ops and v != ops[-1][2]:
                    bad.add("the operation's result is replaced by %s" % show(v))
        R.ob("callback-result", g.sn, not bad, g.where, "; ".join(sorted(bad)))
    R.need(n, "paths on which an operation throws")
    # the numbers exceptions carry
    nums = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if base(f.sn) != "error_number" or not f.body:
            continue
        nums += 1
        outs, eng = R.engine(P, Plain(), f)
        bad = [show(v) for kind, st, v in outs if kind == "r" and not (
            st.rng(v)[0] > 0 or (v[0] == "in" and v[1][0] == "m"))]
        R.ob("error_number", f.sn, not bad, f.where, "returns " + ", ".join(bad))
    R.need(nums, "error_number()")
    # numbers given to exceptions
    nc = numbered(P)
    R.need(nc, "exceptions that carry a number")
    sites = [f for f in P.funcs.values() if base(f.sn) not in THROWERS and any(
        x.get("k") == "call" and base(x.get("n") or "") in THROWERS or
        x.get("k") == "ctor" and x.get("f") in nc for x in f.nodes()) and not inherits_number(P, f, nc)]
    R.need(sites, "places that throw an error number")
    m = 0
    for f in sorted(sites, key=lambda f: f.key):
        def judge(g, f=f):
            outs, eng = R.engine(P, Num(f.key, nc), g)
            bad = set()
            for kind, st, v in outs:
                for e in st.trace:
                    if e[0] == "num" and e[3] is not True:
                        bad.add("%s: thrown with %s" % (e[1].split("/")[-1], show(e[2])))
            judge.inl = eng.stat_inlined | {g.key}
            _inl[g.key] = judge.inl
            return sorted(bad)
        _inl = {}
        m += 1
        bad = judged_with_lift(P, f, judge, lambda g: _inl.get(g.key, ()), 2)
        R.ob("thrown-number", f.sn, not bad, f.where, "; ".join(bad)[:300])
    # results of the operations themselves
    r = 0
    for k in sorted(ks):
        f = P.funcs.get(k)
        if f is None or not f.body:
            continue
        r += 1
        bad = set()
        outs, eng = R.engine(P, Ret(), f)
        for kind, st, v in outs:
            if kind != "r" or v is None:
                continue
            lo, hi = st.rng(v)
            if lo > 0 and lo == hi:
                bad.add("returns the positive constant %s" % lo)
            elif v[0] == "err":
                bad.add("returns errno without negating it")
        R.ob("operation-result", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(r, "implementations of the operations")


THROWERS = ("throwVFSException", "throwPOSIXExceptionDoNotUseDirectly")
ERRNO = ("g", "errno")


def numbered(P):
    """constructors taking an integer of the classes that have an error_number()"""
    cl = {full_cls(f) for f in P.funcs.values() if base(f.sn) == "error_number"}
    return {f.key for f in P.funcs.values() if f.d.get("ctor") and full_cls(f) in cl and f.d["p"] and f.d["p"][0]["t"] == "int"}


def inherits_number(P, f, nc):
    """a constructor of such a class handing its parameter on"""
    return f.key in nc


class Plain(Rule):
    def inline(s, eng, f, ev):
        return simple(f)


class Ret(Rule):
    loop_iters = 1
    max_states = 120
    max_depth = 4

    def inline(s, eng, f, ev):
        return simple(f, 25) and not f.d.get("ctor")

    def on_call(s, eng, st, ev):
        if ev.base == "__errno_location":
            eng.store(st, ERRNO, ("err", 0))
            return [(st, ("addr", ERRNO))]
        return None


class Num(Rule):
    """positive error numbers"""
    loop_iters = 1
    max_states = 150
    max_depth = 5

    def __init__(s, key, nc=()):
        s.key = key
        s.nc = nc

    def inline(s, eng, f, ev):
        if base(f.n) in LOGGY:
            return False
        return base(f.n) in THROWERS or f.key == s.key or bool(f.d.get("lambda")) or simple(f, 15)

    def on_call(s, eng, st, ev):
        if ev.base == "__errno_location":
            eng.store(st, ERRNO, ("err", 0))
            return [(st, ("addr", ERRNO))]
        if (ev.base in THROWERS or ev.kind == "ctor" and ev.node.get("f") in s.nc) and ev.args:
            v = ev.args[0]
            lo, hi = st.rng(v)
            nz = st.decide(("eq0", v)) is False
            ok = lo > 0 or v[0] == "err" or (nz and (lo >= 0 or zero_or_errno(v))) or err_in(v)
            if v[0] in ("call", "ret") and base(v[1]) in ("abs", "labs") and len(v) > 2:
                ok = ok or nz or st.decide(("eq0", v[2])) is False or st.rng(v[2])[1] < 0
            st.emit(("num", ev.where, v, ok))
        return None


def zero_or_errno(v):
    """POSIX: these return zero or the error number itself"""
    return v[0] in ("ret", "call") and v[1].split("::")[-1].startswith(("posix_spawn", "pthread_", "posix_fallocate"))


def err_in(v):
    return v[0] == "phi" and all(x[0] == "err" or x[0] == "lin" and x[1] > 0 and not x[2] for x in v[1:] if isinstance(x, tuple))


# ---------------------------------------------------------------------------------------------- system calls
FAILS = {b + x for b in ("open", "unlink", "mkdir", "symlink", "link", "rename", "readlink") for x in ("", "at")} | {
    "read", "pread", "write", "pwrite", "pwrite64", "pread64", "open64", "openat64", "fsync", "fdatasync", "ftruncate",
    "ftruncate64", "truncate", "rmdir", "fstat", "fstat64", "fstatat", "fstatat64", "lstat", "stat", "fstatvfs",
    "fstatvfs64", "statvfs", "chmod", "fchmod", "fchmodat", "chown", "lchown", "fchown", "fchownat", "utimensat",
    "futimens", "flock", "setxattr", "lsetxattr", "fsetxattr", "getxattr", "lgetxattr", "fgetxattr", "listxattr",
    "llistxattr", "flistxattr", "removexattr", "lremovexattr", "fremovexattr", "opendir", "realpath", "pipe",
    "renameat2", "fcntl", "fcntl64", "lseek64", "dup", "dup2", "poll", "lseek", "posix_spawnp", "posix_spawn", "sigaction", "creat", "pwritev", "writev", "sync_file_range"}
NULLFAIL = {"opendir", "realpath"}
POSFAIL = {"posix_spawnp", "posix_spawn"}
NOCLOBBER = {"c_str", "data", "size", "begin", "end", "move", "forward", "kill", "waitpid", "empty", "length", "get",
             "__errno_location", "close"}
MUTATE = {"write", "pwrite", "pwrite64"}


def is_sys(n):
    nm = n.get("n") or ""
    return n.get("k") == "call" and "::" not in nm and nm in FAILS and not n.get("o")


class Sys(Rule):
    loop_iters = 2
    max_states = 200
    max_depth = 5

    def __init__(s, key):
        s.key = key

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b in ("norm_path", "stringify_system_error"):
            return False
        return b in THROWERS or (f.d.get("lambda") and f.owner is not None and f.owner.key == s.key) or simple(f, 25)

    def on_call(s, eng, st, ev):
        if ev.base == "__errno_location":
            return [(st, ("addr", ERRNO))]
        if ev.base in THROWERS and ev.args:
            st.emit(("thr", ev.where, ev.base, ev.args[0]))
        return None

    def on_ret(s, eng, st, ev, val):
        if ev.node and is_sys(ev.node):
            eng.store(st, ERRNO, ("err", ev.base, ev.where))
            st.emit(("sys", ev.base, val, ev.where, tuple(ev.args)))
        elif ev.kind == "call" and ev.base not in NOCLOBBER and not ev.base.startswith("operator") and \
                not ev.base.startswith("~") and ev.node and ev.node.get("f") not in eng.stat_inlined:
            if ev.node.get("ext") or ev.node.get("f") in eng.P.funcs:
                eng.store(st, ERRNO, ("err", "?" + ev.base, ev.where))

    def on_assume(s, eng, st, t, v, node, fr):
        for x in subterms(t):
            if x and x[0] == "err":
                st.emit(("errtest", x, t, v))

    def merge_key(s, eng, st):
        return tuple((e[0], e[3], st.rng(e[2])[0] >= 0) for e in st.trace if e[0] == "sys") + \
            tuple((e[0], e[3]) for e in st.trace if e[0] == "errtest")


def succeeded(st, name, v):
    if name in NULLFAIL:
        return st.decide(("eq0", v)) is False
    if name in POSFAIL:
        return st.decide(("eq0", v)) is True
    return st.rng(v)[0] >= 0 or st.decide(("eq0", add(v, I(1)))) is False


def failed(st, name, v):
    if name in NULLFAIL:
        return st.decide(("eq0", v)) is True
    if name in POSFAIL:
        return st.decide(("eq0", v)) is False
    return st.rng(v)[1] < 0


def sys_funcs(P):
    """functions that make system calls, with lambdas folded into their owners"""
    out = {}
    for f in P.funcs.values():
        if any(is_sys(n) for n in f.nodes()):
            g = f
            while g.d.get("lambda") and g.owner is not None:
                g = g.owner
            out[g.key] = g
    return [out[k] for k in sorted(out)]


def sys_runs(P, R, f):
    c = P.__dict__.setdefault("_sysruns", {})
    if f.key not in c:
        c[f.key] = R.engine(P, Sys(f.key), f)
    return c[f.key]


def cannot_report(f):
    return "::~" in f.sn or (f.d.get("nx") and f.d["ret"] == "void")


@rule("E03")
def failures_of_system_calls_are_reported(P, R):
    """Every function that makes a file system call (open, read, write, fsync, rename, unlink, stat, xattr and
    relatives) is executed symbolically over all paths.  On a path where the call failed or may have failed, the
    function must throw, or return a value that depends on the call's result or is negative; a failure may be
    tolerated only where the path has tested errno for one specific number.  A write that transferred fewer
    bytes than asked must not be taken for complete.  Destructors and noexcept functions returning nothing
    cannot report and are listed only."""
    fs = sys_funcs(P)
    R.need(fs, "functions making file system calls")
    n = 0
    for f in fs:
        if cannot_report(f):
            R.notes.append("cannot report: " + f.sn)
            continue
        outs, eng = sys_runs(P, R, f)
        ig, short, k = set(), set(), 0
        for kind, st, v in outs:
            if kind != "r":
                continue
            tests = [e for e in st.trace if e[0] == "errtest" and (e[3] and e[2][0] == "eq0" or
                     not e[3] and e[2][0] == "not" and e[2][1][0] == "eq0")]
            for e in st.trace:
                if e[0] != "sys":
                    continue
                k += 1
                name, val, where = e[1], e[2], e[3]
                if succeeded(st, name, val):
                    if name in MUTATE and len(e[4]) >= 3 and kind == "r":
                        want = e[4][2]
                        d = sub(val, want)
                        if low(st, d) < 0 and not in_loop_progress(st, val, want):
                            short.add("%s at %s may transfer less than asked and still count as done" % (name, where.split("/")[-1]))
                    continue
                if any(t[1][1:] == (name, where) or t[1] == ("err", name, where) for t in tests):
                    continue        # one particular error, looked at and accepted
                if v is not None and (any(x == val for x in subterms(v)) or st.rng(v)[1] < 0 or
                                      any(x and x[0] == "err" for x in subterms(v))):
                    continue
                if v is not None and failed(st, name, val) and f.d["ret"] == "bool" and st.decide(("eq0", v)) is True:
                    continue        # reports it as false
                if retried(st, e):
                    continue
                ig.add("the failure of %s at %s is ignored" % (name, where.split("/")[-1]))
        n += k
        R.ob("reported", f.sn, not ig, f.where, "; ".join(sorted(ig)))
        if any(is_sys(x) and x["n"] in MUTATE for x in f.nodes()):
            R.ob("whole-write", f.sn, not short, f.where, "; ".join(sorted(short)))
    R.need(n, "system calls on paths that return")


def retried(st, e):
    """an unsuccessful call followed by another call of the same function (a retry loop, a fallback)"""
    later = [x for x in st.trace if x[0] == "sys" and x[1] == e[1]]
    return later and later[-1] is not e


def in_loop_progress(st, val, want):
    """a loop that goes on until nothing remains: the amount asked for was a loop variable reduced by the result"""
    return any(x and x[0] in ("havoc", "phi") for x in subterms(want))


@rule("E06")
def the_error_number_belongs_to_the_failed_call(P, R):
    """The same symbolic runs keep errno as a value tagged with the call that set it; any other call in between
    overwrites the tag.  Wherever a numbered exception is thrown from one of these functions, or a negated errno
    returned, the number must be a constant, the call's own return code, or errno as left by a file system call
    that failed on this path."""
    fs = sys_funcs(P)
    R.need(fs, "functions making file system calls")
    n = 0
    for f in fs:
        outs, eng = sys_runs(P, R, f)
        bad, k = set(), 0
        for kind, st, v in outs:
            used = [(e[1], e[3]) for e in st.trace if e[0] == "thr"]
            if kind == "r" and v is not None and any(x and x[0] == "err" for x in subterms(v)):
                used.append((f.where, v))
            for where, x in used:
                k += 1
                for y in subterms(x):
                    if y and y[0] == "err":
                        if len(y) < 3 or y[1].startswith("?"):
                            bad.add("%s: errno is read after %s may have changed it" % (where.split("/")[-1], y[1][1:]))
                            continue
                        c = [e for e in st.trace if e[0] == "sys" and e[3] == y[2]]
                        if c and succeeded(st, c[-1][1], c[-1][2]):
                            bad.add("%s: errno of %s, which succeeded" % (where.split("/")[-1], y[1]))
                    elif y and y[0] == "in" and y[1] == ERRNO:
                        bad.add("%s: errno from before any failing call" % where.split("/")[-1])
        n += k
        if k:
            R.ob("errno-origin", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "numbers thrown after system calls")
