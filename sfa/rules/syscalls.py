"""E04: the operating-system layer asks the system for what it was asked, and passes the answer on."""
import re
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY, is_sys, NULLFAIL
from .attrs import nth

# the place of every argument of the calls the layer makes
CALLS = {
    "pread": "fd buf len off", "pread64": "fd buf len off", "pwrite": "fd buf len off", "pwrite64": "fd buf len off",
    "read": "fd buf len", "write": "fd buf len", "ftruncate": "fd len", "ftruncate64": "fd len", "fsync": "fd",
    "fstat": "fd stat", "fstat64": "fd stat", "futimens": "fd times", "flock": "fd lockop",
    "fgetxattr": "fd name buf len", "flistxattr": "fd buf len", "fsetxattr": "fd name buf len xflags", "fremovexattr": "fd name",
    "openat": "dir path oflags mode", "openat64": "dir path oflags mode", "open": "path oflags mode", "unlinkat": "dir path rm",
    "mkdirat": "dir path mode", "symlinkat": "target dir path", "linkat": "dir path dir path2 zero", "renameat": "dir path dir path2",
    "fstatat": "dir path stat nofollow", "fstatat64": "dir path stat nofollow", "fchmodat": "dir path mode nofollow",
    "fchownat": "dir path uid gid nofollow", "readlinkat": "dir path buf len", "utimensat": "dir path times nofollow",
    "fstatvfs": "fd stat", "fstatvfs64": "fd stat", "lgetxattr": "path name buf len", "llistxattr": "path buf len",
    "lsetxattr": "path name buf len xflags", "lremovexattr": "path name", "opendir": "path",
    "rename": "path path2", "unlink": "path", "rmdir": "path", "mkdir": "path mode", "lstat": "path stat", "lchown": "path uid gid",
    "readlink": "path buf len", "link": "path path2", "symlink": "target path",
}
# what the parameters of the interface mean, and what it hands back: (parameters, result, system calls that do it)
STREAM = {
    "read": ("buf off len", "count", "pread pread64"), "write": ("buf off len", "whole", "pwrite pwrite64"),
    "sequential_read": ("buf len", "count", "read"), "sequential_write": ("buf len", "whole", "write"),
    "resize": ("len", "", "ftruncate ftruncate64"), "fstat": ("stat", "", "fstat fstat64"), "utimens": ("times", "", "futimens"),
    "fsync": ("", "", "fsync"), "lock": ("exclusive", "", "flock"), "unlock": ("", "", "flock"), "size": ("", "st_size", "fstat fstat64"),
    "removexattr": ("name", "", "fremovexattr"), "getxattr": ("name buf len", "count", "fgetxattr"),
    "listxattr": ("buf len", "count", "flistxattr"), "setxattr": ("name buf len xflags", "", "fsetxattr"),
}
SERVICE = {
    "open_file_stream": ("path oflags mode", "stream", "openat openat64 open"), "remove_file": ("path", "", "unlinkat unlink"),
    "remove_directory": ("path", "", "unlinkat rmdir"), "remove_file_nothrow": ("path", "done", "unlinkat unlink"),
    "remove_directory_nothrow": ("path", "done", "unlinkat rmdir"), "mkdir": ("path mode", "", "mkdirat mkdir"),
    "ensure_directory": ("path mode", "", "mkdirat mkdir"), "symlink": ("target path", "", "symlinkat symlink"),
    "link": ("path path2", "", "linkat link"), "statfs": ("stat", "", "fstatvfs fstatvfs64"), "rename": ("path path2", "", "renameat rename"),
    "stat": ("path stat", "found", "fstatat fstatat64 lstat"), "chmod": ("path mode", "", "fchmodat"),
    "chown": ("path uid gid", "", "fchownat lchown"), "readlink": ("path buf len", "count", "readlinkat readlink"),
    "utimens": ("path times", "", "utimensat"), "create_traverser": ("path", "stream", "opendir"), "lock": ("", "", "flock"),
    "listxattr": ("path buf len", "count", "llistxattr"), "getxattr": ("path name buf len", "count", "lgetxattr"),
    "setxattr": ("path name buf len xflags", "", "lsetxattr"), "removexattr": ("path name", "", "lremovexattr"),
}
NOFOLLOW, REMOVEDIR, SH, EX, NB, UN = 0x100, 0x200, 1, 2, 4, 8
ENOTSUP = 95


class Asked(Rule):
    """leaves a trace of system calls, with the text behind each string argument"""
    loop_iters = 2
    max_states = 300
    max_depth = 7

    def __init__(s, key):
        s.key = key

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b == "stringify_system_error":
            return False
        if b in THROWERS:
            return True
        # a message for an exception is of no interest here
        return simple(f, 40) or f.key in sys_reach(eng.P) or (f.d.get("lambda") and f.owner is not None and f.owner.key == s.key)

    def on_call(s, eng, st, ev):
        if ev.base == "__errno_location":
            return [(st, ("addr", ("g", "errno")))]
        if ev.key in joiners(eng.P):
            return [(st, ("call", "joined") + tuple(text(eng, st, a) for a in ev.args))]
        return None

    def on_ret(s, eng, st, ev, val):
        if ev.node and is_sys(ev.node) and ev.base in CALLS:
            eng.store(st, ("g", "errno"), ("err", ev.base, ev.where))
            if ev.base not in NULLFAIL:
                st.assume(("ge0", add(val, I(1))), True)
                if not set(CALLS[ev.base].split()) & {"len", "oflags"} or "truncate" in ev.base or "setxattr" in ev.base:
                    st.assume(("ge0", sub(I(0), val)), True)
            st.emit(("sys", ev.base, val, ev.where, tuple((a, text(eng, st, a)) for a in ev.args)))

    def on_assume(s, eng, st, t, v, node, fr):
        if any(x and x[0] == "err" for x in subterms(t)):
            st.emit(("errtest", t, v))
        elif any(x and x[0] == "in" and x[1][0] == "g" for x in subterms(t)) or any(x and x[0] == "ret" and "lock_enabled" in str(x[1]) for x in subterms(t)):
            st.emit(("global", t, v))

    def merge_key(s, eng, st):
        return tuple((e[0], e[3], st.rng(e[2])[0] >= 0) for e in st.trace if e[0] == "sys")


def sys_reach(P):
    c = P.__dict__.get("_sys_reach04")
    if c is None:
        c = P._sys_reach04 = P.reaching(lambda n: is_sys(n))
    return c


def joiners(P):
    """functions that join a path to a directory"""
    c = P.__dict__.get("_joiners04")
    if c is None:
        cls = classes(P)[1]
        used = {n.get("f") for f in P.funcs.values() if f.body and f.scls in cls for n in f.nodes() if n.get("k") == "call" and len(n.get("a") or []) == 2
                and any(x.get("k") == "mem" and (x.get("b") or {}).get("k") == "this" for x in PR.walk(n["a"][0]))}
        c = P._joiners04 = {f.key: f for f in P.funcs.values() if f.body and f.scls in cls and f.d.get("static") and f.key in used
                            and len(f.d["p"]) == 2 and "string" in f.d["ret"] and all("string" in p["t"] for p in f.d["p"])}
    return c


def text(eng, st, a):
    """the string an argument points to: the term of its owner"""
    if a and a[0] == "addr" and a[1][0] == "el":
        return eng.load(st, a[1][1])
    return a


def through(t):
    while t and (t[0] == "trunc" or t[0] == "call" and t[1] in ("c_str", "data")):
        t = t[2]
    return t


def of_param(eng, f, st, a, i):
    """the argument is parameter i, or the text of it"""
    p = f.d["p"][i]
    v = nth(f, i)
    arg, body = a
    if through(arg) == v or through(body) == v:
        return True
    return ("in", ("p", p["n"]), 0) in (through(arg), through(body)) or arg == ("addr", ("el", ("p", p["n"]))) or arg == ("addr", ("p", p["n"]))


def about_param(f, a, i):
    p = f.d["p"][i]
    want = (nth(f, i), ("in", ("p", p["n"]), 0))
    return any(x in want or x == ("p", p["n"]) for y in a for x in walk_all(y))


def walk_all(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            yield x
            stack.extend(x)


def own_field(t):
    return t and t[0] == "in" and t[1][0] == "m" and t[1][1] == ("obj", "this")


def own_text(P, f, a):
    """a string member of this object is part of the text"""
    return any(len(x) == 3 and x[0] == "m" and x[1] == ("obj", "this") for y in a for x in walk_all(y))


def classes(P):
    c = P.__dict__.get("_os_layer")
    if c is None:
        from .names import fs_classes, direct_ext
        streams = {f.scls for f in P.funcs.values() if f.body and f.scls and direct_ext(f) & {"pread", "pread64", "pwrite", "pwrite64"}}
        c = P._os_layer = (streams, fs_classes(P))
    return c


def judge_method(P, R, f, spec):
    roles, result, doers = spec[0].split(), spec[1], spec[2].split()
    R.fn(f)
    outs, eng = R.engine(P, Asked(f.key), f)
    bad, n = set(), 0
    name = base(f.n)
    need_norm = False
    for kind, st, v in outs:
        sysc = [e for e in st.trace if e[0] == "sys"]
        mine = [e for e in sysc if e[1] in doers]
        if kind == "r" and not mine:
            if name in ("lock", "unlock") and any(e[0] == "global" for e in st.trace):
                continue
            bad.add("succeeds without asking the system")
            continue
        for e in mine:
            n += 1
            w = e[3].split("/")[-1]
            want = CALLS[e[1]].split()
            if len(e[4]) < len([r for r in want if r != "mode"]):
                bad.add("%s: %s lacks an argument" % (w, e[1]))
                continue
            for a, r in zip(e[4], want):
                c = st.const(a[0])
                if r == "fd" or r == "dir":
                    if not own_field(through(a[0])):
                        bad.add("%s: %s is not given this object's descriptor" % (w, e[1]))
                elif r == "rm":
                    if (c == REMOVEDIR) != ("directory" in name) or c not in (0, REMOVEDIR):
                        bad.add("%s: unlinkat removes the wrong kind of entry" % w)
                elif r == "zero":
                    if c != 0:
                        bad.add("%s: %s with flags" % (w, e[1]))
                elif r == "nofollow":
                    if c is None or not c & NOFOLLOW:
                        prev = [x for x in sysc[:sysc.index(e)] if x[1] == e[1]]
                        if c != 0 or not prev or not any(t[0] == "errtest" and equals(t[1], t[2], ENOTSUP) for t in st.trace):
                            bad.add("%s: %s follows a symbolic link" % (w, e[1]))
                elif r == "lockop":
                    ex = nth(f, 0) if roles else None
                    if name == "unlock":
                        ok = c == UN
                    elif not roles:
                        ok = c in (EX, EX | NB)
                    else:
                        d = st.decide(ex)
                        if d is None:
                            z = st.decide(("eq0", ex))
                            d = None if z is None else not z
                        ok = d is not None and c is not None and c & ~NB == (EX if d else SH)
                    if not ok:
                        bad.add("%s: %s with the wrong mode" % (w, e[1]))
                elif r == "stat" and result == "st_size":
                    pass
                elif r in roles:
                    i = roles.index(r)
                    if r in ("path", "path2") and "dir" not in want:
                        j = [x for y in a for x in walk_all(y) if len(x) == 4 and x[:2] == ("call", "joined")]
                        if not about_param(f, a, i) or any(not about_param(f, (x[3],), i) or about_param(f, (x[2],), i) for x in j):
                            bad.add("%s: %s is not about the path it was given" % (w, e[1]))
                        elif own_text(P, f, a):
                            need_norm = True
                        elif need_norm is False:
                            need_norm = None
                    elif not of_param(eng, f, st, a, i):
                        bad.add("%s: argument %d of %s is not the %s it was given" % (w, e[4].index(a) + 1, e[1], WORD.get(r, r)))
                else:
                    bad.add("%s: argument %d of %s (%s) is nothing the caller gave" % (w, e[4].index(a) + 1, e[1], WORD.get(r, r)))
        if not mine:
            continue
        last = mine[-1]
        rc = last[2]
        w = last[3].split("/")[-1]
        null = last[1] == "opendir"
        ok = st.decide(("eq0", rc)) is False if null else (st.decide(("ge0", rc)) is True)
        fail = st.decide(("eq0", rc)) is True if null else (st.decide(("ge0", rc)) is False)
        if kind == "t":
            if fail:
                continue
            if result == "whole" and len(roles) and short(st, f, rc, roles.index("len")):
                continue
            bad.add("%s: an exception although %s may have succeeded" % (w, last[1]))
            continue
        if fail:
            if name.endswith("nothrow") and st.decide(v) is not False and not (st.const(v) == 0):
                bad.add("%s: a failure reported as done" % w)
            if result == "found" and not any(e[0] == "errtest" and equals(e[1], e[2], 2) for e in st.trace):
                bad.add("%s: a failure of %s other than ENOENT reported as missing" % (w, last[1]))
            continue
        if result == "count":
            if through(v) != rc and not (v and v[0] == "phi"):
                bad.add("%s: the count returned is not that of %s" % (w, last[1]))
        elif result == "done":
            if not (v in (("eq0", rc), ("ge0", rc)) or ok and st.decide(v) is True or st.decide(("eq0", rc)) is True and st.decide(v) is True
                    or not ok and st.decide(("eq0", rc)) is False and st.decide(v) is False):
                bad.add("%s: the answer does not say whether %s succeeded" % (w, last[1]))
        elif result == "found":
            if ok and st.decide(v) is not True and st.const(v) != 1:
                bad.add("%s: reported as missing although %s found it" % (w, last[1]))
        elif result == "st_size":
            if not any(x and x[0] == "fld" and str(x[-1]).endswith("st_size") or x[:1] == ("m",) and str(x[-1]).endswith("st_size") for x in walk_all(v)):
                bad.add("%s: the size returned is not that of the file" % w)
        elif result == "stream":
            got = None
            if v and v[0] == "addr":
                for l, x in st.env.items():
                    if l[0] == "m" and l[1] == v[1] and through(x) == rc:
                        got = l
            if got is None:
                bad.add("%s: what is returned does not hold what was opened" % w)
        elif f.d["ret"] not in ("void",) and v is not None and st.const(v) not in (0, None) and not name.endswith("nothrow"):
            if st.const(v) is not None and st.const(v) < 0:
                bad.add("%s: an error although %s may have succeeded" % (w, last[1]))
        if f.d["ret"] != "void" and result in ("", "count") and v is not None and st.rng(v)[1] < 0 and not fail:
            bad.add("%s: an error although %s may have succeeded" % (w, last[1]))
    if need_norm is None:
        bad.add("a relative path is not taken relative to the directory of this object")
    return bad, n


def equals(t, v, n):
    """the assumption says that errno equals n"""
    neg = t[0] == "not"
    u = t[1] if neg else t
    if u[0] != "eq0" or (v is True) == neg:
        return False
    return u[1][0] == "lin" and abs(u[1][1]) == n or u[1][0] == "op"


def short(st, f, rc, i):
    d = sub(rc, nth(f, i))
    return st.decide(("eq0", d)) is False or any(st.decide(("eq0", x)) is False for x in (sub(nth(f, i), rc),))


def judge_ctor(P, R, f):
    """an object made for a directory holds that directory"""
    R.fn(f)
    outs, eng = R.engine(P, Asked(f.key), f)
    bad, n = set(), 0
    for kind, st, v in outs:
        for e in st.trace:
            if e[0] != "sys":
                continue
            n += 1
            for a, r in zip(e[4], CALLS[e[1]].split()):
                if r == "path" and not about_param(f, a, 0):
                    bad.add("%s opens another path than the one given" % e[1])
            if kind == "r" and not any(l[0] == "m" and l[1] == ("obj", "this") and through(x) == e[2] for l, x in st.env.items()):
                bad.add("what %s opened is not kept" % e[1])
            if kind == "t" and st.decide(("ge0", e[2])) is not False:
                bad.add("an exception although %s may have succeeded" % e[1])
    return bad, n


def pieces(v, ps):
    """the parameters and constants a string is put together from"""
    if v and v[0] == "str":
        return [v[1]]
    for i, p in enumerate(ps):
        if v in (("in", ("v", 0, p["id"], p["n"]), 0), ("in", ("p", p["n"]), 0), ("addr", ("el", ("v", 0, p["id"], p["n"]))),
                 ("call", "data", ("in", ("v", 0, p["id"], p["n"]), 0))):
            return [i]
    if v and v[0] == "ctor" and len(v) > 2:
        return pieces(v[2], ps)
    if v and v[0] == "call" and v[1] == "StrCat":
        return [y for x in v[2:] for y in pieces(x, ps)]
    return [None]


class Joins(Rule):
    def inline(s, eng, f, ev):
        return base(f.n) in THROWERS or simple(f, 30)

    def on_call(s, eng, st, ev):
        if ev.key in joiners(eng.P):
            return [(st, ("call", "joined") + tuple(ev.args))]
        if ev.base in ("operator+=", "append", "push_back", "assign", "operator=") and ev.obj and ev.args and "string" in ((ev.node or {}).get("cls") or "string"):
            a = ev.args[0]
            c = st.const(a)
            a = ("str", chr(c)) if c is not None and ev.base in ("operator+=", "push_back") else a
            new = a if ev.base in ("assign", "operator=") else ("call", "StrCat", eng.load(st, ev.obj), a)
            eng.store(st, ev.obj, new)
            return [(st, new)]

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, v))


def judge_join(P, R, f):
    R.fn(f)
    outs, eng = R.engine(P, Joins(), f)
    bad = set()
    ps = f.d["p"]
    for kind, st, v in outs:
        if kind != "r":
            continue
        got = pieces(v, ps)
        if v and v[:2] == ("call", "joined"):
            if [pieces(x, ps) for x in v[2:]] != [[0], [1]]:
                bad.add("the result is not the directory followed by the path")
            continue
        facts = [(e[1], e[2]) for e in st.trace if e[0] == "if"]
        dirs = lambda t: any(x in (nth(f, 0), ("p", ps[0]["n"])) for x in walk_all(t))
        slash = [t for t, b in facts if b and t[0] == "eq0" and t[1][0] == "lin" and abs(t[1][1]) == 47]
        if got == [1]:
            if not any(b and dirs(t) and "empty" in str(t) for t, b in facts) and not any(not dirs(t) for t in slash):
                bad.add("a relative path is used without its directory")
        elif got == [0, 1]:
            if not any("back" in str(t) and dirs(t) for t in slash):
                bad.add("the path is appended without a separator")
        elif got != [0, "/", 1]:
            bad.add("the result is not the directory followed by the path")
    return bad


WORD = {"buf": "buffer", "len": "length", "off": "offset", "name": "attribute name", "path": "path", "path2": "second path", "mode": "mode",
        "oflags": "open flags", "uid": "user id", "gid": "group id", "times": "times", "stat": "buffer", "xflags": "flags", "target": "link target"}


@rule("E04")
def the_system_is_asked_for_what_was_asked(P, R):
    """Every method of the operating-system layer (the streams that read and write files, the class that renames and removes entries) is run
    over all paths. Each system call must get this object's descriptor and the caller's path, buffer, length, offset, mode, owner, times,
    name or flags, each in its own place; a call that has no directory argument gets a path joined to this object's directory; a call on a
    path never follows a symbolic link at its end, except where the system said that it cannot do otherwise. A method cannot return without
    the call, cannot fail where the call may have succeeded, and returns the call's own answer. The same for the classes that call the database
    library: every code other than success is raised, a step says that there is a row exactly when there is one, and the values bound and the
    columns read are the caller's."""
    streams, services = classes(P)
    R.need(streams and services, "classes of the operating-system layer")
    n = 0
    for cls, table in [(c, STREAM) for c in sorted(streams)] + [(c, SERVICE) for c in sorted(services)]:
        for f in sorted(P.methods_of(cls), key=lambda x: (x.n, x.where)):
            spec = table.get(base(f.n))
            if not f.body or spec is None or f.d.get("ctor"):
                continue
            if len(spec[0].split()) != len(f.d["p"]):
                R.notes.append("not judged (other parameters): " + f.short)
                continue
            if not any(is_sys(x) for g in [f] for x in f.nodes()) and f.key not in sys_reach(P):
                R.ob("asks", f.n, False, f.where, "makes no system call")
                continue
            bad, k = judge_method(P, R, f, spec)
            n += k
            R.ob("asks", f.n, not bad, f.where, "; ".join(sorted(bad)))
        for f in sorted(P.methods_of(cls), key=lambda x: (x.n, x.where)):
            if f.body and f.d.get("ctor") and any(is_sys(x) and x["n"] in CALLS for x in f.nodes()):
                bad, k = judge_ctor(P, R, f)
                n += k
                R.ob("opens", f.n, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "system calls of the layer")
    from .names import db_classes, direct_ext
    m = 0
    for f in sorted((f for f in P.funcs.values() if f.body and f.scls in db_classes(P) and any(x.startswith("sqlite3_") for x in direct_ext(f))),
                    key=lambda x: x.n):
        R.fn(f)
        bad, k = judge_database(P, R, f)
        m += k
        R.ob("database", f.n, not bad, f.where, "; ".join(sorted(bad)))
    R.need(m, "calls of the database library")
    for k, f in sorted(joiners(P).items()):
        bad = judge_join(P, R, f)
        R.ob("joins", f.n, not bad, f.where, "; ".join(sorted(bad)))


class Database(Rule):
    loop_iters = 1
    max_states = 200

    def __init__(s, key):
        s.key = key

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and (simple(f, 40) or f.scls == eng.P.funcs[s.key].scls)

    def on_ret(s, eng, st, ev, val):
        if ev.kind == "call" and ev.base.startswith("sqlite3_") and ev.base not in ("sqlite3_errstr", "sqlite3_errmsg"):
            st.emit(("db", ev.base, val, ev.where, tuple((a, text(eng, st, a)) for a in ev.args)))

    def merge_key(s, eng, st):
        return tuple((e[1], e[3], st.rng(e[2])) for e in st.trace if e[0] == "db")


ROW, DONE = 100, 101
DBARGS = {"sqlite3_open_v2": {0: "text", 2: "int"}, "sqlite3_exec": {1: "text"}, "sqlite3_busy_timeout": {1: "int"},
          "sqlite3_bind_int64": {1: "int", 2: "val"}, "sqlite3_bind_text64": {1: "int", 2: "data", 3: "size"}, "sqlite3_bind_text": {1: "int", 2: "data", 3: "size"},
          "sqlite3_bind_blob64": {1: "int", 2: "data", 3: "size"}, "sqlite3_bind_blob": {1: "int", 2: "data", 3: "size"},
          "sqlite3_column_int64": {1: "int"}, "sqlite3_column_text": {1: "int"}, "sqlite3_column_blob": {1: "int"},
          "sqlite3_column_bytes": {1: "int"}, "sqlite3_column_type": {1: "int"}}


def judge_database(P, R, f):
    """one method of the classes that call the database library"""
    outs, eng = R.engine(P, Database(f.key), f)
    bad, n = set(), 0
    ps = f.d["p"]
    ints = [i for i, p in enumerate(ps) if p["t"].replace("const ", "") in ("int", "unsigned int")]
    other = [i for i in range(len(ps)) if i not in ints]
    for kind, st, v in outs:
        calls = [e for e in st.trace if e[0] == "db"]
        for e in calls:
            n += 1
            w = e[3].split("/")[-1]
            for i, r in DBARGS.get(e[1], {}).items():
                if i >= len(e[4]):
                    continue
                a = e[4][i]
                if r == "int" and ints:
                    ok = of_param(eng, f, st, a, ints[0])
                elif r == "val":
                    ok = any(of_param(eng, f, st, a, k) for k in other)
                elif r == "size":
                    ok = any(("call", "size", nth(f, k)) in list(subterms(a[0])) for k in other) and len(list(subterms(a[0]))) <= 4
                elif r in ("text", "data") and other:
                    ok = any(about_param(f, a, k) for k in other)
                else:
                    ok = True
                if not ok:
                    bad.add("%s: argument %d of %s is not what the caller gave" % (w, i + 1, e[1]))
            rc = e[2]
            if e[4] and re.match(r"sqlite3_(bind|step|reset|column)", e[1]) and st.decide(("eq0", e[4][0][0])) is True:
                bad.add("%s: %s without a prepared statement" % (w, e[1]))
            if e[1] == "sqlite3_step":
                if kind == "r":
                    row = st.decide(("eq0", sub(rc, I(ROW))))
                    yes = st.const(v) == 1 or v is not None and st.decide(v) is True
                    no = st.const(v) == 0 or v is not None and st.decide(v) is False
                    if yes and row is not True:
                        bad.add("%s: a row is announced although there may be none" % w)
                    if no and not (st.decide(("eq0", sub(rc, I(DONE)))) is True or st.decide(("eq0", rc)) is True):
                        bad.add("%s: a failed step passes for the end" % w)
                    if not yes and not no:
                        bad.add("%s: the answer does not say whether there is a row" % w)
                elif st.const(rc) in (0, ROW, DONE) or any(st.decide(("eq0", sub(rc, I(k)))) is True for k in (0, ROW, DONE)):
                    bad.add("%s: an exception although the step succeeded" % w)
            elif e[1] in DBARGS and "column" not in e[1] or e[1] in ("sqlite3_prepare_v2", "sqlite3_reset"):
                ok = st.decide(("eq0", rc))
                if kind == "r" and ok is not True:
                    bad.add("%s: a failure of %s is ignored" % (w, e[1]))
                if kind == "t" and ok is True and e is calls[-1]:
                    bad.add("%s: an exception although %s succeeded" % (w, e[1]))
        col = [e for e in calls if "column" in e[1]]
        if kind == "r" and col and v is not None and f.d["ret"] != "bool":
            for e in col:
                if not any(x == e[2] for x in walk_all(v)):
                    bad.add("what %s returned is not passed on" % e[1])
    return bad, n
