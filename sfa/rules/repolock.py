"""L06: one process at a time serves a full-format volume for writing"""
import re
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import LOGGY
from .records import walk, param
from .common import base

O_CREAT, O_EXCL, O_ACC = 0o100, 0o200, 3
EEXIST, ESRCH = 17, 3
ALIVE = "is_process_running"


def removes(n):
    return n.get("k") == "call" and base(n.get("n") or "").startswith("remove_file")


def opens(n):
    return n.get("k") == "call" and base(n.get("n") or "") == "open_file_stream"


class Take(Rule):
    max_depth = 8
    max_states = 3000

    def __init__(s, P, near):
        s.P, s.near = P, near

    def inline(s, eng, f, ev):
        b = base(f.n)
        return b not in LOGGY and b not in ("open_file_stream", ALIVE, "get_current_process_id", "as_string") and not b.startswith(("remove_file", "norm_path")) \
            and (f.key in s.near or simple(f, 20))

    def throws(s, eng, st, ev):
        if ev.base == "open_file_stream":
            return ("securefs::ExceptionBase",)
        return ()

    def on_ret(s, eng, st, ev, val):
        if ev.base == "open_file_stream" and len(ev.args) >= 2:
            st.emit(("open", val, ev.args[0], st.const(ev.args[1]), ev.where))

    def on_assume(s, eng, st, t, v, node, fr):
        while t[0] in ("not", "eq0"):
            t, v = t[1], not v
        st.emit(("if", t, bool(v)))

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY:
            return [(st, I(0))]
        if b == "open_file_stream" and len(ev.args) >= 2:
            st.emit(("try", st.const(ev.args[1])))
            return None
        if b == ALIVE:
            v = st.fresh("alive")
            st.emit(("alive", v, ev.args[0] if ev.args else None))
            return [(st, v)]
        if b == "SimpleAtoi" and len(ev.args) == 2:
            v = st.fresh("number")
            st.emit(("number", v, ev.args[0]))
            if ev.args[1][0] == "addr":
                eng.store(st, ev.args[1][1], ("value", v), ev.node, ev.fr)
            return [(st, v)]
        if b == "error_number":
            return [(st, ("errno",))]
        if b == "get_current_process_id":
            st.emit(("pid",))
            return [(st, ("mypid",))]
        if b in ("write", "resize") and ev.obj is not None and ev.vt:
            st.emit((b, tuple(ev.args), ev.obj))
        if removes(ev.node or {}):
            st.emit(("remove", tuple(ev.args)))
        return None


class Alive(Rule):
    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, bool(v)))

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and simple(f, 20)

    def on_call(s, eng, st, ev):
        if ev.base in LOGGY:
            return [(st, I(0))]
        if ev.base == "kill" and len(ev.args) == 2:
            v = st.fresh("signalled")
            st.emit(("kill", v, ev.args[0], ev.args[1]))
            return [(st, v)]
        if ev.base == "__errno_location":
            return [(st, ("addr", ("g", "errno")))]
        return None


class Make(Rule):
    max_depth = 8
    max_states = 3000

    def __init__(s, P, near, lock, tables):
        s.P, s.near, s.lock, s.tables = P, near, lock, tables

    def inline(s, eng, f, ev):
        b = base(f.n)
        return b not in LOGGY and f.key in s.near and PR.strip_t(f.scls or "") not in s.tables | {s.lock}

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY:
            return [(st, I(0))]
        n = ev.node or {}
        t = made(n, ev)
        if t == s.lock:
            st.emit(("lock", tuple(ev.args), ev.where))
        elif t in s.tables:
            st.emit(("table", ev.where))
        return None


def made(n, ev):
    """the class a call makes an object of"""
    if ev.kind == "ctor":
        return PR.strip_t(n.get("cls") or n.get("t") or ev.name.rsplit("::", 1)[0])
    m = re.match(r"(?:const )?std::(?:shared|unique)_ptr<(?:const )?([\w:]+)", n.get("t") or "")
    if ev.base in ("make_shared", "make_unique") and m:
        return m.group(1)
    return None


@rule("L06")
def rule_l06(P, R):
    """(1) The constructor of the class whose objects stand for the lock file (it creates a file exclusively, its
    destructor removes it) is executed on every path with opening free to fail: where it completes for a writable
    mount, the file was created exclusively, or it existed, and its content was no number or named a process that is
    not running; the own process id was then stored in it.  Taking over a file that exists is reported as a step other
    processes can take at the same moment.  The destructor removes the file exactly if it holds it.
    (2) The check of a process calls it dead only if the system said there is no such process. (3) Every class owning
    both the lock and the table of open files lets go of the table, whose destructor writes, before the lock. (4) In
    every function making both, the lock is taken before the table, which reads the volume, is made; and it is taken
    for every mount that is not read-only."""
    locks = {}
    for q, r in P.records.items():
        d = P.funcs.get(r.get("dtor") or "")
        if d is None or not d.body:
            continue
        ms = [f for f in P.funcs.values() if f.body and f.d.get("cls") == q]
        if not any(removes(n) for n in d.nodes()) and not any(base(n.get("n") or "") == ALIVE for f in ms for n in f.nodes()):
            continue
        if any(opens(n) for f in ms for n in f.nodes()) and any(t == "std::shared_ptr<securefs::FileStream>" or "FileStream" in t for t in (x["t"] for x in r["fields"])):
            locks[q] = (d, ms)
    R.need(locks, "classes holding a lock file")
    for q, (d, ms) in sorted(locks.items()):
        held = {x["n"] for x in P.records[q]["fields"] if "FileStream" in x["t"]}
        near = P.reaching(lambda n: opens(n) or base(n.get("n") or "") in (ALIVE, "get_current_process_id"))
        ctors = [f for f in ms if base(f.n) == base(q) and f.key in near and not f.d.get("impl")]
        R.need(ctors, "constructors of " + q)
        for f in ctors:
            R.fn(f)
            outs, _ = R.engine(P, Take(P, near), f)
            bad, n, taken = {}, 0, None
            ro = [param(f, i) for i, p in enumerate(f.d["p"]) if "ReadOnly" in p["t"] or p["t"] == "bool"]
            for k, st, v in outs:
                if k != "n" and k != "r":
                    continue
                skip = [e for e in st.trace if e[0] == "open"]
                lastly = [i for i, e in enumerate(st.trace) if e[0] == "open"]
                if not skip:
                    if not any(readonly(st, x) for x in ro):
                        bad.setdefault("a mount that may write starts without taking the lock", f.where)
                    continue
                n += 1
                op = st.trace[lastly[-1]]
                fl = op[3]
                tail = st.trace[lastly[-1] + 1:]
                if fl is None or fl & O_ACC == 0:
                    bad.setdefault("the lock file is not opened for writing", op[4])
                elif not (fl & O_CREAT and fl & O_EXCL):
                    taken = op[4]
                    first = [e for e in st.trace[:lastly[-1]] if e[0] == "try" and e[1] is not None and e[1] & O_CREAT and e[1] & O_EXCL]
                    if not first:
                        bad.setdefault("the lock is taken without trying to create its file exclusively", op[4])
                    elif st.decide(("eq0", sub(("errno",), I(EEXIST)))) is not True:
                        bad.setdefault("the lock of another is looked at although creating it failed for another reason", op[4])
                    nums = [e for e in tail if e[0] == "number"]
                    al = [e for e in tail if e[0] == "alive"]
                    dead = [e for e in al if st.decide(e[1]) is False and (e[2] is None or not nums or any(u == nums[-1][1] for u in walk(e[2])))]
                    if not dead and not any(st.decide(e[1]) is False for e in nums):
                        bad.setdefault("an existing lock is taken over although its holder may be running", op[4])
                w = [e for e in tail if e[0] == "write"]
                if not any(e[1][1] == I(0) for e in w if len(e[1]) == 3) or not any(e[0] == "pid" for e in st.trace):
                    bad.setdefault("the lock is held without the holder's process id in it", op[4])
                if not (fl or 0) & O_EXCL and not any(e[0] == "resize" and e[1][:1] == (I(0),) for e in tail) and not (fl or 0) & 0o1000:
                    bad.setdefault("the process id of the previous holder is not wiped", op[4])
                kept = [eng_load(st, x) for x in held]
                if not any(op[1] in set(walk(x)) for x in kept if x is not None):
                    bad.setdefault("the lock is not recorded as held", op[4])
            if not n:
                bad.setdefault("the lock is never taken", f.where)
            R.ob("one-step", f.n, taken is None, taken or f.where,
                 "the lock is decided by a file another process may be creating, or taking over, at the same moment" if taken else "")
            R.ob("acquire", f.n, not bad, list(bad.values())[0] if bad else f.where, "; ".join(bad))
        R.fn(d)
        outs, _ = R.engine(P, Take(P, near), d)
        bad = set()
        for k, st, v in outs:
            rem = any(e[0] == "remove" for e in st.trace)
            got = [st.decide(("eq0", ("in", ("m", ("obj", "this"), x), 0))) for x in held]
            if rem and False not in got:
                bad.add("the lock file is removed although this process may not hold it")
            if not rem and True not in got:
                bad.add("the lock file may stay behind")
        R.ob("release", d.n, not bad, d.where, "; ".join(sorted(bad)))
        owners(P, R, q)
    alive(P, R)


def eng_load(st, field):
    return st.env.get(("m", ("obj", "this"), field))


def readonly(st, x):
    """is the parameter known to be set?"""
    return any(e[0] == "if" and e[2] and x[1] in locs_of(e[1]) for e in st.trace)


def locs_of(t):
    out = set()
    for u in walk(t):
        while isinstance(u, tuple) and len(u) > 1 and u[0] in ("in", "m", "fld"):
            u = u[1]
            out.add(u)
    return out


def alive(P, R):
    fs = [f for f in P.funcs.values() if f.body and base(f.n) == ALIVE]
    R.need(fs, "checks whether a process runs")
    for f in fs:
        R.fn(f)
        outs, _ = R.engine(P, Alive(), f)
        bad = set()
        for k, st, v in outs:
            if k != "r" or st.decide(v) is True:
                continue
            s2 = st.copy()
            if s2.assume(v, False) is False:
                continue
            kills = [e for e in s2.trace if e[0] == "kill"]
            if not kills:
                lo, hi = s2.rng(param(f, 0))
                if hi is None or hi > 0:
                    bad.add("a process is called dead without asking the system")
            elif s2.decide(("eq0", kills[-1][1])) is True or not any(s2.decide(t) is True for t in dead_terms(s2, v)):
                bad.add("a process is called dead although the system did not say so")
            if kills and (kills[-1][2] != param(f, 0) or kills[-1][3] != I(0)):
                bad.add("another process is asked for, or it is sent a signal")
        R.ob("alive", f.n, not bad, f.where, "; ".join(sorted(bad)))


def dead_terms(st, v):
    out = set()
    for t in [v] + [e[1] for e in st.trace if e[0] == "if"]:
        for u in walk(t):
            if u[0] in ("in", "havoc") and "errno" in str(u):
                out.add(("eq0", sub(u, I(ESRCH))))
    return out


def owners(P, R, lock):
    tables = set()
    own = []
    for q, r in P.records.items():
        types = [re.sub(r"^std::(shared|unique)_ptr<(const )?([\w:]+).*>$", r"\3", x["t"]) for x in r["fields"]]
        if lock in types:
            own.append((q, r, types))
    R.need(own, "owners of the lock")
    writes = P.reaching(lambda n: n.get("k") == "call" and base(n.get("n") or "") == "flush")
    for q, r, types in own:
        i = types.index(lock)
        late = []
        for j, t in enumerate(types):
            x = P.records.get(t)
            d = P.funcs.get((x or {}).get("dtor") or "")
            if t != lock and d is not None and d.key in writes:
                tables.add(t)
                if j < i and not let_go(P, r, r["fields"][j]["n"]):
                    late.append(r["fields"][j]["n"])
        R.ob("held-to-the-end", q, not late, "%s:%d" % (r["file"].replace("/repo/", ""), r["fields"][i].get("l", 0)),
             "destroyed, and written to storage, only after the lock was given up: " + ", ".join(late) if late else "")
    R.need(tables, "tables of files written when destroyed")
    near = P.reaching(lambda n: n.get("k") in ("call", "ctor") and any(t in (n.get("t") or "") for t in tables | {lock}))
    mk = [f for f in P.funcs.values() if f.body and f.key in near and any(re.search(r"_ptr<%s>" % re.escape(q), f.d.get("ret") or "") for q, _, _ in own)
          and any(base(n.get("n") or "") in ("make_shared", "make_unique") or n.get("k") == "new" for n in f.nodes())]
    R.need(mk, "functions making the file system operations")
    for f in mk:
        R.fn(f)
        bad, n = {}, 0
        outs, _ = R.engine(P, Make(P, near, lock, tables), f)
        for k, st, v in outs:
            if k != "r":
                continue
            n += 1
            ev = [e[0] for e in st.trace if e[0] in ("lock", "table")]
            if "lock" not in ev:
                bad.setdefault("the operations are made without the lock", f.where)
            elif "table" in ev and ev.index("table") < ev.index("lock"):
                bad.setdefault("the volume is opened before the lock is held", [e for e in st.trace if e[0] == "table"][0][-1])
            for e in st.trace:
                if e[0] == "lock" and not any(u[0] == "m" and u[2].endswith("pb:read_only") for x in e[1] for u in walk(x)):
                    bad.setdefault("whether the lock is taken does not depend on the mount being read-only", e[-1])
                if e[0] == "lock" and any(u[0] in ("not", "eq0") for x in e[1] for u in walk(x)):
                    bad.setdefault("the lock is taken for read-only mounts instead", e[-1])
        R.ob("before", f.n, not bad and n, list(bad.values())[0] if bad else f.where, "; ".join(bad) or "no path returns")


def let_go(P, r, field):
    """does the destructor let go of a field itself?"""
    d = P.funcs.get(r.get("dtor") or "")
    if d is None or not d.body:
        return False
    for n in d.nodes():
        if n.get("k") == "call" and base(n.get("n") or "") in ("reset", "operator=") and field in str(n.get("o") or n.get("a") or ""):
            return True
    return False
