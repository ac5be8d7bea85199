"""Dispatch: the FUSE table, the wrappers around the file system object, activity hooks and the idle timer."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .common import Ev, events
from .errors import OPS, op_fields, callbacks, vops, vop_keys, full_cls
from .position import at_entry

TABLE = "fuse_operations::"


def is_op(n):
    return n[0] == "v" and len(n) > 1


def ops_classes(P):
    """classes implementing the operations, the base included"""
    return [r["n"] for r in P.records.values() if r["n"] == OPS or OPS in P.all_bases(r["n"])]


class Table(Rule):
    """build_ops with every has_Y fixed to true except one, which is either"""
    loop_iters = 1

    def __init__(s, name):
        s.name = name

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and f.sn != eng_root(eng)

    def resolve(s, eng, st, ev, targets):
        return []

    def on_call(s, eng, st, ev):
        if ev.base.startswith("has_") and ev.obj is not None:
            if ev.base != "has_" + s.name:
                return [(st, I(1))]
            out = []
            for v in (1, 0):
                st2 = st.copy()
                st2.emit(("has", v, ev.obj))
                out.append((st2, I(v)))
            return out
        return None

    def on_store(s, eng, st, loc, val, node=None, fr=None):
        if loc[0] == "m" and loc[2] == TABLE + s.name:
            st.emit(("set", val))


def eng_root(eng):
    return None


def as_fn(P, v):
    """function or captureless lambda a value denotes"""
    for t in subterms(v):
        if t and t[0] == "fn" and t[1] in P.funcs:
            return t[1]
        if t and t[0] == "lam":
            for k in t[1]:
                if k in P.funcs:
                    return k
    return None


@rule("F01")
def operations_reach_their_counterpart(P, R):
    """The function that fills the fuse_operations table is executed symbolically once per operation X, with
    has_X() both true and false: the field X must then hold a callback, respectively null.  Every callback is
    executed symbolically: on every path it must call exactly one virtual operation, named after the field it is
    installed in, on the object taken from fuse_get_context()->private_data, with its own parameters in order,
    zero for any further argument and the context last.  The init callback must hand back that same object."""
    tab = {}
    makers = set()
    for field, node, f in op_fields(P):
        makers.add(f.key)
        tab.setdefault(field, []).append((node, f))
    R.need(tab, "assignments to fuse_operations")
    known = {base(m)[1:] for m in vops(P).values()}
    fields = {x["n"].split("::")[-1] for r in P.records.values() if r["n"] == "fuse_operations" for x in r["fields"]}
    R.need(fields, "fields of fuse_operations")
    for name in sorted(known & fields):
        R.ob("installed", name, name in tab, "fuse_operations", "the operation is implemented but never registered")
    for name in sorted(set(tab) & known):
        for mk in sorted({f.key for n, f in tab[name]}):
            f = P.funcs[mk]
            outs, eng = R.engine(P, Table(name), f)
            bad, seen = set(), set()
            for kind, st, v in outs:
                if kind != "r":
                    continue
                has = [e[1] for e in st.trace if e[0] == "has"]
                val = [e[1] for e in st.trace if e[0] == "set"]
                if not has:
                    bad.add("is registered without asking has_%s()" % name)
                    continue
                seen.add(has[-1])
                null = not val or st.decide(("eq0", val[-1])) is True or val[-1] == I(0)
                if has[-1] and null:
                    bad.add("is not registered although has_%s() is true" % name)
                if not has[-1] and not null:
                    bad.add("is registered although has_%s() is false" % name)
            R.ob("registered", name, not bad and seen == {0, 1}, f.where, "; ".join(sorted(bad)) or
                 "no path with has_%s() both true and false" % name)
    n = 0
    for k, (field, g) in sorted(callbacks(P).items()):
        bad = set()
        if field not in known:
            if field == "init":
                outs, eng = events(P, R, g, ["fuse_get_context"], follow=lambda eng, f, ev: simple(f))
                for kind, st, v in outs:
                    if kind == "r" and not from_context(st, v):
                        bad.add("returns %s, not the object it was given" % show(v))
                R.ob("init-result", field, not bad and outs, g.where, "; ".join(sorted(bad)))
            continue
        outs, eng = R.engine(P, Calls(), g)
        ps = [p["id"] for p in g.d["p"]]
        for kind, st, v in outs:
            if kind == "t":
                continue
            n += 1
            cs = [e for e in st.trace if e[0] == "op"]
            if len(cs) != 1:
                bad.add("a path calls %d operations" % len(cs))
                continue
            _, b, args, val, where, obj = cs[0]
            if b != "v" + field:
                bad.add("calls %s" % b)
            if not from_context(st, obj):
                bad.add("does not call it on the mounted file system")
            if not args or not from_context(st, args[-1], False):
                bad.add("does not pass the request's context")
            rest = list(args[:-1])
            for i, a in enumerate(rest):
                want = ps[i] if i < len(ps) else None
                if want is None:
                    if a != I(0):
                        bad.add("argument %d is %s" % (i + 1, show(a)))
                elif not is_param(a, want):
                    bad.add("argument %d is %s instead of its own parameter '%s'" % (i + 1, show(a), g.d["p"][i]["n"]))
            if len(rest) < len(ps):
                bad.add("drops parameters")
        R.ob("dispatch", field, not bad, g.where, "; ".join(sorted(bad)))
    R.need(n, "paths through callbacks")


class Calls(Rule):
    loop_iters = 1
    max_states = 120

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and not base(f.n).startswith("print_function")

    def resolve(s, eng, st, ev, targets):
        return []

    def on_call(s, eng, st, ev):
        if ev.base == "allow_sensitive_logging":
            return [(st, I(0))]
        return None

    def on_ret(s, eng, st, ev, val):
        if ev.node.get("f") in vop_keys(eng.P):
            st.emit(("op", ev.base, tuple(ev.args), val, ev.where, ev.obj))

    def merge_key(s, eng, st):
        return tuple((e[1], e[4], e[2]) for e in st.trace if e[0] == "op")


def is_param(t, pid):
    return t[0] == "in" and t[1][0] == "v" and t[1][1] == 0 and t[1][2] == pid


def from_context(st, x, data=True):
    if x is None:
        return False
    s = repr(x)
    return "fuse_get_context" in s and (not data or "private_data" in s)


# ---------------------------------------------------------------------------------------------- delegation
def delegating(P):
    """{class: True} classes that hold another file system object and forward to it, with those derived from them"""
    out = set()
    for r in P.records.values():
        if r["n"] != OPS and OPS in P.all_bases(r["n"]):
            for x in r["fields"]:
                m = re_types(x["t"])
                if any(t == OPS or OPS in P.all_bases(t) for t in m):
                    out.add(r["n"])
    return out, {r["n"] for r in P.records.values() if set(P.all_bases(r["n"])) & out}


def re_types(t):
    import re
    return [PR.strip_t(x) for x in re.findall(r"[\w:]+", t)]


class Fwd(Rule):
    loop_iters = 1
    max_states = 200

    def __init__(s, keys, names):
        s.keys = keys
        s.names = names

    def inline(s, eng, f, ev):
        if base(f.n) in LOGGY or f.key in s.keys and s.foreign(ev):
            return False
        return True

    def foreign(s, ev):
        return ev.node.get("vt") or ev.obj != ("obj", "this")

    def resolve(s, eng, st, ev, targets):
        return []

    def on_ret(s, eng, st, ev, val):
        if ev.kind == "call" and ev.base in s.names and ev.node.get("f") in s.keys and s.foreign(ev):
            st.emit(("fwd", ev.base, tuple(ev.args), val, ev.where, ev.obj))

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, v))

    def merge_key(s, eng, st):
        return tuple((e[1], e[4], e[2]) for e in st.trace if e[0] == "fwd")


def interface(P):
    """every virtual method of the operations interface by name: v-operations, has_ queries and the rest"""
    r = P.rec_by_t.get(OPS)
    out = {}
    for m in (r or {}).get("methods", ()):
        if m.get("virt") and not base(m["n"]).startswith(("~", "operator")):
            out[m["key"]] = base(m["n"])
    return out


@rule("F02")
def wrappers_forward_everything(P, R):
    """Classes that hold another file system object (found by their fields) and their subclasses.  Every method of
    the interface must be overridden by the holder; each override is executed symbolically and must forward to
    the method of the same name of the held object, exactly once per path, with its own parameters in order, and
    return its result.  A path may answer by itself only if it found one of the parameters to be a particular
    value, or if the method is a query answered by a constant; a result may be replaced only after comparing it
    with one particular value."""
    itf = interface(P)
    R.need(itf, "interface of the file system object")
    keys = set(itf)
    for k in list(itf):
        keys |= P.all_overriders(k)
    names = set(itf.values())
    hold, derived = delegating(P)
    R.need(hold, "classes that hold another file system object")
    for c in sorted(hold):
        have = {base(m["n"]) for m in P.rec_by_t[c]["methods"]}
        for nm in sorted(names):
            R.ob("overridden", c + "::" + nm, nm in have, c, "not forwarded: the base class answers instead of the wrapped file system")
    n = 0
    for c in sorted(hold | derived):
        for m in P.rec_by_t[c]["methods"]:
            f = P.funcs.get(m["key"])
            if f is None or not f.body or base(f.n) not in names:
                continue
            R.fn(f)
            outs, eng = R.engine(P, Fwd(keys, names), f)
            bad = set()
            ps = [p["id"] for p in f.d["p"]]
            query = not base(f.n).startswith("v")
            fwd_any = False
            for kind, st, v in outs:
                if kind == "t":
                    continue
                n += 1
                cs = [e for e in st.trace if e[0] == "fwd"]
                if not cs:
                    if query and c not in hold and v is not None and v[0] == "int":
                        continue
                    if not particular(st, ps):
                        bad.add("a path does not forward to the wrapped file system")
                    continue
                fwd_any = True
                if len(cs) > 1:
                    bad.add("a path forwards %d times" % len(cs))
                _, b, args, val, where, obj = cs[-1]
                if b != base(f.n):
                    bad.add("forwards to %s" % b)
                for i, p in enumerate(ps):
                    if i >= len(args) or not is_param(args[i], p):
                        bad.add("argument %d is %s instead of '%s'" % (i + 1, show(args[i]) if i < len(args) else "missing", f.d["p"][i]["n"]))
                if f.d["ret"] != "void" and v != val:
                    same = [e for e in st.trace if e[0] == "if" and val is not None and e[1][0] == "eq0" and e[2] is True and
                            any(x == val for x in subterms(e[1]))]
                    if not same:
                        bad.add("returns %s instead of the wrapped file system's answer" % show(v))
            if not query and not fwd_any:
                bad.add("never forwards")
            R.ob("forwards", f.sn, not bad, f.where, "; ".join(sorted(bad))[:300])
    R.need(n, "paths through wrappers")


def particular(st, ps):
    """some parameter was found equal to something"""
    for e in st.trace:
        if e[0] != "if":
            continue
        t, v = e[1], e[2]
        while t[0] == "not":
            t, v = t[1], not v
        if not any(x and x[0] == "in" and x[1][0] == "v" and x[1][1] == 0 and x[1][2] in ps for x in subterms(t)):
            if not any(("'v', 0, %s," % p) in repr(t) for p in ps):
                continue
        if v is True and (t[0] == "eq0" or t[0] in ("call", "ret") and ("operator==" in str(t[1]) or "compare" in str(t[1]) or "equal" in str(t[1]).lower())):
            return True
        if v is False and t[0] == "call" and "operator!=" in str(t[1]):
            return True
    return False


# ------------------------------------------------------------------------------------------- idle unmounting
class Notify(Rule):
    loop_iters = 1
    max_states = 200

    def __init__(s, keys, names):
        s.f = Fwd(keys, names)

    def inline(s, eng, f, ev):
        return s.f.inline(eng, f, ev) and base(f.n) != "notify_activity" and not full_cls(f).endswith("DelegateFuseHighLevelOps")

    def resolve(s, eng, st, ev, targets):
        return []

    def on_ret(s, eng, st, ev, val):
        if ev.base == "notify_activity":
            st.emit(("notify", ev.where, ev.obj))
        elif ev.kind == "call" and ev.node.get("f") in s.f.keys and ev.base.startswith("v"):
            st.emit(("fwd", ev.base, ev.where))

    def merge_key(s, eng, st):
        return tuple(e[0] for e in st.trace)


def fields_of_type(P, cls, pred):
    r = P.rec_by_t.get(cls)
    return [x["n"] for x in (r or {}).get("fields", ()) if any(pred(t) for t in re_types(x["t"]))]


class Tm(Rule):
    """the timer: what is known about the deadline when things happen"""
    loop_iters = 2
    max_states = 400

    def __init__(s, cls, cond=()):
        s.cls = cls

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY

    def fld(s, eng, st, n):
        return eng.load(st, ("m", ("obj", "this"), n))

    def on_ret(s, eng, st, ev, val):
        b = ev.base
        if b.startswith(("Await", "LockWhen", "Wait")) and not b.startswith("WaitForExit"):
            st.emit(("wait", ev.where))
        elif b in ("Now", "GetCurrentTimeNanos"):
            st.emit(("now", val))
        elif b in ("operator<", "operator>", "operator<=", "operator>=") and len(ev.args) == 2:
            st.emit(("cmp", b[8:], ev.args[0], ev.args[1], val))
        elif b in ("MutexLock", "Lock", "ReleasableMutexLock", "WriterMutexLock"):
            st.emit(("lock", ev.where))
        elif b == "join":
            st.emit(("join",))
        elif b == "operator()" and ev.obj is not None and ev.obj[0] == "m" and ev.obj[1] == ("obj", "this"):
            st.emit(("fire", ev.obj[2], ev.where, tuple((x, tri(st, s.fld(eng, st, x))) for x in eng.P_bools), tuple((x, s.fld(eng, st, x)) for x in eng.P_times)))

    def on_store(s, eng, st, loc, val, node=None, fr=None):
        if loc[0] == "m" and loc[1] == ("obj", "this"):
            if loc[2] in eng.P_bools or loc[2] in eng.P_times:
                old = st.env.get(loc)
                st.emit(("store", loc[2], val, tri(st, val), eng_old(eng, st, loc)))

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, v))


def tri(st, v):
    """a boolean: True, False or None (unknown)"""
    if v[0] == "int":
        return v[1] != 0
    z = st.decide(("eq0", v))
    if z is not None:
        return not z
    return True if st.true(v) else None


def eng_old(eng, st, loc):
    return eng.prev if eng.prev is not None else ("in", loc, 0)


def holds_now(st_trace, i, times):
    """the comparison events up to i proving now >= deadline, as (now value, deadline field value)"""
    ifs = {}
    for e in st_trace[:i]:
        if e[0] == "if":
            t, v = e[1], e[2]
            while t[0] == "not":
                t, v = t[1], not v
            ifs[t] = v
    out = []
    nows = {e[1] for e in st_trace[:i] if e[0] == "now"}
    for e in st_trace[:i]:
        if e[0] != "cmp" or e[4] not in ifs:
            continue
        op, a, b = e[1], e[2], e[3]
        if not ifs[e[4]]:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
        if op in ("<", "<="):
            a, b = b, a
        out.append((a, b))       # a >= b
    return [(a, b) for a, b in out if a in nows]


@rule("F03")
def idle_unmount_only_when_idle(P, R):
    """The class that wraps the file system and holds an activity hook (found by its field) must, on every path of
    every virtual operation, notify the hook before forwarding; hooks that hold other hooks must notify each, and
    the hook that holds the timer must set it to the current time plus its timeout, also when constructed.  The
    timer's thread is executed symbolically: its callback may run only when, since the last wait, the exit flag
    was found false and a current time was found not to be before the deadline then in force.  Setting a deadline
    may raise but not lower the wake-up flag, and must raise it when the new deadline is nearer.  The destructor
    sets the exit flag and joins the thread.  The idle time must come from max_idle_seconds, in seconds."""
    itf = interface(P)
    keys = set(itf)
    for k in list(itf):
        keys |= P.all_overriders(k)
    names = set(itf.values())
    hooks = {c["n"] for c in P.records.values() if any(base(m["n"]) == "notify_activity" for m in c["methods"])}
    R.need(hooks, "activity hooks")
    hold, derived = delegating(P)
    wrappers = [c for c in sorted(derived | hold) if fields_of_type(P, c, lambda t: t in hooks)]
    R.need(wrappers, "wrappers that notify a hook")
    for c in wrappers:
        ms = {base(m["n"]): m for m in P.rec_by_t[c]["methods"]}
        for nm in sorted(n for n in names if n.startswith("v")):
            m = ms.get(nm)
            f = P.funcs.get(m["key"]) if m else None
            if not f or not f.body:
                R.ob("notifies", c + "::" + nm, False, c, "the operation does not go through the hook")
                continue
            outs, eng = R.engine(P, Notify(keys, names), f)
            bad = [1 for k, st, v in outs if k == "r" and not first_notify(st)]
            R.ob("notifies", f.sn, not bad, f.where, "a path forwards without notifying the hook first")
    nimpl = 0
    for c in sorted(hooks):
        for m in P.rec_by_t[c]["methods"]:
            f = P.funcs.get(m["key"])
            if base(m["n"]) != "notify_activity" or f is None or not f.body:
                continue
            timers = fields_of_type(P, c, lambda t: t.endswith("ResettableTimer"))
            inner = fields_of_type(P, c, lambda t: t in hooks)
            if timers:
                nimpl += 1
                for g in [f] + [h for h in P.funcs.values() if h.d.get("ctor") and full_cls(h) == c and h.body]:
                    outs, eng = events(P, R, g, ["setTimePoint"], stop=["setTimePoint"])
                    bad = set()
                    for k, st, v in outs:
                        if k != "r" and k != "n":
                            continue
                        cs = [e for e in st.trace if e[0] == "c"]
                        if not cs:
                            bad.add("a path does not restart the timer")
                        elif not deadline_ok(cs[-1][2][0], c, P):
                            bad.add("the timer is set to %s instead of now plus the timeout" % show(cs[-1][2][0]))
                    R.ob("restarts-timer", g.sn, not bad and outs, g.where, "; ".join(sorted(bad)))
            elif inner:
                nimpl += 1
                r = Each()
                outs, eng = R.engine(P, r, f)
                bad = [1 for k, st, v in outs if k == "r" and any(e[0] == "iter" for e in st.trace) and
                       len([e for e in st.trace if e[0] == "notify"]) < len([e for e in st.trace if e[0] == "iter"])]
                some = any(e[0] == "notify" for k, st, v in outs for e in st.trace)
                R.ob("notifies-all", f.sn, not bad and some, f.where, "a hook is skipped")
    R.need(nimpl, "hooks that act")
    timer(P, R)
    # the configured time
    made = 0
    timed = {c for c in hooks if fields_of_type(P, c, lambda t: t.endswith("ResettableTimer"))}
    OPSC = set(ops_classes(P))
    for f in P.funcs.values():
        for n in f.nodes():
            ty = n.get("t") or ""
            if n.get("a") and (n.get("k") == "call" and base(n.get("n") or "").startswith(("make_shared", "make_unique")) and
                               re_types(ty)[-1:] and any(t in timed for t in re_types(ty)) and not any(t in OPSC for t in re_types(ty)) or
                               n.get("k") == "ctor" and PR.strip_t(n.get("cls") or "") in timed and "Duration" in (n["a"][0].get("t") or "")):
                if "allocat" in f.n or f.d.get("ctor"):
                    continue
                made += 1
                sl = list(slice_nodes(f, n["a"][0]))
                sec = [x for x in sl if x.get("k") == "call" and base(x.get("n") or "") in ("Seconds", "Minutes", "Milliseconds", "Hours", "Nanoseconds", "Microseconds")]
                src = [x for x in sl if x.get("k") == "call" and base(x.get("n") or "").endswith("max_idle_seconds")]
                arith = [x for x in sl if x.get("k") == "bin"]
                ok = bool(src) and {base(x["n"]) for x in sec} == {"Seconds"} and not arith
                R.ob("configured", f.sn, ok, "%s:%s" % (f.short, n.get("l")), "the idle time is not absl::Seconds(max_idle_seconds)")
    R.need(made, "construction of the idle hook")


def first_notify(st):
    k = [e[0] for e in st.trace if e[0] in ("notify", "fwd")]
    return bool(k) and k[0] == "notify"


def deadline_ok(t, cls, P):
    """now + this->timeout"""
    for a in (t,):
        if a[0] in ("call", "ret") and "operator+" in str(a[1]) or a[0] == "lin":
            s = repr(a)
            return "absl::Now" in s and "Duration" not in s and any(x and x[0] == "in" and x[1][0] == "m" and x[1][1] == ("obj", "this")
                       or x and x[0] == "in" and x[1][0] == "v" and x[1][1] == 0 for x in subterms(a)) and not arith_in(a)
    return False


def arith_in(a):
    n = 0
    for x in subterms(a):
        if x and x[0] in ("call", "ret") and isinstance(x[1], str) and any(o in x[1] for o in ("operator*", "operator/", "operator-")):
            n += 1
    return n


class Each(Rule):
    loop_iters = 2

    def inline(s, eng, f, ev):
        return False

    def on_ret(s, eng, st, ev, val):
        if ev.base == "notify_activity":
            st.emit(("notify", ev.where))

    def on_iter(s, eng, st, node, fr):
        st.emit(("iter", node.get("l")))


def timer(P, R):
    from .errors import threads
    th = [g for g in threads(P).values() if g.d.get("lambda") and g.owner is not None and g.owner.cls and
          fields_of_type(P, full_cls(g.owner), lambda t: t == "std::function")] + \
         [g for g in threads(P).values() if not g.d.get("lambda") and g.cls and fields_of_type(P, full_cls(g), lambda t: t == "std::function")]
    R.need(th, "timer threads")
    for g in th:
        o = g.owner if g.d.get("lambda") else g
        c = full_cls(o)
        r = P.rec_by_t[c]
        bools = [x["n"] for x in r["fields"] if x["t"] == "bool"]
        times = [x["n"] for x in r["fields"] if x["t"].replace("const ", "") == "absl::Time"]
        cbs = fields_of_type(P, c, lambda t: t == "std::function")
        R.need(times and bools, "deadline and flags of " + c)
        # which flag means exit: the one the destructor sets
        dt = [f for f in P.funcs.values() if full_cls(f) == c and "::~" in f.sn]
        exitf, joined, bad = set(), True, set()
        for f in dt:
            outs, eng = run_t(P, R, f, c, bools, times)
            for k, st, v in outs:
                ex = {e[1] for e in st.trace if e[0] == "store" and e[3] is True}
                exitf |= ex
                lk = [i for i, e in enumerate(st.trace) if e[0] == "lock"]
                es = [i for i, e in enumerate(st.trace) if e[0] == "store"]
                if es and not (lk and lk[0] < es[0]):
                    bad.add("the exit flag is set without the mutex")
                jn = [i for i, e in enumerate(st.trace) if e[0] == "join"]
                nj = any(e[0] == "if" and "joinable" in repr(e[1]) and e[2] is False for e in st.trace)
                if not jn and not nj:
                    bad.add("a path does not join the thread")
                if jn and not (es and es[0] < jn[0]):
                    bad.add("the thread is joined before it is told to exit")
            R.ob("stops", f.sn, not bad and exitf, f.where, "; ".join(sorted(bad)) or "no exit flag is set")
        if not dt:
            R.ob("stops", c, False, o.where, "no destructor stops the thread")
        outs, eng = run_t(P, R, g, c, bools, times)
        bad, fired = set(), 0
        for k, st, v in outs:
            tr = st.trace
            for i, e in enumerate(tr):
                if e[0] != "fire" or e[1] not in cbs:
                    continue
                fired += 1
                w = max([j for j in range(i) if tr[j][0] == "wait"], default=None)
                if w is None:
                    bad.add("the callback runs without waiting")
                    continue
                fl = dict(e[3])
                if not any(fl.get(x) is False for x in exitf):
                    bad.add("the callback may run after the timer was told to exit")
                cur = dict(e[4])
                now = {x[1] for x in tr[w:i] if x[0] == "now"}
                if not any(a in now and b in cur.values() for a, b in holds_now(tr, i, times)):
                    bad.add("the callback may run before the deadline in force has passed")
        R.ob("fires-when-due", o.sn, not bad and fired, g.where, "; ".join(sorted(bad)) or "the callback never runs")
        # setting a deadline
        n = 0
        for f in sorted(P.methods_of(c), key=lambda f: f.key):
            if f.d.get("ctor") or "::~" in f.sn or not f.body or f.d.get("lambda"):
                continue
            outs, eng = run_t(P, R, f, c, bools, times)
            bad = set()
            sets = False
            for k, st, v in outs:
                tm = [e for e in st.trace if e[0] == "store" and e[1] in times]
                if not tm:
                    continue
                sets = True
                new, old = tm[-1][2], tm[0][4]
                near = None
                for e in st.trace:
                    if e[0] == "cmp" and {e[2], e[3]} == {new, old}:
                        op, a, b = e[1], e[2], e[3]
                        if a == old:
                            op, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], b, a
                        for x in st.trace:
                            if x[0] == "if" and strip_not(x)[0] == e[4]:
                                near = strip_not(x)[1] if op in ("<", "<=") else not strip_not(x)[1]
                        cmpv = e[4] if op in ("<", "<=") else None
                        raised = [x for x in st.trace if x[0] == "store" and x[1] in bools and (x[3] is True or x[2] == cmpv or
                                  x[2][0] == "op" and x[2][1] in ("|", "||") and cmpv in x[2])]
                        if near is not False and not raised:
                            bad.add("a nearer deadline does not wake the thread")
                for e in st.trace:
                    if e[0] == "store" and e[1] in bools and e[1] not in exitf:
                        if e[3] is True or any(x == e[4] for x in subterms(e[2])) or tri(st, e[4]) is False:
                            continue
                        bad.add("may cancel a wake-up that is still pending")
                if not any(e[0] == "cmp" for e in st.trace) and not any(
                        e[0] == "store" and e[1] in bools and e[3] is True for e in st.trace):
                    bad.add("a nearer deadline does not wake the thread")
            if sets:
                n += 1
                R.ob("no-lost-wakeup", f.sn, not bad, f.where, "; ".join(sorted(bad)))
        R.need(n, "methods that set the deadline")


def strip_not(e):
    t, v = e[1], e[2]
    while t[0] == "not":
        t, v = t[1], not v
    return t, v


def run_t(P, R, f, c, bools, times):
    from ..engine import Engine
    Engine.P_bools, Engine.P_times = tuple(bools), tuple(times)
    return R.engine(P, Tm(c), f)
