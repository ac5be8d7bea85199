"""D05: what has been changed is marked until it has been written.  D03: flushing and syncing reach the storage."""
import re
from collections import defaultdict
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .locks import ftype, ops_roots, bare
from .common import *

ACCESS = {"operator[]", "operator*", "operator->", "get", "value", "back", "front", "at", "begin", "end", "find", "data", "second", "first"}


def lvalue_field(e):
    """the field node an lvalue expression denotes (a part of), with what it is a field of"""
    while isinstance(e, dict):
        k = e.get("k")
        if k == "mem":
            return e
        if k in ("idx", "cast", "paren"):
            e = e["a"]
        elif k == "un" and e.get("op") in ("*", "&"):
            e = e["a"]
        elif k == "call" and PR.base_name(e.get("n") or "") in ACCESS:
            e = e.get("o") or (e.get("a") or [None])[0]
        else:
            return None
    return None


def touches(f, fields):
    """nodes of f that change (or hand out for change) one of these fields: [(node, field, field node)]"""
    out = []

    def look(n, e):
        m = lvalue_field(e)
        while m is not None and m["f"] not in fields:
            m = lvalue_field(m.get("b"))
        if m is not None:
            out.append((n, m["f"], m))
    for x in f.nodes():
        k = x.get("k")
        if k == "asg":
            look(x, x["a"])
        elif k == "un" and x.get("op") in ("++", "--", "p++", "p--", "++p", "--p"):
            look(x, x["a"])
        elif k in ("call", "ctor"):
            o = x.get("o")
            if o is not None and not x.get("cm") and o.get("k") != "this" and PR.base_name(x.get("n") or "") not in ACCESS:
                look(x, o)
            for a, pt in zip(x.get("a", ()), x.get("pt", ())):
                if pt in ("r", "p", "rr"):
                    look(x, a)
    return out


def hands_out(f, fields):
    """fields of which f returns a reference or pointer through which they can be changed"""
    t = (f.d.get("ret") or "").strip()
    if not t or t[-1] not in "&*" or t.startswith("const ") or f.d.get("const"):
        return set()
    out = set()
    for s in PR.all_stmts(f.body) if hasattr(PR, "all_stmts") else stmts_of(f.body):
        if s.get("s") == "return" and s.get("e"):
            m = lvalue_field(s["e"])
            if m is not None and m["f"] in fields:
                out.add(m["f"])
    return out


def stmts_of(b):
    todo = [b]
    while todo:
        x = todo.pop()
        if isinstance(x, list):
            todo.extend(x)
        elif isinstance(x, dict):
            if "s" in x:
                yield x
            todo.extend(v for v in x.values() if isinstance(v, (dict, list)))


def write_keys(P):
    """functions from which something is written to a file"""
    c = P.__dict__.get("_write_keys")
    if c is None:
        c = P._write_keys = P.reaching(lambda n: PR.base_name(n.get("n") or "") in ("pwrite", "pwrite64", "write", "pwritev", "ftruncate"))
    return c


def flags_of(P):
    """Marks of pending changes: {flag field: functions that clear it outside construction}.  A mark is a bool field
    that is both set and cleared by constants, and some function that clears it (itself or by calling the clearing
    member) writes to a stream."""
    st = defaultdict(lambda: (set(), set()))
    for f in P.funcs.values():
        if not f.body or f.d.get("ctor"):
            continue
        for n in f.nodes():
            if n.get("k") == "asg" and n["a"].get("k") == "mem" and n["b"].get("k") == "int" and n["a"].get("t", "").replace("const ", "") == "bool":
                st[n["a"]["f"]][1 if n["b"]["v"] else 0].add(f.key)
    write = write_keys(P)
    out = {}
    for fl, (clr, mark) in st.items():
        if not clr or not mark:
            continue
        ws = set()
        for k in clr:
            todo = [(P.funcs[k], 0)]
            while todo:
                g, d = todo.pop()
                if any(t.key in write and t.key != g.key for n, ts in P.calls(g) for t in ts):
                    ws.add(g.key)
                elif d < 2:
                    todo += [(c, d + 1) for c in callers(P, g)]
        if ws:
            out[fl] = (ws, clr)
    return out


STREAMY = ("StreamBase", "HeaderBase", "FileStream", "shared_ptr", "unique_ptr", "Mutex", "atomic<long>", "atomic<int>")


def persistent_of(P, fl, writers):
    """the fields of the flag's class that its writers put into storage"""
    cls = fl.rsplit("::", 1)[0]
    out = set()
    seen = set()
    todo = list(writers)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = P.funcs[k]
        for n in f.nodes():
            if n.get("k") == "mem" and n["f"].rsplit("::", 1)[0] == cls:
                out.add(n["f"])
        for n, ts in P.calls(f):
            for t in ts:
                if t.body and t.cls and (t.scls == cls or t.scls == f.scls) and len(seen) < 60:
                    todo.append(t.key)
    keep = set()
    for q in out:
        t = ftype(P, q)
        if q == fl or t.startswith("const ") or t.endswith("*") or any(x in t for x in STREAMY):
            continue
        keep.add(q)
    return keep


class Marks(Rule):
    """ghost: which objects' persistent fields were changed"""
    max_states = 300
    loop_iters = 1

    def __init__(s, P, fields, flag, follow):
        s.P, s.fields, s.flag, s.follow = P, fields, flag, follow

    def inline(s, eng, f, ev):
        return s.follow(f)

    def bases(s, loc):
        out = []
        while isinstance(loc, tuple) and loc:
            if loc[0] == "m":
                if loc[2] in s.fields:
                    out.append((loc[1], loc[2]))
                loc = loc[1]
            elif loc[0] in ("el",):
                loc = loc[1]
            elif loc[0] == "d":
                a = loc[1]
                if a and a[0] == "lin":
                    a = next((t for t, c in a[2] if c == 1 and t[0] == "addr"), a)
                if a and a[0] == "fld":
                    a = a[1]
                if not a or a[0] != "addr":
                    break
                loc = a[1]
            else:
                break
        return out

    def touch(s, st, loc, how, val):
        for o, f in s.bases(loc):
            st.emit(("touch", o, f, how, val))

    def on_store(s, eng, st, loc, val, node=None, fr=None):
        w = "%s:%d" % (fr.func.short, node.get("l", 0)) if node is not None else ""
        if loc[0] == "m" and loc[2] == s.flag:
            st.emit(("flag", loc[1], val, w))
            return
        s.touch(st, loc, w, val)

    def on_ret(s, eng, st, ev, val):
        n = ev.node
        if n.get("k") not in ("call", "ctor") or not n.get("ext"):
            return
        b = ev.base
        if ev.obj is not None and not n.get("cm") and b not in ACCESS:
            s.touch(st, ev.obj if ev.obj[0] != "addr" else ev.obj[1], ev.where, (val,) + tuple(ev.args))
        for a, pt, l in zip(ev.args, n.get("pt", ()), ev.locs or (None,) * len(ev.args)):
            if pt in ("r", "p", "rr"):
                if l is not None:
                    s.touch(st, l, ev.where, None)
                if a is not None and a[0] == "addr":
                    s.touch(st, a[1], ev.where, None)

    def on_call(s, eng, st, ev):
        if ev.base.startswith("create") and ev.kind == "call":
            st.emit(("created",))
        return None


DECODE = {"from_little_endian", "from_big_endian", "read_and_forward"}


def uninitialised(P, val):
    """a part of the value nobody has set, or None"""
    if not isinstance(val, tuple):
        return None
    for x in subterms(val) if val and isinstance(val[0], str) else (y for v in val if isinstance(v, tuple) for y in subterms(v)):
        if x[0] == "uninit":
            return x[3]
        if x[0] == "rec" and x[1][0] == "new" and x[1][1] in ("timespec",):
            if len({p[0] for p, v in x[2]}) >= 2:
                return None
            return x[1][1]
        if x[0] == "new" and x[1] == "timespec":
            return x[1]
    return None


class MarksD(Marks):
    def throws(s, eng, st, ev):
        if ev.vt and ev.kind == "call" and not ev.node.get("nx") and s.trying:
            return ("securefs::ExceptionBase",)
        return ()

    def on_ret(s, eng, st, ev, val):
        if ev.base in DECODE:
            st.emit(("decode",))
        if val is not None and ev.kind == "call" and (ev.base.startswith("create") or ("created",) in st.trace):
            # a new object is born with its mark set (an obligation of the constructor)
            t = ev.node.get("t", "")
            if any(x in t for x in s.born):
                eng.store(st, ("m", ("d", val), s.flag), TRUE)
                st.emit(("born", val))
        Marks.on_ret(s, eng, st, ev, val)


def no_change(st, t):
    """insertion into a map that reported that nothing was inserted"""
    v = t[4]
    return isinstance(v, tuple) and v and isinstance(v[0], tuple) and v[0][0] == "ret" and \
        any(st.decide(x) is False for x in inserted_terms(st, v[0]))


def inserted_terms(st, r):
    out = []
    for (ts, c) in [k[0] for k in st.iv if len(k) == 1] if False else []:
        out.append(ts)
    for k in st.iv:
        for t, c in k:
            if t[0] in ("fld", "in", "call") and r in list(subterms(t)) and "second" in str(t):
                out.append(t)
    return out


UNSET = {}


def mark_judge(P, R, flag, fields, f, level0, seen, followed):
    def follow(g):
        if simple(g) or g.key in seen or g.d.get("lambda"):
            followed.add(g.key)
            return True
        return False
    r = MarksD(P, fields, flag, follow)
    cls = flag.rsplit("::", 1)[0]
    if f.key in seen and not level0:
        return []
    r.trying = any(x.get("s") == "try" for x in stmts_of(f.body))
    r.born = {bare(cls).split("::")[-1]} | {x.split("::")[-1] for x in P.all_derived(cls)} | {"FilePtrHolder"}
    outs, eng = R.engine(P, r, f)
    bad = []
    if level0:
        UNSET[f.key, flag] = sorted({(t[3], t[2], u) for k_, st, v_ in outs for t in st.trace if t[0] == "touch"
                                     for u in [uninitialised(P, t[4])] if u})
    for kind, st, v in outs:
        objs = {}
        decoded = ("decode",) in st.trace
        for t in st.trace:
            if t[0] == "touch" and not no_change(st, t):
                objs.setdefault(t[1], []).append(t)
        for o, ts in objs.items():
            if o[0] in ("v", "t") and f.d.get("ctor") is None:
                pass
            d = eng.load(st, ("m", o, flag))
            if st.decide(d) is True or d == TRUE:
                continue
            fl = [x[2] for x in st.trace if x[0] == "flag" and x[1] == o]
            if fl and fl[-1] == TRUE:
                continue
            if any(v[0] != "int" for v in fl):
                continue        # copied or exchanged along with the content
            if level0 and decoded:
                continue        # what was just read from storage
            bad.append((ts[-1][3], ts[-1][2]))
        # handed out for change
        if kind == "r":
            for q in hands_out(f, fields):
                d = eng.load(st, ("m", ("obj", "this"), flag))
                if d != TRUE and st.decide(d) is not True:
                    bad.append((f.where, q))
    return bad


@rule("D05")
def changes_are_marked_until_written(P, R):
    """A mark is a bool field set on change and cleared when written.  The fields its writers read are its persistent
    state.  Every function that changes persistent state leaves the object marked at every exit (or exchanges the mark
    together with the state, or has just decoded the state from storage)."""
    marks = flags_of(P)
    R.need(len(marks) >= 2, "marks of pending changes")
    wk = write_keys(P)
    for flag in sorted(marks):
        writers, clearers = marks[flag]
        fields = persistent_of(P, flag, writers)
        cls = flag.rsplit("::", 1)[0]
        roots = [f for f in P.funcs.values() if f.body and not f.d.get("ctor") and not f.n.split("::")[-1].startswith("~")
                 and (any(n.get("k") == "mem" and n["f"] in fields for n in f.nodes()) or f.scls == cls)]
        for f in sorted(roots, key=lambda x: x.n):
            R.fn(f)
            if f.d.get("lambda"):
                continue
            followed = {}

            def judge(g):
                followed[g.key] = set()
                return mark_judge(P, R, flag, fields, g, g is f, {f.key}, followed[g.key])
            bad = judged_with_lift(P, f, judge, lambda g: followed.get(g.key, ()))
            R.ob("change is marked", "%s (%s)" % (f.sn, flag.split("::")[-2]), not bad, bad[0][0] if bad else f.where,
                 "%s is changed but %s is not set" % (bad[0][1], flag) if bad else "")
            odd = UNSET.get((f.key, flag), ())
            R.ob("value set", "%s (%s)" % (f.sn, flag.split("::")[-2]), not odd, odd[0][0] if odd else f.where,
                 "%s is given a value nobody has set (%s)" % (odd[0][1], odd[0][2]) if odd else "")
        for k in sorted(writers):
            writer_obligations(P, R, flag, P.funcs[k], wk)
        newborn(P, R, flag, cls)
        defined(P, R, flag, cls)


def defined(P, R, flag, cls):
    rec = P.record_of(cls)
    fs = [x for x in (rec or {}).get("fields", ()) if x["n"] == flag]
    ok = bool(fs and fs[0].get("init"))
    cs = [c for c in P.funcs.values() if c.d.get("ctor") and c.scls == cls and c.body is not None and c.d.get("inits")]
    bad = [c for c in cs if not any(i.get("deleg") or (i.get("field") == flag and i.get("w")) for i in c.d["inits"])]
    ok = ok or bool(cs and not bad)
    R.ob("mark starts defined", flag, ok, bad[0].where if bad else "sources", "" if ok else
         "no initial value: whether the object is written back is undefined")


class Clears(Rule):
    """order of tests, writes and clearing of marks in a writer"""
    max_states = 300

    def __init__(s, P, f, flag, wk):
        s.P, s.f, s.flag, s.wk = P, f, flag, wk

    def follow(s, g):
        if simple(g) and g.key not in s.wk:
            return True
        # helpers of the same class that (un)mark something
        return g.scls == s.f.scls and not g.d.get("virt") and any(n.get("k") == "mem" and n["f"] == s.flag for k in s.P.reach([g]) if k in s.P.funcs and s.P.funcs[k].body
                and (s.P.funcs[k].scls in (s.f.scls, s.flag.rsplit("::", 1)[0])) for n in s.P.funcs[k].nodes())

    def inline(s, eng, g, ev):
        return s.follow(g) or bool(g.d.get("lambda"))

    def on_store(s, eng, st, loc, val, node=None, fr=None):
        if loc[0] == "m" and loc[2] == s.flag:
            st.emit(("flag", loc[1], val, "%s:%d" % (fr.func.short, node.get("l", 0)) if node is not None else ""))

    def on_assume(s, eng, st, t, v, node, fr):
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "eq0":
            t, v = t[1], not v
            if t[0] == "lin" and t[1] == 0 and len(t[2]) == 1:
                t = t[2][0][0]
        if t[0] == "in" and t[1][0] == "m" and t[1][2] == s.flag:
            st.emit(("is", t[1][1], v))

    def on_ret(s, eng, st, ev, val):
        if ev.kind != "call" or ev.node.get("cm"):
            return
        ts = s.P.targets(ev.node)
        if any(g.key in s.wk for g in ts) and (ev.vt or not any(s.follow(g) for g in ts)):
            st.emit(("write", tuple(ev.args) + tuple(("addr", l) for l in (ev.locs or ()) if l is not None), ev.where, ev.base))


def same_object(o, vals):
    r = ("addr", o)
    for v in vals:
        if v is None:
            continue
        for x in subterms(v):
            if x == r or x == o or (o[0] == "d" and x == o[1]):
                return True
    return False


def writer_obligations(P, R, flag, f, wk):
    cls = flag.rsplit("::", 1)[0]
    R.fn(f)
    outs, eng = R.engine(P, Clears(P, f, flag, wk), f)
    early = []
    lost = []
    for kind, st, v in outs:
        tr = list(st.trace)
        for i, t in enumerate(tr):
            if t[0] == "flag" and t[2] == FALSE:
                own = t[1] == ("obj", "this")
                tests = [j for j, x in enumerate(tr[:i]) if x[0] == "is" and x[1] == t[1]]
                if not any(x[0] == "write" and (own or same_object(t[1], x[1])) for x in tr[tests[-1] if tests else 0:i]):
                    early.append((t[3], "%s is cleared before anything was written" % flag))
                for x in tr[i:]:
                    if own and x[0] == "write" and x[3].startswith("write"):
                        early.append((t[3], "%s is cleared before the write at %s" % (flag, x[2])))
        if kind != "r":
            continue
        for i, t in enumerate(tr):
            if t[0] == "is" and t[2]:
                if not any(x[0] == "flag" and x[1] == t[1] and x[2] == FALSE for x in tr[i:]):
                    lost.append((f.where, "returns without writing although %s is set" % flag))
        if f.scls == cls and not any(t[0] in ("is", "write") for t in tr):
            lost.append((f.where, "returns without having looked at %s or written" % flag))
    R.ob("cleared after the write", "%s in %s" % (flag, f.sn), not early, early[0][0] if early else f.where, early[0][1] if early else "")
    for s in stmts_of(f.body):
        if s.get("s") in ("for", "rfor", "while", "do") and f.scls != cls:
            for q in stmts_of(s.get("b")):
                if q.get("s") in ("break", "return"):
                    lost.append(("%s:%d" % (f.short, q.get("l", 0)), "stops before all marked objects were written"))
    R.ob("everything marked is written", "%s in %s" % (flag, f.sn), not lost, lost[0][0] if lost else f.where, lost[0][1] if lost else "")


class Newborn(Clears):
    """constructor of an object whose storage holds nothing yet"""

    def __init__(s, P, f, flag):
        Clears.__init__(s, P, f, flag, ())
        s.hit = False

    def follow(s, g):
        return simple(g) or (g.scls == s.f.scls and g.body and not g.d.get("virt")) or bool(g.d.get("ctor") and g.scls == s.f.scls)

    def on_call(s, eng, st, ev):
        if ev.kind == "call" and ev.vt and ev.node.get("t") == "bool" and any(p in ("p",) for p in ev.node.get("pt", ())):
            s.hit = True
            st.emit(("nothing stored", ev.where))
            return [(st, FALSE)]
        return None


def newborn(P, R, flag, cls):
    ctors = [c for c in P.funcs.values() if c.d.get("ctor") and c.scls == cls and c.body is not None]
    for c in sorted(ctors, key=lambda x: x.key):
        r = Newborn(P, c, flag)
        outs, eng = R.engine(P, r, c)
        if not r.hit:
            continue
        R.fn(c)
        bad = []
        for kind, st, v in outs:
            if kind == "r" and any(t[0] == "nothing stored" for t in st.trace):
                fl = [t[2] for t in st.trace if t[0] == "flag"]
                if not fl or fl[-1] != TRUE:
                    bad.append(c.where)
        R.ob("new object is marked", c.sn, not bad, c.where, "" if not bad else "an object not stored before is not marked by its constructor, so it may never be written")


def stream_family(P):
    """classes of byte streams and headers: what declares the virtual flush()/flush_header() and what derives from it"""
    tops = set()
    for f in P.funcs.values():
        if base(f.n) in ("flush", "flush_header", "fsync") and f.cls and (f.d.get("virt") or f.d.get("over")) and not f.d.get("p"):
            tops.add(f.scls)
    for c in list(tops):
        tops |= {PR.strip_t(x) for x in P.all_derived(c)}
    return tops


def stream_fields(P, cls):
    fam = stream_family(P)
    out = {}
    rec = P.record_of(cls)
    for x in (rec or {}).get("fields", ()):
        t = x["t"]
        for c in fam:
            if re.search(r"(^|[^\w:])(const )?%s($|[^\w:])" % re.escape(c), t):
                out[x["n"]] = c
    return out


class Flushes(Rule):
    max_states = 300

    def __init__(s, P, follow, names, flags):
        s.P, s.follow, s.names, s.flags = P, follow, names, flags

    def inline(s, eng, g, ev):
        return s.follow(g)

    def on_ret(s, eng, st, ev, val):
        if ev.kind == "call" and ev.base in s.names:
            st.emit((ev.base, ev.obj, ev.where))

    def on_assume(s, eng, st, t, v, node, fr):
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "eq0":
            t, v = t[1], not v
            if t[0] == "lin" and t[1] == 0 and len(t[2]) == 1:
                t = t[2][0][0]
        if t[0] == "in" and t[1][0] == "m" and t[1][2] in s.flags and not v:
            st.emit(("clean", t[1][2]))


def loc_fields(x):
    out = []
    if x is None:
        return out
    for t in subterms(x):
        if t[0] == "m" and isinstance(t[2], str):
            out.append(t[2])
    return out


def writes_set_mark(P, cls, field, flags):
    """every method of the class that writes to this stream sets a mark itself, unless it is (a part of) the writer
    that clears the mark"""
    ms = [m for m in P.methods_of(cls) if m.body and not m.d.get("ctor")]

    def sets(m, v):
        return any(n.get("k") == "asg" and n["a"].get("k") == "mem" and n["a"]["f"] in flags and n["b"].get("k") == "int" and bool(n["b"]["v"]) == v
                   for n in m.nodes())

    def ok(m, seen):
        if sets(m, True) or sets(m, False):
            return True
        if m.key in seen:
            return True
        up = callers(P, m)
        return bool(up) and all(c.scls == PR.strip_t(cls) and ok(c, seen | {m.key}) for c in up)
    hit = False
    for m in ms:
        wr = False
        for n in m.nodes():
            if n.get("k") == "call" and base(n.get("n") or "") in ("write", "resize") and n.get("o") is not None:
                q = lvalue_field(n["o"])
                wr = wr or (q is not None and q["f"] == field)
        if wr and not ok(m, frozenset()):
            return False
        hit = hit or (wr and sets(m, True))
    return hit


FLUSH = ("flush", "flush_header", "fsync")


@rule("D03")
def synced_data_is_on_storage(P, R):
    """Every flush() in a stack of streams flushes every stream the class holds, on every path that returns normally
    (a class whose every write sets a mark may stop when the mark is clear); subflush() of each file writes what it
    has marked; fsync() flushes first, then syncs every file the object holds; the operations do this for the file
    of the handle before they report success."""
    fam = stream_family(P)
    R.need(len(fam) >= 5, "stream classes")
    marks = flags_of(P)
    filestreams = {c for c in fam if any(base(f.n) == "fsync" and f.scls == c for f in P.funcs.values())}
    filestreams |= {PR.strip_t(b) for c in filestreams for b in P.all_bases(c)} & {c for c in fam if any(base(f.n) == "fsync" and f.scls == c for f in P.funcs.values())}
    n = 0
    for f in sorted(P.funcs.values(), key=lambda x: (x.n, x.key)):
        if not f.body or not f.cls or base(f.n) not in FLUSH or f.d.get("p"):
            continue
        cls = f.scls
        fl = set()
        for c in [cls] + [PR.strip_t(x) for x in P.all_bases(cls)]:
            fl.update(q for q in marks if q.rsplit("::", 1)[0] == c)
        held = stream_fields(P, cls)
        for c in P.all_bases(cls):
            held.update(stream_fields(P, PR.strip_t(c)))
        if not held:
            if base(f.n) == "fsync":
                r = Flushes(P, lambda g: simple(g), {"fsync", "fdatasync", "fcntl", "FlushFileBuffers"}, ())
                outs, eng = R.engine(P, r, f)
                bad = [1 for kind, st, v in outs if kind == "r" and not st.trace]
                R.fn(f)
                R.ob("fsync reaches", "%s: the system" % f.sn, not bad, f.where, "returns without having synced the file" if bad else "")
            continue
        files = {q for q, t in held.items() if t in filestreams}
        upper = set(held) - files
        subs = {m.key for c in [cls] + [PR.strip_t(x) for x in P.all_bases(cls)] for m in P.methods_of(c) if base(m.n) == "subflush"}
        names = set(FLUSH) | {"subflush", "write_header"}
        r = Flushes(P, lambda g, c=cls: (g.scls == c or simple(g)) and not g.d.get("lambda"), names, fl)
        outs, eng = R.engine(P, r, f)
        if base(f.n) == "fsync":
            need = {("fsync", q) for q in files}
        elif base(f.n) == "flush_header":
            wr = written_by(P, cls, "write_header")
            need = {("flush", q) for q in held if q in wr}
        else:
            need = {("flush", q) for q in (upper or held)}
        n += len(need)
        R.fn(f)
        if subs and base(f.n) == "flush":
            bad = []
            for kind, st, v in outs:
                if kind != "r":
                    continue
                b = [t[0] for t in st.trace]
                if "subflush" not in b:
                    bad.append("returns without subflush()")
                elif "write_header" in b and b.index("write_header") < b.index("subflush"):
                    bad.append("the header is written before subflush(), which may still change it")
            R.ob("flush reaches", "%s: subflush" % f.sn, not bad, f.where, bad[0] if bad else "")
        for what, q in sorted(need):
            lost = []
            for kind, st, v in outs:
                if kind != "r":
                    continue
                tr = list(st.trace)
                if any(t[0] == "clean" for t in tr) and writes_set_mark(P, cls, q, fl):
                    continue
                at = [i for i, t in enumerate(tr) if (t[0] == what or (what == "flush" and t[0] == "flush_header")) and q in loc_fields(t[1])]
                if not at:
                    lost.append("returns without %s of %s" % (what, q))
                elif what == "flush" and any(t[0] in ("subflush", "write_header") for t in tr[at[-1]:]):
                    lost.append("%s is flushed before the last write to it" % q)
                elif what == "fsync":
                    late = [t for t in tr[at[-1]:] if t[0] in ("flush", "flush_header")]
                    if late:
                        lost.append("%s at %s comes after the fsync of %s" % (late[0][0], late[0][2], q))
            R.ob("%s reaches" % base(f.n), "%s: %s" % (f.sn, q.split("::")[-1]), not lost, f.where, lost[0] if lost else "")
    R.need(n >= 8, "streams held by streams and files")
    # marked state of derived files
    for flag in sorted(marks):
        for k in sorted(marks[flag][0]):
            w = P.funcs[k]
            if w.scls in fam or base(w.n) in FLUSH:
                continue
            owner = [m for m in P.methods_of(w.scls) if base(m.n) in ("subflush", "flush") and m.body]
            if not w.scls:
                continue
            good = None
            via = P.reaching(lambda n, w=w: n.get("f") == w.key)
            for m in owner:
                R.fn(m)
                if m.key != w.key:
                    outs, eng = R.engine(P, Flushes(P, lambda g: g.key in via and g.key != w.key, {base(w.n)}, set()), m)
                    if [1 for kind, st, v in outs if kind == "r" and not st.trace]:
                        continue
                good = good or m
            R.ob("marks are written by subflush", "%s of %s" % (flag, w.scls), good is not None, (good or w).where,
                 "" if good else "neither subflush() nor flush() of %s always calls %s()" % (w.scls, base(w.n)))
    # the operation itself
    k = 0
    subs = {base(f.n) for f in P.funcs.values() if base(f.n) == "subflush"}
    for op, seq in (("vflush", ("flush",)), ("vfsync", ("flush", "fsync"))):
        for f in sorted(ops_roots(P), key=lambda x: x.n):
            if base(f.n) != op or delegates_only(P, f):
                continue
            R.fn(f)
            k += 1
            outs, eng = R.engine(P, Flushes(P, lambda g: simple(g) and not (g.scls in fam), {"flush", "fsync"}, set()), f)
            bad = []
            ok = 0
            for kind, st, v in outs:
                if kind != "r" or st.rng(v)[1] < 0:
                    continue
                got = [(t[0], t[2]) for t in st.trace]
                names = [g[0] for g in got]
                if not all(x in names for x in seq):
                    bad.append("reports success without %s" % next(x for x in seq if x not in names))
                elif len(seq) == 2 and names.index("flush") > names.index("fsync"):
                    bad.append("syncs before it flushes")
                ok += 1
            R.ob("operation %s" % op, f.sn, ok and not bad, f.where, bad[0] if bad else "")
    R.need(k >= 4, "flush and fsync operations of both formats")


def written_by(P, cls, name):
    out = set()
    for m in P.methods_of(cls):
        if base(m.n) == name and m.body:
            for n in m.nodes():
                if n.get("k") == "call" and base(n.get("n") or "") in ("write", "resize") and n.get("o") is not None:
                    q = lvalue_field(n["o"])
                    if q is not None:
                        out.add(q["f"])
    return out


def delegates_only(P, f):
    """a wrapper that passes the operation on (F02's business)"""
    return any(base(n.get("n") or "") == base(f.n) for n in f.nodes() if n.get("k") == "call")
