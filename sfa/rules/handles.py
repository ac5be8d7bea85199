"""D01: the table of open files.  D02: handles given to FUSE."""
import re
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .locks import ftypes, bare, targs, ops_roots
from .common import *

OBJ = "securefs::FileBase"


def tables(P):
    """fields that keep file objects: (live: keyed by id, idle: other containers, single: one object of the table)"""
    live, idle, single = set(), set(), set()
    for q, (t, rec, fl) in ftypes(P).items():
        b = bare(t)
        if "unique_ptr<%s" % OBJ not in b:
            continue
        head = b.split("<")[0]
        if re.search(r"(^|::)(\w*map\w*)$", head):
            live.add(q)
        elif head.endswith("unique_ptr"):
            if len(targs(b)) < 2 or "default_delete" in targs(b)[1]:
                single.add(q)
        elif re.search(r"(^|::)(vector|deque|list|\w*set\w*)$", head):
            idle.add(q)
    return live, idle, single


def table_class(P):
    live, idle, single = tables(P)
    out = set()
    for q in live:
        c = q.rsplit("::", 1)[0]
        while P.record_of(c) and c not in out:
            if any(f.body for f in P.methods_of(c) if not f.d.get("ctor") and base(f.n)[:1] != "~"):
                out.add(c)
                break
            c = c.rsplit("::", 1)[0]
    return out


def io_classes(P):
    """classes of the storage behind the table: they open, create and unlink by id"""
    return {f.scls for f in P.funcs.values() if base(f.n) == "unlink" and f.cls and len(f.d["p"]) == 1 and "PODArray<unsigned char" in f.d["p"][0]["t"]}


def locfield(loc):
    while isinstance(loc, tuple) and loc:
        if loc[0] == "m" and isinstance(loc[2], str):
            return loc[2]
        if loc[0] in ("el", "d", "addr", "in"):
            loc = loc[1]
            continue
        return None
    return None


def infield(t, fields):
    """the term is made from one of these fields"""
    return t is not None and any(x[0] == "m" and x[2] in fields for x in subterms(t) if len(x) > 2 and isinstance(x[2], str))


class Table(Rule):
    """events on the table's containers, the storage and the objects; file operations themselves stay opaque"""
    max_states = 400
    OPAQUE = ("flush", "construct", "find_shard")

    def __init__(s, P, outside=False):
        s.P = P
        s.outside = outside
        s.live, s.idle, s.single = tables(P)
        s.classes = table_class(P)
        s.io = io_classes(P)
        s.closers = {f.scls for f in P.funcs.values() if base(f.n) == "operator()" and f.cls and len(f.d["p"]) == 1 and bare(f.d["p"][0]["t"]) == OBJ
                     and not f.d.get("lambda")}

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in s.OPAQUE or b in LOGGY:
            return False
        if s.outside and f.scls in s.classes:
            return False
        return simple(f) or f.scls in s.classes or f.scls in s.closers or bool(f.d.get("lambda")) or b in ("make_guard",)

    def throws(s, eng, st, ev):
        if ev.base == "flush" and ev.kind == "call" and s.faults:
            return [("std::exception", ("std::exception",))]
        return Rule.throws(s, eng, st, ev)

    faults = True

    def on_call(s, eng, st, ev):
        if ev.kind == "call" and ev.base == "flush" and not s.faults:
            st.emit(("flush", ev.obj, None, None, ev.where))

    def on_ret(s, eng, st, ev, val):
        b = ev.base
        q = locfield(ev.obj) if ev.obj is not None else None
        if q in s.live and ev.obj[0] == "m":
            st.emit(("live", b, tuple(ev.args), val, ev.where))
            return
        if q in s.idle and ev.obj[0] == "m":
            st.emit(("idle" if b in GROW + SHRINK else "look", b, tuple(ev.args), val, ev.where))
            return
        if ev.kind != "call":
            return
        if s.outside and PR.strip_t((ev.name or "").rsplit("::", 1)[0]) in s.classes:
            st.emit(("table", b, tuple(ev.args) + tuple(ev.locs or ()), val, ev.where))
        elif b in ("find_if", "find_if_not", "find") and any(infield(a, s.idle) for a in ev.args):
            st.emit(("look", b, tuple(ev.args), val, ev.where))
        elif b == "flush" and s.faults:
            st.emit(("flush", ev.obj, None, None, ev.where))
        elif b in ("getref", "incref", "decref"):
            if b == "decref" and ev.obj is not None:
                for q in s.counters():
                    now = eng.load(st, ("m", ev.obj, q))
                    if now is not None:
                        val = now
            st.emit((b, ev.obj, val, None, ev.where))
        elif b == "get_nlink":
            st.emit(("nlink", ev.obj, val, None, ev.where))
        elif b in ("open", "create", "unlink") and s.is_io(ev):
            st.emit(("io", b, tuple(ev.args), val, ev.where))
        elif b in ("construct", "find_shard"):
            st.emit((b, b, tuple(ev.args), val, ev.where))

    def counters(s):
        """the field decref() lowers"""
        c = s.P.__dict__.get("_refcounter")
        if c is None:
            c = set()
            for f in s.P.methods_of(OBJ):
                if base(f.n) == "decref":
                    for n in f.nodes():
                        for k in ("a", "o"):
                            x = n.get(k)
                            if isinstance(x, dict) and x.get("k") == "mem" and n.get("k") in ("un", "asg", "call"):
                                c.add(x["f"])
            s.P._refcounter = c
        return c

    def is_io(s, ev):
        return PR.strip_t((ev.name or "").rsplit("::", 1)[0]) in s.io

    def on_assume(s, eng, st, t, v, node, fr):
        while t[0] == "not":
            t, v = t[1], not v
        if any(x[0] == "call" and x[1] in ("operator==", "operator!=") for x in subterms(t)):
            st.emit(("if", t, v, None, None))


GROW = ("emplace_back", "push_back", "insert", "emplace", "push_front", "emplace_front")
SHRINK = ("erase", "pop_back", "clear", "pop_front", "resize", "extract")


def differs(tr, it):
    """whether a search result was found to be (True) or not to be (False) the end; None: not asked"""
    for e in tr:
        if e[0] == "if" and it is not None and it in subterms(e[1]):
            t, v = e[1], e[2]
            if t[0] == "eq0":
                t, v = t[1], not v
            if t[0] == "call" and t[1] in ("operator==", "operator!="):
                return v == (t[1] == "operator!=")
    return None


def found(st, tr, e):
    """outcome of a lookup event"""
    b, val = e[1], e[3]
    if b in ("contains", "count"):
        return st.decide(val if b == "contains" else ("not", ("eq0", val)))
    return differs(tr, val)


def about(t, tok):
    return t is not None and tok is not None and tok in subterms(t)


def key_of(e):
    return e[2][0] if e[2] else None


def same(a, b):
    return a is not None and b is not None and (a == b or strip_key(a) == strip_key(b))


def strip_key(t):
    while isinstance(t, tuple) and t and t[0] in ("addr", "d"):
        t = t[1]
    return t


class Lost:
    """obligations on one path of a function of the table"""

    def __init__(s, P, r, st, tr, kind):
        s.P, s.r, s.st, s.tr, s.kind = P, r, st, tr, kind
        s.bad = []

    def say(s, kind, text, where):
        s.bad.append((kind, text, where))

    def lookups(s, key):
        return [e for e in s.tr if e[0] == "live" and e[1] in ("find", "contains", "count") and (key is None or same(key_of(e), key))]

    def leaving(s):
        """objects that leave the table of live ones"""
        tr, st = s.tr, s.st
        for i, e in enumerate(tr):
            if e[0] != "live" or e[1] not in ("erase", "extract", "clear"):
                continue
            a = key_of(e)
            tok = next((x[3] for x in tr[:i] if x[0] == "live" and x[1] == "find" and (x[3] == a or same(key_of(x), a))), None)
            if tok is None:
                s.say("leaves the table", "an object is removed from the table of live files without having been looked at", e[4])
                continue
            yield i, e, tok

    def check_leaving(s):
        tr, st = s.tr, s.st
        R = []
        for i, e, tok in s.leaving():
            refs = [x for x in tr[:i] if x[0] in ("getref", "decref") and about(x[1], tok)]
            if not any(st.rng(x[2])[1] <= 0 for x in refs):
                s.say("leaves the table unused", "an object is removed from the table of live files although it may have open handles", e[4])
            links = [x for x in tr if x[0] == "nlink" and about(x[1], tok)]
            gone = any(st.rng(x[2])[1] <= 0 for x in links)
            alive = any(st.rng(x[2])[0] >= 1 for x in links)
            wrote = any(x[0] == "flush" and about(x[1], tok) for x in tr)
            kept = any(x[0] == "idle" and x[1] in GROW and any(about(a, tok) for a in x[2]) for x in tr) or \
                any(x[0] == "live" and x[1] in GROW + ("try_emplace", "insert_or_assign") and any(about(a, tok) for a in x[2]) for x in tr[i:])
            if not gone and not wrote:
                s.say("saved before it is set aside", "an object is taken out of use without its changes having been written", e[4])
            ios = [x for x in tr if x[0] == "io" and x[1] == "unlink"]
            if gone and not ios and s.kind == "r":
                s.say("storage is freed", "a file without names and handles is dropped but its storage stays", e[4])
            if gone and kept:
                s.say("storage is freed", "a file without names is kept for reuse", e[4])

    def check_unlink(s):
        tr, st = s.tr, s.st
        for i, e in enumerate(tr):
            if e[0] == "io" and e[1] == "unlink":
                k = key_of(e)
                fs = [x for x in tr[:i] if x[0] == "live" and x[1] == "find" and same(key_of(x), k)]
                ok = ok2 = False
                for x in fs:
                    ok = ok or any(y[0] == "nlink" and about(y[1], x[3]) and st.rng(y[2])[1] <= 0 for y in tr[:i])
                    ok2 = ok2 or any(y[0] in ("getref", "decref") and about(y[1], x[3]) and st.rng(y[2])[1] <= 0 for y in tr[:i])
                if not ok:
                    s.say("deleted only without names", "the storage of a file is deleted although it may still have a name", e[4])
                if not ok2:
                    s.say("deleted only without handles", "the storage of a file is deleted although it may still be open", e[4])

    def check_set_aside(s):
        """what enters the idle list has been written"""
        for i, e in enumerate(s.tr):
            if e[0] == "idle" and e[1] in GROW:
                if not any(x[0] == "flush" and any(about(a, root_obj(x[1])) for a in e[2]) for x in s.tr[:i]):
                    s.say("saved before it is set aside", "an object is set aside for reuse without its changes having been written", e[4])

    def check_open(s):
        tr, st = s.tr, s.st
        for i, e in enumerate(tr):
            if e[0] == "io" and e[1] in ("open", "create"):
                k = key_of(e)
                if e[1] == "open" and not (k is not None and k[0] == "in" and False):
                    ls = s.lookups(k)
                    if not any(found(st, tr, x) is False for x in ls if tr.index(x) < i):
                        s.say("one object per file", "a file is opened again without having been missed in the table of live files", e[4])
                    looks = [x for x in tr[:i] if x[0] == "look"]
                    if not looks:
                        s.say("one object per file", "a file is opened again without having been looked for among the idle files", e[4])
                    for x in looks:
                        if x[1].startswith("find") and differs(tr, x[3]) is not False:
                            s.say("one object per file", "a file is opened again although it may be among the idle files", e[4])
                made = [x for x in tr[i:] if x[0] == "construct"]
                for x in made:
                    if not any(same(a, k) for a in x[2]):
                        s.say("one object per file", "the object is made for another id than the storage opened", x[4])
                if s.kind == "r":
                    puts = [x for x in tr[i:] if x[0] == "live" and x[1] in GROW + ("try_emplace", "insert_or_assign", "operator[]")]
                    if not any(same(key_of(x), k) for x in puts):
                        s.say("one object per file", "the object opened does not enter the table of live files under its id", e[4])
        for i, e in enumerate(tr):
            if e[0] == "look" and e[1].startswith("find") and differs(tr, e[3]):
                out = [x for x in tr[i:] if x[0] == "idle" and x[1] == "erase" and any(about(a, e[3]) for a in x[2])]
                put = [x for x in tr[i:] if x[0] == "live" and x[1] in GROW + ("try_emplace", "insert_or_assign", "operator[]")]
                if s.kind == "r" and (not out or not put):
                    s.say("one object per file", "an idle object is used again without %s" % ("leaving the idle list" if not out else "entering the table of live files"), e[4])

    def check_shard(s):
        for e in s.tr:
            if e[0] == "find_shard":
                keys = [key_of(x) for x in s.tr if x[0] == "live" and x[1] in ("find", "emplace", "try_emplace", "insert_or_assign", "contains", "count") and x[2]]
                if keys and not any(same(k, key_of(e)) for k in keys):
                    s.say("one object per file", "the file is looked for in the part of the table of another id", e[4])

    def check_holder(s, v):
        """a handle returned is counted and its object is in the table"""
        tr, st = s.tr, s.st
        inc = [e for e in tr if e[0] == "incref"]
        if len(inc) != 1:
            s.say("handles are counted", "a handle is given out with %d references taken" % len(inc), None)
            return
        o = root_obj(inc[0][1])
        if v is not None and not about(v, o):
            s.say("handles are counted", "the reference is taken on another object than the one given out", inc[0][4])
        hits = [e for e in tr if e[0] == "live" and e[1] in ("find",) and about(o, e[3]) and found(st, tr, e)]
        puts = [e for e in tr if e[0] == "live" and e[1] in GROW + ("try_emplace", "insert_or_assign", "operator[]") and any(about(a, o) or a == o for a in e[2][1:] or e[2])]
        if not hits and not puts and not infield(o, s.r.single):
            s.say("handles are counted", "a handle is given out for an object that is not in the table of live files", inc[0][4])


def root_obj(obj):
    """the pointer of an object location"""
    if obj is not None and obj[0] == "d":
        return obj[1]
    return obj


def search_compares_ids(P, R, r):
    """the search among idle objects selects the object of the id asked for"""
    from .locks import inner
    n = 0
    for f in sorted(P.funcs.values(), key=lambda x: x.key):
        if f.scls not in r.classes or not f.body:
            continue
        for x in f.nodes():
            if x.get("k") == "call" and base(x.get("n") or "") == "find_if":
                for a in x.get("a", ()):
                    for y in PR.walk(a):
                        if y.get("k") == "lambda" and y["f"] in P.funcs:
                            g = P.funcs[y["f"]]
                            outs, eng = R.engine(P, Sees(), g)
                            ok = True
                            for kind, st, v in outs:
                                if kind != "r":
                                    continue
                                t, pos = v, True
                                while t is not None and t[0] in ("not",):
                                    t, pos = t[1], not pos
                                eq = t is not None and (t[0] == "eq0" and any(z[0] == "call" and z[1] == "memcmp" for z in subterms(t)) or t[0] == "call" and t[1] == "operator==")
                                ids = {z[2] for z in subterms(v) if z[0] == "m" and isinstance(z[2], str) and z[2].startswith(OBJ)} if v is not None else set()
                                ok = ok and eq and pos and bool(ids)
                            n += 1
                            R.fn(g)
                            R.ob("idle search by id", f.sn, ok, g.where, "" if ok else "the search among idle files does not ask for equality with the id of the object")
    return n


class Sees(Rule):
    def inline(s, eng, f, ev):
        return simple(f)


@rule("D01")
def table_of_open_files(P, R):
    """Every path of every function of the file table: an object leaves the table of live files only when no handle is
    left; it is then either without names, in which case the storage is deleted, or written; storage is deleted only
    when both counts are zero; a file is opened from storage only after it was missed among live and idle objects and
    enters the table under its id; every handle given out is counted once and its object is in the table; the last
    handle closed reaches this code; the destructor writes all objects."""
    r0 = Table(P)
    live, idle, single = r0.live, r0.idle, r0.single
    R.need(len(live) == 1 and len(r0.classes) == 1 and r0.io, "the table of open files")
    kinds = {}

    def judge(f, kind, ok, where, text, path=None):
        key = (kind, f.sn)
        if key not in kinds or (kinds[key][0] and not ok):
            kinds[key] = (ok, where, text)
    fs = sorted((f for f in P.funcs.values() if f.scls in r0.classes and f.body and not f.d.get("lambda")), key=lambda x: (x.n, x.key))
    cls = next(iter(r0.classes))
    seen = set()
    for f in fs:
        if f.d.get("ctor"):
            continue
        b = base(f.n)
        if b.startswith("~") or (callers(P, f) and all(c.d.get("ctor") for c in callers(P, f))):
            continue
        r = Table(P)
        outs, eng = R.engine(P, r, f)
        R.fn(f)
        helper = callers(P, f) and all(c.scls == cls for c in callers(P, f))
        is_holder = any(c in (f.d.get("ret") or "") for c in r.closers)
        for kind, st, v in outs:
            tr = list(st.trace)
            p = Lost(P, r, st, tr, kind)
            p.check_leaving()
            p.check_unlink()
            p.check_set_aside()
            p.check_shard()
            p.check_open()
            if is_holder and not helper and kind == "r":
                p.check_holder(v)
            for k, text, where in p.bad:
                judge(f, k, False, where or f.where, text)
            acts = {(e[0], e[1]) for e in tr if e[0] in ("live", "idle", "io")}
            if any(x == ("io", "unlink") for x in acts):
                judge(f, "deleted only without names", True, f.where, "")
                judge(f, "deleted only without handles", True, f.where, "")
                seen.add("unlink")
            if any(x[0] == "live" and x[1] in ("erase", "extract") for x in acts):
                judge(f, "leaves the table unused", True, f.where, "")
                judge(f, "saved before it is set aside", True, f.where, "")
                judge(f, "storage is freed", True, f.where, "")
                seen.add("leave")
            if ("io", "open") in acts or ("io", "create") in acts:
                judge(f, "one object per file", True, f.where, "")
                seen.add("open")
            if is_holder and not helper:
                judge(f, "handles are counted", True, f.where, "")
                seen.add("holder")
    for (k, n), (ok, where, text) in sorted(kinds.items()):
        R.ob(k, n, ok, where, text)
    R.need({"leave", "open", "holder"} <= seen, "closing, opening and deleting of files")
    if any(base(x.get("n") or "") == "find_if" for f in fs for x in f.nodes() if x.get("k") == "call"):
        R.need(search_compares_ids(P, R, r0) >= 1, "predicate of the search among idle files")
    # the end of the table
    d = [f for f in fs if base(f.n).startswith("~")]
    R.need(len(d) == 1, "destructor of the table")
    for f in d:
        r = Table(P)
        r.faults = False
        outs, eng = R.engine(P, r, f)
        R.fn(f)

        def wrote(tr, fields):
            for i, e in enumerate(tr):
                if e[0] == "flush" and infield(e[1], fields):
                    return True
                if e[0] == "flush" and any(x[0] in ("live", "look") and x[1] in ("begin", "cbegin") and (x[0] == "live") == bool(fields & live) for x in tr[:i]) \
                        and any(z[0] == "havoc" for z in subterms(e[1])) and not infield(e[1], live | idle | single):
                    return True
            return False
        for name, fields, every in (("the root", single, True), ("live files", live, False), ("idle files", idle, False)):
            hits = [wrote(list(st.trace), fields) for kind, st, v in outs if kind == "r"]
            ok = bool(hits) and (all(hits) if every else any(hits))
            R.ob("written at unmount", name, ok, f.where, "" if ok else "the table is destroyed without writing %s" % name)
    # the last handle
    closing = set()
    for f in fs:
        if f.d.get("ctor") or len(f.d["p"]) != 1 or "PODArray<unsigned char" not in f.d["p"][0]["t"]:
            continue
        outs, eng = R.engine(P, Table(P), f)
        rs = [list(st.trace) for kind, st, v in outs if kind == "r"]
        if rs and all(any(e[0] == "live" and e[1] in ("find", "contains", "count") or e[0] == "flush" and infield(e[1], single) for e in tr) for tr in rs):
            closing.add(base(f.n))
    n = 0
    for c in sorted(r0.closers):
        for f in P.methods_of(c):
            if base(f.n) != "operator()" or not f.body:
                continue
            n += 1
            outs, eng = R.engine(P, Table(P, outside=True), f)
            R.fn(f)
            bad = []
            some = False
            for kind, st, v in outs:
                tr = list(st.trace)
                dec = [e for e in tr if e[0] == "decref"]
                if len(dec) > 1:
                    bad.append("several references are dropped for one handle")
                elif dec:
                    some = True
                    went = any(e[0] == "table" and e[1] in closing and any(about(a, root_obj(dec[0][1])) for a in e[2]) for e in tr)
                    if not went and kind == "r" and st.rng(dec[0][2])[0] <= 0 <= st.rng(dec[0][2])[1] and st.decide(("eq0", dec[0][2])) is not False:
                        bad.append("the last handle may be closed without the file being closed")
            if not some:
                bad.append("no reference is dropped")
            R.ob("last handle closes the file", c, not bad, f.where, bad[0] if bad else "")
    R.need(n == 1, "closer of handles")
    # one handle, one reference
    n = 0
    for f in sorted(P.methods_of(OBJ), key=lambda x: x.key):
        want = {"incref": 1, "decref": -1}.get(base(f.n))
        if want is None or not f.body:
            continue
        for q in sorted(r0.counters()):
            loc = ("m", ("obj", "this"), q)
            outs, eng = R.engine(P, Sees(), f)
            R.fn(f)
            ok = True
            for kind, st, v in outs:
                was = eng.load(State(), loc)
                ok = ok and sub(eng.load(st, loc), was) == I(want) and (v is None or sub(v, was) == I(want))
            n += 1
            R.ob("handles are counted", f.n, ok and bool(outs), f.where, "" if ok else "taking or dropping one handle does not change the count by one")
    R.need(n >= 2, "counting of handles")


class Handles(Rule):
    """what happens to the handle kept in fuse_file_info::fh"""
    max_states = 300

    def __init__(s, P):
        s.P = P
        s.via = P.reaching(lambda n: base(n.get("n") or "") == "release" and "unique_ptr" in (n.get("n") or "") or n.get("k") == "delete")
        s.cls = {f.scls for f in ops_roots(P)}
        s.closers = Table(P).closers

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and (simple(f) or f.scls in s.cls and f.key in s.via and bool(f.d.get("ret")) and "unique_ptr" not in f.d["ret"]
                                           or f.key in THROWERS_KEYS(s.P))

    def on_call(s, eng, st, ev):
        n = ev.name or ""
        if ev.kind == "call" and ev.base == "operator()" and PR.strip_t(n.rsplit("::", 1)[0]) in s.closers and len(ev.args) == 1 and s.fh(st, ev.args[0]):
            st.emit(("close", "delete", ev.where))
            return
        if ev.kind == "delete":
            if ev.args and s.fh(st, ev.args[0]):
                st.emit(("close", "delete", ev.where))
            return
        if "unique_ptr" not in n:
            return
        if ev.kind == "call" and ev.base == "release":
            st.emit(("release", eng.load(st, ev.obj) if ev.obj is not None else None, ev.where, ev.obj))
        elif ev.kind == "ctor" or ev.base == "reset":
            if ev.base == "reset" and s.owns(st, ev.obj):
                st.emit(("close", ev.obj, ev.where))
            if ev.args and s.fh(st, ev.args[0]):
                st.emit(("own", ev.obj, ev.where))
        elif ev.kind == "dtor":
            if s.owns(st, ev.obj):
                st.emit(("close", ev.obj, ev.where))

    def owns(s, st, obj):
        last = next((t for t in reversed(st.trace) if t[0] in ("own", "close") and t[1] == obj), None)
        return last is not None and last[0] == "own"

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "m" and str(loc[2]).endswith("fuse_file_info::fh"):
            st.emit(("give", val, "%s:%s" % (fr.func.where.split(":")[0], node.get("l", "?")) if isinstance(node, dict) else fr.func.where))


    def on_ret(s, eng, st, ev, val):
        if ev.kind == "call" and val is not None and val[0] in ("ret", "call") and ev.obj is not None and is_fh(ev.obj) and not is_fh(val):
            st.emit(("alias", val))

    def fh(s, st, t):
        return is_fh(t) or any(e[0] == "alias" and e[1] in subterms(t) for e in st.trace)


def THROWERS_KEYS(P):
    c = P.__dict__.get("_thrower_keys")
    if c is None:
        from .errors import THROWERS
        c = P._thrower_keys = {f.key for f in P.funcs.values() if base(f.n) in THROWERS}
    return c


def is_fh(t):
    return t is not None and any(x[0] == "m" and str(x[2]).endswith("fuse_file_info::fh") for x in subterms(t) if len(x) > 2)


def pointees(P, f):
    """types stored into and read from fh by reinterpret_cast in f"""
    put, got = set(), set()
    for n in f.nodes():
        if n.get("k") == "asg" and n["a"].get("k") == "mem" and str(n["a"]["f"]).endswith("fuse_file_info::fh"):
            e = n["b"]
            while isinstance(e, dict) and e.get("k") == "cast":
                e = e["a"]
            t = (e or {}).get("t") or ""
            if isinstance(e, dict) and e.get("k") == "call" and base(e.get("n") or "") in ("release", "get") and "unique_ptr<" in e["n"]:
                t = targs(e["n"].rsplit("::", 1)[0])[0] + "*"
            if t.endswith("*"):
                put.add((bare(t), n.get("l")))
        if n.get("k") == "cast" and (n.get("t") or "").endswith("*") and any(x.get("k") == "mem" and str(x["f"]).endswith("fuse_file_info::fh") for x in PR.walk(n)):
            got.add(bare(n["t"]))
    return put, got


def first_base_chain(P, c):
    out = []
    while c and c not in out:
        out.append(c)
        r = P.record_of(c)
        bs = (r or {}).get("bases") or ()
        c = None
        if bs:
            b = bs[0]
            c = PR.strip_t(b["n"] if isinstance(b, dict) else b)
            if isinstance(b, dict) and b.get("virt"):
                c = None
    return out


@rule("D02")
def handles_given_out(P, R):
    """Every path of every operation: a pointer is stored in the handle of FUSE exactly when it has been released by the
    owner that kept it, the operation then succeeds; opening and creating give out exactly one handle when they succeed;
    release and releasedir end ownership of the handle exactly once; no other operation ends it."""
    ops = [f for f in sorted(ops_roots(P), key=lambda x: x.n) if f.body and not delegates(P, f)]
    R.need(len(ops) > 40, "operations")
    gives = closes = 0
    got = {}
    for f in ops:
        if not any("fuse_file_info" in (p.get("t") or "") for p in f.d["p"]):
            continue
        r = Handles(P)
        outs, eng = R.engine(P, r, f)
        b = base(f.n)
        opener, closer = b in ("vopen", "vcreate", "vopendir"), b in ("vrelease", "vreleasedir")
        bad = []
        touched = False
        for kind, st, v in outs:
            tr = list(st.trace)
            rel = [t for t in tr if t[0] == "release"]
            giv = [t for t in tr if t[0] == "give"]
            own = [t for t in tr if t[0] == "own"]
            clo = [t for t in tr if t[0] == "close"]
            touched = touched or bool(rel or giv or own or clo)
            ok = kind == "r" and (v is None or st.rng(v)[1] >= 0)
            sure = kind == "r" and v is not None and st.rng(v)[0] >= 0
            if opener:
                for g in giv:
                    if not any(x[1] is not None and x[1] in subterms(g[1]) for x in rel):
                        bad.append("%s: a handle is given out that something else still owns, or nothing" % g[2])
                for x in rel:
                    if x[1] is not None and not any(x[1] in subterms(g[1]) for g in giv):
                        bad.append("%s: an object is given up by its owner but not handed out" % x[2])
                if giv and not ok:
                    bad.append("%s: fails after the handle was given out: it is never released" % giv[-1][2])
                if ok and len(giv) != 1:
                    bad.append("succeeds with %d handles given out" % len(giv))
            elif closer:
                owned = [x for x in clo if x[1] == "delete" or not any(y[3] == x[1] for y in rel)]
                if ok and len(owned) != 1:
                    bad.append("succeeds with the handle ended %d times" % len(owned))
                if not ok and owned:
                    bad.append("%s: fails although the handle is gone" % owned[0][2])
            elif clo or giv:
                bad.append("%s: %s outside of opening and releasing" % ((clo or giv)[0][2], "a handle is ended" if clo else "a handle is replaced"))
        if opener or closer or bad:
            gives += opener
            closes += closer
            R.fn(f)
            R.ob("handle", f.sn, not bad, f.where, bad[0] if bad else "")
    R.need(gives >= 6 and closes >= 4, "operations that open and release")
    # the type it is read back as
    by = {}
    for f in P.funcs.values():
        if not f.body:
            continue
        put, g = pointees(P, f)
        ns = "::".join(f.n.split("::")[:2])
        for x, l in put:
            by.setdefault(ns, [set(), set()])[0].add((x, "%s:%s" % (f.where.split(":")[0], l)))
        for x in g:
            by.setdefault(ns, [set(), set()])[1].add(x)
    n = 0
    for file in sorted(by):
        put, g = by[file]
        for t, where in sorted(put):
            for u in sorted(g):
                n += 1
                ok = u in first_base_chain(P, t)
                R.ob("handle type", "%s read as %s" % (t, u), ok, where, "" if ok else "the handle stored is not read back as a %s at the same address" % u)
    R.need(n >= 2, "types of handles")


def delegates(P, f):
    return any(base(n.get("n") or "") == base(f.n) for n in f.nodes() if n.get("k") == "call")
