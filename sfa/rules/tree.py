"""D06, D07: the directory tree of the full format - entries and link counts move together, refusals move nothing."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .locks import guard_like, ops_roots
from .errors import THROWERS
from .common import *

ENTRY = {"add_entry", "remove_entry"}
COUNT = {"unlink", "set_nlink", "initialize_empty"}
LOOKUP = {"get_entry"}
TYPED = {"open_as", "create_as"}


def file_class(P):
    """the class that keeps the number of links"""
    c = set()
    for f in P.funcs.values():
        if base(f.n) == "get_nlink" and f.cls:
            c.add(f.scls)
    return c


def family_of(P, classes):
    out = set(classes)
    for c in classes:
        out |= {PR.strip_t(x) for x in P.all_derived(c)}
    return out


def mutator_names(P, R):
    """functions from which an entry or a link count is changed"""
    fam = family_of(P, file_class(P))
    R.need(fam, "a class with link counts")
    prims = {f.key for f in P.funcs.values() if f.scls in fam and base(f.n) in ENTRY | COUNT}
    R.need({base(P.funcs[k].n) for k in prims} >= ENTRY | COUNT, "primitives of directory entries and link counts")
    return fam, prims, P.reaching(lambda n: n.get("f") in prims)


class Tree(Rule):
    """entries and link counts as ghost state"""
    max_states = 400
    loop_iters = 1

    def __init__(s, P, fam, prims, reach):
        s.P = P
        s.fam = fam
        s.prims = prims
        s.reach = reach
        s.src = {}

    def on_ret(s, eng, st, ev, val):
        if val is not None and val[0] == "ret":
            s.src.setdefault(val, set()).update(a for a in ev.args if a is not None)

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY:
            return False
        return bool(f.owner) or f.key in s.reach or f.key in THROWERS_KEYS(s.P) or simple(f, 25)

    # ---- ghost state
    @staticmethod
    def ident(p):
        if p is None:
            return ("idof", p)
        if p[0] == "fobj":
            return p[1]
        return ("idof", p)

    @staticmethod
    def pointer(obj):
        return obj[1] if obj is not None and obj[0] == "d" else ("addr", obj)

    @staticmethod
    def slot_state(st, slot):
        """what is known of the slot in this lock epoch: None, ("present", id, type), ("absent",)"""
        r = None
        for t in st.trace:
            if t[0] == "unlock":
                r = None
            elif t[0] in ("add", "got") and t[1] == slot:
                r = ("present", t[2], t[3])
            elif t[0] in ("rm", "none") and t[1] == slot:
                r = ("absent",)
        return r

    @staticmethod
    def fresh_id(st, slot):
        n = sum(1 for t in st.trace if t[0] in ("unlock", "rm", "add"))
        return ("id", slot, n), ("type", slot, n)

    def fam_call(s, ev):
        return PR.strip_t(ev.node.get("cls") or "") in s.fam or ev.name.rsplit("::", 1)[0] in s.fam or (
            ev.node.get("f") in s.P.funcs and s.P.funcs[ev.node["f"]].scls in s.fam)

    def on_call(s, eng, st, ev):
        b = ev.base
        c = s.compared(eng, st, ev) if ev.kind == "call" else None
        if c:
            if c[0] == c[1]:
                return [(st, c[2])]
            a = st.copy()
            a.emit(("same", c[0], c[1]))
            st.emit(("differ", c[0], c[1]))
            return [(a, c[2]), (st, c[3])]
        if ev.kind == "dtor":
            r = s.P.record_of(ev.name.rsplit("::", 1)[0])
            if r and guard_like(s.P, r):
                if any(t[0] != "unlock" for t in st.trace) and st.trace[-1][0] != "unlock":
                    st.emit(("unlock",))
                return [(st, I(0))]
            return None
        if ev.kind == "ctor":
            r = s.P.record_of(ev.name.rsplit("::", 1)[0])
            if r and guard_like(s.P, r):
                return [(st, ("ctor", "guard"))]
            return None
        if ev.node is None or ev.node.get("ext"):
            return None
        if b in ENTRY | LOOKUP and s.fam_call(ev) and len(ev.args) == 3:
            return s.entry(eng, st, ev, b)
        if b in COUNT | {"get_nlink", "get_id", "get_real_type", "cast_as", "iterate_over_entries", "empty"} and s.fam_call(ev):
            return s.file(eng, st, ev, b)
        if b == "open_as" and len(ev.args) == 2:
            st.emit(("open", ev.args[0], ev.args[1], ev.where))
            return [(st, ("fobj", ev.args[0]))]
        if b == "create_as" and len(ev.args) == 1:
            i = ("newid",) + st.fresh(ev.fr.func.key, ev.node.get("l", 0))
            st.emit(("new", i, ev.args[0], ev.where))
            return [(st, ("fobj", i))]
        return None

    def entry(s, eng, st, ev, b):
        slot = (s.pointer(ev.obj), ev.args[0])
        k = s.slot_state(st, slot)
        out = []
        if b == "add_entry":
            if k is None or k[0] == "absent":
                a = st.copy()
                a.emit(("add", slot, ev.args[1], ev.args[2], ev.where))
                out.append((a, TRUE))
            if k is None or k[0] == "present":
                st.emit(("got", slot, *(k[1:] if k else s.fresh_id(st, slot))))
                out.append((st, FALSE))
            return out
        if k is None or k[0] == "present":
            a = st.copy()
            i, t = k[1:] if k else s.fresh_id(st, slot)
            if ev.locs[1] is not None:
                eng.store(a, ev.locs[1], i)
            if ev.locs[2] is not None:
                eng.store(a, ev.locs[2], t)
            if b == "remove_entry":
                a.emit(("rm", slot, i, t, ev.where))
                out.append((a, TRUE))
            else:
                a.emit(("got", slot, i, t))
                v = ("entryname", slot[0], slot[1])
                a.assume(("eq0", v), False)
                out.append((a, v))
        if k is None or k[0] == "absent":
            st.emit(("none", slot))
            out.append((st, FALSE if b == "remove_entry" else NULL))
        return out

    def file(s, eng, st, ev, b):
        p = s.pointer(ev.obj)
        i = s.ident(p)
        if b == "get_id":
            return [(st, i)]
        if b == "get_real_type":
            return [(st, ("typeof", i))]
        if b == "cast_as":
            want = ("cast", p, ev.node.get("t", ""))
            if want not in st.trace and not s.is_a(eng, st, i, ev):
                st2 = st.copy()
                eng._exc.append((st2, ("securefs::InvalidCastException", ("securefs::InvalidCastException", "securefs::ExceptionBase",
                                                                         "std::exception"), ("cast", ev.where))))
                st.emit(want)
            return [(st, p)]
        d = sum(t[2] for t in st.trace if t[0] == "n" and t[1] == i)
        if b == "get_nlink":
            return [(st, add(("nlink", i), I(d)))]
        if b == "set_nlink":
            k = sub(ev.args[0], add(("nlink", i), I(d)))
            if k[0] != "int":
                st.emit(("n?", i, ev.where))
            else:
                st.emit(("n", i, k[1], ev.where))
            return [(st, I(0))]
        if b == "unlink":
            st.emit(("n", i, -1, ev.where))
            return [(st, I(0))]
        if b == "initialize_empty":
            st.emit(("n", i, 1, ev.where))
            st.emit(("init", i, ev.args[0], ev.where))
            return [(st, I(0))]
        if b == "iterate_over_entries":
            out = []
            for v in ev.args:
                if v[0] == "lam":
                    out += [(a, I(0)) for a, _ in eng.run_callback(st.copy(), ev, v)]
            st.emit(("isempty", i, True))
            return out + [(st, I(0))]
        if b == "empty":
            a = st.copy()
            a.emit(("isempty", i, True))
            st.emit(("isempty", i, False))
            return [(a, TRUE), (st, FALSE)]
        return None

    def is_a(s, eng, st, i, ev):
        """made, or opened, as the very type it is cast to"""
        k = class_type(s.P, PR.strip_t(ev.node.get("t", "").rstrip("* ")))
        return k is not None and any(t[0] in ("new", "open") and t[1] == i and t[2] == k for t in st.trace)

    def compared(s, eng, st, ev):
        """a comparison of two object ids: (a, b, what equality returns)"""
        def idval(v):
            if v is None:
                return None
            if v[0] == "addr":
                l = v[1]
                while l[0] in ("m", "el") and l[1][0] in ("m", "el", "v"):
                    l = l[1]
                if l[0] in ("m", "el"):
                    l = l[1]
                v = eng.load(st, l, "class")
            return v if v[0] in ("id", "newid", "idof") else None
        b = ev.base
        if b in ("operator==", "operator!=") and ev.args:
            xs = [eng.load(st, ev.obj, "class")] if ev.obj is not None else []
            xs += list(ev.args)
            eq = TRUE if b == "operator==" else FALSE
            ne = FALSE if b == "operator==" else TRUE
        elif b in ("memcmp", "equal") and len(ev.args) >= 2:
            xs = list(ev.args[:2]) if b == "memcmp" else [ev.args[0], ev.args[-1]]
            eq, ne = (I(0), I(1)) if b == "memcmp" else (TRUE, FALSE)
        else:
            return None
        ids = [idval(x) for x in xs[:2]]
        return (ids[0], ids[1], eq, ne) if len(ids) == 2 and None not in ids else None

def THROWERS_KEYS(P):
    c = P.__dict__.get("_throwerkeys")
    if c is None:
        c = P._throwerkeys = {f.key for f in P.funcs.values() if base(f.n) in THROWERS}
    return c


def balance(trace):
    """per object: entries gained, links gained; per slot: entries gained"""
    same = {}

    def find(x):
        while x in same:
            x = same[x]
        return x
    for t in trace:
        if t[0] == "same":
            a, b = find(t[1]), find(t[2])
            if a != b:
                same[a] = b
    e, n, sl = {}, {}, {}
    odd = []
    for t in trace:
        if t[0] in ("add", "rm"):
            k = 1 if t[0] == "add" else -1
            i = find(t[2])
            e[i] = e.get(i, 0) + k
            sl[(t[1], i)] = sl.get((t[1], i), 0) + k
        elif t[0] == "n":
            i = find(t[1])
            n[i] = n.get(i, 0) + t[2]
        elif t[0] == "n?":
            odd.append(t)
    return e, n, sl, odd, find


def runs(P, R):
    c = P.__dict__.get("_treeruns")
    if c is None:
        fam, prims, reach = mutator_names(P, R)
        c = []
        for f in ops_roots(P):
            if f.key not in reach:
                continue
            r = Tree(P, fam, prims, reach)
            outs, eng = R.engine(P, r, f)
            if any(changes(st.trace) for k, st, v in outs):
                c.append((f, outs, r.src))
        P._treeruns = (c, fam, prims)
    return P._treeruns


def changes(tr):
    return [t for t in tr if t[0] in ("add", "rm", "n", "n?")]


def show_id(i):
    return show(i)[:80]


def path_of(tr):
    return [(t[4] if t[0] in ("add", "rm") else t[3] if t[0] in ("n",) else t[2]) + " " + t[0] for t in changes(tr)]


@rule("D06")
def link_counts_follow_the_entries(P, R):
    """Every operation that changes directory entries or link counts is run symbolically; the directories are ghost
    state: what a name holds is only known until a lock is released.  On each successful path, every object must
    gain exactly as many links as entries (a new object starts with one), the entry must carry the type of its
    object.  The primitives that hold the count are checked for what they do to it."""
    rs, fam, prims = runs(P, R)
    R.need(len(rs) >= 6, "operations that change the tree")
    n = 0
    for f, outs, src in sorted(rs, key=lambda x: x[0].n):
        R.fn(f)
        bad = []
        done = 0
        for kind, st, v in outs:
            if kind == "t" or (v is not None and st.rng(v)[1] < 0):
                continue
            e, l, sl, odd, find = balance(st.trace)
            done += 1
            for t in odd:
                bad.append((t[2], "the link count is set to something other than a change of the old one"))
            for i in set(e) | set(l):
                if e.get(i, 0) != l.get(i, 0):
                    w = [t for t in changes(st.trace) if find(t[2] if t[0] in ("add", "rm") else t[1]) == i]
                    bad.append((path_of(w)[-1].split()[0], "an object gains %d entries but %d links: %s" % (
                        e.get(i, 0), l.get(i, 0), "; ".join(path_of(st.trace)))))
            ty = types(st.trace, find)
            for t in st.trace:
                if t[0] == "add":
                    want = ty.get(find(t[2]))
                    have = t[3]
                    if have != ("typeof", t[2]) and (want is None or have not in want):
                        bad.append((t[4], "the entry does not carry the type of its object (%s)" % show(have)))
                if t[0] == "init":
                    want = ty.get(t[1])
                    if want and not any(mode_has(st, t[2], x) for x in want):
                        bad.append((t[3], "the mode of the new object does not carry its type"))
            for w, what in named(f, st, find, src):
                bad.append((w, what))
        R.ob("links follow entries", f.sn, not bad, bad[0][0] if bad else f.where,
             bad[0][1] if bad else "%d successful path classes" % done)
        n += done
    R.need(n >= 12, "successful paths of operations that change the tree")
    primitives(P, R, fam)


# the request's parameter each directory entry of an operation comes from (fixed by the FUSE interface)
NAMES = {"vcreate": (0,), "vmkdir": (0,), "vmknod": (0,), "vunlink": (0,), "vrmdir": (0,), "vsymlink": (1,), "vlink": (1,),
         "vrename": (0, 1)}


def named(f, st, find, src):
    """the entries changed are those the request names, and what they hold is what it names"""
    ok = NAMES.get(base(f.n))
    if ok is None:
        return
    ps = {i: eng_param(f, i) for i in range(len(f.d["p"]))}

    def origin(t):
        seen, todo = set(), [t]
        while todo:
            for x in subterms(todo.pop()):
                if x not in seen:
                    seen.add(x)
                    todo += list(src.get(x, ()))
        return {i for i, p in ps.items() if p in seen}
    net = {}
    for t in st.trace:
        if t[0] in ("add", "rm"):
            d, nm = origin(t[1][0]), origin(t[1][1])
            if d != nm or len(d) != 1 or not d <= set(ok):
                yield t[4], "the entry changed is not one the request names (directory from parameter %s, name from %s)" % (
                    sorted(d), sorted(nm))
                continue
            k = (min(d), find(t[2]))
            net[k] = net.get(k, 0) + (1 if t[0] == "add" else -1)
            net.setdefault(("w",) + k, t[4])
    b = base(f.n)
    done = {k: n for k, n in net.items() if k[0] != "w" and n}
    if b == "vrename":
        if not any(k[0] == 1 and n > 0 for k, n in done.items()) and not any(t[0] == "same" for t in st.trace):
            yield f.where, "the operation succeeds without having renamed anything"
    elif not done:
        yield f.where, "the operation succeeds without having done anything"
    if b == "vlink":
        for k, n in net.items():
            if k[0] != "w" and n > 0 and origin(k[1]) != {0}:
                yield net[("w",) + k], "the new name does not denote the object that was to be linked"
    if b == "vrename":
        for k, n in list(net.items()):
            if k[0] == 1 and n > 0 and net.get((0, k[1]), 0) >= 0:
                yield net[("w",) + k], "the new name does not denote what the old name denoted"
            if k[0] == 0 and n < 0 and net.get((1, k[1]), 0) <= 0:
                yield net[("w",) + k], "what the old name denoted is not reachable under the new name"


def directory_type(P, fam):
    for c in sorted(fam):
        if any(base(f.n) == "add_entry" and f.scls == c for f in P.funcs.values()):
            return class_type(P, c)


def unchecked(st, dirt, isdir):
    """directories that lose their name without having been found empty.  What a name denotes is the same in all
    lock scopes of one operation here: the kernel keeps other operations off the two directories and the victim."""
    empty, absent, same = set(), set(), set()
    tys = {}
    for t in st.trace:
        if t[0] == "isempty" and t[2] and t[1][0] == "id":
            empty.add(t[1][1])
        elif t[0] == "none":
            absent.add(t[1])
        elif t[0] == "same":
            same |= {x[1] for x in t[1:] if x[0] == "id"}
        elif t[0] in ("got", "rm"):
            tys.setdefault(t[1], set()).add(t[3])
    net = {}
    for t in st.trace:
        if t[0] in ("add", "rm"):
            net[t[2]] = net.get(t[2], 0) + (1 if t[0] == "add" else -1)
    for t in st.trace:
        if t[0] != "rm" or net[t[2]] >= 0 or t[1] in empty | absent | same:
            continue
        if not isdir and any(x == dirt or st.decide(("eq0", sub(x, dirt))) is False for x in tys[t[1]]):
            if not any(x == dirt for x in tys[t[1]]):
                continue
        yield t[4], "an entry goes whose object may be a directory that was not found empty"


def types(tr, find):
    """what type each object is known to have"""
    ty = {}
    for t in tr:
        if t[0] == "new":
            ty.setdefault(find(t[1]), set()).add(t[2])
        elif t[0] in ("got", "rm"):
            ty.setdefault(find(t[2]), set()).add(t[3])
    return ty


def mode_has(st, mode, ty):
    """the file type bits of the mode are this type"""
    if ty[0] == "int":
        want = ty[1] << 12
        if mode[0] == "int":
            return mode[1] & 0o170000 == want
        for x in subterms(mode):
            if x == I(want):
                return True
        return False
    return True


def class_type(P, cls):
    for f in P.funcs.values():
        if base(f.n) == "class_type" and f.scls == cls and f.body:
            e = Engine(P, Count())
            for k, st, v in e.run(f):
                if v is not None and v[0] == "int":
                    return v
    return None


class Count(Rule):
    def inline(s, eng, f, ev):
        return simple(f, 40)


def flag_of(loc):
    return loc


def primitives(P, R, fam):
    """unlink, set_nlink, initialize_empty, get_nlink and is_unlinked speak of one counter"""
    fs = {}
    for f in P.funcs.values():
        if f.scls in fam and base(f.n) in COUNT | {"get_nlink", "is_unlinked"} and f.body:
            fs.setdefault(base(f.n), []).append(f)
    for b in sorted(COUNT | {"get_nlink", "is_unlinked"}):
        R.need(fs.get(b), "FileBase::" + b)
    g = fs["get_nlink"][0]
    outs, eng = R.engine(P, Count(), g)
    cnt = outs[0][2]
    R.need(cnt is not None and cnt[0] == "in", "the counter of links")
    loc = cnt[1]
    for f in fs["unlink"]:
        outs, eng = R.engine(P, Count(), f)
        bad = [v for k, st, v in outs if k != "r" or eng.load(st, loc) != sub(("in", loc, 0), I(1))]
        R.ob("counter", f.sn, outs and not bad, f.where, "one link less")
    for f in fs["set_nlink"]:
        outs, eng = R.engine(P, Count(), f)
        p = eng_param(f, 0)
        bad = []
        for k, st, v in outs:
            x = eng.load(st, loc)
            if x != p and not (x == ("in", loc, 0) and st.rng(sub(p, x)) == (0, 0)):
                bad.append(x)
        R.ob("counter", f.sn, outs and not bad, f.where, "the count is what was asked for")
    for f in fs["initialize_empty"]:
        outs, eng = R.engine(P, Count(), f)
        bad = [v for k, st, v in outs if k == "r" and eng.load(st, loc) != I(1)]
        R.ob("counter", f.sn, outs and not bad, f.where, "a new object has one link")
    for f in fs["is_unlinked"]:
        outs, eng = R.engine(P, Count(), f)
        bad = []
        for k, st, v in outs:
            for x, want in ((0, True), (1, False), (2, False)):
                s2 = st.copy()
                s2.assume(("eq0", sub(("in", loc, 0), I(x))), True)
                if s2.decide(v) is not want and not (v[0] == "int" and bool(v[1]) is want):
                    bad.append(x)
        R.ob("counter", f.sn, outs and not bad, f.where, "unlinked means no links" if not bad else "is_unlinked() is wrong for %s links" % bad)


def eng_param(f, i):
    p = f.d["p"][i]
    return ("in", ("v", 0, p["id"], p["n"]), 0)


@rule("D07")
def a_refused_operation_changes_nothing(P, R):
    """The runs of D06, on the paths where an operation is refused: it returns an error, or throws one itself (a
    throw of its own, a cast of an object to the wrong type).  Nothing it did to the tree may remain: every name
    holds what it held and every object has the links it had."""
    rs, fam, prims = runs(P, R)
    R.need(len(rs) >= 6, "operations that change the tree")
    n = 0
    dirt = directory_type(P, fam)
    R.need(dirt is not None, "the type number of directories")
    for f, outs, src in sorted(rs, key=lambda x: x[0].n):
        if base(f.n) not in ("vrmdir", "vrename"):
            continue
        bad = []
        for kind, st, v in outs:
            if kind == "t" or st.rng(v)[1] < 0:
                continue
            for w, what in unchecked(st, dirt, base(f.n) == "vrmdir"):
                bad.append((w, what))
        R.ob("only empty directories go", f.sn, not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "")
    for f, outs, src in sorted(rs, key=lambda x: x[0].n):
        R.fn(f)
        bad = []
        done = 0
        for kind, st, v in outs:
            if kind != "t" and not (v is not None and st.rng(v)[1] < 0):
                continue
            e, l, sl, odd, find = balance(st.trace)
            done += 1
            cast = kind == "t" and v and len(v) > 2 and v[2] and v[2][0] == "cast"
            # an object nobody can see yet is not part of the tree; it is only lost storage
            left = [i for i in l if l[i] and not (cast and i[0] == "newid")] + [s for s in sl if sl[s]]
            if left or odd:
                w = path_of(st.trace)
                what = v[0] if kind == "t" and v else "error %s" % show(v)
                bad.append((w[-1].split()[0], "refused (%s) after a change that stays: %s" % (what, "; ".join(w))))
        R.ob("refusal changes nothing", f.sn, not bad, bad[0][0] if bad else f.where,
             bad[0][1] if bad else "%d refusing path classes" % done)
        n += done
    R.need(n >= 10, "refusals")
    lite_removals(P, R)


REMOVERS = {"remove_file", "remove_file_nothrow", "remove_directory", "remove_directory_nothrow", "rename"}


def lite_removals(P, R):
    """An operation of the lite format that removes more than one file of the underlying file system: the last removal
    may be refused, and the earlier ones cannot be undone.  Before the first, the directory the last one removes must
    have been read to its end, and every name seen there compared equal to one the operation knows."""
    n = 0
    service = {PR.strip_t(g.cls) for g in P.funcs.values() if base(g.n) in ("remove_directory", "create_traverser") and g.cls}
    for f in sorted(ops_roots(P), key=lambda x: x.n):
        if not f.body or "lite_format" not in f.n or not base(f.n).startswith("v"):
            continue
        reach = P.reach([f])
        if len({base(P.funcs[k].n) for k in reach if k in P.funcs} & REMOVERS) < 1:
            continue
        outs, eng = events(P, R, f, REMOVERS | {"create_traverser", "next"}, avoid=lambda g: g.cls and PR.strip_t(g.cls) in service,
                           ifs=lambda t: t[0] in ("call", "eq0", "not") and any(x[0] == "call" and str(x[1]).startswith(("operator", "compare", "contains", "count", "find")) for x in subterms(t)))
        bad = []
        many = 0
        for kind, st, v in outs:
            tr = [t for t in st.trace]
            idx = [i for i, t in enumerate(tr) if t[0] == "c" and t[1] in REMOVERS]
            if len(idx) < 2:
                continue
            many += 1
            first, last = tr[idx[0]], tr[idx[-1]]
            dirs = [i for i, t in enumerate(tr[:idx[0]]) if t[0] == "c" and t[1] == "create_traverser" and t[2] and t[2][0] == last[2][0]]
            if not dirs:
                bad.append((first[4], "%s at %s may be refused after %s at %s has removed something, and what it removes was not looked at"
                            % (last[1], last[4], first[1], first[4])))
                continue
            nx = [(i, t) for i, t in enumerate(tr[:idx[0]]) if i > dirs[-1] and t[0] == "c" and t[1] == "next"]
            if not nx or st.decide(nx[-1][1][3]) is not False:
                bad.append((first[4], "%s at %s happens before all names in the directory were seen" % (first[1], first[4])))
                continue
            for j, (i, t) in enumerate(nx[:-1]):
                seg = tr[i + 1:nx[j + 1][0]]
                if not any(x[0] == "if" and known_name(x[1], x[2]) for x in seg):
                    bad.append((first[4], "%s at %s happens although an unknown name was seen at %s" % (first[1], first[4], t[4])))
        if many:
            n += 1
            R.fn(f)
            R.ob("refusal changes nothing", f.sn + " (lite)", not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "%d paths with several removals" % many)
    R.need(n >= 1, "operations of the lite format that remove several files")


def known_name(t, v):
    if t[0] == "not":
        return known_name(t[1], not v)
    if t[0] == "eq0":
        if t[1][0] == "lin":
            return v and any(x[0] == "call" and "compare" in str(x[1]) for x in subterms(t))
        return known_name(t[1], not v)
    if t[0] == "call":
        if t[1] == "operator==":
            return v
        if t[1] == "operator!=":
            return not v
        return v
    return False
