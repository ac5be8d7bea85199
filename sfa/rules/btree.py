"""D08: the tree of a directory keeps every entry it was given"""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY
from .records import walk, root, shorts, param
from .common import base


# ---------------------------------------------------------------- sequences

def size_of(S):
    t = ("call", "size", S)
    s_unsigned.add(t)
    return t


def plen(p):
    return I(1) if p[0] == "one" else sub(p[3], p[2])


def length(cat):
    n = I(0)
    for p in cat[1]:
        n = add(n, plen(p))
    return n


def atom(S):
    """the sequence a place holds at the start"""
    return ("cat", (("seg", S, I(0), size_of(S)),))


def blen(b):
    return length(b) if b[0] == "cat" else size_of(b)


def norm(cat):
    """adjacent stretches of one sequence joined, complete ones replaced by what they are made of"""
    ps = list(cat[1])
    while True:
        out, hit = [], False
        for p in ps:
            if p[0] == "one" and p[1][0] == "item":
                p = ("seg", p[1][1], p[1][2], add(p[1][2], I(1)))
            if p[0] == "seg":
                if p[2] == p[3]:
                    hit = True
                    continue
                if out and out[-1][0] == "seg" and out[-1][1] == p[1] and out[-1][3] == p[2]:
                    out[-1] = ("seg", p[1], out[-1][2], p[3])
                    hit = True
                    continue
            out.append(p)
        ps = []
        for p in out:
            if p[0] == "seg" and p[1][0] == "cat" and p[2] == I(0) and p[3] == length(p[1]):
                ps += list(p[1][1])
                hit = True
            else:
                ps.append(p)
        if not hit:
            return ("cat", tuple(ps))


def cut(st, cat, lo, hi):
    """a stretch of a sequence"""
    if sub(hi, lo) == I(0):
        return ("cat", ())
    cat = norm(cat)
    if len(cat[1]) == 1 and cat[1][0][0] == "seg":
        _, b, f, t = cat[1][0]
        return norm(("cat", (("seg", b, add(f, lo), add(f, hi)),)))

    def side(b):
        """(piece number, offset within it) of a boundary"""
        cum = I(0)
        for i, p in enumerate(cat[1]):
            d = sub(b, cum)
            if d == I(0):
                return i, I(0)
            n = plen(p)
            if d[0] == "int" and d[1] > 0 and p[0] == "one":
                cum = add(cum, n)
                continue
            if p[0] == "seg" and st.decide(("ge0", d)) is True and st.decide(("ge0", sub(n, d))) is True:
                return (i + 1, I(0)) if sub(n, d) == I(0) else (i, d)
            if p[0] == "seg" and sub(n, d) == I(0):
                return i + 1, I(0)
            cum = add(cum, n)
        return (len(cat[1]), I(0)) if sub(b, cum) == I(0) else None
    a, b = side(lo), side(hi)
    if a is None or b is None:
        return ("cat", (("seg", cat, lo, hi),))
    out = []
    for i, p in enumerate(cat[1]):
        if i < a[0] or i > b[0] or i == b[0] and b[1] == I(0):
            continue
        if p[0] == "one":
            out.append(p)
            continue
        f = add(p[2], a[1]) if i == a[0] else p[2]
        t = add(p[2], b[1]) if i == b[0] else p[3]
        out.append(("seg", p[1], f, t))
    return norm(("cat", tuple(out)))


def at(st, cat, i):
    """one element"""
    c = cut(st, cat, i, add(i, I(1)))
    if len(c[1]) == 1:
        p = c[1][0]
        if p[0] == "one":
            return p[1]
        return ("item", p[1], p[2])
    return ("item", cat, i)


def join(*cats):
    return norm(("cat", tuple(p for c in cats for p in c[1])))


def one(v):
    return norm(("cat", (("one", v),)))


def find_in(st, cat, v):
    """where a value known to be one of a sequence's elements is"""
    cum = I(0)
    for p in norm(cat)[1]:
        if p[0] == "one":
            if p[1] == v:
                return cum
        elif v[0] == "item" and v[1] == p[1]:
            d = sub(v[2], p[2])
            if st.decide(("ge0", d)) is not False and st.decide(("ge0", sub(sub(p[3], I(1)), v[2]))) is not False:
                return add(cum, d)
        cum = add(cum, plen(p))
    return None


# ---------------------------------------------------------------- vectors

PLAIN = ("securefs::PODArray",)
VEC = ("std::vector", "absl::InlinedVector", "std::deque")
ITER = ("__normal_iterator", "move_iterator", "_Deque_iterator")


def unwrap(v):
    """an iterator without its adapters"""
    while isinstance(v, tuple) and v and v[0] == "ctor" and len(v) == 3 and any(i in str(v[1]) for i in ITER):
        v = v[2]
    return v


class Seq(Rule):
    """vectors and their iterators as sequences of stretches of what they held at the start"""
    max_depth = 14
    max_states = 4000
    loop_iters = 2

    def __init__(s, P, T):
        s.P, s.T = P, T

    # ---- roles
    def get(s, eng, st, loc):
        v = eng.load(st, loc, "class")
        if v[0] == "rec":
            v = v[1]
        if v[0] == "cat":
            return v
        if v[0] in ("new", "ctor") and "vector" in str(v[1]):
            return ("cat", ())
        return atom(v)

    def put(s, eng, st, loc, cat, node=None, fr=None):
        if loc[0] == "m":
            st.emit(("put", loc))
        eng.store(st, loc, norm(cat), node, fr)

    def slot(s, eng, st, loc, i):
        l = ("d", ("slot", loc, i))
        st.env[l] = at(st, s.get(eng, st, loc), i)
        return l

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "d" and loc[1][0] == "slot":
            _, c, i = loc[1]
            cat = s.get(eng, st, c)
            s.put(eng, st, c, join(cut(st, cat, I(0), i), one(val), cut(st, cat, add(i, I(1)), length(cat))))
            st.env[loc] = val

    def inline(s, eng, f, ev):
        if ev.vt or f.key in s.T.cuts:
            return False
        return bool(f.d.get("lambda")) or base(f.n) in THROWERS or f.where.split(":")[0] in s.T.files

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, bool(v)))

    # ---- calls
    def on_call(s, eng, st, ev):
        b, a = ev.base, [unwrap(x) for x in ev.args]
        cls = PR.strip_t((ev.node or {}).get("mc") or "")
        if ev.base in LOGGY:
            return [(st, I(0))]
        if ev.kind == "ctor":
            n = (ev.node or {}).get("cls") or ""
            if n.startswith(VEC):
                if not a:
                    return [(st, ("cat", ()))]
                if len(a) >= 2 and a[0][:1] == ("iter",) and a[1][:1] == ("iter",):
                    return [(st, cut(st, s.get(eng, st, a[0][1]), a[0][2], a[1][2]))]
                if len(a) == 1 and ev.locs[0] is not None:
                    return [(st, s.get(eng, st, ev.locs[0]))]
            if any(i in n for i in ITER) and len(a) == 1:
                v = a[0]
                if v[:1] != ("iter",) and ev.locs[0] is not None:
                    v = unwrap(eng.load(st, ev.locs[0], "class"))
                return [(st, v)]
            if n.startswith(("std::pair", "std::tuple")) and len(a) >= 2:
                return [(st, ("call", "make_pair") + tuple(a))]
            if PR.strip_t(n) == s.T.entry and len(a) == 1 and (ev.node["f"] or "").find(base(s.T.entry)) >= 0:
                return [(st, ev.args[0])]
            return s.special(eng, st, ev)
        r = s.special(eng, st, ev)
        if r is not None:
            return r
        if b == "tie":
            return [(st, ("tie",) + tuple(ev.locs))]
        if b == "operator=" and ev.obj is not None and len(a) == 1:
            cur = eng.load(st, ev.obj, "class")
            if cur[:1] == ("tie",) and a[0][:2] in (("call", "make_pair"), ("call", "make_tuple")):
                for l, v in zip(cur[1:], a[0][2:]):
                    if l is not None:
                        eng.store(st, l, v, ev.node, ev.fr)
                return [(st, I(0))]
            if PR.strip_t((ev.node.get("mc") or "")) == s.T.entry:
                eng.store(st, ev.obj, ev.args[0], ev.node, ev.fr)
                return [(st, None, ev.obj)]
        if ev.obj is not None and cls.startswith(VEC):
            return s.vector(eng, st, ev, b, a)
        if ev.obj is not None and "basic_string" in cls and "view" not in cls and b in ("assign", "operator="):
            v = ev.args[0] if len(a) == 1 else None
            if len(a) == 2 and a[0][0] == "addr" and a[0][1][0] == "el" and a[1] == size_of(eng.load(st, a[0][1][1], "class")):
                v = eng.load(st, a[0][1][1], "class")
            if v is not None:
                eng.store(st, ev.obj, v, ev.node, ev.fr)
                return [(st, None, ev.obj)]
        if ev.ext:
            return s.iterators(eng, st, ev, b, a)
        return None

    def special(s, eng, st, ev):
        return None

    def sorter(s, eng, st, ev):
        return None

    # ---- loops that append every element of one sequence to another
    def on_head(s, eng, st, node, fr, was):
        for l, v in list(st.env.items()):
            o = was.get(l)
            if l[0] == "v" and v[:1] == ("havoc",) and isinstance(o, tuple) and o[:1] == ("iter",) and v != o:
                i = ("it",) + st.fresh(fr.func.key, node.get("l", 0), "at")
                s_unsigned.add(i)
                st.env[l] = ("iter", o[1], i)

    def summarise(s, eng, st, node, fr, eff, place=None):
        c = None
        if place is not None:
            if not (node["r"].get("t") or "").replace("const ", "").startswith(VEC):
                return None
            c = s.get(eng, st, place)
            if c[0] != "cat":
                return None
        body, inc, cond = node.get("b"), node.get("inc"), node.get("c")
        var = None
        if place is None:
            if not isinstance(inc, dict) or not isinstance(cond, dict):
                return None
            ids_ = {x["id"] for x in PR.walk(inc) if x.get("k") == "var"}
            if len(ids_) != 1:
                return None
            l = [l for l in st.env if l[0] == "v" and l[1] == fr.depth and l[2] in ids_]
            if len(l) != 1 or not (st.env[l[0]] == I(0) or st.env[l[0]][:1] == ("iter",) and st.env[l[0]][2] == I(0)):
                return None
            var = l[0]

        def bound(v, i):
            return ("iter", v[1], i) if v[:1] == ("iter",) else i

        def once(st1, i):
            """the state after the iteration for one index"""
            q = st1.copy()
            saved, eng._exc = eng._exc, []
            try:
                if place is not None:
                    v = node["v"]
                    loc = ("v", fr.depth, v["id"], v["n"])
                    if v.get("bind"):
                        return None
                    el = s.slot(eng, q, place, i)
                    q.refs.pop(loc, None)
                    if v.get("ref"):
                        q.refs[loc] = el
                    else:
                        eng.store(q, loc, eng.load(q, el, v["t"]))
                else:
                    q.env[var] = bound(q.env[var], i)
                    r = eng.cond(cond, q, fr)
                    r = [x for x, b in r if b]
                    if len(r) != 1:
                        return None
                    q = r[0]
                out = eng.exec(body, q, fr)
                if len(out) != 1 or out[0][0] not in ("n", "c") or eng._exc:
                    return None
                q = out[0][1]
                if inc is not None:
                    r = eng.ev(inc, q, fr)
                    if len(r) != 1 or r[0][0].env.get(var) != bound(st1.env[var], add(i, I(1))):
                        return None
                    q = r[0][0]
                return q
            finally:
                eng._exc = saved

        def index(st1):
            i = ("it",) + st1.fresh(fr.func.key, node.get("l", 0), "all")
            s_unsigned.add(i)
            if c is not None:
                st1.assume(("ge0", sub(sub(length(c), I(1)), i)), True)
            return i
        if not any(x.get("k") == "call" and base(x.get("n") or "") in ("push_back", "emplace_back", "insert", "emplace") for x in PR.walk(body)):
            return None
        a = st.copy()
        i = index(a)
        b = once(a, i)
        if b is None:
            return None
        mine = {var}
        if place is not None:
            mine.add(("v", fr.depth, node["v"]["id"], node["v"]["n"]))
        diff = {l: v for l, v in b.env.items() if a.env.get(l) != v and l not in mine and l[0] != "t" and not (l[0] == "d" and l[1][0] == "slot")}
        grown = [l for l, v in diff.items() if v[:1] == ("cat",)]
        if len(grown) != 1 or any(v[:1] != ("int",) for l, v in diff.items() if l != grown[0]):
            return None
        if any(e[0] not in ("put", "if", "look") or e[0] == "put" and e[1] != grown[0] for e in b.trace[len(a.trace):]):
            return None
        X = grown[0]
        base_ = s.get(eng, st, X)
        new = [p for p in b.env[X][1] if any(x == i for x in walk(p))]
        if len(new) != 1:
            return None
        if c is None:
            it = [x for x in walk(new[0]) if x[:1] == ("item",) and x[2] == i]
            if new[0][0] == "seg":
                src = new[0][1]
            elif it:
                src = it[0][1]
            else:
                return None
            c = atom(src) if src[0] != "cat" else src
        # the same step from whatever was appended before
        a = st.copy()
        for l, v in diff.items():
            if l != X:
                a.env[l] = v
        h = ("so far",) + a.fresh(fr.func.key, node.get("l", 0))
        a.env[X] = atom(h)
        i = index(a)
        if place is None:
            # the loop goes on exactly while there are elements
            for d, want in ((length(c), False), (sub(length(c), I(1)), True)):
                q = a.copy()
                q.assume(("ge0", sub(length(c), I(1))), want) if want else None
                q.env[var] = bound(q.env[var], d)
                r = eng.cond(cond, q, fr)
                if not r or any(bool(bb) is not want for _, bb in r):
                    return None
        b2 = once(a, i)
        if b2 is None or b2.env.get(X) is None or b2.env[X][:1] != ("cat",):
            return None
        if norm(b2.env[X]) != join(atom(h), cut(a, c, i, add(i, I(1)))):
            return None
        out = st.copy()
        for l, v in diff.items():
            if l != X:
                out.env[l] = v
        s.put(eng, out, X, join(base_, c), node, fr)
        return [("n", out, None)]

    def vector(s, eng, st, ev, b, a):
        L = ev.obj
        c = s.get(eng, st, L)
        n = length(c)
        if b in ("begin", "cbegin"):
            return [(st, ("iter", L, I(0)))]
        if b in ("end", "cend"):
            return [(st, ("iter", L, n))]
        if b == "size":
            return [(st, n)]
        if b == "empty":
            return [(st, TRUE if n == I(0) else ("eq0", n))]
        if b in ("at", "operator[]", "front", "back"):
            i = a[0] if a else I(0) if b == "front" else sub(n, I(1))
            st.assume(("ge0", i), True)
            st.assume(("ge0", sub(sub(n, I(1)), i)), True)
        if b in ("at", "operator[]"):
            return [(st, None, s.slot(eng, st, L, a[0]))]
        if b == "front":
            return [(st, None, s.slot(eng, st, L, I(0)))]
        if b == "back":
            return [(st, None, s.slot(eng, st, L, sub(n, I(1))))]
        if b in ("reserve", "shrink_to_fit"):
            return [(st, I(0))]
        if b == "clear":
            s.put(eng, st, L, ("cat", ()), ev.node, ev.fr)
            return [(st, I(0))]
        if b == "pop_back":
            s.put(eng, st, L, cut(st, c, I(0), sub(n, I(1))), ev.node, ev.fr)
            return [(st, I(0))]
        if b in ("push_back", "emplace_back") and len(a) == 1:
            s.put(eng, st, L, join(c, one(s.entry(ev.args[0]))), ev.node, ev.fr)
            return [(st, I(0))]
        if b in ("insert", "emplace") and len(a) == 2 and a[0][:1] == ("iter",):
            i = a[0][2]
            s.put(eng, st, L, join(cut(st, c, I(0), i), one(s.entry(ev.args[1])), cut(st, c, i, n)), ev.node, ev.fr)
            return [(st, ("iter", L, i))]
        if b == "insert" and len(a) == 3 and all(x[:1] == ("iter",) for x in a):
            i = a[0][2]
            mid = cut(st, s.get(eng, st, a[1][1]), a[1][2], a[2][2])
            s.put(eng, st, L, join(cut(st, c, I(0), i), mid, cut(st, c, i, n)), ev.node, ev.fr)
            return [(st, ("iter", L, i))]
        if b == "assign" and len(a) == 2 and a[0][:1] == ("iter",):
            s.put(eng, st, L, cut(st, s.get(eng, st, a[0][1]), a[0][2], a[1][2]), ev.node, ev.fr)
            return [(st, I(0))]
        if b == "erase" and a and a[0][:1] == ("iter",):
            i = a[0][2]
            j = a[1][2] if len(a) > 1 and a[1][:1] == ("iter",) else add(i, I(1))
            s.put(eng, st, L, join(cut(st, c, I(0), i), cut(st, c, j, n)), ev.node, ev.fr)
            return [(st, ("iter", L, i))]
        if b == "resize" and len(a) == 1 and st.decide(("ge0", sub(n, a[0]))) is not False:
            s.put(eng, st, L, cut(st, c, I(0), a[0]), ev.node, ev.fr)
            return [(st, I(0))]
        if b == "operator=" and ev.locs and ev.locs[0] is not None:
            s.put(eng, st, L, s.get(eng, st, ev.locs[0]), ev.node, ev.fr)
            return [(st, None, L)]
        if b == "swap" and ev.locs and ev.locs[0] is not None:
            o = s.get(eng, st, ev.locs[0])
            s.put(eng, st, ev.locs[0], c, ev.node, ev.fr)
            s.put(eng, st, L, o, ev.node, ev.fr)
            return [(st, I(0))]
        st.emit(("odd", b, ev.where))
        return None

    @staticmethod
    def entry(v):
        return v

    def iterators(s, eng, st, ev, b, a):
        o = unwrap(eng.load(st, ev.obj, "class")) if ev.obj is not None else None
        if o is not None and o[:1] == ("iter",):
            L, i = o[1], o[2]
            if b == "operator+" and len(a) == 1:
                return [(st, ("iter", L, add(i, a[0])))]
            if b == "operator-" and len(a) == 1:
                return [(st, sub(i, a[0][2]) if a[0][:1] == ("iter",) else ("iter", L, sub(i, a[0])))]
            if b in ("operator++", "operator--", "operator+=", "operator-="):
                d = I(1) if b[-1] in "+-" and b[8:] in ("++", "--") else a[0]
                n = ("iter", L, (sub if "-" in b[8:] else add)(i, d))
                eng.store(st, ev.obj, n, ev.node, ev.fr)
                return [(st, o if b[8:] in ("++", "--") and a else n)]
            if b == "operator*":
                return [(st, None, s.slot(eng, st, L, i))]
            if b == "operator->":
                return [(st, ("addr", s.slot(eng, st, L, i)))]
            if b == "operator[]":
                return [(st, None, s.slot(eng, st, L, add(i, a[0])))]
            if b == "base" and not a:
                return [(st, o)]
            if b in ("operator==", "operator!=") and a and a[0][:1] == ("iter",):
                t = ("eq0", sub(i, a[0][2]))
                return [(st, t if b == "operator==" else ("not", t))]
        it = [x[:1] == ("iter",) for x in a]
        if not it or not it[0]:
            return None
        if b in ("make_move_iterator",):
            return [(st, a[0])]
        if b == "next":
            return [(st, ("iter", a[0][1], add(a[0][2], a[1] if len(a) > 1 else I(1))))]
        if b == "prev":
            return [(st, ("iter", a[0][1], sub(a[0][2], a[1] if len(a) > 1 else I(1))))]
        if b == "distance" and len(a) == 2:
            return [(st, sub(a[1][2], a[0][2]))]
        if b in ("operator==", "operator!=") and len(a) == 2 and it[1]:
            t = ("eq0", sub(a[0][2], a[1][2]))
            return [(st, t if b == "operator==" else ("not", t))]
        if b == "operator-" and len(a) == 2 and it[1]:
            return [(st, sub(a[0][2], a[1][2]))]
        if b in ("find", "lower_bound", "upper_bound") and len(a) >= 3:
            L = a[0][1]
            c = s.get(eng, st, L)
            i = find_in(st, c, ev.args[2]) if b == "find" else None
            if i is None:
                i = (b, norm(c), ev.args[2])
                s_unsigned.add(i)
                st.assume(("ge0", sub(length(c), i)), True)
                st.emit(("search", b, norm(c), ev.args[2], i, a[0][2], a[1][2], s.sorter(eng, st, ev), ev.where))
                if b == "find" and len(c[1]) == 1 and c[1][0][0] == "seg":
                    # what is looked at afterwards exists, and pages occur once
                    for d in (0, 1, -1):
                        st.assume(("eq0", sub(("item", c[1][0][1], add(i, I(d))), ev.args[2])), d == 0)
            return [(st, ("iter", L, i))]
        if b == "move" and len(a) == 3:
            # the algorithm: from a range to a place
            return None
        return None


# ---------------------------------------------------------------- who is who

class Roles:
    def __init__(s, P, R):
        s.ok = False
        s.node = s.entry = s.C = None
        for r in P.records.values():
            vs = [x for x in r["fields"] if x["t"].startswith(VEC)]
            for x in vs:
                m = PR.strip_t(x["t"].split("<", 1)[1].split(",")[0].rstrip("> "))
                for y in vs:
                    if m in P.records and "unsigned int" in y["t"].split(",")[0] and len(vs) == 2 and r["n"].startswith("securefs::"):
                        s.node, s.entry, s.E, s.K = r["n"], m, PR.strip_t(x["n"]), PR.strip_t(y["n"])
        if s.node is None:
            return
        for r in P.records.values():
            for x in r["fields"]:
                if "map<" in x["t"] and s.node + "," in x["t"].replace(">", ","):
                    s.C, s.cache = r["n"], x["n"]
        if s.C is None:
            return
        ints = [PR.strip_t(x["n"]) for x in P.records[s.node]["fields"] if x["t"] == "unsigned int"]
        given = set()
        for f in P.methods_of(s.node):
            if f.body and f.d["ret"].replace(" ", "") == "unsignedint&":
                given |= {PR.strip_t(n["f"]) for n in f.nodes() if n.get("k") == "mem"} & set(ints)
        if len(ints) != 2 or len(given) != 1:
            return
        s.up = given.pop()
        s.page = [x for x in ints if x != s.up][0]
        ms = [f for f in P.methods_of(s.C) if f.body and not f.d.get("lambda")]
        ptr = s.node + " *"

        def ps(f):
            return [p["t"].replace("const ", "") for p in f.d["p"]]

        def vcalls(f):
            return {base(n.get("n") or "") for g in [f] for n in g.nodes() if n.get("k") == "call" and n.get("vt")}

        def reaches_v(f, names):
            r = P.reach([f])
            return any(base(n.get("n") or "") in names for k in r for n in P.funcs[k].nodes() if n.get("k") == "call" and n.get("vt"))
        s.src = {f.key: f for f in ms if f.d["ret"] == ptr and ps(f) and all(t == "unsigned int" for t in ps(f))}
        s.top = {f.key: f for f in ms if f.d["ret"] == ptr and not ps(f)}
        s.alloc = {f.key: f for f in ms if f.d["ret"] == "unsigned int" and not ps(f) and reaches_v(f, ("resize",))}
        s.free = {f.key: f for f in ms if f.d["ret"] == "void" and ps(f) == ["unsigned int"] and reaches_v(f, ("resize", "write"))}
        s.rec = {f.key: f for f in ms if ptr in ps(f) and any(f.key in {g.key for g in P.targets(n)} for n in f.nodes() if n.get("k") == "call")}
        touch = lambda f: any(n.get("k") == "call" and (n.get("f") or "") in s.muts for n in f.nodes())
        s.muts = {f.key for f in P.methods_of(s.node) if f.body and not f.d.get("const") and f.d["ret"].rstrip().endswith("&") and "vector" in f.d["ret"]}

        def outer(c):
            """those that call themselves, or else those no other of them calls"""
            own = {k: f for k, f in c.items() if k in s.rec}
            return own or {k: f for k, f in c.items() if not any(k in P.reach([g]) for j, g in c.items() if j != k)}
        void = {f.key: f for f in ms if f.d["ret"] == "void" and ptr in ps(f) and any(h in P.reach([f]) for h in s.muts)}
        s.ins = outer({k: f for k, f in void.items() if any(t.rstrip("& ") == s.entry for t in ps(f)) and "unsigned int" in ps(f)})
        s.bal = outer({k: f for k, f in void.items() if ps(f)[0] == ptr and k not in s.ins and all(t in ("int", "unsigned int", "long", "unsigned long") for t in ps(f)[1:])})
        s.rec = {**s.rec, **s.ins, **s.bal}
        s.find = {f.key: f for f in ms if "std::tuple" in f.d["ret"] and s.node + " *" in f.d["ret"]}
        s.rep = {f.key: f for f in ms if f.d["ret"] == ptr and ps(f)[:1] == [ptr] and len(ps(f)) > 1 and touch(f)}
        s.files = {f.where.split(":")[0] for f in ms} | {f.where.split(":")[0] for f in P.methods_of(s.node)}
        s.base_files = {f.where.split(":")[0] for b in P.all_bases(s.C) for f in P.methods_of(b)}
        s.adj = {}
        s.cuts = set(s.src) | set(s.top) | set(s.alloc) | set(s.free) | set(s.rec) | set(s.find)
        for f in ms:
            if ps(f)[:1] == [ptr] and f.key not in s.cuts and not any(n.get("k") == "call" and (n.get("f") or "") in s.muts for n in f.nodes()):
                a = adjuster(P, R, s, f)
                if a is not None:
                    s.adj[f.key] = a
        s.cuts |= set(s.adj)
        s.pages = {}
        for f in ms:
            t = ps(f)
            if len(t) == 2 and t[0] == "unsigned int" and t[1].endswith("&") and f.d["ret"] == "void":
                r = P.records.get(t[1].rstrip("& "))
                if r is not None and len(r["fields"]) == 2 and all(x["t"] == "unsigned int" for x in r["fields"]):
                    s.pages[f.key] = ("write" if f.d["p"][1]["t"].startswith("const") else "read", tuple(x["n"] for x in r["fields"]))
        s.cuts |= set(s.pages)
        s.pages_fields = next(iter(s.pages.values()))[1] if s.pages else ()
        s.name = [PR.strip_t(x["n"]) for x in P.records[s.entry]["fields"] if "string" in x["t"]][0]
        s.root = rooted(P, R, s)
        s.ok = s.root is not None

    def ch(s, p):
        return ("m", ("d", p), s.K)

    def en(s, p):
        return ("m", ("d", p), s.E)


class Tree(Seq):
    """nodes of the tree, told apart by their pages"""
    def inline(s, eng, f, ev):
        if f.key in s.T.cuts:
            return False
        return Seq.inline(s, eng, f, ev) or (f.where.split(":")[0] in s.T.base_files and simple(f, 40) and not ev.vt)

    def page_of(s, st, p):
        return p[1] if p[0] == "node" else st.env.get(("m", ("d", p), s.T.page), ("in", ("m", ("d", p), s.T.page), 0))

    def special(s, eng, st, ev):
        T = s.T
        k = ev.key
        cls = PR.strip_t((ev.node or {}).get("mc") or "")
        if k in T.src:
            num = ev.args[-1]
            p = ("node", num)
            s_ptr.add(p)
            st.assume(("eq0", p), False)
            known = ("m", ("d", p), T.page) in st.env
            st.env[("m", ("d", p), T.page)] = num
            st.emit(("node", num, ev.args[0] if len(ev.args) > 1 else None, ev.where))
            if not known:
                if len(ev.args) > 1:
                    st.env[("m", ("d", p), T.up)] = ev.args[0]
                if num[0] == "page":
                    st.env[T.en(p)] = ("cat", ())
                    st.env[T.ch(p)] = ("cat", ())
            return [(st, p)]
        if k in T.top:
            v = eng.load(st, T.root, "class")
            p = ("node", v)
            s_ptr.add(p)
            if v[0] == "page":
                st.assume(("eq0", p), False)
                for w in (T.en(p), T.ch(p)):
                    if w not in st.env:
                        st.env[w] = ("cat", ())
            return [(st, p)]
        if k in T.alloc:
            v = ("page",) + st.fresh(ev.fr.func.key, ev.node.get("l", 0))
            s_unsigned.add(v)
            st.emit(("alloc", v))
            return [(st, v)]
        if k in T.free:
            st.emit(("free", ev.args[0], ev.where))
            return [(st, I(0))]
        if k in T.adj:
            p = ev.args[0]
            to = T.adj[k]
            st.emit(("adj", norm(s.get(eng, st, T.ch(p))), ev.args[to] if to is not None else s.page_of(st, p), ev.where))
            return [(st, I(0))]
        if k in T.rec:
            st.emit(("rec", k, tuple(ev.args), ev.where))
            return [(st, I(0))]
        if k in T.rep:
            p = ("node", ("hole",))
            s_ptr.add(p)
            st.emit(("rep", tuple(ev.args), ev.where))
            for w in (T.en(ev.args[0]), T.ch(ev.args[0])):
                st.env[w] = ("cat", (("seg", ("after",), I(0), size_of(("after",))),))
            return [(st, p)]
        if k in T.find:
            st.emit(("find", ev.args[0]))
            p, i, t = ("node", ("hit",)), ("hit", "index"), ("hit", "equal")
            s_ptr.add(p)
            s_unsigned.add(i)
            return [(st, ("call", "make_tuple", p, i, t))]
        if ev.base == "operator=" and ev.obj is not None and len(ev.args) == 1 and cls.startswith(PLAIN) and ev.obj[0] != "t":
            eng.store(st, ev.obj, ev.args[0], ev.node, ev.fr)
            return [(st, None, ev.obj)]
        if k in T.pages:
            fs = T.pages[k]
            if len(ev.locs) > 1 and ev.locs[1] is not None:
                if fs[0] == "read":
                    for x in fs[1]:
                        v = ("kept", x, ev.args[0])
                        s_unsigned.add(v)
                        eng.store(st, ("m", ev.locs[1], x), v, ev.node, ev.fr)
                else:
                    st.emit(("wfree", ev.args[0], tuple((x, eng.load(st, ("m", ev.locs[1], x))) for x in fs[1]), ev.where))
                return [(st, I(0))]
        if ev.base == "resize" and ev.vt:
            st.emit(("resize", ev.args[0], ev.where))
            return [(st, I(0))]
        if ev.base == "clear" and ev.obj == ("m", ("obj", "this"), T.cache):
            st.emit(("wipe", ev.where))
            return [(st, I(0))]
        if ev.base == "erase" and ev.obj == ("m", ("obj", "this"), T.cache):
            st.emit(("forget", ev.args[0] if ev.args else None))
            return [(st, I(0))]
        if ev.base == "operator()" and ev.obj is not None:
            return s.compare(eng, st, ev)
        return None

    def compare(s, eng, st, ev):
        return None


def rooted(P, R, T):
    """the place that holds the number of the top page"""
    class Top(Tree):
        def special(s, eng, st, ev):
            if ev.key in s.T.top:
                return None
            return Tree.special(s, eng, st, ev)

        def inline(s, eng, f, ev):
            return f.key in s.T.top or Tree.inline(s, eng, f, ev)
    got = set()
    for f in T.top.values():
        outs, _ = R.engine(P, Top(P, T), f)
        got |= {e[1] for k, st, v in outs for e in st.trace if e[0] == "node"}
    if len(got) == 1:
        v = got.pop()
        if v[0] == "in":
            return v[1]
    return None


class Walk(Rule):
    max_depth = 4

    def __init__(s, T):
        s.T = T

    def inline(s, eng, f, ev):
        return not ev.vt and f.key not in s.T.cuts and simple(f, 30)

    def on_call(s, eng, st, ev):
        if ev.key in s.T.src:
            p = ("node", ev.args[-1])
            s_ptr.add(p)
            return [(st, p)]
        return None

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "m" and loc[2] == s.T.up:
            st.emit(("up", loc[1], val))

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, bool(v)))

    def on_iter(s, eng, st, node, fr):
        st.emit(("iter",))

    def on_leave(s, eng, st, node, fr, kind):
        st.emit(("leave",))


def adjuster(P, R, T, f):
    """a function that makes all cached children of a node point to a page: the number of the parameter that gives
    it (None: the node's own page)"""
    outs, _ = R.engine(P, Walk(T), f)
    got = set()
    for k, st, v in outs:
        told = True
        for e in st.trace + (("iter",),):
            if e[0] == "leave":
                return None         # children that follow are passed over
            if e[0] == "iter":
                if not told:
                    return None
                told = False
            if e[0] == "if" and not e[2] and e[1][:1] == ("node",) or e[0] == "if" and e[2] and e[1][0] == "eq0" and e[1][1][:1] == ("node",):
                told = True         # not in memory
            if e[0] == "up":
                told = True
                l, val = e[1], e[2]
                if l[0] != "d" or l[1][:1] != ("node",):
                    return None
                num = l[1][1]
                if not any(x == T.ch(param(f, 0)) for x in walk(num)):
                    return None
                to = [i for i in range(1, len(f.d["p"])) if val == param(f, i)]
                if to:
                    got.add(to[0])
                elif val == ("in", ("m", ("d", param(f, 0)), T.page), 0):
                    got.add(None)
                else:
                    return None
    return got.pop() if len(got) == 1 else None


# ---------------------------------------------------------------- judging one path

class View:
    """the nodes at the end of a path, with what the path established"""
    def __init__(s, T, st):
        s.T, s.st = T, st
        s.sub = {}
        s.nodes = {}
        kinds = [e[0] for e in st.trace]
        s.calm = "put" not in kinds or "node" not in kinds[kinds.index("put"):]
        for l, v in list(st.env.items()):
            if l[0] == "m" and l[2] in (T.E, T.K, T.up) and l[1][0] == "d":
                s.nodes.setdefault(l[1][1], {})[l[2]] = s.plain(v)
        ifs = [(e[1], e[2]) for e in st.trace if e[0] == "if"]
        for t, v in ifs:
            while t[0] == "not":
                t, v = t[1], not v
            if t[0] == "eq0" and v:
                s.equal(t[1])
        # a node that is no leaf has one child more than entries
        seen = {x for e in st.trace for x in walk(e) if x[:2] == ("call", "size") and len(x) == 3}
        for x in seen:
            k = st.const(x)
            if k is not None:
                s.sub[x] = I(k) if isinstance(k, int) else k
        for x in seen:
            S = x[2]
            if S[0] == "in" and S[1][0] == "m" and S[1][2] == T.K and S[2] == 0 and x not in s.sub:
                if st.decide(("eq0", x)) is False:
                    e = size_of(("in", ("m", S[1][1], T.E), 0))
                    if e not in s.sub:
                        s.sub[x] = add(e, I(1))
        s.facts = ifs

    def plain(s, v):
        """while nothing was changed, what a place holds in a loop is what it held before"""
        if not s.calm or not isinstance(v, tuple):
            return v
        if v[:1] == ("in",) and len(v) == 3 and v[1][0] == "m" and v[1][2] in (s.T.E, s.T.K):
            return ("in", tuple(s.plain(x) for x in v[1]), 0)
        return tuple(s.plain(x) if isinstance(x, tuple) else x for x in v)

    def equal(s, t):
        c, d = lin(t)
        d = dict(d)
        own = [a for a in d if a[:2] == ("call", "size") and abs(d[a]) == 1 and a not in s.sub]
        own.sort(key=lambda a: (0 if a[2][0] == "in" and a[2][1][0] == "m" and a[2][1][2] == s.T.K else 1))
        if not own:
            return
        a = own[0]
        k = d.pop(a)
        r = I(-c * k)
        for x, n in d.items():
            r = add(r, scale(x, -n * k))
        if not any(x == a for x in walk(r)):
            s.sub[a] = r

    def red(s, t):
        """a number with what is known to be equal put in"""
        for _ in range(4):
            u = s.red1(t)
            if u == t:
                return t
            t = u
        return t

    def red1(s, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in s.sub:
            return s.sub[t]
        if t[0] == "lin":
            r = I(t[1])
            for x, n in t[2]:
                r = add(r, scale(s.red1(x), n))
            return r
        if t[0] == "op" and t[1] in ("/", ">>", "%") and len(t) == 4:
            a, b = s.red1(t[2]), s.red1(t[3])
            if a[0] == b[0] == "int" and a[1] >= 0 and b[1] > 0:
                return I(a[1] // b[1] if t[1] == "/" else a[1] >> b[1] if t[1] == ">>" else a[1] % b[1])
        if t[:2] == ("call", "size"):
            k = s.st.const(t)
            return t if k is None else I(k)
        if t[0] in ("op", "item"):
            return tuple(s.redc(x) if isinstance(x, tuple) and x[:1] == ("cat",) else s.red1(x) if isinstance(x, tuple) else x for x in t)
        return t

    def redc(s, c):
        out = []
        for p in c[1]:
            if p[0] == "one":
                out.append(("one", s.red(p[1])))
            else:
                out.append(("seg", s.redc(p[1]) if p[1][0] == "cat" else p[1], s.red(p[2]), s.red(p[3])))
        return norm(("cat", tuple(out)))

    def seq(s, p, which):
        v = s.nodes.get(p, {}).get(which)
        if v is None or v[0] != "cat":
            v = atom(("in", ("m", ("d", p), which), 0)) if v is None or v[0] == "in" else None
        return v if v is None else s.redc(v)

    def start(s, p, which):
        if p[0] == "node" and p[1][0] == "page":
            return ("cat", ())
        return s.redc(atom(("in", ("m", ("d", p), which), 0)))

    def changed(s):
        """nodes whose entries or children differ from what they were"""
        out = []
        for p in s.nodes:
            for w in (s.T.E, s.T.K):
                v = s.seq(p, w)
                if v is None or v != s.start(p, w):
                    out.append(p)
                    break
        return out

    def up(s, p):
        return s.nodes.get(p, {}).get(s.T.up, ("in", ("m", ("d", p), s.T.up), 0))

    def page(s, p):
        return p[1] if p[0] == "node" else ("in", ("m", ("d", p), s.T.page), 0)

    def leaf(s, p):
        return s.st.decide(("eq0", size_of(("in", ("m", ("d", p), s.T.K), 0))))

    def same(s, a, b):
        return a is not None and b is not None and s.redc(a) == s.redc(b)

    def events(s, kind):
        return [e for e in s.st.trace if e[0] == kind]

    def le(s, a, b):
        return s.st.decide(("ge0", sub(s.red(b), s.red(a)))) is True


def words(c, T=None, depth=0):
    """a sequence in words"""
    if c is None:
        return "unknown"
    out = []
    for p in c[1]:
        if p[0] == "one":
            out.append(tell(p[1]))
        else:
            out.append("%s[%s..%s)" % ("(%s)" % words(p[1], T, depth + 1) if p[1][0] == "cat" and depth < 2 else tell(p[1]), tell(p[2]), tell(p[3])))
    return " + ".join(out) or "nothing"


def tell(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "int":
        return str(t[1])
    if t[0] == "lin":
        return "+".join(("%d*" % n if n != 1 else "") + tell(x) for x, n in t[2]) + ("%+d" % t[1] if t[1] else "")
    if t[0] == "call" and t[1] == "size":
        return "|%s|" % tell(t[2])
    if t[0] == "op":
        return "(%s%s%s)" % (tell(t[2]), t[1], tell(t[3]) if len(t) > 3 else "")
    if t[0] == "in":
        l = t[1]
        return str(l[-1]).split("::")[-1].replace("m_", "") + ("(%s)" % tell(l[1]) if l[0] == "m" else "")
    if t[0] == "d":
        return tell(t[1])
    if t[0] == "item":
        return "%s[%s]" % (words(t[1]) if t[1][0] == "cat" else tell(t[1]), tell(t[2]))
    if t[0] in ("find", "lower_bound", "upper_bound"):
        return t[0]
    if t[0] == "cat":
        return words(t)
    return str(t[0])


# ---------------------------------------------------------------- what each operation does to the tree

FLIP = {"lower_bound": 1, "upper_bound": 1}


class Judge(Tree):
    """operations under the invariants of a stored tree: a node holds at most MAX entries, and one child more than
    entries or none; names in a node, and between neighbours and their separator, ascend"""
    probe = None

    def sorter(s, eng, st, ev):
        """whether the order searched by is the directory's: true exactly for a smaller first name"""
        if len(ev.args) < 4 or ev.args[3][:1] != ("lam",):
            return False
        for r in (-1, 0, 1):
            s.probe = r
            try:
                got = eng.run_callback(st.copy(), ev, ev.args[3], [("mark", 0), ("mark", 1)])
            finally:
                s.probe = None
            if not got or any(q.decide(v) is not (r < 0) for q, v in got):
                return False
        return True

    def compare(s, eng, st, ev):
        if ev.obj[0] != "m" or len(ev.args) != 2:
            return None
        a, b = ev.args
        if s.probe is not None:
            ma = {x[1] for x in walk(a) if x[:1] == ("mark",)}
            mb = {x[1] for x in walk(b) if x[:1] == ("mark",)}
            if (ma, mb) == ({0}, {1}):
                return [(st, I(s.probe))]
            if (ma, mb) == ({1}, {0}):
                return [(st, I(-s.probe))]
        o = s.order(st, a, b)
        if o is not None:
            return [(st, I(o))]
        return [(st, ("cmp", a, b))]

    def order(s, st, a, b):
        """how the names of two known places compare"""
        x, y = ([t for t in walk(v) if t[:1] == ("item",)][:1] for v in (a, b))
        if not x or not y:
            return None
        x, y = x[0], y[0]
        px, py = s.owner(x[1]), s.owner(y[1])
        if px is None or py is None:
            return None
        if px == py:
            d = sub(x[2], y[2])
            for t, r in ((("eq0", d), 0), (("ge0", d), 1)):
                v = st.decide(t)
                if v is True:
                    return r
                if v is None:
                    return None
            return -1
        i, j = s.place(st, px), s.place(st, py)
        if i is None or j is None or i[0] != j[0]:
            return None
        d = sub(i[1], j[1])
        return None if d[0] != "int" or d[1] == 0 else -1 if d[1] < 0 else 1

    def owner(s, S):
        if S[0] == "in" and S[1][0] == "m" and S[1][2] == s.T.E and S[1][1][0] == "d" and S[2] == 0:
            return S[1][1][1]
        return None

    def place(s, st, p):
        """(children of the parent, index) of a node"""
        num = s.page_of(st, p)
        if num[0] == "item":
            return num[1], num[2]
        for e in st.trace:
            if e[0] == "search" and e[1] == "find" and e[3] == num and len(e[2][1]) == 1:
                return e[2][1][0][1], e[4]
        return None


def judged(P, R, T, f, begin=None):
    """the paths of an operation that starts with what "begin" makes of the state"""
    st = State()
    for p in f.d["p"]:
        if p["t"].endswith("*"):
            st.assume(("eq0", ("in", ("v", 0, p["id"], p["n"]), 0)), False)
    if begin:
        begin(st)
    rule = Judge(P, T)
    outs, _ = R.engine(P, rule, f, st=st)
    return rule, outs


def ids(f, i):
    p = f.d["p"][i]
    return ("v", 0, p["id"], p["n"])


def arg_of(P, k, args, want):
    """arguments of a call by the types of the parameters"""
    f = P.funcs[k]
    return [a for p, a in zip(f.d["p"], args) if want(p["t"])]


INVALID = I(0xffffffff)


class Path:
    """one returning path of an operation"""
    def __init__(s, T, P, st, v):
        s.T, s.P, s.st, s.v = T, P, st, v
        s.V = View(T, st)

    def root(s):
        return s.st.env.get(s.T.root, ("in", s.T.root, 0))

    def root_kept(s):
        return s.root() == ("in", s.T.root, 0)

    def len(s, c):
        return s.V.red(length(c))

    def lost(s, got, want, what):
        if got is None:
            return "%s cannot be followed" % what
        if not s.V.same(got, want):
            return "%s become %s instead of %s" % (what, words(s.V.redc(got)), words(s.V.redc(want)))
        return None

    def adjusted(s, c, to):
        """all cached children in a sequence were told their parent"""
        if not s.V.redc(c)[1]:
            return True
        return any(e[0] == "adj" and s.V.redc(e[1]) == s.V.redc(c) and e[2] == to for e in s.st.trace)

    def recs(s, keys):
        return [e for e in s.st.trace if e[0] == "rec" and e[1] in keys]

    def freed(s):
        return [e[1] for e in s.V.events("free")]

    def forgot(s):
        return [e[1] for e in s.V.events("forget")]


def roomy(P, T):
    v = [g.get("init") for n, g in P.globals.items() if "MAX_NUM_ENTRIES" in n]
    v = [x for x in v if x and x.get("k") in ("int", "str")]
    return v[0]["v"] if v else None


def inserts(P, R, T, f, inner, big):
    """putting an entry into a node, with a new page to its right when the node has children"""
    isn = lambda t: t.replace("const ", "") == T.node + " *"
    ise = lambda t: t.replace("const ", "").rstrip("& ") == T.entry
    isc = lambda t: t == "unsigned int"
    ix = [[i for i, p in enumerate(f.d["p"]) if w(p["t"])][:1] for w in (isn, ise, isc)]
    if not all(ix):
        return None
    (ni,), (ei,), (ci,) = ix
    n, e, c = param(f, ni), param(f, ei), param(f, ci)
    E0, C0 = ("in", T.en(n), 0), ("in", T.ch(n), 0)

    def begin(st):
        st.assume(("ge0", sub(big, size_of(E0))), True)
        if inner:
            st.assume(("eq0", size_of(C0)), False)
            st.assume(("eq0", sub(c, INVALID)), False)
        else:
            st.assume(("eq0", size_of(C0)), True)
            st.env[ids(f, ci)] = INVALID
    rule, outs = judged(P, R, T, f, begin)
    forms = set()
    bad = []
    for k, st, v in outs:
        if k != "r":
            continue
        q = Path(T, P, st, v)
        V = q.V
        base_e, base_c = V.start(n, T.E), V.start(n, T.K)
        sr = [x for x in V.events("search") if x[1] in FLIP and x[3] == e and V.redc(x[2]) == base_e]
        if not sr or sr[0][7] is not True or sr[0][5] != I(0) or V.red(sr[0][6]) != V.red(length(base_e)):
            bad.append("the place of the new entry is not looked for among all entries by the order of the directory")
            continue
        at_ = sr[0][4]
        X = join(cut(st, base_e, I(0), at_), one(e), cut(st, base_e, at_, length(base_e)))
        C1 = join(cut(st, base_c, I(0), add(at_, I(1))), one(c), cut(st, base_c, add(at_, I(1)), length(base_c))) if inner else base_c
        nE, nC = V.seq(n, T.E), V.seq(n, T.K)
        if not inner and nC is not None and not q.len(nC)[1:] == (0,):
            nC = V.redc(nC)
        fresh = [x[1] for x in V.events("alloc")]
        why = []
        if not fresh:
            forms.add("room")
            why += [q.lost(nE, X, "the entries of the node"), q.lost(nC, C1, "the children of the node")]
            if not V.le(length(X), big):
                why.append("a node can hold more entries than a page has room for")
            if [x for x in V.changed() if x != n] or not q.root_kept() or q.freed():
                why.append("other nodes change")
        else:
            S = [p for p in V.nodes if p[0] == "node" and p[1] in fresh and V.up(p) is not None]
            rc = q.recs(T.ins)
            up0 = ("in", ("m", ("d", n), T.up), 0)
            if rc:
                forms.add("split")
                a = rc[0][2]
                (pn,), (u,), (sp,) = (arg_of(P, rc[0][1], a, w)[:1] for w in (isn, ise, isc))
                S = [p for p in S if p[1] == sp]
                if len(rc) > 1 or len(fresh) != 1 or not S or pn != ("node", up0):
                    why.append("a split does not put one entry and the new page into the parent")
                elif V.up(S[0]) != up0 or V.up(n) != up0 or not q.root_kept():
                    why.append("a split leaves a wrong parent number")
            else:
                forms.add("top")
                top = [p for p in S if p[1] == q.root()]
                S = [p for p in S if p[1] != q.root()]
                if len(top) != 1 or len(S) != 1 or st.decide(("eq0", sub(up0, INVALID))) is not True:
                    why.append("a split of a node adds no entry to a parent")
                else:
                    kids = join(one(V.page(n)), one(S[0][1]))
                    why.append(q.lost(V.seq(top[0], T.K), kids, "the children of the new top"))
                    ue = V.seq(top[0], T.E)
                    u = None
                    if ue is None or q.len(ue) != I(1):
                        why.append("the new top does not hold one entry")
                    else:
                        u = ue
                    if V.up(n) != top[0][1] or V.up(S[0]) != top[0][1] or V.up(top[0]) != INVALID:
                        why.append("a split leaves a wrong parent number")
            if not why or not any(why):
                S = S[0]
                U = u if u[0] == "cat" else one(u)
                sE, sC = V.seq(S, T.E), V.seq(S, T.K)
                if nE is None or sE is None or nC is None or sC is None:
                    why.append("the halves cannot be followed")
                else:
                    why.append(q.lost(join(nE, V.redc(U), sE), X, "the entries of both halves and the one between"))
                    why.append(q.lost(join(nC, sC), C1, "the children of both halves"))
                    if not (V.le(I(1), length(nE)) and V.le(I(1), length(sE)) and V.le(length(nE), big) and V.le(length(sE), big)):
                        why.append("a half can be empty or too big (%s and %s entries)" % (tell(q.len(nE)), tell(q.len(sE))))
                    if inner:
                        if q.len(nC) != V.red(add(length(nE), I(1))) or q.len(sC) != V.red(add(length(sE), I(1))):
                            why.append("a half does not have one child more than entries")
                        if not q.adjusted(sC, S[1]):
                            why.append("the children that move are not told their new parent")
                    if [x for x in V.changed() if x not in (n, S) and x[1] != q.root()] or q.freed():
                        why.append("other nodes change")
        bad += [w for w in why if w]
    return forms, bad


def balances(P, R, T, f, inner, big):
    """after an entry was taken out of a node"""
    n = param(f, [i for i, p in enumerate(f.d["p"]) if p["t"].endswith("*")][0])
    C0 = ("in", T.ch(n), 0)
    up0 = ("in", ("m", ("d", n), T.up), 0)

    def begin(st):
        st.assume(("eq0", size_of(C0)), not inner)
    rule, outs = judged(P, R, T, f, begin)
    forms, bad = set(), []
    par = ("node", up0)
    for k, st, v in outs:
        if k != "r":
            continue
        q = Path(T, P, st, v)
        V = q.V
        E0, K0 = V.start(n, T.E), V.start(n, T.K)
        top = st.decide(("eq0", sub(up0, INVALID)))
        ch = V.changed()
        if not ch and not q.freed() and q.root_kept():
            some = V.le(I(1), length(E0))
            if top is True:
                if inner and not some:
                    bad.append("a top without entries but with children can stay")
            elif not some:
                bad.append("a node can stay empty")
            forms.add("kept")
            continue
        why = []
        if not q.root_kept():
            forms.add("top")
            only = cut(st, K0, I(0), I(1))
            if top is not True or q.len(E0) != I(0) or q.len(K0) != I(1):
                why.append("a top that still has entries or several children is given up")
            if one(q.root()) != only and V.red(q.root()) != V.red(only[1][0][1] if only[1][0][0] == "one" else ("item", only[1][0][1], only[1][0][2])):
                why.append("the new top is not the only child of the old one")
            if not any(e[0] == "adj" and V.redc(e[1]) == K0 and e[2] == INVALID for e in st.trace):
                why.append("the new top keeps a parent number")
            if q.freed() != [V.page(n)] or q.forgot() != [V.page(n)]:
                why.append("the old top is not given up")
            if any(x != n for x in ch):
                why.append("other nodes change")
            bad += [w for w in why if w]
            continue
        ck = ("in", T.ch(par), 0)
        me = rule.place(st, n)
        sib = [p for p in V.nodes if p[0] == "node" and p[1][0] == "item" and p[1][1] == ck]
        sib += [("node", e[1]) for e in V.events("node") if e[1][0] == "item" and e[1][1] == ck and ("node", e[1]) not in sib]
        if me is None or me[0] != ck or len(sib) != 1:
            bad.append("the node is balanced with one that is not known to be its neighbour")
            continue
        sib = sib[0]
        d = sub(sib[1][2], me[1])
        if d not in (I(1), I(-1)):
            bad.append("the node is balanced with one that is not its neighbour")
            continue
        if st.decide(("eq0", size_of(("in", T.ch(sib), 0)))) is inner:
            continue        # neighbours are both leaves or neither
        if inner:
            V.sub.setdefault(size_of(("in", T.ch(sib), 0)), V.red(add(size_of(("in", T.en(sib), 0)), I(1))))
        else:
            V.sub[size_of(("in", T.ch(sib), 0))] = I(0)
        V.sub.setdefault(size_of(ck), add(size_of(("in", T.en(par), 0)), I(1)))
        L, Rt, sep = (n, sib, me[1]) if d == I(1) else (sib, n, sib[1][2])
        P0, PK0 = V.start(par, T.E), V.start(par, T.K)
        S0 = cut(st, P0, sep, add(sep, I(1)))
        all_e = join(V.start(L, T.E), S0, V.start(Rt, T.E))
        all_c = join(V.start(L, T.K), V.start(Rt, T.K))
        gone = q.freed()
        side = "right" if d == I(1) else "left"
        if gone:
            forms.add("merge " + side)
            dead = [x for x in (L, Rt) if V.page(x) in gone]
            if len(gone) != 1 or len(dead) != 1:
                bad.append("a page is given up that is neither of the two merged")
                continue
            keep = L if dead[0] == Rt else Rt
            di = me[1] if dead[0] == n else sib[1][2]
            why += [q.lost(V.seq(keep, T.E), all_e, "the entries of the merged node"),
                    q.lost(V.seq(keep, T.K), all_c, "the children of the merged node"),
                    q.lost(V.seq(par, T.E), join(cut(st, P0, I(0), sep), cut(st, P0, add(sep, I(1)), length(P0))), "the entries of the parent"),
                    q.lost(V.seq(par, T.K), join(cut(st, PK0, I(0), di), cut(st, PK0, add(di, I(1)), length(PK0))), "the children of the parent")]
            if not V.le(length(all_e), big):
                why.append("a merged node can hold more entries than a page has room for")
            if inner and not q.adjusted(V.start(dead[0], T.K), V.page(keep)):
                why.append("the children that move are not told their new parent")
            if q.forgot() != [V.page(dead[0])]:
                why.append("the page given up stays in the cache")
            r = q.recs(T.bal)
            if not any(par in e[2] for e in r):
                why.append("the parent, which lost an entry, is not balanced")
            others = (L, Rt, par)
        else:
            forms.add("rotate " + side)
            pe = V.seq(par, T.E)
            new = None
            if pe is None:
                why.append("the entries of the parent cannot be followed")
            else:
                new = cut(st, pe, sep, add(sep, I(1)))
                want = join(cut(st, P0, I(0), sep), new, cut(st, P0, add(sep, I(1)), length(P0)))
                why += [q.lost(pe, want, "the entries of the parent"), q.lost(V.seq(par, T.K), PK0, "the children of the parent")]
                if any(x[0] == "seg" and x[1] != ck and x[1] == P0[1][0][1] for x in new[1]) or not new[1]:
                    why.append("the entry between the two stays")
            l, r = V.seq(L, T.E), V.seq(Rt, T.E)
            lc, rc = V.seq(L, T.K), V.seq(Rt, T.K)
            if None in (l, r, lc, rc) or new is None:
                why.append("the two nodes cannot be followed")
            else:
                why += [q.lost(join(l, V.redc(new), r), all_e, "the entries of both and the one between"), q.lost(join(lc, rc), all_c, "the children of both")]
                if inner:
                    if q.len(lc) != V.red(add(length(l), I(1))):
                        why.append("a node does not have one child more than entries")
                    if not q.adjusted(lc, V.page(L)) and lc != V.start(L, T.K) or not q.adjusted(rc, V.page(Rt)) and rc != V.start(Rt, T.K):
                        why.append("the children that move are not told their new parent")
                if st.decide(("ge0", sub(q.len(l), I(1)))) is False or st.decide(("ge0", sub(q.len(r), I(1)))) is False:
                    why.append("a node is left empty")
            others = (L, Rt, par)
        if [x for x in ch if x not in others]:
            why.append("other nodes change")
        bad += [w for w in why if w]
    return forms, bad


def takes(P, R, T, f, inner):
    """taking one entry out of a node"""
    ni = [i for i, p in enumerate(f.d["p"]) if p["t"].endswith("*")][0]
    xi = [i for i in range(len(f.d["p"])) if i != ni][0]
    n, x = param(f, ni), param(f, xi)
    C0 = ("in", T.ch(n), 0)

    def begin(st):
        st.assume(("eq0", size_of(C0)), not inner)
    rule, outs = judged(P, R, T, f, begin)
    forms, bad = set(), []
    for k, st, v in outs:
        if k != "r":
            continue
        q = Path(T, P, st, v)
        V = q.V
        E0, K0 = V.start(n, T.E), V.start(n, T.K)
        ch = [p for p in V.changed()]
        why = []
        rest = lambda m: join(cut(st, E0, I(0), x), m, cut(st, E0, add(x, I(1)), length(E0)))
        if v == n:
            forms.add("direct")
            if inner:
                why.append("an entry with children on both sides is taken out without a replacement")
            why += [q.lost(V.seq(n, T.E), rest(("cat", ())), "the entries of the node")]
            if not inner:
                why.append(None if q.len(V.seq(n, T.K)) == I(0) else "children appear")
            if [p for p in ch if p != n]:
                why.append("other nodes change")
        else:
            forms.add("replaced")
            m = V.seq(v, T.E)
            S = [x_ for x_ in walk(m or ()) if x_[:1] == ("in",) and x_[1][0] == "m" and x_[1][2] == T.E]
            if m is None or not S or st.decide(("eq0", size_of(("in", T.ch(v), 0)))) is False:
                bad.append("the node a replacement comes from cannot be followed")
                continue
            S = S[0]
            if not any(e[0] == "if" and e[2] and e[1] [:1] == ("eq0",) and V.plain(e[1]) == ("eq0", size_of(("in", T.ch(V.plain(v)), 0))) for e in st.trace):
                why.append("the replacement does not come from a leaf")
            sz = size_of(S)
            whole = ("cat", (("seg", S, I(0), sz),))
            ok = None
            for name, low, drop in (("last", x, sub(sz, I(1))), ("first", add(x, I(1)), I(0))):
                if m == V.redc(join(cut(st, whole, I(0), drop), cut(st, whole, add(drop, I(1)), sz))):
                    ok = name
                    if V.redc(V.seq(n, T.E)) != V.redc(rest(("cat", (("seg", S, drop, add(drop, I(1))),)))):
                        why.append("the entry put in place is not the one taken from the leaf: " + words(V.seq(n, T.E)))
                    if not chain(T, st, v, n, low, name):
                        why.append("the replacement is not the nearest entry %s the one removed" % ("before" if name == "last" else "after"))
            if ok is None:
                why.append("the leaf keeps or loses something else: " + words(m))
            why.append(q.lost(V.seq(n, T.K), K0, "the children of the node"))
            if [p for p in ch if p not in (n, v)]:
                why.append("other nodes change")
        bad += [w for w in why if w]
    return forms, bad


def chain(T, st, v, n, low, name):
    """the leaf reached from a child of n by always going on to the last (first) child"""
    def holder(S):
        return S[1][1][1] if S[0] == "in" and S[1][0] == "m" and S[1][2] == T.K and S[1][1][0] == "d" else None
    seen = set()
    V = View(T, st)
    bare = V.plain

    def ok(p):
        """whether this node is the child next to the entry, or the outermost below such a node"""
        if p[0] != "node" or p[1][0] != "item":
            return False
        S, i = p[1][1], p[1][2]
        h = holder(S)
        if h == n:
            return i == low
        far = sub(size_of(S), I(1)) if name == "last" else I(0)
        if h is None or bare(i) != bare(far):
            return False
        if h in seen:
            return True
        seen.add(h)
        if h[0] == "havoc":
            init = havoc_init.get(h, ())
            return bool(init) and all(ok(x) for x in init)
        return ok(h)
    return ok(v)


def finds(P, R, T, f):
    """where a name is, or where it belongs"""
    name = param(f, 0)
    rule, outs = judged(P, R, T, f)
    forms, bad = set(), []
    top = ("node", ("in", T.root, 0))
    for k, st, v in outs:
        if k != "r":
            continue
        if not isinstance(v, tuple) or len(v) < 5 or v[0] not in ("call", "ctor", "rec"):
            bad.append("what is returned cannot be followed")
            continue
        p, i, flag = v[-3:]
        V = View(T, st)
        was = [e for e in st.trace if e[0] == "node"]
        if p == NULL:
            forms.add("nothing")
            if st.decide(("eq0", top)) is not True or st.decide(flag) is not False:
                bad.append("nothing is found though there is a tree")
            continue
        pl = V.plain
        E_, K_ = ("in", T.en(p), 0), ("in", T.ch(p), 0)
        sr = {pl(e[4]): e for e in st.trace if e[0] == "search" and e[1] == "lower_bound" and pl(e[3]) == pl(name)}

        def place(q):
            """the search in a node"""
            want = pl(("cat", (("seg", ("in", T.en(q), 0), I(0), size_of(("in", T.en(q), 0))),)))
            for t, e in sr.items():
                if pl(e[2]) == want and e[7] is True and e[5] == I(0) and pl(e[6]) == pl(length(want)):
                    return t
            return None
        for e in was:
            S = e[1][1] if e[1][0] == "item" else None
            if S is None or S[0] != "in" or S[1][0] != "m" or S[1][2] != T.K or pl(e[1][2]) != place(S[1][1][1]):
                bad.append("the search goes on in a child that is not the one between the neighbours of the name")
                break
        else:
            pos = {top} | {("node", e[1]) for e in was}
            if p not in pos and not (p[0] == "havoc" and havoc_init.get(p) and all(x in pos for x in havoc_init[p])):
                bad.append("the search does not start at the top")
                continue
            t = place(p)
            if t is None or pl(i) != t:
                bad.append("the position is not that of the first entry that is not smaller, by the order of the directory")
                continue
            for b in (True, False):
                s2 = st.copy()
                if st.decide(flag) is (not b):
                    continue
                s2.assume(flag, b)
                hit = None
                for e in s2.trace:
                    if e[0] == "if":
                        for x in walk(e[1]):
                            if x[:1] == ("cmp",) and {pl(y) for y in x[1:]} == {pl(name), pl(("fld", ("item", E_, t), T.name))}:
                                hit = x
                ends = [x for e in s2.trace if e[0] == "if" for x in (e[1],)]
                same = [s2.decide(("eq0", x)) for e in s2.trace for x in walk(e) if x[:1] == ("cmp",)
                        and {pl(y) for y in x[1:]} == {pl(name), pl(("fld", ("item", E_, t), T.name))}]
                past = [s2.decide(x) for x in {y for e in s2.trace if e[0] == "if" for y in walk(e[1]) if y[:1] == ("eq0",)}
                        if pl(x) in (pl(("eq0", sub(length(atom(E_)), t))), pl(("eq0", sub(t, length(atom(E_))))))]
                if b:
                    forms.add("found")
                    if True not in same or False not in past:
                        bad.append("a name is found without being equal to an entry")
                else:
                    forms.add("missing")
                    if not any(e[0] == "if" and e[2] and pl(e[1]) == pl(("eq0", size_of(K_))) for e in s2.trace):
                        bad.append("a name is missing though the children were not searched")
                    if False not in same and True not in past:
                        bad.append("a name is missing though it was not compared")
    return forms, bad


def entry_of(P, T, f, v):
    """whether an entry is made of the parameters of a function"""
    if v[0] != "rec":
        return False
    got = {k[-1]: x for k, x in v[2]}
    ft = {x["n"]: x["t"] for x in P.records[T.entry]["fields"]}
    for n, t in ft.items():
        x = got.get(n)
        while isinstance(x, tuple) and x[:1] in (("ctor",), ("trunc",)) and len(x) == 3:
            x = x[2]
        i = [j for j, p in enumerate(f.d["p"]) if kindof(p["t"]) == kindof(t)]
        if len(i) != 1 or x not in (param(f, i[0]), ("in", ("p", f.d["p"][i[0]]["n"]), 0)):
            return False
    return len(ft) == 3


def kindof(t):
    return "name" if "string" in t else "number" if t.replace("const ", "").rstrip("& ") in ("int", "unsigned int") else "id"


HIT, AT, EQ = ("node", ("hit",)), ("hit", "index"), ("hit", "equal")


def adds(P, R, T, f):
    rule, outs = judged(P, R, T, f)
    forms, bad = set(), []
    for k, st, v in outs:
        if k != "r":
            continue
        q = Path(T, P, st, v)
        b = st.decide(v) if v is not None else None
        if b is None:
            bad.append("what is returned cannot be followed")
            continue
        ch = q.V.changed()
        rc = q.recs(T.ins)
        made = [e[1] for e in q.V.events("alloc")]
        if not b:
            forms.add("refused")
            if st.decide(EQ) is not True or ch or rc or made or not q.root_kept():
                bad.append("an entry is refused though its name is free, or after a change")
            continue
        if st.decide(EQ) is not False:
            bad.append("an entry is added though its name may be taken")
            continue
        if st.decide(("eq0", HIT)) is True:
            forms.add("first")
            p = ("node", q.root())
            es = q.V.seq(p, T.E)
            if rc or len(made) != 1 or q.root() != made[0] or not es or len(es[1]) != 1 or es[1][0][0] != "one" or not entry_of(P, T, f, es[1][0][1]):
                bad.append("the first entry does not get a new top of its own")
        else:
            forms.add("added")
            x = rc[0] if len(rc) == 1 else None
            ent = x and arg_of(P, x[1], x[2], lambda t: t.replace("const ", "").rstrip("& ") == T.entry)
            if x is None or ch or made or HIT not in x[2] or INVALID not in x[2] or not ent or not entry_of(P, T, f, ent[0]):
                bad.append("the new entry is not put where its name belongs")
    return forms, bad


def gives(P, R, T, f, taking):
    """looking up or removing"""
    rule, outs = judged(P, R, T, f)
    forms, bad = set(), []
    E_ = ("in", T.en(HIT), 0)
    item = ("item", E_, AT)
    for k, st, v in outs:
        if k != "r":
            continue
        q = Path(T, P, st, v)
        b = st.decide(v) if v is not None and v != I(0) else False
        if v == ("fld", item, T.name) or b is None and not taking and any(x == item for x in walk(v)):
            b = True
        rc = q.recs(T.bal)
        rep = q.V.events("rep")
        if b is None:
            bad.append("what is returned cannot be followed")
            continue
        if not b:
            forms.add("missing")
            diff = any(x[:1] == ("cmp",) and st.decide(("eq0", x)) is False for e in st.trace for x in walk(e))
            if st.decide(EQ) is not False and st.decide(("eq0", HIT)) is not True and not (diff and not taking):
                bad.append("an entry that is there is not found")
            if rc or rep or q.V.changed():
                bad.append("a missing name changes the tree")
            continue
        forms.add("found")
        if st.decide(EQ) is not True or st.decide(("eq0", HIT)) is not False:
            bad.append("an entry is found though the name may not be there")
        for i, p in enumerate(f.d["p"]):
            if not p["t"].endswith("&") or p["t"].startswith("const"):
                continue
            fs = [x["n"] for x in P.records[T.entry]["fields"] if kindof(x["t"]) == kindof(p["t"])]
            x = st.env.get(("p", p["n"]))
            while isinstance(x, tuple) and x[:1] in (("ctor",), ("trunc",)) and len(x) == 3:
                x = x[2]
            if x != ("fld", item, fs[0]):
                bad.append("%s is not that of the entry found" % p["n"])
        if taking:
            if len(rep) != 1 or rep[0][1][0] != HIT or rep[0][1][1] != AT:
                bad.append("the entry found is not the one taken out")
            if len(rc) != 1 or ("node", ("hole",)) not in rc[0][2]:
                bad.append("the node that lost an entry is not balanced")
        elif rc or rep or q.V.changed():
            bad.append("looking up changes the tree")
    return forms, bad


def header(st):
    """numbers in the header that changed"""
    return {l: v for l, v in st.env.items() if l[0] == "d" and l[1][0] == "lin" and any(x == ("obj", "this") for x in walk(l[1])) and v != ("in", l, 0)}


def frees(P, R, T, get, put):
    """the list of free pages"""
    bad, forms = [], set()
    start = count = nxt = page = None
    _, outs = judged(P, R, T, get)
    for k, st, v in outs:
        if k != "r":
            continue
        h = header(st)
        grown = [e for e in st.trace if e[0] == "resize"]
        w = [e for e in st.trace if e[0] == "wfree"]
        if grown:
            forms.add("grow")
            size = [x for x in walk(grown[0][1]) if x[:1] == ("call",)]
            d = size and sub(grown[0][1], size[0])
            old = v
            while old[0] == "trunc":
                old = old[2]
            page = d if size and d[0] == "int" else None
            if len(grown) != 1 or h or w or not size or d[0] != "int" or d[1] <= 0 or old != ("op", "/", size[0], d):
                bad.append("a new page is not the one the stream grows by")
            empty = [e[1] for e in st.trace if e[0] == "if" and e[2] and e[1][0] == "eq0"]
            if not any(x[1][:1] == ("lin",) and x[1][1] == -0xffffffff for x in empty):
                bad.append("a page is added though there may be free ones")
            continue
        forms.add("reuse")
        if v[0] != "in" or v[1] not in h or h[v[1]][:1] != ("kept",) or h[v[1]][2] != v or len(h) != 2:
            bad.append("the first free page is not taken off the list")
            continue
        start, nxt = v[1], h[v[1]][1]
        count = [l for l in h if l != start][0]
        prv = [x for x in T.pages_fields if x != nxt][0]
        if h[count] != sub(("in", count, 0), I(1)):
            bad.append("the number of free pages is not reduced by one")
        n2 = h[start]
        if st.decide(("eq0", sub(n2, INVALID))) is not True:
            if len(w) != 1 or w[0][1] != n2 or dict(w[0][2]) != {nxt: ("kept", nxt, n2), prv: INVALID}:
                bad.append("the next free page does not become the first of the list")
        elif w:
            bad.append("a page is written that is not on the list")
    if start is None:
        return forms, bad + ["no free page is ever used again"]
    prv = [x for x in T.pages_fields if x != nxt][0]
    num = param(put, 0)
    S0 = ("in", start, 0)
    _, outs = judged(P, R, T, put)
    for k, st, v in outs:
        if k != "r":
            continue
        h = header(st)
        rs = [e for e in st.trace if e[0] == "resize"]
        w = {e[1]: dict(e[2]) for e in st.trace if e[0] == "wfree"}
        if rs:
            size = [x for e in st.trace if e[0] == "if" for x in walk(e[1]) if x[:1] == ("call",)]
            if size and page is not None:
                past = sub(sub(size[0], scale(num, page[1])), page)
                eqs = [e[1][1] for e in st.trace if e[0] == "if" and e[2] and e[1][0] == "eq0"]
                if add(past, page) in eqs or scale(add(past, page), -1) in eqs:
                    continue        # a page in use lies within the stream
                if past not in eqs and scale(past, -1) not in eqs or rs[0][1] != scale(num, page[1]):
                    bad.append("pages that are in use are cut off")
            forms.add("shrink")
            if h or w or len(rs) != 1 or not size:
                bad.append("a page is cut off and kept on the list")
            continue
        forms.add("give back")
        if h != {start: num, count: add(("in", count, 0), I(1))}:
            bad.append("a page given up does not become the first of the list")
        want = {num: {nxt: S0, prv: INVALID}}
        if st.decide(("eq0", sub(S0, INVALID))) is not True:
            want[S0] = {nxt: ("kept", nxt, S0), prv: num}
        if {a: b for a, b in w.items()} != want and not (st.decide(("eq0", sub(S0, INVALID))) is True and w == {num: {nxt: INVALID, prv: INVALID}}):
            bad.append("the links of the free pages are wrong")
    return forms, bad


class Visit(Judge):
    """what a walk over the tree, or a function that collects by one, looks at"""
    def __init__(s, P, T, good=()):
        Judge.__init__(s, P, T)
        s.good = good
        s.see = {f.key for f in P.methods_of(T.node) if f.body and "vector" in f.d["ret"]}

    def inline(s, eng, f, ev):
        return f.key not in s.T.adders and Judge.inline(s, eng, f, ev)

    def on_iter(s, eng, st, node, fr):
        st.emit(("iter", node.get("l")))

    def on_leave(s, eng, st, node, fr, kind):
        st.emit(("leave",))

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "d" and loc[1][0] == "lin" and any(x == ("obj", "this") for x in walk(loc[1])):
            st.emit(("head", loc, val))
        Judge.on_store(s, eng, st, loc, val, node, fr)

    def compare(s, eng, st, ev):
        if ev.obj[0] == "p":
            st.emit(("cb", tuple(ev.args)))
            return [(st, I(0))]
        return Judge.compare(s, eng, st, ev)

    def special(s, eng, st, ev):
        k = ev.key
        if k in s.T.adders:
            st.emit(("add", tuple(ev.args), ev.where))
            return [(st, ("added",) + st.fresh(ev.where))]
        if k in s.T.rec:
            lam = [x for x in ev.args if x[:1] == ("lam",)]
            if lam:
                marks = [("mark", i) for i in range(3)]
                out = []
                for q, v in eng.run_callback(st.copy(), ev, lam[0], marks):
                    new = [(l, x) for l, x in q.env.items() if x[:1] == ("cat",) and x != st.env.get(l) and l[0] != "m"]
                    ok = len(new) == 1 and len(new[0][1][1]) == 1 and new[0][1][1][0][0] == "one" and collected(s.P, s.T, s.P.funcs[next(k for k in lam[0][1] if k in s.P.funcs)], new[0][1][1][0][1])
                    if ok:
                        q.env[new[0][0]] = atom(("all",))
                    q.emit(("walk", k, ev.args[0], ok))
                    out.append((q, I(0)))
                return out
        return Judge.special(s, eng, st, ev)

    def on_call(s, eng, st, ev):
        if ev.key in s.see and ev.obj is not None:
            st.emit(("look", s.E_or_K(ev), ev.obj))
        return Judge.on_call(s, eng, st, ev)

    def E_or_K(s, ev):
        f = s.P.funcs[ev.key]
        got = {PR.strip_t(n["f"]) for n in f.nodes() if n.get("k") == "mem"}
        return s.T.E if s.T.E in got else s.T.K


def collected(P, T, cb, v):
    """whether what a callback keeps is the entry it was given"""
    if v[0] != "rec":
        return False
    got = {k[-1]: x for k, x in v[2]}
    for x in P.records[T.entry]["fields"]:
        y = got.get(x["n"])
        while isinstance(y, tuple) and y[:1] in (("ctor",), ("trunc",)) and len(y) == 3:
            y = y[2]
        i = [j for j, p in enumerate(cb.d["p"]) if kindof(p["t"]) == kindof(x["t"])]
        if len(i) != 1 or y != ("mark", i[0]):
            return False
    return True


def fields_of(T, P, args):
    """(element, whether all its fields are passed where their kind belongs)"""
    src = set()
    for a in args:
        while isinstance(a, tuple) and a[:1] in (("ctor",), ("trunc",)) and len(a) == 3:
            a = a[2]
        if a[:1] == ("fld",) and len(a) == 3:
            src.add((a[1], a[2]))
        elif a[:1] == ("in",) and a[1][0] == "m" and a[1][1][0] == "d":
            src.add((a[1][1][1], a[1][2]))
        else:
            return None
    base_ = {b for b, _ in src}
    names = {f for _, f in src}
    if len(base_) != 1 or names != {x["n"] for x in P.records[T.entry]["fields"]}:
        return None
    return base_.pop()


def walks(P, R, T, f):
    """a walk hands out every entry of a node and goes on to every child"""
    n = param(f, [i for i, p in enumerate(f.d["p"]) if p["t"].endswith("*")][0])
    _, outs = judged2(P, R, T, f)
    forms, bad = set(), []
    for k, st, v in outs:
        if k != "r":
            continue
        V = View(T, st)
        looks = {e[1] for e in st.trace if e[0] == "look" and e[2] == ("d", n)}
        if T.E not in looks:
            bad.append("the entries of a node can be passed over")
        if T.K not in looks and st.decide(("eq0", size_of(("in", T.ch(n), 0)))) is not True:
            bad.append("the children of a node can be passed over")
        if any(e[0] == "leave" for e in st.trace):
            bad.append("the entries or children that follow can be passed over")
        tr = [e for e in st.trace if e[0] in ("iter", "cb", "rec")]
        for i, e in enumerate(tr):
            if e[0] != "iter":
                continue
            nx = tr[i + 1] if i + 1 < len(tr) else ("end",)
            if nx[0] == "cb":
                el = fields_of(T, P, nx[1])
                if el is None or V.plain(("x", ("in", T.en(n), 0))) [1] not in [V.plain(x) for x in walk(el)]:
                    bad.append("what is handed out is not an entry of the node")
                forms.add("entries")
            elif nx[0] == "rec" and nx[1] == f.key:
                if not any(x == ("in", T.ch(n), 0) for x in walk(V.plain(nx[2]))):
                    bad.append("the walk goes on to something that is no child")
                forms.add("children")
            else:
                bad.append("an entry or child can be passed over")
    for w in ("entries", "children"):
        if w not in forms:
            bad.append("the %s are not walked" % w)
    return forms, bad


def judged2(P, R, T, f):
    st = State()
    for p in f.d["p"]:
        if p["t"].endswith("*"):
            st.assume(("eq0", ("in", ("v", 0, p["id"], p["n"]), 0)), False)
    rule = Visit(P, T)
    outs, _ = R.engine(P, rule, f, st=st)
    return rule, outs


def rebuilds(P, R, T, f):
    """starting the tree anew from all its entries"""
    rule, outs = judged2(P, R, T, f)
    forms, bad = set(), []
    top = ("node", ("in", T.root, 0))
    for k, st, v in outs:
        if k != "r":
            continue
        tr = [e for e in st.trace if e[0] in ("walk", "wipe", "resize", "head", "add", "iter", "put")]
        kinds = [e[0] for e in tr]
        if "wipe" not in kinds:
            forms.add("left")
            if st.decide(("eq0", top)) is not True and ("resize" in kinds or "head" in kinds):
                bad.append("the pages are given up while nodes are in memory")
            continue
        forms.add("anew")
        w = [e for e in tr if e[0] == "walk"]
        if len(w) != 1 or kinds.index("walk") > kinds.index("wipe") or not w[0][3] or w[0][2] != top:
            bad.append("not every entry is kept before the nodes are given up")
            continue
        if set(kinds[:kinds.index("wipe")]) & {"put", "resize", "head", "add"}:
            bad.append("the stored tree is changed before everything was read")
        g = P.funcs[w[0][1]]
        if not any(p["t"].startswith("const") and p["t"].endswith("*") for p in g.d["p"]):
            bad.append("reading the entries can change the nodes that are given up only if all can be read")
        first = kinds.index("add") if "add" in kinds else len(kinds)
        head = {e[1]: e[2] for e in tr[:first] if e[0] == "head"}
        if any(x in ("head", "resize", "wipe") for x in kinds[first:]):
            bad.append("the new tree is reset while it is filled")
        if head.get(T.root) != INVALID or len(head) != 3 or sorted(map(str, head.values())) != sorted(map(str, (INVALID, INVALID, I(0)))) or [e[1] for e in tr[:first] if e[0] == "resize"] != [I(0)]:
            bad.append("the new tree does not start empty")
        if any(e[0] == "leave" for e in st.trace[st.trace.index(tr[kinds.index("wipe")]):]):
            bad.append("entries that were kept can be passed over")
        rest = [e for e in tr[kinds.index("wipe"):] if e[0] in ("iter", "add")]
        for i, e in enumerate(rest):
            if e[0] == "iter":
                nx = rest[i + 1] if i + 1 < len(rest) else ("end",)
                el = fields_of(T, P, nx[1]) if nx[0] == "add" else None
                if el is None or not any(x == ("all",) for x in walk(el)):
                    bad.append("an entry that was kept is not added again")
                else:
                    forms.add("added")
    if "anew" in forms and "added" not in forms:
        bad.append("the entries are not added again")
    return forms, bad


@rule("D08")
def check(P, R):
    """Every operation on the tree of a directory is judged by what it does to the *sequence* of entries.  The
    entries and the child pages of a node are symbolic sequences; each path of an operation is turned into what the
    nodes it touched hold at the end, as stretches of what they held before.  Putting an entry into a node, with or
    without a split, must leave the entries of the node, the one handed to the parent and those of the new node equal
    to the old entries with the new one at the place of the first that is not smaller; balancing must leave left,
    separator and right in the same order, take the separator and the page of a node given up out of the parent, tell
    moved children their parent and free and forget exactly the page given up; a top is given up only for its only
    child; taking an entry out puts the nearest one of a leaf in its place; a search goes on only in the child
    between the neighbours of the name; pages given up and used again keep the list of free pages linked; walking
    visits every entry and child, and starting the tree anew happens only after every entry was read."""
    T = Roles(P, R)
    if not T.ok:
        R.need(0, "a directory whose entries are kept in a tree of pages")
        return
    m = roomy(P, T)
    R.need(0 if m is None else 1, "how many entries a page has room for")
    if m is None:
        return
    big = I(int(m))
    T.adders = {f.key for c in [T.C] + list(P.all_bases(T.C)) for f in P.methods_of(c) if len(f.d["p"]) == 3
                and [kindof(p["t"]) for p in f.d["p"]] == ["name", "id", "number"] and not any(p["t"].endswith("&") and not p["t"].startswith("const") for p in f.d["p"])}
    n = 0

    def say(kind, f, got, must, what):
        if got is None:
            R.need(0, "%s in %s" % (what, f.sn))
            return
        forms, bad = got
        miss = [x for x in must if x not in forms]
        for w in miss:
            bad = bad + ["no way through it is a case of \"%s\"" % w]
        R.ob(kind, f.sn, not bad, f.where, "%s: %s" % (what, ", ".join(sorted(forms)) if not bad else bad[0]), [b[:400] for b in sorted(set(bad))[:6]])

    for which in ("ins", "bal", "rep", "find", "alloc", "free"):
        R.need(len(getattr(T, which)), "the part of a tree that does \"%s\"" % which)
    for f in T.ins.values():
        for inner in (False, True):
            say("insert" + ("-inner" if inner else "-leaf"), f, inserts(P, R, T, f, inner, big), ("room", "split", "top"), "putting an entry into %s" % ("a node with children" if inner else "a leaf"))
    for f in T.bal.values():
        for inner in (False, True):
            say("balance" + ("-inner" if inner else "-leaf"), f, balances(P, R, T, f, inner, big), ("kept",) + (("top",) if inner else ()), "balancing %s" % ("a node with children" if inner else "a leaf"))
    for f in T.rep.values():
        for inner in (False, True):
            say("remove" + ("-inner" if inner else "-leaf"), f, takes(P, R, T, f, inner), ("replaced",) if inner else ("direct",), "taking an entry out of %s" % ("a node with children" if inner else "a leaf"))
    for f in T.find.values():
        say("search", f, finds(P, R, T, f), ("nothing", "found", "missing"), "looking for a name")
        for g in callers(P, f):
            r = P.reach([g])
            if any(k in r for k in T.ins):
                say("add", g, adds(P, R, T, g), ("refused", "first", "added"), "adding an entry")
            elif any(k in r for k in T.rep):
                say("take", g, gives(P, R, T, g, True), ("found", "missing"), "removing an entry")
            else:
                say("get", g, gives(P, R, T, g, False), ("found", "missing"), "looking up an entry")
            n += 1
    R.need(n, "operations that look for a name")
    R.need(len(T.pages), "the links of free pages")
    if T.pages:
        for a in T.alloc.values():
            for b in T.free.values():
                say("free list", b, frees(P, R, T, a, b), ("reuse", "grow", "give back"), "pages taken and given up")
    ws = [f for f in T.rec.values() if f.key not in T.ins and f.key not in T.bal and any("FunctionRef" in p["t"] or "function<" in p["t"] for p in f.d["p"])]
    R.need(len(ws), "a walk over all entries")
    for f in ws:
        say("walk", f, walks(P, R, T, f), (), "walking the tree")
    rb = []
    for f in P.methods_of(T.C):
        if f.body and not f.d.get("lambda") and f.key not in T.cuts and any(k in T.rec and k not in T.ins and k not in T.bal for k in [t.key for x in f.nodes() if x.get("k") == "call" for t in P.targets(x)]):
            if any(x.get("n", "").endswith("resize") for k in P.reach([f]) for x in P.funcs[k].nodes() if x.get("k") == "call" and k not in T.cuts):
                rb.append(f)
    for f in rb:
        got = rebuilds(P, R, T, f)
        if "anew" in got[0]:
            say("rebuild", f, got, ("added",), "starting the tree anew")
    R.notes.append("a page has room for %s entries" % m)
