"""D09: what a path names is what is acted on; what is not there is not acted on with success"""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY
from .tree import Tree, mutator_names, class_type, directory_type, ENTRY, LOOKUP
from .locks import ops_roots
from .records import param
from .common import *


class Walk(Tree):
    """as Tree, also through the functions that look names up"""
    max_states = 600
    loop_iters = 1

    def __init__(s, P, fam, prims, reach, looks, walk):
        super().__init__(P, fam, prims, reach)
        s.looks, s.walk = looks, walk

    def inline(s, eng, f, ev):
        return super().inline(eng, f, ev) or base(f.n) not in LOGGY and f.key in s.looks

    def on_call(s, eng, st, ev):
        if ev.kind == "call" and ev.key in s.walk:
            n = st.fresh(ev.where)
            v = ("walked",) + n
            st.emit(("walk", v, tuple(ev.args), ev.where))
            a = st.copy()
            a.emit(("missed", v, ev.where))
            st.assume(("eq0", v), False)
            return [(st, v), (a, NULL)]
        if ev.kind == "call" and ev.base in ("get_parent_id", "set_parent_id") and s.fam_call(ev):
            p = s.pointer(ev.obj)
            if ev.base == "get_parent_id":
                return [(st, ("parentof", p))]
            st.emit(("setp", p, ev.args[0], ev.where))
            return [(st, I(0))]
        if ev.args and len(ev.args) == 1 and (ev.kind == "ctor" or ev.base == "operator=") and "::PODArray::" in ev.name and not isinstance(ev.args[0], str):
            # copies of ids
            v = ev.args[0]
            if v is not None and v[0] in ("id", "idof", "parentof", "newid", "in", "fobj"):
                if ev.kind == "call" and ev.obj is not None:
                    eng.store(st, ev.obj, v, ev.node, ev.fr)
                return [(st, v)]
        return super().on_call(eng, st, ev)

    def on_iter(s, eng, st, node, fr):
        if fr.depth == 0:
            st.emit(("turn",))

    def entry(s, eng, st, ev, b):
        out = super().entry(eng, st, ev, b)
        for a, v in out:
            if b == "add_entry" and v == FALSE:
                a.emit(("refused", a.trace[-1][1], ev.where))
            elif a.trace and a.trace[-1][0] == "none":
                a.emit(("missed", a.trace[-1][1], ev.where))
        return out


def walkers(P, looks):
    """what follows a path through directories: calls itself for what links point to, and looks names up"""
    return {f.key: f for k in looks for f in [P.funcs[k]] if f.body and not f.d.get("lambda") and any(n.get("k") == "call" and n.get("f") == k for n in f.nodes())}


def seen(P, R):
    fam, prims, reach = mutator_names(P, R)
    lk = {f.key for f in P.funcs.values() if f.scls in fam and base(f.n) in LOOKUP | ENTRY}
    looks = P.reaching(lambda n: n.get("f") in lk)
    return fam, prims, reach, looks, walkers(P, looks)


def ident(p):
    return p[1] if p and p[0] == "fobj" else ("idof", p)


def known_id(v):
    return v is not None and v[0] in ("id", "idof", "parentof", "newid", "fobj") or v is not None and v[0] == "in" and v[1][0] == "g"


def args_of(f, args):
    """(id, directory, names, depth) of the arguments of a walker, told by type"""
    i = d = n = k = None
    for p, a in zip(f.d["p"], args):
        t = p["t"]
        if t == "int" or t == "unsigned int":
            k = a
        elif "unique_ptr" in t or "shared_ptr" in t or t.endswith("*"):
            d = a
        elif "string_view" in t or "Span" in t or "vector" in t:
            n = a
        else:
            i = a
    return i, d, n, k


def one_part(st):
    """the path is known to have a single component"""
    return any(t[:2] == ("call", "size") and iv == (1, 1) for t, iv in st.iv.items()) or any(
        t[:2] == ("call", "size") and st.rng(t) == (1, 1) for iv in st.iv for t in subterms(iv))


def nth_of(name):
    """which component a name is: 'first', 'last' or None where that is not known"""
    if name[0] == "in" and name[1][0] == "el" or name[:2] == ("call", "front"):
        return "first"
    if any(x[:2] == ("call", "back") for x in subterms(name)):
        return "last"
    return None


def reports(st, k, v):
    """the error number reported: positive, or 0 for success, or None"""
    if k == "r":
        if v is None or v[0] != "int":
            return 0 if v is None or st.rng(v)[1] is None or st.rng(v)[1] >= 0 else None
        return max(0, -v[1])
    if k == "t" and v and v[0].endswith("VFSException"):
        n = {x[1] for x in subterms(v[2]) if x[:1] == ("int",)}
        return n.pop() if len(n) == 1 else None
    return None


def judge_op(P, f, outs, W, root, dirt):
    bad, n = [], 0
    for k, st, v in outs:
        r = reports(st, k, v)
        last = None
        slots = {}
        for i, e in enumerate(st.trace):
            if e[0] in ("got", "none", "add", "rm"):
                n += 1
                d, name = e[1]
                last = e[1]
                if e[0] in ("got", "add", "rm"):
                    slots[e[2]] = (e[1], e[3])
                if d == ("fobj", root) and nth_of(name) == "first" and not one_part(st):
                    bad.append((f.where, "the first component alone is looked up of a path that may have more"))
                elif d == ("fobj", root) and nth_of(name) == "last" and not one_part(st):
                    bad.append((f.where, "the last component is looked up in the top directory whatever comes before it"))
            elif e[0] == "open":
                if e[1] in slots and e[2][:1] == ("type",) and e[2] != slots[e[1]][1]:
                    bad.append((e[3], "an object is opened with the type of another entry"))
                if e[1] == root and e[2] != dirt:
                    bad.append((e[3], "the top directory is opened as something else"))
            elif e[0] == "walk":
                i_, d, names, depth = args_of(next(iter(W.values())), e[2])
                if known_id(i_) and d is not None and i_ != ident(d) and not (d[0] in ("havoc", "in")):
                    bad.append((e[3], "the walk is given the id of another directory than the one it starts in"))
                if last is not None and d is not None and d != last[0] and not (d[:1] == ("fobj",) and d[1] == root):
                    bad.append((e[3], "the target of a link is not followed from the directory the link is in"))
                elif last is not None and d is not None and d[:1] == ("fobj",) and d[1] == root and last[0] != d and any(x[:1] == ("fobj",) and x[1][:1] == ("id",) for x in subterms(names or ())):
                    bad.append((e[3], "the target of a link is not followed from the directory the link is in"))
                if names is not None:
                    for x in subterms(names):
                        if x[:2] == ("call", "MakeConstSpan") and len(x) == 4:
                            m = x[3]
                            sz = [t for t in subterms(m) if t[:2] == ("call", "size")]
                            if sz and sub(m, sz[0]) != I(-1):
                                bad.append((e[3], "the walk does not stop right before the last component"))
            elif e[0] == "setp":
                p, val = e[1], e[2]
                if p[0] == "fobj" and p[1] in slots and known_id(val) and slots[p[1]][0][0][0] != "havoc" and val != ident(slots[p[1]][0][0]):
                    bad.append((e[3], "an object is given another parent than the directory it was found in"))
            elif e[0] in ("missed", "refused"):
                rest = st.trace[i + 1:]
                if e[0] == "missed" and any(x[0] == "add" and x[1] == e[1] for x in rest):
                    continue
                if any(x[0] in ("got", "none", "add", "rm") and x[1] == e[1] for x in rest):
                    continue
                n += 1
                w = "what could not be found" if e[0] == "missed" else "a name that was taken"
                if r == 0:
                    bad.append((e[2], "success is reported for " + w))
                elif r is not None and not any(x[0] in ("missed", "refused", "open", "walk") for x in rest):
                    want = 2 if e[0] == "missed" else 17
                    if r != want:
                        bad.append((e[2], "error %d is reported for %s" % (r, w)))
    return bad, n


def judge_walker(P, f, outs, W, dirt, symt):
    """one turn, from a directory on"""
    L, D, N, K = args_of(f, [param(f, i) for i in range(len(f.d["p"]))])
    bad, n = [], 0
    for k, st, v in outs:
        tr = st.trace
        cur, slot, link, moved, set_, turns = D, None, None, False, False, 0
        missed = None
        for e in tr:
            if e[0] == "turn":
                turns += 1
            elif e[0] in ("got", "none"):
                n += 1
                if e[1][0] != cur:
                    bad.append((f.where, "a component is looked up in another directory than the one the walk has come to"))
                slot, moved = e, True
                if e[0] == "got":
                    where, cur = cur, ("fobj", e[2])
            elif e[0] == "open":
                if slot is not None and e[1] == slot[2]:
                    if e[2] != slot[3]:
                        bad.append((e[3], "an entry is opened with another type than its own"))
                elif e[1] == ("parentof", cur):
                    if e[2] != dirt:
                        bad.append((e[3], "the directory above is opened as something else"))
                    cur, moved = ("fobj", e[1]), True
                elif e[1][0] in ("id", "idof", "parentof"):
                    bad.append((e[3], "the walk goes on in what the component does not name"))
            elif e[0] == "setp":
                set_ = True
                if slot is not None and e[1] == ("fobj", slot[2]) and e[2] != L and e[2] != ident(slot[1][0]):
                    bad.append((e[3], "an object is given another parent than the directory it was found in"))
            elif e[0] == "walk":
                i_, d, names, depth = args_of(W[f.key], e[2])
                link = e
                if slot is None or d != slot[1][0]:
                    bad.append((e[3], "the target of a link is not followed from the directory the link is in"))
                if i_ is not None and i_ != L and known_id(i_) and i_ != ident(d):
                    bad.append((e[3], "the walk is given the id of another directory than the one it starts in"))
                if K is not None:
                    step = sub(depth, K) if depth is not None else None
                    if step is None or step[0] != "int" or step[1] < 1:
                        bad.append((e[3], "links are followed without counting them"))
                    hi = st.rng(K)[1]
                    if hi is None or hi > 1000:
                        bad.append((e[3], "links are followed without a limit"))
                if slot is not None and symt is not None and st.decide(("eq0", sub(slot[3], symt))) is not True:
                    bad.append((e[3], "what is followed may be no link"))
                cur = e[1]
            elif e[0] == "missed":
                missed = e
        if k != "r":
            continue
        null = v is not None and v[0] == "int" and v[1] == 0 or v == NULL
        if null:
            if missed is None:
                bad.append((f.where, "a path is said to lead nowhere though every component was found"))
            continue
        if missed is not None:
            bad.append((missed[2], "the walk goes on past a component that was not found"))
            continue
        if K is not None and (st.rng(K)[0] or 0) > 0:
            bad.append((f.where, "a chain of links over the limit is taken for followed"))
        if v != cur:
            bad.append((f.where, "the walk ends elsewhere than where the last component leads"))
            continue
        if slot is not None and slot[0] == "got":
            if link is None and symt is not None and st.decide(("eq0", sub(slot[3], symt))) is not False:
                bad.append((f.where, "what may be a link is taken for the place it points to"))
            if not set_:
                bad.append((f.where, "the parent of an object is not recorded, so that the way up from it is unknown"))
        if turns and not moved and st.trace and not any(x[:1] == ("call",) and "operator==" in str(x[1]) and ("str", ".") in x and st.decide(x) is True for y in list(st.iv) + list(st.ne) for x in subterms(y)):
            if v == D and st.trace[-1] == ("turn",):
                bad.append((f.where, "a component other than '.' is passed over"))
        if turns and L is not None and L[0] == "in":
            now = st.env.get(L[1])
            if now is not None and known_id(now) and now != ident(cur):
                bad.append((f.where, "the id kept is not that of the directory the walk has come to"))
            if now is None and cur != D:
                bad.append((f.where, "the id of the directory the walk has come to is not kept"))
    return bad, n


def judge_helper(f, outs):
    """a function handing out what a path leads to"""
    bad = []
    for k, st, v in outs:
        if k != "r":
            continue
        last = missed = None
        for e in st.trace:
            if e[0] == "got":
                last = ("fobj", e[2])
            elif e[0] == "walk":
                last = e[1]
            elif e[0] in ("missed", "refused"):
                missed = e
        null = v is not None and v[0] == "int" and v[1] == 0 or v == NULL
        if missed is not None:
            if not null:
                bad.append((missed[2], "an object is handed out for a path that leads nowhere"))
        elif null:
            bad.append((f.where, "a path is said to lead nowhere though every component was found"))
        elif last is not None and v is not None and v[0] in ("fobj", "walked") and v != last:
            bad.append((f.where, "what is handed out is not what the last component leads to"))
    return bad


@rule("D09")
def paths(P, R):
    """Every operation of the full format that looks a name up is run with lookups and additions taken both ways (there, not there), and with the function that follows paths
    taken as finding something or nothing; that function itself (the one that looks names up and calls itself for links) is run for one turn of its loop, starting in any directory.
    Judged are: the directory each lookup is made in, the id and type each object is opened with, where walks start and how many components they take, how links are counted and where they are followed from, the parent each object is given,
    and the result reported whenever something was not found or a name was taken."""
    fam, prims, reach, looks, W = seen(P, R)
    R.need(len(W), "function that follows paths")
    dirt = directory_type(P, fam)
    R.need(dirt is not None, "the type number of directories")
    n = 0
    for f in sorted(W.values(), key=lambda f: f.n):
        R.fn(f)
        outs, eng = R.engine(P, Walk(P, fam, prims, reach, looks, W), f)
        casts = {PR.strip_t(e[2]).rstrip(" *") for k, st, v in outs if any(x[0] == "walk" for x in st.trace) for e in st.trace if e[0] == "cast"}
        syms = [c for c in casts if class_type(P, c) not in (None, dirt)]
        symt = class_type(P, syms[0]) if len(syms) == 1 else None
        bad, m = judge_walker(P, f, outs, W, dirt, symt)
        n += m
        R.ob("walk", f.sn, not bad, bad[0][0] if bad else f.where, "; ".join(sorted({b[1] for b in bad})))
    R.need(n, "components looked up")
    kinds = {f.d["ret"] for f in W.values()}
    for k in sorted(looks):
        f = P.funcs[k]
        if f.body and k not in W and f.d["ret"] in kinds and not f.d.get("lambda"):
            R.fn(f)
            outs, eng = R.engine(P, Walk(P, fam, prims, reach, looks, W), f)
            bad = judge_helper(f, outs)
            R.ob("lookup", f.sn, not bad, bad[0][0] if bad else f.where, "; ".join(sorted({b[1] for b in bad})))
    n = 0
    cls = {f.scls for f in W.values()}
    for f in sorted(ops_roots(P), key=lambda f: f.n):
        if f.key not in looks or f.scls not in cls or f.key in W:
            continue
        outs, eng = R.engine(P, Walk(P, fam, prims, reach, looks, W), f)
        R.fn(f)
        roots = {e[1] for k, st, v in outs for e in st.trace if e[0] == "open" and e[1][0] == "in" and e[1][1][0] == "g"}
        root = sorted(roots, key=str)[0] if len(roots) == 1 else None
        bad, m = judge_op(P, f, outs, W, root, dirt)
        if not m:
            continue
        n += m
        R.ob("operation", f.sn, not bad, bad[0][0] if bad else f.where, "; ".join(sorted({b[1] for b in bad})))
    R.need(n, "operations that look names up")
