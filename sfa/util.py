"""Shared rule helpers."""
from collections import defaultdict
from . import prog as PR
from .engine import *


def base(n):
    n = PR.strip_t(n or "")
    if "operator" in n:
        return n[n.rfind("operator"):]
    return n.split("::")[-1]


def callers_map(P):
    m = P.__dict__.get("_callers")
    if m is None:
        m = defaultdict(set)
        for f in P.funcs.values():
            for n, ts in P.calls(f):
                for t in ts:
                    m[t.key].add(f.key)
        P._callers = m
    return m


def callers(P, f):
    return [P.funcs[k] for k in sorted(callers_map(P).get(f.key, ())) if k != f.key]


def funcs_with_call(P, pred):
    out = []
    for f in P.funcs.values():
        for n in f.nodes():
            if n.get("k") in ("call", "ctor") and n.get("n") and pred(n):
                out.append(f)
                break
    return out


def judged_with_lift(P, f, judge, inl, levels=3):
    """judge(f) -> list of failures.  A failure seen with f as the root counts only if it is also
    there in the context of some caller (the callers having the missing facts is as good).
    inl(g): keys of the functions that were followed when g was judged; a caller that did not follow
    the call (a virtual one, say) supplies no context."""
    fails = judge(f)
    if not fails:
        return []
    todo = [f]
    seen = {f.key}
    for lv in range(levels):
        nxt = []
        for g in todo:
            cs = [c for c in callers(P, g) if c.key not in seen]
            if f.d.get("lambda") or g.d.get("lambda"):
                if g.owner is not None and g.owner.key not in seen:
                    cs = [g.owner]
            if not cs:
                return fails
            for c in cs:
                seen.add(c.key)
                fl = judge(c)
                if not fl and f.key not in inl(c):
                    return fails
                if fl:
                    nxt.append(c)
        if not nxt:
            return []
        todo = nxt
    return fails


LOGGY = ("log_v2", "log", "vlog", "warn_if_key_not_random", "StrFormat", "FPrintF", "PrintF")


def low(st, e):
    """a lower bound of e, using the path's facts about linear expressions one at a time"""
    best = st.rng(e)[0]
    if best >= 0:
        return best
    c, d = lin(e)
    for sh, (lo, hi) in st.iv.items():
        if len(sh) < 2 or not any(k in d for k, _ in sh):
            continue
        f = mklin(0, dict(sh))
        if lo != -INF:
            best = max(best, lo + st.rng(sub(e, f))[0])
        if hi != INF:
            best = max(best, -hi + st.rng(add(e, f))[0])
    return best


def covered(st, regions, p, n):
    """is [p, p+n) inside the union of the regions [(q, m)] (by linear comparison)?"""
    end = add(p, n)
    cur = p
    for _ in range(len(regions) + 1):
        if low(st, sub(cur, end)) >= 0:
            return True
        adv = None
        for q, m in regions:
            if root_of(q) == root_of(cur) and low(st, sub(cur, q)) >= 0:
                e2 = add(q, m)
                d = low(st, sub(e2, cur))
                if d > 0 or (e2 != cur and d >= 0) or e2 == end:
                    if adv is None or low(st, sub(e2, adv)) >= 0:
                        adv = e2
        if adv is None or adv == cur:
            return False
        cur = adv
    return low(st, sub(cur, end)) >= 0


def is_ctor_only_bool(P, field):
    """a bool field only ever set while the object is being constructed: configuration"""
    c = P.__dict__.setdefault("_ctorbool", {})
    if field not in c:
        t = None
        for r in P.records.values():
            for fl in r["fields"]:
                if fl["n"] == field:
                    t = fl["t"]
        ok = t in ("bool", "const bool")
        if ok:
            for f in P.funcs.values():
                if f.d.get("ctor"):
                    continue
                for n in f.nodes():
                    if n.get("k") in ("asg", "inc") and n["a"].get("k") == "mem" and n["a"]["f"] == field:
                        ok = False
        c[field] = ok
    return c[field]


def check_disabled(P, st):
    """does the path run with verification switched off by configuration?"""
    for sh, (lo, hi) in st.iv.items():
        if len(sh) == 1 and sh[0][1] == 1 and lo == hi == 0:
            t = sh[0][0]
            if t[0] == "in" and t[1][0] == "m" and is_ctor_only_bool(P, t[1][2]) and \
                    verification_switch(P, t[1][2]):
                return True
            if t[0] == "in" and t[1][0] == "v" and verification_switch(P, t[1][2:4]):
                return True
    return False


def verification_switch(P, what):
    """is a field, or a parameter (id, name), always the negation of the option that disables verification?"""
    c = P.__dict__.setdefault("_vsw", {})
    if what not in c:
        from .flows import flows
        F = flows(P)
        if isinstance(what, tuple):
            o = [F.param(f, i) for f in P.funcs.values() for i, p in enumerate(f.d["p"])
                 if p["id"] == what[0] and p["n"] == what[1] and p["t"] == "bool"]
            c[what] = bool(o) and all(x == {("set", "disable_verification", True)} for x in o)
        else:
            c[what] = F.field(what) == {("set", "disable_verification", True)}
    return c[what]


def simple(f, limit=60):
    """a small function without loops: worth inlining just for its value"""
    c = getattr(f, "_simple", None) if hasattr(f, "_simple") else None
    d = f.d.get("_simple")
    if d is None:
        n = 0
        loop = False
        for x in f.nodes():
            n += 1
            if x.get("s") in ("for", "while", "do", "rfor"):
                if x["s"] == "do" and x["c"]["k"] == "int":
                    continue
                loop = True
        d = f.d["_simple"] = (n, loop)
    return d[0] <= limit and not d[1]


def reach_names(P, names):
    """functions from which a call of one of these (base names) is reachable"""
    c = P.__dict__.setdefault("_reachn", {})
    k = frozenset(names)
    if k not in c:
        c[k] = P.reaching(lambda n: base(n.get("n") or "") in k)
    return c[k]


def var_defs(f):
    """expressions each local of f is initialised with or assigned"""
    d = f.d.get("_defs")
    if d is None:
        d = defaultdict(list)
        for n in f.nodes():
            if n.get("s") == "decl":
                for v in n["v"]:
                    if v.get("init"):
                        d[v["id"]].append(v["init"])
            elif n.get("k") == "asg" and n["a"].get("k") == "var":
                d[n["a"]["id"]].append(n["b"])
            elif n.get("s") == "rfor" and isinstance(n.get("v"), dict) and n.get("r"):
                d[n["v"].get("id")].append(n["r"])
        f.d["_defs"] = d
    return d


def slice_nodes(f, node):
    """nodes an expression is computed from, through the locals of f (flow-insensitive)"""
    defs = var_defs(f)
    todo, seen = [node], set()
    while todo:
        x = todo.pop()
        for n in PR.walk(x):
            yield n
            if n.get("k") == "var" and n["id"] in defs and n["id"] not in seen:
                seen.add(n["id"])
                todo += defs[n["id"]]


def static_reach(P, names):
    """functions that reach a call of one of these names without going through a virtual call"""
    c = P.__dict__.setdefault("_sreach", {})
    k = frozenset(names)
    if k not in c:
        callers_ = defaultdict(set)
        seed = set()
        for f in P.funcs.values():
            for n, ts in P.calls(f):
                if n.get("n") and base(n["n"]) in k:
                    seed.add(f.key)
                if len(ts) == 1:
                    for t in ts:
                        callers_[t.key].add(f.key)
            if f.d.get("lambda") and f.owner is not None:
                callers_[f.key].add(f.owner.key)
        todo = list(seed)
        while todo:
            x = todo.pop()
            for y in callers_[x]:
                if y not in seed:
                    seed.add(y)
                    todo.append(y)
        c[k] = seed
    return c[k]
