"""Locks: which data is accessed under which lock, in which order locks are taken, and whether they are released."""
import re
from collections import defaultdict
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .common import Ev, events

MUTEX = re.compile(r"\b(absl::Mutex|std::(recursive_|shared_|timed_)*mutex|securefs::Mutex|CriticalSection)\b")
EXT_GUARD = re.compile(r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock)$|^absl::(Mutex|Writer|Reader)\w*Lock$")
NOT_YET = re.compile(r"\b(defer_lock_t|try_to_lock_t)\b")
FREE = ("make_unique", "make_shared")
THROUGH = ("operator*", "operator->", "get", "value", "move", "forward", "addressof", "cast_as", "ref")


def bare(t):
    t = re.sub(r"\b(const|volatile|struct|class)\s+", "", t or "").strip()
    while t.endswith(("&", "*", " ")):
        t = t[:-1].strip()
    return re.sub(r" const$", "", t)


def is_mutex(t):
    return bool(MUTEX.search(bare(t).split("<")[0]))


def lockables(P):
    """classes that are locks themselves (with lock() and unlock()), including what is derived from them"""
    c = P.__dict__.get("_lockables")
    if c is None:
        c = set()
        for r in P.records.values():
            ms = {PR.base_name(m["n"]) for m in r["methods"]}
            if {"lock", "unlock"} <= ms and not guard_like(P, r):
                c.add(r["n"])
                c |= P.all_derived(r["n"])
        P._lockables = c
    return c


def guard_like(P, r):
    """a class whose objects hold a lock of something else while they live"""
    if EXT_GUARD.match(PR.strip_t(r["n"])):
        return True
    ptrs = [f for f in r["fields"] if f["t"].rstrip().endswith(("*", "&")) or EXT_GUARD.match(PR.strip_t(bare(f["t"])))]
    if not ptrs:
        return False
    d = P.funcs.get(r.get("dtor", ""))
    own = bool(d and d.body and not d.d.get("lambda") and any(PR.base_name(x.get("n") or "").lower() in ("unlock", "readerunlock", "writerunlock")
                                    for x in d.nodes() if x.get("k") == "call"))
    return own or any(EXT_GUARD.match(PR.strip_t(bare(f["t"]))) for f in r["fields"])


def family(P, cls):
    """the lock class a type belongs to: the topmost class with lock() and unlock()"""
    ls = lockables(P)
    up = [b for b in P.all_bases(cls) if b in ls]
    return up[-1] if up else cls


def is_guard(P, t):
    t = bare(t)
    if EXT_GUARD.match(PR.strip_t(t)):
        return True
    r = P.record_of(t)
    return bool(r and guard_like(P, r))


def lock_type(P, t):
    b = bare(t)
    if is_mutex(b):
        return "mutex"
    r = P.record_of(b)
    if r and r["n"] in lockables(P):
        return r["n"]
    return None


class Names:
    """canonical names of objects within one function (and the lambdas run inside it)"""

    def __init__(s, P, f):
        s.P = P
        s.f = f
        s.defs = defaultdict(list)
        s.types = {}
        s.params = {}
        for i, p in enumerate(f.d["p"]):
            s.params[p["id"]] = i
            s.types[p["id"]] = p["t"]
        s.bind = {}
        s.collect(f)

    def collect(s, f, seen=None):
        seen = seen if seen is not None else set()
        if f.key in seen:
            return
        seen.add(f.key)
        for x in f.nodes():
            if x.get("s") == "decl":
                for v in x["v"]:
                    s.types[v["id"]] = v["t"]
                    if v.get("init"):
                        s.defs[v["id"]].append(v["init"])
            elif x.get("s") == "rfor" and x.get("var"):
                v = x["var"]
                s.types[v["id"]] = v["t"]
                s.defs[v["id"]].append(None)
            elif x.get("k") == "asg" and x["a"].get("k") == "var":
                s.defs[x["a"]["id"]].append(x["b"])
            elif x.get("k") == "call" and PR.base_name(x.get("n") or "") in ("operator=", "reset", "swap", "emplace"):
                o = x.get("o") or (x.get("a") or [None])[0]
                if o and o.get("k") == "var":
                    s.defs[o["id"]].append(None)
            elif x.get("k") == "lambda":
                g = s.P.funcs.get(x["f"])
                if g:
                    for p in g.d["p"]:
                        s.types[p["id"]] = p["t"]
                    s.collect(g, seen)

    def canon(s, e, depth=0):
        """(root, fields) an expression's object is known by, or None"""
        if not isinstance(e, dict) or depth > 30:
            return None
        k = e.get("k")
        if k == "this":
            return ("this", ())
        if k == "named":
            return e["c"]
        if k == "var":
            i = e["id"]
            if i in s.bind:
                return s.bind[i]
            t = s.types.get(i, e.get("t", ""))
            if "g" in e and e["g"] and i not in s.types:
                return ("g:" + e["n"], ())
            ds = s.defs.get(i, [])
            if i not in s.params and len(ds) == 1 and ds[0] is not None and t.rstrip().endswith(("&", "*")):
                c = s.canon(ds[0], depth + 1)
                if c:
                    return c
            return (("v", i), ())
        if k == "mem":
            b = s.canon(e["b"], depth + 1)
            return (b[0], b[1] + (e["f"],)) if b else None
        if k == "un" and e.get("op") in ("*", "&"):
            return s.canon(e["a"], depth + 1)
        if k in ("cast", "paren", "other") and e.get("a") is not None:
            a = e["a"]
            return s.canon(a[0] if isinstance(a, list) and len(a) == 1 else a, depth + 1)
        if k == "call":
            b = PR.base_name(e.get("n") or "")
            if b in THROUGH:
                o = e.get("o") or (e.get("a") or [None])[0]
                return s.canon(o, depth + 1) if o else None
            # a call of an accessor that only returns one of its object's fields
            g = s.P.funcs.get(e.get("f") or "")
            if g is not None and e.get("o") is not None and not e.get("vt"):
                r = accessor(s.P, g)
                if r:
                    o = s.canon(e["o"], depth + 1)
                    return (o[0], o[1] + r) if o else None
            return None
        if k == "ctor" and (e.get("cp") or len(e.get("a", ())) == 1 and lock_type(s.P, e.get("t", "")) is None):
            return s.canon(e["a"][0], depth + 1) if e.get("a") else None
        return None


def accessor(P, g):
    """fields a method returns a reference to, if that is what it does"""
    c = P.__dict__.setdefault("_accessors", {})
    if g.key not in c:
        c[g.key] = None
        rs = [x for x in g.nodes() if x.get("s") == "return"]
        if g.d.get("ret", "").rstrip().endswith("&") and len(rs) == 1 and not g.d["p"]:
            e = rs[0].get("e")
            fs = []
            while e is not None and e.get("k") in ("mem", "call"):
                if e["k"] == "mem":
                    fs.append(e["f"])
                    e = e["b"]
                elif PR.base_name(e.get("n") or "") in THROUGH:
                    e = e.get("o") or (e.get("a") or [None])[0]
                else:
                    break
            if e is not None and e.get("k") == "this":
                c[g.key] = tuple(reversed(fs))
    return c[g.key]


def acquired(P, names, v):
    """locks a guard declaration takes: list of (canonical name, lock class), or None if it is not a guard"""
    if not is_guard(P, v["t"]):
        g = boxed_guard(P, v["t"])
        if not g:
            return None
        i = v.get("init")
        mk = next((x for x in PR.walk(i) if x.get("k") == "call" and PR.base_name(x.get("n") or "") in (
            "make_unique", "make_optional")), None) if i else None
        return take_args(P, names, mk["a"]) if mk else []
    init = v.get("init")
    while init is not None and init.get("k") == "ctor" and init.get("cp"):
        init = init["a"][0]
    if init is None or init.get("k") not in ("ctor", "call", "list"):
        return []
    return take_args(P, names, init.get("a", ()))


def boxed_guard(P, t):
    """std::optional or std::unique_ptr of a guard"""
    m = re.match(r"^std::(optional|unique_ptr)<", bare(t))
    return bool(m) and any(is_guard(P, a) for a in targs(bare(t))[:1])


def take_args(P, names, args):
    if any(NOT_YET.search(a.get("t", "")) for a in args):
        return []
    if len(args) > 1 and args[1].get("k") in ("int", "bool") and not args[1].get("v") and lock_type(
            P, args[0].get("t", "")) == "mutex":
        return []            # shared
    out = []
    for a in args:
        t = lock_type(P, a.get("t", ""))
        if t is None:
            continue
        c = names.canon(a)
        out.append((c, lock_class(P, a, t)))
    return out


def lock_class(P, a, t):
    if t != "mutex":
        return family(P, t)
    for x in PR.walk(a):
        if x.get("k") == "mem" and is_mutex(x.get("t", "")):
            return x["f"]
        if x.get("k") == "call":
            g = P.funcs.get(x.get("f") or "")
            r = accessor(P, g) if g else None
            if r:
                return r[-1]
    v = next((x for x in PR.walk(a) if x.get("k") == "var"), None)
    return "mutex " + (v["n"] if v else "?")


LATER = re.compile(r"^std::(thread|jthread)$")


class Scope:
    """walks a function with the locks held at each point by live guards"""

    def __init__(s, P, f, visit):
        s.P = P
        s.names = Names(P, f)
        s.visit = visit
        s.lams = {}
        s.stack = []
        s.deferred = set()
        for x in f.nodes():
            if x.get("s") == "decl":
                for v in x["v"]:
                    i = v.get("init")
                    while isinstance(i, dict) and i.get("k") in ("ctor", "cast", "other") and isinstance(
                            i.get("a"), list) and len(i["a"]) == 1:
                        i = i["a"][0]
                    if isinstance(i, dict) and i.get("k") == "lambda" and called(f, v["id"]):
                        s.lams[v["id"]] = i
        s.stmt(f.body, ()) if f.body else None
        for i in f.d.get("inits", ()):
            if i.get("e"):
                s.expr(i["e"], ())

    def stmt(s, n, held):
        """returns the locks held after the statement, within the same block"""
        if n is None:
            return held
        k = n.get("s")
        if k is None:
            s.expr(n, held)
            return held
        if k == "block":
            h = held
            for c in n["b"]:
                h = s.stmt(c, h)
            return held
        if k == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    if v["id"] in s.lams:
                        continue
                    s.expr(v["init"], held)
                g = acquired(s.P, s.names, v)
                if g is not None:
                    s.visit("acquire", dict(v, k="guard"), held, s.names, g)
                    held = held + tuple((c, cl, v["id"]) for c, cl in g)
                else:
                    s.visit("local", v, held, s.names, None)
            return held
        if k == "expr":
            e = n["e"]
            s.expr(e, held)
            # explicit unlock of a guard, or of the lock itself
            for x in PR.walk(e):
                o = x.get("o") if x.get("k") == "call" else None
                if o is not None and o.get("k") == "var" and boxed_guard(s.P, o.get("t", "")):
                    b = PR.base_name(x.get("n") or "")
                    if b in ("emplace", "reset", "operator="):
                        held = tuple(h for h in held if h[2] != o["id"])
                    if b == "emplace":
                        g = take_args(s.P, s.names, x.get("a", ()))
                        s.visit("acquire", dict(x, k="guard"), held, s.names, g)
                        held = held + tuple((c, cl, o["id"]) for c, cl in g)
                if x.get("k") == "call" and PR.base_name(x.get("n") or "").lower() in ("unlock", "release"):
                    o = x.get("o")
                    if o is not None and o.get("k") == "var":
                        held = tuple(h for h in held if h[2] != o["id"])
                    c = s.names.canon(o) if o else None
                    held = tuple(h for h in held if h[0] != c or c is None)
                elif x.get("k") == "call" and PR.base_name(x.get("n") or "") in ("lock", "Lock") and x.get("o") is not None:
                    t = x["o"].get("t", "")
                    t = lock_type(s.P, t) or lock_type(s.P, pointee(t))
                    c = s.names.canon(x["o"]) if t else None
                    if c:
                        held = held + ((c, lock_class(s.P, x["o"], t), None),)
            # an object that is assigned anew is no longer the locked one
            for x in PR.walk(e):
                tgt = None
                if x.get("k") == "asg":
                    tgt = x["a"]
                elif x.get("k") == "call" and PR.base_name(x.get("n") or "") in ("operator=", "reset", "swap"):
                    tgt = x.get("o") or (x.get("a") or [None])[0]
                if tgt is not None and tgt.get("k") in ("var", "mem"):
                    c = s.names.canon(tgt)
                    if c:
                        held = tuple(h for h in held if not (h[0] and h[0][0] == c[0] and h[0][1][:len(c[1])] == c[1]
                                                             and pointerish(tgt.get("t", ""))))
            return held
        if k == "try":
            s.stmt(n["b"], held)
            for h in n["h"]:
                s.stmt(h["b"], held)
            return held
        h = held
        for c in PR.kids(n):
            if c is not None:
                if c.get("s") == "decl":
                    h = s.stmt(c, h)
                else:
                    s.stmt(c, h)
        return held

    def expr(s, e, held):
        later, cond = set(), {}
        for x in PR.walk(e):
            if x.get("k") in ("ctor", "call") and LATER.match(PR.strip_t(x.get("cls") or x.get("t") or "")):
                later |= {id(y) for a in x.get("a", ()) for y in PR.walk(a) if y.get("k") == "lambda"}
            if x.get("k") == "ctor" and PR.strip_t(x.get("cls") or x.get("t") or "").endswith("absl::Condition") \
                    and len(x.get("a", ())) == 2:
                for y in PR.walk(x["a"][0]):
                    if y.get("k") == "lambda":
                        cond[id(y)] = [x["a"][1]]
        extra = {}
        for x in PR.walk(e):
            if x.get("k") in ("call", "ctor") and x.get("a"):
                ls = [(i, y) for i, a in enumerate(x["a"]) for y in PR.walk(a) if y.get("k") == "lambda"]
                if ls:
                    for t in s.P.targets(x)[:1]:
                        iu = invoked_under(s.P, t)
                        for i, y in ls:
                            hs, args = iu.get(i, ((), None))
                            extra[id(y)] = s.through(x, hs)
                            if args:
                                cond.setdefault(id(y), [dict(k="named", c=(s.through(x, [a + (None,)]) or [[None]])[0][0])
                                                        if a else {} for a in args])
        for x in PR.walk(e):
            if x.get("k") == "lambda":
                s.lam(x, () if id(x) in later else held + extra.get(id(x), ()), cond.get(id(x)))
                continue
            if x.get("k") == "call":
                o = x.get("o") or x.get("fx")
                if o is not None and o.get("k") == "var" and o["id"] in s.lams:
                    s.lam(s.lams[o["id"]], held, x.get("a", ()))
            s.visit("use", x, held, s.names, None)

    def through(s, x, hs):
        """locks a callee holds when it calls back, in the caller's names"""
        out = []
        for root, path, cl in hs:
            if root == "this":
                c = s.names.canon(x["o"]) if x.get("o") is not None else None
            else:
                c = s.names.canon(x["a"][root]) if root < len(x["a"]) else None
            if c:
                out.append(((c[0], c[1] + path), cl, None))
        return tuple(out)

    def lam(s, n, held, args):
        g = s.P.funcs.get(n["f"])
        if g is None:
            gs = [s.P.funcs[k] for k in n.get("gen", ()) if k in s.P.funcs]
            g = gs[0] if gs else None
        if g is None or g.key in s.stack or not g.body:
            return
        s.stack.append(g.key)
        old = dict(s.names.bind)
        if args is not None:
            for p, a in zip(g.d["p"], args):
                c = s.names.canon(a)
                if c:
                    s.names.bind[p["id"]] = c
        s.stmt(g.body, held)
        s.names.bind = old
        s.stack.pop()


def invoked_under(P, g):
    """parameter -> locks (of parameters or this) held whenever that parameter is called"""
    c = P.__dict__.setdefault("_invoked", {})
    if g.key not in c:
        c[g.key] = {}
        if g.body:
            got = {}
            idx = {p["id"]: i for i, p in enumerate(g.d["p"])}

            def visit(kind, x, held, names, _):
                if kind != "use" or x.get("k") != "call":
                    return
                o = x.get("o") or x.get("fx")
                while isinstance(o, dict) and o.get("k") == "call" and PR.base_name(o.get("n") or "") in ("forward", "move"):
                    o = o["a"][0]
                if not isinstance(o, dict) or o.get("k") != "var" or o.get("id") not in idx:
                    return
                hs = set()
                for h, cl, _v in held:
                    if h and h[0] == "this":
                        hs.add(("this", h[1], cl))
                    elif h and h[0][0] == "v" and h[0][1] in names.params:
                        hs.add((names.params[h[0][1]], h[1], cl))
                i = idx[o["id"]]
                args = []
                for a in x.get("a", ()):
                    h = names.canon(a)
                    args.append(("this", h[1]) if h and h[0] == "this" else (names.params[h[0][1]], h[1])
                                if h and h[0][0] == "v" and h[0][1] in names.params else None)
                if i in got:
                    hs &= got[i][0]
                    args = [a if a == b else None for a, b in zip(args, got[i][1])]
                got[i] = (hs, args)
            Scope(P, g, visit)
            c[g.key] = {i: (tuple(sorted(v[0], key=str)), v[1]) for i, v in got.items()}
    return c[g.key]


def called(f, i):
    return any(x.get("k") == "call" and (x.get("o") or x.get("fx") or {}).get("k") == "var"
               and (x.get("o") or x.get("fx") or {}).get("id") == i for x in f.nodes())


def pointee(t):
    b = bare(t)
    m = re.match(r"^std::(unique_ptr|shared_ptr)<([^,<>]+)", b)
    return m.group(2).strip() if m else b


def pointerish(t):
    return t.rstrip().endswith("*") or "_ptr<" in t or "Holder" in t


# ---------------------------------------------------------------- what is guarded

ATOMIC = re.compile(r"^(const )?std::atomic|^(const )?atomic_|^std::once_flag|^(securefs::)?ThreadLocal<")
OWNING = re.compile(r"^(const )?std::(unique_ptr|optional)<")


def lifecycle(P, f):
    """constructors, destructors, and what only they call"""
    if f.d.get("ctor") or "::~" in f.n or f.sn.rsplit("::", 1)[-1].startswith("~"):
        return True
    return False


def mutated(P):
    """field -> functions that change it outside construction and destruction"""
    c = P.__dict__.get("_mutated")
    if c is not None:
        return c
    c = defaultdict(set)

    def field(e):
        """field an lvalue expression denotes a part of"""
        while isinstance(e, dict):
            k = e.get("k")
            if k == "mem":
                if e.get("arrow") or not is_value_mem(e["b"]):
                    return e["f"]
                return e["f"]
            if k == "idx":
                e = e["a"]
            elif k in ("cast", "paren"):
                e = e["a"]
            elif k == "un" and e.get("op") in ("*", "&"):
                e = e["a"]
            elif k == "call" and PR.base_name(e.get("n") or "") in ("operator[]", "operator*", "operator->", "get", "value",
                                                                     "back", "front", "at", "begin", "end"):
                e = e.get("o") or (e.get("a") or [None])[0]
            else:
                return None
        return None

    for f in P.funcs.values():
        if lifecycle(P, f) or (f.owner and lifecycle(P, f.owner)):
            continue
        for x in f.nodes():
            k = x.get("k")
            if k == "asg":
                g = field(x["a"])
                if g:
                    c[g].add(f.key)
            elif k == "un" and x.get("op") in ("++", "--", "p++", "p--", "++p", "--p"):
                g = field(x["a"])
                if g:
                    c[g].add(f.key)
            elif k == "call":
                o = x.get("o")
                if o is not None and not x.get("cm") and o.get("k") != "this":
                    g = field(o)
                    if g and not (o.get("k") == "call" and PR.base_name(o.get("n") or "") == "operator->"
                                  and not OWNING.match(ftype(P, g))):
                        c[g].add(f.key)
                for a, pt in zip(x.get("a", ()), x.get("pt", ())):
                    if pt in ("r", "p", "rr"):
                        g = field(a)
                        if g:
                            c[g].add(f.key)
    P._mutated = c
    return c


def is_value_mem(b):
    return True


def ftypes(P):
    c = P.__dict__.get("_field_decls")
    if c is None:
        c = {}
        for r in P.records.values():
            for fl in r["fields"]:
                c[fl["n"]] = (fl["t"], r, fl)
        P._field_decls = c
    return c


def ftype(P, g):
    x = ftypes(P).get(g)
    return x[0] if x else ""


def annotation(fl):
    """what GUARDED_BY says: "this", a mutex field, or None"""
    for a in fl.get("attrs") or ():
        if a.get("k") in ("guarded_by", "pt_guarded_by"):
            for x in PR.walk(a["a"][0]):
                if x.get("k") == "mem":
                    return x["f"]
            return "this"
    return None


def guarded(P):
    """field -> "this" (the lock of its own object) or the sibling mutex that must be held"""
    c = P.__dict__.get("_guarded")
    if c is not None:
        return c
    c = {}
    mut = mutated(P)
    ls = lockables(P)
    sib = defaultdict(lambda: defaultdict(int))

    def visit(kind, x, held, names, g):
        if kind == "use" and x.get("k") == "mem" and held:
            b = names.canon(x["b"])
            if b:
                for h, cl, _ in held:
                    if h and h[0] == b[0] and h[1][:-1] == b[1] and h[1] and is_mutex(ftype(P, h[1][-1])):
                        sib[x["f"]][h[1][-1]] += 1
    for f in P.funcs.values():
        if not f.owner:
            Scope(P, f, visit)
    for r in P.records.values():
        for fl in r["fields"]:
            t = fl["t"]
            if is_mutex(t) or ATOMIC.match(t) or t.startswith("const ") or re.search(r"std::atomic<", t):
                continue
            a = annotation(fl)
            if a:
                c[fl["n"]] = a
            elif sib.get(fl["n"]):
                c[fl["n"]] = max(sib[fl["n"]], key=lambda m: (sib[fl["n"]][m], m))
            elif r["n"] in ls and fl["n"] in mut and not t.rstrip().endswith("&") and not process_lock(P, r["n"]):
                c[fl["n"]] = "this"
    P._guarded = c
    return c


def process_lock(P, cls):
    """locks that only keep other processes out: none of the class's family owns a mutex or a transaction"""
    fam = {cls, *P.all_bases(cls)}
    if any(is_mutex(fl["t"]) for r in P.records.values() if r["n"] in fam for fl in r["fields"]):
        return False
    for f in P.funcs.values():
        if f.scls in fam and base(f.n) == "lock" and f.body:
            return any(x.get("k") == "call" and x.get("ext") and PR.base_name(x.get("n") or "") in ("flock", "fcntl")
                       for g in map(P.funcs.get, P.reach([f])) if g for x in g.nodes())
    return True


LOCKERS = ("lock", "unlock", "try_lock", "begin", "finish")


class Needs:
    """what each function needs locked when it is entered, and where that need is not met"""

    def __init__(s, P):
        s.P = P
        s.G = guarded(P)
        s.need = defaultdict(dict)       # function key -> {(root, path): (class, why)}
        s.bad = {}
        s.n = 0
        s.uses = 0
        s.solve()

    def solve(s):
        P = s.P
        s.callers = defaultdict(set)
        tops = [f for f in P.funcs.values() if not f.owner and f.body]
        s.scopes = {}
        for f in tops:
            rec = []

            def visit(kind, x, held, names, g, rec=rec):
                if kind == "use" and x.get("k") in ("mem", "call", "ctor"):
                    rec.append((x, held, dict(names.bind)))
            sc = Scope(P, f, visit)
            s.scopes[f.key] = (f, sc.names, rec)
        # base needs
        todo = []
        for k, (f, names, rec) in s.scopes.items():
            todo.append(k)
            for x, held, bind in rec:
                if x.get("k") in ("call", "ctor"):
                    for t in P.targets(x):
                        s.callers[t.key].add(k)
        while todo:
            k = todo.pop()
            f, names, rec = s.scopes[k]
            new = s.needs_of(f, names, rec)
            if new.keys() - s.need[k].keys():
                s.need[k] = new
                for c in s.callers[k]:
                    if c not in todo:
                        todo.append(c)
            # virtual: the base declaration's need is the union
        s.report()

    def items(s, f, names, rec):
        """(canonical name needed, lock class, node, why, held)"""
        P = s.P
        for x, held, bind in rec:
            names.bind = bind
            if x["k"] == "mem":
                g = s.G.get(x["f"])
                if g is None:
                    continue
                b = names.canon(x["b"])
                if b is None:
                    yield None, g, x, x["f"].rsplit("::", 1)[-1], held
                    continue
                yield ((b[0], b[1]) if g == "this" else (b[0], b[1] + (g,))), g, x, x["f"].rsplit("::", 1)[-1], held
            else:
                for t in P.targets(x):
                    nd = s.need.get(t.key)
                    if not nd:
                        continue
                    for (root, path), (g, why) in sorted(nd.items(), key=str):
                        if root == "this":
                            o = x.get("o")
                            if x["k"] == "ctor" or o is None or not s.seen_as_lock(o, t):
                                continue
                            c = names.canon(o)
                        else:
                            i = root[1]
                            c = names.canon(x["a"][i]) if i < len(x.get("a", ())) else None
                        w = "%s through %s" % (why, base(t.n)) if "through" not in why else why
                        yield ((c[0], c[1] + path) if c else None), g, x, w, held
        names.bind = {}

    def seen_as_lock(s, o, t):
        """the object is known to the caller as something that has a lock"""
        if t.scls not in lockables(s.P):
            return True
        r = s.P.record_of(pointee(o.get("t", "")))
        return r is None or r["n"] in lockables(s.P)

    def needs_of(s, f, names, rec):
        out = {}
        if base(f.n) in LOCKERS and f.scls in lockables(s.P):
            return out
        for c, g, x, why, held in s.items(f, names, rec):
            if c is None or any(h[0] == c for h in held):
                continue
            root, path = c
            if len(path) > 3:
                continue
            if root == "this":
                if lifecycle(s.P, f) :
                    continue
                out.setdefault((root, path), (g, why))
            elif root[0] == "v" and root[1] in names.params and not names.defs.get(root[1]):
                out.setdefault((("p", names.params[root[1]]), path), (g, why))
        return out

    def fresh(s, names, root, g):
        """a local object nothing else can know yet"""
        if root[0] != "v" or root[1] in names.params:
            return False
        ds = names.defs.get(root[1], [])
        return bool(ds) and all(isinstance(d, dict) and any(
            x.get("k") == "new" or x.get("k") == "call" and PR.base_name(x.get("n") or "") in FREE
            for x in PR.walk(d)) for d in ds)

    def report(s):
        P = s.P
        s.obs = []
        for k, (f, names, rec) in sorted(s.scopes.items()):
            if base(f.n) in LOCKERS and f.scls in lockables(P):
                continue
            for c, g, x, why, held in s.items(f, names, rec):
                s.uses += 1
                where = "%s:%s" % (f.short, x.get("l"))
                if c is None:
                    if not lifecycle(P, f):
                        s.obs.append((f, why, g, where, "no lock of the object can be held here: it is not named", x, held))
                    continue
                root, path = c
                if any(h[0] == c for h in held):
                    s.obs.append((f, why, g, where, None, x, held))
                    continue
                if root == "this":
                    if lifecycle(P, f) or s.lifted(f, ("this", path)):
                        continue
                elif root[0] == "v" and root[1] in names.params and not names.defs.get(root[1]):
                    if s.lifted(f, (("p", names.params[root[1]]), path)):
                        continue
                elif s.fresh(names, root, g):
                    continue
                s.obs.append((f, why, g, where, "the lock of the object is not held", x, held))

    def lifted(s, f, need):
        """the need is passed on to callers; entry points have none"""
        return True


# ---------------------------------------------------------------- lock order

class Order:
    """which locks are taken while which others are held"""

    def __init__(s, P):
        s.P = P
        s.direct = defaultdict(dict)      # function key -> {lock class: where}
        s.calls = defaultdict(list)       # function key -> [(targets, where)]
        s.under = []                      # (function, held, [(name, class)] or targets, where)
        s.scopes = 0
        for f in P.funcs.values():
            if f.owner or not f.body:
                continue
            s.scopes += 1
            s.walk(f)
        s.acq = {}
        s.close()
        s.edges = defaultdict(list)
        s.build()

    def walk(s, f):
        P = s.P
        moved = {x["e"]["id"] for x in s.all(f) if x.get("s") == "return" and (x.get("e") or {}).get("k") == "var"}
        moved |= {y["id"] for x in s.all(f) if x.get("s") == "return" and x.get("e") is not None
                  for z in PR.walk(x["e"]) if z.get("k") in ("ctor", "call") and PR.base_name(z.get("n") or "move") in
                  ("move", "forward") or z.get("k") == "ctor" for y in z.get("a", ()) if y.get("k") == "var"}

        def visit(kind, x, held, names, g):
            where = "%s:%s" % (f.short, x.get("l") or f.where)
            if kind == "acquire":
                for c, cl in g:
                    s.direct[f.key].setdefault(cl, where)
                if g and held:
                    s.under.append((f, held, list(g), None, where))
            elif kind == "use" and x.get("k") in ("call", "ctor"):
                b = PR.base_name(x.get("n") or "")
                o = x.get("o")
                if b in ("lock", "Lock", "lock_shared", "ReaderLock", "WriterLock") and o is not None:
                    t = lock_type(P, o.get("t", ""))
                    t = t or lock_type(P, pointee(o.get("t", "")))
                    if t:
                        cl = lock_class(P, o, t)
                        s.direct[f.key].setdefault(cl, where)
                        if held:
                            s.under.append((f, held, [(names.canon(o), cl)], None, where))
                        return
                ts = P.targets(x)
                ts = ts + s.deaths(x)
                if ts:
                    s.calls[f.key].append((ts, where))
                    if held:
                        s.under.append((f, held, None, ts, where))
            elif kind == "local" and x["id"] not in moved and not x["t"].rstrip().endswith(("&", "*")):
                ts = s.dead(x["t"])
                if ts:
                    s.calls[f.key].append((ts, where))
                    if held:
                        s.under.append((f, held, None, ts, where))
        Scope(P, f, visit)

    def all(s, f):
        yield from f.nodes()
        for x in f.nodes():
            if x.get("k") == "lambda":
                g = s.P.funcs.get(x["f"])
                if g and g.body:
                    yield from g.nodes()

    def dead(s, t):
        """functions run when a value of this type dies"""
        out = list(s.P.dtor_chain(t))
        m = re.match(r"^(const )?std::unique_ptr<", t)
        if m:
            for a in targs(t):
                r = s.P.record_of(a)
                if not r:
                    continue
                d = [g for g in s.P.funcs.values() if g.scls == r["n"] and PR.base_name(g.n) == "operator()"]
                out += d or s.P.dtor_chain(a)
                for q in s.P.all_derived(r["n"]):
                    out += s.P.dtor_chain(q)
        return out

    def deaths(s, x):
        """what an assignment to a holder, or its reset, destroys"""
        b = PR.base_name(x.get("n") or "")
        o = x.get("o")
        if b in ("operator=", "reset", "erase", "clear", "pop_back", "pop_front") and o is not None:
            return s.dead(bare(o.get("t", "")))
        return []

    def close(s):
        keys = {f.key for f in s.P.funcs.values()}
        for k in keys:
            s.acq[k] = dict(s.direct.get(k, {}))
        ch = True
        while ch:
            ch = False
            for k, cs in s.calls.items():
                for ts, where in cs:
                    for t in ts:
                        kk = t.key if not t.owner else t.key
                        for cl in s.acq.get(kk, {}):
                            if cl not in s.acq[k]:
                                s.acq[k][cl] = where
                                ch = True

    def build(s):
        for f, held, g, ts, where in s.under:
            for c, hc, _ in held:
                if g is not None:
                    for n, cl in g:
                        s.edges[(hc, cl)].append((f, where, []))
                else:
                    for t in ts:
                        for cl in s.acq.get(t.key, {}):
                            s.edges[(hc, cl)].append((f, where, s.via(t, cl)))

    def via(s, t, cl, depth=0):
        out = [t.n]
        seen = {t.key}
        while depth < 12:
            if cl in s.direct.get(t.key, {}):
                return out + [s.direct[t.key][cl]]
            for ts, where in s.calls.get(t.key, ()):
                n = next((u for u in ts if cl in s.acq.get(u.key, {}) and u.key not in seen), None)
                if n is not None:
                    seen.add(n.key)
                    out.append("%s (%s)" % (n.n, where))
                    t = n
                    break
            else:
                return out
            depth += 1
        return out

    def cycles(s):
        """lock classes on a cycle of the order, with one edge list each"""
        succ = defaultdict(set)
        for a, b in s.edges:
            succ[a].add(b)
        out = []
        for a, b in sorted(s.edges):
            # can b reach a?
            st, seen = [b], {b}
            while st:
                x = st.pop()
                if x == a:
                    break
                for y in succ[x]:
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            else:
                continue
            out.append((a, b))
        return out


def targs(t):
    if not t.endswith(">"):
        return []
    t = t[t.index("<") + 1:-1]
    out, d, cur = [], 0, ""
    for c in t:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += c in "<(" 
        d -= c in ">)"
        cur += c
    return out + [cur.strip()]


# ---------------------------------------------------------------- what all threads share

PER_THREAD = re.compile(r"^(const )?(securefs::)?ThreadLocal<")
SAFE_MEMBER = re.compile(r"^(const )?std::(atomic\b|atomic_|once_flag|mutex)|^(const )?absl::Mutex")
OBSERVE = ("operator*", "operator->", "get", "value", "begin", "end", "find", "at", "data", "size", "front", "back", "c_str",
           "operator bool", "has_value", "load", "store", "fetch_add", "fetch_sub", "exchange", "operator[]")
MAKERS = ("make_unique", "make_shared", "forward", "make_pair", "make_tuple", "ref", "cref", "move", "addressof")


def ops_roots(P):
    from .errors import vops
    ks = set(vops(P))
    out = []
    for k in ks:
        for q in {k} | P.all_overriders(k):
            g = P.funcs.get(q)
            if g and g.body and base(g.n) not in ("vinit", "vdestroy", "initialize"):
                out.append(g)
    return out


def type_records(P, t):
    """repository classes named in a type, without what is per thread"""
    t = bare(t)
    if PER_THREAD.match(t):
        return []
    r = P.record_of(t)
    out = [r] if r else []
    if "<" in t and not r:
        for a in targs(t):
            out += type_records(P, a)
    return out


def shared_classes(P):
    """classes whose objects are reached from the file system object without passing a lock of their own"""
    from .errors import OPS
    ls = lockables(P)

    def fields(r):
        o = []
        for fl in r["fields"]:
            for q in type_records(P, fl["t"]):
                o += [q["n"]] + sorted(P.all_derived(q["n"]))
        return o
    st = [OPS] + sorted(P.all_derived(OPS))
    out = {}
    while st:
        c = st.pop()
        if c in out or c in ls:
            continue
        r = P.records.get(c) or P.rec_by_t.get(c) or next((q for q in P.records.values() if q["n"] == c), None)
        if r is None:
            continue
        out[c] = r
        for b in P.all_bases(c):
            q = next((q for q in P.records.values() if q["n"] == b), None)
            if q is not None and b not in out and b not in ls:
                out[b] = q
                st += fields(q)
        st += fields(r)
    return out


def observes(x):
    return bool(x.get("cm")) or PR.base_name(x.get("n") or "") in OBSERVE


def shared_mutations(P, f):
    """(field, node) changed by f; calls into the repository's own classes are judged there"""
    G = guarded(P)

    def field(e):
        while isinstance(e, dict):
            k = e.get("k")
            if k == "mem":
                return e
            if k == "idx":
                e = e["a"]
            elif k in ("cast", "paren"):
                e = e["a"]
                if isinstance(e, list):
                    e = e[0] if e else None
            elif k == "call" and PR.base_name(e.get("n") or "") in ("operator[]", "value", "back", "front", "at", "begin", "end"):
                e = e.get("o") or (e.get("a") or [None])[0]
            else:
                return None
        return None
    for x in f.nodes():
        k = x.get("k")
        m = None
        if k == "asg":
            m = field(x["a"])
        elif k == "un" and x.get("op") in ("++", "--", "p++", "p--", "++p", "--p"):
            m = field(x["a"])
        elif k == "call":
            o = x.get("o")
            if o is not None and o.get("k") != "this" and not observes(x):
                m = field(o)
                if m is not None and not assigns(x) and type_records(P, m.get("t", "")):
                    m = None
            if m is None and PR.base_name(x.get("n") or "") not in MAKERS:
                for a, pt in zip(x.get("a", ()), x.get("pt", ())):
                    if pt in ("r", "rr") and field(a) is not None and not type_records(P, a.get("t", "")):
                        m = field(a)
                    elif pt == "p" and a.get("k") == "un" and a.get("op") == "&" and field(a["a"]) is not None:
                        m = field(a["a"])
        if m is not None:
            yield m, x


def assigns(x):
    return PR.base_name(x.get("n") or "") in ("operator=", "reset", "swap", "emplace", "clear", "push_back", "insert", "erase",
                                              "emplace_back")


# ---------------------------------------------------------------- rules

class Refs(Rule):
    """an object is known to be unreferenced where it is used"""
    loop_iters = 1

    def __init__(s, P, uses):
        s.P = P
        s.uses = uses
        s.seen = []

    def inline(s, eng, f, ev):
        return bool(f.owner) or simple(f, 12) and base(f.n) not in s.uses

    def on_call(s, eng, st, ev):
        if ev.base in ("getref", "use_count"):
            return [(st, ("fld", ("refs", ev.obj), ev.base))]
        if ev.base in s.uses and ev.node is not None:
            ok = any(len(k) == 1 and k[0][1] == 1 and k[0][0][:1] == ("fld",) and k[0][0][1][0] == "refs" and hi is not None
                     and hi <= 0 and same_object(k[0][0][1][1], ev.obj) for k, (lo, hi) in st.iv.items())
            s.seen.append((ev.where, ok))
            return [(st, I(0))]
        return None


def same_object(a, b):
    return a == b


@rule("L01")
def state_is_used_under_its_lock(P, R):
    """Which fields need which lock is taken from the annotations and completed by inference (a field of a class
    that is a lock and is changed after construction; a field used under a sibling mutex).  Every function is
    walked with the locks its live guards hold, by canonical object name; an access without the lock becomes a
    requirement on the function's parameters and is lifted to its callers, through virtual calls, until it is
    met by a guard or reaches an object no lock can be held of - which is the violation.  Objects just made and
    not yet published, constructors, destructors and the lock implementations themselves are exempt; so is a
    file of the table whose reference count is known to be zero under the shard's lock."""
    N = Needs(P)
    R.need(len(N.G) > 10, "lock-guarded fields")
    groups = {}
    for f, why, g, where, bad, x, held in N.obs:
        w = where
        if bad:
            c = unreferenced(P, R, f, x, held)
            if c:
                bad = None
        k = (f.sn, why)
        groups.setdefault(k, []).append((bad, w))
        R.fn(f)
    for (fn, why), l in sorted(groups.items()):
        bads = sorted({(w, b) for b, w in l if b})
        R.ob("access under lock", "%s: %s" % (fn, why), not bads, bads[0][0] if bads else l[0][1],
             bads[0][1] if bads else "the lock is held here")
    ok = sum(1 for o in N.obs if not o[4])
    R.need(ok >= 40, "accesses under a lock")
    # every lock class a file system object belongs to must have been judged at the operations
    locks = {family(P, c) for c in lockables(P)}
    for q, g in sorted(N.G.items()):
        R.notes.append("%s needs %s" % (q, "its object's lock" if g == "this" else g))
    lifted = sum(1 for v in N.need.values() if v)
    R.notes.append("%d accesses judged under a lock, %d functions pass the requirement on to their callers, "
                   "%d functions walked, lock classes: %s" % (ok, lifted, len(N.scopes), ", ".join(sorted(locks))))
    # the operations themselves must lock: an operation that reaches guarded state of a shared object
    from .errors import vop_keys
    n = 0
    for k in sorted(vop_keys(P)):
        f = P.funcs.get(k)
        if f and f.body and any(o[0] is f for o in N.obs):
            n += 1
    R.need(n >= 10, "file system operations that use guarded state")


def unreferenced(P, R, f, x, held):
    """the reference count of the object is known to be zero, under the mutex that guards the table it lives in"""
    if not any(h[0] and h[0][1] and is_mutex(ftype(P, h[0][1][-1])) for h in held):
        return False
    b = PR.base_name(x.get("n") or "")
    if x.get("k") != "call":
        return False
    c = P.__dict__.setdefault("_unref", {})
    if (f.key, b) not in c:
        r = Refs(P, {b})
        R.engine(P, r, f)
        c[(f.key, b)] = r.seen
    here = [ok for w, ok in c[(f.key, b)] if w.rsplit(":", 1)[-1] == str(x.get("l"))]
    return bool(here) and all(here)


@rule("L02")
def locks_are_taken_in_one_order(P, R):
    """Lock classes are the families of lockable objects and the mutex fields.  For every function the locks it may take, directly or through calls
    (virtual ones, and destructors of locals, temporaries and re-assigned holders included), are computed to a
    fixpoint; every lock taken while another is held is an edge.  The graph must have no cycle, a lock of a class
    taken under another lock of the same class included; two locks of one class may only be taken together by
    one guard, which must use a deadlock-avoiding acquisition."""
    O = Order(P)
    R.need(O.scopes > 300, "functions")
    cyc = set(O.cycles())
    for (a, b), l in sorted(O.edges.items()):
        f, where, via = min(l, key=lambda z: (len(z[2]), z[1]))
        R.fn(f)
        bad = (a, b) in cyc
        R.ob("order of locks", "%s then %s" % (short_lock(a), short_lock(b)), not bad, where,
             "in %s%s" % (f.sn, "; and the opposite order is possible" if bad and a != b else
                          "; a second lock of the same class while one is held" if bad else ""), path=via)
    sites = defaultdict(int)
    for k, d in O.direct.items():
        for cl in d:
            sites[cl] += 1
    R.need(len(sites) >= 5 and sum(sites.values()) >= 30, "lock acquisitions")
    # guards of several objects at once
    n = 0
    for r in P.records.values():
        if not guard_like(P, r) or EXT_GUARD.match(PR.strip_t(r["n"])):
            continue
        for m in r["methods"]:
            g = P.funcs.get(m["key"])
            if g is None or not g.d.get("ctor") or not g.body:
                continue
            ls = [p for p in g.d["p"] if lock_type(P, p["t"])]
            if len(ls) < 2:
                continue
            n += 1
            R.fn(g)
            together(P, R, g, ls)
    R.need(n, "guards of two objects")
    R.notes.append("%d functions, %d lock classes (%s), %d acquisition or call points under a lock, %d order edges" % (
        O.scopes, len(sites), ", ".join("%s: %d" % (short_lock(k), v) for k, v in sorted(sites.items())), len(O.under),
        len(O.edges)))


def short_lock(c):
    return "::".join(c.split("::")[-2:])


LOCK = ("lock", "Lock", "lock_shared", "ReaderLock", "WriterLock")
UNLOCK = ("unlock", "Unlock", "unlock_shared", "ReaderUnlock", "WriterUnlock")


def lock_call(P, x):
    """the lock object a raw lock or unlock call is made on, or None"""
    if x.get("k") != "call" or x.get("o") is None:
        return None
    if PR.base_name(x.get("n") or "") not in LOCK + UNLOCK:
        return None
    t = x["o"].get("t", "")
    return lock_type(P, t) or lock_type(P, pointee(t))


class Balance(Rule):
    """counts raw acquisitions and releases; guards of the standard library are modelled as owners"""
    loop_iters = 1
    max_states = 200

    def __init__(s, P, keep=()):
        s.P = P
        s.bad = []
        s.keep = set(keep)

    def inline(s, eng, f, ev):
        r = s.P.record_of(f.scls or "")
        if f.key in s.keep:
            return False
        return simple(f, 12) and not (r and guard_like(s.P, r))

    def merge_key(s, eng, st):
        return tuple(sorted(held(st).items(), key=str))

    def throws(s, eng, st, ev):
        if ev.base in UNLOCK or ev.base in ("Lock", "ReaderLock", "WriterLock") or ev.kind == "dtor" or ev.node.get("nx"):
            return ()
        if ev.node.get("ext") and ev.base in THROUGH + OBSERVE:
            return ()
        if is_mutex(ev.node.get("t", "")) and any(e[1] == ("path", render(ev.node)) for e in st.trace):
            return ()         # the same mutex has been reached the same way before
        return ("std::exception",)

    def on_call(s, eng, st, ev):
        b = ev.base
        cls = PR.strip_t(ev.node.get("cls") or "") if ev.node else ""
        if ev.kind == "ctor" and re.match(r"^std::(unique_lock|lock_guard|scoped_lock)$", ev.name.rsplit("::", 1)[0]):
            ts = [a.get("t", "") for a in ev.node.get("a", ())]
            if not ev.args:
                return [(st, ("guard", None, False))]
            l0 = (ev.locs or [None])[0]
            v = ev.args[0]
            if v is not None and v[0] == "guard":
                if l0 is not None:
                    eng.store(st, l0, ("guard", v[1], False))
                return [(st, v)]
            if any("defer_lock" in t for t in ts) or any("defer_lock" in str(a) for a in ev.args[1:]):
                return [(st, ("guard", l0, False))]
            if any("adopt_lock" in t for t in ts) or any("adopt_lock" in str(a) for a in ev.args[1:]):
                return [(st, ("guard", l0, True))]
            if any("try_to_lock" in t for t in ts):
                a = st.copy()
                a.emit(("L", canon_loc(l0), "try"))
                return [(a, ("guard", l0, True)), (st, ("guard", l0, False))]
            s.take(st, l0, ev)
            return [(st, ("guard", l0, True))]
        if b == "operator=" and ev.obj is not None:
            old = st.env.get(ev.obj)
            new = ev.args[0] if ev.args else None
            if new is not None and new[0] == "guard":
                if old is not None and old[0] == "guard" and old[2]:
                    s.drop(st, old[1], ev)
                eng.store(st, ev.obj, new)
                if ev.locs and ev.locs[0] is not None:
                    eng.store(st, ev.locs[0], ("guard", new[1], False))
                return [(st, ("lvref", ev.obj))]
        if ev.kind == "dtor":
            old = st.env.get(ev.obj)
            if old is not None and old[0] == "guard":
                if old[2]:
                    s.drop(st, old[1], ev)
                eng.store(st, ev.obj, ("guard", old[1], False))
                return [(st, I(0))]
            return None
        if ev.name == "std::lock":
            ls = [canon_loc(l) for l in ev.locs]
            for i, a in enumerate(ls):
                for c in ls[i + 1:]:
                    d = sub(("addr", a), ("addr", c)) if a is not None and c is not None else None
                    if d is None or st.decide(("eq0", d)) is not False:
                        s.bad.append((ev.where, "the two objects may be the same one: it would be locked twice"))
            if held(st):
                s.bad.append((ev.where, "locks are already held when the two are taken together"))
            for a in ls:
                st.emit(("L", a, "all"))
            return [(st, I(0))]
        g = st.env.get(ev.obj) if ev.obj is not None else None
        if g is not None and g[0] == "guard" and b in ("lock", "try_lock", "unlock", "release"):
            if b == "unlock":
                s.drop(st, g[1], ev)
                eng.store(st, ev.obj, ("guard", g[1], False))
                return [(st, I(0))]
            if b == "release":
                eng.store(st, ev.obj, ("guard", g[1], False))
                return [(st, I(0))]
            if b == "lock":
                s.take(st, g[1], ev)
                eng.store(st, ev.obj, ("guard", g[1], True))
                return [(st, I(0))]
            a = st.copy()
            a.emit(("L", canon_loc(g[1]), "try"))
            eng.store(a, ev.obj, ("guard", g[1], True))
            return [(a, I(1)), (st, I(0))]
        if lock_call(s.P, ev.node):
            l = canon_loc(ev.obj)
            if l is None or any(y.get("k") == "call" and PR.base_name(y.get("n") or "") not in THROUGH
                                for y in PR.walk(ev.node["o"])):
                l = ("path", render(ev.node["o"]))
            if b in LOCK:
                if b not in ("Lock", "ReaderLock", "WriterLock") and not is_mutex(ev.node["o"].get("t", "")):
                    eng._exc.append((st.copy(), ("std::exception", ("std::exception", "std::exception"), ("ext",))))
                s.take(st, l, ev)
                return [(st, I(0))]
            s.drop(st, l, ev)
            return [(st, I(0))]
        if b in ("try_lock", "TryLock") and ev.obj is not None:
            a = st.copy()
            a.emit(("L", canon_loc(ev.obj), "try"))
            return [(a, I(1)), (st, I(0))]
        return None

    def take(s, st, l, ev):
        l = canon_loc(l)
        h = held(st)
        if h.get(l):
            s.bad.append((ev.where, "it is locked again while it is held"))
        st.emit(("L", l, ev.where))

    def drop(s, st, l, ev):
        l = canon_loc(l)
        if held(st).get(l, 0) <= 0:
            s.bad.append((ev.where, "released although it is not held here"))
        st.emit(("U", l, ev.where))


def render(e):
    """an object that is only known through calls, by how it is reached"""
    k = e.get("k")
    if k == "mem":
        return render(e["b"]) + "." + e["f"].rsplit("::", 1)[-1]
    if k == "call":
        o = e.get("o")
        b = PR.base_name(e.get("n") or "")
        if b in THROUGH and o is not None:
            return render(o)
        return (render(o) + "." if o is not None else "") + b + "()"
    if k in ("un", "cast", "paren") and isinstance(e.get("a"), dict):
        return render(e["a"])
    return e.get("n") or k or "?"


def canon_loc(l):
    """the same object by the same name, whether it is reached by reference or by pointer"""
    if isinstance(l, tuple) and l and l[0] == "d" and isinstance(l[1], tuple) and l[1][0] == "addr":
        return canon_loc(l[1][1])
    return l


def held(st):
    h = defaultdict(int)
    for e in st.trace:
        if e[0] == "L":
            h[e[1]] += 1
        elif e[0] == "U":
            h[e[1]] -= 1
    return {k: v for k, v in h.items() if v}


def guard_classes(P):
    """the repository's own guards that are used somewhere"""
    made = set()
    for f in P.funcs.values():
        for x in f.nodes():
            if x.get("s") == "decl":
                for v in x["v"]:
                    if is_guard(P, v["t"]):
                        r = P.record_of(bare(v["t"]))
                        if r:
                            made.add(r["t"] if "t" in r else r["n"])
    out = []
    for r in P.records.values():
        if guard_like(P, r) and (r.get("t", r["n"]) in made or r["n"] in made) and not EXT_GUARD.match(PR.strip_t(r["n"])):
            out.append(r)
    return out


def unwind(P, r, st, rule, where):
    """members that own a lock release it when the object dies"""
    for fl in r["fields"]:
        l = ("m", ("obj", "this"), fl["n"])
        v = st.env.get(l)
        if v is not None and v[0] == "guard" and v[2]:
            st.emit(("U", canon_loc(v[1]), where))


def ctors_of(P, r):
    return [P.funcs[m["key"]] for m in r["methods"] if m["key"] in P.funcs and P.funcs[m["key"]].d.get("ctor")
            and P.funcs[m["key"]].body and any(lock_type(P, p["t"]) for p in P.funcs[m["key"]].d["p"])]


def together(P, R, g, ls):
    rule = Balance(P)
    outs, eng = R.engine(P, rule, g)
    n = 0
    for kind, st, v in outs:
        if kind != "r":
            continue
        n += 1
        now = set()
        bad = None
        for e in st.trace:
            if e[0] == "L":
                if now and e[2] not in ("all", "try"):
                    bad = (e[2], "the second object is locked while the first is held, in whatever order the caller names them")
                if e[2] != "all":
                    now.add(e[1])
            elif e[0] == "U":
                now.discard(e[1])
        for w, why in rule.bad:
            bad = bad or (w, why)
        want = {("p", p["n"]) for p in ls}
        have = {k for k, c in held(st).items() if c > 0}
        same = any(st.decide(("eq0", sub(("addr", a), ("addr", b)))) is True for a in want for b in want if a != b)
        if not bad and not same and want - have:
            bad = (g.where, "%s is not locked" % ", ".join(sorted(str(x[1]) for x in want - have)))
        if not bad and same and not have:
            bad = (g.where, "nothing is locked when both are the same object")
        R.ob("two locks at once", g.sn + (" (same object)" if same else " (two objects)"), not bad, bad[0] if bad else g.where,
             bad[1] if bad else "deadlock-avoiding acquisition; each object is locked once")
    R.need(n, "paths of " + g.sn)


@rule("L03")
def locks_are_released(P, R):
    """Symbolic execution of every lock implementation, guard and function with raw lock calls, with every
    opaque call allowed to throw.  lock() that fails must leave nothing locked; unlock() must release exactly what
    lock() took; a guard's destructor must release exactly what its constructor took, on every combination of
    paths, and a constructor that throws must leave nothing locked; any other function must have released what it
    locked at every exit, exceptional ones included, and never release what it does not hold."""
    n = 0
    done = set()
    ls = lockables(P)
    for cls in sorted(ls):
        ms = {base(f.n): f for f in P.funcs.values() if f.scls == cls and base(f.n) in ("lock", "unlock") and f.body}
        lk, ul = ms.get("lock"), ms.get("unlock")
        if lk is None or ul is None or not any(lock_call(P, x) for x in lk.nodes()):
            continue
        n += 1
        done |= {lk.key, ul.key}
        R.fn(lk, ul)
        rule = Balance(P)
        outs, eng = R.engine(P, rule, lk)
        bad = [(w, why) for w, why in rule.bad]
        for kind, st, v in outs:
            h = held(st)
            if kind == "t" and h:
                bad.append((lk.where, "when it fails, %s stays locked" % names_of(h)))
            if kind != "t":
                if not h:
                    bad.append((lk.where, "returns without having locked anything"))
                r2 = Balance(P)
                o2, _ = R.engine(P, r2, ul, st=st.copy())
                bad += r2.bad
                for k2, st2, v2 in o2:
                    h2 = held(st2) if k2 == "r" else None
                    if h2:
                        bad.append((ul.where, "after unlock() %s is still locked" % names_of(h2)))
        R.ob("lock and unlock", cls, not bad, bad[0][0] if bad else lk.where,
             bad[0][1] if bad else "unlock() releases what lock() took, and a failing lock() leaves nothing locked")
    R.need(n >= 3, "lock implementations")
    m = 0
    for r in guard_classes(P):
        for g in ctors_of(P, r):
            m += 1
            done.add(g.key)
            R.fn(g)
            rule = Balance(P)
            outs, eng = R.engine(P, rule, g)
            bad = list(rule.bad)
            d = P.funcs.get(r.get("dtor", ""))
            if d:
                done.add(d.key)
            got = False
            for kind, st, v in outs:
                if kind == "t":
                    unwind(P, r, st, rule, g.where)
                    if held(st):
                        bad.append((g.where, "when the constructor fails, %s stays locked" % names_of(held(st))))
                    continue
                got = got or bool(held(st))
                o2 = [("r", st.copy(), None)]
                if d and d.body:
                    r2 = Balance(P)
                    o2, _ = R.engine(P, r2, d, st=st.copy())
                    bad += r2.bad
                for k2, st2, v2 in o2:
                    unwind(P, r, st2, rule, (d or g).where)
                    h2 = held(st2)
                    if h2:
                        bad.append(((d or g).where, "after its destruction %s is %s" % (
                            names_of(h2), "still locked" if max(h2.values()) > 0 else "released once too often")))
            if not got and not any(NOT_YET.search(p["t"]) for p in g.d["p"]):
                bad.append((g.where, "the guard does not lock anything"))
            R.ob("guard", "%s(%s)" % (PR.strip_t(r["n"]) + "<" + r["n"].split("<", 1)[1] if "<" in r["n"] else r["n"],
                                      ", ".join(short_lock(bare(p["t"])) for p in g.d["p"])), not bad,
                 bad[0][0] if bad else g.where, bad[0][1] if bad else "the destructor releases what the constructor took")
    R.need(m >= 3, "guards")
    k = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.key in done or not f.body or f.owner or in_lock_class(P, f):
            continue
        if not any(lock_call(P, x) for g in [f] + list(inner(P, f)) for x in g.nodes()):
            continue
        k += 1
        R.fn(f)
        rule = Balance(P)
        outs, eng = R.engine(P, rule, f)
        bad = list(rule.bad)
        for kind, st, v in outs:
            h = held(st)
            if h:
                last = [e[2] for e in st.trace if e[0] == "L" and e[1] in h]
                bad.append((last[-1] if last else f.where, "%s is still locked when the function %s" % (
                    names_of(h), "fails" if kind == "t" else "returns")))
        R.ob("raw locking", f.sn, not bad, bad[0][0] if bad else f.where,
             bad[0][1] if bad else "released at all of the %d exits" % len(outs))
    R.notes.append("%d lock implementations, %d guard constructors, %d functions with raw lock calls" % (n, m, k))


def inner(P, f):
    for x in f.nodes():
        if x.get("k") == "lambda":
            g = P.funcs.get(x["f"])
            if g and g.body:
                yield g
                yield from inner(P, g)


def in_lock_class(P, f):
    r = P.record_of(f.cls or "")
    return f.scls in lockables(P) and base(f.n) in ("lock", "unlock", "try_lock") or bool(r and guard_like(P, r))


def names_of(h):
    return ", ".join(sorted(show_loc(l) for l in h))


def show_loc(l):
    if isinstance(l, tuple):
        if l[0] in ("m",):
            return l[2].rsplit("::", 1)[-1]
        if l[0] in ("p", "v", "g"):
            return str(l[-1])
        if l[0] == "d":
            return "*" + show_loc(l[1])
        if l[0] == "in" or l[0] == "addr":
            return show_loc(l[1])
        if l[0] == "call":
            return "the object " + base(str(l[1]))[:20]
    return "an object"


@rule("L05")
def shared_objects_do_not_change(P, R):
    """The classes reached from the file system object (which all threads of the file system share) through
    fields, smart pointers and derived classes, up to objects that have a lock of their own and to per-thread
    objects.  In every function reachable from the operations, no field of such a class may be changed unless it
    is atomic or guarded by a sibling mutex (whose holding the lock rule checks); the same for static variables.  What a
    ThreadLocal hands out must have been made for this object by this thread."""
    sh = shared_classes(P)
    R.need(len(sh) >= 8, "classes shared by all threads")
    G = guarded(P)
    reach = set(P.reach(ops_roots(P)))
    fields = {}
    for c, r in sh.items():
        for fl in r["fields"]:
            fields[fl["n"]] = (r, fl)
    bad = defaultdict(list)
    nf = 0
    for k in sorted(reach):
        f = P.funcs.get(k)
        if f is None or not f.body:
            continue
        nf += 1
        if f.d.get("ctor") or base(f.n).startswith("~"):
            continue
        for m, x in shared_mutations(P, f):
            if m["f"] not in fields or fresh_local(P, f, m):
                continue
            t = fields[m["f"]][1]["t"]
            if SAFE_MEMBER.match(t) or PER_THREAD.match(t) or m["f"] in G:
                continue
            bad[m["f"]].append((f, x))
    for c in sorted(sh):
        r = sh[c]
        here = [fl for fl in r["fields"] if fl["n"] in bad]
        R.ob("shared class", c, not here, here and "%s:%s" % (bad[here[0]["n"]][0][0].short, bad[here[0]["n"]][0][1].get("l")) or "",
             here and "%s is changed by %s without a lock, while other threads use the object" % (
                 here[0]["n"].rsplit("::", 1)[-1], bad[here[0]["n"]][0][0].sn) or
             "%d fields: none is changed by the file system operations, or it is atomic, guarded or per thread" % len(r["fields"]))
    # static variables
    ns = 0
    for k in sorted(reach):
        f = P.funcs.get(k)
        if f is None or not f.body:
            continue
        for x in f.nodes():
            if x.get("s") != "decl":
                continue
            for v in x["v"]:
                if not v.get("static"):
                    continue
                ns += 1
                t = v["t"]
                ok = bool(v.get("tls")) or t.startswith("const ") or bool(SAFE_MEMBER.match(t)) or v.get("ref") \
                    or own_lock(P, t) or not changed(P, f, v)
                R.ob("static variable", "%s: %s" % (f.sn, v["n"]), ok, "%s:%s" % (f.short, v.get("l")),
                     "one per thread, constant, never changed, or with a lock of its own" if ok else
                     "shared by all threads and changed without a lock")
    # per-thread objects
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        r = P.record_of(f.cls or "")
        if f.body and base(f.n) == "get" and r and PR.strip_t(f.scls or "").endswith("ThreadLocal"):
            n += 1
            thread_local_get(P, R, f)
    R.need(n, "per-thread objects")
    R.notes.append("%d functions reachable from the operations; shared: %s; %d static variables; %d per-thread types" % (
        nf, ", ".join(sorted(c.split("::")[-1] for c in sh)), ns, n))


def own_lock(P, t):
    r = P.record_of(bare(t))
    return bool(r and any(is_mutex(fl["t"]) for fl in r["fields"]))


def changed(P, f, v):
    for g in [f] + list(inner(P, f)):
        for x in g.nodes():
            k = x.get("k")

            def root(e):
                while isinstance(e, dict) and e.get("k") in ("mem", "idx", "cast", "paren"):
                    e = e.get("b") if e["k"] == "mem" else e["a"]
                return isinstance(e, dict) and e.get("k") == "var" and e.get("id") == v["id"]
            if k == "asg" and root(x["a"]) or k == "un" and x.get("op") not in ("*", "-", "!", "~") and root(x.get("a")):
                return True
            if k == "call":
                if x.get("o") is not None and root(x["o"]) and not x.get("cm"):
                    return True
                if any(pt in ("r", "p", "rr") and root(a) for a, pt in zip(x.get("a", ()), x.get("pt", ()))):
                    return True
            if x.get("s") == "return" and f.d.get("ret", "").rstrip().endswith(("&", "*")) and not f.d.get(
                    "ret", "").startswith("const") and x.get("e") is not None and root(x["e"]):
                return True
    return False


def fresh_local(P, f, m):
    """the object is a local value of the function"""
    b = m["b"]
    while isinstance(b, dict) and b.get("k") == "mem" and not b.get("arrow"):
        b = b["b"]
    if not isinstance(b, dict) or b.get("k") != "var":
        return False
    for x in f.nodes():
        if x.get("s") == "decl":
            for v in x["v"]:
                if v["id"] == b["id"]:
                    return not v["t"].rstrip().endswith(("&", "*"))
    return any(p["id"] == b["id"] and not p["t"].rstrip().endswith(("&", "*")) for p in f.d["p"])


class TL(Rule):
    loop_iters = 1

    def inline(s, eng, f, ev):
        return False

    def on_ret(s, eng, st, ev, val):
        if ev.base == "operator()" or "function" in ev.name:
            st.emit(("made", ev.where))


def thread_local_get(P, R, f):
    outs, eng = R.engine(P, TL(), f)
    R.fn(f)
    bad = None
    n = 0
    gen = [fl for r in P.records.values() for fl in r["fields"] if r["n"] in {f.scls, *P.all_bases(f.cls or "")}]
    for kind, st, v in outs:
        if kind != "r":
            continue
        n += 1
        if any(e[0] == "made" for e in st.trace):
            continue
        # reused: the slot's mark must be known to equal a field of this object
        ok = False
        for key, (lo, hi) in st.iv.items():
            if lo == 0 and hi == 0 and len(key) == 2 and any(mentions_this(t) for t, c in key):
                ok = True
        if not ok:
            bad = "an object of another ThreadLocal, or of an earlier one in the same slot, may be handed out"
    R.ob("per-thread object", f.n, not bad, f.where, bad or "reused only if the slot's generation is this object's (%d paths)" % n)


def mentions_this(t):
    return any(isinstance(x, tuple) and x == ("obj", "this") for x in walk_terms(t))


def walk_terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk_terms(x)
