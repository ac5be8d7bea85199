"""Whole-program flow of scalar settings: which stored option a parameter, field or expression is a copy of.

Flow-insensitive, field-sensitive, exact for copies: an origin is ("set", name, negated) for a value read from a
configuration or option message, ("=", n) for a constant, or ("?",) for anything computed."""
import re
from . import prog as PR
from .util import base, callers, var_defs

Q = ("?",)
MSG = re.compile(r"(Params|MountOptions|InternalMountData)$")
CASTS = ("cast", "bitcast", "paren", "bind", "tmp", "load", "clean")


def made(n):
    t = n.get("t") or ""
    m = re.search(r"(?:shared_ptr|unique_ptr)<(.*)>$", t)
    s = m.group(1) if m else ""
    d = 0
    for i, ch in enumerate(s):
        d += ch == "<"
        d -= ch == ">"
        if ch == "," and d == 0:
            s = s[:i]
            break
    return PR.strip_t(s).strip()


def scalar(t):
    t = (t or "").replace("const ", "").strip()
    return t in ("bool", "int", "unsigned int", "unsigned", "unsigned long", "long", "unsigned short", "uint32_t",
                 "size_t", "length_type", "securefs::length_type", "unsigned long long", "long long", "std::string",
                 "std::string_view", "offset_type", "absl::Duration") or t.startswith("std::basic_string")


def flip(s):
    return {(o[0], o[1], not o[2]) if o[0] == "set" else ("=", int(not o[1])) if o[0] == "=" else o for o in s}


class Flows:
    def __init__(s, P):
        s.P = P
        s.memo = {}
        s.busy = set()
        s.fields = {}
        s.makes = {}
        s.strong = {}
        for f in P.funcs.values():
            for i in f.d.get("inits", ()):
                if i.get("field") and i.get("e"):
                    s.fields.setdefault(i["field"], []).append((f, i["e"]))
            for n in f.nodes():
                k = n.get("k")
                if k == "asg" and n["a"].get("k") == "mem":
                    s.fields.setdefault(n["a"]["f"], []).append((f, n["b"] if n.get("op", "=") == "=" else None))
                elif k == "call" and base(n.get("n") or "") == "operator=" and n.get("o", {}) and \
                        (n.get("o") or {}).get("k") == "mem" and n.get("a"):
                    s.fields.setdefault(n["o"]["f"], []).append((f, n["a"][-1]))
                elif k == "inc" and n["a"].get("k") == "mem":
                    s.fields.setdefault(n["a"]["f"], []).append((f, None))
                elif k == "call" and base(n.get("n") or "") in ("make_shared", "make_unique"):
                    s.makes.setdefault(made(n), []).append((f, n))
                elif k == "ctor" and n.get("cls") == "securefs::StrongType" and not n.get("cp") and n.get("a") \
                        and f.scls != "securefs::StrongType":
                    s.strong.setdefault(tagtype(n["t"]), []).append((f, n["a"][0]))

    def of(s, f, n):
        """origins of an expression, as copies"""
        if n is None:
            return {Q}
        k = n.get("k")
        if k == "int":
            return {("=", n["v"])}
        if k == "un" and n.get("op") == "!":
            return flip(s.of(f, n["a"]))
        if k == "cond":
            return s.of(f, n["b"]) | s.of(f, n["d"] if "d" in n else n.get("e"))
        if k == "var":
            return s.var(f, n)
        if k == "mem":
            if n.get("b") is not None and "StrongType" in (n["b"].get("t") or ""):
                return s.tag(n["b"].get("t"))
            return s.field(n["f"])
        if k == "call" and n.get("n"):
            b = base(n["n"])
            mc = n.get("mc") or ""
            if MSG.search(mc) and not n.get("a") and not b.startswith(("has_", "mutable_")):
                return {("set", b, False)}
            if b == "get" and "StrongType" in mc and not n.get("a"):
                return s.tag((n.get("o") or {}).get("t"))
            if b in ("move", "forward", "clone", "as_const", "min", "max") and b not in ("min", "max") and n.get("a"):
                return s.of(f, n["a"][0])
            g = s.P.funcs.get(n.get("f"))
            if g is not None and not n.get("vt") and scalar(g.d.get("ret")):
                return s.returns(g)
            return {Q}
        if k == "ctor":
            a = [x for x in n.get("a", ()) if "allocator" not in (x.get("t") or "")]
            if len(a) == 1 and (n.get("cp") or n.get("cls") in ("std::basic_string", "std::basic_string_view",
                                                                "std::optional", "securefs::StrongType")):
                return s.of(f, a[0])
            return {Q}
        for key in ("a", "e"):
            if isinstance(n.get(key), dict) and k not in ("bin", "asg", "inc", "un", "idx", "addr", "deref"):
                return s.of(f, n[key])
        return {Q}

    def guard(s, key, fn):
        if key in s.memo:
            return s.memo[key]
        if key in s.busy:
            return set()
        s.busy.add(key)
        try:
            r = fn()
        finally:
            s.busy.discard(key)
        s.memo[key] = r
        return r

    def tag(s, t):
        t = tagtype(t)

        def go():
            r = set()
            for f, e in s.strong.get(t, ()):
                r |= s.of(f, e)
            return r or {Q}
        return s.guard(("tag", t), go)

    def field(s, fld):
        def go():
            r = set()
            for f, e in s.fields.get(fld, ()):
                r |= s.of(f, e)
            return r or {Q}
        return s.guard(("field", fld), go)

    def returns(s, g):
        def go():
            r = set()
            for n in g.nodes():
                if n.get("s") == "return" and n.get("e"):
                    r |= s.of(g, n["e"])
            return r or {Q}
        return s.guard(("ret", g.key), go)

    def var(s, f, n):
        g = f
        while g is not None:
            for i, p in enumerate(g.d["p"]):
                if p["id"] == n["id"]:
                    return s.param(g, i)
            d = var_defs(g).get(n["id"])
            if d:
                r = set()
                for e in d:
                    r |= s.guard(("v", g.key, n["id"], id(e)), lambda e=e: s.of(g, e))
                return r
            g = g.owner
        return {Q}

    def param(s, g, i):
        def go():
            if "StrongType" in g.d["p"][i]["t"]:
                return s.tag(g.d["p"][i]["t"])
            r = set()
            for c, e in s.actuals(g, i):
                r |= s.of(c, e)
            if g.d.get("virt"):
                r = r | {Q}
            return r        # no caller: nothing flows in
        return s.guard(("param", g.key, i), go)

    def actuals(s, g, i):
        for c in callers(s.P, g):
            for n in c.nodes():
                if n.get("f") == g.key and n.get("k") in ("call", "ctor") and len(n.get("a", ())) > i:
                    yield c, n["a"][i]
        if g.d.get("ctor"):
            for c, n in s.makes.get(g.scls, ()):
                if len(n["a"]) == len(g.d["p"]):
                    yield c, n["a"][i]
            for d in s.inits().get(g.key, ()):
                if len(d[1].get("a", ())) > i:
                    yield d[0], d[1]["a"][i]

    def inits(s):
        r = s.__dict__.get("_inits")
        if r is None:
            r = s._inits = {}
            for d in s.P.funcs.values():
                for x in d.d.get("inits", ()):
                    for e in ([x["e"]] if x.get("e") else ()):
                        for y in PR.walk(e):
                            if y.get("k") == "ctor" and y.get("f"):
                                r.setdefault(y["f"], []).append((d, y))
        return r

    def settings(s, f, node):
        """all settings an expression depends on, through arithmetic too"""
        out = set()
        for n in slice_pure(f, node):
            if n.get("k") in ("var", "mem", "call"):
                out |= {o for o in s.of(f, n) if o[0] == "set"}
        return out


def slice_pure(f, node):
    defs = var_defs(f)
    todo, seen = [node], set()
    while todo:
        x = todo.pop()
        for n in PR.walk(x):
            yield n
            if n.get("k") == "var" and n["id"] in defs and n["id"] not in seen:
                seen.add(n["id"])
                todo += defs[n["id"]]


def tagtype(t):
    m = re.search(r"StrongType<.*, ([\w:]+)>", t or "")
    return m.group(1) if m else t


def flows(P):
    r = P.__dict__.get("_flows")
    if r is None:
        r = P._flows = Flows(P)
    return r
