"""The resolved program: functions, records, call graph, override map, walkers, pretty printer."""
import functools
import re
from collections import defaultdict
from . import frontend
from .frontend import Broken


def kids(n):
    """Direct sub-nodes (expressions or statements) of a node, in evaluation order where it matters."""
    s = n.get("s")
    if s is None:
        k = n.get("k")
        if k == "call":
            if n.get("fx"):
                yield n["fx"]
            if n.get("o"):
                yield n["o"]
            yield from n.get("a", ())
        elif k == "mem":
            yield n["b"]
        elif k in ("asg",):
            yield n["b"]
            yield n["a"]
        elif k in ("bin", "idx"):
            yield n["a"]
            yield n["b"]
        elif k == "cond":
            yield n["c"]
            yield n["a"]
            yield n["b"]
        elif k in ("ctor", "list", "other"):
            yield from n.get("a", ())
        elif k == "lambda":
            for c in n["caps"]:
                if c.get("init"):
                    yield c["init"]
        else:
            for f in ("n", "a"):
                v = n.get(f)
                if isinstance(v, dict):
                    yield v
                elif isinstance(v, list):
                    yield from (x for x in v if isinstance(x, dict))
        return
    if s == "decl":
        for v in n["v"]:
            if v.get("init"):
                yield v["init"]
        return
    if s == "rfor":
        if n.get("init"):
            yield n["init"]
        yield n["r"]
        yield n["b"]
        return
    if s == "try":
        yield n["b"]
        for h in n["h"]:
            yield h["b"]
        return
    for f in ("init", "var", "c", "e" if s != "if" else "t", "t" if s != "if" else "e", "b", "inc"):
        v = n.get(f)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            yield from (x for x in v if isinstance(x, dict))


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st.extend(reversed([c for c in kids(x) if c is not None]))


@functools.lru_cache(maxsize=None)
def strip_t(n):
    """Remove template arguments from a qualified name."""
    out = []
    d = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == "<" and not n.startswith("operator<", max(0, i - 8)):
            d += 1
        elif c == ">" and d > 0 and n[i - 1] != "-":
            d -= 1
            i += 1
            continue
        if d == 0:
            out.append(c)
        i += 1
    return "".join(out)


@functools.lru_cache(maxsize=None)
def base_name(n):
    return strip_t(n).split("::")[-1] if "operator" not in n else \
        strip_t(n)[strip_t(n).rfind("::") + 2:] if "::" in strip_t(n) else strip_t(n)


class Func:
    __slots__ = ("d", "key", "n", "sn", "file", "l", "tu", "cls", "scls", "_calls", "owner")

    def __init__(s, d, tu):
        s.d = d
        s.key = d["key"]
        s.n = d["n"]
        s.sn = strip_t(s.n)
        s.file = d["file"]
        s.l = d["l"]
        s.tu = tu
        s.cls = d.get("cls")
        s.scls = strip_t(s.cls) if s.cls else None
        s._calls = None
        s.owner = None

    def __repr__(s):
        return "<%s>" % s.n

    @property
    def body(s):
        return s.d.get("body")

    @property
    def short(s):
        return s.file.replace(frontend.REPO.rstrip("/") + "/", "")

    @property
    def where(s):
        return "%s:%d" % (s.short, s.l)

    def nodes(s):
        """All nodes of the body and of constructor initialisers, lambdas not entered."""
        for i in s.d.get("inits", ()):
            if i.get("e"):
                yield from walk(i["e"])
        if s.body:
            yield from walk(s.body)


class Prog:
    def __init__(s, dumps):
        s.dumps = dumps
        s.funcs = {}
        s.records = {}
        s.globals = {}
        s.by_name = defaultdict(list)
        s.errors = {}
        for d in dumps:
            if d["errors"]:
                s.errors[d["tu"]] = d["diag"]
            for f in d["functions"]:
                g = s.funcs.get(f["key"])
                if g is None or (not g.body and f.get("body")):
                    s.funcs[f["key"]] = Func(f, d["tu"])
            for r in d["records"]:
                rk = r["t"] if "<" in r.get("t", "") else r["n"]
                o = s.records.get(rk)
                if o is None:
                    s.records[rk] = r
                else:
                    have = {m["key"] for m in o["methods"]}
                    o["methods"].extend(m for m in r["methods"] if m["key"] not in have)
            for g in d["globals"]:
                s.globals.setdefault(g["n"], g)
        for f in s.funcs.values():
            s.by_name[f.sn].append(f)
        s.overriders = defaultdict(set)
        for r in s.records.values():
            for m in r["methods"]:
                for o in m["over"]:
                    s.overriders[o].add(m["key"])
        for f in s.funcs.values():
            for o in f.d.get("over", ()):
                s.overriders[o].add(f.key)
        s.method_decl = {}
        for r in s.records.values():
            for m in r["methods"]:
                s.method_decl[m["key"]] = (r, m)
        s.derived = defaultdict(set)
        s.rec_by_t = {}
        for r in s.records.values():
            s.rec_by_t.setdefault(r["n"], r)
            s.rec_by_t.setdefault(r.get("t", ""), r)
        for r in s.records.values():
            for b in r["bases"]:
                br = s.rec_by_t.get(b)
                s.derived[br["n"] if br else b].add(r["n"])
        # lambdas: who creates them
        for f in list(s.funcs.values()):
            for n in f.nodes():
                if n.get("k") == "lambda":
                    for k in [n["f"]] + list(n.get("gen", ())):
                        if k in s.funcs and s.funcs[k].owner is None:
                            s.funcs[k].owner = f

    # ---- lookup
    def get(s, name):
        """The functions with this template-stripped qualified name that have a body."""
        return [f for f in s.by_name.get(name, ()) if f.body or f.d.get("ctor")]

    def one(s, name):
        fs = s.get(name)
        if not fs:
            raise Broken("anchor function %s not found" % name)
        return fs[0]

    def methods_of(s, cls):
        return [f for f in s.funcs.values() if f.scls == cls and (f.body or f.d.get("ctor"))]

    def all_derived(s, cls):
        out, st = set(), [cls]
        while st:
            c = st.pop()
            for d in s.derived.get(c, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def all_bases(s, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            r = s.rec_by_t.get(c)
            if not r:
                continue
            for b in r["bases"]:
                br = s.rec_by_t.get(b)
                bn = br["n"] if br else b
                if bn not in out:
                    out.append(bn)
                    st.append(bn)
        return out

    def all_overriders(s, key):
        out, st = set(), [key]
        while st:
            k = st.pop()
            for o in s.overriders.get(k, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return out

    # ---- call graph
    def targets(s, call):
        """Repository functions a call/ctor node may run directly."""
        k = call.get("f")
        if not k:
            return []
        out = []
        if k in s.funcs:
            out.append(s.funcs[k])
        if call.get("vt"):
            for o in sorted(s.all_overriders(k)):
                if o in s.funcs:
                    out.append(s.funcs[o])
        return out

    def record_of(s, t):
        t = re.sub(r"^(const|volatile) ", "", t)
        return s.rec_by_t.get(t)

    def dtor_chain(s, t, seen=None):
        """Destructor functions run when an object of type t dies."""
        seen = seen if seen is not None else set()
        r = s.record_of(t)
        if not r or r["n"] in seen:
            return []
        seen.add(r["n"])
        out = []
        f = s.funcs.get(r.get("dtor", ""))
        if f and f.d.get("lambda"):
            f = None
        if f and f.body:
            out.append(f)
        for fl in r["fields"]:
            out += s.dtor_chain(fl["t"], seen)
        for b in r["bases"]:
            out += s.dtor_chain(b, seen)
        return out

    def calls(s, f):
        """Call-like nodes of f: list of (node, [target Func]). Lambdas created count as called."""
        if f._calls is None:
            out = []
            for n in f.nodes():
                k = n.get("k")
                if k in ("call", "ctor"):
                    out.append((n, s.targets(n)))
                elif k == "lambda":
                    out.append((n, [s.funcs[x] for x in [n["f"]] + list(n.get("gen", ())) if x in s.funcs]))
                elif k == "fn" and n.get("f") in s.funcs:
                    out.append((n, [s.funcs[n["f"]]]))
                if n.get("s") == "decl":
                    for v in n["v"]:
                        if v.get("dtor") and not v.get("ref"):
                            ts = s.dtor_chain(v["t"])
                            if ts:
                                out.append((dict(k="dtor", n=v["dtorn"] + "::~", l=v["l"]), ts))
            f._calls = out
        return f._calls

    def reach(s, roots, stop=lambda f: False):
        """Transitively called repository functions -> parent map."""
        par = {}
        st = []
        for r in roots:
            par[r.key] = None
            st.append(r)
        while st:
            f = st.pop()
            if stop(f):
                continue
            for n, ts in s.calls(f):
                for t in ts:
                    if t.key not in par:
                        par[t.key] = (f.key, n.get("l"))
                        st.append(t)
        return par

    def path(s, par, key):
        out = []
        k = key
        while k is not None:
            out.append(s.funcs[k].sn)
            p = par[k]
            k = p[0] if p else None
        return " <- ".join(out)

    def reaching(s, pred):
        """Functions from which a call node satisfying pred(node) is reachable."""
        rev = defaultdict(set)
        hit = set()
        for f in s.funcs.values():
            for n, ts in s.calls(f):
                if pred(n):
                    hit.add(f.key)
                for t in ts:
                    rev[t.key].add(f.key)
        st = list(hit)
        while st:
            k = st.pop()
            for p in rev[k]:
                if p not in hit:
                    hit.add(p)
                    st.append(p)
        return hit


_prog = None


def load():
    global _prog
    if _prog is None:
        dumps, _ = frontend.dump()
        _prog = Prog(dumps)
    return _prog


# ---------------------------------------------------------------- pretty printer
def pe(e):
    if e is None:
        return "?"
    k = e.get("k")
    if k == "int":
        return e.get("n") or str(e["v"])
    if k == "str":
        return '"%s"' % e.get("v", "")
    if k in ("var", "gvar", "ref"):
        return e["n"]
    if k == "this":
        return "this"
    if k == "mem":
        return pe(e["b"]) + ("->" if e["arrow"] else ".") + e["f"].split("::")[-1]
    if k == "call":
        a = ", ".join(pe(x) for x in e["a"])
        fn = e.get("n") or "(%s)" % pe(e.get("fx"))
        if e.get("o"):
            return "%s%s%s(%s)" % (pe(e["o"]), "->" if e.get("arrow") else ".", strip_t(fn).split("::")[-1], a)
        return "%s(%s)" % (strip_t(fn), a)
    if k == "ctor":
        return "%s{%s}" % (strip_t(e["cls"]), ", ".join(pe(x) for x in e["a"]))
    if k in ("asg", "bin"):
        return "(%s %s %s)" % (pe(e["a"]), e["op"], pe(e["b"]))
    if k == "un":
        return e["op"] + pe(e["a"])
    if k == "inc":
        return e["op"] + pe(e["a"]) if e["pre"] else pe(e["a"]) + e["op"]
    if k == "cond":
        return "(%s ? %s : %s)" % (pe(e["c"]), pe(e["a"]), pe(e["b"]))
    if k == "idx":
        return "%s[%s]" % (pe(e["a"]), pe(e["b"]))
    if k in ("cast", "dyncast", "downcast", "bitcast"):
        return "%s<%s>(%s)" % (k, strip_t(e["t"]), pe(e["a"]))
    if k == "fn":
        return "&" + strip_t(e["n"])
    if k == "throw":
        return "throw " + pe(e.get("a"))
    if k == "lambda":
        return "[lambda %s]" % e["f"].split(":")[1]
    if k == "list":
        return "{%s}" % ", ".join(pe(x) for x in e["a"])
    return "<%s>" % k


def ps(st, ind=0):
    p = "  " * ind
    s = st["s"]
    L = "%4d " % st.get("l", 0)
    if s == "block":
        return "".join(ps(x, ind) for x in st["b"])
    if s == "decl":
        return "".join("%s%s%s%s %s = %s%s\n" % (L, p, strip_t(v["t"]), "&" if v.get("ref") else "", v["n"],
                       pe(v.get("init")), "  [~]" if v.get("dtor") else "") for v in st["v"])
    if s == "expr":
        return L + p + pe(st["e"]) + "\n"
    if s == "return":
        return L + p + "return " + (pe(st["e"]) if st.get("e") else "") + "\n"
    if s == "if":
        r = ""
        if st.get("init"):
            r += ps(st["init"], ind)
        if st.get("var"):
            r += ps(st["var"], ind)
        r += L + p + "if " + pe(st["c"]) + "\n" + ps(st["t"], ind + 1)
        if st.get("e"):
            r += "     " + p + "else\n" + ps(st["e"], ind + 1)
        return r
    if s in ("while", "do", "switch"):
        return L + p + s + " " + pe(st["c"]) + "\n" + ps(st["b"], ind + 1)
    if s == "for":
        return (ps(st["init"], ind) if st.get("init") else "") + L + p + "for %s; %s\n" % (
            pe(st.get("c")), pe(st.get("inc"))) + ps(st["b"], ind + 1)
    if s == "rfor":
        return L + p + "for %s : %s\n" % (st["v"]["n"], pe(st["r"])) + ps(st["b"], ind + 1)
    if s == "try":
        r = L + p + "try\n" + ps(st["b"], ind + 1)
        for h in st["h"]:
            r += "     " + p + "catch %s\n" % h.get("t", "...") + ps(h["b"], ind + 1)
        return r
    if s in ("case", "default"):
        return L + p + s + " " + (pe(st["c"]) if st.get("c") else "") + "\n" + ps(st["b"], ind + 1)
    return L + p + s + "\n"


if __name__ == "__main__":
    import sys
    P = load()
    for nm in sys.argv[1:]:
        for f in P.by_name.get(nm, []):
            print("==", f.n, f.where, [(p["n"], p["t"]) for p in f.d["p"]])
            for i in f.d.get("inits", ()):
                print("   init", i.get("field") or i.get("base"), pe(i.get("e")))
            if f.body:
                print(ps(f.body))
