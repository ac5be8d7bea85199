"""Which exceptions may leave a function: a fixpoint over the call graph with the try blocks of each body."""
import re
from collections import defaultdict
from . import prog as PR

STD = {"std::runtime_error": ("std::exception",), "std::range_error": ("std::runtime_error", "std::exception"),
       "std::out_of_range": ("std::logic_error", "std::exception"),
       "std::exception": ()}


def tname(t):
    return PR.strip_t(re.sub(r"^(const|volatile) ", "", t or "")).rstrip("& ").strip()


class Escapes:
    """esc[f.key]: {exception type: (line or file:line, callee key or None)}"""

    def __init__(s, P, source=None):
        s.P = P
        s.source = source or (lambda n: None)     # extra throwing calls: node -> exception type or None
        s.bases = {}
        for f in P.funcs.values():
            for n in f.nodes():
                if n.get("k") == "throw" and n.get("t"):
                    s.bases[tname(n["t"])] = {tname(b) for b in n.get("bases", ())}
        for k, v in STD.items():
            s.bases.setdefault(k, set(v))
        s.direct = set()
        for f in P.funcs.values():
            for n in f.nodes():
                if n.get("k") == "call" and n.get("f"):
                    s.direct.add(n["f"])
        s.esc = {k: {} for k in P.funcs}
        s.deps = defaultdict(set)
        s.shape = {k: s.flatten(f) for k, f in P.funcs.items()}
        todo = list(P.funcs)
        inq = set(todo)
        while todo:
            k = todo.pop()
            inq.discard(k)
            new = s.compute(k)
            if set(new) - set(s.esc[k]):
                for t in new:
                    s.esc[k].setdefault(t, new[t])
                for d in s.deps[k]:
                    if d not in inq:
                        inq.add(d)
                        todo.append(d)

    def kind_of(s, t):
        return {t} | s.bases.get(t, set())

    def flatten(s, f):
        """[(what, handlers)] with what = ("throw", type, line) | ("call", keys, line) | ("rethrow", hid, line),
        handlers = tuple of tuple(caught types or None)  innermost last"""
        out = []
        P = s.P
        dtors = defaultdict(list)

        def expr(n, hs, hid):
            for x in PR.walk(n):
                visit(x, hs, hid)

        def visit(x, hs, hid):
            k = x.get("k")
            if k == "throw":
                if x.get("t"):
                    out.append((("throw", tname(x["t"]), x.get("l")), hs))
                elif hid is not None:
                    out.append((("rethrow", hid, x.get("l")), hs))
            elif k in ("call", "ctor"):
                e = s.source(x)
                if e:
                    out.append((("throw", e, x.get("l")), hs))
                ts = [t.key for t in P.targets(x)]
                if ts and not x.get("nx_only"):
                    out.append((("call", tuple(ts), x.get("l")), hs))
            elif k == "lambda":
                ts = [y for y in [x["f"]] + list(x.get("gen", ())) if y in P.funcs and y not in s.direct]
                if ts:
                    out.append((("call", tuple(ts), x.get("l")), hs))

        hcount = [0]
        s_h = {}

        def stmt(n, hs, hid):
            if n is None:
                return
            if n.get("s") is None:
                expr(n, hs, hid)
                return
            if n["s"] == "try":
                hcount[0] += 1
                me = hcount[0]
                types = tuple(tname(h.get("t")) if h.get("t") else None for h in n["h"])
                stmt(n["b"], hs + ((me, types),), hid)
                for i, h in enumerate(n["h"]):
                    stmt(h["b"], hs, (me, i))
                return
            if n["s"] == "decl":
                for v in n["v"]:
                    if v.get("dtor") and not v.get("ref"):
                        ts = [t.key for t in P.dtor_chain(v["t"])]
                        if ts:
                            out.append((("call", tuple(ts), v.get("l")), hs))
            for c in PR.kids(n):
                if c is not None:
                    stmt(c, hs, hid)

        for i in f.d.get("inits", ()):
            if i.get("e"):
                expr(i["e"], (), None)
        if f.body:
            stmt(f.body, (), None)
        for w, hs in out:
            if w[0] == "call":
                for k in w[1]:
                    s.deps[k].add(f.key)
        return out

    def nx(s, f):
        """declared (or implicitly) unable to throw"""
        if "::~" in f.sn and f.d.get("nx") is not False:
            return True
        return bool(f.d.get("nx"))

    def inside(s, k, through_nx=False):
        """types thrown inside f and not caught in it (before noexcept stops them)"""
        f = s.P.funcs[k]
        res = {}
        caught = defaultdict(dict)
        for w, hs in s.shape[k]:
            if w[0] == "throw":
                ts = {w[1]: (w[2], None)}
            elif w[0] == "call":
                ts = {}
                for c in w[1]:
                    for t in s.esc.get(c, ()):
                        ts.setdefault(t, (w[2], c))
            else:
                continue
            s._go(ts, hs, res, caught)
        # rethrows: whatever the handler caught leaves again
        for _ in range(3):
            for w, hs in s.shape[k]:
                if w[0] == "rethrow":
                    s._go(dict(caught[w[1]]), hs, res, caught)
        return res

    def _go(s, ts, hs, res, caught):
        for t, wit in ts.items():
            kinds = s.kind_of(t)
            for me, types in reversed(hs):
                hit = next((i for i, c in enumerate(types) if c is None or c in kinds), None)
                if hit is not None:
                    caught[(me, hit)].setdefault(t, wit)
                    break
            else:
                res.setdefault(t, wit)

    def compute(s, k):
        f = s.P.funcs[k]
        if s.nx(f):
            return {}
        return s.inside(k)

    def path(s, k, t, n=8):
        out = []
        res = s.inside(k)
        for _ in range(n):
            if t not in res:
                break
            l, c = res[t]
            out.append("%s (line %s)" % (s.P.funcs[k].sn, l))
            if c is None:
                break
            k = c
            res = s.esc[k]        # recorded as found, so acyclic
        return out
