"""G03: the size reported of a file is the number of bytes it reads as"""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY
from .records import param
from .common import base


def stats(f):
    """the positions of the parameters that attributes are put in"""
    return [i for i, p in enumerate(f.d["p"]) if PR.strip_t(p["t"]).replace("const ", "").replace("struct ", "").strip() in ("stat *", "fuse_stat *")]


def raw_sources(P):
    """what takes attributes from the system, with the declarations it stands behind"""
    got = set()
    for f in P.funcs.values():
        if f.body and stats(f) and any(n.get("k") == "call" and n.get("ext") and base(n.get("n") or "") in ("stat", "lstat", "fstat", "fstatat", "stat64", "fstatat64", "lstat64", "fstat64") for n in f.nodes()):
            got.add(f.key)
    for k in list(got):
        todo = [k]
        while todo:
            for o in P.funcs[todo.pop()].d.get("over") or ():
                if o not in got and o in P.funcs:
                    got.add(o)
                    todo.append(o)
    return got


class Role:
    def __init__(s, P):
        s.raw = raw_sources(P)
        # what turns a stored size into the size of the contents: three numbers to one, used by a stream for its own size
        s.real, s.crypt = {}, None
        for f in P.funcs.values():
            if f.body and base(f.n) == "size" and not f.d["p"] and f.d.get("virt") and f.scls:
                for n in f.nodes():
                    g = P.funcs.get(n.get("f")) if n.get("k") == "call" else None
                    if g is not None and g.scls == f.scls and len(g.d["p"]) == 3 and all(p["t"] in ("unsigned long", "unsigned long long") for p in g.d["p"]):
                        s.real[g.key] = g
                        s.crypt = f.scls
        # streams opened over stored ones
        s.open = {f.key: f for f in P.funcs.values() if f.body and s.crypt and s.crypt in f.d["ret"] and len(f.d["p"]) == 1 and "ptr" in f.d["ret"]}
        s._near = None
        # whose contents are padded: what the stream asks for the amount of padding
        s.pad = {f.key for f in P.funcs.values() if f.body and "padding" in base(f.n) and f.d["ret"] == "unsigned int" and f.d.get("virt")}


    def near(s, P):
        """what makes a size of something: opens, computes or reads a link"""
        if s._near is None:
            s._near = P.reaching(lambda n: n.get("f") in s.open or n.get("f") in s.real or base(n.get("n") or "") == "readlink")
        return s._near


def holds(eng, st, a, lc):
    """the text of links that a value is"""
    got = [x for x in subterms(a) if x[:1] == ("text",)]
    ls = [lc] if lc is not None else []
    for x in subterms(a):
        if x[:1] == ("addr",):
            ls.append(x[1][1] if x[1][0] == "el" else x[1])
    for l in ls:
        if not got:
            got = [x for x in subterms(eng.load(st, l)) if x[:1] == ("text",)]
    return got


class Sizes(Rule):
    max_depth = 8
    max_states = 3000

    def __init__(s, P, T, f):
        s.P, s.T, s.f = P, T, f

    def inline(s, eng, f, ev):
        if f.key in s.T.raw or f.key in s.T.real or f.key in s.T.open or f.key in s.T.pad or base(f.n) in LOGGY:
            return False
        return base(f.n) in THROWERS or bool(f.d.get("lambda")) or simple(f, 20) or (bool(stats(f)) or f.key in s.T.near(eng.P)) and not ev.vt

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY:
            return [(st, I(0))]
        if ev.key in s.T.raw:
            i = stats(s.P.funcs[ev.key])[0]
            n = st.fresh(ev.where)
            l = eng.deref(ev.args[i])
            v = ("phys",) + n
            eng.store(st, ("m", l, "stat::st_size"), v, ev.node, ev.fr)
            m = ("mode",) + n
            s_unsigned.add(m)
            eng.store(st, ("m", l, "stat::st_mode"), m, ev.node, ev.fr)
            st.emit(("raw", l, v, m, tuple(a for j, a in enumerate(ev.args) if j != i), ev.obj))
            for a, lc in zip(ev.args, ev.locs):
                if a[:1] == ("addr",) and a[1] != l:
                    eng.store(st, a[1], ("name",) + n, ev.node, ev.fr)
            q = st.copy()
            return [(st, TRUE), (q, FALSE)] if s.P.funcs[ev.key].d["ret"] == "bool" else [(st, I(0))]
        if ev.key in s.T.real:
            return [(st, ("real",) + tuple(ev.args))]
        if ev.key in s.T.open:
            return [(st, ("opened", ev.args[0]))]
        if b == "size" and ev.vt and not ev.args:
            o = eng.load(st, ev.obj, "class") if ev.obj is not None else None
            return [(st, ("size", ev.obj, o))]
        if b == "readlink" and len(ev.args) >= 3:
            v = ("linked",) + st.fresh(ev.where)
            st.emit(("readlink", ev.args[0], ev.args[1], v))
            if ev.args[1][:1] == ("addr",):
                l = ev.args[1][1]
                if l[0] == "el":
                    l = l[1]
                eng.store(st, l, ("text", v), ev.node, ev.fr)
            return [(st, v)]
        if ev.kind == "call" and ev.args and b not in ("size", "resize", "data", "c_str") and not ev.ext and any(holds(eng, st, a, lc) for a, lc in zip(ev.args, ev.locs or (None,) * len(ev.args))):
            v = [x for a, lc in zip(ev.args, ev.locs or (None,) * len(ev.args)) for x in holds(eng, st, a, lc)]
            st.emit(("decode", ev.key, v[0]))
            return [(st, ("decoded", ev.key, v[0]))]
        if b == "resize" and ev.ext and ev.obj is not None and eng.load(st, ev.obj, "class")[:1] == ("text",):
            return [(st, I(0))]
        return None

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, bool(v)))


REG, LNK, FMT = 0x8000, 0xA000, 0xF000


def is_field(v, names=None):
    return v[:1] == ("in",) and v[1][0] == "m" and (names is None or v[1][2] in names)


def opened_with(P, R, T):
    """the fields that streams are opened with: numbers, in order, from every way of opening"""
    got = set()
    for f in T.open.values():
        class Open(Rule):
            def on_call(s, eng, st, ev):
                if base(ev.name) in ("make_unique", "make_shared") or ev.kind == "ctor" and ev.node.get("cls") == T.crypt:
                    nums = tuple(a[1][2] for a, n in zip(ev.args, ev.node["a"]) if is_field(a) and "int" in n.get("t", ""))
                    if len(nums) >= 2:
                        got.add((f.scls, nums))
                        return [(st, ("stream",) + st.fresh(ev.where))]
                return None
        R.engine(P, Open(), f)
    return got


def unpadded(P, R, T, cls):
    """what has to be false for nothing to be padded: for each way of a non-zero padding, the conditions on it"""
    class Pad(Rule):
        def on_assume(s, eng, st, t, v, node, fr):
            st.emit(("if", t, bool(v)))
    ways = []
    for f in P.funcs.values():
        if f.key in T.pad and f.scls == cls:
            for k, st, v in R.engine(P, Pad(), f)[0]:
                if k == "r" and v is not None and st.decide(("eq0", v)) is not True:
                    ways.append([(e[1], e[2]) for e in st.trace if e[0] == "if"])
    return ways


def rebase(t, to):
    if t == ("obj", "this"):
        return to
    if isinstance(t, tuple):
        return tuple(rebase(x, to) for x in t)
    return t


def read_fields(P, cls):
    """the streams that what a file reads as comes from"""
    got = set()
    for c in {cls} | set(P.all_derived(cls)):
        todo, seen = [f for f in P.methods_of(c) if f.body and base(f.n) == "read"], set()
        while todo:
            f = todo.pop()
            if f.key in seen:
                continue
            seen.add(f.key)
            for n in f.nodes():
                if n.get("k") != "call":
                    continue
                g = P.funcs.get(n.get("f"))
                if g is not None and g.body and g.scls == f.scls:
                    todo.append(g)
                elif base(n.get("n") or "") == "read" and n.get("o"):
                    got |= {m["f"] for m in PR.walk(n["o"]) if m.get("k") == "mem"}
    return got


@rule("G03")
def sizes(P, R):
    """Each function that fills in a `stat` from the system's (or for an open file) is run symbolically.
    Wherever it reports success, what is left in `st_size` has to be one of: the stored size, where that is not positive or the mode says neither a file nor a link; the stored size of the same `stat` put through the stream's own size computation,
    with the block and nonce sizes in the order in which streams are opened with them, where the mode says a file and every way of computing a non-zero padding is contradicted by the conditions on the path; the size of the stream that the class reads from, or of one opened over the same stored path;
    for a link, the length of what was read from the same path, decoded by the function that readlink decodes with, or undecoded where names are not encoded."""
    T = Role(P)
    R.need(len(T.raw), "functions filling in attributes from the system")
    R.need(len(T.real), "computation of the size of contents")
    R.need(len(T.open), "function opening a stream over a stored one")
    over = opened_with(P, R, T)
    R.need(len(over), "sizes that streams are opened with")
    # how links are decoded
    dec = set()
    for f in P.funcs.values():
        if f.body and not stats(f) and f.scls and any(n.get("k") == "call" and base(n.get("n") or "") == "readlink" for n in f.nodes()) and "(anonymous" not in f.n and not any(n.get("k") == "call" and n.get("ext") and n.get("n") == "readlink" for n in f.nodes()):
            for k, st, v in R.engine(P, Sizes(P, T, f), f)[0]:
                for e in st.trace:
                    if e[0] == "decode":
                        dec.add(e[1])
    R.need(len(dec), "function that readlink decodes with")
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.body or not stats(f) or f.key in T.raw or base(f.n) == "next":
            continue
        if not any(n_.get("k") == "call" and n_.get("f") in T.raw for n_ in f.nodes()) and not any(n_.get("k") == "mem" and n_.get("f", "").endswith("stat::st_size") for n_ in f.nodes()):
            continue
        if f.scls and any(base(c).startswith("Directory") for c in {f.scls} | set(P.all_bases(f.scls))):
            continue
        R.fn(f)
        outs, eng = R.engine(P, Sizes(P, T, f), f)
        sp = param(f, stats(f)[0])
        loc = ("m", ("d", sp), "stat::st_size")
        ml = ("m", ("d", sp), "stat::st_mode")
        fs = read_fields(P, f.scls) if f.scls else set()
        for k, st, v in outs:
            if k != "r":
                continue
            if v is not None and f.d["ret"] == "int" and st.rng(v)[1] is not None and st.rng(v)[1] < 0:
                continue
            if v is not None and f.d["ret"] == "bool" and st.decide(("eq0", v)) is True:
                continue
            n += 1
            got = st.env.get(loc)
            bad = judge(P, R, T, f, eng, st, got, st.env.get(ml), fs, over, dec)
            R.ob("size", f"{f.sn}: {say(got)}", bad is None, f.where, bad or "", [])
    R.need(n, "attributes reported")


def say(v):
    if v is None:
        return "not set"
    return {"phys": "the stored size", "real": "computed from the stored size", "size": "the size of a stream", "linked": "the length of a link"}.get(v[0], "the length of a decoded link" if v[:1] == ("call",) and v[1] in ("size", "length") else "another value")


def judge(P, R, T, f, eng, st, v, mode, fs, over, dec):
    if v is None:
        return "no size is reported"
    raw = [e for e in st.trace if e[0] == "raw"]
    fmts = [("op", "&", mode, I(FMT)), ("op", "&", I(FMT), mode)] if mode is not None else []

    def is_(k):
        for t in fmts:
            d = st.decide(("eq0", sub(t, I(k))))
            if d is not None:
                return d
        return None

    noop = any(e[0] == "if" and e[1][:1] == ("call",) and "is_no_op" in str(e[1][1]) and e[2] for e in st.trace)
    if v[0] == "phys":
        if st.rng(v)[1] is not None and st.rng(v)[1] <= 0:
            return None
        if is_(REG) is not False:
            return "the stored size is reported of what may be a file"
        if is_(LNK) is not False and not noop:
            return "the stored size is reported of what may be a link"
        return None
    if v[0] == "real":
        if v[1][:1] != ("phys",):
            return "the computation is not given the stored size"
        if is_(REG) is not True:
            return "the computation is made of what may not be a file"
        if not (is_field(v[2]) and is_field(v[3])):
            return "the sizes of blocks and nonces are not those of the opener"
        cls = v[2][1][2].rsplit("::", 1)[0]
        if (cls, (v[2][1][2], v[3][1][2])) not in over:
            return "the sizes of blocks and nonces are not those that streams are opened with"
        to = v[2][1][1]
        for way in unpadded(P, R, T, cls):
            # one of the conditions for padding does not hold
            if not any(against(eng, st, rebase(t, to), val) for t, val in way):
                return "the computation is made although contents may be padded"
        return None
    if v[0] == "size":
        o = v[1]
        while isinstance(o, tuple) and o[0] == "d" and o[1][:1] == ("opened",):
            src = o[1][1]
            if any(subset_path(src, e[4]) for e in raw):
                return None
            return "the stream measured is not opened over what the attributes are of"
        if isinstance(o, tuple) and o[0] == "d" and is_field(o[1], fs) or isinstance(o, tuple) and o[0] == "m" and o[2] in fs:
            return None
        return "the stream measured is not the one read from"
    if v[0] == "linked":
        if not noop:
            return "the stored length is reported of a link whose target is encoded"
        return None if is_(LNK) is True else "the length of a link is reported of something else"
    if v[:1] == ("call",) and v[1] in ("size", "length") and v[2][:1] == ("decoded",):
        if v[2][1] not in dec:
            return "the target is not decoded as readlink decodes it"
        if not any(e[0] == "readlink" and e[3] in set(subterms(v)) and any(e[1] in r[4] for r in raw) for e in st.trace):
            return "the target is that of another path"
        return None if is_(LNK) is True else "the length of a link is reported of something else"
    return "what is reported is no size that follows from the contents"


def against(eng, st, t, val):
    """the condition is known not to come out so"""
    d = st.decide(t)
    if d is None:
        d = st.decide(again(eng, st, t))
    return d is not None and bool(d) != bool(val)


def again(eng, st, t):
    if isinstance(t, tuple):
        if t[:1] == ("in",) and len(t) == 3:
            return eng.load(st, t[1])
        return tuple(again(eng, st, x) for x in t)
    return t


def subset_path(src, args):
    """the stream was opened by a path the attributes were asked for"""
    return any(a[:1] in (("ret",), ("in",), ("call",)) and a in set(subterms(src)) for a in args)
