"""D04: what is recorded about a file reads back as it was."""
from ..core import rule
from .. import engine as EN
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY

WIDTH = {"char": 1, "unsigned char": 1, "signed char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "unsigned": 4,
         "uint8_t": 1, "uint16_t": 2, "uint32_t": 4, "uint64_t": 8, "int32_t": 4, "int64_t": 8, "int16_t": 2,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "size_t": 8, "byte": 1, "std::byte": 1}
SINKS = {"push_back", "emplace_back", "emplace", "insert", "insert_or_assign", "try_emplace"}
COPIES = {"memcpy", "memmove", "strncpy", "copy", "copy_n"}
PUT, TAKE = "to_little_endian", "from_little_endian"


def width(t):
    t = t.replace("const", "").replace("&", "").replace("std::", "").strip()
    return WIDTH.get(t)


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)
        elif isinstance(x, (list, frozenset)):
            st.extend(x)


def is_got(x):
    return x[:1] == ("got",)


class Codec(Rule):
    """which numbers go to, and come from, which places of a buffer"""
    loop_iters = 2
    max_depth = 8
    max_states = 300
    store_locals = True

    def __init__(s, P, f, through):
        s.P, s.f, s.through = P, f, through
        s.loops = {}

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b in (PUT, TAKE):
            return False
        if f.scls and ev.vt:
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or f.key in s.through or simple(f, 40)

    def inside(s, fr, line):
        """the loops the event is in"""
        out = []
        g, l = fr, line
        while g is not None:
            for (k, ln), (lo, hi) in s.loops.items():
                if k == g.func.key and lo <= l <= hi:
                    out.append(ln)
            g = g.parent
            l = g.line if g is not None else 0
        return tuple(sorted(out))

    def got(s, st, addr, w, ev):
        v = ("got", sum(1 for e in st.trace if e[0] == "take"))
        s_unsigned.add(v)
        st.emit(("take", addr, w, v, ev.where, s.inside(ev.fr, ev.node.get("l", 0))))
        return v

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY:
            return [(st, I(0))]
        f = s.P.funcs.get(ev.key) if ev.key else None
        if ev.vt and f is not None and f.scls and ev.obj is not None and f.key not in s.through and ev.obj[0] == "obj":
            return [(st, ("ret", base(f.n), ev.where))]       # a hook of its own class: does not touch these fields
        if b == PUT and len(ev.args) == 2:
            w = width(f.d["p"][0]["t"]) if f is not None else None
            st.emit(("put", ev.args[1], w, ev.args[0], ev.where, s.inside(ev.fr, ev.node.get("l", 0))))
            return [(st, I(0))]
        if b == TAKE and len(ev.args) == 1:
            w = width(f.d["ret"]) if f is not None else None
            return [(st, s.got(st, ev.args[0], w, ev))]
        if b in ("memcpy", "memmove") and len(ev.args) == 3:
            dst, src, n = ev.args
            st.emit(("copy", dst, src, n, ev.where, s.inside(ev.fr, ev.node.get("l", 0))))
            l = target(dst)
            if l is not None:
                v = s.got(st, src, n[1] if n[0] == "int" else n, ev)
                eng.store(st, l, v)
                return [(st, dst)]
        return None

    def on_ret(s, eng, st, ev, val):
        b = ev.base
        at = s.inside(ev.fr, ev.node.get("l", 0))
        if b in ("copy", "copy_n") and len(ev.args) == 3 and not ev.node.get("o"):
            a = tuple(ev.args)
            st.emit(("copy", a[2], a[0], a[1] if b == "copy_n" else ("until", a[1]), ev.where, at))
        elif b == "strncpy" and len(ev.args) == 3:
            st.emit(("copy",) + tuple(ev.args) + (ev.where, at))
        elif b == "copy" and ev.node.get("o") and ev.args:
            st.emit(("copy", ev.args[0], ("addr", ("el", ev.obj)) if ev.obj is not None else None, ev.args[1] if len(ev.args) > 1 else None, ev.where, at))
        elif b in ("memset", "fill", "fill_n"):
            st.emit(("zero", tuple(ev.args), ev.obj, ev.where))
        elif b in SINKS and ev.obj is not None:
            st.emit(("sink", ev.obj, tuple(ev.args), ev.where, at))
        elif b in ("write_header", "read_header", "write", "read") and ev.vt:
            st.emit(("io", b, tuple(ev.args), val, ev.where, ev.obj, at))

    def on_store(s, eng, st, loc, val, node, fr):
        if any(is_got(x) for x in walk(val)) or root(loc)[0] in ("obj", "p") and loc[0] != "v":
            st.emit(("into", loc, val))

    def on_init(s, eng, st, loc, val, node, fr):
        s.on_store(eng, st, loc, val, node, fr)
        i = node.get("init") if isinstance(node, dict) else None
        if loc[0] == "v" and isinstance(i, dict) and i.get("k") == "list" and (not i["a"] or i.get("fill")) and val[:1] == ("list",) and all(x == I(0) for x in val[1:]):
            st.emit(("zero", (("addr", loc), I(0)), loc, None))

    def on_iter(s, eng, st, node, fr):
        if node.get("k") == "call":
            return
        s.loops[(fr.func.key, node.get("l", 0))] = extent(fr.func, node)
        t = (node.get("r") or {}).get("t", "") if node.get("s") == "rfor" else ""
        n = t[t.rfind("[") + 1:-1] if t.endswith("]") else ""
        st.emit(("iter", node.get("l", 0), int(n) if n.isdigit() else None))

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, v))


def extent(f, node):
    """the lines of a loop"""
    lo = node.get("l", 0)
    mine = {id(x) for x in PR.walk(node)}
    last = max([x["l"] for x in PR.walk(node) if x.get("s") and x.get("l")] + [lo])
    hi = max([x["l"] for x in PR.walk(node) if (x.get("s") or x.get("k") in ("call", "ctor")) and x.get("l")] + [lo])
    after = [x["l"] for x in PR.walk(f.body) if x.get("s") and id(x) not in mine and x.get("l", 0) > last]
    return lo, min([hi] + [min(after) - 1] if after else [hi, last + 8])


def root(loc):
    while loc[0] in ("m", "el", "d"):
        nx = loc[1]
        if loc[0] == "d":
            if nx[0] == "addr":
                nx = nx[1]
            elif nx[0] == "lin":
                b = [a for a in lin(nx)[1] if a[0] == "addr"]
                if len(b) != 1:
                    return loc
                nx = b[0][1]
            elif nx[0] == "call" and nx[1] == "elem" and nx[2][0] == "in":
                nx = nx[2][1]
            else:
                return loc
        loc = nx
    return loc


def target(dst):
    """the object a copy goes to, when it is one named place rather than a part of a buffer"""
    if dst[0] != "addr":
        return None
    l = dst[1]
    while l[0] == "m" and PR.strip_t(l[2]).endswith("PODArray::m_data"):
        l = l[1]
    if l[0] == "m":
        return l
    return None


class Odd(Exception):
    pass


class Form:
    """one path of a codec in a form that does not depend on how its loops are written"""

    def __init__(s, rl, init, trace, params):
        s.rl, s.init, s.trace, s.params = rl, init, trace, params
        s.uneven = set()                   # loops of which some turns add nothing
        s.later = {}                       # (loop, loc) -> havoc of a later iteration
        for h in init:
            if is_loop(h):
                s.later.setdefault((h[1], h[2], h[3]), h)

    def step(s, h):
        """(value before the loop, what one turn adds) of a loop-carried variable"""
        nxt = s.later.get((h[1], h[2], 1)) if h[3] == 0 else h
        cur = s.later.get((h[1], h[2], 0)) if h[3] != 0 else h
        if cur is None:
            raise Odd("a variable of the loop at line %s has no value before it" % h[1][1])
        ini = [x for x in s.init.get(cur, ()) if x is not None]
        if not ini or len(ini) != len(s.init.get(cur, ())):
            raise Odd("a variable of the loop at line %s has no value before it" % h[1][1])
        st = set()
        for x in (s.init.get(nxt, ()) if nxt is not None else ()):
            if x is None:
                raise Odd("a variable of the loop at line %s is not followed" % h[1][1])
            c, d = lin(x)
            d = dict(d)
            if d.pop(cur, 0) == 1 and not d:
                st.add(c)
            else:
                raise Odd("a variable of the loop at line %s does not advance evenly" % h[1][1])
        if len(st) > 1 and 0 in st:
            st.discard(0)
            s.uneven.add(h[1][1])
        if len(st) != 1:
            raise Odd("a variable of the loop at line %s does not advance evenly" % h[1][1])
        return ini, st.pop()

    def start(s, ini, line):
        """the value before the loop, where a loop before it may have run any number of times"""
        c = [s.close(x, ()) for x in ini]
        best = max(c, key=lambda x: (len(x[1]), x[0]))
        for x in c:
            if x == best:
                continue
            if x[0] == best[0] and all(k[0] == "turns" for k in best[1] if k not in x[1]) and all(best[1].get(k) == v for k, v in x[1].items()):
                continue                   # the loop before it did not turn
            if x[1] == best[1] and any(k[0] == "turns" and k[1] in s.uneven and best[0] - x[0] == v for k, v in best[1].items()):
                continue                   # a turn of it added nothing
            raise Odd("a variable has several values before the loop at line %s" % line)
        return best

    def close(s, t, inside):
        """t as constant + multiples of (turn L), (turns L) and plain terms"""
        c, d = lin(t)
        out = {}

        def add_(k, v):
            out[k] = out.get(k, 0) + v
            if not out[k]:
                del out[k]
        for a, k in d.items():
            if is_loop(a):
                ini, st = s.step(a)
                ln = a[1][1]
                c0, d0 = s.start(ini, ln)
                c += k * c0
                for x, v in d0.items():
                    add_(x, k * v)
                if st:
                    if ln in inside:
                        add_(("turn", ln), k * st)
                    else:
                        add_(("turns", ln), k * st)
                        c -= k * st
            else:
                add_(a, k)
        return c, out

    def path(s, loc, inside):
        """the record field a location is, and which element of it"""
        k = loc[0]
        if k == "obj" or k == "p":
            return ()
        if k == "m":
            p = s.path(loc[1], inside)
            f = loc[2]
            return p if "PODArray" in f and f.endswith("m_data") else p + (PR.strip_t(f),)
        if k == "el":
            return s.path(loc[1], inside)
        if k == "d":
            x = loc[1]
            if x[0] == "addr":
                return s.path(x[1], inside)
            if x[0] == "call" and x[1] == "elem":
                return s.value(x[2], inside) + (("at", 0, ((turn_of(x), 1),)),)
            if x[0] == "lin":
                c, d = lin(x)
                b = [a for a in d if a[0] == "addr" and d[a] == 1]
                if len(b) == 1:
                    c2, d2 = s.close(sub(x, b[0]), inside)
                    return s.path(b[0][1], inside) + (("at", c2, tuple(sorted(d2.items(), key=str))),)
            if x[0] == "in" and x[1][0] in ("p", "v"):
                return ()
            if x[0] in ("in", "fld"):
                return s.value(x, inside)
        if k == "v":
            return (("local", loc[2]),)
        raise Odd("a place is not followed: %s" % (str(loc)[:80],))

    def value(s, t, inside):
        k = t[0]
        if k == "in":
            return s.path(t[1], inside)
        if k == "trunc":
            return s.value(t[2], inside)
        if k == "fld":
            return s.value(t[1], inside) + (t[2],)
        if k == "int":
            return ("const", t[1])
        if k == "call" and t[1] == "size" and len(t) == 3:
            return ("count",) + s.value(t[2], inside)
        if k == "call" and t[1] in ("data", "begin", "c_str", "cbegin") and len(t) == 3:
            return s.value(t[2], inside)
        if k == "addr":
            return s.path(t[1], inside)
        if k == "havoc" and isinstance(t[2], tuple) and t[2][:1] in (("m",), ("v",)):
            return s.path(t[2], inside)
        raise Odd("a value is not followed: %s" % (str(t)[:80],))


def is_loop(h):
    return h[:1] == ("havoc",) and isinstance(h[1], tuple) and h[1][:1] == ("loop",) and len(h) > 3


def turn_of(el):
    it = el[3] if len(el) > 3 else ("it", 0, 0)
    return ("turn", it[2]) if it[:1] == ("it",) else ("turn", 0)


class Slot:
    def __init__(s, key, off, co, w, where, loops, val=None, most=None):
        s.key, s.off, s.co, s.w, s.where, s.loops, s.val, s.most = key, off, co, w, where, loops, val, most

    @property
    def place(s):
        return (s.off, tuple(sorted(s.co.items(), key=str)))

    def show(s):
        x = "byte %d" % s.off
        for k, v in sorted(s.co.items(), key=str):
            x += " + %d for each %s" % (v, "one before" if k[0] == "turn" else "of " + show(k[1]))
        return x


def show(key):
    out = []
    for x in key if isinstance(key, tuple) else (key,):
        if isinstance(x, str):
            out.append(x.split("::")[-1])
        elif isinstance(x, tuple) and x[:1] == ("at",):
            out.append("[%s]" % ("" if x[2] else x[1]))
        else:
            out.append(str(x))
    return ".".join(out).replace(".[", "[")


def atoms(addr):
    return [a for a in lin(addr)[1]]


class Side:
    """the layout one function writes or reads"""

    def __init__(s, P, f, through, io, put):
        s.P, s.f, s.io, s.put = P, f, io, put
        s.rule = Codec(P, f, through)
        s.groups = {}        # facts -> {key: Slot}
        s.tags = {}          # facts -> [(off, w, conditions)]
        s.sizes = {}         # facts -> constant lengths of the record
        s.spots = {}         # facts -> where in the stream
        s.flags = set()
        s.paths = 0
        s.names = {}
        s.clashes = []
        s.stale = []
        s.uneven = set()
        s.altered = []
        s.dirty = set()

    def run(s, R):
        saved = dict(EN.havoc_init)
        EN.havoc_init.clear()
        try:
            outs, _ = R.engine(s.P, s.rule, s.f)
            init = dict(EN.havoc_init)
        finally:
            EN.havoc_init.clear()
            EN.havoc_init.update(saved)
        s.raw = []
        for k, st, v in outs:
            if k != "r" and k != "n":
                continue
            ios = [e for e in st.trace if e[0] == "io" and e[1] in s.io]
            if not ios or not any(e[0] in ("put", "take", "copy") for e in st.trace):
                continue
            s.raw.append((st, Form(s.rule, init, st.trace, s.f.d["p"])))
            for e in st.trace:
                if e[0] == "if" and e[1][:1] == ("in",) and e[1][1][:1] == ("m",) and root(e[1][1])[0] == "obj":
                    s.flags.add(e[1][1][2])
        return s

    def finish(s, flags):
        s.todo = []
        for st, F in s.raw:
            mode = {}
            for e in st.trace:
                if e[0] == "if" and e[1][:1] == ("in",) and e[1][1][:1] == ("m",) and e[1][1][2] in flags:
                    mode[e[1][1][2]] = bool(e[2])
            g = tuple(sorted(mode.items()))
            s.paths += 1
            s.one(g, st, F)
        s.collect()

    def one(s, g, st, F):
        tr = st.trace
        ios = [e for e in tr if e[0] == "io" and e[1] in s.io]
        bases = set()
        for e in ios:
            c, d = F.close(e[2][0], e[6])
            bases.add(tuple(sorted(d.items(), key=str)))
            if len(e[2]) == 3:
                s.spots.setdefault(g, set()).add(s.spot(F, e))
            if e[2][-1][0] == "int":
                s.sizes.setdefault(g, set()).add(e[2][-1][1])
        if len(bases) != 1:
            raise Odd("more than one buffer is used")
        base_ = dict(bases.pop())

        def within(addr, inside):
            """(offset, multiples) of an address in the buffer, None when it is elsewhere"""
            c, d = F.close(addr, inside)
            d = dict(d)
            for k, v in base_.items():
                if d.get(k) != v:
                    return None
                del d[k]
            if any(k[0] not in ("turn", "turns") for k in d):
                return None
            return c, d
        def stale(buf, i, inside, where, src, n):
            """a name is put over what the buffer had: it must have been wiped since the last turn"""
            j = max([k for k in range(i) if tr[k][0] == "iter" and tr[k][1] in inside] or [-1])
            ok = any(tr[k][0] == "zero" and zeroes(tr[k], buf) for k in range(j + 1, i))
            if not ok:
                s.stale.append((g, F.value(src, inside), where))
        counts = s.counts(F, tr)
        temps = {}
        if s.put and base_:
            b = next(iter(base_))
            if not any(e[0] == "zero" and zeroes(e, local(b), b) for e in tr):
                s.dirty.add(g)
        slots = []
        raws = []
        if s.put:
            for i, e in enumerate(tr):
                if e[0] == "copy":
                    _, dst, src, n, where, inside = e
                    w = within(dst, inside) if dst is not None else None
                    if w is None:
                        if dst is not None and src is not None:
                            temps[local(dst)] = (src, n, i)
                        continue
                    most = None
                    if src is not None and local(src) is not None and local(src) in temps:
                        stale(local(src), temps[local(src)][2], inside, where, temps[local(src)][0], temps[local(src)][1])
                        src, n2, _ = temps[local(src)]
                        key = F.value(src, inside)
                        most = s.longest(st, n2, src)
                        raws.append(Slot(key, w[0], w[1], n[1] if n[0] == "int" else None, where, inside, most=most))
                        continue
                    key = F.value(src, inside)
                    if n[0] != "int":
                        stale(local(next(iter(base_))) if base_ else None, i, inside, where, src, n)
                        raws.append(Slot(key, w[0], w[1], None, where, inside, most=s.longest(st, n, src)))
                    else:
                        raws.append(Slot(key, w[0], w[1], n[1], where, inside))
                elif e[0] == "put":
                    _, addr, wd, val, where, inside = e
                    w = within(addr, inside)
                    if w is None:
                        continue
                    if val[0] == "op" or val[0] == "call" and val[1] not in ("size",):
                        s.altered.append((g, where))
                        continue
                    raws.append(Slot(F.value(val, inside), w[0], w[1], wd, where, inside, val=val))
        else:
            got = {}
            for e in tr:
                if e[0] == "take":
                    w = within(e[1], e[5])
                    if w is not None:
                        got[e[3]] = (w, e[2], e[4], e[5])
                elif e[0] == "copy":
                    _, dst, src, n, where, inside = e
                    if src is not None and dst is not None and local(dst) is not None:
                        w = within(src, inside)
                        if w is not None:
                            temps[local(dst)] = (w, n[1] if n[0] == "int" else None, where, inside)
            used = set()

            def sunk(val, key, inside, where):
                if val[:1] == ("rec",):
                    for names, v in val[2]:
                        sunk(v, key + tuple(PR.strip_t(x) for x in names if not PR.strip_t(x).endswith("PODArray::m_data")), inside, where)
                    return
                x = val
                while x[0] == "trunc":
                    x = x[2]
                if is_got(x) and x in got:
                    w, wd, wh, ins = got[x]
                    used.add(x)
                    raws.append(Slot(key, w[0], w[1], wd, wh, ins))
                    return
                if x[0] in ("addr", "lin"):
                    if local(x) in temps:
                        w, wd, wh, ins = temps[local(x)]
                        raws.append(Slot(key, w[0], w[1], None, wh, ins, most=wd))
                        return
                    w = within(x, inside)
                    if w is not None:
                        raws.append(Slot(key, w[0], w[1], None, where, inside))
            for e in tr:
                if e[0] == "into" and root(e[1])[0] in ("obj", "p"):
                    ins = ()
                    for x in walk(e[2]):
                        if is_got(x) and x in got:
                            ins = got[x][3]
                    sunk(e[2], F.path(e[1], ins), ins, None)
                elif e[0] == "sink" and root(e[1])[0] in ("obj", "p"):
                    _, obj, args, where, inside = e
                    t = (("at", 0, ((("turn", inside[-1]), 1),)),) if inside else ()
                    p = F.path(obj, inside) + t
                    if len(args) == 2:
                        sunk(args[0], p + ("std::pair::first",), inside, where)
                        sunk(args[1], p + ("std::pair::second",), inside, where)
                    elif len(args) == 1:
                        sunk(args[0], p, inside, where)
                    else:
                        raise Odd("what %s is given is not followed" % show(p))
        # loops by what they are over, not by where they are
        names = s.names
        for x in raws:
            for c in x.key if isinstance(x.key, tuple) else ():
                if isinstance(c, tuple) and c[:1] == ("at",):
                    for k, v in c[2]:
                        if k[0] == "turn":
                            names.setdefault(k[1], x.key[:x.key.index(c)])
        if not s.put:
            for x, (w, wd, wh, ins) in got.items():
                for L, n in counts.items():
                    if n == x and L in names:
                        used.add(x)
                        raws.append(Slot(("count",) + names[L], w[0], w[1], wd, wh, ins))
                    elif n is not None and x in list(walk(n)):
                        used.add(x)
            for x, v in got.items():
                if x not in used and raws:
                    cond = [(e[1], bool(e[2])) for e in tr if e[0] == "if" and x in list(walk(e[1]))]
                    s.tags.setdefault(g, []).append((v[0][0], v[1], v[2], x, cond, dict(v[0][1])))
        s.todo.append((g, raws, counts))
        s.uneven |= F.uneven

    def collect(s):
        for g, raws, counts in s.todo:
            d = s.groups.setdefault(g, {})
            for x in [y for r in raws for y in s.spread(r, counts, s.names)]:
                o = d.get(x.key)
                if o is not None and (o.place != x.place or o.w != x.w):
                    s.clashes.append((g, o, x))
                if o is None or x.most is not None:
                    d[x.key] = x

    def spot(s, F, e):
        c, d = F.close(e[2][1], e[6])
        out = []
        for k, v in d.items():
            if k[:1] == ("in",) and k[1][:1] == ("v",):
                p = [q for q in s.f.d["p"] if q["id"] == k[1][2]]
                same = [q["id"] for q in s.f.d["p"] if p and q["t"] == p[0]["t"]]
                out.append((("param", p[0]["t"], same.index(p[0]["id"])) if p else k, v))
            elif k[0] in ("turn", "turns"):
                out.append((k[0], v))
            else:
                out.append((k, v))
        return c, tuple(sorted(out, key=str))

    def longest(s, st, n, src):
        if isinstance(n, tuple) and n[:1] == ("until",):
            for x in walk(n[1]):
                if x[:1] == ("call",) and x[1] in ("end", "cend"):
                    n = ("call", "size", x[2])
                    break
        if isinstance(n, tuple) and n[:1] in (("call",), ("int",), ("lin",)):
            return st.rng(n)[1]
        return None

    def counts(s, F, tr):
        """how often each loop turns: a term, or None"""
        out = {}
        for i, e in enumerate(tr):
            if e[0] != "iter" or e[1] in out:
                continue
            L = e[1]
            out[L] = I(e[2]) if e[2] is not None else None
            for j in range(i - 1, -1, -1):
                x = tr[j]
                if x[0] != "if":
                    break
                t = x[1]
                if x[2] and t[:1] == ("ge0",):
                    try:
                        c, d = F.close(t[1], (L,))
                    except Odd:
                        continue
                    if d.get(("turn", L)) == -1:
                        d = dict(d)
                        del d[("turn", L)]
                        c += 1
                        out[L] = I(c) if not d else next(iter(d)) if c == 0 and len(d) == 1 else ("other",)
                        break
                else:
                    v = x[2]
                    while t[:1] == ("not",):
                        t, v = t[1], not v
                    if v or t[:1] != ("eq0",):
                        continue
                    try:
                        c, d = F.close(t[1], (L,))
                    except Odd:
                        continue
                    m = d.get(("turn", L), 0)
                    if abs(m) == 1:
                        d = {k: -m * v for k, v in d.items() if k != ("turn", L)}
                        c = -m * c
                        out[L] = I(c) if not d else next(iter(d)) if c == 0 and len(d) == 1 and list(d.values()) == [1] else ("other",)
                        break
        return out

    def spread(s, x, counts, names):
        """the slots of a loop whose number of turns is known, one by one"""
        t = [k for k in x.co if k[0] == "turn"]
        for k in t:
            n = counts.get(k[1])
            if n is not None and n[0] == "int" and 0 <= n[1] <= 256:
                out = []
                for j in range(n[1]):
                    key = []
                    for c in x.key:
                        if isinstance(c, tuple) and c[:1] == ("at",):
                            d = dict(c[2])
                            m = d.pop(k, 0)
                            c = ("at", c[1] + m * j, tuple(sorted(d.items(), key=str)))
                        key.append(c)
                    co = dict(x.co)
                    m = co.pop(k)
                    out += s.spread(Slot(tuple(key), x.off + m * j, co, x.w, x.where, x.loops, x.val, x.most), counts, names)
                return out

        def ren(k):
            return (k[0], names.get(k[1], k[1])) if k[0] in ("turn", "turns") else k
        key = []
        for c in x.key if isinstance(x.key, tuple) else (x.key,):
            if isinstance(c, tuple) and c[:1] == ("at",):
                c = ("at", c[1], tuple(sorted(((ren(k), v) for k, v in c[2]), key=str)))
            key.append(c)
        return [Slot(tuple(key), x.off, {ren(k): v for k, v in x.co.items()}, x.w, x.where, x.loops, x.val, x.most)]


def zeroes(e, loc, term=None):
    """a wipe of the variable (or of what the pointer points to)"""
    args, obj = e[1], e[2]
    if not args:
        return False
    if obj is not None and obj == loc and (len(args) == 1 and args[0] == I(0) or args[0] == ("addr", loc)):
        return True
    v = args[-1] if len(args) == 3 and local(args[-1]) is None and args[1] != I(0) else args[1] if len(args) > 1 else args[0]
    return v == I(0) and (loc is not None and local(args[0]) == loc or term is not None and args[0] == term)


def local(t):
    """the local variable an address is that of"""
    if t is None:
        return None
    if t[:1] == ("addr",):
        l = t[1]
        while l[0] in ("el", "m"):
            l = l[1]
        return l if l[0] == "v" else None
    if t[:1] == ("call",) and t[1] in ("begin", "data", "cbegin") and len(t) == 3:
        x = t[2]
        if x[:1] == ("havoc",) and isinstance(x[2], tuple) and x[2][:1] == ("v",):
            return x[2]
        return x[1] if x[:1] == ("in",) and x[1][0] == "v" else None
    return None


def replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(replace(x, a, b) for x in t)
    return t


def truth(t):
    """the truth of a condition without unknowns, or None"""
    if t[0] == "not":
        x = truth(t[1])
        return None if x is None else not x
    if t[0] in ("eq0", "ge0"):
        x = t[1]
        if x[0] == "lin":
            c, d = x[1], dict(x[2])
            for k, v in list(d.items()):
                if k[0] == "int":
                    c += v * k[1]
                    del d[k]
            x = I(c) if not d else x
        if x[0] != "int":
            return None
        return x[1] == 0 if t[0] == "eq0" else x[1] >= 0
    if t[0] == "int":
        return t[1] != 0
    return None


def shorts(f):
    return f.n.split("securefs::")[-1]


def record_params(P, f):
    out = []
    for p in f.d["p"]:
        t = p["t"].replace("const ", "").replace("&", "").replace("*", "").strip()
        if P.rec_by_t.get(t) is not None:
            out.append(t)
    return tuple(sorted(out))


def pairs(P, R):
    """functions that put numbers into a buffer and store it, with the functions that fetch it back"""
    def has(f, names, virt):
        for n in f.nodes():
            if n.get("k") == "call" and base(n.get("n") or "") in names and (not virt or n.get("vt")):
                return True
        return False
    funcs = [f for f in P.funcs.values() if f.body and f.scls and not f.d.get("lambda")]
    # what a function does itself or through plain functions it hands a buffer to
    def plain(f):
        out, todo = {}, [f]
        while todo:
            g = todo.pop()
            if g.key in out:
                continue
            out[g.key] = g
            for n in g.nodes():
                if n.get("k") in ("call", "ctor") and not n.get("vt"):
                    for k in P.targets(n):
                        h = P.funcs.get(k) if not hasattr(k, "key") else k
                        if h is not None and h.body:
                            todo.append(h)
        return out
    found = {}
    for f in funcs:
        if not (f.n.startswith("securefs::")):
            continue
        r = plain(f)
        for kind, words, ios in (("w", {PUT}, {"write", "write_header"}), ("r", {TAKE}, {"read", "read_header"})):
            if any(has(g, words, False) for g in r.values()) and any(has(g, ios, True) for g in r.values()):
                found[(f.key, kind)] = (f, r)
    out = {"w": [], "r": []}
    for (k, kind), (f, r) in found.items():
        if any((g, kind) in found for g in r if g != k):
            continue                    # another one does it for this one
        out[kind].append((f, r))
    return out


def end(x):
    """where a slot's bytes stop, for its own element"""
    return x.off + (x.w if x.w is not None else (x.most or 0) + 1)


def disjoint(R, W, g, d, name):
    """no two recorded values share bytes; all lie inside what is stored"""
    fixed = sorted((x for x in d.values() if not x.co), key=lambda x: x.off)
    bad = None
    for a, b in zip(fixed, fixed[1:]):
        if a.w is None and a.most is None:
            bad = (a, "%s is put at %s with no bound on its length" % (show(a.key), a.show()))
        elif end(a) > b.off:
            bad = (b, "%s (%s) and %s (%s) share bytes" % (show(a.key), a.show(), show(b.key), b.show()))
    size = W.sizes.get(g)
    if fixed and size:
        if max(end(x) for x in fixed) > min(size):
            x = max(fixed, key=end)
            bad = (x, "%s (%s) lies beyond the %d bytes that are stored" % (show(x.key), x.show(), min(size)))
    # repeated groups
    groups = {}
    for x in d.values():
        t = tuple(k for k in x.co if k[0] == "turn")
        if x.co and t:
            groups.setdefault((t, tuple(sorted(((k, v) for k, v in x.co.items() if k[0] == "turns"), key=str))), []).append(x)
    order = sorted(groups.items(), key=lambda i: (len(i[0][1]), min(x.off for x in i[1])))
    low_ = max([end(x) for x in fixed] or [0])
    before = {}
    for (t, ts), xs in order:
        xs.sort(key=lambda x: x.off)
        for a, b in zip(xs, xs[1:]):
            if end(a) > b.off:
                bad = (b, "%s (%s) and %s (%s) share bytes" % (show(a.key), a.show(), show(b.key), b.show()))
        stride = xs[0].co[t[0]]
        if end(xs[-1]) - xs[0].off > stride:
            bad = (xs[-1], "%s (%s) runs into the next element" % (show(xs[-1].key), xs[-1].show()))
        if xs[0].off < low_:
            bad = (xs[0], "%s (%s) shares bytes with what comes before it" % (show(xs[0].key), xs[0].show()))
        for k, v in before.items():
            if dict(ts).get(("turns", k[1])) != v:
                bad = (xs[0], "%s (%s) shares bytes with %s" % (show(xs[0].key), xs[0].show(), show(k[1])))
        before[t[0]] = stride
    R.ob("apart", "%s%s: values have bytes of their own" % (name, mode(g)), bad is None, (bad[0].where if bad else None) or W.f.where, bad[1] if bad else "%d values" % len(d))


def mode(g):
    return "" if not g else " (" + ", ".join("%s%s" % ("" if v else "without ", k.split("::")[-1]) for k, v in g) + ")"


def layouts(P, R):
    ps = pairs(P, R)
    n = 0
    for w, wr in ps["w"]:
        for r, rr in ps["r"]:
            if w.scls != r.scls or record_params(P, w) != record_params(P, r):
                continue
            n += 1
            W = one_pair(P, R, w, wr, r, rr)
            if W is not None and any(e[0] == "io" and e[1] == "write_header" for st, _ in W.raw for e in st.trace):
                attributes(P, R, W)
    R.need(n, "functions that store numbers with the functions that read them back")


def side(P, R, f, reach, io, put):
    words = {PUT} if put else {TAKE}
    th = set()
    for k, g in reach.items():
        todo, seen = [g], set()
        while todo:
            h = todo.pop()
            if h.key in seen:
                continue
            seen.add(h.key)
            for x in h.nodes():
                if x.get("k") == "call" and (base(x.get("n") or "") in words | {"memcpy", "memmove"}):
                    th.add(k)
                if x.get("k") in ("call", "ctor") and not x.get("vt"):
                    todo += [y for y in P.targets(x) if y.body]
    return Side(P, f, th, io, put).run(R)


def one_pair(P, R, w, wr, r, rr):
    name = "%s and %s" % (shorts(w), base(r.n))
    W = side(P, R, w, wr, ("write", "write_header"), True)
    D = side(P, R, r, rr, ("read", "read_header"), False)
    R.fn(w)
    R.fn(r)
    flags = W.flags & D.flags
    try:
        W.finish(flags)
        D.finish(flags)
    except Odd as e:
        R.need(0, "the layout of %s: %s" % (name, e))
        return
    R.need(len(W.groups), "paths of %s that store something" % shorts(w))
    for g, d in sorted(W.groups.items()):
        o = D.groups.get(g)
        key = name + mode(g)
        if o is None:
            R.ob("field", key, False, r.where, "nothing is read back%s" % mode(g))
            continue
        for x in sorted(d.values(), key=lambda x: str(x.key)):
            if x.key[:1] == ("const",):
                continue
            y = o.get(x.key)
            what = show(x.key)
            if y is None:
                R.ob("field", "%s: %s" % (key, what), False, r.where, "%s stores %s at %s, but it is not read back" % (base(w.n), what, x.show()))
                continue
            ok = x.place == y.place and (x.w == y.w or x.w is None or y.w is None or (x.most is not None and y.most is not None))
            if x.most is None and y.most is None and x.w != y.w and (x.w is None or y.w is None):
                ok = ok and False if x.w is not None and y.w is not None else ok
            R.ob("field", "%s: %s" % (key, what), ok, y.where or r.where,
                 "%s, %s bytes" % (x.show(), x.w if x.w is not None else "a name of at most %s" % x.most) if ok else
                 "%s stores %s as %s bytes at %s, and %s reads %s bytes at %s" % (base(w.n), what, x.w, x.show(), base(r.n), y.w, y.show()))
            if x.most is not None or x.w is None:
                ok = x.most is not None and x.most < 1 << 16
                R.ob("bounded", "%s: %s" % (key, what), ok, x.where or w.where, "at most %s bytes and its end" % x.most if ok else "the length of %s is not bounded before it is put into the buffer" % what)
            bits = [t[1] for t in walk(x.val) if t[:1] == ("trunc",)] if x.val is not None else []
            if x.w is not None and x.key[0] != "count" and x.val is not None:
                have = field_width(P, x.key)
                least = min(bits + [8 * x.w])
                if have and not exempt(x.key):
                    R.ob("whole", "%s: %s" % (key, what), least >= 8 * have, x.where, "%d bits" % least if least >= 8 * have else "only the low %d of its %d bits are stored" % (least, 8 * have))
        for y in o.values():
            if y.key not in d:
                R.ob("field", "%s: %s" % (key, show(y.key)), False, y.where or r.where, "%s reads %s from %s, where nothing of it is stored" % (base(r.n), show(y.key), y.show()))
        for who, cl in ((w, W), (r, D)):
            for gg, a, b in cl.clashes:
                if gg == g:
                    R.ob("once", "%s: %s" % (key, show(a.key)), False, b.where or who.where, "%s has %s both at %s and at %s" % (base(who.n), show(a.key), a.show(), b.show()))
        for gg, k, where in W.stale:
            if gg == g:
                R.ob("wiped", "%s: %s" % (key, show(k)), False, where, "%s is put into a buffer that may still hold the end of a longer one" % show(k))
        for gg, where in W.altered:
            if gg == g:
                R.ob("itself", "%s: %s" % (key, where.split(":")[0]), False, where, "what is put into the buffer is computed from the record rather than taken from it")
        for cl, who in ((W, w), (D, r)):
            for L in sorted(cl.uneven):
                c = cl.names.get(L)
                if c is not None and ("count",) + c in d:
                    R.ob("each", "%s: %s" % (key, show(c)), False, who.where, "%s passes over some of %s, whose number is stored" % (base(who.n), show(c)))
        disjoint(R, W, g, d, shorts(w))
        if W.spots.get(g) or D.spots.get(g):
            ok = W.spots.get(g) == D.spots.get(g) and len(W.spots.get(g, ())) == 1
            R.ob("place", key, ok, r.where, "the same place of the stream" if ok else "stored at %s of the stream and read from %s" % (spots(W.spots.get(g)), spots(D.spots.get(g))))
        if W.sizes.get(g) or D.sizes.get(g):
            ok = W.sizes.get(g) == D.sizes.get(g)
            R.ob("length", key, ok, r.where, "%s bytes" % sorted(W.sizes.get(g, ())) if ok else "%s bytes are stored and %s read" % (sorted(W.sizes.get(g, ())), sorted(D.sizes.get(g, ()))))
        # what is only looked at
        for off, wd, where, x, cond, co in D.tags.get(g, ()):
            if any(y.off == off and y.w == wd and y.co == co for y in o.values()):
                continue
            v = [y for y in d.values() if y.off == off and not y.co and y.key[:1] == ("const",)]
            over = [y for y in d.values() if y not in v and y.off < off + (wd or 1) and off < end(y) and not y.co]
            if over:
                continue
            n = v[0].key[1] if v else 0
            if not v and g in W.dirty:
                R.ob("mark", "%s: byte %d" % (key, off), False, where, "%s expects a mark at byte %d, where %s stores nothing of its own" % (base(r.n), off, base(w.n)))
                continue
            ok = all(truth(replace(t, x, I(n))) == b for t, b in cond if truth(replace(t, x, I(n))) is not None) and (not v or v[0].w == wd)
            R.ob("mark", "%s: byte %d" % (key, off), ok, where, "the mark stored (%d) is the mark expected" % n if ok else "%s goes on only when the number at byte %d is not the %d that %s stores there" % (base(r.n), off, n, base(w.n)))

    return W

def field_width(P, key):
    """bytes of the number a record field holds"""
    f = [x for x in key if isinstance(x, str)]
    if not f:
        return None
    if f[-1].endswith("::tv_sec"):
        return 8
    cls, _, nm = f[-1].rpartition("::")
    for r in P.records.values():
        if PR.strip_t(r["n"]) == cls:
            for x in r.get("fields", ()):
                if x["n"].split("::")[-1] == nm:
                    t = x["t"].split("[")[0].strip()
                    while t.endswith(">") and "atomic" in t:
                        t = t[t.index("<") + 1:-1].strip()
                    return width(t)
    return None


def exempt(key):
    """a count of nanoseconds is below 10^9"""
    f = [x for x in key if isinstance(x, str)]
    return bool(f) and f[-1].split("::")[-1] in ("tv_nsec", "tv_usec")


def spots(x):
    out = []
    for c, d in sorted(x or (), key=str):
        out.append(" + ".join(["%d" % c] + ["%d for each %s" % (v, k[0]) if isinstance(k, tuple) else str((k, v)) for k, v in d]))
    return " / ".join(out) or "nowhere"


@rule("D04")
def d04(P, R):
    """Follows every number on its way into the buffer that is stored and, separately, every number on its way out of the
    buffer that was fetched, for each pair of functions that do the two, as (offset, multiples of the elements before it,
    width, record field).  Loops are brought to closed form: a variable that a loop carries is its value before the loop
    plus a multiple of the turn, so it does not matter how the loop is written.  The two layouts must agree field by
    field in every mode, no two values may share bytes, and names must be bounded so that their end fits."""
    layouts(P, R)


# ---------------------------------------------------------------- attributes

class Attrs(Rule):
    """what a function leaves in the fields of its object"""
    max_depth = 6

    def __init__(s, P, keep=()):
        s.P, s.keep = P, set(keep)

    def inline(s, eng, f, ev):
        if ev.vt or base(f.n) in s.keep:
            return False
        return bool(f.d.get("lambda")) or base(f.n) in THROWERS or simple(f, 60)

    def on_call(s, eng, st, ev):
        if ev.base in LOGGY:
            return [(st, I(0))]
        if ev.base == "get_current_time" and ev.locs and ev.locs[0] is not None:
            n = sum(1 for e in st.trace if e[0] == "now")
            st.emit(("now", n))
            eng.store(st, ev.locs[0], ("now", n))
            return [(st, I(0))]
        if ev.vt or ev.base in s.keep:
            st.emit(("c", ev.base, tuple(ev.args), ev.where, ev.obj))
        return None

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, bool(v)))


def canon(P, loc):
    """the record field of its object a location is: a tuple of names and element numbers"""
    k = loc[0]
    if k in ("obj",):
        return ()
    if k == "m":
        p = canon(P, loc[1])
        return None if p is None else p + (PR.strip_t(loc[2]),)
    if k == "d":
        x = loc[1]
        if x[0] == "addr":
            return canon(P, x[1])
        c, d = lin(x)
        b = [a for a in d if a[0] == "addr" and d[a] == 1]
        if len(b) == 1 and len(d) == 1:
            p = canon(P, b[0][1])
            return None if p is None else p + (("at", c, ()),)
    return None


def slots_of(W):
    """the persisted record fields of a class, as canonical places"""
    out = {}
    for g, d in W.groups.items():
        for k, x in d.items():
            if isinstance(k, tuple) and k[:1] != ("const",) and k[:1] != ("count",):
                out.setdefault(k, set()).add(g)
    return out


def same_place(p, slots):
    """the persisted field that is at a place, the first element of an array for the array itself"""
    if p in slots:
        return p
    q = p + (("at", 0, ()),)
    return q if q in slots else None


def whole_place(p, slots):
    """a record whose every part is persisted"""
    return p if any(k[:len(p)] == p and len(k) > len(p) for k in slots) else same_place(p, slots)


def final(P, st, slots):
    """persisted places -> values at the end of a path"""
    out = {}
    for l, v in st.env.items():
        if root(l)[0] != "obj":
            continue
        p = canon(P, l)
        if p:
            q = whole_place(p, slots)
            if q:
                out[q] = v
    return out


def bit(t, i, names):
    """what bit i of a bitwise term is: 0, 1, (name, i), or None"""
    if t in names:
        return (names[t], i)
    k = t[0]
    if k == "int":
        return (t[1] >> i) & 1
    if k == "trunc":
        return bit(t[2], i, names) if i < t[1] else 0
    if k == "op" and len(t) == 4 and t[1] in ("&", "|", "^"):
        a, b = bit(t[2], i, names), bit(t[3], i, names)
        if t[1] == "&":
            return 0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 or a == b else None
        if t[1] == "|":
            return 1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 or a == b else None
        return b if a == 0 else a if b == 0 else None
    if k == "op" and len(t) == 4 and t[1] == "%" and t[3][0] == "int" and t[3][1] > 0 and t[3][1] & (t[3][1] - 1) == 0:
        return bit(t[2], i, names) if t[3][1] >> i > 1 else 0
    if k == "op" and t[1] == "~":
        a = bit(t[2], i, names)
        return 1 - a if a in (0, 1) else None
    if k == "lin":
        # a sum of terms of which at most one has this bit and none carries
        parts = [bit(x, i, names) if c == 1 else None for x, c in t[2]]
        low_ = [[bit(x, j, names) if c == 1 else None for x, c in t[2]] for j in range(i)]
        cbits = [(t[1] >> j) & 1 for j in range(i + 1)]
        for j in range(i + 1):
            col = (low_[j] if j < i else parts) + [cbits[j]]
            if sum(1 for x in col if x != 0) > 1:
                return None
        col = [x for x in parts + [cbits[i]] if x != 0]
        return col[0] if col else 0
    return None


def param(f, i):
    p = f.d["p"][i]
    return ("in", ("v", 0, p["id"], p["n"]), 0)


MODE_BITS, TYPE_BITS = range(9), range(12, 16)
KINDS = {"vcreate": 0o100000, "vmkdir": 0o040000, "vsymlink": 0o120000}


def attributes(P, R, W):
    C = W.f.scls
    slots = slots_of(W)
    timed = [g for g in W.groups if any(v for _, v in g)]
    flag = {k for g in W.groups for k, _ in g}
    contents = streams(P, R, C)
    # ---- reported
    st_m = [f for f in P.methods_of(C) if f.body and any(p["t"].replace("struct ", "").strip() in ("stat *", "securefs::fuse_stat *") for p in f.d["p"])]
    R.need(len(st_m), "a method of %s that reports attributes" % C)
    place = {}
    for f in st_m:
        R.fn(f)
        i = [j for j, p in enumerate(f.d["p"]) if "stat" in p["t"]][0]
        tgt = ("d", param(f, i))
        outs, _ = R.engine(P, Attrs(P), f)
        n = 0
        for k, st, v in outs:
            if k not in ("r", "n"):
                continue
            n += 1
            rep = {}
            for l, x in st.env.items():
                if l[0] == "m" and l[1] == tgt:
                    rep[PR.strip_t(l[2]).split("::")[-1]] = x
            has_times = any(t[:1] == ("in",) and t[1][:1] == ("m",) and t[1][2] in flag and b for t, b in [(e[1], e[2]) for e in st.trace if e[0] == "if"])
            want = ["st_mode", "st_uid", "st_gid", "st_nlink"] + (["st_atim", "st_mtim", "st_ctim"] if has_times else [])
            for w in want:
                x = rep.get(w)
                while x is not None and x[0] == "trunc":
                    x = x[2]
                p = canon(P, x[1]) if x is not None and x[0] == "in" else None
                q = whole_place(p, slots) if p else None
                key = "%s: %s" % (shorts(f), w)
                if q is None:
                    R.ob("reported", key, False, f.where, "%s is not a recorded field%s" % (w, "" if x is None else " as it is: " + str(x)[:80]))
                    continue
                if place.setdefault(w, q) != q:
                    R.ob("reported", key, False, f.where, "%s is %s on one path and %s on another" % (w, show(place[w]), show(q)))
            for w in rep:
                if w.startswith("st_") and w not in want and w in ("st_atim", "st_mtim", "st_ctim"):
                    R.ob("reported", "%s: %s" % (shorts(f), w), False, f.where, "%s is reported from the record although the record does not keep it" % w)
            x = rep.get("st_size")
            ok = x is not None and x[0] == "call" and "size" in str(x[1])
            held = canon(P, x[2][1]) if ok and len(x) > 2 and x[2][0] == "in" and x[2][1][0] == "m" else pointed(P, x[2]) if ok and len(x) > 2 else None
            if contents and held is not None:
                ok = held in contents
            R.ob("size", shorts(f), ok, f.where, "the size of the contents" if ok else "st_size is not the size of the contents stream")
        R.need(n, "paths of %s" % shorts(f))
        by = {}
        for w, q in sorted(place.items()):
            by.setdefault(q, []).append(w)
            R.ob("reported", "%s: %s" % (shorts(f), w), len(by[q]) == 1, f.where, show(q) if len(by[q]) == 1 else "%s are all reported from %s" % (" and ".join(by[q]), show(q)))
    if not all(w in place for w in ("st_mode", "st_uid", "st_gid", "st_nlink")):
        return
    back = {q: w for w, q in place.items()}
    # ---- setters
    setters = {}
    nms = {}
    for f in P.methods_of(C):
        if not f.body or f.d.get("ctor") or f.d.get("const") or not f.d["p"] or f in st_m or f.d.get("lambda"):
            continue
        if f.key == W.f.key or not touches_places(P, f, slots):
            continue
        outs, _ = R.engine(P, Attrs(P), f)
        eff = []
        for k, st, v in outs:
            if k in ("r", "n"):
                eff.append((final(P, st, slots), st))
        if any(e for e, _ in eff):
            setters[f.key] = (f, eff)
            nms.setdefault(base(f.n), f)
    # what kind of change each makes
    def sets(f, q):
        """the parameter a method stores at a place on some path"""
        out = set()
        for e, st in setters[f.key][1]:
            v = e.get(q)
            if v is None:
                continue
            hit = [i for i in range(len(f.d["p"])) if v == param(f, i)]
            out.add(hit[0] if hit else None)
        return out
    ctime = place.get("st_ctim")
    for key, (f, eff) in sorted(setters.items(), key=lambda i: i[1][0].n):
        if len(f.d["p"]) != 1:
            continue
        own = {q for q in (place[w] for w in ("st_mode", "st_uid", "st_gid", "st_nlink")) if sets(f, q) == {0}}
        if not own:
            continue
        R.fn(f)
        ok = len(own) == 1
        R.ob("setter", shorts(f), ok, f.where, "sets %s alone" % back[next(iter(own))] if ok else "sets %s with one value" % " and ".join(sorted(back[q] for q in own)))
        for e, st in eff:
            if next(iter(own)) in e and ctime:
                on = [b for t, b in [(x[1], x[2]) for x in st.trace if x[0] == "if"] if t[:1] == ("in",) and t[1][:1] == ("m",) and t[1][2] in flag]
                if on and not on[-1]:
                    continue
                ok = e.get(ctime, ())[:1] == ("now",)
                R.ob("changed", shorts(f), ok, f.where, "the change time is moved" if ok else "the change time is not moved although %s changes" % back[next(iter(own))])
            if ok and next(iter(own)) not in e:
                q = next(iter(own))
                was = ("in", q_loc(P, f, q, eff), 0)
                same = st.decide(("eq0", sub(was, param(f, 0)))) is True
                R.ob("setter", "%s: set" % shorts(f), same, f.where, "already so" if same else "returns without setting %s although it may differ" % back[q])
            others = [q for q in e if q in back and q not in own and q != ctime]
            if others:
                R.ob("setter", shorts(f), False, f.where, "also changes %s" % ", ".join(sorted(back[q] for q in others)))
    timestamps(P, R, C, place, back, setters, flag, slots)
    initial(P, R, C, place, back, setters)
    operations(P, R, C, place, back, setters, nms, sets)


def q_loc(P, f, q, eff):
    """the location a method stores a persisted field at"""
    for e, st in eff:
        for l in st.env:
            if root(l)[0] == "obj":
                p = canon(P, l)
                if p and (p == q or p + (("at", 0, ()),) == q):
                    return l
    return ("none",)


def pointed(P, x):
    """the field through which an object is reached"""
    for t in walk(x):
        if t[:1] == ("in",) and len(t) > 1 and isinstance(t[1], tuple) and t[1][:1] == ("m",) and t[1][1] == ("obj", "this"):
            return canon(P, t[1])
    return None


def changers(P, C):
    """the methods of regular files that change the contents"""
    for D in sorted(set(P.all_derived(C))):
        for f in P.methods_of(D):
            if not f.body or f.d.get("const") or f.d.get("ctor") or f.d.get("lambda"):
                continue
            direct = [x for x in f.nodes() if x.get("k") == "call" and x.get("vt") and base(x.get("n") or "") in ("write", "resize")]
            if not direct or not any(p["t"] in ("const void *", "unsigned long", "securefs::length_type") for p in f.d["p"]) or "Directory" in D:
                continue
            if f.d.get("virt") or f.d.get("over"):
                continue
            yield f


def streams(P, R, C):
    """the fields whose stream the contents are written to"""
    out = set()
    for f in changers(P, C):
        for k, st, v in R.engine(P, Attrs(P), f)[0]:
            for e in st.trace:
                if e[0] == "c" and e[1] in ("write", "resize") and e[4]:
                    q = pointed(P, e[4])
                    if q:
                        out.add(q)
    return out


def flag_on(st, flag):
    on = [b for t, b in [(x[1], x[2]) for x in st.trace if x[0] == "if"] if t[:1] == ("in",) and t[1][:1] == ("m",) and t[1][2] in flag]
    return on[-1] if on else None


def timestamps(P, R, C, place, back, setters, flag, slots):
    at, mt, ct = place.get("st_atim"), place.get("st_mtim"), place.get("st_ctim")
    if not (at and mt and ct):
        return
    # a method given both times at once
    for key, (f, eff) in sorted(setters.items(), key=lambda i: i[1][0].n):
        ps = [i for i, p in enumerate(f.d["p"]) if "timespec" in p["t"] and p["t"].rstrip().endswith("*")]
        if not ps:
            continue
        R.fn(f)
        ptr = param(f, ps[0])
        n = 0
        for e, st in eff:
            if flag_on(st, flag) is False or not (at in e or mt in e):
                if flag_on(st, flag):
                    R.ob("times", shorts(f), False, f.where, "a path keeps neither of the times given")
                continue
            n += 1
            for q, i in ((at, 0), (mt, 1)):
                v = e.get(q)
                want = ("in", ("d", ptr if i == 0 else add(ptr, I(i))), 0)
                ok = v is not None and (v == want or v[:1] == ("now",) and st.decide(("eq0", ptr)) is True)
                R.ob("times", "%s: %s" % (shorts(f), back[q]), ok, f.where, "the time given, the present when none is" if ok else
                     "%s becomes %s" % (back[q], "nothing" if v is None else str(v)[:80]))
            v = e.get(ct)
            R.ob("times", "%s: %s" % (shorts(f), back[ct]), v is not None and v[:1] == ("now",), f.where, "the present" if v is not None and v[:1] == ("now",) else "the change time is not the present")
        R.need(n, "paths of %s that keep the times" % shorts(f))
        for k, st, v in R.engine(P, Attrs(P), f)[0]:
            if k in ("r", "n") and flag_on(st, flag) is False:
                ok = any(e[0] == "c" and any(a == ptr for a in e[2]) for e in st.trace)
                R.ob("times", "%s: kept by the host" % shorts(f), ok, f.where, "handed to the host's file" if ok else "the times given are dropped when the record does not keep them")
    # what changes the contents
    n = 0
    for f in changers(P, C):
        n += 1
        R.fn(f)
        for k, st, v in R.engine(P, Attrs(P), f)[0]:
            if k not in ("r", "n") or not any(e[0] == "c" and e[1] in ("write", "resize") for e in st.trace):
                continue
            if flag_on(st, flag) is False:
                continue
            e = final(P, st, slots)
            for q in (mt, ct):
                ok = e.get(q, ())[:1] == ("now",)
                R.ob("changed", "%s: %s" % (shorts(f), back[q]), ok, f.where, "moved to the present" if ok else "%s stays although the contents change" % back[q])
    R.need(n, "methods that change the contents of a regular file")


def initial(P, R, C, place, back, setters):
    """a new record: every attribute is the argument for it"""
    n = 0
    for key, (f, eff) in sorted(setters.items(), key=lambda i: i[1][0].n):
        if len(f.d["p"]) != 3:
            continue
        n += 1
        R.fn(f)
        used, dflt = {}, {}
        for e, st in eff:
            for w in ("st_mode", "st_uid", "st_gid"):
                v = e.get(place[w])
                hit = [i for i in range(3) if v == param(f, i)]
                if hit:
                    used.setdefault(w, set()).add(hit[0])
                elif v is None:
                    R.ob("initial", "%s: %s" % (shorts(f), w), False, f.where, "%s of a new file is left as it was" % w)
                else:
                    want = {"st_uid": "getuid", "st_gid": "getgid"}.get(w)
                    d = [i for i in range(3) if any(st.decide(("eq0", sub(param(f, i), I(m)))) is True for m in (-1, 0xffffffff))]
                    own = v[:1] == ("ret",) and base(str(v[1])) == want and bool(d)
                    R.ob("initial", "%s: %s by default" % (shorts(f), w), own, f.where, "the process's own when none is given" if own else "%s of a new file is neither the argument nor the process's own" % w)
                    if own:
                        dflt.setdefault(w, []).append(set(d))
            v = e.get(place["st_nlink"])
            R.ob("initial", "%s: st_nlink" % shorts(f), v == I(1), f.where, "a new file has one name" if v == I(1) else "a new file starts with a link count of %s" % (v[1] if v and v[0] == "int" else "an unknown number"))
        one = all(len(used.get(w, ())) == 1 for w in ("st_mode", "st_uid", "st_gid")) and len({next(iter(x)) for x in used.values()}) == 3
        R.ob("initial", shorts(f), one, f.where, "mode, owner and group are the three arguments" if one else "an attribute of a new file is not the argument for it: %s" % {k: sorted(v) for k, v in used.items()})
        for w, ds in sorted(dflt.items()):
            ok = one and all(used[w] & d for d in ds)
            R.ob("initial", "%s: %s by default only" % (shorts(f), w), ok, f.where, "only when none is given" if ok else "%s given is replaced by the process's own" % w)
        if one:
            place["init"] = (base(f.n), {w: next(iter(v)) for w, v in used.items()})
    R.need(n, "a method of %s that fills a new record" % C)


def operations(P, R, C, place, back, setters, nms, sets):
    from .common import events
    stops = set(nms) - {"flush"}
    init = place.get("init")
    writes = {}                       # method name -> (place, parameter)
    for nm, f in nms.items():
        if len(f.d["p"]) == 1:
            for w in ("st_mode", "st_uid", "st_gid", "st_nlink"):
                if sets(f, place[w]) == {0}:
                    writes[nm] = w
    gets = {}                         # getters, so that old values can be told
    for f in P.methods_of(C):
        if f.body and f.d.get("const") and not f.d["p"]:
            outs, _ = R.engine(P, Attrs(P), f)
            vs = {canon(P, v[1]) if v is not None and v[0] == "in" else None for k, st, v in outs if k == "r"}
            if len(vs) == 1 and None not in vs:
                q = whole_place(next(iter(vs)), {k: 1 for k in back})
                if q in back:
                    gets[base(f.n)] = back[q]
    bases = stops | set(gets)
    from .ops import delegating
    wrap = delegating(P)
    wrap = wrap[0] | wrap[1]
    mine_cls = {f.scls for f in P.funcs.values() if f.body and f.scls and base(f.n) in KINDS and f.scls not in wrap and any(k in setters for k in P.reach([f]))}
    done = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.n):
        if not f.body or not f.scls or not (f.d.get("over") or f.d.get("virt")):
            continue
        nm = base(f.n)
        if nm not in ("vchown", "vchmod", "vutimens") and nm not in KINDS or f.scls in wrap:
            continue
        if f.scls not in mine_cls:
            continue
        done += 1
        R.fn(f)
        outs, _ = events(P, R, f, bases, stop=bases, ifs=lambda t: any(x[:1] in (("call",), ("ret",)) and len(x) > 1 and any(g in str(x[1]) for g in gets) for x in subterms(t)))
        name = shorts(f)
        n = 0
        ps = f.d["p"]
        for k, st, v in outs:
            if k != "r" or v is None or st.decide(("eq0", v)) is False:
                continue
            n += 1
            calls = [e for e in st.trace if e[0] == "c" and e[1] in stops]
            if nm == "vchown":
                for i, w in ((1, "st_uid"), (2, "st_gid")):
                    mine = [e for e in calls if writes.get(e[1]) == w]
                    good = [e for e in mine if e[2] and e[2][0] == param(f, i)]
                    keep = any(e[0] == "if" and same(e[1], e[2], lambda t: t == param(f, i), lambda t: t in {x[3] for x in st.trace if x[0] == "c" and gets.get(x[1]) == w}) for e in st.trace) or st.decide(("eq0", sub(param(f, i), I(0xffffffff)))) is True or st.decide(("eq0", add(param(f, i), I(1)))) is True
                    ok = len(good) == len(mine) and (bool(good) or keep)
                    R.ob("chown", "%s: %s" % (name, w), ok, f.where, "what was asked for, unless it was -1" if ok else
                         "succeeds, but %s is %s" % (w, "not set" if not mine else "set to something else"))
                    if keep and mine and any(st.decide(("eq0", sub(param(f, i), I(m)))) is True for m in (-1, 0xffffffff)):
                        R.ob("chown", "%s: %s kept" % (name, w), False, f.where, "%s is set although it was to be kept" % w)
                rest = [e for e in calls if writes.get(e[1]) in ("st_mode", "st_nlink")]
                R.ob("chown", "%s: alone" % name, not rest, f.where, "nothing else changes" if not rest else "also calls %s" % rest[0][1])
            elif nm == "vchmod":
                mine = [e for e in calls if writes.get(e[1]) == "st_mode"]
                names = {param(f, 1): "asked"}
                for e in st.trace:
                    if e[0] == "c" and gets.get(e[1]) == "st_mode":
                        names[e[3]] = "old"
                def asked(t):
                    return all(bit(t, i, names) == ("asked", i) for i in MODE_BITS) and all(bit(t, i, names) == ("old", i) for i in TYPE_BITS)
                ok = len(mine) >= 1 and asked(mine[-1][2][0]) or not mine and any(e[0] == "if" and same(e[1], e[2], asked, lambda t: names.get(t) == "old") for e in st.trace)
                R.ob("chmod", name, ok, f.where, "the permission bits asked for, the type it had" if ok else "the mode does not become the permission bits asked for with the type it had")
            elif nm == "vutimens":
                mine = [e for e in calls if any(a == param(f, 1) for a in e[2])]
                ok = bool(mine) and all(any(q in eff for eff, _ in setters[nms[e[1]].key][1] for q in (place.get("st_mtim"),)) for e in mine)
                R.ob("utimens", name, ok, f.where, "handed to the record" if ok else "succeeds without the times reaching the record")
            else:
                if init is None:
                    continue
                mine = [e for e in calls if e[1] == init[0]]
                R.ob("created", name, len(mine) == 1, f.where, "one new record" if len(mine) == 1 else "succeeds with %d new records" % len(mine))
                c = [j for j, p in enumerate(ps) if "fuse_context" in p["t"]]
                for e in mine:
                    for w, fld in (("st_uid", "uid"), ("st_gid", "gid")):
                        a = e[2][init[1][w]]
                        while a[0] == "trunc":
                            a = a[2]
                        ok = bool(c) and a[0] == "in" and a[1][0] == "m" and a[1][1] == ("d", param(f, c[0])) and PR.strip_t(a[1][2]).split("::")[-1] == fld
                        R.ob("created", "%s: %s" % (name, w), ok, f.where, "the caller's" if ok else "the %s of the new file is not the caller's" % w)
                    a = e[2][init[1]["st_mode"]]
                    names = {param(f, j): "asked" for j, p in enumerate(ps) if "mode" in p["t"] or p["t"] == "unsigned int"}
                    ok = all(bit(a, i, names) == (KINDS[nm] >> i) & 1 for i in TYPE_BITS)
                    R.ob("created", "%s: type" % name, ok, f.where, "the type of the new file" if ok else "the type of the new file is not what the operation makes")
                    if nm != "vsymlink":
                        ok = all(bit(a, i, names) == ("asked", i) for i in MODE_BITS)
                        R.ob("created", "%s: permissions" % name, ok, f.where, "the permission bits asked for" if ok else "the permission bits of the new file are not those asked for")
        R.need(n, "successful paths of %s" % name)
    R.need(done, "operations that change attributes")
    overridden(P, R, mine_cls, place)


class Seen(Attrs):
    """what a reporting operation leaves in the caller's record"""
    def __init__(s, P, keys):
        Attrs.__init__(s, P)
        s.keys = keys

    def inline(s, eng, f, ev):
        if f.key in s.keys:
            return False
        return Attrs.inline(s, eng, f, ev) or any(k in s.keys for k in s.P.reach([f]))

    def on_call(s, eng, st, ev):
        if ev.key in s.keys:
            p = next((a for a in ev.args), None)
            if p is not None:
                st.emit(("stat", p))
                for w in REPORTED:
                    eng.store(st, ("m", eng.deref(p), "stat::" + w), ("rep", w))
            return [(st, I(0))]
        out = Attrs.on_call(s, eng, st, ev)
        if out is None and not ev.vt and ev.obj == ("obj", "this"):
            g = s.P.funcs.get(ev.key)
            if g is not None and not s.inline(eng, g, ev):
                # the settings of a file system object do not change while it is in use
                return [(st, ("ret", ev.base, ev.key) + st.fresh(ev.key, ev.where))]
        return out


REPORTED = ("st_mode", "st_uid", "st_gid", "st_nlink", "st_size", "st_atim", "st_mtim", "st_ctim")


def overridden(P, R, classes, place):
    """what is reported is what is recorded, but for an owner that was asked for"""
    from ..flows import flows
    F = flows(P)
    keys = {f.key for f in P.funcs.values() if f.body and base(f.n) == "stat" and any("stat *" in p["t"] for p in f.d["p"])}
    over = {}
    for rec in P.records.values():
        for x in rec["fields"]:
            for t in F.field(x["n"]):
                if t[0] == "set" and t[1] in ("uid_override", "gid_override"):
                    over.setdefault({"uid_override": "st_uid", "gid_override": "st_gid"}[t[1]], set()).add(PR.strip_t(x["n"]))
    n = 0
    for C in sorted(classes):
        for f in P.methods_of(C):
            if not f.body or not (f.d.get("over") or f.d.get("virt")) or not any("stat *" in p["t"] for p in f.d["p"]):
                continue
            if "statvfs" in str([p["t"] for p in f.d["p"]]) or not any(k in keys for k in P.reach([f])):
                continue
            n += 1
            R.fn(f)
            i = [j for j, p in enumerate(f.d["p"]) if "stat *" in p["t"]][0]
            tgt = ("d", param(f, i))
            m = 0
            for k, st, v in R.engine(P, Seen(P, keys), f)[0]:
                if k != "r" or v is None or st.decide(("eq0", v)) is False:
                    continue
                m += 1
                got = {PR.strip_t(l[2]).split("::")[-1]: x for l, x in st.env.items() if l[0] == "m" and l[1] == tgt}
                for w in REPORTED:
                    x = got.get(w)
                    key = "%s: %s" % (shorts(f), w)
                    if x == ("rep", w):
                        # nothing was asked for instead
                        none = not over.get(w) or any(e[0] == "if" and any(str(q) in str(e[1]) for q in over[w]) and absent(e[1], e[2]) for e in st.trace)
                        R.ob("override", key, none, f.where, "as recorded" if none else "%s is as recorded although another owner may have been asked for" % w)
                        continue
                    y = x
                    while y is not None and y[0] in ("trunc",):
                        y = y[2]
                    ok = w in over and y is not None and y[0] == "in" and any(q in str(y[1]) for q in over[w])
                    R.ob("override", key, ok, f.where, "the owner asked for" if ok else "%s is reported as something else than recorded%s" % (w, "" if x is not None else " or not at all"))
            R.need(m, "successful paths of %s" % shorts(f))
    R.need(n, "operations that report attributes")


def same(t, v, a, b):
    """a condition that says that something satisfying a equals something satisfying b"""
    while t[0] == "not":
        t, v = t[1], not v
    if t[0] != "eq0" or not v:
        return False
    c, d = lin(t[1])
    if c != 0 or len(d) != 2 or sorted(d.values()) != [-1, 1]:
        return False
    x, y = d
    return a(x) and b(y) or a(y) and b(x)


def absent(t, v):
    """a condition that says that an optional value is not there"""
    while t[0] == "not":
        t, v = t[1], not v
    return bool(v) if t[0] == "eq0" else not v


def touches_places(P, f, slots):
    flds = {k[0] for k in slots if k}
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.key in seen or len(seen) > 12:
            continue
        seen.add(g.key)
        for n in g.nodes():
            if n.get("k") == "mem" and PR.strip_t(n.get("f") or "") in flds:
                return True
            if n.get("k") == "call" and not n.get("vt"):
                todo += [h for h in P.targets(n) if h.body and h.scls == f.scls]
    return False
