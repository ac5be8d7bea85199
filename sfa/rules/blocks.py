"""G02: the arithmetic of block transfers."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY
from .naming import offset

RD, WR, ADJ = "read_multi_blocks", "write_multi_blocks", "adjust_logical_size"


# ------------------------------------------------------------------ polynomials over the quantities of a transfer
def pc(n):
    return {(): n} if n else {}


def pa(a):
    return {(a,): 1}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def psub(p, q):
    return padd(p, q, -1)


def pconst(p):
    """the constant that p is, or None"""
    if not p:
        return 0
    return p[()] if set(p) == {()} else None


class Case:
    """one way the quantities of a transfer can be related: every atom stands for a number >= 0"""

    def __init__(s, sub, facts, div=None):
        s.sub = sub             # term -> polynomial
        s.k = list(facts)       # polynomials known to be >= 0
        s.div = div             # (atom that is divided by, {residue atom: zero or not})
        s.memo = {}

    def ge(s, p, depth=3):
        """whether p >= 0: True, False, None"""
        return True if s.pos(p, depth) else False if s.pos(psub(pc(-1), p), depth) else None

    def pos(s, p, depth):
        if all(c >= 0 for c in p.values()):
            return True
        if not depth:
            return False
        neg = {m for m, c in p.items() if c < 0}
        for f in s.k:
            # only a fact that takes away a negative part helps
            if any(f.get(m, 0) < 0 for m in neg) and s.pos(psub(p, f), depth - 1):
                return True
        return False

    def poly(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s.memo[t] = s.poly_(t)
        return r

    def poly_(s, t):
        if t in s.sub:
            return s.sub[t]
        k = t[0]
        if k == "int":
            return pc(t[1])
        if k == "lin":
            r = pc(t[1])
            for x, c in t[2]:
                r = padd(r, pmul(pc(c), s.poly(x)))
            return r
        if k == "trunc":
            return s.poly(t[2])
        if k == "op":
            if len(t) == 4:
                a, b = s.poly(t[2]), s.poly(t[3])
                if t[1] == "*":
                    return pmul(a, b)
                if t[1] == "+":
                    return padd(a, b)
                if t[1] == "-":
                    return psub(a, b)
                if t[1] in ("/", "%") and s.div is not None and b == pa(s.div):
                    q = s.quot(a)
                    if q is not None:
                        return q if t[1] == "/" else psub(a, pmul(q, b))
        if k == "call" and t[1] in ("min", "max") and len(t) == 4:
            a, b = s.poly(t[2]), s.poly(t[3])
            g = s.ge(psub(a, b))
            h = s.ge(psub(b, a))
            if g is True or h is False:
                return a if t[1] == "max" else b
            if h is True or g is False:
                return b if t[1] == "max" else a
            return pa((t[1], tuple(sorted((frz(a), frz(b)), key=repr))))
        if k in ("ge0", "eq0", "not"):
            d = s.decide(t)
            if d is not None:
                return pc(int(d))
        return pa(t)

    def quot(s, a):
        """a / d, when the remainder can be told"""
        d = s.div
        q, r = {}, {}
        for m, c in a.items():
            if d in m:
                x = list(m)
                x.remove(d)
                q[tuple(x)] = c
            else:
                r[m] = c
        for k in (0, -1, 1, -2):
            # r + (-k) * d within [0, d)
            rest = padd(r, pmul(pc(-k), pa(d)))
            if s.ge(rest) is True and s.ge(psub(psub(pa(d), rest), pc(1))) is True:
                return padd(q, pc(k))
        return None

    def decide(s, t):
        if t[0] == "not":
            d = s.decide(t[1])
            return None if d is None else not d
        if t[0] == "ge0":
            return s.ge(s.poly(t[1]))
        if t[0] == "eq0":
            p = s.poly(t[1])
            if pconst(p) is not None:
                return pconst(p) == 0
            if s.ge(psub(p, pc(1))) is True or s.ge(psub(pc(-1), p)) is True:
                return False
        return None

    def same(s, a, b):
        """whether two polynomials are equal in this case"""
        p = psub(a, b)
        return not p or s.ge(p) is True and s.ge(psub({}, p)) is True

    def holds(s, st):
        """takes over the facts of a path; False if they cannot hold in this case"""
        new = []
        for sh, (lo, hi) in st.iv.items():
            p = {}
            for x, c in sh:
                p = padd(p, pmul(pc(c), s.poly(x)))
            if lo > -INF:
                new.append(psub(p, pc(int(lo))))
            if hi < INF:
                new.append(psub(pc(int(hi)), p))
        for f in new:
            if s.ge(f) is False:
                return False
        s.k += [f for f in new if f and s.ge(f) is not True]
        s.memo = {}
        for e in st.trace:
            if e[0] == "if":
                d = s.decide(e[1]) if e[1][0] in ("ge0", "eq0", "not") else None
                if d is not None and d != e[2]:
                    return False
        for sh, vals in st.ne.items():
            p = {}
            for x, c in sh:
                p = padd(p, pmul(pc(c), s.poly(x)))
            if pconst(p) in vals:
                return False
        return True


def frz(p):
    return tuple(sorted(p.items(), key=repr))


def show(p):
    return " + ".join("%s%s" % ("" if c == 1 and m else str(c), "*".join(str(x if isinstance(x, str) else x[-1] if not isinstance(x[-1], tuple) else x[0]) for x in m)) for m, c in sorted(p.items(), key=repr)) or "0"


def ranges(off, n, bs):
    """the cases of a range of n > 0 bytes from off, for blocks of bs"""
    Q, D, B = pa("q0"), pa("d"), pa("bs")
    for d in (0, 1):
        for r0 in (0, 1):
            for r1 in (0, 1):
                if d == 0 and not r1:
                    continue
                R0, R1 = pa("r0") if r0 else {}, pa("r1") if r1 else {}
                DD = D if d else {}
                ln = psub(padd(pmul(DD, B), R1), R0)
                k = [psub(B, pc(1)), psub(ln, pc(1))]
                if d:
                    k += [psub(D, pc(1)), pmul(psub(D, pc(1)), B)]
                if r0:
                    k += [psub(R0, pc(1)), psub(psub(B, R0), pc(1))]
                if r1:
                    k += [psub(R1, pc(1)), psub(psub(B, R1), pc(1))]
                c = Case({off: padd(pmul(Q, B), R0), n: ln, bs: B}, k, "bs")
                c.name = "%s, %s, %s" % ("in one block" if not d else "over several blocks", "from inside a block" if r0 else "from the start of a block", "to inside a block" if r1 else "to the end of a block")
                c.Q, c.D, c.R0, c.R1, c.L, c.B = Q, DD, R0, R1, ln, B
                yield c


def sizes(cur, new, bs):
    """the cases of going from one size to another"""
    B = pa("bs")
    for e in (-1, 0, 1):
        for rc in (0, 1):
            for rn in (0, 1):
                Q, E = pa("q"), pa("e")
                RC, RN = pa("rc") if rc else {}, pa("rn") if rn else {}
                qc, qn = (Q, padd(Q, E)) if e >= 0 else (padd(Q, E), Q)
                if not e:
                    qn = qc = Q
                for o in ((1, -1) if not e else (e,)):
                    k = [psub(B, pc(1))]
                    if e:
                        k += [psub(E, pc(1)), pmul(psub(E, pc(1)), B)]
                    for r in (RC, RN):
                        if r:
                            k += [psub(r, pc(1)), psub(psub(B, r), pc(1))]
                    if not e:
                        diff = psub(RN, RC)
                        if not diff:
                            continue
                        if o > 0 and not rn or o < 0 and not rc:
                            continue
                        k.append(psub(diff, pc(1)) if o > 0 else psub(psub({}, diff), pc(1)))
                    c = Case({cur: padd(pmul(qc, B), RC), new: padd(pmul(qn, B), RN), bs: B}, k, "bs")
                    c.name = "%s, %s, %s" % (("growing" if o > 0 else "shrinking") + (" inside a block" if not e else ""), "from inside a block" if rc else "from the end of a block", "to inside a block" if rn else "to the end of a block")
                    c.grow, c.e, c.QC, c.QN, c.RC, c.RN, c.B = o > 0, e, qc, qn, RC, RN, B
                    yield c


# ------------------------------------------------------------------ what a transfer does
class Xfer(Rule):
    loop_iters = 2
    max_depth = 7
    max_states = 600
    store_locals = True

    def __init__(s, P, cls, opaque=(), locs=()):
        s.opaque = set(opaque)
        s.cls = cls
        s.fam = set(P.all_bases(cls)) | {cls} if hasattr(P, "all_bases") else {cls}

    def inline(s, eng, f, ev):
        b = base(f.n)
        if f.key in s.opaque or b in LOGGY or b in (RD, WR, ADJ) or ev.vt and b in ("size", "read", "write", "resize", "is_sparse", "flush"):
            return False
        if b in THROWERS or f.d.get("lambda"):
            return True
        if f.scls and (f.scls == s.cls or f.scls in s.fam) or not f.scls:
            return simple(f, 40)
        return simple(f, 8)

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY:
            return [(st, I(0))]
        if b == RD and len(ev.args) == 3 and ev.key not in s.opaque:
            v = ("ret", RD, sum(1 for e in st.trace if e[0] == "rd"))
            s_unsigned.add(v)
            st.emit(("rd", tuple(ev.args), v, ev.where))
            return [(st, v)]
        if b == WR and len(ev.args) == 4:
            st.emit(("wr", tuple(ev.args), None, ev.where, s.room(eng, st, ev.args[3])))
            return [(st, I(0))]
        if b == ADJ:
            st.emit(("adj", tuple(ev.args), ev.where))
            return [(st, I(0))]
        return None

    def on_ret(s, eng, st, ev, val):
        b, k = ev.base, ev.key
        if k in s.opaque:
            st.emit(("put" if len(ev.args) == 3 else "size", tuple(ev.args), val, ev.where))
        elif b in ("memcpy", "memmove") and len(ev.args) == 3:
            st.emit(("copy", tuple(ev.args), s.room(eng, st, ev.args[1])))
        elif b == "copy_n" and len(ev.args) == 3:
            st.emit(("copy", (ev.args[2], ev.args[0], ev.args[1]), s.room(eng, st, ev.args[0])))
        elif b == "copy" and len(ev.args) == 3:
            st.emit(("copy", (ev.args[2], ev.args[0], sub(ev.args[1], ev.args[0])), s.room(eng, st, ev.args[0])))
        elif b == "memset" and len(ev.args) == 3:
            st.emit(("fill", ev.args[0], ev.args[2], ev.args[1]))
        elif b == "fill" and len(ev.args) == 3:
            st.emit(("fill", ev.args[0], sub(ev.args[1], ev.args[0]), ev.args[2]))
        elif b == "fill_n" and len(ev.args) == 3:
            st.emit(("fill", ev.args[0], ev.args[1], ev.args[2]))
        elif b == "size" and not ev.args and (ev.vt or ev.obj is not None and ev.obj == ("obj", "this")):
            st.emit(("cur", val))
        elif b == "is_sparse":
            st.emit(("sparse", val))

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, v))

    def room(s, eng, st, p):
        """(size, whether it begins as zeros) of the container a pointer leads into"""
        c, k = offset(p)
        v = eng.load(st, c) if c is not None and c[0] != "d" else None
        if v is not None and sized(v) is not None:
            return sized(v), v[0] == "ctor" and v[1].startswith(("std::vector", "std::basic_string", "absl::"))
        for e in reversed(st.trace):
            if e[0] == "room" and e[1] == c:
                return e[2], e[3]
        return None

    def on_init(s, eng, st, loc, val, node, fr):
        if loc[0] == "v" and sized(val) is not None:
            st.emit(("room", loc, sized(val), val[0] == "ctor" and val[1].startswith(("std::vector", "std::basic_string", "absl::"))))


def base_of(P):
    for t, r in P.rec_by_t.items():
        if any(f.scls == t and base(f.n) in ("read", "write") and f.body for f in P.methods_of(t)) and any(base(k.n) == RD for k in P.methods_of(t)):
            return t
    return None


def within(c, st, p, room, ln, what, bad):
    if room is None or room[0] is None:
        return
    o = offset(p)[1]
    if c.ge(psub(psub(c.poly(room[0]), c.poly(o)), ln)) is False:
        bad.add("the buffer is too small for %s" % what)


def block_size(P, cls, outs):
    """the term blocks are counted in"""
    seen = {}
    for kind, st, v in outs:
        todo = [e for e in st.trace] + list(st.iv) + ([v] if v is not None else [])
        for t in todo:
            for x in walk(t):
                if x[:1] == ("op",) and len(x) == 4 and x[1] in ("/", "%"):
                    seen[x[3]] = seen.get(x[3], 0) + 1
    return max(seen, key=lambda x: seen[x]) if seen else None


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)
        elif isinstance(x, (list, frozenset)):
            st.extend(x)


def place(c, dst, bufs):
    """(container, offset polynomial) of a pointer"""
    b, k = offset(dst)
    return b, (c.poly(k) if k is not None else None)


def judge_read(P, R, f, fam):
    bad, odd, n = set(), set(), 0
    outs, eng = R.engine(P, Xfer(P, fam), f)
    bs = block_size(P, fam, outs)
    out, off, ln = (("in", ("v", 0, p["id"], p["n"]), 0) for p in f.d["p"])
    if bs is None:
        return {"blocks are not used"}, odd, 0
    for kind, st, v in outs:
        if kind != "r":
            continue
        for c in ranges(off, ln, bs):
            if not c.holds(st):
                continue
            n += 1
            rds = [e for e in st.trace if e[0] == "rd"]
            cps = [e for e in st.trace if e[0] == "copy"]
            if len(rds) > 1 or len(cps) > 1 or any(e[0] in ("wr", "adj") for e in st.trace):
                odd.add("more than one transfer")
                continue
            if not rds:
                bad.add("nothing is read (%s)" % c.name)
                continue
            (s, e, dst), got = rds[0][1], rds[0][2]
            s, e, g, v_ = c.poly(s), c.poly(e), c.poly(got), c.poly(v)
            first = pmul(s, c.B)
            ends = padd(c.Q, c.D)
            if c.R1:
                ends = padd(ends, pc(1))
            o, k = place(c, dst, None)
            if dst == out:
                if not c.same(first, c.sub[off]):
                    bad.add("what is read begins elsewhere than asked for (%s)" % c.name)
                if not c.same(psub(pmul(e, c.B), first), c.L):
                    bad.add("as much as asked for is not what is read (%s)" % c.name)
                if v_ != g:
                    bad.add("the length given back is not the length read (%s)" % c.name)
                continue
            if not c.same(s, c.Q):
                bad.add("the first block read is not the first asked for (%s)" % c.name)
            if c.ge(psub(e, ends)) is not True:
                bad.add("the last block asked for is not read (%s)" % c.name)
            if not cps:
                if pconst(v_) != 0 or c.ge(psub(c.R0, g)) is not True:
                    bad.add("what was read is not given out (%s)" % c.name)
                continue
            d, src, m = cps[0][1]
            so, sk = place(c, src, None)
            if d != out:
                bad.add("what was read is put elsewhere than asked for (%s)" % c.name)
                continue
            if so != o or not c.same(padd(first, psub(sk, k)), c.sub[off]):
                bad.add("what is given out begins elsewhere than asked for (%s)" % c.name)
            m = c.poly(m)
            if v_ != m:
                bad.add("the length given back is not the length copied (%s)" % c.name)
            avail = psub(g, psub(sk, k))
            mins = ("min", tuple(sorted((frz(avail), frz(c.L)), key=repr)))
            if m == pa(mins) or c.same(m, c.L) and c.ge(psub(avail, c.L)) is True or c.same(m, avail) and c.ge(psub(c.L, avail)) is True:
                pass
            else:
                bad.add("the length given out is not what was asked for and is there (%s)" % c.name)
            room = cps[0][2]
            within(c, st, dst, room, psub(pmul(e, c.B), first), "the blocks read (%s)" % c.name, bad)
            if room is not None and room[0] is not None and c.ge(psub(psub(c.poly(room[0]), sk), c.L)) is False:
                bad.add("the buffer is too small for what is asked for (%s)" % c.name)
    return bad, odd, n


def data_param(f):
    p = f.d["p"]
    return len(p) == 3 and ("void" in p[0]["t"] or "variant" in p[0]["t"])


def judge_writer(P, R, f, fam, sizers):
    """a function that turns a range of bytes into blocks to write"""
    bad, odd, n = set(), set(), 0
    outs, eng = R.engine(P, Xfer(P, fam, sizers), f)
    bs = block_size(P, fam, outs)
    data, off, ln = (("in", ("v", 0, p["id"], p["n"]), 0) for p in f.d["p"])
    if bs is None:
        return {"blocks are not used"}, odd, 0
    zeros = False
    for kind, st, v in outs:
        if kind != "r":
            continue
        for c in ranges(off, ln, bs):
            if not c.holds(st):
                continue
            n += 1
            one_write(c, st, data, off, bad, odd)
    return bad, odd, n


def is_data(p, data):
    return p == data or p[:2] == ("call", "get") and p[-1] == data


def one_write(c, st, data, off, bad, odd):
    tr = list(st.trace)
    wrs = [k for k, e in enumerate(tr) if e[0] == "wr"]
    if len(wrs) > 1:
        odd.add("more than one transfer")
        return
    if not wrs:
        bad.add("nothing is written (%s)" % c.name)
        return
    _, (s, e, res, src), _, where, room = tr[wrs[0]]
    s, e, res_, at = c.poly(s), c.poly(e), c.poly(res), None
    before = tr[:wrs[0]]
    if any(x[0] in ("rd", "copy") for x in tr[wrs[0]:]):
        bad.add("the blocks are written before they are complete (%s)" % c.name)
    ends = padd(c.Q, c.D)
    if not c.same(s, c.Q):
        bad.add("the first block written is not the first asked for (%s)" % c.name)
        return
    if is_data(src, data):
        if c.R0 or c.R1:
            bad.add("what is given is written as whole blocks (%s)" % c.name)
        elif not c.same(e, ends) or not c.same(res_, {}):
            bad.add("not all of what is given is written (%s)" % c.name)
        return
    o, k = place(c, src, None)
    cps = [x for x in before if x[0] == "copy"]
    rds = [(j, x) for j, x in enumerate(before) if x[0] == "rd"]
    fills = [(j, x) for j, x in enumerate(before) if x[0] == "fill"]
    if c.ge(psub(e, ends)) is False or c.ge(psub(ends, e)) is False:
        bad.add("the last block written is not the last asked for (%s)" % c.name)
        return
    if not c.same(e, ends):
        odd.add("the number of blocks")
        return
    # the end of the last block
    kept = None
    for j, x in rds:
        a = c.poly(x[1][0])
        if c.R1 and c.same(a, ends):
            kept = (j, x)
    if c.R1:
        if kept is None:
            bad.add("what follows in the last block is lost (%s)" % c.name)
        else:
            g = c.poly(kept[1][2])
            mx = pa(("max", tuple(sorted((frz(c.R1), frz(g)), key=repr))))
            good = res_ == mx or c.same(res_, c.R1) and c.ge(psub(c.R1, g)) is True or res_ == g and c.ge(psub(g, c.R1)) is True
            if not good:
                bad.add("the last block does not end where the longer of the old and the new ends (%s)" % c.name)
            p, q = place(c, kept[1][1][2], None)
            if p != o or not c.same(psub(q, k), pmul(psub(ends, s), c.B)):
                bad.add("the last block is not read to its place (%s)" % c.name)
    elif not c.same(res_, {}):
        bad.add("more than what is given is written (%s)" % c.name)
    if c.R0:
        ok = False
        for j, x in rds:
            a, b = c.poly(x[1][0]), c.poly(x[1][1])
            p, q = place(c, x[1][2], None)
            if c.same(a, s) and c.ge(psub(b, padd(s, pc(1)))) is True and p == o and c.same(q, k):
                ok = True
        if not ok:
            bad.add("what stands before in the first block is lost (%s)" % c.name)
    need = padd(pmul(psub(e, s), c.B), c.B if c.R1 else {})
    if room is not None and room[0] is not None:
        if c.ge(psub(psub(c.poly(room[0]), k), need)) is False:
            bad.add("the buffer is too small for the blocks (%s)" % c.name)
    if not (room is not None and room[1]):
        ok = False
        for j, x in fills:
            p, q = place(c, x[1], None)
            if p == o and c.same(q, k) and st.const(x[3]) == 0 and c.ge(psub(c.poly(x[2]), need)) is not False and not any(i < j for i, y in rds):
                ok = True
        if not ok:
            bad.add("the buffer does not begin as zeros (%s)" % c.name)
    # the data
    late = [j for j, x in enumerate(before) if x[0] in ("rd", "fill")]
    puts = [(j, x) for j, x in enumerate(before) if x[0] == "copy"]
    if not puts:
        if not any(x[0] == "if" and x[2] and x[1][:2] == ("call", "holds") and not x[1][2][1].rstrip().endswith("*") for x in tr):
            bad.add("what is given is not written (%s)" % c.name)
        return
    for j, x in puts:
        d, sr, m = x[1]
        p, q = place(c, d, None)
        if not is_data(sr, data):
            odd.add("other data")
            continue
        if late and j < max(late):
            bad.add("what is given is overwritten by what was there (%s)" % c.name)
        if p != o or not c.same(padd(pmul(s, c.B), psub(q, k)), c.sub[off]):
            bad.add("what is given is put elsewhere than asked for (%s)" % c.name)
        if not c.same(c.poly(m), c.L):
            bad.add("not all of what is given is written (%s)" % c.name)


def judge_write(P, R, f, fam, writers, sizers):
    """the public write: a gap before the range is filled first"""
    bad, odd, n = set(), set(), 0
    outs, eng = R.engine(P, Xfer(P, fam, [k for k in writers | sizers if k != f.key]), f)
    data, off, ln = (("in", ("v", 0, p["id"], p["n"]), 0) for p in f.d["p"])
    for kind, st, v in outs:
        if kind != "r":
            continue
        tr = list(st.trace)
        puts = [k for k, e in enumerate(tr) if e[0] in ("put", "wr")]
        grow = [k for k, e in enumerate(tr) if e[0] == "size"]
        n += 1
        none = st.decide(("ge0", sub(I(0), ln))) is True
        if none:
            if puts or grow:
                bad.add("a write of nothing changes the file")
            continue
        if not puts:
            bad.add("nothing is written")
            continue
        for k in puts:
            if tr[k][0] == "put":
                a = tr[k][1]
                if not is_data(a[0], data) and not any(x == data for x in walk(a[0])) or a[1] != off or a[2] != ln:
                    bad.add("something else than what is given is written")
        cur = [e[1] for e in tr if e[0] == "cur"]
        inside = any(st.decide(("ge0", sub(x, off))) is True for x in cur)
        if not inside:
            good = [k for k in grow if k < puts[0] and tr[k][1][-1] == off and (len(tr[k][1]) == 1 or tr[k][1][0] in cur)]
            if not good:
                bad.add("a gap before what is written is not filled")
        elif any(tr[k][1][-1] != off for k in grow):
            bad.add("the file is cut before it is written to")
        if any(k > puts[0] for k in grow):
            bad.add("the file is resized after what is written")
        if grow and inside:
            if not any(st.decide(("eq0", sub(x, off))) is True for x in cur):
                bad.add("the file is cut before it is written to")
    return bad, odd, n


def judge_resize(P, R, f, fam, writers):
    bad, odd, n = set(), set(), 0
    outs, eng = R.engine(P, Xfer(P, fam, writers), f)
    bs = block_size(P, fam, outs)
    ps = [("in", ("v", 0, p["id"], p["n"]), 0) for p in f.d["p"]]
    new = ps[-1]
    if bs is None:
        return {"blocks are not used"}, odd, 0
    for kind, st, v in outs:
        if kind != "r":
            continue
        tr = list(st.trace)
        cur = ps[0] if len(ps) == 2 else ([e[1] for e in tr if e[0] == "cur"] or [None])[0]
        if cur is None:
            odd.add("the size it starts from")
            continue
        for c in sizes(cur, new, bs):
            if not c.holds(st):
                continue
            n += 1
            adj = [k for k, e in enumerate(tr) if e[0] == "adj"]
            if not adj:
                bad.add("the size is not changed (%s)" % c.name)
                continue
            for k in adj:
                if not c.same(c.poly(tr[k][1][0]), c.sub[new]):
                    bad.add("the size is changed to another (%s)" % c.name)
            acts = [(k, e) for k, e in enumerate(tr) if e[0] in ("wr", "put", "rd", "size")]
            if any(e[0] == "size" for k, e in acts):
                odd.add("resized by another")
                continue
            if c.grow:
                if any(e[0] == "wr" for k, e in acts):
                    odd.add("written directly")
                    continue
                fill = [e for k, e in acts if e[0] == "put"]
                if not fill:
                    if c.RC:
                        bad.add("the rest of the last block is not filled (%s)" % c.name)
                    elif not any(e[0] == "sparse" and st.decide(e[1]) is True for e in tr):
                        bad.add("the gap is not filled (%s)" % c.name)
                    continue
                if len(fill) > 1:
                    odd.add("filled in pieces")
                    continue
                a = fill[0][1]
                start, end = c.poly(a[1]), padd(c.poly(a[1]), c.poly(a[2]))
                if not c.same(start, c.sub[cur]):
                    bad.add("the gap is filled from elsewhere than the old end (%s)" % c.name)
                elif c.same(end, c.sub[new]):
                    pass
                elif any(e[0] == "sparse" and st.decide(e[1]) is True for e in tr) and c.e > 0 and \
                        (c.same(end, pmul(padd(c.QC, pc(1)), c.B)) or not c.RC and c.same(end, start)):
                    pass
                else:
                    bad.add("the gap is filled to elsewhere than the new end (%s)" % c.name)
                if any(k > adj[0] for k, e in acts if e[0] == "put") and False:
                    pass
            else:
                wrs = [(k, e) for k, e in acts if e[0] == "wr"]
                puts = [e for k, e in acts if e[0] == "put"]
                if puts:
                    odd.add("filled when shrinking")
                    continue
                if not c.RN:
                    if wrs:
                        odd.add("written when shrinking to the end of a block")
                    continue
                if len(wrs) != 1:
                    bad.add("the last block is not cut (%s)" % c.name)
                    continue
                k, e = wrs[0]
                s, t, res, src = e[1]
                if not c.same(c.poly(s), c.QN) or not c.same(c.poly(t), c.QN) or not c.same(c.poly(res), c.RN):
                    bad.add("the last block is not cut at the new end (%s)" % c.name)
                    continue
                if k > adj[0]:
                    bad.add("the last block is cut after the size is changed (%s)" % c.name)
                rds = [x for j, x in acts if x[0] == "rd" and j < k]
                if not any(c.same(c.poly(x[1][0]), c.QN) and c.ge(psub(c.poly(x[1][1]), padd(c.QN, pc(1)))) is True and x[1][2] == src for x in rds):
                    bad.add("what stands in the last block is lost (%s)" % c.name)
    return bad, odd, n


def note(R, f, odd):
    for x in sorted(odd):
        R.notes.append("%s: not judged: %s" % (f.short, x)) if hasattr(R.notes, "append") else None


@rule("G02")
def transfers(P, R):
    """A range of bytes is turned into whole blocks, and blocks into places in the streams below, in two layers.
    (a) The base class of block streams (recognised by its calls of the pure virtual block functions): its read, write,
    the functions between them, and its resize are evaluated path by path over polynomials in the block size, with offset
    = q*bs + r and the end likewise; for each of the ways r and the end's remainder can be zero or not and the range can
    lie in one block or several, the blocks read and written, the place of the data in the buffer, the length copied and
    returned, the size of the last block, the filling of the gap, and what is kept when shrinking must be what the
    request says, as identities between polynomials. (b) Each class that has the block functions: where block k is
    written, how far blocks lie apart and how long a last block of r bytes is, are taken from its write function; reading,
    resizing and the size given back must agree with that (size(resize(L)) = L), nothing of one block may reach into the
    next or into the header, and one generic turn of its loop - for a whole block and for a last, shorter one - must take the
    data, the IV and the MAC of the block from the places they are written to, go on by one block, and count what it
    gave out; a block that is not decrypted must be filled with zeros. (c) Streams that only shift positions must shift
    them alike in read, write, resize and size. (d) The block size is set by constructors only, on which the cases rest."""
    cls = None
    for f in P.funcs.values():
        if f.body:
            for x in f.nodes():
                if x.get("k") == "call" and x.get("vt") and base(x.get("n") or "") == RD:
                    cls = x["n"].rsplit("::", 1)[0]
    R.need(1 if cls else 0, "block streams")
    mine = [f for f in P.funcs.values() if f.scls == cls and f.body and not f.d.get("lambda") and not f.d.get("ctor")]
    calls = lambda f, b: any(x.get("k") == "call" and base(x.get("n") or "") == b for x in every(P, f))
    sizers = {f.key for f in mine if calls(f, ADJ)}
    writers = {f.key for f in mine if data_param(f) and calls(f, WR) and f.key not in sizers}
    R.need(len(sizers), "functions that resize")
    R.need(len(writers), "functions that write blocks")
    up = {f.key for f in mine if any(k in P.reach([f]) for k in sizers)}
    n = 0
    for f in sorted(mine, key=lambda x: x.n):
        b = base(f.n)
        todo = []
        if b == "read":
            todo.append(("read", judge_read(P, R, f, cls)))
        if f.key in writers:
            todo.append(("blocks", judge_writer(P, R, f, cls, up)))
        if b == "write":
            todo.append(("write", judge_write(P, R, f, cls, writers, up)))
        if f.key in sizers:
            todo.append(("resize", judge_resize(P, R, f, cls, writers)))
        for kind, (bad, odd, k) in todo:
            R.fn(f)
            n += k
            note(R, f, odd)
            R.ob(kind, f.n, not bad, f.where, "; ".join(sorted(bad)))
    # the block size does not change under a transfer
    bsf = None
    for f in mine:
        outs, eng = R.engine(P, Xfer(P, cls), f)
        t = block_size(P, cls, outs)
        if t is not None and t[0] == "in" and t[1][0] == "m":
            bsf = t
    if bsf is not None:
        fld = bsf[1][2]
        for f in sorted(P.funcs.values(), key=lambda x: x.n):
            if not f.body or f.d.get("ctor") or not f.scls or fld.rsplit("::", 1)[0] not in set(P.all_bases(f.scls)) | {f.scls}:
                continue
            hit = [x for x in f.nodes() if x.get("k") in ("asg", "inc") and (x.get("a") or {}).get("f", (x.get("e") or {}).get("f") if isinstance(x.get("e"), dict) else None) == fld]
            if hit:
                R.ob("block size", f.n, False, f.where, "the block size is changed after the stream is made")
        R.ob("block size", fld, True, "", "set by constructors only")
    n += layouts(P, R, cls, bsf)
    n += shifts(P, R, cls)
    R.need(n, "cases of transfers")


def every(P, f):
    """the nodes of a function and of the lambdas in it"""
    yield from f.nodes()
    for g in P.funcs.values():
        o = g
        while o is not None and o.owner is not None:
            o = o.owner
            if o is f:
                yield from g.nodes()
                break


# ------------------------------------------------------------------ how blocks are laid out below
class Under(Xfer):
    """the calls on the streams below, the cipher, and what a turn of a loop changes"""
    fields = ()

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in ("size", "read", "write", "resize", "is_sparse", "flush") or b in LOGGY or b in ("is_all_zeros", "generate_random"):
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or simple(f, 120 if f.scls == s.cls else 40)

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY:
            return [(st, I(0))]
        n = sum(1 for e in st.trace if e[0] == "u")
        q = below(ev)
        if q is None and ev.base in ("read", "write", "resize") and ev.obj is not None and s.fields:
            # a constructor may use the stream it was given
            for k in s.fields:
                v = eng.load(st, ("m", ("obj", "this"), k))
                if v is not None and v in (ev.obj, ("addr", ev.obj)) or v is not None and ("d", v) == ev.obj:
                    q = k
        if q is not None:
            if b in ("read", "size"):
                v = ("ret", b, n)
                s_unsigned.add(v)
            else:
                v = I(0)
            st.emit(("u", b, q, tuple(ev.args), v, ev.where))
            if b == "read":
                c, k = offset(ev.args[0])
                if c is not None and c[0] == "v":
                    w = eng.load(st, c)
                    z = sized(w) if w is not None else None
                    eng.store(st, c, ("sized", z, ("bytes", n)) if z is not None else ("bytes", n))
            return [(st, v)]
        if b in ("EncryptAndAuthenticate", "DecryptAndVerify") and len(ev.args) == 9:
            st.emit(("c", b, tuple(ev.args), ev.where))
            return [(st, ("okay", sum(1 for e in st.trace if e[0] == "c")) if b[0] == "D" else I(0))]
        return None

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "v" and any(e[0] == "iter" for e in st.trace) or any(x[:1] == ("havoc",) and len(x) > 3 and x[1][:1] == ("loop",) for x in walk(val)):
            st.emit(("set", loc, val))

    def on_init(s, eng, st, loc, val, node, fr):
        Xfer.on_init(s, eng, st, loc, val, node, fr)
        if loc[0] == "v" and val[0] in ("int", "lin", "addr"):
            st.emit(("init", loc, val))

    def on_iter(s, eng, st, node, fr):
        if node.get("k") != "call":
            st.emit(("iter", node.get("l")))


def below(ev):
    """the field of this object a stream call is made on"""
    if ev.base not in ("read", "write", "resize", "size"):
        return None
    o = ev.obj
    if o is None:
        return None
    for x in walk(o):
        if x[:1] == ("m",) and x[1] == ("obj", "this"):
            if "tream" in ev.name:
                return x[2]
    return None


def subst(p, atom, q):
    """a polynomial with another one put for an atom"""
    r = {}
    for m, c in p.items():
        t = pc(c)
        for a in m:
            t = pmul(t, q if a == atom else pa(a))
        r = padd(r, t)
    return r


def lead(p, atom):
    """(coefficient, rest) of a polynomial linear in an atom, or None"""
    k, rest = {}, {}
    for m, c in p.items():
        n = m.count(atom)
        if n > 1:
            return None
        if n:
            x = list(m)
            x.remove(atom)
            k[tuple(x)] = c
        else:
            rest[m] = c
    return k, rest


class Layout:
    """where the blocks of one class of streams stand in the streams below, as its functions have it"""

    def __init__(s, P, R, cls, bs):
        s.P, s.R, s.cls, s.bs = P, R, cls, bs
        s.A, s.U, s.T = {}, {}, {}      # field -> begin of block 0, distance of blocks, extent of a last block of r bytes
        s.n = 0
        s.odd = set()

    def case(s, sub, facts, name):
        c = Case(sub, facts + [psub(pa("bs"), pc(1))], "bs")
        c.sub[s.bs] = pa("bs")
        c.name = name
        return c

    def outs(s, f):
        c = s.__dict__.setdefault("_outs", {})
        if f.key not in c:
            r = Under(s.P, s.cls)
            r.fields = sorted(s.A)
            c[f.key] = s.R.engine(s.P, r, f)[0]
        return c[f.key]

    def args(s, f):
        return [("in", ("v", 0, p["id"], p["n"]), 0) for p in f.d["p"]]

    # -------------------------------------------------------------- whole transfers
    def write(s, f, bad):
        st_, en, re, data = s.args(f)
        S, N, Rr, B = pa("s"), pa("n"), pa("r"), pa("bs")
        got = {}
        for r in (0, 1):
            for n in (0, 1):
                if not r and not n:
                    continue
                facts = ([psub(Rr, pc(1)), psub(B, Rr)] if r else []) + ([psub(N, pc(1)), pmul(psub(N, pc(1)), B)] if n else [])
                sub = {st_: S, en: padd(S, N) if n else S, re: Rr if r else {}}
                name = ("%s%s" % ("whole blocks" if n else "", " and " if n and r else "") + ("a last block" if r else ""))
                for kind, st, v in s.outs(f):
                    if kind != "r":
                        continue
                    c = s.case(dict(sub), list(facts), name)
                    if not c.holds(st):
                        continue
                    s.n += 1
                    seen = {}
                    for e in st.trace:
                        if e[0] == "u" and e[1] == "write":
                            if e[2] in seen:
                                s.odd.add("several writes of one stream")
                            b, k = offset(e[3][0])
                            seen[e[2]] = (c.poly(e[3][1]), c.poly(e[3][2]), b, c.poly(k) if k is not None else None, s.room(st, b, c))
                    for q, x in seen.items():
                        o = got.setdefault((q, r, n), (c, x))
                        if not c.same(o[1][0], x[0]) or not c.same(o[1][1], x[1]):
                            bad.add("what is written of %s depends on more than the blocks given (%s)" % (q, name))
                        if x[3] is not None and x[4] is not None and c.ge(psub(psub(x[4], x[3]), x[1])) is not True:
                            bad.add("more is written to %s than was made (%s)" % (q, name))
                    got.setdefault(("paths", r, n), []).append(set(seen))
        fields = {k[0] for k in got if k[0] != "paths"}
        if not fields:
            bad.add("nothing is written")
        for k, v in got.items():
            if k[0] == "paths" and any(x != fields for x in v):
                bad.add("not every stream below is written")
        s.off = {}
        for q in sorted(fields):
            x = got.get((q, 0, 1))
            y = got.get((q, 1, 0))
            z = got.get((q, 1, 1))
            if not (x and y and z):
                continue
            c, (pos, ln, b, k, room) = x
            l = lead(pos, "s")
            u = lead(ln, "n")
            if l is None or u is None:
                s.odd.add("%s: positions are not multiples of a block" % q)
                continue
            s.A[q], s.U[q] = l[1], u[0]
            if u[1]:
                bad.add("%s: whole blocks take more than their places" % q)
            if l[0] != u[0]:
                bad.add("%s: blocks are placed every %s bytes but take %s" % (q, show(l[0]), show(u[0])))
            for c2, w in (y, z):
                if not c2.same(w[0], pos):
                    bad.add("%s: where blocks are written depends on their sizes" % q)
            t = y[1][1]
            s.T[q] = t
            t2 = psub(z[1][1], pmul(pa("n"), u[0]))
            if t2 != t:
                bad.add("%s: what a last block takes depends on those before it" % q)
            if "n" in str(t) and any("n" in m for m in t):
                bad.add("%s: the size of a last block is odd" % q)
            if y[0].ge(psub(s.U[q], t)) is not True:
                bad.add("%s: a last block takes more than the distance of blocks" % q)
            if not t:
                bad.add("%s: a last block takes no place" % q)
        s.wargs = got

    def room(s, st, b, c):
        z = None
        for e in st.trace:
            if e[0] == "room" and e[1] == b:
                z = e[2]
        return c.poly(z) if z is not None else None

    def read(s, f, bad):
        st_, en, out = s.args(f)
        S, N = pa("s"), pa("n")
        for kind, st, v in s.outs(f):
            if kind != "r":
                continue
            c = s.case({st_: S, en: padd(S, N)}, [psub(N, pc(1)), pmul(psub(N, pc(1)), pa("bs"))], "")
            if not c.holds(st):
                continue
            s.n += 1
            seen = set()
            for e in st.trace:
                if e[0] == "u" and e[1] == "read":
                    q = e[2]
                    seen.add(q)
                    if q not in s.U:
                        bad.add("%s is read but never written" % q)
                        continue
                    if not c.same(c.poly(e[3][1]), padd(s.A[q], pmul(S, s.U[q]))):
                        bad.add("%s is read at %s but written at %s" % (q, show(c.poly(e[3][1])), show(padd(s.A[q], pmul(S, s.U[q])))))
                    ln = c.poly(e[3][2])
                    if not c.same(ln, pmul(N, s.U[q])):
                        bad.add("%s is read over %s bytes for blocks of %s" % (q, show(ln), show(pmul(N, s.U[q]))))
                    b, k = offset(e[3][0])
                    room = s.room(st, b, c)
                    if room is not None and k is not None and c.ge(psub(psub(room, c.poly(k)), ln)) is not True:
                        bad.add("%s is read past the buffer" % q)
            for q in set(s.U) - seen:
                bad.add("%s is not read" % q)

    def resize(s, f, bad):
        ln, = s.args(f)
        Q, Rr, B = pa("q"), pa("r"), pa("bs")
        s.ends = {}
        for r in (0, 1):
            for kind, st, v in s.outs(f):
                if kind != "r":
                    continue
                c = s.case({ln: padd(pmul(Q, B), Rr if r else {})}, [psub(Rr, pc(1)), psub(psub(B, Rr), pc(1))] if r else [], "to inside a block" if r else "to the end of a block")
                if not c.holds(st):
                    continue
                s.n += 1
                last = {}
                for e in st.trace:
                    if e[0] == "u" and e[1] == "resize":
                        last[e[2]] = c.poly(e[3][0])
                for q in sorted(s.U):
                    if q not in last:
                        bad.add("%s is not resized (%s)" % (q, c.name))
                        continue
                    want = padd(s.A[q], pmul(Q, s.U[q]))
                    if r:
                        want = padd(want, s.T[q])
                    s.ends.setdefault(q, {})[r] = want
                    if not c.same(last[q], want):
                        bad.add("%s is resized to %s, but the blocks take %s (%s)" % (q, show(last[q]), show(want), c.name))

    def size(s, f, bad, only=None):
        """the size given back for what stands below is the one that was set"""
        Q, Rr, B, V = pa("q"), pa("r"), pa("bs"), pa("u")
        for kind, st, v in s.outs(f):
            q = [e for e in st.trace if e[0] == "u" and e[1] == "size"]
            if kind != "r" or len(q) != 1 or q[0][2] not in s.ends:
                continue
            fld, term = q[0][2], q[0][4]
            for r in (0, 1):
                for some in (0, 1):
                    want = s.ends[fld].get(r)
                    if want is None:
                        continue
                    L = padd(pmul(Q, B), Rr if r else {})
                    facts = [psub(B, pc(1))] + ([psub(Q, pc(1)), pmul(psub(Q, pc(1)), B)] if some else []) + ([psub(Rr, pc(1)), psub(psub(B, Rr), pc(1))] if r else [])
                    if not some:
                        want, L = subst(want, "q", {}), subst(L, "q", {})
                    conv = lambda p: p
                    c = Case({term: want, s.bs: B}, facts, "bs")
                    if s.U[fld] != B:
                        l = lead(s.U[fld], "bs")
                        if l is None or pconst(l[0]) != 1:
                            s.odd.add("the distance of blocks is not the block size and something")
                            continue
                        nb = psub(V, l[1])
                        conv = lambda p: subst(p, "bs", nb)
                        c = Case({term: conv(want), s.bs: nb}, [conv(x) for x in facts] + [V, psub(V, pc(1))], "u")
                    c.name = "%s%s" % ("no whole blocks" if not some else "whole blocks", " and a last one" if r else "")
                    if not c.holds(st):
                        continue
                    # the divisor may be written out
                    c.memo = {}
                    s.n += 1
                    if not c.same(c.poly(v), conv(L)):
                        bad.add("the size given back is %s, not the one set, %s (%s)" % (show(c.poly(v)), show(conv(L)), c.name))

    # -------------------------------------------------------------- one turn of the loop over the blocks
    def turns(s, f, bad, writing, ref=None):
        """what happens to one block, in terms of its number k: whole, or the last and shorter"""
        S, K, X, Y, Rr, B = pa("s"), pa("k"), pa("x"), pa("y"), pa("r"), pa("bs")
        a = s.args(f)
        lay = {}
        for whole in (1, 0):
            for unit in s.units():
                # first what every variable goes on by, then what is done with it
                ok = (not whole or s.turn(f, a, whole, unit, writing, {}, set(), None, False)) and s.turn(f, a, whole, unit, writing, lay, bad, ref, True)
                if ok:
                    break
            else:
                bad.add("the blocks are not gone through one by one (%s)" % ("whole blocks" if whole else "a last block"))
        return lay

    def units(s):
        r = []
        for u in list(s.U.values()) + [pa("bs"), pc(1)]:
            if u not in r:
                r.append(u)
        return r

    def turn(s, f, a, whole, unit, writing, lay, bad, ref, judge):
        S, K, X, Y, Rr, B = pa("s"), pa("k"), pa("x"), pa("y"), pa("r"), pa("bs")
        found = False
        errs = set()
        stride = getattr(s, "_stride", {}).get(f.key) if not whole else None
        if not whole and stride is None:
            return False
        for kind, st, v in s.outs(f):
            seg = segment(st)
            if seg is None:
                continue
            pre, guard, body, more = seg
            idx = [x for x in loopvars(guard[1])]
            if len(set(idx)) != 1:
                continue
            iv = idx[0]
            sub = {a[0]: S}
            facts = []
            tail = 0
            if writing:
                if whole:
                    opts = [({a[1]: padd(padd(padd(S, K), pc(1)), Y if y else {}), a[2]: Rr if r else {}},
                             ([psub(Rr, pc(1)), psub(B, Rr)] if r else []) + ([psub(Y, pc(1)), pmul(psub(Y, pc(1)), B)] if y else []), "")
                            for r in (0, 1) for y in (0, 1)]
                else:
                    opts = [({a[1]: padd(S, K), a[2]: Rr}, [psub(Rr, pc(1)), psub(B, Rr)], "")]
            else:
                T = [x for x in walk(guard[1]) if x[:2] == ("ret", "read")]
                if len(set(T)) != 1:
                    continue
                fld = [e[2] for e in pre if e[0] == "u" and e[4] == T[0]]
                if not fld or fld[0] not in s.U:
                    continue
                U, over = s.U[fld[0]], psub(s.T[fld[0]], Rr)
                base_ = pmul(K, U)
                sub[a[1]] = padd(padd(padd(S, K), pc(1)), Y)
                fact = [pmul(Y, B)]
                if whole:
                    opts = [({T[0]: padd(padd(base_, U), X)}, fact + [psub(X, pc(1))], "more"), ({T[0]: padd(base_, U)}, list(fact), "last")]
                else:
                    opts = [({T[0]: padd(padd(base_, over), Rr)}, fact + [psub(Rr, pc(1)), psub(psub(B, Rr), pc(1))], "last")]
                    if over:
                        opts.append(({T[0]: padd(base_, Rr)}, fact + [psub(Rr, pc(1)), psub(over, Rr)], "none"))
            for more_sub, fs, what in opts:
                z = dict(sub)
                z.update(more_sub)
                z[iv] = pmul(K, unit)
                init0 = s.start(f, pre, iv)
                if init0 is None or pconst(s.case({}, [], "").poly(init0)) != 0:
                    z[iv] = padd(s.case(dict(z), list(fs), "").poly(init0), z[iv]) if init0 is not None else z[iv]
                c = s.case(z, facts + fs, what)
                if c.decide(guard[1]) is None or not s.case(dict(z), facts + list(fs), what).holds(st):
                    continue
                sets = {}
                for e in body:
                    if e[0] == "set":
                        sets[e[1]] = e[2]
                loc = iv[2]
                if whole and loc in sets:
                    d = psub(c.poly(sets[loc]), c.poly(iv))
                    if d != unit:
                        # another unit may fit
                        if c.holds(st):
                            errs.add("the loop goes on by %s for a block of %s" % (show(d), show(unit)))
                        continue
                # the other variables go on by the same for every whole block
                if whole:
                    mine = getattr(s, "_stride", None)
                    if mine is None:
                        mine = s._stride = {}
                    mine = mine.setdefault(f.key, {})
                    for l, val in sets.items():
                        hv = [x for x in walk(val) if x[:1] == ("havoc",) and x[2] == l]
                        if not hv:
                            continue
                        d = psub(c.poly(val), pa(hv[0]) if hv[0] != iv else c.poly(iv))
                        mine.setdefault(l, d)
                    stride = mine
                for l, d in stride.items():
                    hv = [x for e in (guard, v or ()) + tuple(body) for x in walk(e) if x[:1] == ("havoc",) and x[2] == l and x[3] == iv[3]]
                    if not hv:
                        continue
                    i0 = s.start(f, pre, l=l)
                    if i0 is None:
                        s.odd.add("a variable of a loop begins with something unknown")
                        continue
                    if hv[0] not in c.sub:
                        c.sub[hv[0]] = padd(c.poly(i0), pmul(K, d))
                c.memo = {}
                # a lin of an address and a number stays a sum of the two
                if not c.holds(st):
                    continue
                found = True
                if not judge:
                    continue
                s.n += 1
                s.judge_turn(f, a, c, whole, what, kind, v, pre, body, more, sets, iv, stride, writing, lay, bad, ref)
        if whole and not found:
            bad |= errs and set()
        return found

    def start(s, f, pre, iv=None, l=None):
        """what a variable of the loop holds before the loop"""
        l = l or iv[2]
        for e in reversed(pre):
            if e[0] == "init" and e[1] == l:
                return e[2]
        for p in f.d["p"]:
            if l == ("v", 0, p["id"], p["n"]):
                return ("in", l, 0)
        return None

    def judge_turn(s, f, a, c, whole, what, kind, v, pre, body, more, sets, iv, stride, writing, lay, bad, ref):
        S, K, Rr, B = pa("s"), pa("k"), pa("r"), pa("bs")
        which = "whole blocks" if whole else "a last block"
        plain = a[3] if writing else a[2]
        ln = B if whole else Rr
        there = padd(c.poly(plain), pmul(K, B))
        ended = iv[2] in sets
        for e in body:
            if e[0] != "c":
                continue
            x = e[2]
            if e[1][0] == "E":
                ct, mac, ml, ivp, il, pt, n = x[0], x[1], x[2], x[3], x[4], x[7], x[8]
            else:
                pt, mac, ml, ivp, il, ct, n = x[0], x[1], x[2], x[3], x[4], x[7], x[8]
            if what == "none":
                bad.add("something is decrypted where no data stands")
                continue
            if not c.same(c.poly(n), ln):
                bad.add("%s of %s bytes are taken as %s bytes" % (which, show(ln), show(c.poly(n))))
            if not c.same(c.poly(pt), there):
                bad.add("the data of %s stands elsewhere than where it is %s" % (which, "taken from" if writing else "put"))
            spots = []
            for role, p, z in (("data", ct, c.poly(n)), ("mac", mac, c.poly(ml)), ("iv", ivp, c.poly(il))):
                spots.append((role,) + s.spot(c, f, pre, p, z, writing) + (z,))
            for role, q, d, z in spots:
                if q is None:
                    bad.add("the %s of %s is not among what is %s" % (role, which, "written" if writing else "read"))
                    continue
                lim = s.U[q] if whole else s.T[q]
                if c.ge(d) is not True or c.ge(psub(psub(lim, d), z)) is not True:
                    bad.add("the %s of %s leaves its place" % (role, which))
                for role2, q2, d2, z2 in spots:
                    if role < role2 and q == q2 and not (c.ge(psub(psub(d2, d), z)) is True or c.ge(psub(psub(d, d2), z2)) is True):
                        bad.add("the %s and the %s of %s overlap" % (role, role2, which))
            mine = lay.setdefault(whole, [])
            if not any(agree(c, spots, o) for o in mine):
                mine.append(spots)
            if ref is not None and ref.get(whole) and not any(agree(c, spots, o) for o in ref[whole]):
                bad.add("%s are taken apart in another way than they are put together" % which)
        if kind != "r":
            return
        if not ended and what in ("last", "more") and not writing:
            bad.add("%s that are there are not given out" % which)
        if ended:
            if not any(e[0] == "c" for e in body):
                if writing:
                    bad.add("%s are not encrypted" % which)
                elif not s.filled(c, pre, body, plain, there, ln):
                    bad.add("%s that are not there are not given as zeros" % which)
            for l, d in stride.items():
                hv = [x for x in c.sub if isinstance(x, tuple) and x[:1] == ("havoc",) and x[2] == l]
                if not hv:
                    continue
                got = psub(c.poly(sets[l]), c.poly(hv[0])) if l in sets else {}
                if whole and not c.same(got, d):
                    bad.add("a turn goes on by %s where another goes on by %s" % (show(got), show(d)))
        if not writing and not more and v is not None:
            want = pmul(K, B)
            if what == "last" and ended:
                want = padd(want, ln)
            elif what == "more":
                return
            if what == "none" and ended:
                want = pmul(K, B)
            if not c.same(c.poly(v), want):
                bad.add("%s bytes are said to be read where %s are (%s)" % (show(c.poly(v)), show(want), which))

    def spot(s, c, f, pre, p, z, writing):
        """(stream, offset in the block) of a pointer into what is read or written"""
        P_, K = c.poly(p), pa("k")
        for q in sorted(s.U):
            for e in s.transfers(f, pre, writing):
                if e[2] != q:
                    continue
                d = psub(psub(P_, c.poly(e[3][0])), pmul(K, s.U[q]))
                if any(isinstance(x, tuple) and x[:1] == ("addr",) for m in d for x in m):
                    continue
                if c.ge(d) is True and c.ge(psub(psub(s.U[q], d), z)) is True:
                    return q, d
        return None, None

    def transfers(s, f, pre, writing):
        """the transfers of the blocks: before the loop, or after it"""
        r = [e for e in pre if e[0] == "u" and e[1] == "read"]
        if writing:
            r, seen = [], set()
            for kind, st, v in s.outs(f):
                for e in st.trace:
                    if e[0] == "u" and e[1] == "write" and e[:4] not in seen:
                        seen.add(e[:4])
                        r.append(e)
        return r

    def filled(s, c, pre, body, plain, there, ln):
        for part, at in ((body, there), (pre, c.poly(plain))):
            for e in part:
                if e[0] == "fill" and e[3] == I(0):
                    if part is body and c.same(c.poly(e[1]), there) and c.ge(psub(c.poly(e[2]), ln)) is True:
                        return True
                    if part is pre and c.same(c.poly(e[1]), at):
                        return True
        return False


def agree(c, a, b):
    """whether two layouts of a block are the same"""
    return all(x[0] == y[0] and x[1] == y[1] and x[2] is not None and y[2] is not None and c.same(x[2], y[2]) and c.same(x[3], y[3]) for x, y in zip(a, b))


def loopvars(t):
    return {x for x in walk(t) if x[:1] == ("havoc",) and len(x) > 3 and x[1][:1] == ("loop",) and x[2][0] == "v"}


def segment(st):
    """(what is before the loop over the blocks, its condition, the first turn, whether another turn is taken)"""
    tr = list(st.trace)
    for i, e in enumerate(tr):
        if e[0] == "iter" and i and tr[i - 1][0] == "if" and tr[i - 1][2] and loopvars(tr[i - 1][1]):
            body, more = [], False
            for x in tr[i + 1:]:
                if x[0] == "iter" and x[1] == e[1]:
                    more = True
                    break
                body.append(x)
            return tr[:i - 1], tr[i - 1], body, more
    return None


def layouts(P, R, cls, bsf):
    n = 0
    kinds = sorted({f.scls for f in P.funcs.values() if f.body and base(f.n) in (RD, WR, ADJ) and not f.d.get("lambda") and f.scls != cls})
    R.need(len(kinds), "classes of block streams")
    for k in kinds:
        fs = {}
        for t in [k] + [x for x in P.all_bases(k)]:
            for f in P.methods_of(t):
                if f.body:
                    fs.setdefault(base(f.n), f)
        if not all(b in fs for b in (RD, WR, ADJ, "size")):
            continue
        L = Layout(P, R, k, bsf)
        bad = set()
        L.write(fs[WR], bad)
        R.fn(fs[WR])
        R.ob("places", fs[WR].n, not bad, fs[WR].where, "; ".join(sorted(bad)))
        if not L.U:
            R.notes.append("%s: not judged: no places of blocks" % k)
            continue
        lay = None
        for b, what, go in ((RD, "read places", L.read), (ADJ, "resize", L.resize), ("size", "size", L.size)):
            bad = set()
            go(fs[b], bad)
            R.fn(fs[b])
            R.ob(what, fs[b].n, not bad, fs[b].where, "; ".join(sorted(bad)))
        bad = set()
        lay = L.turns(fs[WR], bad, True)
        R.ob("each block", fs[WR].n, not bad, fs[WR].where, "; ".join(sorted(bad)))
        bad = set()
        L.turns(fs[RD], bad, False, lay)
        R.ob("each block", fs[RD].n, not bad, fs[RD].where, "; ".join(sorted(bad)))
        header(P, R, L, k)
        for x in sorted(L.odd):
            R.notes.append("%s: not judged: %s" % (k, x))
        n += L.n
    R.need(n, "cases of blocks")
    return n


def header(P, R, L, k):
    """what stands before the blocks ends where they begin"""
    for f in sorted(P.funcs.values(), key=lambda x: x.n):
        if f.scls != k or not f.body or f.d.get("lambda") or base(f.n) in (RD, WR, ADJ, "size"):
            continue
        if not any(x.get("k") == "call" and base(x.get("n") or "") in ("read", "write") for x in every(P, f)):
            continue
        bad, hit = set(), False
        c = L.case({}, [], "")
        try:
            outs = L.outs(f)
        except RuntimeError:
            continue
        for kind, st, v in outs:
            for e in st.trace:
                if e[0] == "u" and e[1] in ("read", "write") and e[2] in L.A and len(e[3]) == 3:
                    hit = True
                    end = padd(c.poly(e[3][1]), c.poly(e[3][2]))
                    begin = L.A[e[2]]
                    for x in {x for m in begin for x in m}:
                        # a field set on the way has its value from there
                        w = st.env.get(x[1]) if x[0] == "in" else None
                        if w is not None:
                            begin = subst(begin, x, c.poly(w))
                    d = psub(begin, end)
                    if c.ge(d) is not True and "havoc" not in str(end):
                        known = {x for m in begin for x in m}
                        if c.ge(d) is False or all(x in known for m in d for x in m):
                            bad.add("%s up to %s bytes: the blocks begin at %s" % ("read" if e[1] == "read" else "written", show(end), show(L.A[e[2]])))
        if hit:
            R.ob("header", f.n, not bad, f.where, "; ".join(sorted(bad)))


def shifts(P, R, cls):
    """streams that hand everything on to another position"""
    n = 0
    fam = set(P.all_derived(cls)) | {cls}
    roots = {x for x in P.all_bases(cls)}
    for k in sorted({f.scls for f in P.funcs.values() if f.body and f.scls and base(f.n) == "resize" and not f.d.get("lambda")}):
        if k in fam or not roots & set(P.all_bases(k)):
            continue
        fs = {base(f.n): f for f in P.methods_of(k) if f.body}
        if not all(b in fs for b in ("read", "write", "resize", "size")):
            continue
        L = Layout(P, R, k, None)
        A, bad, skip = {}, set(), False
        for b in ("read", "write", "resize", "size"):
            f = fs[b]
            a = L.args(f)
            for kind, st, v in L.outs(f):
                if kind != "r":
                    continue
                us = [e for e in st.trace if e[0] == "u" and e[1] in ("read", "write", "resize", "size") and e[1] != "size" or e[0] == "u" and b == "size"]
                if len(us) != 1 or us[0][1] != b:
                    skip = True
                    continue
                c = Case({}, [], None)
                if b in ("read", "write"):
                    if us[0][3][0] != a[0] or c.poly(us[0][3][2]) != c.poly(a[2]):
                        bad.add("%s: something else than asked for is handed on" % b)
                    A.setdefault(us[0][2], {}).setdefault(b, set()).add(frz(psub(c.poly(us[0][3][1]), c.poly(a[1]))))
                    if b == "read" and v != us[0][4]:
                        bad.add("read: another length than was read is given back")
                elif b == "resize":
                    A.setdefault(us[0][2], {}).setdefault(b, set()).add(frz(psub(c.poly(us[0][3][0]), c.poly(a[0]))))
                else:
                    if v == I(0):
                        A.setdefault(us[0][2], {}).setdefault("none", []).append((st, us[0][4]))
                        continue
                    A.setdefault(us[0][2], {}).setdefault(b, set()).add(frz(psub(c.poly(us[0][4]), c.poly(v))))
        if skip or not A:
            if A:
                R.notes.append("%s: not judged: not every call is handed on once" % k)
            continue
        for q, by in sorted(A.items()):
            vals = {x for b in ("read", "write", "resize", "size") for x in by.get(b, ())}
            if len(vals) != 1 or not all(b in by for b in ("read", "write", "resize", "size")):
                bad.add("%s: positions are shifted by %s" % (q, "; ".join("%s %s" % (b, " or ".join(show(dict(x)) for x in sorted(by.get(b, ()), key=repr)) or "nothing") for b in ("read", "write", "resize", "size"))))
                continue
            sh = dict(vals.pop())
            for st, term in by.get("none", []):
                # nothing only where nothing stands after the shift
                c = Case({term: padd(padd(sh, pa("L")), pc(1))}, [], None)
                n += 1
                if c.holds(st):
                    bad.add("%s: something that stands there is not counted" % q)
            n += 4
        R.fn(fs["read"])
        R.ob("shift", k, not bad, fs["read"].where, "; ".join(sorted(bad)))
    return n
