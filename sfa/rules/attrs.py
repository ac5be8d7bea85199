"""A01: extended attributes read back what was set."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .locks import ops_roots
from .handles import delegates
from .errors import THROWERS
from .common import *

ACTS = {"getxattr": 2, "setxattr": 3, "removexattr": 0, "listxattr": 1}
AEAD = ("DecryptAndVerify", "EncryptAndAuthenticate")
SIV = "encrypt_and_authenticate"


def storage(P):
    """functions of the storage below: they make the system's attribute calls, or declare what those implement"""
    c = P.__dict__.get("_xattr_storage")
    if c is None:
        direct = {f.key for f in P.funcs.values() if f.body and base(f.n) in ACTS and f.scls
                  and any(n.get("k") == "call" and n.get("ext") and "::" not in (n.get("n") or "") and (n.get("n") or "").endswith(base(f.n)) for n in f.nodes())}
        c = set()
        for k in direct:
            cl = P.funcs[k].scls
            for b in [cl] + list(P.all_bases(cl)):
                if any(base(g.n) in ACTS for g in P.methods_of(b)):
                    c.add(b)
        P._xattr_storage = c
    return c


def in_loop(P, f, name):
    """is the storage's operation called for each of several storages in a loop"""
    for k in P.reach([f]):
        g = P.funcs.get(k)
        if not g or not g.body:
            continue
        for x in PR.walk(g.body):
            if x.get("s") == "rfor" and any(n.get("k") == "call" and base(n.get("n") or "") == name and PR.strip_t((n.get("n") or "").rsplit("::", 1)[0]) in storage(P) for n in PR.walk(x)):
                return True
    return False


class Attr(Ev):
    def __init__(s, P):
        Ev.__init__(s, tuple(ACTS) + AEAD + (SIV,) + THROWERS, avoid=lambda g: (g.scls or "") in storage(P))
        s.P = P

    def on_ret(s, eng, st, ev, val):
        if ev.base == SIV and ev.args:
            a = ev.args[0]
            if a is not None and a[0] == "addr" and a[1][0] == "el":
                a = eng.load(st, a[1][1])
            st.emit(("c", SIV, (a,), val, ev.where, None, ()))
        elif s.wants(ev):
            if ev.node.get("t") == "void":
                val = None
            st.emit(("c", ev.base, tuple(s.canon(eng, st, a) for a in ev.args), val, ev.where, ev.obj, ()))
        elif "xattr" in ev.base and val is not None and not ev.ext:
            st.emit(("rv", val))

    def canon(s, eng, st, t):
        """a local container that is returned is the caller's container"""
        if t is None or t[0] not in ("lin", "addr"):
            return t
        c, d = lin(t)
        out = I(c)
        for k, n in d.items():
            if k[0] == "addr" and k[1][0] == "el" and k[1][1][0] == "v":
                v = eng.load(st, k[1][1])
                if v is not None and v[0] in ("ctor", "new"):
                    k = ("addr", ("el", v))
            out = add(out, mul(I(n), k))
        return out

    def wants(s, ev):
        if ev.base in ACTS:
            return PR.strip_t((ev.name or "").rsplit("::", 1)[0]) in storage(s.P)
        return ev.base in AEAD or ev.base == SIV


def par(f, n):
    ps = [p for p in f.d["p"] if p["n"] == n]
    return ("in", ("v", 0, ps[0]["id"], ps[0]["n"]), 0) if ps else None


def nth(f, i):
    p = f.d["p"][i]
    return ("in", ("v", 0, p["id"], p["n"]), 0)


def split(tr):
    acts, ae, siv = [], [], []
    for t in tr:
        if t[0] == "c":
            (acts if t[1] in ACTS else siv if t[1] == SIV else ae).append(t)
    return acts, ae, siv


def layout(ct, n, mac, maclen, buf, size):
    """(offset of the ciphertext, bytes around it) of a stored value of `size` bytes at buf; None if it is not tiled"""
    o = sub(ct, buf)
    if root_of(mac) == root_of(buf):
        if sub(mac, buf) != add(o, n) or add(sub(mac, buf), maclen) != size:
            return None
    elif add(o, n) != size:
        return None
    return o, sub(size, n)


def negative(st, v):
    return v is not None and st.rng(v)[1] < 0


def not_raw(t, name):
    return t is not None and t != name and name not in subterms(t)


@rule("A01")
def attributes_round_trip(P, R):
    """Every path of getting, setting, removing and listing attributes in each format. A value returned was decrypted from exactly
    the bytes the storage returned, with the layout the writer stored, its length is the one returned and fits the caller's buffer;
    asking for the size answers the same length. Setting succeeds only after the whole value has been encrypted and every part of the
    result stored; removing removes each part stored. Names go to the storage only as encrypted from the caller's name.
    The size of a listing counts each name with its terminator, and a buffer too small is refused."""
    ops = [f for f in sorted(ops_roots(P), key=lambda x: x.n) if f.body and not delegates(P, f)]
    by = {}
    for f in ops:
        b = base(f.n)[1:]
        if b in ACTS:
            by.setdefault(f.scls, {})[b] = f
    R.need(len(by) >= 2 and all(len(v) == 4 for v in by.values()) and storage(P), "attribute operations of both formats")
    for cls in sorted(by):
        fs = by[cls]
        # --- set
        f = fs["setxattr"]
        name, value, size, flags = nth(f, 1), nth(f, 2), nth(f, 3), nth(f, 4)
        outs, eng = R.engine(P, Attr(P), f)
        R.fn(f)
        bad, wl, stores = [], set(), set()
        for kind, st, v in outs:
            if kind != "r" or negative(st, v):
                continue
            acts, ae, siv = split(st.trace)
            if not ae or not acts:
                bad.append((f.where, "setting an attribute may succeed without storing it"))
                continue
            e = ae[-1]
            a = e[2]
            if len(ae) != 1 or a[7] != value or a[8] != size:
                bad.append((e[4], "not exactly the whole value is encrypted"))
            sets = [x for x in acts if x[1] == "setxattr"]
            got = {}
            for x in sets:
                got[root_of(x[2][-3])] = x
                if not mine(x, siv, name, 4):
                    bad.append((x[4], "the name is not stored as encrypted from the caller's"))
                fl = x[2][-1]
                if fl != flags and not (fl[0] == "op" and fl[1] == "&" and flags in fl[2:] and any(z[0] == "int" and z[1] & 3 == 3 for z in fl[2:])):
                    bad.append((x[4], "creating or replacing only is not passed on"))
                if x[3] is not None and v is not None and x[3] != v and not (st.rng(x[3])[0] >= 0):
                    bad.append((x[4], "an error of the storage is not reported"))
            main = got.get(root_of(a[0]))
            if main is None:
                bad.append((e[4], "the encrypted value is not stored"))
                continue
            L = layout(a[0], size, a[1], a[2], main[2][-3], main[2][-2])
            if L is None:
                bad.append((main[4], "not exactly the encrypted value is stored"))
            wl.add(L)
            for ptr, n, what in ((a[1], a[2], "authentication tag"), (a[3], a[4], "initialisation vector")):
                x = got.get(root_of(ptr))
                if x is None:
                    bad.append((e[4], "the %s is not stored" % what))
                    continue
                o = sub(ptr, x[2][-3])
                if st.decide(("ge0", o)) is False or st.decide(("ge0", sub(sub(x[2][-2], o), n))) is False:
                    bad.append((x[4], "not the whole %s is stored" % what))
            stores.add(tuple(sorted({repr(x[5]) for x in sets})))
        R.ob("set", f.n, not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "")
        # --- get
        f = fs["getxattr"]
        name, value, size = nth(f, 1), nth(f, 2), nth(f, 3)
        outs, eng = R.engine(P, Attr(P), f)
        R.fn(f)
        bad, rl, ql, used = [], set(), set(), 0
        for kind, st, v in outs:
            if kind != "r" or negative(st, v) or v is None:
                continue
            acts, ae, siv = split(st.trace)
            gets = [x for x in acts if x[1] == "getxattr"]
            for x in gets:
                if not mine(x, siv, name, 3):
                    bad.append((x[4], "the name asked for is not the one encrypted from the caller's"))
            if any(negative(st, x[3]) for x in gets):
                bad.append((f.where, "an error of the storage is taken for a value"))
                continue
            if any(v == x[3] and st.rng(v)[0] < 0 and not ae and st.decide(("eq0", value)) is not True for x in gets):
                # the error code of the storage passed through
                if all(st.rng(x[3])[1] < 0 for x in gets):
                    continue
            if not gets:
                bad.append((f.where, "answers without asking the storage"))
                continue
            g = gets[0]
            if not ae:
                if st.decide(("eq0", value)) is not True:
                    bad.append((g[4], "a value is returned that was not decrypted"))
                    continue
                ov = sub(g[3], v)
                if v == I(0) and st.decide(("ge0", sub(g[3], I(16)))) is not True:
                    continue       # shorter than any stored value
                ql.add(ov)
                continue
            used += 1
            d = ae[-1]
            a = d[2]
            src = [x for x in gets if root_of(x[2][-2]) == root_of(a[7])]
            if len(ae) != 1 or not src:
                bad.append((d[4], "what is decrypted was not just read from the storage"))
                continue
            g = src[0]
            L = layout(a[7], a[8], a[1], a[2], g[2][-2], g[3])
            if L is None:
                bad.append((d[4], "not exactly the bytes read from the storage are decrypted"))
                continue
            rl.add(L)
            if narrow(v) != a[8]:
                bad.append((d[4], "the length returned is not that of the value"))
            if a[0] != value:
                bad.append((d[4], "the value is not decrypted into the caller's buffer"))
            room = sub(sub(size, a[8]), sub(g[2][-1], g[3]))
            if st.decide(("ge0", room)) is not True and st.decide(("ge0", sub(size, a[8]))) is not True:
                bad.append((d[4], "a value longer than the caller's buffer is written"))
            for x in gets:
                if x is not g and st.decide(("eq0", sub(x[3], x[2][-1]))) is not True:
                    bad.append((x[4], "the tag or vector may have been read only in part"))
        if not bad and not used:
            bad.append((f.where, "no value is ever decrypted"))
        if not bad and not (rl and rl <= wl):
            bad.append((f.where, "the value is not read with the layout it is stored with"))
        if not bad and ql and not all(any(o == l[1] for l in rl) for o in ql):
            bad.append((f.where, "the size reported differs from the size of the value"))
        if not bad and not ql:
            bad.append((f.where, "the size of a value cannot be asked"))
        R.ob("get", f.n, not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "")
        # --- remove
        f = fs["removexattr"]
        name = nth(f, 1)
        outs, eng = R.engine(P, Attr(P), f)
        R.fn(f)
        bad = []
        looped = {f.scls} if in_loop(P, f, "removexattr") else ()
        for kind, st, v in outs:
            if kind != "r" or negative(st, v):
                continue
            acts, ae, siv = split(st.trace)
            rm = [x for x in acts if x[1] == "removexattr"]
            for x in rm:
                if not mine(x, siv, name, 1):
                    bad.append((x[4], "the name removed is not the one encrypted from the caller's"))
                if x[3] is not None and v is not None and x[3] != v and not st.rng(x[3])[0] >= 0:
                    bad.append((x[4], "an error of the storage is not reported"))
            n = len({repr(x[5]) for x in rm})
            if f.scls in looped:
                continue      # in a loop over the storages
            if any(n != len(s) for s in stores):
                bad.append((f.where, "removing does not remove everything that setting stores"))
        R.ob("remove", f.n, not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "")
        # --- list
        f = fs["listxattr"]
        buf, size = nth(f, 1), nth(f, 2)
        r = Lister(P)
        r.key = lambda st: (st.decide(("eq0", size)), st.decide(("eq0", buf)))
        outs, eng = R.engine(P, r, f)
        R.fn(f)
        bad, totals = [], 0
        for kind, st, v in outs:
            if kind != "r" or v is None or negative(st, v):
                continue
            sums = [t for t in st.trace if t[0] == "sum"]
            cps = [t for t in st.trace if t[0] == "out"]
            lists = [t for t in st.trace if t[0] == "c" and t[1] == "listxattr"]
            if not lists:
                bad.append((f.where, "answers without asking the storage"))
                continue
            if not sums:
                # an empty listing, or a size summed up in a loop
                if "not followed" not in "".join(R.notes):
                    R.notes.append("%s: paths whose listing size is not followed" % f.sn)
                continue
            totals += 1
            if narrow(v) != narrow(sums[-1][1]):
                bad.append((sums[-1][2], "the length returned is not that of the listing"))
            q = st.decide(("eq0", size)) is True or st.decide(("eq0", buf)) is True
            if not q and st.decide(("ge0", sub(size, sums[-1][1]))) is not True:
                bad.append((sums[-1][2], "a buffer too small for the listing is not refused"))
            last = None
            for t in st.trace:
                if t[0] == "adv":
                    last = t
                elif t[0] == "out":
                    last = None
            if last is not None and last[2] is not None and sub(last[1], last[2]) != I(1) \
                    and not (last[1] == last[2] and lin(last[2])[0] == 1):
                bad.append((sums[-1][2], "names are not laid out one after the other with their terminators"))
            if q and cps:
                bad.append((cps[0][2], "names are written although only the size is asked"))
        for where, ok in sorted(r.terms):
            R.ob("length of a name", f.n, ok, where, "" if ok else "a name is not counted with its length and terminator")
        R.ob("list", f.n, not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "")


def narrow(t):
    while t is not None and t[0] == "trunc":
        t = t[2]
    return t


def mine(x, siv, name, k):
    """the name handed to the storage comes from the caller's through the name cipher"""
    n = x[2][-k]
    if k == 0:
        return True
    return not_raw(n, name) and any(name in subterms(s[2][0]) for s in siv if s[2] and s[2][0] is not None)


class Lister(Attr):
    store_locals = True

    def __init__(s, P):
        Attr.__init__(s, P)
        s.terms = set()

    def inline(s, eng, f, ev):
        return Attr.inline(s, eng, f, ev) or base(f.n) == "wrapped_listxattr"

    def on_call(s, eng, st, ev):
        if ev.base == "accumulate" and ev.ext:
            lam = next((a for a in ev.args if a is not None and a[0] == "lam"), None)
            if lam:
                for k in lam[1]:
                    g = s.P.funcs.get(k)
                    if g and len(g.d["p"]) == 2:
                        s.judge(eng, g)

    def judge(s, eng, g):
        e = Engine(s.P, Plain())
        for kind, st, v in e.run(g):
            if kind != "r" or v is None:
                continue
            acc, el = nth(g, 0), g.d["p"][1]
            c, d = lin(sub(v, acc))
            loc = ("d", nth(g, 1)) if el["t"].rstrip().endswith("&") else ("v", 0, el["id"], el["n"])
            ok = c == 1 and len(d) == 1 and all(k == 1 for k in d.values()) and "size" in repr(list(d)[0])
            s.terms.add((g.where, ok))

    def on_ret(s, eng, st, ev, val):
        if ev.base == "accumulate" and ev.ext:
            st.emit(("sum", val, ev.where))
        elif ev.base in ("memcpy", "copy", "memmove") and ev.args and any(infer_out(a) for a in ev.args[:1]):
            st.emit(("out", ev.args[0], ev.where, ev.args[2] if len(ev.args) > 2 else None))
        else:
            Attr.on_ret(s, eng, st, ev, val)


    def on_store(s, eng, st, loc, val, node, fr):
        o = next((t for t in reversed(st.trace) if t[0] == "out"), None)
        if o is not None and loc[0] == "v" and val is not None and val != o[1]:
            c, d = lin(val)
            if d.get(o[1]) == 1:
                st.emit(("adv", sub(val, o[1]), o[3]))


def infer_out(a):
    """a pointer that is not into an object at hand: the caller's buffer"""
    return a is not None and not any(k[0] == "addr" for k in lin(a)[1]) and bool(lin(a)[1])


class Plain(Rule):
    def inline(s, eng, f, ev):
        return simple(f)
