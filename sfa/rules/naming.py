"""N02: what names and link targets are encoded as, and decoded from."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY
from .attrs import nth
from .handles import delegates
from .keys import arr_size
from .syscalls import walk_all
from ..flows import flows

ENC, DEC = "encrypt_and_authenticate", "decrypt_and_verify"
SIV = "securefs::AES_SIV"


def is_siv(ev, what):
    return ev.base == what and len(ev.args) == 6


def offset(p):
    """(container, offset) of a pointer into one"""
    if p[0] == "addr":
        return (p[1][1] if p[1][0] == "el" else p[1]), I(0)
    if p[0] == "lin":
        for t, k in p[2]:
            if k == 1 and t[0] == "addr":
                return (t[1][1] if t[1][0] == "el" else t[1]), sub(p, t)
    if p[0] in ("in", "call", "ret", "havoc"):
        return ("d", p), I(0)
    return None, None


class Coding(Rule):
    """leaves a trace of encryptions, encodings and of where their results go"""
    loop_iters = 2
    max_states = 400
    max_depth = 8
    store_locals = True

    def __init__(s, f, stop=()):
        s.stop = stop
        s.outs = {p["id"] for p in f.d["p"] if p["t"].rstrip().endswith("*")}

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b in ("base32_encode", "base32_decode", ENC, DEC, "get_siv") or f.key in s.stop:
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or simple(f, 12) or f.key in eng.P.reaching(lambda n: base(n.get("n") or "") in (ENC, DEC))

    def size(s, st, loc, eng):
        v = eng.load(st, loc)
        return sized(v) if v is not None else None

    def on_call(s, eng, st, ev):
        n = sum(1 for e in st.trace if e[0] in ("text", "raw"))
        if ev.base == "base32_encode" and len(ev.args) == 3:
            loc = ev.locs[2]
            v = ("coded", n)
            st.emit(("text", ev.args[0], ev.args[1], v, loc, ev.where))
            if loc is not None:
                eng.store(st, loc, v)
            return [(st, I(0))]
        if ev.base == "WebSafeBase64Escape" and ev.args:
            a = ev.args[0]
            v = ("coded", n)
            if a[0] == "ctor" and len(a) >= 4:
                st.emit(("text", a[2], a[3], v, None, ev.where))
            elif a[0] != "ctor":
                st.emit(("text", None, None, v, None, ev.where))
            return [(st, v)]
        if ev.base == "base32_decode" and len(ev.args) == 3:
            v = ("raw", n)
            st.emit(("raw", ev.args[0], ev.args[1], v, whole(eng, st, ev.args[0], ev.args[1]), ev.where))
            if ev.locs[2] is not None:
                eng.store(st, ev.locs[2], v)
            return [(st, I(0))]
        if ev.base == "WebSafeBase64Unescape" and len(ev.args) == 2 and ev.args[1][0] == "addr":
            v = ("raw", n)
            st.emit(("raw", ev.args[0], None, v, ev.args[0], ev.where))
            eng.store(st, ev.args[1][1], v)
            return [(st, ("decodable", n))]
        if is_siv(ev, ENC):
            text, ln, _, adl, ciph, siv = ev.args
            c, k = offset(siv)
            room = None
            if c is not None:
                room = s.size(st, c, eng)
                if room is None:
                    m = room_of(eng, c)
                    room = I(m) if m is not None else None
            st.emit(("enc", text, ln, ciph, siv, whole(eng, st, text, ln), room, ev.where, st.rng(ln)))
            return [(st, I(0))]
        if is_siv(ev, DEC):
            ciph, ln, _, adl, out, siv = ev.args
            ok = ("opened", sum(1 for e in st.trace if e[0] == "open"))
            c, k = offset(siv)
            raw = eng.load(st, c) if c is not None else None
            o, ok_ = offset(out)
            room = None
            if o is not None:
                room = s.size(st, o, eng)
                if room is None:
                    m = room_of(eng, o)
                    room = I(m) if m is not None else None
            v = ("plain", ok[1])
            enough = st.decide(("ge0", sub(("call", "size", raw), I(16)))) if raw is not None else None
            st.emit(("open", ciph, ln, out, siv, raw, k, ok, v, room, enough, ev.where, st.rng(ln)))
            if o is not None:
                eng.store(st, o, v)
            return [(st, ok)]
        return None

    def on_ret(s, eng, st, ev, val):
        b = ev.base
        if b in ("append", "push_back", "operator+=") and ev.obj is not None and ev.args and "string" in str(ev.name):
            st.emit(("put", ev.obj, tuple(ev.args), tuple(l for l in ev.locs) if ev.locs else (), ev.where))
        elif b == "StrSplit" and len(ev.args) >= 2:
            st.emit(("split", ev.args[0], ev.args[1], val))
        elif b == "Update" and len(ev.args) == 2:
            st.emit(("hash", ev.args[0], ev.args[1], whole(eng, st, ev.args[0], ev.args[1])))
        elif b in ("TruncatedFinal", "Final") and ev.args:
            c, k = offset(ev.args[0])
            st.emit(("digest", c, ev.args[1] if len(ev.args) > 1 else None))

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "v" and (val[0] == "lin" or val[0] == "int") and any(
                x[:1] == ("havoc",) and len(x) > 1 and x[1][:1] == ("loop",) for x in walk_all(val)):
            st.emit(("set", loc, val))

    def on_init(s, eng, st, loc, val, node, fr):
        if loc[0] == "v" and val[0] == "int":
            st.emit(("init", loc, val))

    def on_iter(s, eng, st, node, fr):
        if node.get("k") != "call":
            st.emit(("iter", node.get("l")))

    def on_assume(s, eng, st, t, v, node, fr):
        if any(x[:1] in (("opened",), ("decodable",)) for x in walk_all(t)) or t[:1] == ("call",) and t[1] in ("EndsWith", "StartsWith", "ends_with", "starts_with"):
            st.emit(("if", t, v))
        elif any(x[:2] == ("call", "back") or x[:1] == ("in",) and len(x) > 1 and x[1][:1] == ("v",) and x[1][2] in s.outs for x in walk_all(t)) or \
                t[:2] == ("call", "empty") and not any(x[:2] == ("call", "elem") for x in walk_all(t)):
            st.emit(("about", t, v))
        else:
            u, w = (t[1], not v) if t[0] == "not" else (t, v)
            if u[0] == "eq0" and u[1][:2] == ("lin", -47):
                st.emit(("chr", u[1], w))


def room_of(eng, loc):
    """the length of the array at a location, by its declared type"""
    if loc[0] == "v":
        return arr_size(vartypes(eng.P).get(loc[2]))
    return None


def vartypes(P):
    c = P.__dict__.get("_n02_vt")
    if c is None:
        c = P.__dict__["_n02_vt"] = {}
        for f in P.funcs.values():
            for x in PR.walk(f.body) if f.body else ():
                if x.get("s") == "decl":
                    for v in x.get("v") or ():
                        if isinstance(v, dict) and "id" in v and "t" in v:
                            c[v["id"]] = v["t"]
    return c


def whole(eng, st, p, n):
    """the value whose bytes (p, n) are, if they are all of it"""
    c, k = offset(p)
    if c is None or st.const(k) != 0:
        return None
    v = eng.load(st, c)
    if n == ("call", "size", v):
        return v
    z = sized(v) if v is not None else None
    if z is not None and z == n:
        return v
    a = room_of(eng, c)
    if a is not None and st.const(n) == a:
        return v if v is not None else ("array",)
    return None


def loopvar(t):
    return t[:1] == ("havoc",) and len(t) > 2 and t[1][:1] == ("loop",)


def mentions(t, x):
    return any(y == x for y in walk_all(t))


def same_size(t, n):
    """whether a term is n"""
    return t == n


def lt(st, a, b):
    """a < b"""
    d = sub(b, a)
    e = st.decide(("eq0", d))
    if e is True:
        return False
    if e is False and st.decide(("ge0", d)) is True:
        return True
    return st.decide(("ge0", sub(b, add(a, I(1)))))


class Pieces:
    """the cutting of a path at its slashes by position: what one turn of the loop does"""

    def __init__(s, paths):
        s.i = s.last = s.path = s.iloc = s.lloc = None
        for kind, st, v in paths:
            for e in st.trace:
                if e[0] in ("enc", "raw"):
                    c, k = offset(e[1])
                    if k is not None and loopvar(k) and k[2][0] == "v":
                        s.path, s.last, s.lloc = c, k, k[2]
                        s.i = add(e[2], k)
                        if not (loopvar(s.i) and s.i[2][0] == "v"):
                            s.i = None
                            continue
                        s.iloc = s.i[2]
                        return

    @property
    def known(s):
        return s.i is not None

    def check(s, kind, st):
        bad = set()
        tr = list(st.trace)
        its = [k for k, e in enumerate(tr) if e[0] == "iter"]
        if not its:
            return bad
        for loc in (s.iloc, s.lloc):
            z = [e[2] for e in tr[:its[0]] if e[0] == "init" and e[1] == loc]
            if z and z[-1] != I(0):
                bad.add("the first piece of a path does not begin at its start")
        text = None
        for e in tr:
            if e[0] in ("enc", "raw"):
                text = e
        size = ("call", "size", ("in", s.path, 0)) if s.path[0] in ("v", "p", "m") else None
        if size is None:
            return bad
        for n, k in enumerate(its):
            cur, last = s.i[:3] + (n,), s.last[:3] + (n,)
            end = its[n + 1] if n + 1 < len(its) else len(tr)
            seg = tr[k + 1:end]
            over = lt(st, cur, size)
            ch = ("in", ("d", add(("addr", ("el", s.path)), cur)), 0)
            slash = st.decide(("eq0", sub(ch, I(47))))
            sep = over is False or slash is True
            none = over is True and slash is False
            sets = [e[2] for e in seg if e[0] == "set" and e[1] == s.lloc]
            acts = [e for e in seg if e[0] in ("enc", "raw")]
            puts = [e for e in seg if e[0] == "put" and e[2][:1] == (I(47),)]
            cut = kind == "t" and n == len(its) - 1
            for e in acts:
                if e[1] != add(("addr", ("el", s.path)), last) or e[2] != sub(cur, last):
                    bad.add("a piece of the path is not what stands between two slashes")
            if sep:
                if not acts and not cut and st.decide(("ge0", sub(last, cur))) is not True:
                    bad.add("a piece of the path is left out")
                if not cut and (not sets or sets[-1] != add(cur, I(1))):
                    bad.add("a piece of the path does not begin after the slash before it")
                if not cut and over is True and len(puts) != 1:
                    bad.add("a slash of the path is lost")
                if over is False and puts:
                    bad.add("a slash is added at the end of the path")
            elif none:
                if acts or sets or puts:
                    bad.add("a path is cut where there is no slash")
            elif not cut or acts or puts:
                bad.add("a path is not cut at its slashes")
        if kind == "r" and lt(st, cur, size) is not False:
            bad.add("the end of a path is left out")
        return bad


def judge_encode(P, R, f, outs, info):
    bad, n = set(), 0
    pieces = Pieces(outs)
    info["pieces"] = pieces.known
    for kind, st, v in outs:
        tr = list(st.trace)
        if pieces.known:
            bad |= pieces.check(kind, st)
        encs = [k for k, e in enumerate(tr) if e[0] == "enc"]
        for q, k in enumerate(encs):
            n += 1
            _, text, ln, ciph, siv, src, room, where, rng = tr[k]
            info.setdefault("hi", []).append(rng[1])
            end = encs[q + 1] if q + 1 < len(encs) else len(tr)
            seg = tr[k + 1:end]
            total = add(ln, I(16))
            if sub(ciph, siv) != I(16):
                bad.add("the encrypted text does not follow its tag")
            if room is not None and st.decide(("ge0", sub(room, total))) is not True and not (st.const(room) is not None and st.rng(total)[1] <= st.const(room)):
                bad.add("the buffer is too small for the encrypted text")
            # hashed text
            hashed = None
            dg = [e for e in tr[:k] if e[0] == "digest"]
            c, o = offset(text)
            if dg and dg[-1][1] == c:
                hs = [e for e in tr[:k] if e[0] == "hash"]
                prev = [j for j in encs if j < k]
                hs = [e for e in tr[(prev[-1] if prev else 0):k] if e[0] == "hash"]
                if len(hs) != 1 or hs[0][3] is None:
                    bad.add("a long name is not hashed as a whole")
                else:
                    hashed = hs[0][3]
                if dg[-1][2] is not None and dg[-1][2] != ln or st.const(ln) is not None and st.const(ln) < 32:
                    bad.add("part of the hash of a long name is dropped")
            elif src is None and not (pieces.known and c == pieces.path) and offset(text)[0] is not None:
                bad.add("only part of a name is encrypted")
            if kind == "t":
                continue
            texts = [e for e in seg if e[0] == "text"]
            if not texts:
                bad.add("an encrypted name is not encoded")
                continue
            for e in texts:
                if e[1] is None:
                    continue
                after = seg[seg.index(e):]
                d = sub(e[1], siv)
                if d == I(0):
                    if e[2] != total:
                        bad.add("part of an encrypted name is not encoded")
                elif loopvar(d) or any(loopvar(x) for x in walk_all(d)):
                    h = [x for x in walk_all(d) if loopvar(x)][0]
                    first = d == h
                    size = e[2]
                    step = None
                    if size[:2] == ("call", "min") and len(size) == 4:
                        for a, b in ((size[2], size[3]), (size[3], size[2])):
                            if st.const(a) is not None and b == sub(total, d):
                                step = st.const(a)
                    elif st.const(size) is not None and st.decide(("ge0", sub(sub(total, d), size))) is True:
                        step = st.const(size)
                    elif size == sub(total, d):
                        step = 0
                    if step is None:
                        bad.add("the pieces of an encrypted link target do not make up the whole")
                        continue
                    if step % 5:
                        bad.add("a link target is cut where its encoding cannot be joined")
                    sets = [x[2] for x in after if x[0] == "set" and x[1] == h[2]]
                    if step and (not sets or sets[0] != add(h, I(step))):
                        bad.add("the pieces of an encrypted link target do not follow each other")
                    z = [x[2] for x in tr if x[0] == "init" and x[1] == h[2]]
                    if z and z[0] != I(0):
                        bad.add("the first piece of an encrypted link target is left out")
                    if kind == "r" and sets and e is texts[-1] and st.decide(("ge0", sub(sets[-1], total))) is not True:
                        bad.add("the last piece of an encrypted link target is left out")
                else:
                    bad.add("what is encoded is not the encrypted name with its tag")
            for e in texts:
                coded, loc = e[3], e[4]
                used = any(x[0] == "put" and coded in x[2] for x in seg) or v is not None and mentions(v, coded) or \
                    loc is not None and loc[0] in ("d", "p") and eng_has(st, loc, coded)
                if kind == "r" and not used:
                    bad.add("an encoded name is dropped")
            if kind == "r" and texts:
                lead(st, v, seg, texts[0][3], info)
            # the marks of long names
            put = [x for x in seg if x[0] == "put"]
            marks = [x for x in put if x[3] and x[3][0] is not None and x[3][0][0] == "m"]
            coded = [j for j, x in enumerate(put) if any(y[:1] == ("coded",) for y in x[2])]
            if hashed is not None:
                if not marks or not coded or coded[0] + 1 >= len(put) or put[coded[0] + 1] not in marks:
                    bad.add("a long name is not marked as one")
                for m in marks:
                    info.setdefault("marks", set()).add(m[3][0])
                info.setdefault("long", []).append((st, hashed))
            else:
                if marks and coded:
                    bad.add("a short name is marked as a long one")
                out = [e for e in texts if e[4] is not None and e[4][0] in ("d", "p")]
                if src is not None:
                    info.setdefault("out" if out else "short", []).append((st, src))
    return bad, n


def lead(st, v, seg, coded, info):
    """what text stands before an encoded name in the result"""
    def strs(t):
        if t[:1] == ("str",):
            return [t[1]]
        if t == coded:
            return [coded]
        out = []
        for x in t:
            if isinstance(x, tuple):
                out += strs(x)
        return out
    if v is not None and mentions(v, coded):
        xs = strs(v)
        if v == coded or coded in xs:
            xs = xs[:xs.index(coded)] if coded in xs else []
            info.setdefault("prefix", set()).add("".join(xs) if all(isinstance(x, str) for x in xs) else "")
            return


def eng_has(st, loc, v):
    return st.env.get(loc) == v


def thresholds(pairs):
    """fields that sizes are compared to on the paths of (state, name)"""
    return {}


def judge_limits(f, outs, info):
    """one limit tells long names from short ones, and the caller is told of exactly the long ones"""
    bad = set()
    if not info.get("long"):
        return bad
    fields = set()
    for st, src in info["long"]:
        z = ("call", "size", src)
        for t in list(st.iv):
            lins = [t] if isinstance(t, tuple) else []
            for l in lins:
                names = [x for x, k in l] if l and isinstance(l[0], tuple) else []
                if z in names and len(names) == 2:
                    fields |= {x for x in names if x != z}
    if not fields:
        bad.add("names are hashed whatever their length")
        return bad
    lim = lambda x: [t for t in fields]
    for st, src in info["long"]:
        if not any(st.decide(("ge0", sub(("call", "size", src), add(t, I(1))))) is True for t in fields):
            bad.add("a name no longer than the limit is hashed")
    for st, src in info.get("short", ()):
        if not any(st.decide(("ge0", sub(t, ("call", "size", src)))) is True for t in fields):
            bad.add("a name longer than the limit is not hashed")
    for st, src in info.get("out", ()):
        if not any(st.decide(("ge0", sub(("call", "size", src), add(t, I(1))))) is True for t in fields):
            bad.add("a name no longer than the limit is given out as a long one")
        if not mentions(src, "back") and not any(isinstance(x, tuple) and x[:2] == ("call", "back") for x in walk_all(src)):
            bad.add("the long name given out is not the last of the path")
    outp = nth(f, 1)
    for kind, st, v in outs:
        if kind != "r" or any(e[0] == "text" and e[4] is not None and e[4][0] in ("d", "p") for e in st.trace):
            continue
        if st.decide(("eq0", outp)) is True:
            continue
        small = any(st.decide(("ge0", sub(t, ("call", "size", x)))) is True for t in fields for x in backs(st)) or \
            any(e[0] == "about" and e[2] and e[1][:2] == ("call", "empty") for e in st.trace)
        if not small:
            bad.add("the caller is not told that the last name is a long one")
    return bad


def backs(st):
    out = set()
    for t in st.iv:
        for x in walk_all(t):
            if x[:2] == ("call", "size") and any(y[:2] == ("call", "back") for y in walk_all(x)):
                out.add(x[2])
    return out


def judge_decode(P, R, f, outs, info, hi):
    bad, n = set(), 0
    pieces = Pieces(outs)
    for kind, st, v in outs:
        tr = list(st.trace)
        if pieces.known:
            bad |= pieces.check(kind, st)
        opens = [e for e in tr if e[0] == "open"]
        raws = [e for e in tr if e[0] == "raw"]
        for e in opens:
            n += 1
            _, ciph, ln, out, siv, raw, k, ok, plain, room, enough, where, rng = e
            if sub(ciph, siv) != I(16):
                bad.add("the tag is not looked for where it is written")
            if k is None or st.const(k) != 0 or raw is None or raw[:1] != ("raw",):
                bad.add("what is decrypted is not what was decoded")
                continue
            if ln != sub(("call", "size", raw), I(16)):
                bad.add("only part of a name is decrypted")
            if enough is not True:
                bad.add("a name shorter than its tag is decrypted")
            if room is not None and room != ln and st.decide(("ge0", sub(room, ln))) is not True and not (
                    st.const(room) is not None and rng[1] <= st.const(room)):
                bad.add("the buffer is too small for the decrypted name")
            good = st.decide(ok) is True
            later = tr[tr.index(e):]
            if good and kind == "t" and not any(x[0] in ("raw", "iter") for x in later):
                bad.add("a name that decrypts is refused")
            if good and kind == "r":
                put = [x for x in tr if x[0] == "put" and (plain in x[2] or len(x[2]) == 2 and x[2][0] == out and x[2][1] == ln)]
                got = v is not None and mentions(v, plain)
                if v == plain and not put and room is not None and room != ln:
                    bad.add("a decrypted name is followed by what is not part of it")
                if not put and not got:
                    bad.add("a name that decrypts is dropped")
        for e in raws:
            if e[2] is not None and e[4] is None and not (pieces.known and offset(e[1])[0] == pieces.path):
                bad.add("only part of a name is decoded")
            src = e[4]
            for x in [x for x in tr if x[0] == "if" and x[1][1] in ("StartsWith", "starts_with") and x[2]]:
                pre = [y for y in walk_all(x[1]) if y[:1] == ("str",)]
                if pre:
                    info.setdefault("prefix", set()).add(pre[0][1])
                    cut = [y for y in walk_all(src) if y[:2] == ("call", "substr")] if src else []
                    if cut and st.const(cut[0][3]) != len(pre[0][1]):
                        bad.add("the prefix taken off a name is not the one that was tested for")
        # refusals
        if not opens and raws:
            z = ("call", "size", raws[-1][3])
            lo, up = st.rng(z)
            undone = any(x[0] == "if" and x[1][:1] == ("decodable",) and not x[2] for x in tr)
            if not undone and up > 16 and not lo > max([h for h in hi if h is not None] or [float("inf")]) + 16:
                bad.add("a name that was encrypted is refused")
        if kind == "r" and not raws and not opens and not pieces.known:
            tag = [x for x in tr if x[0] == "if" and x[2] and x[1][:1] == ("call",) and x[1][1] in ("EndsWith", "ends_with")]
            for x in tag:
                info.setdefault("marks", set()).update(y[1] for y in walk_all(x[1]) if y[:1] == ("in",) and y[1][0] == "m")
        # characters taken out before decoding
        strip(st, tr, bad)
    return bad, n


def strip(st, tr, bad):
    puts = [e for e in tr if e[0] == "put" and len(e[2]) == 1 and any(x[:2] == ("call", "elem") for x in walk_all(e[2][0]))]
    if not puts:
        return
    for e in puts:
        if st.decide(("eq0", sub(e[2][0], I(47)))) is not False:
            bad.add("slashes are decoded as part of a link target")


def coders(P):
    """the functions that encrypt or decrypt names, and no one else does it for them"""
    enc, dec = [], []
    for f in P.funcs.values():
        if not f.body or f.scls and f.scls.endswith("AES_SIV"):
            continue
        calls = [x for x in f.nodes() if x.get("k") == "call" and SIV in str(P.funcs[x["f"]].n if x.get("f") in P.funcs else x.get("n") or "")]
        if any(base(x.get("n") or "") == ENC for x in calls):
            enc.append(f)
        if any(base(x.get("n") or "") == DEC for x in calls):
            dec.append(f)
    return lifted(P, enc, ENC), lifted(P, dec, DEC)


def lifted(P, fs, what):
    """the functions, or the callers of those that are given the bytes by pointer and length"""
    out, todo, seen = [], list(fs), set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        up = callers(P, f)
        if any(p["t"].rstrip().endswith("*") and ("void" in p["t"] or "char" in p["t"] or "byte" in p["t"]) and p["t"].startswith("const ") for p in f.d["p"]) and up:
            todo += up
        elif f.owner is not None and f.d.get("lambda"):
            todo.append(f.owner)
        else:
            out.append(f)
    return out


# ------------------------------------------------------------------ translators that stand before or instead of others
def translator_base(P):
    """the interface of name translators: (base class, names of its translating methods)"""
    names = ("encrypt_full_path", "decrypt_path_component", "encrypt_path_for_symlink", "decrypt_path_from_symlink", "max_virtual_path_component_size")
    out = []
    for f in P.funcs.values():
        if f.scls and base(f.n) in names and not f.d.get("lambda"):
            out.append(f)
    return out, names


class Through(Rule):
    """what a translator hands to the one behind it"""
    loop_iters = 1
    max_depth = 5

    def __init__(s, names):
        s.names = names

    def inline(s, eng, f, ev):
        return base(f.n) not in LOGGY and base(f.n) not in s.names and simple(f, 10)

    def on_call(s, eng, st, ev):
        return [(st, I(0))] if ev.base in LOGGY else None

    def throws(s, eng, st, ev):
        if ev.base in ("to_nfc_utf8", "to_casefold_utf8"):
            return [("std::exception", ("std::exception",), ("norm",))]
        return Rule.throws(s, eng, st, ev)

    def on_ret(s, eng, st, ev, val):
        if ev.base in s.names and ev.vt:
            st.emit(("to", ev.base, tuple(ev.args), val))
        elif ev.base in ("to_nfc_utf8", "to_casefold_utf8"):
            st.emit(("norm", ev.base, val))

    def on_catch(s, eng, st, exc, h, fr):
        st.emit(("caught",))

    def on_assume(s, eng, st, t, v, node, fr):
        u, w = (t[1], not v) if t[0] in ("not", "eq0") else (t, v)
        if u[0] == "in" and u[1][0] == "m" and u[1][1] == ("obj", "this"):
            st.emit(("flag", u[1][2], w))


def judge_delegate(P, R, f, names):
    """a translator that has another one behind it"""
    bad, n = set(), 0
    outs, eng = R.engine(P, Through(names), f)
    flags = {}
    for kind, st, v in outs:
        to = [e for e in st.trace if e[0] == "to"]
        if kind == "t":
            bad.add("a name that cannot be normalised is refused")
            continue
        n += 1
        caught = any(e[0] == "caught" for e in st.trace)
        norms = [e for e in st.trace if e[0] == "norm"]
        on = {e[1] for e in st.trace if e[0] == "flag" and e[2]}
        off = {e[1] for e in st.trace if e[0] == "flag" and not e[2]}
        if not norms and not caught and off and not on:
            continue            # neither asked for: not constructed so
        if len(to) != 1 or to[0][1] != base(f.n):
            bad.add("a name is not handed on to the translator behind")
            continue
        arg, rest = to[0][2][0], to[0][2][1:]
        src = nth(f, 0)
        if v != to[0][3]:
            bad.add("the answer of the translator behind is replaced")
        for i, a in enumerate(rest):
            if a != nth(f, i + 1):
                bad.add("the place for a long name is not handed on")
        if caught or not norms:
            if arg != src and not caught:
                bad.add("another name is handed on")
            elif caught and arg != src:
                bad.add("a name that cannot be normalised is replaced")
            continue
        if arg != norms[-1][2]:
            bad.add("the normalised name is not the one handed on")
        x = arg
        for e in reversed(norms):
            if x != e[2] or len(x) < 3:
                bad.add("a normalisation is lost")
                break
            x = x[2]
        else:
            if x != src:
                bad.add("something other than the name is normalised")
        for e in norms:
            flags.setdefault(e[1], []).append(on)
    for b, sets in flags.items():
        common = set.intersection(*sets) if sets else set()
        if not common:
            bad.add("%s does not depend on the option that asks for it" % b)
            continue
        want = {"to_nfc_utf8": ("nfc", "normaliz"), "to_casefold_utf8": ("case", "fold")}[b]
        pb = {t[1] for x in common for t in flows(P).field(x) if t[0] == "set"}
        if pb and not any(w in x.lower() for w in want for x in pb):
            bad.add("%s depends on the option for something else" % b)
    return bad, n


def judge_plain(P, R, f, names):
    """a translator that encrypts nothing"""
    bad, n = set(), 0
    outs, eng = R.engine(P, Through(names), f)
    src = nth(f, 0)
    data = lambda t: any(x == src or x == ("addr", ("el", src[1])) for x in walk_all(t))
    for kind, st, v in outs:
        if kind != "r":
            continue
        n += 1
        if v is None or not data(v):
            bad.add("a plain name is replaced")
            continue
        for x in walk_all(v):
            if x[:1] == ("ctor",) and len(x) > 3 and x[2] == ("addr", ("el", src[1])) and x[3] != ("call", "size", src):
                bad.add("a plain name is cut")
            if x[:2] == ("call", "substr"):
                bad.add("a plain name is cut")
    return bad, n


def plain_class(P, cls):
    m = [f for f in P.funcs.values() if f.scls == cls and base(f.n) == "is_no_op" and f.body]
    return bool(m) and any(x.get("k") == "int" and x.get("v") in (1, True, "1") for x in m[0].nodes())


class Const(Rule):
    max_depth = 6

    def inline(s, eng, f, ev):
        return True


def value_at(P, R, f, vals):
    """the value of a pure function at constants: [(state, value)], None for an exception"""
    st = State()
    for p, v in zip(f.d["p"], vals):
        st.env[("v", 0, p["id"], p["n"])] = I(v)
    outs, eng = R.engine(P, Const(), f, st=st)
    return [(s2, v if k == "r" else None) for k, s2, v in outs]


def judge_length(P, R, f, plain):
    """the longest name promised has an encrypted form that fits"""
    bad, n = set(), 0
    for p in list(range(40, 300)) + [511, 512, 1000, 4095]:
        for st, v in value_at(P, R, f, [p]):
            c = st.const(v) if v is not None else None
            if c is None:
                return {"the longest name depends on something else"}, n
            if c == 65535 or c < 0:
                continue        # hashed names have no limit of their own
            n += 1
            need = c if plain else -(-(c + 16) * 8 // 5)
            if need > p:
                bad.add("names of the promised length do not fit when encrypted")
            more = c + 1 if plain else -(-(c + 17) * 8 // 5)
            if more <= p and c:
                bad.add("names longer than promised would fit")
    return bad, n


def bits(P, R):
    """the encoding of five bits is undone by the decoding, at every position in a byte"""
    enc = [f for f in P.funcs.values() if base(f.n) == "base32_encode" and f.body]
    dec = [f for f in P.funcs.values() if base(f.n) == "base32_decode" and f.body]
    if not enc or not dec:
        return None
    def helper(f, k):
        for x in f.nodes():
            g = P.funcs.get(x.get("f")) if x.get("k") == "call" else None
            if g is not None and g.body and len(g.d["p"]) == k and all("*" not in p["t"] and "&" not in p["t"] for p in g.d["p"]) and g.d["ret"] != "void":
                return g
    e, d = helper(enc[0], 3), helper(dec[0], 2)
    bad, n = set(), 0
    if e is not None:
        for i in range(8):
            mask = 31 << (11 - i)
            for g in range(32):
                for junk in (0, 0xffff & ~mask):
                    w = (g << (11 - i)) | junk
                    b, nx = w >> 8, w & 255
                    r = [st.const(v) if v is not None else None for st, v in value_at(P, R, e, (b, nx, i))]
                    n += 1
                    if r != [g]:
                        bad.add("five bits are encoded wrongly (%s)" % base(e.n))
    if d is not None:
        for i in range(8):
            for g in range(32):
                w = g << (11 - i)
                r = value_at(P, R, d, (g, i))
                v = r[0][1] if len(r) == 1 else None
                n += 1
                got = [r[0][0].const(x) for x in v[2:]] if v is not None and v[0] in ("call", "ctor") else None
                if got is None or len(got) < 2:
                    return (bad, n, e, d) if n else None
                if [x & 255 if x is not None else x for x in got[:2]] != [w >> 8, w & 255]:
                    bad.add("five bits are decoded wrongly (%s)" % base(d.n))
    # the alphabets
    texts = []
    for f in (enc[0], dec[0]):
        for x in f.nodes():
            g = P.globals.get(x.get("n")) if x.get("k") in ("ref", "glob", "g", "var", "dr") or x.get("n") in P.globals else None
            if g and isinstance(g.get("init"), dict) and g["init"].get("k") == "str":
                texts.append((f, g["init"]["v"]))
    for f, t in texts:
        n += 1
        if len(t) != 32 or len(set(t.lower())) != 32:
            bad.add("the alphabet is not one of 32 different characters")
        if t.lower() != texts[0][1].lower():
            bad.add("the alphabets of encoding and decoding differ")
        if "/" in t or "." in t:
            bad.add("the alphabet contains a character that names must not")
    return bad, n, e, d


# ------------------------------------------------------------------ symbolic links
class Link(Rule):
    loop_iters = 1
    max_depth = 8
    KEEP = ("encrypt_full_path", "encrypt_path_for_symlink", "decrypt_path_from_symlink", "readlink", "symlink", "get", "set", "open_all", "create", "memcpy", "memset", "copy_n", "strncpy")

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b in s.KEEP or b == "lock":
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or simple(f, 12) or f.key in reach_names(eng.P, ("symlink", "readlink", "encrypt_path_for_symlink", "decrypt_path_from_symlink")) or \
            any(a and a[0] == "lam" for a in ev.args)

    def on_ret(s, eng, st, ev, val):
        b = ev.base
        c = lambda a: content_of(eng, st, a)
        if b in ("memcpy", "memmove", "strncpy") and len(ev.args) == 3:
            st.emit(("copy", ev.args[0], whole_src(eng, st, ev.args[1]), ev.args[2]))
        elif b == "copy_n" and len(ev.args) == 3:
            st.emit(("copy", ev.args[2], whole_src(eng, st, ev.args[0]), ev.args[1]))
        elif b == "copy" and ev.obj is not None and len(ev.args) >= 2 and "string" in ev.name:
            st.emit(("copy", ev.args[0], eng.load(st, ev.obj), ev.args[1]))
        elif b == "memset" and len(ev.args) == 3:
            st.emit(("zero", ev.args[0], ev.args[1], ev.args[2]))
        elif b == "readlink" and len(ev.args) == 3:
            st.emit(("read", ev.args[0], ev.args[1], ev.args[2]))
        elif b in ("encrypt_full_path", "encrypt_path_for_symlink", "decrypt_path_from_symlink") and ev.args:
            st.emit((b, ev.args[0], val))
        elif b == "symlink" and len(ev.args) == 2:
            st.emit(("link", ev.args[0], ev.args[1]))
        elif b in ("get", "set") and "Symlink" in (ev.name or ""):
            st.emit((b, ev.args[0] if ev.args else None, val, ev.obj))
        elif b == "create" and ev.args:
            st.emit(("create", ev.args[0], val))

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "d" and val == I(0):
            st.emit(("nul", loc[1]))


def content_of(eng, st, a):
    return eng.load(st, a[1][1]) if a[0] == "addr" and a[1][0] == "el" else a


def whole_src(eng, st, p):
    c, k = offset(p)
    return eng.load(st, c) if c is not None and k == I(0) else ("part", p)


def judge_readlink(P, R, f):
    bad, n = set(), 0
    outs, eng = R.engine(P, Link(), f)
    path, buf, size = nth(f, 0), nth(f, 1), nth(f, 2)
    for kind, st, v in outs:
        tr = st.trace
        for e in [e for e in tr if e[0] == "copy" and mentions(e[1], buf)]:
            src, ln = e[2], e[3]
            z = ("call", "size", src)
            ok = ln[:2] == ("call", "min") and {ln[2], ln[3]} == {z, sub(size, I(1))} or \
                ln == z and st.decide(("ge0", sub(sub(size, I(1)), z))) is True or \
                ln == sub(size, I(1)) and st.decide(("ge0", sub(z, ln))) is True
            if e[1] != buf:
                bad.add("the target is not put at the start of the buffer")
            if not ok:
                bad.add("what is copied is not the target, or as much of it as leaves room for its end")
            if st.decide(("ge0", sub(size, I(1)))) is not True:
                bad.add("the buffer may have no room for anything")
            zero = any(x[0] == "zero" and x[1] == buf and x[2] == I(0) and x[3] == size for x in tr) or any(
                x[0] == "nul" and x[1] == add(buf, ln) for x in tr)
            if not zero:
                bad.add("the target is not terminated")
        if kind != "r" or v is None or st.const(v) != 0:
            continue
        n += 1
        if not any(e[0] == "copy" and e[1] == buf for e in tr):
            if not (st.rng(size)[1] <= 1 and any(e[0] == "zero" for e in tr)):
                bad.add("success although no target was given")
            continue
        src = [e for e in tr if e[0] == "copy" and e[1] == buf][-1][2]
        got = [e for e in tr if e[0] == "get"]
        dec = [e for e in tr if e[0] == "decrypt_path_from_symlink"]
        rd = [e for e in tr if e[0] == "read"]
        if rd or dec:
            if not dec or src != dec[-1][2]:
                bad.add("what is given is not the decoded target")
            if not rd or not dec or offset(dec[-1][1])[0] != offset(rd[-1][2])[0] and dec[-1][1] not in (content_of(eng, st, rd[-1][2]), rd[-1][2]):
                bad.add("what is decoded is not the target that was read")
            enc = [e for e in tr if e[0] == "encrypt_full_path"]
            if not enc or enc[-1][1] != path or rd and rd[-1][1] != enc[-1][2]:
                bad.add("the link read is another one")
        elif not got or src != got[-1][2]:
            bad.add("what is given is not the target of the link")
    return bad, n


def judge_symlink(P, R, f):
    bad, n = set(), 0
    outs, eng = R.engine(P, Link(), f)
    to, name = nth(f, 0), nth(f, 1)
    for kind, st, v in outs:
        tr = st.trace
        ln = [e for e in tr if e[0] == "link"]
        st_ = [e for e in tr if e[0] == "set"]
        if kind != "r" or v is None or st.const(v) != 0:
            continue
        n += 1
        if len(ln) + len(st_) != 1:
            bad.add("success although the target was not stored")
            continue
        if ln:
            enc = [e for e in tr if e[0] == "encrypt_path_for_symlink"]
            if not enc or enc[-1][2] != ln[0][1] or enc[-1][1] != to:
                bad.add("the target stored is not the encoded one")
        else:
            cr = [e for e in tr if e[0] == "create"]
            if st_[0][1] != to or not cr or cr[-1][1] != name:
                bad.add("the target stored is not the one given")
    return bad, n


def target_io(P, R):
    """Symlink::get and set: the whole target from the start of the stream"""
    for f in sorted(P.funcs.values(), key=lambda x: x.n):
        if not f.body or not f.scls or not f.scls.endswith("::Symlink") or base(f.n) not in ("get", "set"):
            continue
        R.fn(f)

        class IO(Rule):
            max_depth = 4

            def on_ret(s, eng, st, ev, val):
                if ev.base in ("read", "write") and len(ev.args) == 3:
                    st.emit((ev.base, ev.args[0], ev.args[1], ev.args[2], val, sized_of(eng, st, ev.args[0])))
        outs, eng = R.engine(P, IO(), f)
        bad = set()
        for kind, st, v in outs:
            if kind != "r":
                continue
            io = [e for e in st.trace if e[0] in ("read", "write")]
            if len(io) != 1:
                bad.add("the target is not transferred once")
                continue
            e = io[0]
            if st.const(e[2]) != 0:
                bad.add("the target is not at the start of the file")
            if e[0] == "write":
                src = ("in", ("v", 0, f.d["p"][0]["id"], f.d["p"][0]["n"]), 0)
                if e[1] != ("addr", ("el", src[1])) or e[3] != ("call", "size", src):
                    bad.add("only part of the target is stored")
            else:
                if e[5] != e[3]:
                    bad.add("the buffer for the target has another size than what is read")
                if v is None or sized(v) != e[4] and sized(v) != e[3]:
                    bad.add("the target has another size than what was read")
                if "size" not in str(e[3]):
                    bad.add("less than the whole target is read")
        R.ob("target", f.n, not bad, f.where, "; ".join(sorted(bad)))


def sized_of(eng, st, p):
    c, k = offset(p)
    v = eng.load(st, c) if c is not None else None
    return sized(v) if v is not None else None


@rule("N02")
def names_round_trip(P, R):
    """Every function that encrypts names or link targets with SIV is run symbolically, each piece of
    text followed from the input to the encoded output; so is every function that decrypts them.
    Obligations: what is encrypted is a whole component (the cuts at the slashes are compared, turn by
    turn of the loop, with the bytes handed to the cipher), the tag is stored directly before the text
    and looked for there, the buffers hold text and tag, all of both is encoded, and every encoded
    piece reaches the result in order. Names over the limit, and only those, are hashed as a whole,
    marked with the suffix that decoding tests for, and given out to the caller. Decoding takes off
    what encoding put before the name, refuses nothing that encoding can have produced, and returns
    all of the decrypted bytes. The encoding of bytes as letters is evaluated on constants: the two
    alphabets are inverse and so are the bit groups of writer and reader. Translators that stand before
    another hand on the name, the place for the long name and the answer unchanged but for the
    normalisation the option asks for. The operations on links hand the target through the translator
    on the way in and out, cut it at the size of the buffer less one, and end it with a zero."""
    enc, dec = coders(P)
    groups = {}
    for f in enc:
        groups.setdefault(f.scls or f.n.rsplit("::", 1)[0], [[], []])[0].append(f)
    for f in dec:
        groups.setdefault(f.scls or f.n.rsplit("::", 1)[0], [[], []])[1].append(f)
    n = m = 0
    for g in sorted(groups):
        info, his, his_prefix = {}, [], set()
        for f in sorted(groups[g][0], key=lambda x: x.n):
            R.fn(f)
            one = {}
            outs, eng = R.engine(P, Coding(f), f)
            bad, k = judge_encode(P, R, f, outs, one)
            bad |= judge_limits(f, outs, one)
            n += k
            his += one.get("hi", [])
            info.setdefault("marks", set()).update(one.get("marks", ()))
            his_prefix |= one.get("prefix", set())
            R.ob("encode", f.n, not bad, f.where, "; ".join(sorted(bad)))
        back = {}
        for f in sorted(groups[g][1], key=lambda x: x.n):
            R.fn(f)
            outs, eng = R.engine(P, Coding(f), f)
            bad, k = judge_decode(P, R, f, outs, back, his)
            m += k
            R.ob("decode", f.n, not bad, f.where, "; ".join(sorted(bad)))
        if info.get("marks") and not back.get("marks"):
            for f in sorted(P.funcs.values(), key=lambda x: x.n):
                if f.scls == g and f.body and not f.d.get("lambda") and f.key in P.reaching(lambda n: base(n.get("n") or "") == DEC):
                    outs, eng = R.engine(P, Coding(f), f)
                    judge_decode(P, R, f, outs, back, his)
        if back.get("prefix") and his_prefix:
            R.ob("prefix", g, his_prefix == back["prefix"], groups[g][1][0].where, "names are stored with %s before them and looked for with %s" % (sorted(his_prefix), sorted(back["prefix"])))
        if info.get("marks"):
            R.ob("mark", g, info["marks"] == back.get("marks"), groups[g][1][0].where if groups[g][1] else "", "long names are marked with %s and told by %s" % (sorted(map(str, info["marks"])), sorted(map(str, back.get("marks", ())))))
    R.need(n, "encryptions of names")
    R.need(m, "decryptions of names")
    fs, names = translator_base(P)
    direct = {f.key for f in enc + dec}
    n = 0
    for f in sorted(fs, key=lambda x: x.n):
        if not f.body or f.scls.endswith("::NameTranslator"):
            continue
        R.fn(f)
        b = base(f.n)
        field = [x for x in (P.rec_by_t.get(f.scls) or {}).get("fields", []) if "Translator" in x.get("t", "")]
        if field or any(x.get("k") == "call" and x.get("vt") and base(x.get("n") or "") == b for x in f.nodes()):
            bad, k = judge_delegate(P, R, f, names)
            kind = "delegate"
        elif b == names[-1]:
            bad, k = judge_length(P, R, f, plain_class(P, f.scls))
            kind = "length"
        elif plain_class(P, f.scls):
            bad, k = judge_plain(P, R, f, names)
            kind = "plain"
        else:
            continue
        n += k
        R.ob(kind, f.n, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "translators without encryption of their own")
    r = bits(P, R)
    if r is not None:
        bad, k, e, d = r
        R.ob("bits", "base32", not bad, (e or d).where if e or d else "", "; ".join(sorted(bad)))
    n = 0
    for f in sorted(P.funcs.values(), key=lambda x: x.n):
        if f.body and f.scls and base(f.n) in ("vreadlink", "vsymlink") and not delegates(P, f):
            R.fn(f)
            bad, k = (judge_readlink if base(f.n) == "vreadlink" else judge_symlink)(P, R, f)
            n += k
            R.ob("link", f.n, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "operations on link targets")
    target_io(P, R)
