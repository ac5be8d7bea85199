"""Deterministic (SIV) encryption of names, block positions, file-size bound, MAC stream, keys, randomness."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from . import content as CT

SIVD, SIVE = "decrypt_and_verify", "encrypt_and_authenticate"


def ptr_owner(p):
    """the container or object a pointer's bytes live in"""
    r = root_of(p)
    if r and r[0] == "el":
        r = r[1]
    return r


def mentions(t, loc):
    """does a value refer to that location (its address, contents or elements)?"""
    return any(x == loc for x in subterms(t) if x)


class SivRule(Rule):
    loop_iters = 2
    max_states = 300

    def inline(s, eng, f, ev):
        if base(f.n) in (SIVD, SIVE) + LOGGY:
            return False
        return simple(f) or f.key in reach_names(eng.P, (SIVD,))

    def merge_key(s, eng, st):
        vs = [e[8] for e in st.trace if e[0] == "siv"]
        return tuple(st.decide(v) for v in vs) or None

    def on_ret(s, eng, st, ev, val):
        if ev.base == SIVD and len(ev.args) == 6:
            own = ptr_owner(ev.args[4])
            st.emit(("siv", ev.where) + tuple(ev.args) + (val, own, low(st, ev.args[1])))
        elif any(e[0] == "siv" for e in st.trace[-40:]):
            if ev.base.startswith("~") or ev.base in LOGGY or ev.kind == "dtor":
                return
            st.emit(("use", ev.where, ev.base, tuple(a for a in ev.args), ev.obj))


_siv = {}


def siv_inl(P, R, g):
    return _siv[(id(P), g.key, R.thorough)][1].stat_inlined


def siv_runs(P, R, f):
    cache = _siv
    k = (id(P), f.key, R.thorough)
    if k not in cache:
        r = SivRule()
        if R.thorough:
            r.loop_iters = 3
        cache[k] = R.engine(P, r, f)
    outs, e = cache[k]
    R.functions.add(f.key)
    R.functions |= e.stat_inlined
    return outs


def siv_fail(P, R, f):
    fails = []
    for kind, st, v in siv_runs(P, R, f):
        tr = st.trace
        for i, e in enumerate(tr):
            if e[0] != "siv":
                continue
            V, own = e[8], e[9]
            if st.decide(V) is True:
                continue
            # forgery: nothing decrypted may be used or returned
            if kind == "r" and v is not None and CT.depends_bool(v, V):
                fails.append((e[1], "result handed to the caller"))
                continue
            for x in tr[i + 1:]:
                if x[0] == "siv" and x[9] == own:
                    break
                if x[0] == "use" and own is not None and any(
                        mentions(a, own) for a in x[3] + ((x[4],) if x[4] else ()) if a):
                    if x[2] in ("size", "length", "data", "operator[]"):
                        continue
                    fails.append((x[1], "plaintext of a name that failed verification is passed to %s" % x[2]))
                    break
            if kind == "r" and v is not None and own is not None:
                held = st.env.get(own)
                if mentions(v, own) or (held is not None and any(x == held for x in subterms(v) if x)):
                    fails.append((e[1], "plaintext of a name that failed verification is returned"))
    return sorted(set(fails))


def siv_len(P, R, f):
    fails = []
    for kind, st, v in siv_runs(P, R, f):
        for e in st.trace:
            if e[0] == "siv" and e[10] < 0:
                fails.append((e[1], "the length passed to the verification may wrap below zero: input shorter "
                              "than the tag is not rejected first"))
    return sorted(set(fails))


class Prim(Rule):
    """event recorder for the SIV primitive itself"""
    def __init__(s, stop):
        s.stop = stop

    def inline(s, eng, f, ev):
        return base(f.n) not in s.stop + LOGGY

    def on_ret(s, eng, st, ev, val):
        st.emit(("c", ev.base, tuple(ev.args), val, ev.where, ev.obj, tuple(ev.locs or ())))
        if ev.base in ("memcpy", "memmove") and ev.args:
            r = root_of(ev.args[0])
            if st.env.get(r) is not None:
                st.emit(("held", r, st.env[r]))

    def on_store(s, eng, st, loc, val, node, fr):
        st.emit(("s", loc, val))

    def on_init(s, eng, st, loc, val, node, fr):
        if val is not None and val[0] in ("rec", "in") and any(x[0] == "t" for x in subterms(val) if x):
            st.emit(("s", loc, val))
        if val is None:
            for k, x in list(st.env.items()):
                if k[0] == "m" and k[1] == loc and x is not None and x[0] == "havoc":
                    st.emit(("s", k, x))

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, v))


def prim(P, R, f, stop):
    outs, _ = R.engine(P, Prim(stop), f)
    return outs


def pval(f, name_idx):
    p = f.d["p"][name_idx]
    return ("in", ("v", 0, p["id"], p["n"]), 0)


@rule("C03")
def siv_decisive(P, R):
    """Every call of the SIV decryption is found and every path from it followed through callers: where the
    result is not known to be true the decrypted bytes may not be used, stored or returned, and the
    ciphertext length handed in must be known not to have wrapped (short input rejected first).  The
    primitive itself: the verdict returned is a full 16-byte constant-time comparison of the stored tag with
    the tag recomputed over the whole recovered plaintext and the associated data."""
    fs = sorted(funcs_with_call(P, lambda n: base(n["n"]) == SIVD), key=lambda f: f.key)
    fs = [f for f in fs if f.scls != "securefs::AES_SIV"]
    R.need(fs, "uses of the SIV decryption")
    for f in fs:
        fl = judged_with_lift(P, f, lambda g: siv_fail(P, R, g), lambda g: siv_inl(P, R, g))
        R.ob("verify-decides", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
        fl = judged_with_lift(P, f, lambda g: siv_len(P, R, g), lambda g: siv_inl(P, R, g))
        R.ob("tag-sized-input", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
        seen = any(e[0] == "siv" for k, st, v in siv_runs(P, R, f) for e in st.trace)
        R.ob("site-analysed", f.sn, seen, f.where, "no path reaches the verification")
    # the primitive
    d = P.one("securefs::AES_SIV::" + SIVD)
    ct, n, ad, adn, pt, siv = [pval(d, i) for i in range(6)]
    for kind, st, v in prim(P, R, d, ("s2v",)):
        if kind != "r":
            continue
        ok, why = False, "the verdict is not a comparison of the tag"
        cs = [e for e in st.trace if e[0] == "c"]
        cmp_ = [e for e in cs if e[1] == "VerifyBufsEqual" and v is not None and
                (e[3] == v or CT.depends_bool(v, e[3]))]
        if cmp_:
            a = cmp_[-1][2]
            i = cs.index(cmp_[-1])
            tmp = a[1] if a[0] == siv else a[0]
            s2 = [e for e in cs[:i] if e[1] == "s2v"]
            dec = [e for e in cs[:i] if e[1] == "ProcessData"]
            ok = True
            if siv not in a[:2] or a[2] != I(16):
                ok, why = False, "the comparison does not cover the whole stored 16-byte tag"
            elif not s2 or s2[-1][2] != (pt, n, ad, adn, tmp):
                ok, why = False, "the tag compared is not recomputed over the whole plaintext and associated data"
            elif not dec or dec[-1][2] != (pt, ct, n) or cs.index(dec[-1]) > cs.index(s2[-1]):
                ok, why = False, "the tag is not recomputed over the text decrypted from the ciphertext"
        R.ob("siv-verdict", d.sn, ok, d.where, why)
    e_ = P.one("securefs::AES_SIV::" + SIVE)
    pt, n, ad, adn, ct, siv = [pval(e_, i) for i in range(6)]
    for kind, st, v in prim(P, R, e_, ("s2v",)):
        if kind != "r":
            continue
        cs = [e for e in st.trace if e[0] == "c"]
        s2 = [e for e in cs if e[1] == "s2v"]
        enc = [e for e in cs if e[1] == "ProcessData"]
        ok = bool(s2) and s2[-1][2] == (pt, n, ad, adn, siv) and bool(enc) and enc[-1][2] == (ct, pt, n) and \
            cs.index(s2[-1]) < cs.index(enc[-1])
        R.ob("siv-tag", e_.sn, ok, e_.where, "the tag is not computed over the whole plaintext and associated "
             "data, or the ciphertext is not produced from it afterwards")
    s2v = P.one("securefs::AES_SIV::s2v")
    pt, n, ad, adn, iv = [pval(s2v, i) for i in range(5)]
    np = 0
    for kind, st, v in prim(P, R, s2v, ("aes256_siv_dbl",)):
        if kind != "r":
            continue
        np += 1
        cs = [e for e in st.trace if e[0] == "c"]
        fin = [e for e in cs if e[1] == "CalculateDigest" and e[2][0] == iv]
        ok, why = bool(fin), "the tag is not written"
        if ok:
            i = cs.index(fin[-1])
            src = ptr_owner(fin[-1][2][1])
            # plaintext reaches the digest input whole
            full = covers_text(st, cs[:i], src, pt, n)
            if not full:
                ok, why = False, "not the whole plaintext enters the tag"
            if ok and not (st.decide(ad) is False or st.decide(adn) is False):
                if not any(e[1] == "CalculateDigest" and e[2][1:3] == (ad, adn) for e in cs[:i]):
                    ok, why = False, "the associated data does not enter the tag"
        R.ob("siv-s2v", s2v.sn, ok, s2v.where, why)
    R.need(np, "paths of s2v")


def covers_text(st, cs, src, pt, n):
    held = st.env.get(src)
    if held is not None and held[0] == "ctor" and pt in held[2:] and n in held[2:]:
        return True
    for e in cs:
        if e[1] in ("memcpy", "memmove") and e[2][1:3] == (pt, n):
            dst = ptr_owner(e[2][0])
            if dst == src:
                return True
            if any(x[1] == "xorbuf" and ptr_owner(x[2][0]) == src and ptr_owner(x[2][1]) == dst for x in cs):
                return True
        if e[1] in ("ctor",):
            pass
        if e[1] in ("SecBlock", "vector", "basic_string") and pt in e[2] and n in e[2]:
            return True
    return False
