"""Authenticated encryption of contents, headers, attributes and configuration."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR

ENC, DEC = "EncryptAndAuthenticate", "DecryptAndVerify"


class CryptoRule(Rule):
    loop_iters = 2
    max_states = 400

    WATCH = (ENC, DEC, "generate_random", "is_all_zeros", "all_of", "any_of", "none_of")

    def inline(s, eng, f, ev):
        if base(f.n) in ("is_all_zeros", "generate_random", "to_little_endian", "from_little_endian",
                         "to_big_endian", "hkdf", "parse_hex", "hexify") + LOGGY:
            return False
        return simple(f) or f.key in reach_names(eng.P, s.WATCH)

    def merge_key(s, eng, st):
        vs = [e[11] for e in st.trace if e[0] == "dec"]
        return (tuple(st.decide(v) for v in vs), check_disabled(eng.P, st)) if vs else None

    def on_iter(s, eng, st, node, fr):
        st.emit(("iter", fr.func.key, node.get("l")))

    def on_leave(s, eng, st, node, fr, kind):
        # an iteration left by return or break instead of going on
        st.emit(("left", fr.func.key, node.get("l"), kind))

    def on_call(s, eng, st, ev):
        b = ev.base
        a = ev.args
        if b == "generate_random" and len(a) == 2:
            eng.havoc_ptr(st, a[0], ("rand", ev.line))
            st.emit(("rand", a[0], a[1], ev.where))
            return [(st, I(0))]
        if b == ENC and len(a) >= 9:
            st.emit(("enc", ev.where) + tuple(a[:9]) + (st.rng(a[4]), s.params(st, ev)))
        elif b in ("memset",) and len(a) == 3:
            st.emit(("w", a[0], a[2], a[1]))
        elif b in ("memcpy", "memmove") and len(a) == 3:
            st.emit(("cp", a[0], a[2], a[1]))
        elif b in ("to_little_endian", "to_big_endian") and len(a) == 2:
            st.emit(("le", a[1], a[0]))
        elif ev.ext and b not in (DEC,) and b not in PURE_FREE and not (ev.node.get("cm")):
            pt = ev.node.get("pt", ())
            for i, x in enumerate(a):
                if i < len(pt) and pt[i] == "p" and x[0] != "int":
                    st.emit(("w", x, None, None))
        elif not ev.ext and b in ("read",):
            pass

    def params(s, st, ev):
        """bounds known for the root's own parameters at this point"""
        fr = ev.fr
        while fr.parent:
            fr = fr.parent
        out = []
        for p in fr.func.d["p"]:
            t = ("in", ("v", 0, p["id"], p["n"]), 0)
            out.append((p["n"],) + st.rng(t))
        return tuple(out)

    def on_ret(s, eng, st, ev, val):
        if ev.base == DEC and len(ev.args) >= 9:
            st.emit(("dec", ev.where) + tuple(ev.args[:9]) + (val, s.params(st, ev)))
        elif ev.base in ("read", "getxattr", "pread") and not ev.ext and len(ev.args) >= 3:
            st.emit(("rd", ev.args[0], ev.args[1], ev.args[2], ev.obj, ev.where, s.params(st, ev)))
        elif ev.base in ("write", "setxattr", "pwrite") and not ev.ext and len(ev.args) >= 3:
            st.emit(("wr", ev.args[0], ev.args[1], ev.args[2], ev.obj, ev.where, s.params(st, ev)))

    def on_assume(s, eng, st, t, v, node, fr):
        while t[0] == "not":
            t, v = t[1], not v
        if t[0] == "call":
            n = base_of_call(t)
            a = t[2:]
            if n == "is_all_zeros":
                st.emit(("zero" if v else "nz", a[0], a[1]))
            elif n in ("all_of", "none_of", "any_of"):
                z = v if n != "any_of" else not v
                st.emit(("zero" if z else "nz", a[0], sub(a[1], a[0])))
        elif t[0] == "eq0":
            # find_if(begin, end, nonzero) == end
            c, d = lin(t[1])
            for k in d:
                if k[0] == "call" and k[1] == "find_if":
                    st.emit(("zero" if v else "nz", k[2], sub(k[3], k[2])))


def base_of_call(t):
    k = t[1]
    if k.startswith("_Z"):
        import re
        i = 2
        last = k
        m = re.findall(r"(\d+)", k)
        # walk the nested name
        pos = 3 if k.startswith("_ZN") else 2
        while pos < len(k):
            mm = re.match(r"[KrVRO]*(\d+)", k[pos:])
            if not mm:
                break
            n = int(mm.group(1))
            st = pos + mm.end()
            last = k[st:st + n]
            pos = st + n
        return last
    return k


_runs = {}


def inl(P, R, g):
    return _runs[(id(P), g.key, R.thorough)][1].stat_inlined


def runs(P, R, f):
    cache = _runs
    k = (id(P), f.key, R.thorough)
    if k not in cache:
        r = CryptoRule()
        if R.thorough:
            r.loop_iters = 3
        cache[k] = R.engine(P, r, f)
    R.functions.add(f.key)
    outs, e = cache[k]
    R.functions |= e.stat_inlined
    R.paths += 0
    return outs


def sites(P, b):
    return sorted(funcs_with_call(P, lambda n: base(n["n"]) == b and n.get("ext")), key=lambda f: f.key)


# ------------------------------------------------------------------------------ IV freshness
def iv_fail(P, R, f, want_nonzero):
    fails = []
    for kind, st, v in runs(P, R, f):
        tr = st.trace
        for i, e in enumerate(tr):
            if e[0] != "enc":
                continue
            where, iv, L = e[1], e[5], e[6]
            regions = []
            nz = False
            wrote = None
            for x in reversed(tr[:i]):
                if x[0] == "enc":
                    if covered(st, [(x[5], x[6])], iv, I(1)) or root_of(x[5]) == root_of(iv):
                        if x[5] == iv:
                            break
                    continue
                if x[0] == "rand":
                    regions.append((x[1], x[2]))
                    if covered(st, regions, iv, L):
                        break
                elif x[0] == "nz" and covered(st, [(x[1], x[2])], iv, L) and x[1] == iv and not regions:
                    nz = True
                elif x[0] in ("w", "cp", "le") and not regions:
                    # something else written over the generated vector
                    d = sub(x[1], iv)
                    if root_of(x[1]) == root_of(iv):
                        lo, hi = st.rng(d)
                        lo2, hi2 = st.rng(sub(d, L))
                        if not (lo2 >= 0):
                            n = x[2]
                            if not (n is not None and st.rng(add(d, n))[1] <= 0):
                                if x[1] == iv or (lo == hi):
                                    wrote = x
            ok = covered(st, regions, iv, L)
            if not ok:
                fails.append((where, "the initialisation vector passed to the encryption is not wholly "
                              "generated by the random generator since the previous encryption"))
            elif wrote is not None:
                fails.append((where, "the generated initialisation vector is overwritten before use"))
            elif want_nonzero and not nz:
                fails.append((where, "the initialisation vector may be all zeros, which marks a hole"))
            lo, hi = e[11]
            if hi != float("inf") and hi < 12:
                fails.append((where, "the initialisation vector is shorter than 12 bytes"))
    return sorted(set(fails))


CONTENT_CLASSES = ("securefs::BlockBasedStream",)


def content_roots(P):
    """overrides of the block stream's virtual read and write of blocks"""
    rd, wr = [], []
    for f in P.funcs.values():
        if f.body and f.d.get("over"):
            b = base(f.n)
            if b == "read_multi_blocks":
                rd.append(f)
            elif b == "write_multi_blocks":
                wr.append(f)
    return rd, wr


@rule("C01")
def iv_fresh(P, R):
    """Every call of an AEAD encryption primitive is found; on every path to it, the whole IV argument
    must have been filled by the CSPRNG wrapper after the previous encryption with that buffer (two
    generic loop iterations are followed) and not overwritten; where an all-zero IV marks a hole, the
    path must also have established that it is not all zero."""
    fs = sites(P, ENC)
    R.need(fs, "calls of " + ENC)
    _, wr = content_roots(P)
    for f in fs:
        fl = judged_with_lift(P, f, lambda g: iv_fail(P, R, g, False), lambda g: inl(P, R, g))
        R.ob("fresh-iv", f.sn, not fl, f.where if not fl else fl[0][0], "; ".join(x[1] for x in fl))
    for w in wr:
        fl = iv_fail(P, R, w, True)
        R.ob("fresh-nonzero-iv", w.sn, not fl, w.where if not fl else fl[0][0], "; ".join(x[1] for x in fl))
        has = any(e[0] == "enc" for k, st, v in runs(P, R, w) for e in st.trace)
        R.ob("write-encrypts", w.sn, has, w.where, "no encryption on any path of the block writer")


# ------------------------------------------------------------------------------ authenticated reads
def auth_fail(P, R, f):
    fails = []
    for kind, st, v in runs(P, R, f):
        if kind != "r":
            continue
        if v is not None and st.decide(v) is False and P_ret_bool(f):
            continue
        if check_disabled(P, st):
            continue
        for e in st.trace:
            if e[0] == "dec":
                V = e[11]
                if st.decide(V) is not True:
                    if v is not None and depends_bool(v, V):
                        continue
                    fails.append((e[1], "the result of the verification does not decide whether the function "
                                  "succeeds: a path returns normally after a failed verification"))
    return sorted(set(fails))


def P_ret_bool(f):
    return f.d.get("ret") == "bool"


def depends_bool(v, V):
    return v == V or v == ("not", ("eq0", V))


@rule("C02")
def auth_reads(P, R):
    """Typestate over every path of every function that decrypts with an AEAD primitive (contents of both
    formats, extended attributes, the configuration): a path on which the verification result is not known
    to be true must not return normally unless verification is switched off by the object's constructor.
    In the block readers every loop iteration that does not verify must have established that the whole
    stored block (data, and in the full format IV and MAC) is zero.  MAC length must be the full 16 bytes
    where the caller fixes it."""
    fs = sites(P, DEC)
    R.need(fs, "calls of " + DEC)
    for f in fs:
        # a header whose authenticity the enclosing MAC stream establishes
        fl = judged_with_lift(P, f, lambda g: auth_fail(P, R, g), lambda g: inl(P, R, g))
        if fl and f.scls and any(P.record_of(fd["t"]) and "HMACStream" in fd["t"]
                                 for fd in (P.rec_by_t.get(f.cls) or {"fields": ()})["fields"]) and \
                only_from_mac_stream(P, R, f):
            R.ob("header-under-mac-stream", f.sn, True, f.where,
                 "ciphertext read from the MAC-verified stream only")
            continue
        R.ob("verify-decides", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
    rd, wr = content_roots(P)
    R.need(rd, "block readers")
    for f in rd:
        outs = runs(P, R, f)
        decs = [e for k, st, v in outs for e in st.trace if e[0] == "dec"]
        R.ob("reader-verifies", f.sn, bool(decs), f.where, "the block reader never verifies")
        bad = set()
        nseg = 0
        for k, st, v in outs:
            if k != "r" or check_disabled(P, st):
                continue
            tr = list(st.trace) + [("end",)]
            idx = [i for i, e in enumerate(tr) if e[0] == "iter" and e[1] == f.key]
            # outermost loop only: iterations of a loop entered from within another are part of it
            for n_, i in enumerate(idx):
                j = idx[n_ + 1] if n_ + 1 < len(idx) else len(tr) - 1
                seg = tr[i:j]
                nseg += 1
                if any(e[0] == "dec" for e in seg):
                    continue
                last = n_ + 1 == len(idx)
                zs = [(e[1], e[2]) for e in seg if e[0] == "zero"]
                need = None
                for e in decs:
                    # ciphertext, IV and MAC of the block as the verifying sibling names them
                    cands = [(e[9], e[10]), (e[5], e[6]), (e[3], e[4])]
                    if all(covered(st, zs, p, n) for p, n in cands):
                        need = True
                if need is None and not (any(e[0] == "left" and e[1] == f.key for e in seg) and
                                         not any(e[0] in ("w", "cp") for e in seg)):
                    bad.add("an iteration delivers a block that is neither verified nor known to be wholly zero "
                            "(data, IV and MAC)")
        R.ob("zero-block-passthrough", f.sn, not bad, f.where, "; ".join(bad))
        R.ob("reader-iterations", f.sn, nseg > 0, f.where, "no loop iteration analysed")
        for e in decs:
            R.ob("mac-length", f.sn, e[4] == I(16), e[1], "MAC length is %s, not 16" % show(e[4]))
    encs = sites(P, ENC)
    for f in encs:
        for k, st, v in runs(P, R, f):
            for e in st.trace:
                if e[0] == "enc":
                    R.ob("mac-length", f.sn, e[4] == I(16), e[1], "MAC length is %s, not 16" % show(e[4]))
    for f in fs:
        if f in rd:
            continue
        for k, st, v in runs(P, R, f):
            for e in st.trace:
                if e[0] == "dec":
                    lo, hi = st.rng(e[4])
                    R.ob("mac-length", f.sn, lo == hi == 16 or k == "t", e[1],
                         "the tag length %s is not known to be the full 16 bytes" % show(e[4]))


def only_from_mac_stream(P, R, f):
    """everything DecryptAndVerify consumes in f was read through a MAC stream object"""
    for k, st, v in runs(P, R, f):
        for i, e in enumerate(st.trace):
            if e[0] == "dec":
                src = [x for x in st.trace[:i] if x[0] == "rd"]
                if not src:
                    return False
                if not any(root_of(x[1]) == root_of(e[9]) for x in src):
                    return False
    return True
