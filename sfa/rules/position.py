"""Blocks are bound to their file and position; the block index stays within bounds; the MAC stream."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .. import engine as E
from . import content as CT
from .crypto import pval, prim, Prim

ENC, DEC = CT.ENC, CT.DEC
MAXB = (1 << 31) - 1


def loopvars(t):
    return [x for x in deps(t) if x and x[0] == "havoc" and len(x) > 1 and isinstance(x[1], tuple) and x[1] and
            x[1][0] == "loop"]


def strip(v):
    """remove width changes; the narrowest width seen"""
    w = 64
    while v and v[0] == "trunc":
        w = min(w, v[1])
        v = v[2]
    return v, w


def at_entry(t):
    """the value with loop-carried variables replaced by what they held before the loop"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "havoc":
        ini = [x for x in E.havoc_init.get(t, ()) if x is not None]
        return at_entry(ini[0]) if len(ini) == 1 else t
    if t[0] == "lin":
        r = I(t[1])
        for k, c in t[2]:
            r = add(r, scale(at_entry(k), c))
        return r
    if t[0] == "op" and t[1] == "/" and at_entry(t[2]) == I(0):
        return I(0)
    if t[0] == "trunc":
        return at_entry(t[2])
    return t


def field_type(P, f):
    m = P.__dict__.setdefault("_ftypes", {})
    if not m:
        for r in P.records.values():
            for fl in r["fields"]:
                m[fl["n"]] = fl["t"]
    return m.get(f, "")


def is_id_ptr(P, p):
    """address of the first byte of a file-id field"""
    c, d = lin(p)
    if c or len(d) != 1:
        return False
    a = next(iter(d))
    if a[0] != "addr":
        return False
    l = a[1]
    while l and l[0] == "m":
        t = field_type(P, l[2])
        if "id_type" in t or "PODArray<unsigned char, 32>" in t:
            return True
        l = l[1]
    return False


def in_mac_stream(P, obj):
    """is this object a MAC-verified stream?"""
    if obj and obj[0] == "m":
        return "HMACStream" in field_type(P, obj[2])
    return False


def les(tr, i):
    out = []
    for x in reversed(tr[:i]):
        if x[0] in ("enc", "dec"):
            break
        if x[0] == "le":
            out.append(x)
    return out


def aad_has(st, aad, n, dst):
    if dst == aad:
        return low(st, sub(n, I(4))) >= 0 or not st.const(n)
    return covered(st, [(aad, n)], dst, I(4))


def position_fail(P, R, f):
    fails = []
    sb = pval(f, 0)
    cnt = 0
    for kind, st, v in CT.runs(P, R, f):
        tr = st.trace
        io = [x for x in tr if x[0] in ("rd", "wr")]
        for i, e in enumerate(tr):
            if e[0] not in ("enc", "dec"):
                continue
            cnt += 1
            where, aad, n = e[1], e[7], e[8]
            ls = [x for x in les(tr, i) if root_of(x[1]) == root_of(aad)]
            if not ls or not aad_has(st, aad, n, ls[0][1]):
                fails.append((where, "the block number is not part of the associated data"))
                continue
            V, w = strip(ls[0][2])
            if w < 32:
                fails.append((where, "the block number is narrowed to %d bits" % w))
                continue
            lv = loopvars(V)
            if sb not in deps(V):
                fails.append((where, "the number authenticated does not depend on the absolute block position"))
                continue
            if not lv:
                fails.append((where, "the number authenticated is the same for every block of the request"))
                continue
            first = all("/0" in show(h) for h in lv)
            if first and sub(at_entry(V), sb) != I(0) and st.const(sub(at_entry(V), sb)) is not None:
                fails.append((where, "the first block is not numbered by its position"))
            for t in subterms(V):
                if t and t[0] == "op" and t[1] == "/" and loopvars(t[2]):
                    S = t[3]
                    for x in io:
                        if sb in deps(x[2]) and sb in deps(sub(x[2], mul(sb, S))):
                            fails.append((where, "the number authenticated advances by a stride other than the "
                                          "one blocks are stored at"))
                if t and t[0] == "op" and t[1] in ("%", "&"):
                    fails.append((where, "the number authenticated is reduced, so distinct blocks share it"))
    return sorted(set(fails)), cnt


def id_fail(P, R, f, wants_name=False):
    fails = []
    cnt = 0
    for kind, st, v in CT.runs(P, R, f):
        tr = st.trace
        for i, e in enumerate(tr):
            if e[0] not in ("enc", "dec"):
                continue
            cnt += 1
            where, aad, n = e[1], e[7], e[8]
            if is_id_ptr(P, aad):
                if n != I(32):
                    fails.append((where, "not the whole file id is authenticated"))
                elif wants_name:
                    fails.append((where, "the attribute name is not authenticated"))
                continue
            if n == I(0) or aad == I(0):
                fails.append((where, "no associated data: the file id is not authenticated"))
                continue
            cps = [(x[1], x[2], x[3]) for x in tr[:i] if x[0] == "cp" and root_of(x[1]) == root_of(aad)]
            ids = [c for c in cps if is_id_ptr(P, c[2]) and st.rng(c[1])[0] >= 32]
            if not ids or not covered(st, [(aad, n)], ids[-1][0], I(32)):
                fails.append((where, "the file id is not part of the associated data"))
            elif not covered(st, [(c[0], c[1]) for c in cps], aad, n):
                fails.append((where, "part of the associated data is not initialised"))
            elif wants_name and low(st, sub(n, I(32))) <= 0 and st.const(n) is not None:
                fails.append((where, "the attribute name is not authenticated"))
    return sorted(set(fails)), cnt


def mac_meta_fail(P, R, f):
    """IV and tag of a block live in the MAC-verified stream, at a position given by the block"""
    fails = []
    sb = pval(f, 0)
    for kind, st, v in CT.runs(P, R, f):
        tr = st.trace
        for i, e in enumerate(tr):
            if e[0] not in ("enc", "dec"):
                continue
            iv, mac = e[5], e[3]
            m0 = at_entry(mac)
            io = [x for x in tr if x[0] == ("wr" if e[0] == "enc" else "rd") and
                  in_mac_stream(P, x[4]) and
                  ptr_root(x[1]) == ptr_root(m0) and sb not in deps(sub(m0, x[1]))]
            if e[0] == "enc" and kind != "r":
                continue
            if not io:
                fails.append((e[1], "the vector and tag of the block are not kept in the MAC-verified stream"))
                continue
            for x in io:
                if sb not in deps(x[2]):
                    fails.append((x[5], "vector and tag are not stored by block position"))
    return sorted(set(fails))


def ptr_root(p):
    r = root_of(p)
    return r[1] if r and r[0] == "el" else r


def positions(P, R, f):
    """where the function reads or writes, with its parameters numbered"""
    out = set()
    ren = {pval(f, i): ("param", i) for i in range(len(f.d["p"]))}

    def rn(t):
        if t in ren:
            return ren[t]
        if isinstance(t, tuple):
            if t and t[0] == "lin":
                return ("lin", t[1], tuple(sorted(((rn(k), c) for k, c in t[2]), key=repr)))
            if t and t[0] == "op" and t[1] == "*":
                return ("op", "*") + tuple(sorted((rn(x) for x in t[2:]), key=repr))
            return tuple(rn(x) for x in t)
        return t
    sb = pval(f, 0)
    for kind, st, v in CT.runs(P, R, f):
        for x in st.trace:
            if x[0] in ("rd", "wr") and sb in deps(x[2]) and not loopvars(x[2]):
                out.add((x[4], repr(rn(x[2]))))
    return out


@rule("C05")
def position(P, R):
    """Every override of the block reader and writer is analysed path by path: each AEAD call's associated
    data must hold, written since the previous call, a number that is the request's start block plus a
    per-iteration index of at least 32 bits whose stride is the stride blocks are stored at -- or, where a
    class keeps vectors and tags in a MAC-verified stream, the whole file id, with vector and tag read from
    and written to that stream at a position that depends on the block.  Headers and attributes of classes
    that know a file id authenticate the whole id (attributes also the name).  Reader and writer of a class
    must compute identical storage positions."""
    rd, wr = CT.content_roots(P)
    R.need(rd and wr, "block readers and writers")
    by = {}
    for f in rd + wr:
        by.setdefault(f.scls, []).append(f)
    for cls, fs in sorted(by.items()):
        res = {f: position_fail(P, R, f) for f in fs}
        hasnum = any(not r[0] for r in res.values()) or any(
            any(x[0] == "le" for k, st, v in CT.runs(P, R, f) for x in st.trace) for f in fs)
        meta = any("HMACStream" in fl["t"] for fl in (P.rec_by_t.get(fs[0].cls) or {"fields": ()})["fields"])
        for f in fs:
            if hasnum or not meta:
                fl, cnt = res[f]
                R.ob("position-in-aad", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
            else:
                fl, cnt = id_fail(P, R, f)
                R.ob("id-in-aad", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
                fl = mac_meta_fail(P, R, f)
                R.ob("meta-in-mac-stream", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
            R.ob("site-analysed", f.sn, cnt > 0, f.where, "no AEAD call reached")
        r = set().union(*[positions(P, R, f) for f in fs if f in rd])
        w = set().union(*[positions(P, R, f) for f in fs if f in wr])
        R.ob("same-position", cls, r == w and r, fs[0].where, "reader and writer compute different storage "
             "positions: %s / %s" % (sorted(map(str, r))[:2], sorted(map(str, w))[:2]))
        aux_size(P, R, cls, fs)
    sites = set(CT.sites(P, ENC)) | set(CT.sites(P, DEC))
    for f in sorted(sites, key=lambda f: f.key):
        if f in rd or f in wr or not f.cls:
            continue
        rec = P.rec_by_t.get(f.cls)
        if not rec or not any("id_type" in fl["t"] or "PODArray<unsigned char, 32>" in fl["t"]
                              for fl in rec["fields"]):
            continue
        fl, cnt = id_fail(P, R, f, "xattr" in base(f.n))
        R.ob("id-in-aad", f.sn, not fl and cnt, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))


def aux_size(P, R, cls, fs):
    """a container used as associated data is given room for the number by every constructor"""
    fields = set()
    for f in fs:
        for k, st, v in CT.runs(P, R, f):
            for e in st.trace:
                if e[0] in ("enc", "dec"):
                    r = root_of(e[7])
                    if r and r[0] == "el" and r[1][0] == "m" and st.const(e[8]) is None:
                        fields.add(r[1][2])
    for fld in fields:
        for c in P.methods_of(cls):
            if not c.d.get("ctor") or not c.body or any(b.get("deleg") for b in c.d.get("inits", ())):
                continue
            deleg = any(n.get("k") == "ctor" and PR.strip_t(n.get("n") or "").startswith(cls + "::")
                        for b in c.d.get("inits", ()) if isinstance(b, dict) for n in [b.get("e") or {}])
            if deleg:
                continue
            bad = False
            for kind, st, v in prim(P, R, c, ()):
                if kind != "r":
                    continue
                ok = False
                for e in st.trace:
                    if e[0] == "c" and e[5] and e[5][0] == "m" and e[5][2] == fld and \
                            e[1] in ("resize", "assign") and e[2]:
                        ok = low(st, sub(e[2][0], I(4))) >= 0
                bad |= not ok
            R.ob("aad-room", c.sn, not bad, c.where, "the associated data has no room for the 32-bit number")


@rule("C06")
def bound(P, R):
    """In every override of the block reader and writer, each AEAD call and each storage access must be
    dominated by a check that bounds the end block of the request by 2^31-1 (decided from the interval the
    path conditions give the parameter), so the 32-bit number authenticated with a block never wraps."""
    rd, wr = CT.content_roots(P)
    R.need(rd and wr, "block readers and writers")
    for f in rd + wr:
        end = f.d["p"][1]["n"]
        bad = set()
        cnt = 0
        for kind, st, v in CT.runs(P, R, f):
            for e in st.trace:
                if e[0] in ("enc", "dec"):
                    pr, where = e[12], e[1]
                elif e[0] in ("rd", "wr"):
                    pr, where = e[6], e[5]
                else:
                    continue
                cnt += 1
                hi = [h for n, lo, h in pr if n == end]
                if not hi or hi[0] > MAXB:
                    bad.add((where, "the end block is only known to be at most %s here" % (hi[0] if hi else "?")))
        bad = sorted(bad)
        R.ob("bounded-block", f.sn, not bad and cnt, bad[0][0] if bad else f.where,
             "; ".join(b[1] for b in bad[:2]))


# ---------------------------------------------------------------------------------- MAC stream
HM = "securefs::internal::HMACStream"


class MacRule(Prim):
    loop_iters = 2

    def __init__(s, boom=False):
        Prim.__init__(s, ())
        s.boom = boom

    def throws(s, eng, st, ev):
        if s.boom and ev.base in ("write", "resize", "flush") and not ev.ext:
            st.emit(("boom", ev.base, ev.where))
            return ("securefs::ExceptionBase",)
        return ()

    def merge_key(s, eng, st):
        return tuple(e[1:4] for e in st.trace if e[0] == "c" and e[1] in ("write", "Final", "Verify"))


def mac_run_ok(P, st, cs):
    """SetKey(whole key); Update(id); then Update with everything read from offset 32 until a read of 0"""
    i = max([k for k, e in enumerate(cs) if e[1] == "SetKey"], default=None)
    if i is None:
        # keyed by its constructor
        i = max([k for k, e in enumerate(cs) if e[1] == "HMAC" and len(e[2]) == 2], default=None)
    if i is None:
        return "the MAC is not keyed"
    k = cs[i]
    if len(k[2]) < 2 or k[2][1] != I(32) or not is_id_ptr(P, k[2][0]):
        return "the MAC is not keyed with the whole stream key"
    ups = [e for e in cs[i:] if e[1] == "Update"]
    rds = [e for e in cs[i:] if e[1] == "read" and len(e[2]) == 3]
    if not ups or ups[0][2][1] != I(32) or not is_id_ptr(P, ups[0][2][0]):
        return "the file id does not enter the MAC first"
    if root_of(ups[0][2][0]) == root_of(k[2][0]):
        return "the MAC covers its own key instead of the file id"
    if rds and cs.index(ups[0]) > cs.index(rds[0]) and ups[0][2][0] == rds[0][2][0]:
        return "the file id does not enter the MAC first"
    if not rds:
        return "the content is not read"
    exp = None
    for n, r in enumerate(rds):
        p, off, ln = r[2]
        off0 = off
        ini = [x for x in E.havoc_init.get(off, ()) if x is not None] if off[0] == "havoc" else [off]
        if n == 0 and not (ini and all(x == I(32) for x in ini)):
            return "the content is not read from right after the stored tag"
        if n and exp is not None and off != exp and not (ini and exp in ini):
            return "reads are not contiguous"
        if low(st, sub(ln, I(1))) < 0 and st.const(ln) is not None:
            return "reads of no length"
        last = n == len(rds) - 1
        z = st.decide(("eq0", r[3]))
        if z is None and st.rng(r[3])[1] <= 0:
            z = True
        if last and z is not True:
            return "the end of the content is not established by a read of nothing"
        if not last:
            a = cs.index(r)
            b = cs.index(rds[n + 1])
            us = [e for e in cs[a:b] if e[1] == "Update"]
            if not us or us[0][2][0] != p or us[0][2][1] != r[3]:
                return "bytes read do not all enter the MAC"
        exp = add(off0, r[3])
    return None


def chain(p):
    r = root_of(p)
    out = []
    while r and r[0] in ("m", "el"):
        if r[0] == "m":
            out.append(r)
        r = r[1]
    return out


@rule("C07")
def mac_stream(P, R):
    """The MAC stream class, path by path: its constructor returns normally only if checking is off, the
    stream is empty, or a MAC keyed with the whole key, over the id and the entire content read contiguously
    from offset 32 to the end, verified the 32 stored bytes; every write or resize leaves the object dirty,
    also when the underlying operation throws after starting; flush of a dirty object recomputes that same
    MAC, stores all 32 bytes at offset 0 and only then clears the mark; destruction flushes; data offsets are
    shifted by exactly the 32 bytes."""
    ms = P.methods_of(HM)
    R.need(ms, HM)
    by = {}
    for m in ms:
        by.setdefault(base(m.n), []).append(m)
    ctors = [m for m in ms if m.d.get("ctor") and m.body and len(m.d["p"]) >= 3]
    R.need(ctors, "constructor of the MAC stream")
    for c in ctors:
        outs, _ = R.engine(P, MacRule(), c)
        bad = set()
        n = 0
        for kind, st, v in outs:
            if kind != "r":
                continue
            n += 1
            cs = [e for e in st.trace if e[0] == "c"]
            off = any(st.decide(pval(c, i)) is False for i, p in enumerate(c.d["p"]) if p["t"].startswith("bool")
                      or p["t"] == "const bool")
            if off:
                continue
            first = [e for e in cs if e[1] == "read" and len(e[2]) == 3 and e[2][1] == I(0)]
            if first and st.decide(("eq0", first[0][3])) is True:
                continue
            vs = [e for e in cs if e[1] == "Verify"]
            if not vs or st.decide(vs[-1][3]) is not True:
                bad.add("a path returns without a successful verification")
                continue
            ve = vs[-1]
            if not first or first[0][2][0] != ve[2][0] or first[0][2][2] != I(32) or \
                    st.rng(first[0][3])[0] < 32:
                bad.add("the tag verified is not the 32 bytes stored at the start")
            # the read of the tag may come before or after keying
            rest = [e for e in cs[:cs.index(ve)] if e is not first[0]] if first else cs
            why = mac_run_ok(P, st, rest)
            if why:
                bad.add(why)
        R.ob("verified-on-open", c.sn, not bad and n, c.where, "; ".join(sorted(bad)))
    fl = by.get("flush", [None])[0]
    R.need(fl, "flush of the MAC stream")
    dirty = dirty_fields(P, R, fl)
    R.ob("dirty-mark", fl.sn, bool(dirty), fl.where, "no mark decides whether flush recomputes the MAC")

    def flushed(f, outs):
        bad = set()
        n = 0
        for kind, st, v in outs:
            cs = [e for e in st.trace if e[0] == "c"]
            n += 1
            clean = any(st.decide(("in", ("m", ("obj", "this"), d), 0)) is False for d in dirty)
            ws = [e for e in cs if e[1] == "write" and len(e[2]) == 3]
            fin = [e for e in cs if e[1] == "Final"]
            cleared = any(st.env.get(("m", ("obj", "this"), d)) in (I(0), ("bool", False)) for d in dirty)
            done = bool(ws) and bool(fin) and ws[-1][2] == (fin[-1][2][0], I(0), I(32)) and \
                cs.index(fin[-1]) < cs.index(ws[-1])
            if kind == "r" and not clean and not done:
                bad.add("a path leaves a dirty stream without storing the recomputed 32-byte tag at offset 0")
            if done:
                why = mac_run_ok(P, st, cs[:cs.index(fin[-1])])
                if why:
                    bad.add(why)
            if cleared and not clean and not done:
                bad.add("the dirty mark is cleared although the tag was not stored")
        return bad, n
    outs, _ = R.engine(P, MacRule(True), fl)
    bad, n = flushed(fl, outs)
    R.ob("flush-stores-mac", fl.sn, not bad and n, fl.where, "; ".join(sorted(bad)))
    dt = [m for m in ms if base(m.n).startswith("~") and m.body]
    R.ob("flushes-on-destruction", HM, bool(dt), fl.where, "the destructor does not flush")
    for d in dt:
        outs, _ = R.engine(P, MacRule(), d)
        bad, n = flushed(d, outs)
        R.ob("flushes-on-destruction", d.sn, not bad and n, d.where, "; ".join(sorted(bad)))
    for nm in ("write", "resize"):
        for f in by.get(nm, []):
            bad = set()
            n = 0
            outs, _ = R.engine(P, MacRule(True), f)
            for kind, st, v in outs:
                touched = any((e[0] == "c" and e[1] in ("write", "resize")) or e[0] == "boom" for e in st.trace)
                if not touched:
                    if kind == "r" and nm == "write" and not empty_write(st, f):
                        bad.add("a path returns without writing")
                    continue
                n += 1
                if not any(st.decide(st.env.get(("m", ("obj", "this"), d), I(0))) is True for d in dirty):
                    bad.add("the stream is modified without being marked dirty%s" %
                            ("" if kind == "r" else " when the modification fails half way"))
            R.ob("modified-means-dirty", f.sn, not bad and n, f.where, "; ".join(sorted(bad)))
    for nm, pos, par in (("read", 1, 1), ("write", 1, 1), ("resize", 0, 0)):
        for f in by.get(nm, []):
            ok, n = True, 0
            for kind, st, v in R.engine(P, MacRule(), f)[0]:
                for e in st.trace:
                    if e[0] == "c" and e[1] == nm and len(e[2]) > pos:
                        n += 1
                        ok &= sub(e[2][pos], pval(f, par)) == I(32)
                        if nm != "resize":
                            ok &= e[2][0] == pval(f, 0) and e[2][2] == pval(f, 2)
            R.ob("shifted", f.sn, ok and n, f.where, "data is not exactly 32 bytes after the start of storage")


def empty_write(st, f):
    return st.decide(("eq0", pval(f, 2))) is True


def dirty_fields(P, R, fl):
    out = set()
    for kind, st, v in R.engine(P, MacRule(), fl)[0]:
        if kind == "r" and not any(e[0] == "c" and e[1] == "write" for e in st.trace):
            for e in st.trace:
                if e[0] == "if":
                    t, b = e[1], e[2]
                    while t[0] == "not":
                        t, b = t[1], not b
                    if t[0] == "in" and t[1][0] == "m" and t[1][1] == ("obj", "this") and not b:
                        out.add(t[1][2])
    return out
