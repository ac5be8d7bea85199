"""Where keys come from: separation of subkeys, random generation, the configuration's key derivation."""
import re
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .. import engine as E
from . import content as CT
from .crypto import pval, prim, Prim, mentions
from .position import is_id_ptr, field_type, at_entry

KEYT = "PODArray<unsigned char, 32>"
GETTER = re.compile(r"^(?:mutable_)?([a-z]+_key)$")


class Origins:
    """Whole-program, field-sensitive, flow-insensitive origins of key material: which configuration
    entries an expression may be computed from."""

    def __init__(s, P):
        s.P = P
        s.memo = {}
        s.fields = {}
        s.makes = {}
        for f in P.funcs.values():
            for i in f.d.get("inits", ()):
                if i.get("field") and i.get("e"):
                    s.fields.setdefault(i["field"], []).append((f, i["e"]))
            for n in f.nodes():
                if n.get("k") == "asg" and n["a"].get("k") == "mem":
                    s.fields.setdefault(n["a"]["f"], []).append((f, n["b"]))
                elif n.get("k") == "call" and base(n.get("n") or "") in ("make_shared", "make_unique", "emplace"):
                    s.makes.setdefault(made(n), []).append((f, n))

    def of(s, f, node):
        out = set()
        for n in slice_nodes(f, node):
            k = n.get("k")
            if k == "call" and n.get("n"):
                m = GETTER.match(base(n["n"]))
                if m and "Params" in (n.get("mc") or n["n"]):
                    out.add(m.group(1))
            elif k == "mem" and keyish(n.get("t") or field_type(s.P, n["f"])):
                out |= s.field(n["f"])
            elif k == "var":
                out |= s.var(f, n)
        return out

    def field(s, fld):
        if fld in s.memo:
            return s.memo[fld]
        s.memo[fld] = set()
        r = set()
        for f, e in s.fields.get(fld, ()):
            r |= s.of(f, e)
        s.memo[fld] = r
        return r

    def var(s, f, n):
        g = f
        while g is not None:
            for i, p in enumerate(g.d["p"]):
                if p["id"] == n["id"]:
                    return s.param(g, i)
            if n["id"] in var_defs(g):
                if g is f:
                    return set()      # already followed by the slice
                out = set()
                for e in var_defs(g)[n["id"]]:
                    out |= s.of(g, e)
                return out
            g = g.owner
        return set()

    def param(s, g, i):
        k = (g.key, i)
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = set()
        t = g.d["p"][i]["t"]
        out = set()
        if keyish(t) or t.endswith("*"):
            for c in callers(s.P, g):
                for n in c.nodes():
                    if n.get("f") == g.key and len(n.get("a", ())) > i:
                        out |= s.of(c, n["a"][i])
            if g.d.get("ctor"):
                for c, n in s.makes.get(g.scls, ()):
                    if len(n["a"]) == len(g.d["p"]):
                        out |= s.of(c, n["a"][i])
                for d in s.P.funcs.values():
                    for x in d.d.get("inits", ()):
                        e = x.get("e")
                        if e and e.get("f") == g.key and len(e.get("a", ())) > i:
                            out |= s.of(d, e["a"][i])
        s.memo[k] = out
        return out


def made(n):
    t = n.get("t") or ""
    m = re.search(r"(?:shared_ptr|unique_ptr)<([\w:() ]+)", t)
    return PR.strip_t(m.group(1)).strip() if m else ""


def keyish(t):
    return KEYT in t or "key_type" in t or "AES_SIV" in t or "ECB" in t or t in ("std::string",) or \
        "ThreadLocal" in t


def field_of_lambda(P, lam):
    """the field a lambda initialises in its owner's initialiser list"""
    o = lam.owner
    for i in (o.d.get("inits", ()) if o else ()):
        if i.get("e") and i.get("field"):
            for n in PR.walk(i["e"]):
                if n.get("k") == "lambda" and lam.key.endswith(n["f"].split("lambda@")[-1]):
                    return i["field"]
    return None


@rule("C08")
def separation(P, R):
    """(1) In every function deriving subkeys with HKDF: the whole 32-byte key and the whole file id go in, and
    every consumer (data cipher, metadata cipher, attribute cipher, padding) uses a 32-byte range inside the
    derived bytes, the data, metadata and attribute ranges disjoint.  (2) The block cipher of the lite format is
    keyed by what compute_session_key wrote for the whole 16-byte id, which is read from or first written to
    offset 0, 16 bytes.  (3) A field-sensitive whole-program origin analysis shows that content, name,
    attribute and padding ciphers are each keyed from exactly one configuration entry, pairwise different."""
    hk = [f for f in funcs_with_call(P, lambda n: base(n["n"]) == "hkdf") if not f.n.endswith("::hkdf")]
    R.need(hk, "uses of hkdf")
    for f in sorted(hk, key=lambda f: f.key):
        bad = set()
        n = 0
        for kind, st, v in prim(P, R, f, ("hkdf", "make_cryptstream_aes_gcm", "read_header",
                                          "warn_if_key_not_random")):
            if kind != "r":
                continue
            cs = [e for e in st.trace if e[0] == "c"]
            hs = [i for i, e in enumerate(cs) if e[1] == "hkdf"]
            if not hs:
                continue
            n += 1
            h = cs[hs[-1]][2]
            if h[1] != I(32):
                bad.add("not the whole 32-byte key enters the derivation")
            if h[5] != I(32) or not idish(P, h[4]):
                bad.add("not the whole file id enters the derivation")
            out, outlen = h[6], h[7]
            uses = {}

            def use(role, p, ln):
                d = sub(p, out)
                lo, hi = st.rng(d)
                if lo != hi:
                    bad.add("%s is not keyed from the derived bytes" % role)
                    return
                if st.rng(sub(add(d, ln), outlen))[1] > 0:
                    bad.add("%s is keyed with bytes beyond those derived" % role)
                uses.setdefault(role, set()).add((lo, st.const(ln)))
            for i, e in enumerate(cs):
                if i < hs[-1]:
                    continue
                if e[1] == "make_cryptstream_aes_gcm" and len(e[2]) >= 4:
                    for role, k in (("the data cipher", 2), ("the metadata cipher", 3)):
                        loc = e[6][k] if len(e[6]) > k else None
                        src = [c for c in cs[hs[-1]:i] if c[1] in ("memcpy", "memmove") and loc is not None and
                               inside(c[2][0], loc)]
                        if not src:
                            bad.add("%s is not keyed from the derived bytes" % role)
                            continue
                        if src[-1][2][2] != I(32):
                            bad.add("%s is keyed with fewer than 32 derived bytes" % role)
                        use(role, src[-1][2][1], src[-1][2][2])
                elif e[1] in ("SetKeyWithIV", "SetKey") and len(e[2]) >= 2:
                    use("the attribute cipher", e[2][0], e[2][1])
                    if e[2][1] != I(32):
                        bad.add("the attribute cipher is keyed with fewer than 32 derived bytes")
                elif e[1] in ("emplace", "AES_SIV") and len(e[2]) == 2:
                    use("the attribute name cipher", e[2][0], e[2][1])
                elif e[1] == "Integer" and len(e[2]) >= 2 and root_of(e[2][0]) == root_of(out):
                    use("the padding", e[2][0], e[2][1])
            for need in ("the data cipher", "the metadata cipher", "the attribute cipher"):
                if need not in uses and not any(need in b for b in bad):
                    bad.add("%s is not keyed here" % need)
            roles = [r for r in uses if r != "the attribute name cipher"]
            for a in roles:
                for b in roles:
                    if a < b:
                        for (o1, l1) in uses[a]:
                            for (o2, l2) in uses[b]:
                                if l1 is None or l2 is None or (o1 < o2 + l2 and o2 < o1 + l1):
                                    bad.add("%s and %s share key bytes" % (a, b))
        R.ob("subkeys", f.sn, not bad and n, f.where, "; ".join(sorted(bad)) or "no derivation reached")
    session_keys(P, R)
    origins(P, R)


def inside(p, loc):
    r = root_of(p)
    while r:
        if r == loc:
            return True
        if r[0] not in ("m", "el"):
            return False
        r = r[1]
    return False


def idish(P, p):
    """a 32-byte identifier object"""
    r = root_of(p)
    return bool(r) and r[0] == "m" and KEYT.split("<")[0] in r[2]


def session_keys(P, R):
    fs = [f for f in P.funcs.values() if f.d.get("ctor") and f.body and
          any(n.get("k") == "call" and base(n.get("n") or "") == "compute_session_key" for n in f.nodes())]
    R.need(fs, "constructors that compute a session key")
    for f in fs:
        bad = set()
        n = 0
        for kind, st, v in prim(P, R, f, ("generate_random",)):
            if kind != "r":
                continue
            cs = [e for e in st.trace if e[0] == "c"]
            ks = [i for i, e in enumerate(cs) if e[1] == "compute_session_key"]
            if not ks:
                bad.add("no session key on this path")
                continue
            n += 1
            k = cs[ks[-1]]
            idl, keyl = k[6][0], k[6][1]
            sets = [e for e in cs[ks[-1]:] if e[1] in ("SetKeyWithIV", "SetKey")]
            objs = {e[5] for e in sets}
            if len(objs) < 2:
                bad.add("encryption and decryption are not both keyed after the derivation")
            for e in sets:
                if not inside(e[2][0], keyl) or e[2][1] != I(16) or sub(e[2][0], ("addr", ("el", keyl))) != I(0):
                    bad.add("a cipher is not keyed with the whole session key")
            rd = [e for e in cs if e[1] == "read" and len(e[2]) == 3 and inside(e[2][0], idl)]
            if not rd or rd[0][2][1:] != (I(0), I(16)):
                bad.add("the id is not the 16 bytes at the start of storage")
            elif st.decide(("eq0", rd[0][3])) is True:
                g = [e for e in cs if e[1] == "generate_random" and inside(e[2][0], idl)]
                w = [e for e in cs if e[1] == "write" and len(e[2]) == 3 and inside(e[2][0], idl)]
                if not g or g[0][2][1] != I(16) or not w or w[0][2][1:] != (I(0), I(16)) or \
                        cs.index(g[0]) > cs.index(w[0]):
                    bad.add("a new file's id is not wholly random and stored at the start")
            elif st.rng(rd[0][3]) != (16, 16):
                bad.add("an id of fewer than 16 bytes is accepted")
        R.ob("session-key", f.sn, not bad and n, f.where, "; ".join(sorted(bad)))
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if base(f.n) == "compute_session_key" and f.body:
            ok, m = True, 0
            for kind, st, v in prim(P, R, f, ()):
                if kind != "r":
                    continue
                es = [e for e in st.trace if e[0] == "c" and e[1] == "ProcessData"]
                a = [("addr", ("el", ("p", p["n"]))) for p in f.d["p"]]
                m += 1
                whole = [arr_size(p["t"]) or 16 for p in f.d["p"]]
                ok &= len(es) == 1 and tuple(es[0][2][:2]) == (a[1], a[0]) and \
                    (es[0][2][2] == I(whole[0]) or es[0][2][2] in [("call", "size", l) for l in containers(es[0][2][2], f)])
            R.ob("session-key-of-whole-id", f.sn, ok and m, f.where,
                 "the session key is not the cipher of the whole 16-byte id")


def containers(t, f):
    """the parameter containers whose size a term is"""
    r = []
    if isinstance(t, tuple) and t and t[0] == "call" and t[1] == "size":
        for x in t[2:]:
            if any(("p", p["n"]) in deps(x) or show(x) == "p(%s)" % p["n"] or mentions(x, ("p", p["n"]))
                   for p in f.d["p"]):
                r.append(x)
    return r


def origins(P, R):
    O = Origins(P)
    roles = {}

    def sink(role, f, node, where):
        o = O.of(f, node)
        roles.setdefault(role, []).append((f, where, frozenset(o)))
    # lambdas that build per-thread ciphers, by the field they initialise
    users = {}
    for f in P.funcs.values():
        for n in f.nodes():
            if n.get("k") == "mem":
                users.setdefault(n["f"], set()).add(base(f.n))
    for f in P.funcs.values():
        if f.d.get("lambda") and f.owner is not None:
            fld = field_of_lambda(P, f)
            if not fld:
                continue
            for n in f.nodes():
                if n.get("k") == "call" and base(n.get("n") or "") == "make_unique" and n.get("a"):
                    t = n.get("t") or ""
                    u = users.get(fld, ())
                    cls = f.owner.scls
                    role = None
                    if "ECB" in t:
                        role = "content" if "compute_session_key" in u else "padding" if "compute_padding" in u else None
                    elif "AES_SIV" in t:
                        role = "name" if any("NameTranslator" in b for b in [cls] + list(
                            P.all_bases(cls))) else "xattr"
                    elif "Cryptor" in t:
                        role = "xattr"
                    if role:
                        sink(role, f, n["a"][0], f.where)
    R.need(roles, "ciphers keyed from the configuration")
    for role in ("content", "name", "xattr", "padding"):
        R.ob("keyed", role, role in roles, "", "no cipher found for this role")
    for role, ss in sorted(roles.items()):
        for f, where, o in ss:
            want = "%s_key" % role
            R.ob("one-origin", "%s in %s" % (role, f.owner.sn), o == {want}, where,
                 "keyed from configuration entries %s, expected only %s" % (sorted(o), want))
    # the tags of key types name the entry they were made from
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        for n in f.nodes():
            if n.get("k") == "ctor" and n.get("a") and KEYT in (n.get("t") or "") and not n.get("cp"):
                m = re.search(r"StrongType<.*, securefs::t(\w+?)MasterKey>", n.get("t") or "")
                m2 = re.search(r"StrongType<.*, securefs::tMasterKey>", n.get("t") or "")
                if not m and not m2:
                    continue
                if f.scls == "securefs::StrongType":
                    continue
                o = O.of(f, n["a"][0])
                want = (m.group(1).lower() if m else "master") + "_key"
                R.ob("tagged-key", "%s in %s" % (want, f.sn), o <= {want} and o, "%s:%d" % (f.short, n.get("l", 0)),
                     "a key typed for %s is made from %s" % (want, sorted(o)))


# ---------------------------------------------------------------------------------- randomness
WEAK = re.compile(r"^(rand|srand|random|srandom|rand_r|drand48|lrand48|mrand48|srand48|arc4random_stir)$")
WEAKC = re.compile(r"(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry|minstd|mt19937|"
                   r"LC_RNG|absl::\w*BitGen|NullRNG)")
GOOD = ("CryptoPP::AutoSeededRandomPool", "CryptoPP::AutoSeededX917RNG", "CryptoPP::NonblockingRng",
        "CryptoPP::BlockingRng", "CryptoPP::AutoSeededRandomPool::AutoSeededRandomPool")


@rule("C09")
def randomness(P, R):
    """The generator wrapper fills exactly the buffer and length it is given from an OS-seeded CryptoPP
    generator on every path; no function of the program calls a non-cryptographic generator; every call of the
    wrapper for a key, id, salt or name is followed path by path and must fill the whole object (fixed arrays
    whole, containers to their full size); creating a repository draws each master key, 32 bytes, separately."""
    g = P.one("securefs::generate_random")
    buf, size = pval(g, 0), pval(g, 1)
    n, bad = 0, set()
    for kind, st, v in prim(P, R, g, ()):
        if kind != "r":
            continue
        n += 1
        cs = [e for e in st.trace if e[0] == "c"]
        ok = [e for e in cs if e[1] in ("GenerateBlock", "IncorporateEntropy") and e[1] == "GenerateBlock"]
        if not ok or tuple(ok[-1][2][:2]) != (buf, size):
            if ok and covered(st, [(e[2][0], e[2][1]) for e in ok], buf, size):
                pass
            elif st.decide(("eq0", size)) is True:
                pass
            else:
                bad.add("the generator does not fill the whole buffer on every path")
    mc = {PR.strip_t(x.get("mc") or "") for x in g.nodes() if x.get("k") == "call" and
          base(x.get("n") or "") == "GenerateBlock"}
    ot = {PR.strip_t((x.get("o") or {}).get("t") or "") for x in g.nodes() if x.get("k") == "call" and
          base(x.get("n") or "") == "GenerateBlock"}
    for t in ot:
        if not any(t.startswith(x) for x in GOOD):
            bad.add("the generator object is a %s" % t)
    R.ob("wrapper", g.sn, not bad and n and ot, g.where, "; ".join(sorted(bad)))
    nf = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        nf += 1
        for x in f.nodes():
            nm = x.get("n") or ""
            if x.get("k") == "call" and x.get("ext") and WEAK.match(base(nm)) and "::" not in nm.replace("std::", ""):
                R.ob("no-weak-generator", f.sn, False, "%s:%d" % (f.short, x.get("l", 0)), "calls " + nm)
            if x.get("k") in ("call", "ctor") and WEAKC.search(PR.strip_t(x.get("mc") or "")):
                R.ob("no-weak-generator", f.sn, False, "%s:%d" % (f.short, x.get("l", 0)), "uses " + nm)
    R.ob("no-weak-generator", "whole program", True, "", "%d functions scanned" % nf)
    sites = funcs_with_call(P, lambda x: base(x["n"]) == "generate_random")
    encs = set(CT.sites(P, CT.ENC))
    R.need(sites, "calls of generate_random")
    for f in sorted(sites, key=lambda f: f.key):
        if f in encs:
            continue
        fl = judged_with_lift(P, f, lambda h: whole_fail(P, R, h), lambda h: CT.inl(P, R, h))
        R.ob("whole-object", f.sn, not fl, fl[0][0] if fl else f.where, "; ".join(x[1] for x in fl))
    creation(P, R)


def arr_size(t):
    m = re.search(r"(?:unsigned char|char|byte)\s*\[(\d+)\]", t or "")
    if m:
        return int(m.group(1))
    m = re.search(r"(?:std::array|PODArray)<unsigned char, (\d+)>", t or "")
    return int(m.group(1)) if m else None


def whole_fail(P, R, f):
    fails = []
    types = local_types(P)
    for kind, st, v in CT.runs(P, R, f):
        for e in st.trace:
            if e[0] != "rand":
                continue
            p, n, where = e[1], e[2], e[3]
            lo, hi = st.rng(n)
            r = root_of(p)
            if hi == 0 and r and r[0] != "el":
                fails.append((where, "nothing is generated"))
                continue
            if r and r[0] == "m" and "PODArray" in r[2]:
                m = re.search(r"PODArray<unsigned char, (\d+)>", r[2])
                if m and lo < int(m.group(1)):
                    fails.append((where, "only %s of %s bytes are generated" % (lo, m.group(1))))
            elif r and r[0] == "v":
                k = arr_size(types.get(r[2:4]))
                if k and (lo < k or sub(p, ("addr", r)) != I(0)):
                    fails.append((where, "only %s of %s bytes are generated" % (lo, k)))
            elif r and r[0] == "el":
                c = r[1]
                if c[0] == "v":
                    k = arr_size(types.get(c[2:4]))
                    if k:
                        if lo < k:
                            fails.append((where, "only %s of %s bytes are generated" % (lo, k)))
                        continue
                if sub(p, ("addr", r)) == I(0) and st.const(n) is not None and st.const(n) < 8:
                    fails.append((where, "only %s bytes are generated" % st.const(n)))
            # a value reduced after generation
    return sorted(set(fails))


def local_types(P):
    m = P.__dict__.get("_ltypes")
    if m is None:
        m = {}
        for f in P.funcs.values():
            for n in f.nodes():
                if n.get("s") == "decl":
                    for v in n["v"]:
                        m[(v["id"], v["n"])] = v.get("t") or ""
        P._ltypes = m
    return m


def creation(P, R):
    fs = [f for f in P.funcs.values() if base(f.n) == "execute" and
          any(x.get("k") == "call" and base(x.get("n") or "") == "encrypt" for x in f.nodes()) and
          any(x.get("k") == "call" and GETTER.match(base(x.get("n") or "")) for x in f.nodes())]
    R.need(fs, "the command that creates a repository")
    for f in fs:
        seen = {}
        bad = set()
        n = 0
        for kind, st, v in CT.runs(P, R, f):
            tr = st.trace
            if not any(e[0] == "enc" for e in tr):
                continue
            n += 1
            got = {}
            for e in tr:
                if e[0] == "rand":
                    m = re.search(r"(\w+_format_params)\.pb:(\w+_key)", show(e[1]))
                    if m:
                        got[m.group(2)] = st.const(e[2])
            for k, sz in got.items():
                if sz != 32:
                    bad.add("%s is %s random bytes, not 32" % (k, sz))
            if not got:
                bad.add("the configuration is stored without random master keys")
            elif "master_key" not in got and set(got) != {"name_key", "content_key", "xattr_key", "padding_key"}:
                bad.add("only %s are generated" % sorted(got))
        R.ob("master-keys", f.sn, not bad and n, f.where, "; ".join(sorted(bad)))


# ------------------------------------------------------------------- the configuration's wrapping key
KDF = {"argon2id_hash_raw": (3, 4, 5, 6, 7, 8), "argon2_hash": None, "argon2i_hash_raw": None,
       "argon2d_hash_raw": None}


def kdf_args(e):
    """(password, its length, salt, its length, output, its length, costs, return value) of a derivation"""
    b, a = e[1], e[2]
    if b == "argon2id_hash_raw" and len(a) >= 9:
        return a[3], a[4], a[5], a[6], a[7], a[8], a[:3], e[3]
    if b == "DeriveKey" and len(a) == 9 and a[2][0] != "int":          # scrypt
        return a[2], a[3], a[4], a[5], a[0], a[1], a[6:], None
    if b == "DeriveKey" and len(a) >= 8:          # PBKDF2
        return a[3], a[4], a[5], a[6], a[0], a[1], a[7:], None
    return None


def is_kdf(n):
    return n.get("k") == "call" and (re.match(r"argon2\w*_hash", base(n.get("n") or "")) or
                                     base(n.get("n") or "") == "DeriveKey" and "KDF" not in (n.get("n") or "")
                                     and len(n.get("a", ())) >= 8)


def whole_of(st, p, n, size=None):
    """is [p, n) a whole object: all of a container, or an array of a known size?"""
    r = root_of(p)
    if not r or sub(p, ("addr", r)) != I(0):
        return False
    if r[0] == "m":
        k = arr_size(r[2])
        return st.const(n) == k if k else False
    if r[0] == "el":
        c = r[1]
        if st.const(n) is not None:
            v = st.env.get(c)
            return v is not None and v[0] == "call" and v[1] == "sized" and v[2] == n
        return n[0] == "call" and n[1] in ("size", "length") and (
            mentions(n, c) or n[2:] == (st.env.get(c),) or n[2:] == (c,))
    return False


def flow_roots(cs, start, end, roots):
    """objects holding a copy of what was in one of `roots`"""
    s = set(roots)
    for e in cs[start:end]:
        if e[0] == "c" and e[1] in ("memcpy", "memmove", "move", "copy") and len(e[2]) >= 2:
            a, b = root_of(e[2][0]), root_of(e[2][1])
            if b in s and a is not None:
                s.add(a)
        elif e[0] == "held" and e[1] in s:
            s.add(e[2])
        elif e[0] == "s" and e[2] is not None:
            if e[2] in s or any(mentions(e[2], r) or mentions(e[2], owner(r)) for r in s if r):
                s.add(e[1])
    return s


def owner(r):
    return r[1] if r and r[0] in ("m", "el") else r


def rooted(r, s):
    return r in s or owner(r) in {owner(x) for x in s}


def minimal(P, names_a, also=lambda f: True):
    """functions from which a call of names_a is reached and that satisfy `also`, none of whose callees does"""
    reach = reach_names(P, names_a)
    c = {f.key for f in P.funcs.values() if (f.key in reach) and also(f)}
    out = []
    for k in sorted(c):
        f = P.funcs[k]
        if not any(g.key in c and g.key != k for n, ts in P.calls(f) for g in ts):
            out.append(f)
    return out


def key_stop(P):
    return ("parse_hex", "throw_runtime_error", "warn_if_key_not_random", "throwInvalidArgumentException")


@rule("C10")
def config_key(P, R):
    """(1) Every function that calls a password-based derivation (Argon2id; scrypt and PBKDF2 for old
    configurations) is followed path by path: whole password, whole salt, a 32-byte result, and the result only
    handed on where the return code is known to be zero.  (2) Every function taking an optional key file uses
    an HMAC of it on each path where it is given, and the HMAC loop reads the file from 0, at increasing
    offsets by the amounts read, feeds exactly what was read, and stops only at end of file.  (3) In the
    functions that both derive and encrypt or decrypt the configuration the cipher is keyed with the 32 derived
    bytes, the costs are the ones of the configuration, and the salt is the configuration's own."""
    kdfs = [f for f in P.funcs.values() if any(is_kdf(n) for n in f.nodes())]
    R.need(kdfs, "calls of a password-based derivation")
    for f in sorted(kdfs, key=lambda f: f.key):
        bad, n = set(), 0
        for kind, st, v in prim(P, R, f, key_stop(P) + ("hmac_sha256",)):
            if kind != "r":
                continue
            ks = [e for e in st.trace if e[0] == "c" and kdf_args(e)]
            if not ks:
                bad.add("a path returns a key without deriving one")
                continue
            for e in ks:
                n += 1
                pw, pwl, salt, sl, out, ol, cost, rc = kdf_args(e)
                r = root_of(pw)
                if not r or r[0] != "el" or not whole_of(st, pw, pwl):
                    bad.add("the derivation does not take the whole password")
                if not whole_of(st, salt, sl):
                    bad.add("the derivation does not take the whole salt")
                if ol != I(32):
                    bad.add("fewer than 32 bytes are derived")
                if rc is not None and st.decide(("eq0", rc)) is not True:
                    bad.add("the derived key is used although the derivation may have failed")
                if rc is not None:
                    for c, nm in zip(cost, ("time_cost|iterations", "memory_cost|m_cost", "parallelism|argon2_p")):
                        if not re.search(nm, show(c)):
                            bad.add("the %s is not the configured one" % nm.split("|")[0])
                    if len({show(c) for c in cost}) < 3:
                        bad.add("the cost parameters are mixed up")
                if sub(out, ("addr", root_of(out))) != I(0):
                    bad.add("the output is not the start of the key")
                if salt == pw or root_of(out) in (root_of(salt), root_of(pw)):
                    bad.add("inputs and output of the derivation are mixed up")
        R.ob("derivation", f.sn, not bad and n, f.where, "; ".join(sorted(bad)) or "no derivation on any path")
        for x in f.nodes():
            if is_kdf(x) and base(x["n"]).startswith("argon2") and base(x["n"]) != "argon2id_hash_raw":
                R.ob("argon2id", f.sn, False, "%s:%d" % (f.short, x.get("l", 0)), "derives with " + x["n"])
    key_file(P, R)
    wrapping(P, R)


HMACF = ("Final", "TruncatedFinal")


def hmac_streams(P):
    return [f for f in P.funcs.values() if f.body and
            any(n.get("k") == "call" and base(n.get("n") or "") in HMACF for n in f.nodes()) and
            any(n.get("k") == "call" and base(n.get("n") or "") == "read" and
                "StreamBase" in (n.get("n") or "") for n in f.nodes())]


def key_file(P, R):
    kfs = [f for f in P.funcs.values() if any(is_kdf(n) for n in f.nodes())]
    kn = tuple({base(n["n"]) for f in kfs for n in f.nodes() if is_kdf(n)})
    hs = hmac_streams(P)
    R.need(hs, "an HMAC over a stream")

    def takes_stream(f):
        return any("StreamBase" in p["t"] and p["t"].rstrip().endswith("*") for p in f.d["p"])
    fs = minimal(P, kn, takes_stream)
    R.need(fs, "derivations that take an optional key file")
    for f in fs:
        i = [i for i, p in enumerate(f.d["p"]) if "StreamBase" in p["t"]][0]
        ks = pval(f, i)
        bad, seen = set(), 0
        hn = {base(h.n) for h in hs if h is not f}
        kfn = {base(k.n) for k in kfs if k is not f}
        for kind, st, v in prim(P, R, f, key_stop(P) + tuple(hn) + tuple(kfn)):
            if kind != "r" or st.decide(("eq0", ks)) is True:
                continue
            seen += 1
            T, pend, out = set(), [], {}

            def hit(x):
                r = root_of(x) if x else None
                return bool(x) and (any(mentions(x, t) for t in T) or r is not None and rooted(r, T))
            nk = 0
            for e in st.trace:
                if e[0] == "s":
                    if e[2] is not None and hit(e[2]):
                        T.add(e[1])
                    continue
                if e[0] != "c":
                    continue
                k = kdf_args(e)
                if e[1] in hn or e[1] in HMACF:
                    if e[1] in hn and not any(mentions(x, ks) or mentions(x, ("d", ks)) for x in e[2] if x):
                        bad.add("the HMAC is not over the key file")
                    for x in list(e[2]) + [e[5]]:
                        for q in list(pend):
                            if x and (q[3] is not None and mentions(x, q[3]) or
                                      kdf_args(q) and root_of(x) == root_of(kdf_args(q)[4])):
                                pend.remove(q)
                    T.add(e[3] if e[1] in hn else root_of(e[2][0]))
                elif k or e[1] in kfn:
                    nk += 1
                    if not any(hit(x) for x in ((k[2],) if k else e[2])):
                        pend.append(e)
                elif e[1] in ("memcpy", "memmove", "copy") and len(e[2]) > 1 and hit(e[2][1]):
                    T.add(root_of(e[2][0]))
                elif e[1] == "operator=" and any(hit(x) for x in e[2]) and e[5]:
                    T.add(e[5])
            if pend or not nk:
                bad.add("a key is derived without the content of the key file that was given")
        R.ob("key-file", f.sn, not bad and seen, f.where, "; ".join(sorted(bad)) or "no path with a key file")
    for f in hs:
        hmac_stream(P, R, f)


def hmac_stream(P, R, f):
    from .position import at_entry, loopvars
    bad = set()
    n = 0
    r = Prim(key_stop(P))
    outs, eng = R.engine(P, r, f)
    for kind, st, v in outs:
        if kind == "t":
            continue
        tr = [e for e in st.trace if e[0] == "c"]
        rds = [e for e in tr if e[1] == "read" and len(e[2]) == 3]
        fin = [e for e in tr if e[1] in HMACF]
        if not rds or not fin:
            bad.add("a path finishes without reading the stream")
            continue
        n += 1
        if st.decide(("eq0", rds[-1][3])) is not True and st.rng(rds[-1][3])[1] > 0:
            bad.add("stops before the end of the stream")
        if len(fin[-1][2]) > 1 and fin[-1][2][1] != I(32):
            bad.add("fewer than 32 bytes of the HMAC are kept")
    # one iteration: what was read is what is fed, and the offset advances by what was read
    upd = iteration_events(P, R, f)
    for off, fed, nxt in upd:
        if not fed:
            bad.add("what was read is not what is fed to the HMAC")
        if at_entry(off) != I(0):
            bad.add("does not start at the beginning of the stream")
        if nxt is not None and nxt is not True:
            bad.add("the next read does not continue where the last one ended")
    R.ob("key-file-hmac", f.sn, not bad and n and upd, f.where, "; ".join(sorted(bad)) or "no loop found")


class Iter(Prim):
    """keeps the events of every loop iteration"""
    loop_iters = 3

    def __init__(s, stop):
        Prim.__init__(s, stop)
        s.iters = []
        s.max_states = 300

    def on_iter(s, eng, st, *a):
        s.iters.append(st.copy())


def iteration_events(P, R, f):
    rule = Iter(key_stop(P))
    R.engine(P, rule, f)
    out = []
    for st in rule.iters:
        tr = [e for e in st.trace if e[0] == "c"]
        rds = [i for i, e in enumerate(tr) if e[1] == "read" and len(e[2]) == 3]
        if not rds:
            continue
        for j, i in enumerate(rds):
            end = rds[j + 1] if j + 1 < len(rds) else len(tr)
            rd = tr[i]
            ups = [e for e in tr[i:end] if e[1] == "Update" and e[2][0] == rd[2][0] and e[2][1] == rd[3]]
            nxt = None
            if j + 1 < len(rds):
                nxt = at_entry(tr[rds[1]][2][1]) == add(at_entry(rd[2][1]), rd[3]) or \
                    show(at_entry(tr[rds[1]][2][1]))
            out.append((rd[2][1], ups, nxt))
            break
    return out


def wrapping(P, R):
    kn = tuple({base(n["n"]) for f in P.funcs.values() for n in f.nodes()
                if is_kdf(n) and base(n["n"]).startswith("argon2")})
    cr = {f.key for f in P.funcs.values() if any(
        n.get("k") == "call" and base(n.get("n") or "") in ("EncryptAndAuthenticate", "DecryptAndVerify")
        for n in f.nodes())}
    cr = {k for k in cr if not P.funcs[k].d.get("lambda")}
    cr |= {g.key for g in P.funcs.values() if "Params" in (g.d.get("ret") or g.key) and
           any(t.key in cr for n, ts in P.calls(g) for t in ts)}
    fs = minimal(P, kn, lambda f: f.key in cr)
    R.need(fs, "functions that encrypt or decrypt the configuration")
    for f in fs:
        bad, n = set(), 0
        for kind, st, v in prim(P, R, f, key_stop(P)):
            tr = list(st.trace)
            ci = [i for i, e in enumerate(tr) if e[0] == "c" and e[1] in ("EncryptAndAuthenticate", "DecryptAndVerify")]
            if not ci:
                continue
            n += 1
            kd = [i for i, e in enumerate(tr[:ci[-1]]) if e[0] == "c" and kdf_args(e)]
            if not kd:
                bad.add("the configuration is encrypted without deriving a key from the password")
                continue
            k = kdf_args(tr[kd[-1]])
            sets = [i for i, e in enumerate(tr[:ci[-1]]) if e[0] == "c" and e[1] in ("SetKeyWithIV", "SetKey")]
            s = flow_roots(tr, kd[-1], ci[-1], {root_of(k[4])})
            if not sets or tr[sets[-1]][2][1] != I(32) or not rooted(root_of(tr[sets[-1]][2][0]), s):
                bad.add("the cipher is not keyed with the 32 derived bytes")
            # the salt is the configuration's
            salts = {c for e in tr[:kd[-1]] if e[0] == "c" for a in e[2] if a for c in subterms(a)
                     if isinstance(c, tuple) and len(c) == 3 and c[0] == "m" and c[2] == "pb:salt"}
            if not salts:
                bad.add("the salt of the configuration does not enter the derivation")
            root = root_of(k[2])
            src = {root}
            for e in reversed(tr[:kd[-1]]):
                if e[0] == "c" and e[1] in ("memcpy", "memmove") and root_of(e[2][0]) in src:
                    src.add(root_of(e[2][1]))
                elif e[0] == "c" and e[1] in HMACF and root_of(e[2][0]) in src:
                    src.add("hmac")
            if not any(isinstance(x, tuple) and mentions(x, c) for x in src for c in salts) and "hmac" not in src:
                bad.add("the salt of the derivation is neither the configuration's salt nor an HMAC")
            if "hmac" in src:
                hk = [e for e in tr[:kd[-1]] if e[0] == "c" and e[1] == "HMAC" and len(e[2]) >= 2]
                if not hk:
                    bad.add("the HMAC of the key file is not keyed")
        R.ob("wrapping-key", f.sn, not bad and n, f.where, "; ".join(sorted(bad)))
