"""Settings: stored parameters and mount options reach the component they are meant for."""
from ..core import rule
from ..engine import *
from ..util import *
from ..flows import flows, Q, MSG
from .. import prog as PR
from .common import Ev, events
from .ops import interface, ops_classes
from .crypto import mentions


def sets(o):
    return {x for x in o if x[0] == "set"}


def named(o):
    return ", ".join(sorted(("not " if x[2] else "") + x[1] if x[0] == "set" else
                            str(x[1]) if x[0] == "=" else "something computed" for x in o)) or "nothing"


AEAD = ("EncryptAndAuthenticate", "DecryptAndVerify")
WANT = lambda n, neg=False: {("set", n, neg)}


def where(f, n):
    return "%s:%d" % (f.short, n.get("l", 0))


@rule("F04")
def settings_reach_their_component(P, R):
    """An exact, field-sensitive, whole-program copy analysis computes for every parameter, field and expression
    which stored parameter or mount option it is a copy of.  Required: no field, and no parameter of a function
    taking several settings, mixes two of them; the vector length of every cipher that takes a setting is iv_size;
    division of positions in block streams is by block_size; padding is reduced modulo max_padding_size; Argon2
    takes each cost from its own field; the owner shown is the override of that kind; attribute operations are
    offered exactly when enable_xattr; sensitive logging is switched on only on paths where the option was found
    true; name encryption is left out only where plain_text_names was found true; names are folded and normalised
    exactly on the paths where that flag was found true; directory comparison is chosen by both flags."""
    F = flows(P)
    # --- no mixing
    n = 0
    for fld in sorted(F.fields):
        o = sets(F.field(fld))
        if o:
            n += 1
            R.ob("field-one-setting", fld, len(o) == 1, "", "the field takes %s" % named(o))
    R.need(n, "fields holding settings")
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        ps = [(i, p, sets(F.param(f, i))) for i, p in enumerate(f.d["p"]) if settable(p["t"])]
        ps = [x for x in ps if x[2]]
        if len(ps) > 1:
            for i, p, o in ps:
                R.ob("parameter-one-setting", "%s parameter %d of %s" % (p["n"], i + 1, f.sn), len(o) == 1, f.where,
                     "the parameter takes %s" % named(o))
    # --- vector length
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        for x in f.nodes():
            if x.get("k") == "call" and base(x.get("n") or "") in AEAD and len(x.get("a", ())) > 5:
                o = F.of(f, x["a"][4])
                cls = f.scls
                has = any(sets(F.field(k)) == WANT("iv_size") for k in F.fields if k.rsplit("::", 1)[0] == cls)
                if sets(o) or has:
                    n += 1
                    R.ob("vector-length", f.sn, o == WANT("iv_size"), where(f, x),
                         "the length of the initialisation vector is %s, not iv_size" % named(o))
    R.need(n, "vector lengths")
    # --- block size
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not any(c.endswith("BlockBasedStream") for c in [f.scls or ""] + list(P.all_bases(f.scls or ""))):
            continue
        for x in f.nodes():
            rhs = None
            if x.get("k") == "bin" and x.get("op") in ("/", "%"):
                rhs = x["b"]
            elif x.get("k") == "call" and base(x.get("n") or "") == "divmod" and len(x.get("a", ())) == 2:
                rhs = x["a"][1]
            if rhs is None:
                continue
            o = F.settings(f, rhs)
            if o:
                n += 1
                R.ob("position-divided-by-block", f.sn, ("set", "block_size", False) in o and
                     o <= WANT("block_size") | WANT("iv_size"), where(f, x),
                     "positions are divided by %s" % named(o))
    R.need(n, "divisions by the block size")
    # --- padding
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        for x in f.nodes():
            if x.get("k") == "call" and base(x.get("n") or "") == "Modulo" and x.get("a"):
                n += 1
                o = F.settings(f, x["a"][0])
                R.ob("padding-modulus", f.sn, o == WANT("max_padding_size"), where(f, x),
                     "padding is reduced modulo something made of %s" % named(o))
    R.need(n, "padding moduli")
    argon(P, R, F)
    owners(P, R, F)
    xattr_queries(P, R, F)
    sensitive(P, R, F)
    names(P, R, F)
    comparison(P, R, F)


def settable(t):
    from ..flows import scalar
    return scalar(t.replace("&", "").replace("const ", "").strip())


KDF = {"argon2id_hash_raw": ((0, 1, 2), (("time_cost", "memory_cost", "parallelism"),
                                        ("iterations", "argon2_m_cost", "argon2_p"))),
       "Scrypt::DeriveKey": ((6, 7, 8), (("iterations", "scrypt_r", "scrypt_p"),)),
       "PKCS5_PBKDF2_HMAC::DeriveKey": ((7,), (("iterations",),))}


def argon(P, R, F):
    """every password hash takes its costs from the fields that store them"""
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        for x in f.nodes():
            if x.get("k") != "call" or not x.get("n"):
                continue
            nm = PR.strip_t(x["n"])
            for k, (pos, alts) in KDF.items():
                if not (nm == k or nm.endswith("::" + k)) or len(x.get("a", ())) <= max(pos):
                    continue
                o = [F.of(f, x["a"][i]) for i in pos]
                if not any(sets(y) for y in o):
                    continue
                n += 1
                alt = max(alts, key=lambda al: sum(y == WANT(w) for y, w in zip(o, al)))
                for y, w in zip(o, alt):
                    R.ob("kdf-cost", "%s of %s" % (w, f.sn), y == WANT(w), where(f, x), "%s is taken from %s" % (w, named(y)))
    R.need(n, "key derivations with stored costs")


def owners(P, R, F):
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        for x in f.nodes():
            if x.get("k") == "asg" and x["a"].get("k") == "mem" and base(x["a"]["f"]) in ("st_uid", "st_gid"):
                o = F.settings(f, x["b"])
                if o:
                    n += 1
                    R.ob("owner", "%s in %s" % (base(x["a"]["f"]), f.sn), o == WANT(base(x["a"]["f"])[3:] + "_override"),
                         where(f, x), "%s is set from %s" % (base(x["a"]["f"]), named(o)))
    R.need(n, "owner overrides")


def xattr_queries(P, R, F):
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.scls in ops_classes(P) and base(f.n).startswith("has_") and base(f.n).endswith("xattr"):
            o = F.returns(f)
            if sets(o):
                n += 1
                R.ob("attributes-offered", f.sn, o == WANT("enable_xattr"), f.where,
                     "extended attributes are offered depending on %s" % named(o))
    R.need(n, "queries for attribute operations")


# ------------------------------------------------------------------------------------ symbolic parts
def getter_term(n):
    return ("call", "setting", ("str", n))


class Set(Ev):
    """option and parameter getters are pure values"""

    def on_call(s, eng, st, ev):
        mc = ev.node.get("mc") or ""
        if MSG.search(mc) and not ev.args and not ev.base.startswith("mutable_"):
            if settable(ev.node.get("t") or ""):
                return [(st, getter_term(ev.base))]
        return None


def knows(st, name):
    """True/False/None: the option's value on this path"""
    v = st.decide(("eq0", getter_term(name)))
    return None if v is None else not v


def class_returning_true(P, method):
    """classes whose override of a query can return true by itself"""
    out = set()
    for f in P.funcs.values():
        if base(f.n) == method and f.scls:
            F = flows(P)
            if ("=", 1) in F.returns(f) or ("=", True) in F.returns(f):
                out.add(f.scls)
    return out


def makes(P, classes):
    def pred(ev):
        if ev.base in ("make_shared", "make_unique"):
            from ..flows import made
            return made(ev.node) in classes
        return ev.node.get("k") == "ctor" and ev.node.get("cls") in classes and not ev.node.get("cp")
    return pred


def sensitive(P, R, F):
    cls = class_returning_true(P, "allow_sensitive_logging")
    R.need(cls, "classes that allow sensitive logging")
    pred = makes(P, cls)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.scls in cls or not any(pred(E_(x)) for x in f.nodes() if x.get("k") in ("call", "ctor")):
            continue
        r = Set([], pred=pred, follow=lambda eng, g, ev: False)
        r.key = lambda st: knows(st, "allow_sensitive_logging")
        outs, eng = R.engine(P, r, f)
        bad = set()
        for k, st, v in outs:
            made_ = any(e[0] == "c" for e in st.trace)
            kn = knows(st, "allow_sensitive_logging")
            n += 1
            if made_ and kn is not True:
                bad.add("plaintext is allowed into the logs on a path where allow_sensitive_logging is not known true")
        R.ob("sensitive-logging", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "paths that decide on sensitive logging")


class E_:
    """an event-like view of a call node"""

    def __init__(s, n):
        s.node = n
        s.base = base(n.get("n") or "")


def field_by_setting(P, F, name):
    return {k for k in F.fields if sets(F.field(k)) == WANT(name) and F.field(k) == WANT(name)}


def flag_value(P, F, st, name):
    """what the path knows about a boolean setting, through any field or parameter that is a copy of it"""
    for sh, (lo, hi) in st.iv.items():
        if len(sh) == 1 and sh[0][1] == 1 and (lo == hi == 0 or (lo or 0) > 0):
            t = sh[0][0]
            o = None
            if t[0] == "in" and t[1][0] == "m":
                o = F.field(t[1][2])
            elif t[0] == "in" and t[1][0] == "v":
                o = set()
                for f in P.funcs.values():
                    for i, p in enumerate(f.d["p"]):
                        if p["id"] == t[1][2] and p["n"] == t[1][3]:
                            o |= F.param(f, i)
            elif t == getter_term(name):
                o = WANT(name)
            if o == WANT(name):
                return not (lo == hi == 0)
            if o == WANT(name, True):
                return lo == hi == 0
    return None


def names(P, R, F):
    # leaving out name encryption
    cls = class_returning_true(P, "is_no_op")
    R.need(cls, "name translators that do nothing")
    pred = makes(P, cls)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.scls in cls or not any(pred(E_(x)) for x in f.nodes() if x.get("k") in ("call", "ctor")):
            continue
        r = Set([], pred=pred, follow=lambda eng, g, ev: False)
        r.key = lambda st: flag_value(P, F, st, "plain_text_names")
        outs, eng = R.engine(P, r, f)
        bad = set()
        for k, st, v in outs:
            n += 1
            plain = flag_value(P, F, st, "plain_text_names")
            if any(e[0] == "c" for e in st.trace):
                if plain is not True:
                    bad.add("names are left unencrypted on a path where plain_text_names is not known true")
            elif k == "r" and plain is not False:
                bad.add("names are encrypted although plain_text_names may be set")
        R.ob("plain-names", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "choices of the name translator")
    # folding and normalising
    n = 0
    WHAT = (("case_fold", ("to_casefold_utf8",)), ("unicode_normalize_nfc", ("to_nfc_utf8",)))
    calls = [c for _, cs in WHAT for c in cs]
    cands = minimal_callers(P, calls)
    for f in cands:
        for name, cs in WHAT:
            if not reaches(P, f, cs):
                continue
            r = Ev(calls, pred=lambda ev: ev.node.get("vt") and ev.base == base(f.n), throws=lambda ev: ())
            r.key = lambda st: flag_value(P, F, st, name)
            outs, eng = R.engine(P, r, f)
            bad = set()
            for k, st, v in outs:
                if k != "r":
                    continue
                n += 1
                did = any(e[0] == "c" and e[1] in cs for e in st.trace)
                kn = flag_value(P, F, st, name)
                last = None
                for e in st.trace:
                    if e[0] == "c":
                        if last is not None and not any(mentions(a, last) for a in e[2]):
                            bad.add("the changed name is not what %s is given" % e[1])
                        last = e[3] if e[1] in calls else last
                if did and kn is not True:
                    bad.add("names are changed by %s on a path where %s is not known true" % (cs[0], name))
                if not did and kn is not False:
                    bad.add("%s is not applied although %s may be set" % (cs[0], name))
            R.ob("name-form", "%s in %s" % (name, f.sn), not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "functions that fold or normalise names")
    # whether the normalising translator is used at all
    ncls = {f.scls for f in cands if f.scls}
    pred = makes(P, ncls)
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if f.scls in ncls or not any(pred(E_(x)) for x in f.nodes() if x.get("k") in ("call", "ctor")):
            continue
        r = Set([], pred=pred, follow=lambda eng, g, ev: False)
        r.key = lambda st: tuple(flag_value(P, F, st, x) for x in ("plain_text_names", "case_fold",
                                                                  "unicode_normalize_nfc"))
        outs, eng = R.engine(P, r, f)
        bad = set()
        for k, st, v in outs:
            if k != "r":
                continue
            n += 1
            p, c, u = (flag_value(P, F, st, x) for x in ("plain_text_names", "case_fold", "unicode_normalize_nfc"))
            if not any(e[0] == "c" for e in st.trace) and p is not True and (c is not False or u is not False):
                bad.add("names are used as given although case_fold or unicode_normalize_nfc may be set")
        R.ob("normaliser-used", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "construction of the normalising translator")


def reaches(P, f, names_):
    return f.key in static_reach(P, tuple(names_))


def minimal_callers(P, names_):
    """methods that reach one of these calls, lowest ones of a class with such a field first"""
    fs = [f for f in P.funcs.values() if f.key in static_reach(P, tuple(names_)) and f.d.get("virt") and f.scls]
    return sorted(fs, key=lambda f: f.key)


def comparison(P, R, F):
    """the comparison function a path settles on must fold case iff case_insensitive, normalise iff agnostic"""
    cands = []
    for f in P.funcs.values():
        if "DirNameComparison" in (f.d.get("ret") or ""):
            cands.append(f)
    n = 0
    for f in sorted(cands, key=lambda f: f.key):
        r = Set([], follow=lambda eng, g, ev: simple(g) and "Params" not in (g.scls or ""))
        r.key = lambda st: (knows(st, "case_insensitive"), knows(st, "unicode_normalization_agnostic"))
        outs, eng = R.engine(P, r, f)
        bad = set()
        for k, st, v in outs:
            if k != "r":
                continue
            fn = [t[1] for t in subterms(v) if isinstance(t, tuple) and t and t[0] == "fn"]
            if not fn:
                fn = [t[1] for l in subterms(v) if isinstance(l, tuple) and l and l[0] == "fn" for t in (l,)]
            ci, un = knows(st, "case_insensitive"), knows(st, "unicode_normalization_agnostic")
            if len(set(fn)) != 1:
                bad.add("the comparison chosen is not one function")
                continue
            n += 1
            g = P.funcs.get(fn[0])
            folds = g is not None and reaches(P, g, FOLDING)
            norms = g is not None and reaches(P, g, NORMING)
            if ci is not folds:
                bad.add("%s %s case where case_insensitive is %s" % (
                    g.sn if g else fn[0], "ignores" if folds else "distinguishes", ci))
            if un is not norms:
                bad.add("%s %s where unicode_normalization_agnostic is %s" % (
                    g.sn if g else fn[0], "normalises" if norms else "does not normalise", un))
        R.ob("comparison", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "choices of the directory comparison")


FOLDING = ("compare_utf8", "to_casefold_utf8", "strcasecmp", "_stricmp")
NORMING = ("to_nfd_utf8", "to_nfc_utf8", "to_nfkd_utf8", "to_nfkc_utf8")


# ------------------------------------------------------------------------------- the command line
EXACT = {"disable_verification": "insecure", "allow_sensitive_logging": "allow-sensitive-logging",
         "max_idle_seconds": "max-idle-seconds", "plain_text_names": "plain-text-names", "iv_size": "iv-size",
         "block_size": "block-size", "max_padding_size": "max-padding", "long_name_threshold": "long-name-threshold",
         "time_cost": "argon2-t", "memory_cost": "argon2-m", "parallelism": "argon2-p",
         "long_name_suffix": "long-name-suffix", "data_dir": "dir"}
UNLESS = {"uid_override": ("uid-override", -1), "gid_override": ("gid-override", -1)}
OFF = {"enable_xattr": "noxattr"}
WORDS = {"case_fold": ("normalization", ("casefold", "casefold+nfc")),
         "unicode_normalize_nfc": ("normalization", ("nfc", "casefold+nfc")),
         "case_insensitive": ("case", ("insensitive",)), "unicode_normalization_agnostic": ("uninorm", ("insensitive",))}


def arg_flags(P):
    """command line argument fields and the option each one is"""
    out = {}
    for f in P.funcs.values():
        for i in f.d.get("inits", ()):
            e = i.get("e")
            if not e or not i.get("field"):
                continue
            ctor = next((x for x in PR.walk(e) if x.get("k") == "ctor" and (x.get("cls") or "").startswith("TCLAP::")
                         and (x.get("cls") or "").endswith("Arg") and not x.get("cp")), None)
            if ctor is None:
                continue
            ss = [[y["v"] for y in PR.walk(a) if y.get("k") == "str"] for a in ctor["a"]]
            ss = [x[0] for x in ss if x]
            out[i["field"]] = ss[0] if "Unlabeled" in ctor["cls"] else ss[1] if len(ss) > 1 else ""
    return out


def arg(name):
    return ("call", "arg", ("flag", name))


def streq(name, lit):
    return ("call", "argis", ("flag", name), ("str", lit))


def litof(eng, st, a):
    """the string literal a term is, looking through constants"""
    for t in (a, eng.load(st, a[1]) if isinstance(a, tuple) and a and a[0] == "addr" else None):
        for x in subterms(t) if t is not None else ():
            if not (isinstance(x, tuple) and len(x) >= 2):
                continue
            if x[0] == "str":
                return x[1]
            if x[0] == "in" and x[1][0] == "g" and x[1][1] in eng.P.globals:
                g = eng.P.globals[x[1][1]]
                ss = [y["v"] for y in PR.walk(g.get("init") or {}) if y.get("k") == "str"]
                if "const" in g.get("t", "") and len(ss) == 1:
                    return ss[0]
    return None


def argof(eng, st, a):
    for t in (a, eng.load(st, a[1]) if isinstance(a, tuple) and a and a[0] == "addr" else None):
        for x in subterms(t) if t is not None else ():
            if isinstance(x, tuple) and len(x) == 3 and x[:2] == ("call", "arg"):
                return x[2][1]
    return None


class Cli(Ev):
    """runs code that turns the command line into settings: an option's value is one symbol, its comparisons are facts"""

    def __init__(s, flags, bases=(), pred=None, keys=(), reach=("getValue",), home=()):
        Ev.__init__(s, bases, pred=pred, throws=lambda ev: ())
        s.flags = flags
        s.key = lambda st: tuple(st.decide(k) for k in keys)
        s.reach = reach
        s.home = {k.where.rsplit(":", 1)[0] for k in home}

    def inline(s, eng, f, ev):
        if base(f.n) in LOGGY or base(f.n) in s.bases:
            return False
        return f.key in static_reach(eng.P, s.reach) or simple(f, 40) and (
            f.where.rsplit(":", 1)[0] in s.home)

    def field(s, ev):
        o = ev.obj
        while isinstance(o, tuple) and o:
            if o[0] in ("m", "fld") and o[2] in s.flags:
                return s.flags[o[2]]
            o = o[1] if o[0] in ("m", "d", "addr", "in") and len(o) > 1 else None
        for n in PR.walk(ev.node.get("o") or {}):
            if n.get("k") == "mem" and n["f"] in s.flags:
                return s.flags[n["f"]]
        return None

    def on_call(s, eng, st, ev):
        mc = ev.node.get("mc") or ""
        if mc.startswith("TCLAP::"):
            x = s.field(ev)
            if x and ev.base in ("getValue", "operator*"):
                return [(st, arg(x))]
            if x and ev.base == "isSet":
                return [(st, ("call", "argset", ("flag", x)))]
            return None
        if ev.base == "empty" and ev.node.get("ext"):
            x = argof(eng, st, eng.load(st, ev.obj)) if ev.obj else None
            if x:
                return [(st, streq(x, ""))]
            x = s.field(ev)
            return [(st, streq(x, ""))] if x else None
        if ev.base in ("operator==", "operator!=", "EqualsIgnoreCase", "compare") and (
                len(ev.args) + (ev.obj is not None and len(ev.args) < 2)) >= 2:
            args = list(ev.args) if len(ev.args) >= 2 else [("addr", ev.obj)] + list(ev.args)
            name = next((x for x in (argof(eng, st, x) for x in args[:2]) if x), None)
            lit = next((x for x in (litof(eng, st, x) for x in args[:2]) if x is not None), None)
            if name and lit is not None:
                t = streq(name, lit)
                return [(st, ("eq0", t) if ev.base in ("operator!=", "compare") else t)]
            if name and name == argof(eng, st, args[0]) and ev.base != "EqualsIgnoreCase" or \
                    name and name == argof(eng, st, args[1]) and ev.base != "EqualsIgnoreCase":
                t = ("call", "argsame", ("flag", name))
                return [(st, ("eq0", t) if ev.base in ("operator!=", "compare") else t)]
        return None


def alltrue(st, name, lits):
    """whether an option is one of these words: True, False or None"""
    d = [st.decide(("eq0", streq(name, l))) for l in lits]
    if any(x is False for x in d):
        return True
    if all(x is True for x in d):
        return False
    low_ = [l.lower() for l in lits]
    for l in sum(([l for l in ls] for n, ls in list(ONLY.values()) + list(WORDS.values()) if n == name), []):
        if l.lower() not in low_ and st.decide(("eq0", streq(name, l))) is False:
            return False
    return None


def is_true(st, name):
    d = st.decide(("eq0", arg(name)))
    return None if d is None else not d


LITE = ("format", ("lite", "4"))
FULL = ("format", ("full", "2"))
ONLY = {"long_name_threshold": LITE, "long_name_suffix": LITE, "case_insensitive": FULL,
        "unicode_normalization_agnostic": FULL}


def setting(P, f, name, st, flags):
    """what is wrong with the final value a path gives to a setting"""
    vals = [e[2][0] for e in st.trace if e[0] == "c" and e[2]]
    val = vals[-1] if vals else None
    if name in ONLY and alltrue(st, *ONLY[name]) is False:
        return "%s is set for the wrong format" % name if val is not None else None
    if name in EXACT:
        a = arg(EXACT[name])
        if val is None:
            z = st.decide(("eq0", a)) is True or st.true(("ge0", scale(a, -1))) or \
                st.decide(("eq0", ("call", "argsame", ("flag", EXACT[name])))) is False or \
                st.decide(("eq0", streq(EXACT[name], "..."))) is False
            return None if z else "--%s is dropped" % EXACT[name]
        if val == a or st.true(("eq0", sub(val, a))) or val[0] != "lin" and val[0] != "op" and a in subterms(val) \
                and val[0] in ("ctor", "addr", "ret", "call", "str"):
            return None
        d, e = st.decide(("eq0", a)), st.decide(("eq0", val))
        if d is not None and d == e:
            return None
        return "%s is given something other than the value of --%s" % (name, EXACT[name])
    if name in UNLESS:
        fl, none = UNLESS[name]
        same = st.decide(("eq0", sub(arg(fl), I(none))))
        if val is None:
            return None if same is True else "--%s is dropped" % fl
        if same is not False:
            return "%s is set although --%s may not have been given" % (name, fl)
        return None if val == arg(fl) else "%s is given something other than the value of --%s" % (name, fl)
    on = val is not None and st.decide(("eq0", val))
    if val is None:
        on = True
    zero = on          # True: known off, False: known on
    if name in OFF:
        if zero is not True and is_true(st, OFF[name]) is not False:
            return "%s may be on although --%s is given" % (name, OFF[name])
        return None
    if name in WORDS:
        fl, lits = WORDS[name]
        want = alltrue(st, fl, lits)
        if is_true(st, "plain-text-names") is True:
            return None
        if zero is None or want is None or want is zero:
            return "%s does not follow --%s (%s)" % (name, fl, " or ".join(lits))
    return None


def root_fields(P, f):
    """options whose fields the code reached from a function reads"""
    out = set()
    flags = arg_flags(P)
    for k in P.reach([f]):
        g = P.funcs.get(k)
        if g is None:
            continue
        for x in g.nodes():
            if x.get("k") == "mem" and x["f"] in flags:
                out.add(flags[x["f"]])
    return out


@rule("F05")
def f05(P, R):
    """Runs the code that turns the command line into settings with each option's value as one symbol, and requires of
    every path that the value a setting ends up with is the value of the option documented for it."""
    flags = arg_flags(P)
    R.need(len(flags) >= 20, "command line options")
    for name in sorted(set(EXACT) | set(UNLESS) | set(OFF) | set(WORDS)):
        flag = EXACT.get(name) or (UNLESS.get(name) or WORDS.get(name) or (OFF.get(name),))[0]
        setter = "set_" + name
        fs = [f for f in P.funcs.values() if f.key in static_reach(P, (setter,))
              and f.key in static_reach(P, ("getValue",)) and f.scls and not f.d.get("lambda")]
        roots = [f for f in fs if setters_below(P, f, setter) and flag in root_fields(P, f)
                 and not any(g is not f and g.key in P.reach([f]) and flag in root_fields(P, g) for g in fs)]
        roots = roots or [f for f in fs if setters_below(P, f, setter) and not any(
            g is not f and g.key in P.reach([f]) for g in fs)]
        R.need(roots, "function that sets " + name)
        keys = []
        if name in WORDS:
            keys += [("eq0", streq(WORDS[name][0], l)) for l in WORDS[name][1]] + [("eq0", arg("plain-text-names"))]
        if name in ONLY:
            keys += [("eq0", streq(ONLY[name][0], l)) for l in LITE[1] + FULL[1]]
            keys += [("eq0", ("call", "argsame", ("flag", flag))), ("eq0", streq(flag, "..."))]
        if name in OFF or name in EXACT:
            keys += [("eq0", arg(flag)), ("ge0", scale(arg(flag), -1))]
        if name in UNLESS:
            keys += [("eq0", sub(arg(flag), I(UNLESS[name][1])))]
        for f in roots:
            r = Cli(flags, pred=lambda ev: ev.base == setter and MSG.search(ev.node.get("mc") or ""), keys=keys,
                    reach=(setter,), home=(f,))
            outs, eng = R.engine(P, r, f)
            bad, n = set(), 0
            for k, st, v in outs:
                if k != "r":
                    continue
                n += 1
                b = setting(P, f, name, st, flags)
                if b:
                    bad.add(b)
            R.need(n, "normal paths of " + f.sn)
            R.ob("option", "%s from --%s in %s" % (name, flag, f.sn), not bad, f.where, "; ".join(sorted(bad)))
    resealing(P, R, flags, passwords(P, R, flags))


def setters_below(P, f, setter):
    for k in P.reach([f]):
        g = P.funcs.get(k)
        if g is not None and any(x.get("k") == "call" and base(x.get("n") or "") == setter
                                 and MSG.search(x.get("mc") or "") for x in g.nodes()):
            return True
    return False


# which option supplies which password: (given, key file, ask even with a key file)
PASSWORDS = (("pass", "keyfile", "askpass"), ("oldpass", "oldkeyfile", "askoldpass"),
             ("newpass", "newkeyfile", "asknewpass"))
ASKS = ("read_password_with_confirmation", "read_password_no_confirmation")


def field_loc(eng, st, o):
    """field of an object that a location or pointer denotes"""
    while isinstance(o, tuple) and o:
        if o[0] == "m":
            return o[2]
        o = o[1] if o[0] in ("addr", "d") else None
    return None


def passwords(P, R, flags):
    """each password comes from its own options, in the documented order of preference"""
    have = set(flags.values())
    targets = {}
    n = 0
    for pw, kf, ask in PASSWORDS:
        R.need({pw, kf, ask} <= have, "options --%s, --%s, --%s" % (pw, kf, ask))
        fs = [f for f in P.funcs.values() if not f.d.get("lambda") and f.scls
              and f.key in static_reach(P, ASKS) and pw in own_fields(P, f, flags) and not f.d.get("virt")]
        fs = fs or [f for f in P.funcs.values() if f.scls and f.key in static_reach(P, ASKS)
                    and pw in own_fields(P, f, flags)]
        R.need(fs, "function that obtains the password of --" + pw)
        for f in fs:
            keys = [("eq0", ("call", "argset", ("flag", x))) for x in (pw, kf)]
            keys += [("eq0", streq(x, "")) for x in (pw, kf)] + [("eq0", arg(ask))]
            r = Cli(flags, ASKS + ("Assign",), keys=keys, reach=ASKS + ("Assign",), home=(f,))
            outs, eng = R.engine(P, r, f)
            bad = set()
            for k, st, v in outs:
                if k != "r":
                    continue
                ev = {}
                for e in st.trace:
                    if e[0] == "c":
                        t = field_loc(eng, st, e[2][-1] if e[1] in ASKS else e[5])
                        if t:
                            ev.setdefault(t, []).append(e)
                mine = {t for t, es in ev.items() for e in es if e[1] == "Assign" and any(
                    argof(eng, st, a) == pw for a in e[2])}
                targets.setdefault(pw, set()).update(mine)
            tgt = targets.get(pw, set())
            if len(tgt) != 1:
                R.ob("password", "--%s in %s" % (pw, f.sn), False, f.where,
                     "the password given by --%s is kept in %d places" % (pw, len(tgt)))
                continue
            t = next(iter(tgt))
            for k, st, v in outs:
                if k != "r":
                    continue
                n += 1
                es = [e for e in st.trace if e[0] == "c" and field_loc(
                    eng, st, e[2][-1] if e[1] in ASKS else e[5]) == t]
                if not es:
                    bad.add("a path leaves the password unset")
                    continue
                e = es[-1]
                dec = lambda x: {None: None, True: False, False: True}[st.decide(("eq0", x))]
                unset = dec(("call", "argset", ("flag", pw))) is False or dec(streq(pw, "")) is True
                asked = dec(arg(ask)) is True
                nokey = dec(("call", "argset", ("flag", kf))) is False or dec(streq(kf, "")) is True
                haskey = dec(streq(kf, "")) is False
                if e[1] in ASKS:
                    if not unset:
                        bad.add("--%s is ignored and the password asked for" % pw)
                    elif not (asked or nokey):
                        bad.add("the password is asked for although a key file is given without --%s" % ask)
                elif any(argof(eng, st, a) == pw for a in e[2]):
                    if dec(("call", "argset", ("flag", pw))) is not True:
                        bad.add("the value of --%s is used although it was not given" % pw)
                elif {argof(eng, st, a) for a in e[2]} - {None}:
                    bad.add("the password is taken from another option")
                else:
                    if not unset:
                        bad.add("--%s is ignored and a fixed password used" % pw)
                    if not haskey or dec(arg(ask)) is not False:
                        bad.add("a fixed password is used without a key file, or although --%s is given" % ask)
            R.ob("password", "--%s in %s" % (pw, f.sn), not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "ways to obtain a password")
    return targets


def own_fields(P, f, flags):
    return {flags[x["f"]] for x in f.nodes() if x.get("k") == "mem" and x["f"] in flags}


def mems(P, n):
    return {x["f"] for x in PR.walk(n) if x.get("k") == "mem"}


def resealing(P, R, flags, targets):
    """commands that open the configuration and write it again"""
    pwf = {next(iter(t)): pw for pw, t in targets.items() if len(t) == 1}
    kf = {k: kf for k, kf in ((p, q) for p, q, _ in PASSWORDS)}
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        mine = [c for c in f.nodes() if c.get("k") == "call" and base(c.get("n") or "") in ("encrypt", "decrypt")
                and len(c.get("a", ())) in (3, 4) and any(m in pwf for a in c["a"] for m in mems(P, a))]
        if not mine:
            continue
        for c in mine:
            n += 1
            enc = base(c.get("n") or "") == "encrypt"
            args = c["a"]
            used = [{pwf.get(m) or flags.get(m) for m in mems_via(P, f, a)} - {None} for a in args]
            pws = used[-2] & set(pwf.values())
            keys = used[-1] & set(flags.values())
            bad = []
            if len(pws) != 1:
                bad.append("the password is not the one a single option gives")
            else:
                pw = next(iter(pws))
                if keys != {kf[pw]}:
                    bad.append("the password of --%s is combined with the key file of %s" % (
                        pw, ", ".join("--" + x for x in sorted(keys)) or "no option"))
                if pw == ("newpass" if not enc else "oldpass"):
                    bad.append("the configuration is %s with the %s password" % (
                        "encrypted" if enc else "decrypted", "old" if enc else "new"))
            R.ob("credentials", "%s in %s (%s)" % (base(c.get("n") or ""), f.sn, ",".join(sorted(pws))), not bad,
                 "%s:%s" % (f.where.rsplit(":", 1)[0], c.get("l")), "; ".join(bad))
        # what is encrypted again is what was decrypted
        if {base(c.get("n") or "") for c in mine} == {"encrypt", "decrypt"}:
            bad = set()
            ds = [id(c) for c in mine if base(c.get("n") or "") == "decrypt"]
            for c in mine:
                if base(c.get("n") or "") == "encrypt" and not any(id(x) in ds for x in slice_nodes(f, c["a"][0])):
                    bad.add("what is encrypted on line %s is not what was decrypted" % c.get("l"))
            R.ob("reseal", f.sn, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n >= 4, "uses of the password")


def mems_via(P, f, a):
    """fields an argument depends on, through local variables"""
    out = set()
    for x in slice_nodes(f, a):
        if x.get("k") == "mem":
            out.add(x["f"])
    return out | mems(P, a)
