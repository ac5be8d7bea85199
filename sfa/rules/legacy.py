"""F06: configurations of earlier releases describe the volume they described then"""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY
from .records import walk, param
from .common import base
from .keys import kdf_args, hmac_streams, key_stop

STOP = ("parse_hex", "throw_runtime_error", "throwInvalidArgumentException")


class Read(Rule):
    max_states = 3000
    max_depth = 8

    def __init__(s, P, f):
        s.P, s.f = P, f
        s.near = P.reaching(lambda n: (n.get("n") or "").rsplit("::", 1)[-1].startswith(("set_", "mutable_")) and "Params" in (n.get("mc") or n.get("n") or ""))

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b.startswith("warn_if"):
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or simple(f, 25) or f.key in s.near

    def path(s, ev):
        """the message a call is made on"""
        o = ev.obj
        if o is not None and o[0] == "d" and o[1][0] == "part":
            return o[1][1]
        return () if o is not None else None

    def seen(s, eng, st, t, depth=4):
        """a pointer into a view is a pointer into what the view shows"""
        if depth and t[0] == "addr" and t[1][0] == "el":
            w = eng.load(st, t[1][1])
            if w[0] == "ctor" and "Span" in w[1] and len(w) == 4:
                return s.seen(eng, st, w[2], depth - 1)
        if depth and t[0] == "lin" and len(t[2]) == 1 and t[2][0][1] == 1:
            return add(s.seen(eng, st, t[2][0][0], depth - 1), I(t[1]))
        return t

    def on_call(s, eng, st, ev):
        b = ev.base
        cls = PR.strip_t(ev.node.get("mc") or "") if ev.node is not None else ""
        if b in LOGGY or b.startswith("warn_if"):
            return [(st, I(0))]
        if ev.kind == "call" and b.startswith("has_") and "DecryptedSecurefsParams" in cls and not ev.args and s.path(ev) is not None:
            want = s.path(ev) + (b[4:],)
            return [(st, TRUE if any(e[0] in ("set", "part") and e[1][:len(want)] == want for e in st.trace) else FALSE)]
        if ev.kind == "call" and "Params" in cls or ev.kind == "call" and cls.startswith("securefs::") and "Legacy" in cls:
            if b.startswith("mutable_"):
                st.emit(("part", s.path(ev) + (b[8:],)))
                return [(st, ("part", s.path(ev) + (b[8:],)))]
            if b.startswith("set_") and len(ev.args) == 1:
                st.emit(("set", s.path(ev) + (b[4:],), ev.args[0], ev.where))
                return [(st, I(0))]
            if b.startswith("set_") and len(ev.args) == 2:
                st.emit(("set", s.path(ev) + (b[4:],), tuple(s.seen(eng, st, a) for a in ev.args), ev.where))
                return [(st, I(0))]
        if ev.kind == "call" and b in ("subspan", "first") and ev.ext and ev.obj is not None:
            w = eng.load(st, ev.obj)
            if w[0] == "ctor" and "Span" in w[1] and len(w) == 4:
                if b == "first":
                    return [(st, w[:3] + (ev.args[0],))]
                if len(ev.args) == 2:
                    return [(st, w[:2] + (add(w[2], ev.args[0]), ev.args[1]))]
        if ev.kind == "call" and b in ("MakeSpan", "MakeConstSpan") and len(ev.args) == 2:
            return [(st, ("ctor", "absl::Span") + tuple(ev.args))]
        if ev.kind == "ctor" and "Span" in cls and len(ev.args) == 1 and ev.locs and ev.locs[0] is not None:
            w = ev.args[0]
            if w[0] == "ctor" and "Span" in w[1]:
                return [(st, w)]
            return [(st, ("ctor", "absl::Span", ("addr", ("el", ev.locs[0])), ("call", "size", w)))]
        if ev.kind == "call" and b in ("assign", "operator=") and ev.ext and ev.obj is not None:
            o = ev.obj
            if o[0] == "d" and o[1][0] == "part":
                st.emit(("set", o[1][1], tuple(s.seen(eng, st, a) for a in ev.args), ev.where))
                return [(st, I(0))]
        return None

    def on_assume(s, eng, st, t, v, node, fr):
        st.emit(("if", t, bool(v)))


class Open(Read):
    """the same function with the derivations and the verification as symbols"""
    max_states = 6000
    max_depth = 10

    def __init__(s, P, f, hs):
        s.P, s.f = P, f
        s.hs = {h.key for h in hs}

    def inline(s, eng, f, ev):
        b = base(f.n)
        return b not in LOGGY and b not in STOP and not b.startswith("warn_if") and f.key not in s.hs

    def whose(s, eng, st, t):
        """the bytes a pointer or a view stands for"""
        for _ in range(4):
            if t[0] == "addr" and t[1][0] == "el":
                t = eng.load(st, t[1][1])
            elif t[0] == "addr":
                t = eng.load(st, t[1])
            elif t[0] == "ctor" and "Span" in t[1] and len(t) > 2:
                t = t[2]
            else:
                break
        for u in walk(t):
            if u[0] in ("hex", "hmac", "kdf", "str"):
                return u
        return t

    def on_call(s, eng, st, ev):
        b = ev.base
        if b in LOGGY or b.startswith("warn_if"):
            return [(st, I(0))]
        if b == "parse_hex" and len(ev.args) == 1:
            return [(st, ("hex", ev.args[0]))]
        if ev.key in s.hs and len(ev.args) == 2:
            return [(st, ("hmac", s.whose(eng, st, ev.args[0]), ev.args[1]))]
        if ev.kind == "call" and (b == "argon2id_hash_raw" or b == "DeriveKey"):
            k = kdf_args((None, b, tuple(ev.args), None))
            if k:
                cls = PR.strip_t(ev.node.get("mc") or "")
                alg = "argon2id" if b != "DeriveKey" else "scrypt" if "Scrypt" in cls or "Scrypt" in (ev.name or "") else "pbkdf2"
                v = ("kdf", alg, s.whose(eng, st, k[0]), s.whose(eng, st, k[2]), tuple(k[6]))
                if k[4][0] == "addr":
                    eng.store(st, k[4][1], v, ev.node, ev.fr)
                return [(st, I(0))]
        if b in ("memcpy", "memmove") and len(ev.args) == 3 and ev.args[0][0] == "addr" and ev.args[1][0] == "addr":
            w = s.whose(eng, st, ev.args[1])
            if w[0] in ("hex", "hmac", "kdf"):
                eng.store(st, ev.args[0][1], w, ev.node, ev.fr)
                return [(st, ev.args[0])]
        if ev.kind == "call" and b == "SetKeyWithIV" and len(ev.args) >= 4:
            st.emit(("keyed", ev.obj, s.whose(eng, st, ev.args[0]), s.whose(eng, st, ev.args[2]), ev.where))
        if ev.kind == "call" and b == "DecryptAndVerify" and len(ev.args) >= 9:
            a = ev.args
            k = [e for e in st.trace if e[0] == "keyed" and e[1] == ev.obj]
            r = st.fresh("verified")
            st.emit(("open", k[-1][2] if k else None, k[-1][3] if k else None, s.whose(eng, st, a[3]), s.whose(eng, st, a[1]),
                     s.whose(eng, st, a[5]), s.whose(eng, st, a[7]), r, ev.where))
            return [(st, r)]
        return None

    def on_assume(s, eng, st, t, v, node, fr):
        if t[0] == "call" and t[1] == "operator==" and v and any(u[0] == "m" and u[2] == "pb:pbkdf" for u in walk(t)):
            for u in walk(t):
                x = u[1] if u[0] == "str" else s.text(u[1]) if u[0] == "g" else None
                if x:
                    st.emit(("chose", NAMES.get(x, repr(x))))

    def text(s, name):
        g = s.P.globals.get(name)
        for n in PR.walk((g or {}).get("init") or {}):
            if n.get("k") == "str":
                return n.get("v")


FLAT = {"block_size": (("size_params", "block_size"), 4096), "iv_size": (("size_params", "iv_size"), 32)}
KEYS = ("name_key", "content_key", "xattr_key", "padding_key")


def piece(v):
    """a stored byte string as (pointer, length)"""
    args = list(v) if isinstance(v, tuple) and v and isinstance(v[0], tuple) else [v]
    for t in args:
        for u in walk(t):
            if u[0] == "ctor" and len(u) >= 4 and u[2] not in (NULL,):
                return (u[2], u[3])
    return (args[0], args[1]) if len(args) > 1 else (None, None)


def offset(ptr):
    """(the buffer a pointer walks, constant distance)"""
    if ptr is None:
        return None, None
    if ptr[0] == "addr":
        return ptr, 0
    if ptr[0] == "lin" and len(ptr[2]) == 1 and ptr[2][0][1] == 1:
        return ptr[2][0][0], ptr[1]
    return ptr, 0


def whole(n):
    return isinstance(n, tuple) and n[0] == "call" and n[1] in ("size", "length") and n[2][0] != "ctor"


@rule("F06")
def rule_f06(P, R):
    """The function turning a configuration of an earlier release into parameters is executed on every path, with
    the version number and the presence of each optional setting free. On each normal return: the wrapping key was
    verified; block and IV sizes are the ones recorded, or 4096 and 32 when nothing was recorded, and the padding
    bound is the one recorded; for version 4 the name, content, attribute and padding keys are the consecutive 32-byte
    pieces of the master key, the fourth present exactly when the master key has 128 bytes, and for other versions the
    master key is taken whole; the old file-table layout is chosen exactly for version 1, stored times exactly for
    version 3, and long names with the threshold 128 exactly when version 4 recorded them."""
    roots = [f for f in P.funcs.values() if f.body and PR.strip_t(f.d["ret"]).endswith("DecryptedSecurefsParams")
             and any("LegacySecurefsJsonParams" in p["t"] for p in f.d["p"])]
    R.need(len(roots), "function reading older configurations")
    n = 0
    for f in roots:
        R.fn(f)
        pi = next(i for i, p in enumerate(f.d["p"]) if "LegacySecurefsJsonParams" in p["t"])
        old = ("p", f.d["p"][pi]["n"])

        def rec(field):
            return ("in", ("m", old, "pb:" + field), 0)

        outs, _ = R.engine(P, Read(P, f), f)
        bad = {}
        seen = set()

        def no(kind, text, st, where=None):
            bad.setdefault(kind, (text, where or f.where, [str(e)[:160] for e in st.trace if e[0] == "if"][:12]))

        for k, st, v in outs:
            if k != "r":
                continue
            n += 1
            sets = {}
            for e in st.trace:
                if e[0] == "set":
                    sets[e[1]] = (e[2], e[3])

            def val(*path):
                v, w = sets.get(path, (None, None))
                while v is not None and v[0] == "trunc" and v[1] >= 32:      # recorded numbers have 32 bits
                    v = v[2]
                return v, w

            def version(k):
                return st.decide(("eq0", sub(rec("version"), I(k)))) if k else None

            if not any(e[0] == "if" and e[2] != (e[1][0] in ("eq0", "not")) and any("derived_key" in str(u[1]) for u in walk(e[1]) if u[0] in ("ret", "call")) for e in st.trace):
                no("verified", "parameters are produced without the result of trying the password", st)
            for name, (path, dflt) in FLAT.items():
                got, w = val(*path)
                has = st.decide(rec("has_" + name))
                want = rec(name) if has is True else I(dflt) if has is False else None
                if got is None or want is None and got != ("cond", rec("has_" + name), rec(name), I(dflt)) or want is not None and got != want and st.decide(("eq0", sub(got, want))) is not True:
                    no(name, "%s is %s where the old configuration %s" % (name, got, "recorded it" if has else "recorded none, meaning %d" % dflt), st, w)
            got, w = val("size_params", "max_padding_size")
            if got != rec("max_padding") and not (got is None and st.decide(("eq0", rec("max_padding"))) is True):
                no("max_padding", "the padding bound is %s, not the recorded one" % (got,), st, w)
            four = version(4)
            sizes = {u for e in st.trace if e[0] == "if" for u in walk(e[1]) if whole(u)}
            lite = {q: piece(sets[("lite_format_params", q)][0]) for q in KEYS if ("lite_format_params", q) in sets}
            full, fw = val("full_format_params", "master_key")
            if four is not False:
                seen.add(4)
                long_ = None
                for u in sizes:
                    d = st.decide(("eq0", sub(u, I(128))))
                    if d is not None:
                        long_ = d
                need = KEYS if long_ else KEYS[:3]
                bases = set()
                for i, q in enumerate(KEYS):
                    if q in lite:
                        b, o = offset(lite[q][0])
                        bases.add(b)
                        if o != 32 * i or lite[q][1] != I(32) or q not in need:
                            no(q, "version 4: %s is bytes %s.. (length %s) of the master key, not %d..%d%s" % (q, o, lite[q][1], 32 * i, 32 * i + 32, "" if q in need else ", and that piece may not exist"), st, sets[("lite_format_params", q)][1])
                    elif q in need:
                        no(q, "version 4: %s is not set" % q, st)
                if len(bases) > 1:
                    no("base", "version 4: keys come from different buffers", st)
                got, w = val("lite_format_params", "long_name_threshold")
                has = st.decide(rec("long_name_component"))
                if has is True and got != I(128) or has is not True and got not in (None, I(0)) or has is None and got is None:
                    no("long", "version 4: the long-name threshold is %s where long names were %s" % (got, {True: "on", False: "off", None: "not consulted"}[has]), st, w)
            if four is not True:
                seen.add("full")
                p, ln = piece(full) if full is not None else (None, None)
                b, o = offset(p)
                if p is None or o != 0 or not whole(ln):
                    no("master_key", "versions before 4: the master key is not taken whole (%s, %s)" % (p, ln), st, fw)
                for k, flag in ((1, "legacy_file_table_io"), (3, "store_time")):
                    got, w = val("full_format_params", flag)
                    is_ = version(k)
                    cond = ("eq0", sub(rec("version"), I(k)))
                    g = FALSE if got is None else got
                    d = st.decide(g) if g not in (TRUE, FALSE) else g == TRUE
                    if not (g == cond or d is not None and d == is_):
                        no(flag, "%s is %s where the version %s %d" % (flag, "set" if d else "not set", {True: "is", False: "is not", None: "may be"}[is_], k), st, w)
        for kind in ("verified", "block_size", "iv_size", "max_padding", "base") + KEYS + ("long", "master_key", "legacy_file_table_io", "store_time"):
            t = bad.get(kind)
            R.ob("legacy", "%s: %s" % (f.n, kind), t is None, t[1] if t else f.where, t[0] if t else "as the earlier release meant it", t[2] if t else None)
        R.need(4 in seen and "full" in seen, "paths of both formats in " + f.n)
        opened(P, R, f, rec)
    R.need(n, "returns examined")


COSTS = {"argon2id": ("iterations", "argon2_m_cost", "argon2_p"), "scrypt": ("iterations", "scrypt_r", "scrypt_p"),
         "pbkdf2": ("iterations",)}
NAMES = {"argon2id": "argon2id", "scrypt": "scrypt", "pkcs5-pbkdf2-hmac-sha256": "pbkdf2"}


def short(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "kdf":
        return "%s(%s, %s)" % (t[1], short(t[2]), short(t[3]))
    if t[0] == "hmac":
        return "hmac(%s, key file)" % short(t[1])
    if t[0] == "hex":
        return short(t[1])
    if t[0] == "in" and t[1][0] == "m":
        return t[1][2].replace("pb:", "")
    if t[0] == "in" and t[1][0] == "v":
        return t[1][-1]
    return str(t)[:80]


def opened(P, R, f, rec):
    """how the master key is unwrapped"""
    old = rec("salt")[1][1]

    def hexed(*path):
        loc = old
        for q in path[:-1]:
            loc = ("m", loc, "pb:" + q)
        return ("hex", ("in", ("m", loc, "pb:" + path[-1]), 0))

    pw = [param(f, i) for i, p in enumerate(f.d["p"]) if "Span" in p["t"]]
    ks = [param(f, i) for i, p in enumerate(f.d["p"]) if "StreamBase" in p["t"]]
    R.need(pw and ks, "password and key file parameters of " + f.n)
    r = Open(P, f, hmac_streams(P))
    outs, _ = R.engine(P, r, f)
    bad, n, algs, versions = {}, 0, set(), set()

    def no(kind, text, where=None):
        bad.setdefault(kind, (text, where or f.where))

    for k, st, v in outs:
        given = st.decide(("eq0", ks[0]))
        given = None if given is None else not given
        ops = [e for e in st.trace if e[0] == "open"]
        won = [e for e in ops if st.decide(e[7]) is True]
        keys = []
        if won:
            versions |= {q for q in (1, 2, 3, 4) if st.decide(("eq0", sub(rec("version"), I(q)))) is not False}
        for e in ops:
            n += 1
            key, iv1, iv2, mac, head, text, res, w = e[1:]
            if iv1 != iv2 or iv1 != hexed("encrypted_key", "iv"):
                no("iv", "the master key is opened with the IV %s / %s" % (short(iv1), short(iv2)), w)
            if mac != hexed("encrypted_key", "mac"):
                no("mac", "the master key is checked against %s" % short(mac), w)
            if text != hexed("encrypted_key", "ciphertext"):
                no("ciphertext", "the master key is opened from %s" % short(text), w)
            four = st.decide(("eq0", sub(rec("version"), I(4))))
            if four is not None and head != ("str", "version=4" if four else "version=1") or four is None:
                no("header", "version %s is opened with the header %s" % ("4" if four else "1 to 3" if four is False else "(any)", head), w)
            kd = [u for u in walk(key or ("?",)) if u[0] == "kdf"]
            if len(kd) != 1:
                no("key", "the master key is opened with %s" % short(key), w)
                continue
            kd = kd[0]
            algs.add(kd[1])
            if kd[2] != pw[0]:
                no("password", "the key is derived from %s" % short(kd[2]), w)
            want = tuple(rec(q) for q in COSTS[kd[1]])
            if kd[4][:len(want)] != want:
                no("cost", "%s is run with the costs %s, not %s" % (kd[1], ", ".join(map(short, kd[4])), ", ".join(COSTS[kd[1]])), w)
            salt = hexed("salt")
            shapes = {("kdf", kd[1], pw[0], salt, kd[4]): "plain"}
            for s_ in walk(key):
                if s_[0] == "hmac":
                    shapes[("kdf", kd[1], pw[0], ("hmac", salt, s_[2]), kd[4])] = "salt"
                    shapes[("hmac", ("kdf", kd[1], pw[0], salt, kd[4]), s_[2])] = "key"
            shape = shapes.get(key)
            if shape is None or (shape == "plain") != (given is False):
                no("combined", "with%s a key file the key is %s" % ("" if given else "out", short(key)), w)
            keys.append(shape)
        if ops and not won and given and k == "t":
            if set(keys) != {"salt", "key"}:
                no("tried", "with a key file only %s is tried before the password is called wrong" % ", ".join(short(e[1]) for e in ops), ops[-1][8])
        if k == "r" and not won:
            no("won", "parameters are returned although the master key was not verified")
        for e in st.trace:
            if e[0] == "chose" and ops:
                used = {u[1] for o in ops for u in walk(o[1] or ("?",)) if u[0] == "kdf"}
                if used - {e[1]}:
                    no("algorithm", "a configuration recording %s is opened with %s" % (e[1], ", ".join(sorted(used))), ops[0][8])
    for kind in ("iv", "mac", "ciphertext", "header", "key", "password", "cost", "combined", "tried", "won", "algorithm"):
        t = bad.get(kind)
        R.ob("unwrap", "%s: %s" % (f.n, kind), t is None, t[1] if t else f.where, t[0] if t else "as the earlier release did")
    R.need(n, "openings of the master key in " + f.n)
    for what, got, want in (("algorithms", algs, set(COSTS)), ("versions", versions, {1, 2, 3, 4})):
        R.ob("unwrap", f.n + ": " + what, got == want, f.where, "can be opened: %s of %s" % (", ".join(map(str, sorted(got))), ", ".join(map(str, sorted(want)))))
