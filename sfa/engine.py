"""Interprocedural path-sensitive dataflow over the resolved program.

For a root function the engine propagates abstract states (copy-propagated values in value-number form,
interval facts about linear expressions established by the branches taken, and the rule's own event
history) through the structured control flow, inlining repository callees, lambdas and scope guards,
running destructors on every exit (exceptional ones included) and abstracting loops by one generic
iteration between two havocs of everything the loop may assign.  Nothing is executed and no solver is
used: branch feasibility is decided by constant/interval propagation only, so an undecided branch is
always taken both ways.
"""
import re
import subprocess
from . import prog as P_
from .frontend import Broken

INF = float("inf")

# --------------------------------------------------------------------------- terms
_tid = {}


def tid(t):
    n = _tid.get(t)
    if n is None:
        n = _tid[t] = len(_tid)
    return n


def I(n):
    return ("int", n)


TRUE, FALSE, NULL = I(1), I(0), I(0)


def lin(t):
    """term -> (const, {symbol: coefficient})"""
    if t[0] == "int":
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=lambda kv: tid(kv[0]))))


def add(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return mklin(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def mul(a, b):
    if a[0] == "int":
        return scale(b, a[1])
    if b[0] == "int":
        return scale(a, b[1])
    # distribute one level so that (x + 1) * y and x * y + y agree
    ca, da = lin(a)
    cb, db = lin(b)
    if len(da) + len(db) <= 6:
        c = ca * cb
        d = {}
        for k, v in da.items():
            if cb:
                d[k] = d.get(k, 0) + v * cb
            for k2, v2 in db.items():
                x, y = sorted((k, k2), key=tid)
                t = ("op", "*", x, y)
                d[t] = d.get(t, 0) + v * v2
        if ca:
            for k2, v2 in db.items():
                d[k2] = d.get(k2, 0) + v2 * ca
        return mklin(c, d)
    x, y = sorted((a, b), key=tid)
    return ("op", "*", x, y)


def masked(t, m):
    """t & m for a constant m, seen through masks and settings of other bits"""
    if m == 0:
        return I(0)
    if t[0] == "int":
        return I(t[1] & m)
    if t[0] == "op" and t[1] in ("&", "|"):
        x, y = t[2], t[3]
        if t[1] == "&" and (x[0] == "int" or y[0] == "int"):
            return masked(y, m & x[1]) if x[0] == "int" else masked(x, m & y[1])
        if t[1] == "|":
            p, q = masked(x, m), masked(y, m)
            if p == I(0):
                return q
            if q == I(0):
                return p
            if I(m) in (p, q):
                return I(m)
    a, b = sorted((t, I(m)), key=tid)
    return ("op", "&", a, b)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t) if x)


def deps(t):
    """every symbol a value may be computed from, through loop-carried values too"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or x in seen:
            continue
        seen.add(x)
        for i in havoc_init.get(x, ()):
            if i is not None:
                st.append(i)
        st.extend(x)
    return seen


def root_of(ptr):
    """The object a pointer term points into, if it is syntactically evident."""
    c, d = lin(ptr)
    for k in d:
        if k[0] == "addr" and d[k] == 1:
            return k[1]
    cand = [k for k in d if d[k] == 1 and k[0] in ("in", "ret", "call", "new", "fld", "havoc", "phi")]
    if len(cand) == 1:
        return ("d", cand[0])
    pc = [k for k in d if d[k] == 1 and k in s_ptr]
    if len(pc) == 1:
        return ("d", pc[0])
    if len(d) == 1:
        return ("d", next(iter(d)))
    # several symbols: prefer the one whose loc is a pointer variable or a data() projection
    for k in cand:
        if k[0] == "call" and k[1] in PROJ:
            return ("d", k)
    for k in cand:
        if k[0] == "in" and isinstance(k[1], tuple) and k[1][0] == "v":
            return ("d", k)
    return ("d", ptr)


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    if depth > 6:
        return ".."
    k = t[0]
    r = lambda x: show(x, depth + 1)
    if k == "int":
        return str(t[1])
    if k == "lin":
        return "(" + "+".join(([str(t[1])] if t[1] else []) + [("%d*" % v if v != 1 else "") + r(x) for x, v in t[2]]) + ")"
    if k == "in":
        return r(t[1])
    if k == "v":
        return str(t[3])
    if k == "m":
        return r(t[1]) + "." + t[2].split("::")[-1]
    if k == "d":
        return "*" + r(t[1])
    if k == "addr":
        return "&" + r(t[1])
    if k == "call":
        return P_.strip_t(str(t[1])).split("::")[-1] + "(" + ",".join(r(x) for x in t[2:]) + ")"
    if k in ("ret", "new", "havoc", "phi"):
        return "%s@%s" % (P_.strip_t(str(t[1])), "/".join(str(x) for x in t[2:4]))
    if k == "op":
        return "(%s%s%s)" % (r(t[2]), t[1], r(t[3]))
    if k == "this":
        return "this"
    return str(k) + "(" + ",".join(r(x) for x in t[1:]) + ")"


# --------------------------------------------------------------------------- externals
# Projections: the result denotes a part of the receiver, nothing is modified.
PROJ = {"data", "begin", "end", "get", "operator*", "operator->", "c_str", "at", "operator[]", "back", "front",
        "value", "rbegin", "rend", "cbegin", "cend", "BytePtr"}
PURE_FREE = {"min", "max", "all_of", "any_of", "none_of", "memcmp", "strcmp", "strlen", "find", "find_if", "abs",
             "operator==", "operator!=", "operator<", "operator+", "operator-", "operator>", "StrCat",
             "StartsWith", "EndsWith", "make_pair", "make_tuple", "tie", "is_sorted", "isspace",
             "MakeConstSpan", "Seconds", "VerifyBufsEqual", "is_all_zeros", "count", "lower_bound", "next",
             "EqualsIgnoreCase", "uncaught_exceptions", "distance", "begin", "end", "size", "data", "empty",
             "to_casefold_utf8", "to_nfc_utf8", "to_nfd_utf8"}
IDENT_FREE = {"move", "forward", "as_const", "addressof", "static_pointer_cast", "dynamic_pointer_cast", "launder",
              "__builtin_expect", "to_underlying", "ref", "cref"}
STRINGY = ("std::basic_string", "std::basic_string_view", "absl::string_view", "absl::Span", "std::function",
           "absl::FunctionRef", "std::optional", "std::unique_ptr", "std::shared_ptr", "std::reference_wrapper",
           "__gnu_cxx::__normal_iterator", "std::atomic", "std::pair")
PTRCLS = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::optional")


SIZED = ("std::vector", "std::basic_string", "absl::FixedArray", "CryptoPP::SecBlock", "absl::InlinedVector")


def sized(v):
    """the element count of a container value, when its construction fixes it"""
    if v[0] == "sized":
        return v[1]
    if v[0] == "ctor" and v[1].startswith(SIZED) and len(v) >= 3:
        a = v[2]
        if len(v) > 3 and (v[1].startswith("CryptoPP::SecBlock") or a in s_ptr) and v[3][0] != "ret":
            a = v[3]        # (pointer, length)
        if a[0] in ("int", "lin", "op", "in", "call", "ret", "havoc", "phi", "trunc", "fld") and not (
                len(v) > 3 and v[3][0] in ("addr", "lin")):
            return a
    return None


def is_scalar(t):
    t = t or ""
    if t.endswith("*"):
        return True
    t = re.sub(r"^(const|volatile) ", "", t)
    return t in ("int", "unsigned int", "long", "unsigned long", "bool", "char", "unsigned char", "short",
                 "unsigned short", "long long", "unsigned long long", "signed char", "double", "float", "wchar_t",
                 "std::nullptr_t")


def is_unsigned(t):
    t = re.sub(r"^(const|volatile) ", "", t or "")
    return t.startswith("unsigned") or t in ("bool",)


BITS = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32,
        "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}


def tbits(t):
    return BITS.get(re.sub(r"^(const|volatile) ", "", t or ""))


# --------------------------------------------------------------------------- state
class State:
    __slots__ = ("env", "refs", "iv", "ne", "trace", "ver", "ctr", "unw", "exc", "cls", "data", "srcty")

    def __init__(s):
        s.env = {}
        s.refs = {}
        s.iv = {}
        s.ne = {}
        s.trace = ()
        s.ver = {}
        s.ctr = {}
        s.unw = 0
        s.exc = ()
        s.cls = {}
        s.data = {}      # rule's own map
        s.srcty = None

    def copy(s):
        t = State.__new__(State)
        t.env = dict(s.env)
        t.refs = dict(s.refs)
        t.iv = dict(s.iv)
        t.ne = dict(s.ne)
        t.trace = s.trace
        t.ver = dict(s.ver)
        t.ctr = dict(s.ctr)
        t.unw = s.unw
        t.exc = s.exc
        t.cls = dict(s.cls)
        t.data = dict(s.data)
        t.srcty = None
        return t

    def emit(s, item):
        s.trace = s.trace + (item,)

    def fresh(s, *site):
        n = s.ctr.get(site, 0)
        s.ctr[site] = n + 1
        return site + (n,)

    # ---- interval facts
    @staticmethod
    def shape(t):
        c, d = lin(t)
        items = tuple(sorted(d.items(), key=lambda kv: tid(kv[0])))
        if not items:
            return (), c, 1
        sg = 1 if items[0][1] > 0 else -1
        if sg < 0:
            items = tuple((k, -v) for k, v in items)
        return items, c, sg

    def rng(s, t):
        """interval of an integer term"""
        sh, c, sg = s.shape(t)
        if not sh:
            return c, c
        lo, hi = s.iv.get(sh, (-INF, INF))
        if len(sh) > 1:
            l2 = h2 = 0
            for k, v in sh:
                a, b = s.rng1(k)
                x, y = (a * v, b * v) if v > 0 else (b * v, a * v)
                l2 += x
                h2 += y
            lo, hi = max(lo, l2), min(hi, h2)
        elif len(sh) == 1:
            a, b = s.rng1(sh[0][0])
            v = sh[0][1]
            lo, hi = max(lo, a * v), min(hi, b * v)
        if sg < 0:
            lo, hi = -hi, -lo
        return lo + c, hi + c

    def rng1(s, k):
        lo, hi = s.iv.get(((k, 1),), (-INF, INF))
        if k[0] in ("eq0", "ge0", "not"):
            lo, hi = max(lo, 0), min(hi, 1)
        elif k in s_unsigned:
            lo = max(lo, 0)
        elif k[0] == "call" and k[1] in ("min",) and len(k) >= 4:
            for a in k[2:4]:
                hi = min(hi, s.rng(a)[1])
        elif k[0] == "op" and k[1] == "%" and k[3][0] == "int" and k[3][1] > 0:
            lo, hi = max(lo, 0), min(hi, k[3][1] - 1)
        elif k[0] == "op" and k[1] == "&" and (k[3][0] == "int" or k[2][0] == "int"):
            m = k[3][1] if k[3][0] == "int" else k[2][1]
            if m >= 0:
                lo, hi = max(lo, 0), min(hi, m)
        elif k[0] == "trunc":
            b = k[1]
            lo, hi = max(lo, 0), min(hi, (1 << b) - 1)
        return lo, hi

    def decide(s, t):
        """truth value of a boolean/integer term, or None"""
        k = t[0]
        if k == "int":
            return t[1] != 0
        if k in ("addr", "lam", "str", "fn"):
            return True
        if k == "not":
            r = s.decide(t[1])
            return None if r is None else not r
        if k == "ge0":
            lo, hi = s.rng(t[1])
            return True if lo >= 0 else False if hi < 0 else None
        if k == "eq0":
            lo, hi = s.rng(t[1])
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            sh, c, sg = s.shape(t[1])
            if -c * sg in s.ne.get(sh, ()):
                return False
            if len(sh) == 1 and sh[0][0][0] in ("addr",):
                return False
            if len(sh) == 2 and c == 0 and sh[0][0][0] == "addr" and sh[1][0][0] == "addr" and \
                    sh[0][1] == -sh[1][1]:
                a, b = sh[0][0][1], sh[1][0][1]
                if a != b and a[0] in ("v", "t") and b[0] in ("v", "t"):
                    return False      # two distinct objects
            return None
        r = s.decide(("eq0", t))
        return None if r is None else not r

    def assume(s, t, v):
        """add the fact t == v (bool); False if infeasible"""
        k = t[0]
        if k == "not":
            return s.assume(t[1], not v)
        if k == "int":
            return (t[1] != 0) == v
        if k == "ge0":
            e = t[1] if v else add(I(-1), t[1], -1)
            return s._bound(e)
        if k == "eq0":
            if v:
                if t[1][0] in ("eq0", "ge0", "not"):
                    return s.assume(t[1], False)
                return s._bound(t[1]) and s._bound(scale(t[1], -1))
            if t[1][0] in ("eq0", "ge0", "not"):
                return s.assume(t[1], True)
            if s.decide(t) is True:
                return False
            sh, c, sg = s.shape(t[1])
            if not sh:
                return c != 0
            val = -c * sg
            s.ne[sh] = s.ne.get(sh, frozenset()) | {val}
            lo, hi = s.iv.get(sh, (-INF, INF))
            if lo == -INF and len(sh) == 1 and sh[0][1] == 1:
                lo = s.rng1(sh[0][0])[0]
            ch = False
            while lo in s.ne[sh]:
                lo += 1
                ch = True
            while hi in s.ne[sh]:
                hi -= 1
                ch = True
            if ch:
                s.iv[sh] = (lo, hi)
            return lo <= hi
        return s.assume(("eq0", t), not v)

    def _bound(s, e):
        """e >= 0"""
        sh, c, sg = s.shape(e)
        if not sh:
            return c >= 0
        lo, hi = s.iv.get(sh, (-INF, INF))
        if sg > 0:
            lo = max(lo, -c)     # sh + c >= 0
        else:
            hi = min(hi, c)      # -sh + c >= 0
        ne = s.ne.get(sh, ())
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        s.iv[sh] = (lo, hi)
        if lo > hi:
            return False
        l2, h2 = s.rng(mklin(0, dict(sh)))
        return l2 <= h2

    # what a term is known to be: used by rules
    def true(s, t):
        return s.decide(t) is True

    def const(s, t):
        lo, hi = s.rng(t)
        return lo if lo == hi else None


s_unsigned = set()
s_ptr = set()      # values that were loaded through a pointer-typed expression
havoc_init = {}    # value a loop-carried location had before the loop


class Frame:
    __slots__ = ("func", "depth", "this", "clo", "parent", "line", "cls")

    def __init__(s, func, depth, this, clo=None, parent=None, line=0, cls=None):
        s.func, s.depth, s.this, s.clo, s.parent, s.line, s.cls = func, depth, this, clo or {}, parent, line, cls

    def stack(s):
        out = []
        f = s
        while f:
            out.append("%s (%s:%d)" % (f.func.sn, f.func.short, f.line or f.func.l))
            f = f.parent
        return out


class Ev:
    """A call/ctor/dtor/throw/store event as a rule sees it."""
    __slots__ = ("kind", "name", "key", "node", "fr", "obj", "args", "locs", "base", "ext", "vt", "nargs")

    def __init__(s, kind, name, key, node, fr, obj, args, locs=None, ext=False, vt=False):
        s.kind, s.name, s.key, s.node, s.fr, s.obj, s.args, s.locs = kind, name, key, node, fr, obj, args, locs
        s.base = name.split("::")[-1]
        if "operator" in name:
            s.base = name[name.rfind("operator"):]
        s.ext, s.vt = ext, vt

    @property
    def line(s):
        return s.node.get("l", 0)

    @property
    def where(s):
        return "%s:%d" % (s.fr.func.short, s.line)

    def __repr__(s):
        return "%s %s(%s)@%s" % (s.kind, s.name, ", ".join(show(a) for a in s.args), s.where)


class Rule:
    """Base of the rules: what to inline and what to observe."""
    max_depth = 9
    max_states = 150
    may_throw_opaque = False
    loop_iters = 1

    def on_call(s, eng, st, ev):      # before; return None, or a list of (state, value) to model the call
        return None

    def on_ret(s, eng, st, ev, val):  # after
        pass

    def on_init(s, eng, st, loc, val, node, fr):      # a local has been initialised
        pass

    store_locals = False      # also report stores to local variables

    def on_store(s, eng, st, loc, val, node, fr):
        pass

    def on_throw(s, eng, st, exc, node, fr):
        pass

    def throws(s, eng, st, ev):       # types an opaque call may raise
        return ()

    def inline(s, eng, f, ev):
        return True

    def resolve(s, eng, st, ev, targets):   # pick the target(s) of a virtual call
        return None

    def on_assume(s, eng, st, term, val, node, fr):
        pass

    def merge_key(s, eng, st):              # facts that joins must keep apart
        return None

    def on_iter(s, eng, st, node, fr):      # a loop iteration starts
        pass

    def on_leave(s, eng, st, node, fr, kind):   # a loop left from within an iteration
        pass

    def on_head(s, eng, st, node, fr, was):     # the variables of a loop were made arbitrary
        pass

    def summarise(s, eng, st, node, fr, eff, place=None):
        # the states after a whole loop, when a rule knows what it does as a whole
        return None


class TooBig(Exception):
    pass


def variant_types(t):
    """the alternatives of the variant that a type is or points to"""
    i = t.find("variant<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for c in t[i + 8:]:
        if c == "<":
            d += 1
        elif c == ">":
            if not d:
                break
            d -= 1
        if c == "," and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


_demangled = {}


def chosen_alternative(mangled, alts):
    """which alternative the first template argument of a function names"""
    if not alts or not mangled:
        return None
    if mangled not in _demangled:
        try:
            _demangled[mangled] = subprocess.run(["c++filt", mangled], capture_output=True, text=True, timeout=20).stdout.strip()
        except (OSError, subprocess.SubprocessError):
            _demangled[mangled] = ""
    m = re.search(r"\b(?:get_if|holds_alternative|get)<", _demangled[mangled])
    if not m:
        return None
    first = variant_types("variant<" + _demangled[mangled][m.end():])[0]
    text = lambda t: re.sub(r"basic_string(_view)?<char, ?std::char_traits<char>(, ?std::allocator<char> ?)?>", r"string\1", re.sub(r"__cxx11::", "", t))
    flat = lambda t: sorted(re.findall(r"[A-Za-z_]\w*$|\*|&|[A-Za-z_]\w*(?![\w:])", re.sub(r"\w+::|\(anonymous namespace\)::", "", text(t))))
    got = [a for a in alts if flat(a) == flat(first)]
    return got[0] if len(got) == 1 else None


class Engine:
    def __init__(s, prog, rule, budget=400000):
        s.P = prog
        s.rule = rule
        s.steps = 0
        s.budget = budget
        s.stat_inlined = set()
        s.paths = 0
        s._mod = {}
        s._exc = []
        s.active = []

    # ------------------------------------------------------------------ locations
    def varloc(s, st, fr, node):
        vid = node["id"]
        if node["k"] == "gvar" or node.get("st"):
            return ("g", node["n"])
        f = fr
        loc = None
        if vid in fr.clo:
            c = fr.clo[vid]
            loc = c
        else:
            loc = ("v", fr.depth, vid, node["n"])
        return st.refs.get(loc, loc)

    def load(s, st, loc, t=None):
        e = st.env
        if loc in e:
            v = e[loc]
            if t and t[-1] == "*" and v[0] not in ("int", "lin", "addr", "lam", "str", "fn"):
                s_ptr.add(v)
            if v[0] == "rec" or (not is_scalar(t) and t is not None):
                return s.snapshot(st, loc, v)
            return v
        if loc == ("g", "std::nullopt"):
            return NULL
        k = loc[0]
        base = None
        if k == "m":
            b = loc[1]
            # a field of an object whose whole value is known
            pv = s._parent_val(st, b)
            if pv is not None:
                base = s._field(st, pv, loc[2])
        if base is None:
            base = s.initial(st, loc)
        if t is not None and not is_scalar(t):
            return s.snapshot(st, loc, base)
        if is_unsigned(t) and base[0] in ("in", "fld"):
            s_unsigned.add(base)
        elif t and t[-1] == "*" and base[0] in ("in", "fld"):
            s_ptr.add(base)
        return base

    def _parent_val(s, st, b):
        e = st.env
        if b in e:
            return e[b]
        if b[0] == "m":
            pv = s._parent_val(st, b[1])
            if pv is not None:
                return s._field(st, pv, b[2])
        return None

    def _field(s, st, pv, f):
        if pv[0] == "in":
            return s.initial(st, ("m", pv[1], f))
        if pv[0] == "rec":
            for k, v in pv[2]:
                if k == (f,):
                    return v
            sub_ = tuple((k[1:], v) for k, v in pv[2] if k[0] == f and len(k) > 1)
            b = s._field(st, pv[1], f)
            return ("rec", b, sub_) if sub_ else b
        if pv[:2] == ("call", "make_pair") and len(pv) == 4 and f.endswith(("::first", "::second")):
            return pv[3 if f.endswith("::second") else 2]
        return ("fld", pv, f)

    def vkey(s, loc):
        k = loc[0]
        if k == "m":
            return ("m", loc[2])
        if k == "d":
            r = root_of(loc[1])
            return r if r[0] != "d" else ("d", r[1])
        return loc

    def initial(s, st, loc):
        n = st.ver.get(s.vkey(loc), 0)
        g = 0
        if loc[0] == "m":
            # versions of the enclosing object
            b = loc[1]
            g = st.ver.get(("o", b), 0)
        return ("in", loc, n + g) if (n or g) else ("in", loc, 0)

    def snapshot(s, st, loc, base):
        if base[0] == "rec":
            return base
        subs = []
        for l in st.env:
            p = s._subpath(l, loc)
            if p:
                subs.append((p, st.env[l]))
        if subs:
            return ("rec", base, tuple(sorted(subs, key=lambda x: x[0])))
        return base

    @staticmethod
    def _subpath(l, loc):
        p = []
        while l[0] == "m":
            p.append(l[2])
            l = l[1]
            if l == loc:
                return tuple(reversed(p))
        return None

    def kill_sub(s, st, loc):
        dead = [l for l in st.env if l[0] == "m" and s._subpath(l, loc)]
        for l in dead:
            del st.env[l]

    def store(s, st, loc, val, node=None, fr=None):
        s.kill_sub(st, loc)
        s.prev = st.env.get(loc)
        if val[0] == "rec":
            st.env[loc] = val[1]
            for p, v in val[2]:
                l = loc
                for f in p:
                    l = ("m", l, f)
                st.env[l] = v
        else:
            st.env[loc] = val
        if fr is not None and (loc[0] in ("m", "d", "g") or loc[0] == "v" and s.rule.store_locals):
            s.rule.on_store(s, st, loc, val, node, fr)
        if loc[0] in ("d", "m") or ("mem", loc) in st.ver:
            s.bump(st, loc)
        if loc[0] == "d":
            # other cells of the same buffer through a different offset are no longer known
            r = s.vkey(loc)
            for l in [l for l in st.env if l[0] == "d" and l != loc and s.vkey(l) == r]:
                c1, d1 = lin(l[1])
                c2, d2 = lin(loc[1])
                if d1 == d2 and c1 != c2:
                    continue
                del st.env[l]

    def bump(s, st, loc):
        """The bytes reachable through pointers into loc are no longer what they were."""
        r = s.memroot(loc)
        k = ("mem", r)
        st.ver[k] = st.ver.get(k, 0) + 1

    @staticmethod
    def memroot(loc):
        while True:
            if loc[0] == "d":
                r = root_of(loc[1])
                if r[0] == "d":
                    return r
                loc = r
            elif loc[0] == "el":
                loc = loc[1]
            else:
                return loc

    def havoc(s, st, loc, why):
        s.kill_sub(st, loc)
        s.bump(st, loc)
        if loc[0] == "d":
            r = s.vkey(loc)
            for l in [l for l in st.env if l[0] == "d" and s.vkey(l) == r]:
                del st.env[l]
            st.ver[r] = st.ver.get(r, 0) + 1
            if r[0] != "d":
                st.env[r] = ("havoc",) + st.fresh(why)
            return
        if loc[0] == "m" or loc[0] == "g":
            st.env.pop(loc, None)
        st.env[loc] = ("havoc",) + st.fresh(why)
        st.ver[("o", loc)] = st.ver.get(("o", loc), 0) + 1

    def havoc_ptr(s, st, ptr, why):
        if ptr[0] == "addr":
            s.havoc(st, ptr[1], why)
        elif ptr[0] == "int" or ptr[0] in ("str", "lam", "fn"):
            return
        else:
            r = root_of(ptr)
            if r[0] == "d":
                s.havoc(st, ("d", ptr), why)
            else:
                s.havoc(st, r, why)

    @staticmethod
    def deref(ptr):
        if ptr[0] == "addr":
            return ptr[1]
        if ptr[0] == "in" and False:
            return ptr
        return ("d", ptr)

    @staticmethod
    def addr(loc):
        if loc[0] == "d":
            return loc[1]
        return ("addr", loc)

    # ------------------------------------------------------------------ expressions
    def ev_list(s, es, st, fr, lv=None):
        outs = [(st, [], [])]
        for i, e in enumerate(es):
            nxt = []
            for st1, vs, ls in outs:
                byref = lv is not None and i < len(lv) and lv[i] in ("r", "cr", "rr")
                if byref:
                    for st2, l in s.lval(e, st1, fr):
                        v = s.load(st2, l, e.get("t", "class"))
                        nxt.append((st2, vs + [v], ls + [l]))
                else:
                    for st2, v in s.ev(e, st1, fr):
                        nxt.append((st2, vs + [v], ls + [None]))
            outs = nxt
        return outs

    def ev(s, e, st, fr):
        """rvalue: list of (state, term); exceptional outcomes go to self._exc"""
        s.steps += 1
        if s.steps > s.budget:
            raise TooBig("step budget exceeded in %s" % fr.func.n)
        m = getattr(s, "x_" + e["k"], None)
        if m is None:
            return s.x_other(e, st, fr)
        return m(e, st, fr)

    def x_int(s, e, st, fr):
        v = e["v"]
        return [(st, I(int(v)))]

    def x_float(s, e, st, fr):
        return [(st, ("float", e.get("v")))]

    def x_str(s, e, st, fr):
        return [(st, ("str", e.get("v", "")))]

    def x_nullptr(s, e, st, fr):
        return [(st, NULL)]

    def x_null(s, e, st, fr):
        return [(st, NULL)]

    def x_this(s, e, st, fr):
        return [(st, s.addr(fr.this) if fr.this else ("this",))]

    def _arr(s, t):
        return bool(t) and t.endswith("]")

    def x_var(s, e, st, fr):
        loc = s.varloc(st, fr, e)
        if s._arr(e.get("t")):
            return [(st, ("addr", loc))]
        return [(st, s.load(st, loc, e.get("t")))]

    x_gvar = x_var

    def x_ref(s, e, st, fr):
        return [(st, ("sym", e["n"]))]

    def x_fn(s, e, st, fr):
        return [(st, ("fn", e["f"], e["n"]))]

    def x_mem(s, e, st, fr):
        out = []
        for st1, loc in s.lval(e, st, fr):
            if s._arr(e.get("t")):
                out.append((st1, ("addr", loc)))
            else:
                out.append((st1, s.load(st1, loc, e.get("t"))))
        return out

    def x_idx(s, e, st, fr):
        return [(st1, s.load(st1, l, e.get("t")) if not s._arr(e.get("t")) else ("addr", l))
                for st1, l in s.lval(e, st, fr)]

    def x_un(s, e, st, fr):
        op = e["op"]
        if op == "&":
            a = e["a"]
            if a["k"] == "fn":
                return s.ev(a, st, fr)
            return [(st1, s.addr(l)) for st1, l in s.lval(a, st, fr)]
        if op == "*":
            return [(st1, s.load(st1, l, e.get("t"))) for st1, l in s.lval(e, st, fr)]
        if op == "!":
            return [(st1, I(0 if b else 1)) if b is not None else (st1, t)
                    for st1, b, t in s._cond_val(e["a"], st, fr, neg=True)]
        out = []
        for st1, v in s.ev(e["a"], st, fr):
            if op == "-":
                out.append((st1, scale(v, -1)))
            elif op == "~":
                out.append((st1, I(~v[1]) if v[0] == "int" else ("op", "~", v, I(0))))
            else:
                out.append((st1, ("un", op, v)))
        return out

    def _cond_val(s, e, st, fr, neg=False):
        out = []
        for st1, v in s.ev(e, st, fr):
            d = st1.decide(v)
            if d is None:
                out.append((st1, None, ("not", v) if neg else v))
            else:
                out.append((st1, d, None))
        return out

    def x_bin(s, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for st1, b in s.cond(e, st, fr):
                out.append((st1, TRUE if b else FALSE))
            return out
        if op == ",":
            out = []
            for st1, _ in s.ev(e["a"], st, fr):
                out += s.ev(e["b"], st1, fr)
            return out
        if op in ("&", "|", "^") and s._boolish(e["a"]) and s._boolish(e["b"]):
            # bitwise on truth values: both sides are evaluated, then combined
            out = []
            for st1, a in s.cond(e["a"], st, fr):
                for st2, b in s.cond(e["b"], st1, fr):
                    r = (a and b) if op == "&" else (a or b) if op == "|" else a != b
                    out.append((st2, TRUE if r else FALSE))
            return out
        out = []
        for st1, a in s.ev(e["a"], st, fr):
            for st2, b in s.ev(e["b"], st1, fr):
                out.append((st2, s.binop(st2, op, a, b, e)))
        return out

    @staticmethod
    def _boolish(e):
        while e["k"] == "cast":
            if e.get("t") == "bool":
                return True
            e = e["a"]
        return e.get("t") in ("bool", "const bool") or (e["k"] == "un" and e["op"] == "!") or (
            e["k"] == "bin" and e["op"] in ("&&", "||", "==", "!=", "<", ">", "<=", ">="))

    def binop(s, st, op, a, b, e=None):
        if op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
        elif op == "*":
            r = mul(a, b)
        elif op == "==":
            r = ("eq0", sub(a, b))
        elif op == "!=":
            r = ("not", ("eq0", sub(a, b)))
        elif op == "<":
            r = ("ge0", add(sub(b, a), I(-1)))
        elif op == "<=":
            r = ("ge0", sub(b, a))
        elif op == ">":
            r = ("ge0", add(sub(a, b), I(-1)))
        elif op == ">=":
            r = ("ge0", sub(a, b))
        elif a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            try:
                r = I({"/": lambda: int(x / y) if (x < 0) != (y < 0) else x // y, "%": lambda: x % y,
                       "&": lambda: x & y, "|": lambda: x | y,
                       "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y}[op]())
            except Exception:
                r = ("op", op, a, b)
        else:
            if op in ("&", "|", "^"):
                a, b = sorted((a, b), key=tid)
            if op == "/" and b == I(1):
                return a
            if op == "<<" and b[0] == "int" and 0 <= b[1] < 62:
                return scale(a, 1 << b[1])
            if op == "&" and (a[0] == "int" or b[0] == "int"):
                r = masked(b, a[1]) if a[0] == "int" else masked(a, b[1])
                if r[0] == "int":
                    return r
            else:
                r = ("op", op, a, b)
            if e is not None and is_unsigned(e.get("t")):
                s_unsigned.add(r)
        if r[0] in ("eq0", "ge0") and r[1][0] == "int":
            d = st.decide(r)
            return TRUE if d else FALSE
        if r[0] == "not" and r[1][0] in ("eq0",) and r[1][1][0] == "int":
            return TRUE if r[1][1][1] != 0 else FALSE
        return r

    def x_cond(s, e, st, fr):
        out = []
        for st1, b in s.cond(e["c"], st, fr):
            out += s.ev(e["a"] if b else e["b"], st1, fr)
        return out

    def x_cast(s, e, st, fr):
        t = e["t"]
        out = []
        for st1, v in s.ev(e["a"], st, fr):
            if t == "bool":
                d = st1.decide(v)
                if v[0] in ("eq0", "ge0", "not"):
                    out.append((st1, v))
                elif d is not None:
                    out.append((st1, TRUE if d else FALSE))
                else:
                    out.append((st1, ("not", ("eq0", v))))
                continue
            b = tbits(t)
            sb = tbits(e["a"].get("t")) if e["a"].get("k") != "int" else None
            if b and sb is None and e["a"].get("k") in ("bin", "call", "cond", "un"):
                sb = tbits(e["a"].get("t"))
            if b and b < 64 and (sb is None or sb > b) and v[0] not in ("int", "eq0", "ge0", "not"):
                lo, hi = st1.rng(v)
                if is_unsigned(t) and not (lo >= 0 and hi < (1 << b)):
                    v = ("trunc", b, v)
                else:
                    pass
            out.append((st1, v))
        return out

    def x_bitcast(s, e, st, fr):
        return s.ev(e["a"], st, fr)

    x_downcast = x_bitcast

    def x_dyncast(s, e, st, fr):
        out = []
        for st1, v in s.ev(e["a"], st, fr):
            out.append((st1, ("call", "dyncast:" + e["t"], v)))
        return out

    def x_asg(s, e, st, fr):
        out = []
        for st1, loc, val in s._assign(e, st, fr):
            out.append((st1, val))
        return out

    def _assign(s, e, st, fr):
        out = []
        op = e["op"][:-1]
        for st1, v in s.ev(e["b"], st, fr):
            for st2, loc in s.lval(e["a"], st1, fr):
                if op:
                    old = s.load(st2, loc, e.get("t"))
                    v2 = s.binop(st2, op, old, v, e)
                else:
                    v2 = v
                s.store(st2, loc, v2, e, fr)
                out.append((st2, loc, v2))
        return out

    def x_inc(s, e, st, fr):
        out = []
        for st1, loc in s.lval(e["a"], st, fr):
            old = s.load(st1, loc, e["a"].get("t"))
            new = add(old, I(1 if e["op"] == "++" else -1))
            s.store(st1, loc, new, e, fr)
            out.append((st1, new if e["pre"] else old))
        return out

    def x_throw(s, e, st, fr):
        if e.get("a") is None:
            exc = st.exc[-1] if st.exc else ("?", (), ("unknown",))
            s.rule.on_throw(s, st, exc, e, fr)
            s._exc.append((st, exc))
            return []
        for st1, v in s.ev(e["a"], st, fr):
            exc = (e.get("t", "?"), tuple(e.get("bases", ())), v)
            s.rule.on_throw(s, st1, exc, e, fr)
            s._exc.append((st1, exc))
        return []

    def x_lambda(s, e, st, fr):
        states = [(st, [])]
        for c in e["caps"]:
            nxt = []
            for st1, cl in states:
                if c.get("this"):
                    nxt.append((st1, cl))
                elif c.get("init"):
                    for st2, v in s.ev(c["init"], st1, fr):
                        nxt.append((st2, cl + [(c["id"], "v", v)]))
                elif c.get("id"):
                    loc = s.varloc(st1, fr, dict(k="var", id=c["id"], n=c["n"]))
                    if c["by"] == "ref":
                        nxt.append((st1, cl + [(c["id"], "r", loc)]))
                    else:
                        nxt.append((st1, cl + [(c["id"], "v", s.load(st1, loc, "class"))]))
                else:
                    nxt.append((st1, cl))
            states = nxt
        keys = (e["f"],) + tuple(e.get("gen", ()))
        return [(st1, ("lam", keys, tuple(cl), fr.this)) for st1, cl in states]

    def x_list(s, e, st, fr):
        out = []
        for st1, vs, _ in s.ev_list(e["a"], st, fr):
            r = s.P.record_of(e.get("t", ""))
            if r and not r["bases"]:
                fields = [f["n"] for f in r["fields"]]
                subs = tuple(((f,), v) for f, v in zip(fields, vs))
                base = ("new", "list") + st1.fresh(fr.func.key, e.get("l"), "list")
                out.append((st1, ("rec", base, tuple(sorted(subs))) if subs else base))
            elif len(vs) == 1 and is_scalar(e.get("t")):
                out.append((st1, vs[0]))
            else:
                out.append((st1, ("list",) + tuple(vs)))
        return out

    def x_zero(s, e, st, fr):
        if is_scalar(e.get("t")):
            return [(st, I(0))]
        return [(st, ("zero", e.get("t")))]

    def x_new(s, e, st, fr):
        loc = ("h",) + st.fresh(fr.func.key, e.get("l"), "new")
        st.cls[loc] = e["t"]
        if e.get("a"):
            return [(st1, ("addr", loc)) for st1 in s.ev_into(e["a"], st, fr, loc)]
        return [(st, ("addr", loc))]

    def x_delete(s, e, st, fr):
        out = []
        for st1, v in s.ev(e["a"], st, fr):
            ev = Ev("delete", "delete", None, e, fr, None, [v])
            s.rule.on_call(s, st1, ev)
            out.append((st1, I(0)))
        return out

    def x_typeid(s, e, st, fr):
        return [(st, ("typeid", e.get("l")))]

    def x_sizeof(s, e, st, fr):
        return [(st, ("sizeof", e.get("l")))]

    def x_other(s, e, st, fr):
        out = []
        for st1, vs, _ in s.ev_list([a for a in e.get("a", ()) if isinstance(a, dict)] if isinstance(e.get("a"), list) else [], st, fr):
            out.append((st1, ("ret", e.get("c", e["k"])) + st1.fresh(fr.func.key, e.get("l"), "other")))
        return out

    # ---- class-valued
    def x_ctor(s, e, st, fr):
        """rvalue of a constructor expression"""
        name = P_.strip_t(e["cls"])
        tmp = ("t", fr.depth) + st.fresh(fr.func.key, e.get("l"), "tmp")
        out = []
        slot = s._disc.get(id(e))
        for st1, v in s.ctor_value(e, st, fr, tmp):
            if slot:
                st1.env[slot] = tmp
                if v is not None:
                    s.store(st1, tmp, v)
            if v is None:
                out.append((st1, s.snapshot(st1, tmp, s.load(st1, tmp, "class"))))
            else:
                out.append((st1, v))
        return out

    def ctor_value(s, e, st, fr, loc):
        """Run a constructor for the object at loc.  Yields (state, value or None if built in place)."""
        name = P_.strip_t(e["cls"])
        args = e["a"]
        f = s.P.funcs.get(e["f"])
        out = []
        if e.get("cp") and len(args) >= 1 and not (f and f.d.get("ctor") and f.body and not f.d.get("impl")):
            return s.ev(args[0], st, fr)
        for st1, vs, ls in s.ev_list(args, st, fr, e.get("pt")):
            ev = Ev("ctor", name + "::" + name.split("::")[-1], e["f"], e, fr, loc, vs, ls, ext=bool(e.get("ext")))
            r = s.rule.on_call(s, st1, ev)
            if r is not None:
                out += r
                continue
            if f and f.d.get("ctor") and not e.get("ext") and s.can_inline(f, ev, fr):
                st1.cls[loc] = e["cls"]
                for st2, _ in s.call_body(st1, f, fr, loc, vs, ls, e, cls=e["cls"]):
                    s.rule.on_ret(s, st2, ev, None)
                    out.append((st2, None))
                continue
            for t in s.rule.throws(s, st1, ev):
                st2 = st1.copy()
                exc = t if isinstance(t, tuple) else (t, s.exc_bases(t), ("ext",))
                s._exc.append((st2, exc))
            if name.startswith(STRINGY) or (len(vs) == 1 and name.startswith("std::tuple")):
                nv = [v for v, a in zip(vs, args) if not P_.strip_t(a.get("cls", "") or a.get("t", "")).startswith("std::allocator")]
                if len(nv) == 1:
                    v = nv[0]
                    s.rule.on_ret(s, st1, ev, v)
                    out.append((st1, v))
                    continue
                if not nv:
                    z = NULL if name.startswith(("std::unique_ptr", "std::shared_ptr", "std::function", "std::optional")) else ("ctor", name)
                    out.append((st1, z))
                    continue
            if not e.get("ext"):
                st1.cls[loc] = e["cls"]
            rec = s.P.record_of(e["cls"])
            if rec and not vs:
                # implicit default constructor: the in-class initialisers
                base = ("new", name) + st1.fresh(fr.func.key, e.get("l"), "obj")
                sts = [st1]
                st1.env[loc] = base
                for fl in rec["fields"]:
                    if fl.get("init"):
                        nx = []
                        for s2 in sts:
                            f2 = Frame(fr.func, fr.depth, loc, fr.clo, fr, e.get("l"))
                            nx += s.ev_into(fl["init"], s2, f2, ("m", loc, fl["n"]))
                        sts = nx
                for s2 in sts:
                    s.rule.on_ret(s, s2, ev, None)
                    out.append((s2, None))
                continue
            v = ("ctor", name) + tuple(vs)
            if not vs:
                v = ("new", name) + st1.fresh(fr.func.key, e.get("l"), "obj")
            s.opaque_effects(st1, e, None, vs, ls, fr)
            s.rule.on_ret(s, st1, ev, v)
            out.append((st1, v))
        return out

    def ev_into(s, e, st, fr, loc):
        """evaluate e as the initialiser of the object at loc; returns states"""
        if e["k"] == "ctor":
            out = []
            for st1, v in s.ctor_value(e, st, fr, loc):
                if v is not None:
                    s.store(st1, loc, v, e, fr if loc[0] == "m" else None)
                out.append(st1)
            return out
        out = []
        for st1, v in s.ev(e, st, fr):
            s.store(st1, loc, v, e, fr if loc[0] == "m" else None)
            out.append(st1)
        return out

    # ---- lvalues
    def lval(s, e, st, fr):
        k = e["k"]
        if k in ("var", "gvar"):
            return [(st, s.varloc(st, fr, e))]
        if k == "mem":
            out = []
            if e["arrow"]:
                for st1, p in s.ev(e["b"], st, fr):
                    out.append((st1, ("m", s.deref(p), e["f"])))
            else:
                for st1, b in s.lval(e["b"], st, fr):
                    out.append((st1, ("m", b, e["f"])))
            return out
        if k == "un" and e["op"] == "*":
            return [(st1, s.deref(p)) for st1, p in s.ev(e["a"], st, fr)]
        if k == "idx":
            out = []
            for st1, p in s.ev(e["a"], st, fr):
                for st2, i in s.ev(e["b"], st1, fr):
                    out.append((st2, s.deref(add(p, i))))
            return out
        if k == "asg":
            return [(st1, loc) for st1, loc, _ in s._assign(e, st, fr)]
        if k == "inc" and e["pre"]:
            out = []
            for st1, loc in s.lval(e["a"], st, fr):
                old = s.load(st1, loc)
                s.store(st1, loc, add(old, I(1 if e["op"] == "++" else -1)), e, fr)
                out.append((st1, loc))
            return out
        if k in ("cast", "bitcast", "downcast") and not is_scalar(e.get("t")):
            return s.lval(e["a"], st, fr)
        if k == "dyncast" and not e.get("t", "").endswith("*"):
            return s.lval(e["a"], st, fr)
        if k == "cond":
            out = []
            for st1, b in s.cond(e["c"], st, fr):
                out += s.lval(e["a"] if b else e["b"], st1, fr)
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for st1, _ in s.ev(e["a"], st, fr):
                out += s.lval(e["b"], st1, fr)
            return out
        if k == "call":
            out = []
            for st1, v, loc in s.call(e, st, fr, want_lv=True):
                if loc is not None:
                    out.append((st1, loc))
                else:
                    tmp = ("t", fr.depth) + st1.fresh(fr.func.key, e.get("l"), "tmp")
                    s.store(st1, tmp, v)
                    out.append((st1, tmp))
            return out
        if k == "ctor":
            tmp = ("t", fr.depth) + st.fresh(fr.func.key, e.get("l"), "tmp")
            out = []
            slot = s._disc.get(id(e))
            for st1, v in s.ctor_value(e, st, fr, tmp):
                if slot:
                    st1.env[slot] = tmp
                if v is not None:
                    s.store(st1, tmp, v)
                out.append((st1, tmp))
            return out
        if k == "this":
            return [(st, ("thisptr", fr.depth))]
        out = []
        for st1, v in s.ev(e, st, fr):
            tmp = ("t", fr.depth) + st1.fresh(fr.func.key, e.get("l"), "tmp")
            s.store(st1, tmp, v)
            out.append((st1, tmp))
        return out

    # ------------------------------------------------------------------ calls
    def x_call(s, e, st, fr):
        return [(st1, s.load(st1, loc, e.get("t")) if v is None else v)
                for st1, v, loc in s.call(e, st, fr)]

    def can_inline(s, f, ev, fr):
        if not f.body and not f.d.get("ctor"):
            return False
        if fr.depth >= s.rule.max_depth:
            return False
        x = fr
        while x:
            if x.func.key == f.key:
                return False
            x = x.parent
        if f.sn.startswith("stdex::") or (f.n.startswith(("stdex::",)) and "(lambda" in f.n):
            return True     # scope-guard glue
        return s.rule.inline(s, f, ev)

    def call(s, e, st, fr, want_lv=False):
        """list of (state, value or None, location or None)"""
        name = P_.strip_t(e.get("n") or "")
        base = name.split("::")[-1]
        if "operator" in name:
            base = name[name.rfind("operator"):]
        if e.get("op") == "()":
            base = "operator()"
        out = []
        # -------- receiver
        objs = [(st, None)]
        o = e.get("o")
        if o is not None:
            if e.get("arrow"):
                objs = [(st1, s.deref(p)) for st1, p in s.ev(o, st, fr)]
            elif o["k"] == "this":
                objs = [(st, fr.this)]
            else:
                objs = s.lval(o, st, fr)
        for st0, obj in objs:
            fxs = [(st0, None)]
            if e.get("fx"):
                fxs = s.ev(e["fx"], st0, fr)
            for st1, fx in fxs:
                for st2, vs, ls in s.ev_list(e["a"], st1, fr, e.get("pt")):
                    out += s.call1(e, st2, fr, name, base, obj, fx, vs, ls)
        return out

    def call1(s, e, st, fr, name, base, obj, fx, vs, ls):
        ext = bool(e.get("ext"))
        ev = Ev("call", name, e.get("f"), e, fr, obj, vs, ls, ext=ext, vt=bool(e.get("vt")))
        r = s.rule.on_call(s, st, ev)
        if r is not None:
            return [(x[0], x[1], x[2] if len(x) > 2 else None) for x in r]
        # -------- calling a known closure
        fv = fx
        if fx is None and base == "operator()" and obj is not None:
            fv = s.load(st, obj, "class")
        if fv is not None and fv[0] == "lam":
            return s.call_lambda(e, st, fr, fv, vs, ls, ev)
        if fv is not None and fv[0] == "fn":
            f = s.P.funcs.get(fv[1])
            if f and s.can_inline(f, ev, fr):
                return s.finish(ev, s.call_body(st, f, fr, None, vs, ls, e))
        # -------- std vocabulary
        m = s.model(e, st, fr, name, base, obj, vs, ls, ev)
        if m is not None:
            for st1, v, _ in m:
                s.rule.on_ret(s, st1, ev, v)
            return m
        # -------- repository code
        if not ext and e.get("f"):
            targets = s.targets(e, st, ev, obj)
            outs = []
            done = True
            if targets:
                for i, f in enumerate(targets):
                    if not s.can_inline(f, ev, fr):
                        done = False
                        break
                if done:
                    for i, f in enumerate(targets):
                        st1 = st if i == len(targets) - 1 else st.copy()
                        outs += s.finish(ev, s.call_body(st1, f, fr, obj, vs, ls, e))
                    return outs
        # -------- opaque
        return s.opaque(e, st, fr, name, base, obj, vs, ls, ev)

    def finish(s, ev, rs):
        out = []
        for st, v in rs:
            loc = None
            if v is not None and v[0] == "lvref":
                loc = v[1]
                s.rule.on_ret(s, st, ev, ("addr", loc))
                out.append((st, None, loc))
            else:
                s.rule.on_ret(s, st, ev, v)
                out.append((st, v if v is not None else I(0), None))
        return out

    def targets(s, e, st, ev, obj):
        k = e["f"]
        if not e.get("vt"):
            f = s.P.funcs.get(k)
            return [f] if f and (f.body or f.d.get("ctor")) else []
        ts = [t for t in s.P.targets(e) if t.body]
        r = s.rule.resolve(s, st, ev, ts)
        if r is not None:
            return r
        c = st.cls.get(obj)
        if c is None and obj is not None and obj == ev.fr.this:
            c = ev.fr.cls
        if c:
            f = s.find_override(c, k)
            if f:
                return [f]
        if len(ts) == 1:
            # a single implementation in the whole program
            decl = s.P.funcs.get(k)
            return ts
        return []

    def find_override(s, cls, key):
        ok = {key} | s.P.all_overriders(key)
        order = [cls] + s.P.all_bases(cls)
        for c in order:
            r = s.P.rec_by_t.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["key"] in ok and not m["pure"]:
                    f = s.P.funcs.get(m["key"])
                    if f and f.body:
                        return f
        return None

    def call_lambda(s, e, st, fr, lam, vs, ls, ev):
        for k in lam[1]:
            f = s.P.funcs.get(k)
            if f and f.body and len(f.d["p"]) == len(vs):
                break
        else:
            return s.opaque(e, st, fr, "lambda", "lambda", None, vs, ls, ev)
        if not s.can_inline(f, ev, fr):
            return s.opaque(e, st, fr, "lambda", "lambda", None, vs, ls, ev)
        return s.finish(ev, s.call_body(st, f, fr, lam[3], vs, ls, e, lam=lam))

    def model_visit(s, e, st, fr, vs, ls, ev):
        """std::visit with closures: one path for each alternative"""
        vis = vs[0]
        if vis is not None and vis[0] == "in":
            vis = s.load(st, vis[1], "class")
        lams = [vis] if vis is not None and vis[0] == "lam" else list(vis[1:]) if vis is not None and vis[0] in ("list", "ctor") else []
        if vis is not None and vis[0] == "rec":
            lams = [v for _, v in vis[2]]
        lams = [x for x in lams if isinstance(x, tuple) and x and x[0] in ("lam", "in")]
        alts, used = [], set()
        for x in lams:
            if x[0] != "lam":
                return None
            for k in x[1]:
                f = s.P.funcs.get(k)
                if not f or not f.body or len(f.d["p"]) != 1 or not s.can_inline(f, ev, fr):
                    return None
                t = P_.strip_t(f.d["p"][0]["t"].replace("&", ""))
                if t not in used:
                    used.add(t)
                    alts.append((t, f, ("lam", (k,), x[2], x[3])))
        if not alts:
            return None
        var, out = vs[1], []
        for t, f, lam in alts:
            st1 = st.copy()
            ok = all(st1.assume(("call", "holds", ("str", o), var), o == t) for o, _, _ in alts)
            if not ok:
                continue
            s.rule.on_assume(s, st1, ("call", "holds", ("str", t), var), True, e, fr)
            v = ("call", "get", ("str", t), var)
            loc = ("t", fr.depth) + st1.fresh(fr.func.key, e.get("l"), "tmp")
            s.store(st1, loc, v, e, fr)
            out += s.call_lambda(e, st1, fr, lam, [v], [loc], ev)
        return out or None

    def model_alternative(s, e, st, fr, v, l, base):
        """std::get_if, std::holds_alternative and std::get of a variant: one path for each answer"""
        alts = variant_types(e["a"][0].get("t") or "") if e.get("a") else []
        mine = chosen_alternative(e.get("f", ""), alts)
        if mine is None:
            return None
        if base == "get_if":
            if v is not None and v[0] == "addr":
                v = s.load(st, v[1])
            else:
                v = ("call", "deref", v)
        elif l is not None:
            v = s.load(st, l)
        got = ("call", "get", ("str", mine), v)
        if base == "get":
            return [(st, got, None)]
        out = []
        for o in alts:
            st1 = st.copy()
            if not all(st1.assume(("call", "holds", ("str", x), v), x == o) for x in alts):
                continue
            s.rule.on_assume(s, st1, ("call", "holds", ("str", o), v), True, e, fr)
            if base == "holds_alternative":
                out.append((st1, TRUE if o == mine else FALSE, None))
            elif o == mine:
                loc = ("t", fr.depth) + st1.fresh(fr.func.key, e.get("l"), "alt")
                s.store(st1, loc, got, e, fr)
                out.append((st1, ("addr", loc), None))
            else:
                out.append((st1, NULL, None))
        return out or None

    def run_callback(s, st, ev, lam, vals=None):
        """what a callee that calls this closure once does: [(state, value)]; exceptions are recorded as usual"""
        for k in lam[1]:
            f = s.P.funcs.get(k)
            if f and f.body:
                break
        else:
            return [(st, I(0))]
        ps = f.d["p"]
        if vals is None:
            vals = [("ret", "callback") + st.fresh(f.key, ev.node.get("l", 0), "p%d" % i) for i in range(len(ps))]
        vals = list(vals)[:len(ps)]
        s.rule.on_iter(s, st, ev.node, ev.fr)
        return s.call_body(st, f, ev.fr, lam[3], vals, [None] * len(vals), ev.node, lam=lam)

    def call_body(s, st, f, fr, this, vs, ls, e, lam=None, cls=None):
        """inline f; returns list of (state, value) for normal returns"""
        s.stat_inlined.add(f.key)
        depth = fr.depth + 1
        clo = {}
        if lam:
            for vid, how, x in lam[2]:
                if how == "r":
                    clo[vid] = x
                else:
                    loc = ("v", depth, vid, "cap")
                    s.store(st, loc, x)
                    clo[vid] = loc
        if cls is None and this is not None:
            cls = st.cls.get(this)
            if cls is None and this == fr.this:
                cls = fr.cls
            if cls is None and lam is not None:
                cls = fr.cls
        nf = Frame(f, depth, this, clo, Frame(fr.func, fr.depth, fr.this, fr.clo, fr.parent, e.get("l", 0)), 0, cls)
        # parameters
        for i, p in enumerate(f.d["p"]):
            loc = ("v", depth, p["id"], p["n"])
            st.refs.pop(loc, None)
            if i < len(vs):
                if p["t"].endswith("&") and ls and i < len(ls) and ls[i] is not None:
                    st.refs[loc] = ls[i]
                else:
                    s.store(st, loc, vs[i])
            else:
                s.store(st, loc, ("in", loc, 0))
        return s.run_body(st, f, nf, fr)

    def run_body(s, st, f, nf, fr):
        saved = s._exc
        s._exc = []
        try:
            states = [st]
            if f.d.get("ctor"):
                states = s.run_inits(st, f, nf)
            outs = []
            excs = s._exc
            s._exc = []
            for st1, exc in excs:
                outs.append(("t", st1, exc))
            for st1 in states:
                if f.body:
                    outs += s.exec(f.body, st1, nf)
                else:
                    outs.append(("n", st1, None))
        finally:
            s._exc = saved
        res = []
        for kind, st1, v in outs:
            if kind in ("n", "r"):
                s.pop_frame(st1, nf.depth)
                res.append((st1, v))
            elif kind == "t":
                s.pop_frame(st1, nf.depth)
                if f.d.get("nx"):
                    s.rule_terminate(st1, v, nf)
                    continue
                s._exc.append((st1, v))
            elif kind == "x":
                pass
        if len(res) > s.rule.max_states:
            res = [(a, b) for _, a, b in s.merge([("n", x, y) for x, y in res], f, True)]
        return res

    def rule_terminate(s, st, exc, fr):
        h = getattr(s.rule, "on_terminate", None)
        if h:
            h(s, st, exc, fr)

    def run_inits(s, st, f, nf):
        states = [st]
        for i in f.d.get("inits", ()):
            e = i.get("e")
            if e is None:
                continue
            nx = []
            for st1 in states:
                if i.get("field"):
                    loc = ("m", nf.this, i["field"])
                    rec = s.P.rec_by_t.get(nf.func.cls)
                    ft = ""
                    for fl in (rec["fields"] if rec else ()):
                        if fl["n"] == i["field"]:
                            ft = fl["t"]
                    if ft.endswith("&"):
                        for st2, l in s.lval(e, st1, nf):
                            st2.refs[loc] = l
                            s.store(st2, loc, ("addr", l))
                            nx.append(st2)
                    else:
                        nx += s.ev_into(e, st1, nf, loc)
                else:
                    # base or delegating: same object
                    if e["k"] == "ctor":
                        for st2, v in s.ctor_value_base(e, st1, nf):
                            nx.append(st2)
                    else:
                        nx += [st2 for st2, _ in s.ev(e, st1, nf)]
            states = nx
        return states

    def ctor_value_base(s, e, st, nf):
        f = s.P.funcs.get(e["f"])
        out = []
        if f and f.d.get("ctor") and not e.get("ext"):
            args = e["a"]
            for st1, vs, ls in s.ev_list(args, st, nf, e.get("pt")):
                if e.get("inh"):
                    vs = [s.load(st1, ("v", nf.depth, p["id"], p["n"]), p["t"]) for p in nf.func.d["p"]]
                    ls = [None] * len(vs)
                name = P_.strip_t(e["cls"])
                ev = Ev("ctor", name + "::" + name.split("::")[-1], e["f"], e, nf, nf.this, vs, ls)
                r = s.rule.on_call(s, st1, ev)
                if r is not None:
                    out += r
                elif s.can_inline(f, ev, nf):
                    out += s.call_body(st1, f, nf, nf.this, vs, ls, e, cls=nf.cls)
                else:
                    out.append((st1, None))
            return out
        keep = st.cls.get(nf.this)
        res = []
        for st1, vs, ls in s.ev_list(e["a"], st, nf, e.get("pt")):
            res.append((st1, None))
        return res

    def pop_frame(s, st, depth):
        for l in [l for l in st.env if s._frame_of(l) == depth]:
            del st.env[l]
        for l in [l for l in st.refs if s._frame_of(l) == depth]:
            del st.refs[l]

    @staticmethod
    def _frame_of(l):
        while l[0] == "m":
            l = l[1]
        if l[0] in ("v", "t"):
            return l[1]
        return None

    def exc_bases(s, t):
        b = [t] + list(s.P.all_bases(t))
        if t.startswith("std::"):
            b += ["std::exception"]
        return tuple(b)

    def opaque(s, e, st, fr, name, base, obj, vs, ls, ev):
        for t in s.rule.throws(s, st, ev):
            st2 = st.copy()
            exc = t if isinstance(t, tuple) else (t, s.exc_bases(t), ("ext",))
            s._exc.append((st2, exc))
        if e.get("nr"):
            h = getattr(s.rule, "on_noreturn", None)
            if h:
                h(s, st, ev)
            return []
        ext = bool(e.get("ext"))
        const = e.get("cm")
        pure = False
        if e.get("o") is not None and const and base not in ("operator()",):
            pure = True
        elif e.get("o") is None and ((ext and base in PURE_FREE) or (not ext and base in PURE_FREE)):
            pure = True
        if pure and ext and obj is None and len(vs) == 2 and base in ("operator==", "operator!=") and len(e["a"]) == 2:
            # an owning pointer compared with nullptr
            for a, o in ((0, 1), (1, 0)):
                if e["a"][a].get("k") == "nullptr" and vs[a] == I(0) and vs[o] is not None:
                    v = ("eq0", vs[o]) if vs[o] != I(0) else TRUE
                    v = v if base == "operator==" else FALSE if v == TRUE else ("not", v)
                    s.rule.on_ret(s, st, ev, v)
                    return [(st, v, None)]
        if pure:
            ov = ()
            if obj is not None:
                ov = (s.load(st, obj, "class"),)
            v = ("call", e.get("f") if not ext else base) + ov + tuple(vs)
            vers = []
            for i, a in enumerate(vs):
                if i < len(e.get("pt", ())) and (e["pt"][i] in ("p", "cp") or a[0] == "addr" or
                                                 (a[0] == "lin" and any(x[0] == "addr" for x, _ in a[2]))):
                    vers.append(st.ver.get(("mem", s.memroot(("d", a))), 0))
            if any(vers):
                v = v + (("vers",) + tuple(vers),)
            if is_unsigned(e.get("t")):
                s_unsigned.add(v)
            h = getattr(s.rule, "purity", None)
            s.rule.on_ret(s, st, ev, v)
            return [(st, v, None)]
        s.opaque_effects(st, e, obj, vs, ls, fr)
        v = ("ret", name) + st.fresh(fr.func.key, e.get("l", 0), base)
        if is_unsigned(e.get("t")):
            s_unsigned.add(v)
        s.rule.on_ret(s, st, ev, v)
        loc = None
        return [(st, v, loc)]

    def opaque_effects(s, st, e, obj, vs, ls, fr):
        pt = e.get("pt", ())
        why = ("call", e.get("l", 0))
        for i, v in enumerate(vs):
            c = pt[i] if i < len(pt) else "v"
            if c == "r" and ls and i < len(ls) and ls[i] is not None:
                s.havoc(st, ls[i], why)
            elif c == "p" or (c == "v" and e.get("c") and v[0] == "addr"):
                s.havoc_ptr(st, v, why)
            if v[0] == "lam":
                s.havoc_closure(st, v, why)
        if obj is not None and not e.get("cm") and not e.get("sm") and e.get("o") is not None:
            if e["k"] == "call":
                s.havoc(st, obj, why)

    def havoc_closure(s, st, lam, why):
        """An opaque callee may run the closure any number of times."""
        for k in lam[1]:
            f = s.P.funcs.get(k)
            if not f or not f.body:
                continue
            ids, fields, mem = s.assigned(f.body)
            for vid, how, x in lam[2]:
                if how == "r" and vid in ids:
                    s.havoc(st, x, why)
            s.havoc_fields(st, fields, why)

    # ------------------------------------------------------------------ models of the std vocabulary
    def model(s, e, st, fr, name, base, obj, vs, ls, ev):
        if not e.get("ext"):
            return None
        if obj is None:
            if (base in IDENT_FREE and vs or base == "make_optional" and len(vs) == 1):
                loc = ls[0] if ls else None
                return [(st, None if loc is not None else vs[0], loc)]
            if base in ("make_unique", "make_shared") and name.startswith("std::"):
                return s.model_make(e, st, fr, vs, ls)
            if base == "swap" and len(vs) == 2 and ls[0] is not None and ls[1] is not None:
                s.store(st, ls[0], vs[1], e, fr)
                s.store(st, ls[1], vs[0], e, fr)
                return [(st, I(0), None)]
            if base == "uncaught_exceptions":
                return [(st, I(st.unw), None)]
            if base in ("get_if", "holds_alternative", "get") and len(vs) == 1:
                r = s.model_alternative(e, st, fr, vs[0], ls[0], base)
                if r is not None:
                    return r
            if base == "get" and len(vs) == 1 and ls[0] is not None:
                return [(st, None, ("m", ls[0], "get<%s>" % e.get("f", "")))]
            if base == "visit" and len(vs) == 2:
                return s.model_visit(e, st, fr, vs, ls, ev)
            return None
        cls = P_.strip_t(e.get("mc", ""))
        if cls.startswith(PTRCLS):
            if base in ("get", "operator->", "value", "operator*"):
                isopt = cls.startswith("std::optional")
                if base in ("operator*", "value") or (isopt and base == "operator->"):
                    if isopt:
                        # the contained value is the optional's own location
                        if base == "operator->":
                            return [(st, ("addr", obj), None)]
                        return [(st, None, obj)]
                    return [(st, None, s.deref(s.load(st, obj)))]
                return [(st, s.load(st, obj), None)]
            if base in ("operator bool", "has_value"):
                v = s.load(st, obj, "class")
                if v[0] == "rec":
                    v = v[1]
                d = st.decide(v) if not cls.startswith("std::optional") else (
                    True if v[0] in ("lam", "str", "ctor", "list", "new") else (False if v == NULL else st.decide(v)))
                if d is not None:
                    return [(st, TRUE if d else FALSE, None)]
                return [(st, ("not", ("eq0", v)), None)]
            if base == "value_or" and len(vs) == 1 and cls.startswith("std::optional") and obj is not None:
                v = s.load(st, obj, "class")
                b = v[1] if v[0] == "rec" else v
                d = True if b[0] in ("lam", "str", "ctor", "list", "new") else (False if b == NULL else st.decide(("not", ("eq0", b))))
                out = []
                for there in ((True, False) if d is None else (d,)):
                    st1 = st.copy() if d is None else st
                    c = ("not", ("eq0", b))
                    if d is None:
                        if not st1.assume(c, there):
                            continue
                        s.rule.on_assume(s, st1, c, there, e, fr)
                    out.append((st1, v if there else vs[0], None))
                return out
            if base == "reset":
                s.store(st, obj, vs[0] if vs else NULL, e, fr)
                return [(st, I(0), None)]
            if base == "release":
                v = s.load(st, obj)
                s.store(st, obj, NULL, e, fr)
                return [(st, v, None)]
            if base == "operator=":
                s.store(st, obj, vs[0], e, fr)
                return [(st, None, obj)]
            if base == "operator[]":
                return [(st, None, s.deref(add(s.load(st, obj), vs[0])))]
        if base in ("operator=", "assign") and len(vs) == 1:
            s.store(st, obj, vs[0], e, fr)
            return [(st, None, obj)]
        if cls.startswith("securefs::"):
            # protobuf messages: accessors of one field denote one location
            if base.startswith("mutable_") and not vs:
                return [(st, ("addr", ("m", obj, "pb:" + base[8:])), None)]
            if base.startswith("set_") and len(vs) == 1:
                s.store(st, ("m", obj, "pb:" + base[4:]), vs[0], e, fr)
                st.env[("m", obj, "pb:has_" + base[4:])] = TRUE
                return [(st, I(0), None)]
            if not vs and e.get("cm") and base != "IsInitialized" and not base.startswith("operator"):
                return [(st, None, ("m", obj, "pb:" + base))]
            if base == "CopyFrom":
                s.store(st, obj, vs[0], e, fr)
                return [(st, I(0), None)]
        if base in ("resize", "reserve") and vs:
            if base == "reserve":
                return [(st, I(0), None)]
            s.havoc(st, obj, ("resize", e.get("l", 0)))
            st.env[obj] = ("sized",) + (vs[0],) + st.fresh("resize", fr.func.key, e.get("l", 0))
            return [(st, I(0), None)]
        if base in ("size", "length") and not vs and obj is not None:
            v = s.load(st, obj, "class")
            if v[0] == "rec":
                v = v[1]
            n = sized(v)
            if n is not None:
                return [(st, n, None)]
        if base == "swap" and len(vs) == 1 and ls[0] is not None:
            a = s.load(st, obj, "class")
            s.store(st, obj, vs[0], e, fr)
            s.store(st, ls[0], a, e, fr)
            return [(st, I(0), None)]
        if cls.startswith(("std::atomic", "std::__atomic_base")):
            if base.startswith("operator ") or base == "load":
                return [(st, s.load(st, obj, e.get("t")), None)]
            if base == "store":
                s.store(st, obj, vs[0], e, fr)
                return [(st, I(0), None)]
            if base in ("operator++", "operator--"):
                old = s.load(st, obj)
                v = add(old, I(1 if base[-1] == "+" else -1))
                s.store(st, obj, v, e, fr)
                return [(st, old if vs else v, None)]
            if base in ("fetch_add", "fetch_sub", "operator+=", "operator-=") and vs:
                old = s.load(st, obj)
                v = (add if base in ("fetch_add", "operator+=") else sub)(old, vs[0])
                s.store(st, obj, v, e, fr)
                return [(st, old if base[0] == "f" else v, None)]
            if base == "exchange" and vs:
                old = s.load(st, obj)
                s.store(st, obj, vs[0], e, fr)
                return [(st, old, None)]
        if cls.startswith(("std::basic_string", "std::basic_string_view")) and base in (
                "operator basic_string_view", "c_str", "data"):
            if base == "operator basic_string_view":
                return [(st, s.load(st, obj, "class"), None)]
            return [(st, ("call", "data", ("addr", obj)) if False else ("addr", ("el", obj)), None)]
        if base in ("data", "begin") and not vs:
            return [(st, ("addr", ("el", obj)), None)]
        if base in ("operator[]", "at") and len(vs) == 1 and cls.startswith(
                ("std::vector", "std::array", "std::basic_string", "absl::InlinedVector", "absl::Span", "CryptoPP::SecBlock", "absl::FixedArray")):
            return [(st, None, s.deref(add(("addr", ("el", obj)), vs[0])))]
        if base in ("operator[]", "at") and len(vs) == 1:
            return [(st, None, ("m", obj, "[]" + show(vs[0])))]
        if base in ("front", "back", "operator*", "operator->", "value", "get") and not vs:
            ov = s.load(st, obj, "class")
            if base == "operator->":
                return [(st, ("call", "operator->", ov), None)]
            return [(st, None, ("d", ("call", base, ov)))]
        return None

    def model_make(s, e, st, fr, vs, ls):
        m = re.search(r"std::(?:unique_ptr|shared_ptr)<(.*)>$", e.get("t", ""))
        T = ""
        if m:
            T = m.group(1)
            d = 0
            for i, c in enumerate(T):
                if c == "<":
                    d += 1
                elif c == ">":
                    d -= 1
                elif c == "," and d == 0:
                    T = T[:i]
                    break
        loc = ("h",) + st.fresh(fr.func.key, e.get("l"), "make")
        st.cls[loc] = T
        rec = s.P.record_of(T)
        if rec:
            cands = []
            for mm in rec["methods"]:
                f = s.P.funcs.get(mm["key"])
                if f and f.d.get("ctor") and not f.d.get("cpctor") and len(f.d["p"]) == len(vs):
                    cands.append(f)
            if cands:
                f = cands[0]
                ev = Ev("ctor", f.scls + "::" + f.scls.split("::")[-1], f.key, e, fr, loc, vs, ls)
                r = s.rule.on_call(s, st, ev)
                if r is not None:
                    return [(a, ("addr", loc), None) for a, b in r]
                if s.can_inline(f, ev, fr):
                    out = []
                    for st1, _ in s.call_body(st, f, fr, loc, vs, ls, e, cls=T):
                        s.rule.on_ret(s, st1, ev, ("addr", loc))
                        out.append((st1, ("addr", loc), None))
                    return out
        else:
            st.env[loc] = ("ctor", P_.strip_t(T)) + tuple(vs)
        return [(st, ("addr", loc), None)]

    # ------------------------------------------------------------------ conditions
    def cond(s, e, st, fr):
        """list of (state, bool)"""
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(st1, not b) for st1, b in s.cond(e["a"], st, fr)]
        if k == "bin" and e["op"] == "&&":
            out = []
            for st1, b in s.cond(e["a"], st, fr):
                if not b:
                    out.append((st1, False))
                else:
                    out += s.cond(e["b"], st1, fr)
            return out
        if k == "bin" and e["op"] == "||":
            out = []
            for st1, b in s.cond(e["a"], st, fr):
                if b:
                    out.append((st1, True))
                else:
                    out += s.cond(e["b"], st1, fr)
            return out
        if k == "cast" and e["t"] == "bool":
            return s.cond(e["a"], st, fr)
        if k == "cond":
            out = []
            for st1, b in s.cond(e["c"], st, fr):
                out += s.cond(e["a"] if b else e["b"], st1, fr)
            return out
        out = []
        for st1, v in s.ev(e, st, fr):
            out += s.split(st1, v, e, fr)
        return out

    def split(s, st, v, node=None, fr=None):
        d = st.decide(v)
        if d is not None:
            return [(st, d)]
        st2 = st.copy()
        out = []
        if st.assume(v, True):
            s.rule.on_assume(s, st, v, True, node, fr)
            out.append((st, True))
        if st2.assume(v, False):
            s.rule.on_assume(s, st2, v, False, node, fr)
            out.append((st2, False))
        return out

    # ------------------------------------------------------------------ statements
    def exec(s, n, st, fr):
        """list of (kind, state, value); kinds: n r b c t x"""
        saved = s._exc
        s._exc = []
        try:
            m = getattr(s, "s_" + n["s"])
            out = m(n, st, fr)
            for st1, exc in s._exc:
                out.append(("t", st1, exc))
        finally:
            s._exc = saved
        if len(out) > s.rule.max_states:
            out = s.merge(out, n)
        return out

    def s_expr(s, n, st, fr):
        tmp = s.discarded(n["e"])
        if tmp is None:
            return [("n", st1, None) for st1, _ in s.ev(n["e"], st, fr)]
        out = []
        slot = ("disc", fr.depth, n["l"])
        saved, s._disc = s._disc, dict(s._disc)
        s._disc[id(tmp)] = slot
        res = s.ev(n["e"], st, fr)
        s._disc = saved
        for st1, _ in res:
            loc = st1.env.pop(slot, None)
            if loc is None:
                out.append(("n", st1, None))
                continue
            r = s.P.record_of(tmp["cls"]) or {}
            v = dict(t=tmp.get("t") or tmp["cls"], l=n["l"], dtor=r.get("dtor"), dtorn=r.get("n", tmp["cls"]))
            out += [("t", a, b) if b else ("n", a, None) for a, b in s.destroy(st1, loc, v, fr)]
        return out

    _disc = {}

    def discarded(s, e):
        """the temporary with a destructor that a statement creates and drops: X(..); or X(..).m();"""
        while isinstance(e, dict):
            if e.get("k") in ("cast", "bitcast", "paren"):
                e = e.get("a")
            elif e.get("k") == "call" and isinstance(e.get("o"), dict):
                e = e["o"]
            elif e.get("k") == "ctor":
                c = e.get("cls") or ""
                if not c.startswith(STRINGY) and s.P.dtor_chain(c) or c in ("std::unique_ptr", "std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock"):
                    return e
                return None
            else:
                return None
        return None

    def s_other(s, n, st, fr):
        return [("n", st, None)]

    def s_goto(s, n, st, fr):
        raise Broken("goto in %s" % fr.func.n)

    def s_label(s, n, st, fr):
        return s.exec(n["b"], st, fr)

    def s_case(s, n, st, fr):
        return s.exec(n["b"], st, fr)

    s_default = s_case

    def s_break(s, n, st, fr):
        return [("b", st, None)]

    def s_continue(s, n, st, fr):
        return [("c", st, None)]

    def s_return(s, n, st, fr):
        if not n.get("e"):
            return [("r", st, None)]
        ret = fr.func.d.get("ret", "")
        if ret.endswith("&"):
            return [("r", st1, ("lvref", l)) for st1, l in s.lval(n["e"], st, fr)]
        return [("r", st1, v) for st1, v in s.ev(n["e"], st, fr)]

    def s_decl(s, n, st, fr):
        outs = [st]
        for v in n["v"]:
            nx = []
            for st1 in outs:
                nx += s.decl_var(v, st1, fr)
            outs = nx
            if v.get("bind"):
                for st1 in outs:
                    s.bindings(v, st1, fr)
        return [("n", x, None) for x in outs]

    def bindings(s, v, st, fr):
        """names of a structured binding of a pair or tuple"""
        loc = ("v", fr.depth, v["id"], v["n"])
        whole = st.refs.get(loc, loc)
        t = re.sub(r"^const |[ &]+$| const$", "", (v.get("t") or "").strip())
        for i, b in enumerate(v["bind"]):
            part = ("first", "second")[i] if t.startswith("std::pair<") and i < 2 else "get%d" % i
            st.refs[("v", fr.depth, b["id"], b["n"])] = ("m", whole, "%s::%s" % (t, part))

    def decl_var(s, v, st, fr):
        loc = ("v", fr.depth, v["id"], v["n"]) if not v.get("static") else ("g", v["n"])
        st.refs.pop(loc, None)
        init = v.get("init")
        if v.get("static"):
            if init and loc not in st.env:
                return s.ev_into(init, st, fr, loc)
            return [st]
        if v.get("ref"):
            if init is None:
                return [st]
            out = []
            for st1, l in s.lval(init, st, fr):
                st1.refs[loc] = l
                out.append(st1)
            return out
        st.cls.pop(loc, None)
        if init is None:
            s.store(st, loc, ("uninit",) + st.fresh(fr.func.key, v["l"], v["n"]))
            return [st]
        outs = s.ev_into(init, st, fr, loc)
        for x in outs:
            s.rule.on_init(s, x, loc, x.env.get(loc), v, fr)
        return outs

    def s_block(s, n, st, fr):
        live = [("n", st, None)]
        done = []
        dtors = []
        for c in n["b"]:
            nxt = []
            for kind, st1, val in live:
                for r in s.exec(c, st1, fr):
                    if r[0] == "n":
                        nxt.append(r)
                    else:
                        done.append((r, len(dtors)))
            live = nxt
            if c["s"] == "decl":
                for v in c["v"]:
                    if (v.get("dtor") and not v.get("static") and not v.get("ref")) or (
                            v.get("ref") and v.get("init", {}) and v["init"].get("k") in ("ctor",)):
                        dtors.append(v)
            if len(live) > s.rule.max_states:
                live = s.merge(live, c)
            if not live:
                break
        allr = [(r, len(dtors)) for r in live] + done
        if not dtors:
            return [r for r, _ in allr]
        out = []
        for r, nd in allr:
            out += s.run_dtors(r, dtors[:nd], fr)
        return out

    def run_dtors(s, r, dtors, fr):
        outs = [r]
        for v in reversed(dtors):
            nx = []
            for kind, st, val in outs:
                if kind == "x":
                    nx.append((kind, st, val))
                    continue
                if v.get("ref"):
                    nx.append((kind, st, val))
                    continue
                loc = ("v", fr.depth, v["id"], v["n"])
                # a returned lvalue/record was computed before the destructors run
                unw = kind == "t"
                if unw:
                    st.unw += 1
                for st2, bad in s.destroy(st, loc, v, fr):
                    if unw:
                        st2.unw -= 1
                    if bad is not None:
                        nx.append(("t", st2, bad))
                    else:
                        nx.append((kind, st2, val))
            outs = nx
        return outs

    def destroy(s, st, loc, v, fr):
        """run the destructor of the object at loc; list of (state, exc or None)"""
        t = re.sub(r"^(const|volatile) ", "", v["t"])
        node = dict(k="dtor", l=v.get("l", 0), t=t)
        nm = P_.strip_t(v.get("dtorn", t))
        ev = Ev("dtor", nm + "::~" + nm.split("::")[-1], v.get("dtor"), node, fr, loc, [])
        r = s.rule.on_call(s, st, ev)
        if r is not None:
            return [(a, None) for a, _ in r]
        return s.destroy_type(st, loc, t, node, fr, ev)

    def destroy_type(s, st, loc, t, node, fr, ev):
        rec = s.P.record_of(t)
        if not rec:
            return [(st, None)]
        states = [(st, None)]
        f = s.P.funcs.get(rec.get("dtor", ""))
        if f and f.d.get("lambda"):
            f = None      # a closure has no destructor of its own
        if f and f.body and s.can_inline(f, ev, fr):
            saved = s._exc
            s._exc = []
            rs = s.call_body(st, f, fr, loc, [], [], node, cls=rec["n"])
            ex = s._exc
            s._exc = saved
            for st1, exc in ex:
                s.rule_terminate(st1, exc, fr)
            states = [(st1, None) for st1, _ in rs]
        # members with their own destructors
        for fl in reversed(rec["fields"]):
            r2 = s.P.record_of(fl["t"])
            if r2 and s.P.dtor_chain(fl["t"]):
                nx = []
                for st1, b in states:
                    l2 = ("m", loc, fl["n"])
                    v2 = dict(t=fl["t"], l=node.get("l", 0), dtor=r2.get("dtor"), dtorn=r2["n"])
                    nx += s.destroy(st1, l2, v2, fr)
                states = nx
            elif not r2 and fl["t"].startswith(("std::", "absl::")) and "lock" in fl["t"].lower():
                for st1, b in states:
                    nm = P_.strip_t(fl["t"])
                    s.rule.on_call(s, st1, Ev("dtor", nm + "::~" + nm.split("::")[-1], None, node, fr, ("m", loc, fl["n"]), []))
        for b in rec["bases"]:
            if s.P.dtor_chain(b):
                nx = []
                for st1, bb in states:
                    nx += s.destroy_type(st1, loc, b, node, fr, ev)
                states = nx
        return states

    def s_if(s, n, st, fr):
        if n.get("init") or n.get("var"):
            pre = [x for x in (n.get("init"), n.get("var")) if x]
            m = dict(n)
            m.pop("init", None)
            m.pop("var", None)
            return s.s_block(dict(s="block", b=pre + [m], l=n["l"]), st, fr)
        out = []
        envb = None
        n0 = len(st.trace)
        for st1, b in s.cond(n["c"], st, fr):
            if b:
                out += s.exec(n["t"], st1, fr)
            elif n.get("e"):
                out += s.exec(n["e"], st1, fr)
            else:
                out.append(("n", st1, None))
        return s.fuse(out)

    def fuse(s, outs):
        """Join the outcomes that differ in branch facts only."""
        if len(outs) < 2:
            return outs
        norm = {}
        rest = []
        for o in outs:
            kind, st, v = o
            if kind != "n":
                rest.append(o)
                continue
            norm.setdefault((st.trace, st.unw, st.exc, s.rule.merge_key(s, st)), []).append(st)
        out = []
        for k, sts in norm.items():
            while sts:
                a = sts.pop()
                keep = []
                for b in sts:
                    if a.env == b.env and a.refs == b.refs and a.data == b.data and a.ver == b.ver:
                        a = s.join_facts(a, b)
                    else:
                        keep.append(b)
                sts = keep
                out.append(("n", a, None))
        return out + rest

    @staticmethod
    def join_facts(a, b):
        iv = {}
        for k, (lo, hi) in a.iv.items():
            if k in b.iv:
                l2, h2 = b.iv[k]
                l, h = min(lo, l2), max(hi, h2)
                if l != -INF or h != INF:
                    iv[k] = (l, h)
        ne = {}
        for k, v in a.ne.items():
            w = v & b.ne.get(k, frozenset())
            if w:
                ne[k] = w
        a.iv, a.ne = iv, ne
        for k, n in b.ctr.items():
            if n > a.ctr.get(k, 0):
                a.ctr[k] = n
        return a

    def merge(s, outs, n, isret=False):
        groups = {}
        for o in outs:
            kind, st, v = o
            key = (kind, st.trace, st.unw, st.exc, v if kind in ("t",) or (v is not None and v[0] in ("int", "lvref")) else None,
                   s.rule.merge_key(s, st))
            groups.setdefault(key, []).append(o)
        res = []
        for key, os_ in groups.items():
            kind, a, v = os_[0]
            for _, b, v2 in os_[1:]:
                env = {}
                for l in set(a.env) | set(b.env):
                    x, y = a.env.get(l), b.env.get(l)
                    if x == y:
                        env[l] = x
                    elif x is None or y is None:
                        x2 = x if x is not None else s.load(a, l)
                        y2 = y if y is not None else s.load(b, l)
                        env[l] = x2 if x2 == y2 else ("phi", n.get("l", 0) if isinstance(n, dict) else n.l, l)
                    else:
                        env[l] = ("phi", n.get("l", 0) if isinstance(n, dict) else n.l, l)
                refs = {k: r for k, r in a.refs.items() if b.refs.get(k) == r}
                a = s.join_facts(a, b)
                a.env, a.refs = env, refs
                ver = dict(a.ver)
                for k, x in b.ver.items():
                    ver[k] = max(x, ver.get(k, 0))
                a.ver = ver
                a.data = {k: x for k, x in a.data.items() if b.data.get(k) == x}
                if v != v2:
                    v = ("phi", "ret", n.get("l", 0) if isinstance(n, dict) else n.l)
            res.append((kind, a, v))
        return res

    # ---- loops
    def assigned(s, *nodes):
        """(variable ids, field names, writes through pointers?) a loop may assign"""
        ids, fields = set(), set()
        mem = False

        def target(e):
            nonlocal mem
            while e is not None:
                k = e["k"]
                if k in ("var", "gvar"):
                    ids.add(e["id"])
                    return
                if k == "mem":
                    fields.add(e["f"])
                    e = e["b"]
                    if e["k"] == "call":
                        return
                    if e["k"] == "this":
                        return
                    # assigning p->f does not assign p
                    return_if_arrow = True
                    if e["k"] in ("var", "gvar"):
                        ids.add(e["id"]) if not e.get("t", "").endswith("*") else None
                        return
                    continue
                if k == "un" and e["op"] == "*":
                    mem = True
                    return
                if k == "idx":
                    mem = True
                    e = e["a"]
                    if e["k"] in ("var", "gvar") and e.get("t", "").endswith("*"):
                        return
                    continue
                if k in ("cast", "bitcast", "downcast", "inc", "asg"):
                    e = e["a"]
                    continue
                if k == "call" and e.get("o") is not None:
                    e = e["o"]
                    mem = True
                    continue
                if k == "call" and e.get("a"):
                    e = e["a"][0]
                    continue
                return

        for nd in nodes:
            if nd is None:
                continue
            for x in P_.walk(nd):
                k = x.get("k")
                if k == "asg" or k == "inc":
                    target(x["a"])
                elif k == "un" and x["op"] == "&":
                    target(x["a"])
                elif k in ("call", "ctor"):
                    pt = x.get("pt", ())
                    for i, a in enumerate(x["a"]):
                        c = pt[i] if i < len(pt) else "v"
                        if c in ("r", "rr"):
                            target(a)
                        elif c == "p":
                            mem = True
                            a2 = a
                            while a2["k"] in ("cast", "bitcast"):
                                a2 = a2["a"]
                            if a2["k"] in ("var", "gvar") and s._arr(a2.get("t")):
                                ids.add(a2["id"])
                            elif a2["k"] == "call" and a2.get("o"):
                                target(a2["o"])
                    if x.get("o") is not None and not x.get("cm") and not x.get("sm"):
                        nm = P_.strip_t(x.get("n") or "")
                        b = nm.split("::")[-1]
                        if b not in ("operator->", "get", "operator*", "begin", "end", "data") and not (
                                b in ("operator[]", "at", "back", "front") ):
                            if x.get("ext") or not s.P.targets(x):
                                target(x["o"])
                        if not x.get("ext"):
                            pass
                    for f in s.P.targets(x):
                        fields |= s.modfields(f)
                elif k == "lambda":
                    for kk in [x["f"]] + list(x.get("gen", ())):
                        f = s.P.funcs.get(kk)
                        if f and f.body:
                            i2, f2, m2 = s.assigned(f.body)
                            ids |= i2
                            fields |= f2
                            mem = mem or m2
        return ids, fields, mem

    def modfields(s, f):
        cache = s.P.__dict__.setdefault("_modcache", {})
        r = cache.get(f.key)
        if r is not None:
            return r
        par = s.P.reach([f])
        res = set()
        direct = s.P.__dict__.setdefault("_moddirect", {})
        for k in par:
            d = direct.get(k)
            if d is None:
                d = set()
                g = s.P.funcs[k]
                for x in g.nodes():
                    if x.get("k") in ("asg", "inc"):
                        t = x["a"]
                        while t and t["k"] in ("idx", "cast", "bitcast", "mem", "asg", "inc"):
                            if t["k"] == "mem":
                                d.add(t["f"])
                                t = t["b"]
                            else:
                                t = t["a"]
                    elif x.get("k") == "call" and x.get("o") and x["o"]["k"] == "mem" and not x.get("cm"):
                        b = P_.strip_t(x.get("n") or "").split("::")[-1]
                        if x.get("ext") and b not in PROJ:
                            d.add(x["o"]["f"])
                    if x.get("k") in ("call", "ctor"):
                        pt = x.get("pt", ())
                        for i, a in enumerate(x["a"]):
                            if i < len(pt) and pt[i] in ("r", "p"):
                                while a["k"] in ("cast", "bitcast") or (a["k"] == "un" and a["op"] == "&"):
                                    a = a["a"]
                                if a["k"] == "mem":
                                    d.add(a["f"])
                direct[k] = d
            res |= d
        cache[f.key] = res
        return res

    def havoc_fields(s, st, fields, why):
        if not fields:
            return
        for l in [l for l in st.env if l[0] == "m" and l[2] in fields]:
            st.env.pop(l, None)
        for f in fields:
            k = ("m", f)
            st.ver[k] = st.ver.get(k, 0) + 1

    def set_params(s, f):
        """the ids of the variables a function (or a lambda in it) itself assigns to"""
        c = s.P.__dict__.setdefault("_setparams", {})
        r = c.get(f.key)
        if r is None:
            r = set()
            todo, seen = [f], set()
            while todo:
                g = todo.pop()
                if g.key in seen or not g.body:
                    continue
                seen.add(g.key)
                for x in P_.walk(g.body):
                    if x.get("k") in ("asg", "inc") or x.get("k") == "un" and x.get("op") == "&":
                        t = x["a"]
                        while t and t.get("k") in ("cast", "bitcast"):
                            t = t["a"]
                        if t and t.get("k") == "var":
                            r.add(t["id"])
                    elif x.get("k") in ("call", "ctor"):
                        for i, a in enumerate(x["a"]):
                            if i < len(x.get("pt", ())) and x["pt"][i] == "r" and a.get("k") == "var":
                                r.add(a["id"])
                    elif x.get("k") == "lambda":
                        todo += [s.P.funcs[k] for k in [x["f"]] + list(x.get("gen", ())) if k in s.P.funcs]
            c[f.key] = r
        return r

    def havoc_loop(s, st, fr, eff, line):
        ids, fields, mem = eff
        why = ("loop", line)
        for l in list(st.env):
            b = l
            while b[0] == "m":
                b = b[1]
            if b[0] == "el":
                b = b[1]
            if b[0] == "v" and b[2] in ids and b[1] <= fr.depth:
                old = st.env.pop(l, None)
                if l == b:
                    st.env[l] = ("havoc",) + st.fresh(why, l)
                    havoc_init.setdefault(st.env[l], set()).add(old)
        # parameters of the function the run began with are not in the store until they are assigned
        g = fr
        while g.parent is not None:
            g = g.parent
        for p in g.func.d["p"]:
            if p["id"] in ids and p["t"].rstrip()[-1:] not in ("&",):
                l = ("v", g.depth, p["id"], p["n"])
                if l not in st.env and is_scalar(p["t"]) and p["id"] in s.set_params(g.func):
                    old = s.initial(st, l)
                    st.env[l] = ("havoc",) + st.fresh(why, l)
                    havoc_init.setdefault(st.env[l], set()).add(old)
                    if p["t"].rstrip().endswith("*"):
                        s_ptr.add(st.env[l])
                    elif is_unsigned(p["t"]):
                        s_unsigned.add(st.env[l])
        for vid in ids:
            loc = ("v", fr.depth, vid)
            for k, r in list(st.refs.items()):
                if k[:3] == loc:
                    s.havoc(st, r, why)
            if vid in fr.clo:
                s.havoc(st, fr.clo[vid], why)
        for l in list(st.env):
            if l[0] == "v" and l[2] in ids:
                st.ver[l] = st.ver.get(l, 0) + 1
        s.havoc_fields(st, fields, why)
        if mem:
            for l in [l for l in st.env if l[0] == "d"]:
                st.env.pop(l, None)
                k = s.vkey(l)
                st.ver[k] = st.ver.get(k, 0) + 1

    def loop(s, n, st, fr, cond, body, inc, do=False):
        eff = s.assigned(body, inc, n.get("c") if isinstance(n.get("c"), dict) else None)
        line = n.get("l", 0)
        res = []

        def test(st1):
            if cond is None:
                return [(st1, True)]
            saved = s._exc
            s._exc = []
            r = s.cond(cond, st1, fr)
            for st2, exc in s._exc:
                res.append(("t", st2, exc))
            s._exc = saved
            return r

        def step(st1):
            """run body (+inc); returns states reaching the loop head again"""
            back = []
            s.rule.on_iter(s, st1, n, fr)
            for kind, st2, v in s.exec(body, st1, fr):
                if kind in ("n", "c"):
                    if inc is not None:
                        saved = s._exc
                        s._exc = []
                        rs = s.ev(inc, st2, fr)
                        for st3, exc in s._exc:
                            res.append(("t", st3, exc))
                        s._exc = saved
                        back += [x for x, _ in rs]
                    else:
                        back.append(st2)
                elif kind == "b":
                    s.rule.on_leave(s, st2, n, fr, "b")
                    res.append(("n", st2, None))
                else:
                    if kind == "r":
                        s.rule.on_leave(s, st2, n, fr, "r")
                    res.append((kind, st2, v))
            if len(back) > s.rule.max_states:
                back = [x for _, x, _ in s.merge([("n", x, None) for x in back], n)]
            return back

        if do:
            heads = step(st)
            for it in range(s.rule.loop_iters):
                nxt = []
                for st1 in heads:
                    for st2, b in test(st1):
                        if b:
                            s.havoc_loop(st2, fr, eff, line)
                            nxt += step(st2)
                        else:
                            res.append(("n", st2, None))
                heads = nxt
            for st1 in heads:
                for st2, b in test(st1):
                    if not b:
                        res.append(("n", st2, None))
            return res
        got = s.rule.summarise(s, st, n, fr, eff)
        if got is not None:
            return got
        # zero iterations, exact entry state
        st0 = st.copy()
        for st2, b in test(st0):
            if not b:
                res.append(("n", st2, None))
        heads = [st]
        first = True
        for it in range(s.rule.loop_iters):
            nxt = []
            for st1 in heads:
                was = dict(st1.env)
                s.havoc_loop(st1, fr, eff, line)
                s.rule.on_head(s, st1, n, fr, was)
                for st2, b in test(st1):
                    if b:
                        nxt += step(st2)
            heads = nxt
            for st1 in heads:
                st3 = st1.copy()
                s.havoc_loop(st3, fr, eff, line)
                # the exit test after the last iteration, on the values that iteration left
                for st2, b in test(st1.copy()) if cond is not None else []:
                    if not b:
                        res.append(("n", st2, None))
        return s.fuse(res) if len(res) > 1 else res

    def s_while(s, n, st, fr):
        if n.get("var"):
            body = dict(s="block", l=n["l"], b=[n["var"], dict(s="if", l=n["l"], c=n["c"], t=n["b"], e=dict(s="break", l=n["l"]))])
            return s.loop(n, st, fr, None, body, None)
        return s.loop(n, st, fr, n["c"], n["b"], None)

    def s_do(s, n, st, fr):
        if n["c"]["k"] == "int" and not int(n["c"]["v"]):
            out = []
            for kind, st1, v in s.exec(n["b"], st, fr):
                out.append(("n", st1, None) if kind in ("b", "c") else (kind, st1, v))
            return out
        return s.loop(n, st, fr, n["c"], n["b"], None, do=True)

    def s_for(s, n, st, fr):
        if n.get("init"):
            m = dict(n)
            m.pop("init")
            return s.s_block(dict(s="block", b=[n["init"], m], l=n["l"]), st, fr)
        return s.loop(n, st, fr, n.get("c"), n["b"], n.get("inc"))

    def s_rfor(s, n, st, fr):
        if n.get("init"):
            m = dict(n)
            m.pop("init")
            return s.s_block(dict(s="block", b=[n["init"], m], l=n["l"]), st, fr)
        res = []
        v = n["v"]
        for st1, rl in s.lval(n["r"], st, fr):
            eff = s.assigned(n["b"])
            got = s.rule.summarise(s, st1, n, fr, eff, rl)
            if got is not None:
                res += got
                continue
            res.append(("n", st1.copy(), None))
            heads = [st1]
            for it in range(s.rule.loop_iters):
                nxt = []
                for st2 in heads:
                    s.havoc_loop(st2, fr, eff, n["l"])
                    loc = ("v", fr.depth, v["id"], v["n"])
                    el = ("d", ("call", "elem", s.load(st2, rl, "class"), ("it",) + st2.fresh(fr.func.key, n["l"], "it")))
                    st2.refs.pop(loc, None)
                    if v.get("ref"):
                        st2.refs[loc] = el
                    else:
                        s.store(st2, loc, s.load(st2, el, v["t"]))
                    if v.get("bind"):
                        s.bindings(v, st2, fr)
                    s.rule.on_iter(s, st2, n, fr)
                    for kind, st3, val in s.exec(n["b"], st2, fr):
                        if kind in ("n", "c"):
                            nxt.append(st3)
                        elif kind == "b":
                            s.rule.on_leave(s, st3, n, fr, "b")
                            res.append(("n", st3, None))
                        else:
                            if kind == "r":
                                s.rule.on_leave(s, st3, n, fr, "r")
                            res.append((kind, st3, val))
                heads = nxt
                res += [("n", x.copy(), None) for x in heads]
        return s.fuse(res)

    def s_switch(s, n, st, fr):
        if n.get("init") or n.get("var"):
            pre = [x for x in (n.get("init"), n.get("var")) if x]
            m = dict(n)
            m.pop("init", None)
            m.pop("var", None)
            return s.s_block(dict(s="block", b=pre + [m], l=n["l"]), st, fr)
        items = []   # (labels, stmt)

        def flat(x):
            labs = []
            while x["s"] in ("case", "default"):
                labs.append(x["c"] if x["s"] == "case" else None)
                x = x["b"]
            items.append((labs, x))

        body = n["b"]
        for x in (body["b"] if body["s"] == "block" else [body]):
            flat(x)
        out = []
        for st1, v in s.ev(n["c"], st, fr):
            rest = st1
            has_default = None
            entries = []
            dead = False
            for i, (labs, _) in enumerate(items):
                for l in labs:
                    if l is None:
                        has_default = i
                        continue
                    if dead:
                        continue
                    cv = I(int(l["v"])) if l["k"] == "int" else ("sym", "case", l.get("l"))
                    t = ("eq0", sub(v, cv))
                    d = rest.decide(t)
                    if d is False:
                        continue
                    st2 = rest.copy()
                    if d is True or st2.assume(t, True):
                        entries.append((i, st2))
                    if d is True or not rest.assume(t, False):
                        dead = True
            if not dead:
                if has_default is not None:
                    entries.append((has_default, rest))
                else:
                    out.append(("n", rest, None))
            for i, st2 in entries:
                live = [("n", st2, None)]
                for labs, x in items[i:]:
                    nxt = []
                    for kind, st3, val in live:
                        for r in s.exec(x, st3, fr):
                            if r[0] == "n":
                                nxt.append(r)
                            elif r[0] == "b":
                                out.append(("n", r[1], None))
                            else:
                                out.append(r)
                    live = nxt
                out += live
        return s.fuse(out)

    def s_try(s, n, st, fr):
        out = []
        for kind, st1, v in s.exec(n["b"], st, fr):
            if kind != "t":
                out.append((kind, st1, v))
                continue
            handled = False
            for h in n["h"]:
                ht = h.get("t")
                m = ht is None or s.catches(ht, v)
                if not m:
                    continue
                st2 = st1 if m is True or ht is None else st1.copy()
                st2.exc = st2.exc + (v,)
                if h.get("v"):
                    loc = ("v", fr.depth, h["v"]["id"], h["v"]["n"])
                    st2.refs.pop(loc, None)
                    s.store(st2, loc, v[2] if len(v) > 2 else ("exc",))
                    if v[0] != "?":
                        st2.cls[loc] = v[0]
                hook = getattr(s.rule, "on_catch", None)
                if hook:
                    hook(s, st2, v, h, fr)
                for k2, st3, v3 in s.exec(h["b"], st2, fr):
                    st3.exc = st3.exc[:-1]
                    out.append((k2, st3, v3))
                if m is True or ht is None:
                    handled = True
                    break
            if not handled:
                out.append(("t", st1, v))
        return out

    @staticmethod
    def catches(ht, exc):
        """True, False or 'maybe'"""
        h = P_.strip_t(re.sub(r"^const ", "", ht))
        t = P_.strip_t(re.sub(r"^const ", "", exc[0]))
        if t == h or h in [P_.strip_t(b) for b in exc[1]]:
            return True
        if t == "?":
            return True if h == "std::exception" else "maybe"
        return False

    # ------------------------------------------------------------------ roots
    def run(s, f, this=None, args=None, cls=None, st=None, init=None):
        """Analyse f from an unconstrained state.  Returns [(kind, state, value)] with kind r/t."""
        import sys
        sys.setrecursionlimit(20000)
        st = st or State()
        if this is None and f.cls and not f.d.get("static"):
            this = ("obj", "this")
        fr0 = Frame(f, 0, this, cls=cls or f.cls)
        for i, p in enumerate(f.d["p"]):
            loc = ("v", 0, p["id"], p["n"])
            if args and i < len(args) and args[i] is not None:
                if args[i][0] == "lvref":
                    st.refs[loc] = args[i][1]
                else:
                    st.env[loc] = args[i]
            elif p["t"].endswith("&"):
                st.refs[loc] = ("p", p["n"])
        if init:
            init(s, st, fr0)
        s._exc = []
        states = [st]
        outs = []
        if f.d.get("ctor"):
            states = s.run_inits(st, f, fr0)
            outs += [("t", a, b) for a, b in s._exc]
            s._exc = []
        for st1 in states:
            if f.body:
                outs += s.exec(f.body, st1, fr0)
            else:
                outs.append(("n", st1, None))
        res = []
        for kind, st1, v in outs:
            if kind == "n":
                kind = "r"
            if v is not None and kind == "r" and v[0] == "lvref":
                v = ("addr", v[1])
            res.append((kind, st1, v))
        s.paths += len(res)
        return res
