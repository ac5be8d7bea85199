"""N01: what a directory listing shows."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .errors import THROWERS, LOGGY, vops
from .attrs import nth
from .handles import delegates
from .syscalls import walk_all

DECODE_FAILED = ("std::exception", ("std::exception",), ("decode",))


def traversers(P):
    """step functions of directory listings: (name out, stat out) -> bool"""
    return [f for f in P.funcs.values() if f.body and base(f.n) == "next" and len(f.d["p"]) == 2 and f.d["ret"] == "bool" and "string" in f.d["p"][0]["t"]]


class Next(Rule):
    """leaves a trace of the names read below, of what they were decoded to, and of the tests in between"""
    loop_iters = 2
    max_states = 600
    max_depth = 8
    WATCH = ("next", "is_no_op", "decrypt_path_component", "lookup", "readdir")

    def __init__(s, f):
        s.params = {nth(f, 0), nth(f, 1)}

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b in s.WATCH or b in ("lock", "unlock"):
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or simple(f, 12) or f.key in reach_names(eng.P, s.WATCH)

    def throws(s, eng, st, ev):
        if ev.base in ("decrypt_path_component", "lookup"):
            return [DECODE_FAILED]
        return Rule.throws(s, eng, st, ev)

    def on_call(s, eng, st, ev):
        if ev.base == "__errno_location":
            return [(st, ("addr", ("g", "errno")))]
        return None

    def on_ret(s, eng, st, ev, val):
        b = ev.base
        if b == "next" and ev.args and len(ev.args) == 2:
            a = ev.args[0]
            loc = a[1] if a and a[0] == "addr" else ("d", a)
            st.emit(("next", val, eng.load(st, loc), loc, ev.where, ev.args[1]))
        elif b == "readdir":
            st.emit(("readdir", val, eng.load(st, ("g", "errno")), ev.where))
            eng.store(st, ("g", "errno"), ("err", ev.where))
        elif b == "is_no_op":
            st.emit(("plain", val))
        elif b == "lookup" and ev.args:
            st.emit(("lookup", content(eng, st, ev.args[0]), val))
        elif b == "decrypt_path_component" and ev.args:
            st.emit(("decode", content(eng, st, ev.args[0]), val))

    def on_assume(s, eng, st, t, v, node, fr):
        mine = [e for e in st.trace if e[0] in ("next", "decode", "plain", "readdir")]
        if t in s.params or t[0] in ("not", "eq0") and (t[1] in s.params or t[1][:1] == ("eq0",) and t[1][1] in s.params):
            st.emit(("out", t, v))
        if not mine:
            return
        want = set()
        for e in mine:
            want.add(e[1] if e[0] != "decode" else e[2])
            if e[0] == "next":
                want |= {e[2], e[3]}
        if any(x in want or x[:1] == ("err",) for x in walk_all(t)):
            st.emit(("if", t, v))

    def on_catch(s, eng, st, exc, h, fr):
        st.emit(("caught",))

    def on_store(s, eng, st, loc, val, node, fr):
        if loc[0] == "m" and str(loc[2]).endswith("st_mode"):
            rd = [e for e in st.trace if e[0] == "readdir"]
            if rd:
                st.emit(("mode", st.const(val), st.const(("in", ("m", ("d", rd[0][1]), "dirent::d_type"), 0))))


def content(eng, st, a):
    if a and a[0] == "addr" and a[1][0] == "el":
        return eng.load(st, a[1][1])
    return a


def is_str(t, what):
    return any(x == ("str", what) for x in walk_all(t))


def dotted(t):
    """a test for a name that is one of the two dot entries"""
    return t[0] in ("call", "op", "eq0") and (is_str(t, ".") or is_str(t, "..")) and "starts_with" not in str(t).lower() and "StartsWith" not in str(t)


def hidden(t, v):
    """a test that is true of names nobody was given: empty ones and those beginning with a dot"""
    if v and t[0] == "call" and t[1] == "empty":
        return True
    if t[0] == "eq0" and v:
        u = t[1]
        if u[0] == "call" and u[1] == "size":
            return True
        return u[0] == "lin" and abs(u[1]) == 46
    if v and ("starts_with" in str(t).lower() or "startswith" in str(t).lower()) and is_str(t, "."):
        return True
    return False


def judge_next(P, R, f):
    R.fn(f)
    outs, eng = R.engine(P, Next(f), f)
    bad, n = set(), 0
    name = nth(f, 0)
    for kind, st, v in outs:
        tr = list(st.trace)
        steps = [i for i, e in enumerate(tr) if e[0] == "next"]
        if kind == "t":
            if v[0] == DECODE_FAILED[0] and len(v) > 2 and "decode" in str(v[2]):
                bad.add("one name that cannot be decoded ends the listing")
            continue
        if not steps:
            if not (v is not None and st.decide(v) is True):
                bad.add("ends without asking for the next entry")
            continue
        n += 1
        # names passed over
        for a, b in zip(steps, steps[1:]):
            seg = tr[a + 1:b]
            text, loc = tr[a][2], tr[a][3]
            about = lambda t: any(x in (text, loc) for x in walk_all(t))
            plain = any(e[0] == "if" and e[2] and any(x[0] == "plain" and x[1] == e[1] for x in seg) for e in seg)
            why = any(e[0] == "caught" for e in seg) or \
                any(e[0] == "if" and e[2] and e[1][:2] == ("call", "holds") and "string" not in str(e[1][2]) for e in seg)
            tags = {e[2] for e in seg if e[0] == "decode"}
            why = why or any(e[0] == "if" and e[1][:2] != ("call", "holds") and any(x in tags for x in walk_all(e[1])) for e in seg)
            why = why or any(e[0] == "if" and about(e[1]) and hidden(e[1], e[2]) and not (plain and not (e[1][0] == "call" and e[1][1] == "empty")) for e in seg)
            if not why:
                bad.add("an entry is left out although its name can be shown")
        end = tr[steps[-1] + 1:]
        rc, text, loc = tr[steps[-1]][1:4]
        more = st.decide(v) if v is not None else None
        if more is None:
            bad.add("the answer does not say whether there was another entry")
        if more is False and st.decide(rc) is not False:
            bad.add("the listing ends although there may be more entries")
        if more is not True:
            continue
        if st.decide(rc) is not True:
            bad.add("an entry is announced although there was none")
        if st.decide(("eq0", name)) is True:
            continue
        got = eng.load(st, ("d", name))
        about = lambda t: any(x in (text, loc) for x in walk_all(t))
        dots = any(e[0] == "if" and e[2] and about(e[1]) and dotted(e[1]) for e in end)
        plain = any(e[0] == "if" and e[2] and any(x[0] == "plain" and x[1] == e[1] for x in end) for e in end)
        dec = [e for e in end if e[0] == "decode"]
        lk = {e[2]: e[1] for e in end if e[0] == "lookup"}
        if got == text:
            if not dots and not plain:
                bad.add("an encrypted name is shown as it is")
            continue
        if dots or plain:
            bad.add("a plain name is not shown as it is")
            continue
        src = [d for d in dec if got[:1] in (("call",), ("fld",)) and any(x == d[2] for x in walk_all(got))]
        if not src:
            bad.add("the name shown is not that of the entry")
            continue
        d = src[-1]
        if d[1] == text and any(e[0] == "if" and e[2] and e[1][:2] == ("call", "holds") and "string" not in str(e[1][2]) for e in end):
            bad.add("a long name is decoded without looking it up")
        if d[1] != text and lk.get(d[1]) != text:
            bad.add("the name shown is decoded from something other than the entry's name")
    return bad, n


def judge_system_next(P, R, f):
    R.fn(f)
    outs, eng = R.engine(P, Next(f), f)
    bad, n = set(), 0
    name, stat = nth(f, 0), nth(f, 1)
    for kind, st, v in outs:
        rd = [e for e in st.trace if e[0] == "readdir"]
        if len(rd) != 1:
            if kind == "r":
                bad.add("readdir is not called exactly once")
            continue
        n += 1
        ent = rd[0][1]
        null = st.decide(("eq0", ent))
        if st.const(rd[0][2]) != 0:
            bad.add("errno is not cleared before readdir, so that its end looks like an error")
        if kind == "t":
            if null is not True:
                bad.add("an exception although readdir returned an entry")
            continue
        more = st.decide(v)
        if more is not True:
            if null is not True:
                bad.add("the listing ends although readdir returned an entry")
            elif not any(e[0] == "if" and any(x[:1] == ("err",) for x in walk_all(e[1])) for e in st.trace):
                bad.add("a failed readdir passes for the end of the directory")
            continue
        if null is not False:
            bad.add("an entry is announced although readdir returned none")
        if st.decide(("eq0", name)) is False:
            got = eng.load(st, ("d", name))
            if not any(x[:1] == ("m",) and str(x[-1]).endswith("d_name") for x in walk_all(got)) or not any(x == ent for x in walk_all(got)):
                bad.add("the name is not that of the entry")
        if st.decide(("eq0", stat)) is False:
            mode = [x for l, x in st.env.items() if l[0] == "m" and l[1] == ("d", stat) and str(l[2]).endswith("st_mode")]
            for _, m, k in [e for e in st.trace if e[0] == "mode"][-1:]:
                if m and k is not None and m != k << 12:
                    bad.add("the kind of the entry is reported wrongly")
            if not mode:
                bad.add("the kind of the entry is not reported")
    return bad, n


class Fill(Rule):
    """leaves a trace of the entries a readdir operation is given and of those it hands to the kernel"""
    loop_iters = 2
    max_states = 300
    max_depth = 8
    ENTRY = (("dirent", "name"), ("dirent", "id"), ("dirent", "type"))
    IDS = ("get_id", "get_parent_id")

    def __init__(s, f):
        s.buf = nth(f, 1)

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in LOGGY or b in s.IDS or b in ("next", "rewind", "iterate_over_entries_impl", "to_inode_number", "update_atime_helper"):
            return False
        return b in THROWERS or bool(f.d.get("lambda")) or simple(f, 12) or f.key in reach_names(eng.P, ("iterate_over_entries_impl", "next", "filler"))

    def on_call(s, eng, st, ev):
        if ev.base in s.IDS and ev.obj:
            return [(st, ("call", ev.base, eng_obj(ev)))]
        if ev.base == "to_inode_number" and ev.args:
            a = ev.args[0]
            return [(st, ("call", "inode", a))]
        if ev.base == "iterate_over_entries_impl" and ev.args and ev.args[0] and ev.args[0][0] == "lam":
            out = [(st.copy(), I(0))]
            for a, _ in eng.run_callback(st.copy(), ev, ev.args[0], list(s.ENTRY)):
                a.emit(("done", ev.where))
                out.append((a, I(0)))
            return out
        if not ev.name and ev.args and ev.args[0] == s.buf and len(ev.args) >= 3:
            t = ("filled", ev.where, sum(1 for e in st.trace if e[0] == "fill"))
            name = content(eng, st, ev.args[1])
            ptr = ev.args[2]
            loc = ptr[1] if ptr[0] == "addr" else ("d", ptr)
            st.emit(("fill", name, ptr, eng.load(st, ("m", loc, "stat::st_ino")), eng.load(st, ("m", loc, "stat::st_mode")), t, ev.where))
            return [(st, t)]
        return None

    def on_iter(s, eng, st, node, fr):
        if node.get("k") == "call":
            st.emit(("entry",))

    def on_ret(s, eng, st, ev, val):
        if ev.base == "next" and len(ev.args) == 2:
            a = ev.args[0]
            loc = a[1] if a and a[0] == "addr" else ("d", a)
            st.emit(("next", val, eng.load(st, loc), ev.args[1]))
        elif ev.base == "rewind":
            st.emit(("rewind",))

    def on_assume(s, eng, st, t, v, node, fr):
        if any(x[:1] == ("filled",) for x in walk_all(t)):
            st.emit(("if", t, v))


def eng_obj(ev):
    return ev.obj


def judge_readdir(P, R, f):
    R.fn(f)
    rule = Fill(f)
    outs, eng = R.engine(P, rule, f)
    bad, n = set(), 0
    for kind, st, v in outs:
        tr = list(st.trace)
        given = [i for i, e in enumerate(tr) if e[0] == "entry" or e[0] == "next"]
        fills = [i for i, e in enumerate(tr) if e[0] == "fill"]
        n += len(fills)
        first = [i for i in given if tr[i][0] == "next"]
        if first and not any(e[0] == "rewind" for e in tr[:first[0]]):
            bad.add("a listing does not start at the beginning")
        full = None
        for i in fills:
            e = tr[i]
            before = [j for j in given if j < i]
            if any(x[0] == "fill" for x in tr[(before[-1] if before else i) + 1:i]):
                bad.add("an entry is listed twice")
            if e[1] in (("str", "."), ("str", "..")):
                want = ("call", "get_id" if e[1][1] == "." else "get_parent_id")
                if not any(x[:2] == want for x in walk_all(e[3])):
                    bad.add("the entry %s has the number of another directory" % e[1][1])
                if st.const(e[4]) != 0o040000:
                    bad.add("the entry %s is not a directory" % e[1][1])
                continue
            if not before:
                bad.add("something that is no entry is listed")
                continue
            g = tr[before[-1]]
            if g[0] == "next":
                if st.decide(g[1]) is not True:
                    bad.add("an entry is listed after the last one")
                if e[1] != g[2]:
                    bad.add("an entry is listed under another name")
                if e[2] != g[3]:
                    bad.add("an entry is listed with attributes other than its own")
            else:
                if e[1] != rule.ENTRY[0]:
                    bad.add("an entry is listed under another name")
                if not any(x == rule.ENTRY[1] for x in walk_all(e[3])):
                    bad.add("an entry is listed with the number of another file")
                if not any(x == rule.ENTRY[2] for x in walk_all(e[4])):
                    bad.add("an entry is listed with the kind of another file")
                elif e[4] != eng_shift(rule.ENTRY[2], e[4]):
                    bad.add("the kind of an entry is reported wrongly")
            full = e[5]
            zero = st.decide(("eq0", full))
            if zero is None:
                zero = st.decide(("eq0", ("call", "abs", full)))
            last = i == fills[-1] and not any(j > i for j in given)
            if zero is not True and not last:
                bad.add("the listing goes on although the buffer took no more")
            if zero is True and last and g[0] == "next":
                bad.add("the listing ends although there may be more entries")
            if last and zero is not True:
                ok = kind == "t" or v is not None and st.decide(("eq0", v)) is not True
                if not ok:
                    bad.add("a listing that was cut short passes for a complete one")
        for i in given:
            if tr[i][0] == "next" and st.decide(tr[i][1]) is not True:
                if i != given[-1] or kind == "r" and v is not None and st.decide(("eq0", v)) is not True:
                    bad.add("the end of a listing passes for a failure")
                continue
            nxt = [j for j in given if j > i]
            if not any(i < j < (nxt[0] if nxt else len(tr)) for j in fills):
                bad.add("an entry is left out")
    return bad, n


def eng_shift(t, got):
    """type << 12, however it is written"""
    forms = [scale(t, 4096)] if t[0] != "dirent" else [("lin", 0, ((t, 4096),)), ("op", "<<", t, I(12)), scale(t, 4096)]
    return got if got in forms or any(x in forms for x in walk_all(got)) else None


class Each(Rule):
    """leaves a trace of the elements of a loop and of what is handed to the callback"""
    loop_iters = 2
    max_depth = 6

    def __init__(s, f):
        s.f = f
        s.rec = f.n

    def inline(s, eng, f, ev):
        if f.n == s.f.n or ev.obj and ev.obj[0] == "p" or base(f.n) in ("retrieve_node", "get_root_node"):
            return False
        return base(f.n) in THROWERS or simple(f, 12)

    def on_iter(s, eng, st, node, fr):
        if node.get("k") != "call":
            st.emit(("iter", node.get("l"), sum(1 for e in st.trace if e[0] == "iter")))

    def on_leave(s, eng, st, node, fr, kind):
        st.emit(("left", kind))

    def on_ret(s, eng, st, ev, val):
        if ev.base == "retrieve_node":
            st.emit(("node", val, ev.args[-1]))
        elif ev.base == "get_root_node":
            st.emit(("root", val))
        elif ev.key and eng.P.funcs.get(ev.key) and (eng.P.funcs[ev.key].n == s.f.n or iterates(eng.P, eng.P.funcs[ev.key])):
            st.emit(("rec", ev.args[0], ev.where))
        elif ev.obj and ev.obj[0] == "p" and ev.args and (ev.base == "operator()" or "lambda" in ev.name):
            st.emit(("cb", tuple(ev.args), ev.where))


def elements(t):
    """the objects a value is taken from that change from one turn of a loop to the next"""
    var = lambda x: x[:1] in (("elem",), ("it",)) or x[:2] == ("call", "elem") or x[:1] == ("havoc",) and len(x) > 1 and x[1][:1] == ("loop",)
    own = {x for x in walk_all(t) if x[:1] == ("d",) and any(var(y) for y in walk_all(x))}
    return {max(own, key=lambda x: len(str(x)))} if own else {x for x in walk_all(t) if var(x)}


def iterates(P, f):
    """a function that hands elements to a callback and calls itself for the rest"""
    c = P.__dict__.setdefault("_n01_iter", {})
    if f.key not in c:
        c[f.key] = bool(f.body) and f.scls is not None and any("allback" in p["t"] or "lambda" in p["t"] or "FunctionRef" in p["t"] for p in f.d["p"]) and \
            any(x.get("k") == "call" and x.get("f") == f.key for x in f.nodes())
    return c[f.key]


def judge_each(P, R, f, tree):
    R.fn(f)
    outs, eng = R.engine(P, Each(f), f)
    bad, n, cbs, recs = set(), 0, 0, 0
    for kind, st, v in outs:
        tr = list(st.trace)
        seen = set()
        if any(e[0] == "left" for e in tr):
            bad.add("the loop over the entries is left early")
        its = [i for i, e in enumerate(tr) if e[0] == "iter"]
        for k, i in enumerate(its):
            end = its[k + 1] if k + 1 < len(its) else len(tr)
            acts = [e for e in tr[i:end] if e[0] in ("cb", "rec")]
            if kind == "r" and len(acts) != 1:
                bad.add("an entry is left out" if not acts else "an entry is handed out twice")
        for e in tr:
            if e[0] == "iter":
                seen = set()
            if e[0] == "cb":
                cbs += 1
                els = [elements(a) for a in e[1]]
                if not all(els) or len({frozenset(x) for x in els}) != 1:
                    bad.add("what is handed out does not come from one entry")
                elif frozenset(els[0]) in seen:
                    bad.add("an entry is handed out twice")
                else:
                    seen.add(frozenset(els[0]))
            if e[0] == "rec":
                recs += 1
                nodes = {x[1]: x[2] for x in tr if x[0] == "node"}
                root = {x[1] for x in tr if x[0] == "root"}
                if e[1] in root:
                    continue
                if e[1] not in nodes or not elements(nodes[e[1]]):
                    bad.add("the search goes on in something that is not a child of the node")
        if kind == "r" and not its and any(e[0] == "root" and st.decide(("eq0", e[1])) is not True for e in tr) and not any(e[0] in ("rec", "cb") for e in tr):
            bad.add("a directory with a root is listed as empty")
        n += 1
    if tree and not recs:
        bad.add("the children of a node are left out")
    if (iterates(P, f) or not tree) and not cbs:
        bad.add("the entries of a node are left out")
    return bad, n


def entry_walks(P):
    out = []
    for f in P.funcs.values():
        if f.body and not f.d.get("lambda") and f.scls and (base(f.n) == "iterate_over_entries_impl" or iterates(P, f) and "irectory" in f.scls):
            out.append(f)
    return out


@rule("N01")
def listings_show_the_names(P, R):
    """Three steps of a listing are run symbolically, each function with its callees inlined.

    (a) Every `bool next(string*, stat*)`: each name read below that is passed over must be empty, begin with a dot, fail to
    decode, or be tagged by the translator as no name; the name given out is that of the entry read last, decoded unless it is a
    dot entry or names are not encrypted, and a long one is decoded from what the table of long names returns. The end is announced exactly when
    the step below announces it; one undecodable name does not end the listing. Over readdir(3): errno is cleared before and examined
    after, and name and kind are those of the entry returned.

    (b) Every vreaddir that does not delegate: rewound first; each entry received is given to the filler exactly once, under its own
    name, with its own inode number and kind; "." and ".." are the directory and its parent; a filler that takes no more stops
    the listing with an error.

    (c) Every walk over the entries of a full-format directory: one callback per entry, with values of that entry only, one
    recursion per child, and none left out."""
    n = 0
    for f in sorted(traversers(P), key=lambda x: x.n):
        sysc = any(x.get("k") == "call" and (x.get("n") or "").lstrip(":") in ("readdir", "readdir64", "readdir_r") for x in f.nodes())
        bad, k = (judge_system_next if sysc else judge_next)(P, R, f)
        n += k
        R.ob("next", f.n, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "steps of directory listings")
    n = 0
    for f in sorted(P.funcs.values(), key=lambda x: x.n):
        if f.body and base(f.n) == "vreaddir" and f.scls and not delegates(P, f):
            bad, k = judge_readdir(P, R, f)
            n += k
            R.ob("readdir", f.n, not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "entries handed to the kernel")
    n = 0
    for f in sorted(entry_walks(P), key=lambda x: x.key):
        tree = iterates(P, f) or any(x.get("k") == "call" and P.funcs.get(x.get("f")) and iterates(P, P.funcs[x["f"]]) for x in f.nodes())
        bad, k = judge_each(P, R, f, tree)
        n += k
        R.ob("walk", f.n + (" " + f.key[-12:] if iterates(P, f) else ""), not bad, f.where, "; ".join(sorted(bad)))
    R.need(n, "walks over the entries of a directory")
