"""C15: the table of long names goes with the files."""
import re
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .locks import ops_roots
from .handles import delegates
from .errors import THROWERS
from .common import *

OCREAT = 0o100


def direct_ext(f):
    return {(n.get("n") or "").lstrip(":") for n in f.nodes() if n.get("k") == "call" and n.get("ext")}


def sqlite_verbs(P):
    """what each function does with the database library by itself"""
    c = P.__dict__.get("_sqlite_verbs")
    if c is None:
        c = {}
        for f in P.funcs.values():
            if not f.body:
                continue
            for n in direct_ext(f):
                for pre, what in (("sqlite3_exec", "exec"), ("sqlite3_bind_", "bind"), ("sqlite3_step", "step"), ("sqlite3_column_", "column"),
                                  ("sqlite3_prepare", "prepare"), ("sqlite3_open", "open")):
                    if n.startswith(pre):
                        c.setdefault(f.key, set()).add(what)
        P._sqlite_verbs = c
    return c


def db_classes(P):
    return {P.funcs[k].scls for k in sqlite_verbs(P) if P.funcs[k].scls}


def fs_classes(P):
    """classes whose methods rename and remove entries of the underlying file system"""
    c = P.__dict__.get("_fs_classes")
    if c is None:
        c = {f.scls for f in P.funcs.values() if f.body and f.scls
             and any(re.match(r"(renameat|rename|mkdirat|mkdir|symlinkat|linkat|unlinkat)$", n) for n in direct_ext(f))}
        P._fs_classes = c
    return c


def tables(P):
    """classes with a database as a member that are locked by their users"""
    c = P.__dict__.get("_name_tables")
    if c is None:
        db = db_classes(P)
        c = {}
        for q in {f.scls for f in P.funcs.values() if f.scls}:
            fam = [q] + list(P.all_bases(q))
            recs = [P.record_of(b) for b in fam]
            if q in db or not any(PR.strip_t(x["t"]) in db for r in recs if r for x in r.get("fields", [])):
                continue
            ms = {}
            for b in reversed(fam):
                for g in P.methods_of(b):
                    if g.body:
                        ms[base(g.n)] = g
            if "lock" in ms and "unlock" in ms:
                c[q] = ms
        # a base on its own is not used
        for q in list(c):
            if any(q in P.all_bases(o) for o in c if o != q):
                del c[q]
        P._name_tables = c
    return c


def text_of(P, t):
    """the texts a term is made of"""
    out = []
    for x in subterms(t) if t is not None else []:
        if x[0] == "str":
            out.append(x[1])
        elif x[0] == "g" or (x[0] == "in" and x[1][0] == "g"):
            g = P.globals.get(x[1] if x[0] == "g" else x[1][1])
            if g and (g.get("init") or {}).get("k") == "str":
                out.append(g["init"]["v"])
    return out


def parse_sql(text):
    """(verb, schema, table, detail) for each statement of a text"""
    res = []
    for s in text.split(";"):
        s = " ".join(s.lower().split())
        if not s:
            continue
        m = re.match(r"(?:insert(?: or (\w+))?|(replace)) into (?:(\w+)\.)?(\w+) ?\(([^)]*)\) ?values ?\(([^)]*)\)(.*)$", s)
        if m:
            cols = [x.strip() for x in m.group(5).split(",")]
            vals = [x.strip() for x in m.group(6).split(",")]
            tolerant = (m.group(1) or m.group(2)) in ("ignore", "replace") or "on conflict" in m.group(7)
            k, at = 0, {}
            for c, v in zip(cols, vals):
                if v == "?":
                    k += 1
                    at[c] = k
                elif re.match(r"\?\d+$", v):
                    at[c] = int(v[1:])
            res.append(("insert", m.group(3) or "main", m.group(4), (at, tolerant)))
            continue
        m = re.match(r"delete from (?:(\w+)\.)?(\w+) where (\w+) ?=+ ?\?1?$", s)
        if m:
            res.append(("delete", m.group(1) or "main", m.group(2), m.group(3)))
            continue
        m = re.match(r"select (\w+) from (?:(\w+)\.)?(\w+)(?: where (\w+) ?=+ ?\?1?)?(?: limit 1)?$", s)
        if m:
            res.append(("select", m.group(2) or "main", m.group(3), (m.group(1), m.group(4))))
            continue
        m = re.match(r"create table (?:if not exists )?(?:(\w+)\.)?(\w+) ?\((.*)\)(?: without rowid)?$", s)
        if m:
            cols = [x.strip() for x in m.group(3).split(",")]
            key = [x.split()[0] for x in cols if "primary key" in x or "unique" in x]
            res.append(("create", m.group(1) or "main", m.group(2), (tuple(x.split()[0] for x in cols), key[0] if key else None, "if not exists" in s)))
            continue
        m = re.match(r"attach(?: database)? \? as (\w+)$", s)
        if m:
            res.append(("attach", m.group(1), None, None))
            continue
        m = re.match(r"(begin|commit|rollback|end)\b", s)
        res.append(({"end": "commit"}.get(m.group(1), m.group(1)) if m else "other", None, None, s))
    return res


class Sql(Ev):
    """what a method of a table asks of the database"""
    max_states = 300

    def __init__(s, P):
        s.P = P
        s.v = sqlite_verbs(P)
        s.db = db_classes(P)
        # constructors of classes that prepare a statement are given its text
        s.prep = {P.funcs[k].scls for k, w in s.v.items() if "prepare" in w and P.funcs[k].scls}
        s.opens = {k for k, w in s.v.items() if "open" in w}
        Ev.__init__(s, THROWERS, avoid=lambda g: g.scls in s.db)

    def inline(s, eng, f, ev):
        return f.scls not in s.db and not (f.scls or "").startswith("std::") and simple(f, 100)

    def resolved(s, eng, st, t):
        r = text_of(s.P, t)
        if not r and t is not None and t[0] == "addr" and t[1][0] in ("el", "v", "t"):
            r = text_of(s.P, eng.load(st, t[1][1] if t[1][0] == "el" else t[1]))
        return "\n".join(r)

    def on_ret(s, eng, st, ev, val):
        w = s.v.get(ev.key, ())
        if ev.kind == "ctor" and (ev.name or "").rsplit("::", 1)[0] in s.prep or ev.kind == "ctor" and PR.strip_t(ev.node.get("t", "")) in s.prep:
            if len(ev.args) >= 2:
                st.emit(("prep", s.resolved(eng, st, ev.args[1]), ev.where))
        elif "open" in w:
            st.emit(("open", tuple(ev.args), ev.where))
        elif "exec" in w:
            st.emit(("exec", s.resolved(eng, st, ev.args[0]), ev.where))
        elif "bind" in w:
            st.emit(("bind", ev.args[0], tuple(ev.args[1:]), ev.where))
        elif "step" in w:
            st.emit(("step", val, ev.where))
        elif "column" in w:
            st.emit(("column", ev.args[0] if ev.args else None, val, ev.where))


def at(f, i):
    """the terms a parameter may appear as"""
    p = f.d["p"][i]
    return {("in", ("v", 0, p["id"], p["n"]), 0), ("p", p["n"]), ("in", ("p", p["n"]), 0), ("addr", ("el", ("p", p["n"])))}


def which(f, t):
    """index of the parameter a term is, or is the content of"""
    xs = [t] + list(subterms(t)) if t is not None else []
    for i in range(len(f.d["p"])):
        if at(f, i) & set(xs) or any(("p", f.d["p"][i]["n"]) in x for x in xs if isinstance(x, tuple)) \
                or any(x[0] == "addr" and ("p", f.d["p"][i]["n"]) in subterms(x[1]) for x in xs if isinstance(x, tuple) and x and x[0] == "addr"):
            return i
    return None


def statements(tr):
    """the statements run on a path: (sql text, {position: bound}, steps, columns, where)"""
    out, cur = [], None
    for t in tr:
        if t[0] == "prep":
            cur = [t[1], {}, [], [], t[2]]
            out.append(cur)
        elif t[0] == "exec":
            out.append([t[1], {}, [True], [], t[2]])
        elif cur is not None:
            if t[0] == "bind":
                cur[1][t[1]] = t[2]
            elif t[0] == "step":
                cur[2].append(t)
            elif t[0] == "column":
                cur[3].append(t)
    return out


class Role:
    __slots__ = ("verb", "hash", "name", "file")

    def __init__(s, verb, h, n, f):
        s.verb, s.hash, s.name, s.file = verb, h, n, f


def roles(P, R):
    """what each method of a table does: {function key: Role}, with the obligations on them"""
    res = {}
    schema = {}
    ctors = {}
    for q in sorted(tables(P)):
        ms = tables(P)[q]
        cts = [g for g in P.methods_of(q) if base(g.n) == q.rsplit("::", 1)[-1] and g.body and g.d.get("ctor") and len(g.d["p"]) >= 1]
        ctors[q] = []
        for g in cts:
            outs, eng = R.engine(P, Sql(P), g)
            R.fn(g)
            for kind, st, v in outs:
                if kind != "r":
                    continue
                files, made, ro, ops = {}, set(), False, [t for t in st.trace if t[0] == "open"]
                for t in ops:
                    files["main"] = which(g, t[1][0])
                    fl = next((a for a in t[1][1:] if st.const(a) is not None), None)
                    c = st.const(fl) if fl is not None else None
                    ro = c is None or not c & 2
                for sql, binds, steps, cols, where in statements(st.trace):
                    for verb, sch, tab, det in parse_sql(sql):
                        if verb == "attach" and steps:
                            files[sch] = which(g, (binds.get(I(1)) or (None,))[0])
                        elif verb == "create" and steps:
                            made.add(sch)
                            schema[tab] = det
                            if not det[2]:
                                R.ob("table", g.n, False, where, "creating the table fails when it is there already")
                if not ops:
                    continue
                ok = ro or set(files) <= made
                R.ob("table", g.n, ok and None not in files.values(), g.where,
                     "" if ok else "a database opened for writing may have no table")
                ctors[q].append((g, st, files, ro))
        for g, st, files, ro in ctors[q]:
            more = {i for g2, _, fs, _ in ctors[q] if g2 is g for i in fs.values() if i is not None}
            for i in sorted(more - set(files.values())):
                ok = any(same_param(st, g, i, j) for j in files.values() if j is not None)
                R.ob("table", g.n + " (both directories)", ok, g.where, "" if ok else "the table of the second directory is not opened although it may be another")
    R.need(schema and all(c[1] for c in schema.values()), "the definition of the table of long names")
    for q in sorted(tables(P)):
        for b, g in sorted(tables(P)[q].items()):
            if g.d.get("ctor") or b in ("lock", "unlock") or b.startswith("~") or g.key in res:
                continue
            outs, eng = R.engine(P, Sql(P), g)
            bad, got = [], None
            used = []
            for kind, st, v in outs:
                if kind != "r":
                    continue
                for sql, binds, steps, cols, where in statements(st.trace):
                    for verb, sch, tab, det in parse_sql(sql):
                        if verb not in ("insert", "delete", "select"):
                            continue
                        R.fn(g)
                        cols_, key, _ = schema.get(tab, ((), None, None))
                        if key is None:
                            bad.append((where, "it uses a table that is not the one created"))
                            continue
                        if not steps:
                            bad.append((where, "the statement is prepared but not run"))
                        name = [c for c in cols_ if c != key]
                        used.append((st, sch, where))
                        if verb == "insert":
                            pos, tol = det
                            h = which(g, (binds.get(I(pos.get(key, 0))) or (None,))[0])
                            n = which(g, (binds.get(I(pos.get(name[0], 0) if name else 0)) or (None,))[0])
                            if h is None or n is None or h == n:
                                bad.append((where, "the hash and the encrypted name are not both stored"))
                            if not tol:
                                bad.append((where, "recording a name that is there already fails"))
                        elif verb == "delete":
                            h, n = which(g, (binds.get(I(1)) or (None,))[0]), None
                            if det != key or h is None:
                                bad.append((where, "the row removed is not that of the hash given"))
                        else:
                            if det[1] is None:
                                continue
                            h, n = which(g, (binds.get(I(1)) or (None,))[0]), None
                            if det[1] != key or h is None or det[0] == key:
                                bad.append((where, "the name looked up is not that of the hash given"))
                            row = any(st.decide(("eq0", t[1])) is False for t in steps if t is not True and t[1] is not None)
                            if row and not any(c[1] == I(0) for c in cols):
                                bad.append((where, "the name found is not returned"))
                            if row and v is not None and not any(c[2] in [v] + list(subterms(v)) or any(s2 == c[2] for s2 in subterms(v)) for c in cols if c[2] is not None):
                                bad.append((where, "the name found is not returned"))
                        r = (verb, h, n)
                        if got is not None and got != r:
                            bad.append((where, "its paths do not do the same"))
                        got = r
            if got is None:
                continue
            # every path that ends normally does it
            for kind, st, v in outs:
                if kind == "r" and not any(verb == got[0] for x in statements(st.trace) for verb, *_ in parse_sql(x[0])):
                    bad.append((g.where, "it may do nothing"))
            # the database it is done in
            f = None
            for q2 in [q]:
                for ct, cst, files, ro in ctors[q2]:
                    for st, sch, where in used:
                        if not consistent(st, cst):
                            continue
                        if sch not in files:
                            bad.append((where, "it uses a database that is not attached"))
                f = secondary(used, ctors[q2])
                for ct, cst, files, ro in ctors[q2]:
                    for st, sch, where in used:
                        if f is not None and consistent(st, cst) and f in files.values() and files.get(sch) != f:
                            bad.append((where, "it is done in the table of another directory"))
            R.ob("table", g.n, not bad, bad[0][0] if bad else g.where, bad[0][1] if bad else "")
            res[g.key] = Role(got[0], got[1], got[2], f)
    return res, ctors


def same_param(st, f, i, j):
    """are two parameters known to be equal"""
    for a in at(f, i):
        for b in at(f, j):
            for x, y in ((a, b), (b, a)):
                for op, v in (("operator==", True), ("operator!=", False)):
                    d = st.decide(("call", op, x, y))
                    if d is not None:
                        return d == v
    return None


def consistent(st, cst):
    """can an object built on the path cst be in the state of the method's path st: compare what is known of flags"""
    for loc, v in cst.env.items():
        if loc[0] == "m" and loc[1] == ("obj", "this"):
            a = cst.decide(("eq0", v))
            b = st.decide(("eq0", ("in", loc, 0)))
            if a is not None and b is not None and a != b:
                return False
    return True


def secondary(used, cts):
    """index of the constructor's parameter naming the database used: an attached one if any path uses that"""
    ix = set()
    for ct, cst, files, ro in cts:
        for st, sch, where in used:
            if consistent(st, cst) and sch in files:
                ix.add(files[sch] if sch != "main" else ("main", files[sch]))
    att = [i for i in ix if not isinstance(i, tuple)]
    if att:
        return att[0]
    m = [i[1] for i in ix if isinstance(i, tuple)]
    return m[0] if m else None


# ---- operations -------------------------------------------------------------------------------------------------------

FS = {"mkdir": ((0, "c"),), "symlink": ((1, "c"),), "link": ((1, "c"),), "rename": ((0, "d"), (1, "c")), "remove_file": ((0, "d"),),
      "remove_directory": ((0, "d"),), "remove_file_nothrow": ((0, "d"),), "remove_directory_nothrow": ((0, "d"),),
      "open_file_stream": ((0, "o"),)}


def bit(st, t, m):
    """is a bit of a term known to be set: True, False, None"""
    d = st.decide(("eq0", masked(t, m)))
    return None if d is None else not d


class Op(Ev):
    max_states = 600

    def __init__(s, P, rl):
        s.P, s.rl = P, rl
        s.tabs = tables(P)
        s.fam = set(s.tabs) | {b for q in s.tabs for b in P.all_bases(q)}
        s.fs = fs_classes(P)
        s.trans = translators(P)
        Ev.__init__(s, (), avoid=lambda g: g.scls in s.fam or g.scls in s.fs or g.scls in s.trans)
        s.names = P.reaching(lambda n: n.get("f") in rl or (base(n.get("n") or "") in FS and (n.get("n") or "").rsplit("::", 1)[0] in s.fs))

    def inline(s, eng, f, ev):
        if s.avoid(f) or base(f.n) in LOGGY:
            return False
        if f.key in s.names or base(f.n) in THROWERS or simple(f):
            return True
        return any(a is not None and a[0] == "lam" and any(k in s.names for k in a[1]) for a in ev.args)

    def on_ret(s, eng, st, ev, val):
        cls = (ev.name or "").rsplit("::", 1)[0]
        if ev.kind == "ctor" and PR.strip_t(ev.node.get("t", "") or cls) in s.tabs:
            st.emit(("tab", s.oid(eng, st, ev), tuple(ev.args), ev.where))
        elif ev.key in s.rl and cls in s.fam:
            st.emit(("role", s.oid(eng, st, ev), ev.key, tuple(s.val(eng, st, a) for a in ev.args), val, ev.where))
        elif ev.base in ("lock", "unlock") and cls in s.fam:
            st.emit((ev.base, s.oid(eng, st, ev), ev.where))
        elif cls in s.trans:
            out = None
            if len(ev.args) > 1 and ev.args[1] is not None and ev.args[1][0] == "addr":
                out = ev.args[1][1]
            if len(ev.args) > 1 and ev.base == "encrypt_full_path":
                st.emit(("enc", val, out, s.known(eng, st, out), ev.where))
            else:
                st.emit(("der", val, tuple(ev.args)))
        elif ev.base in FS and cls in s.fs:
            n = len(st.trace)
            for i, what in FS[ev.base]:
                if i < len(ev.args):
                    if what == "o":
                        b = bit(st, ev.args[1], OCREAT) if len(ev.args) > 1 else None
                        if b is False:
                            continue
                        what = "c"
                    enc = [(t[1], t[2], s.known(eng, st, t[2])) for t in st.trace if t[0] == "enc" and t[1] == s.val(eng, st, ev.args[i])]
                    st.emit(("fs", what, ev.base, s.val(eng, st, ev.args[i]), tuple(enc), ev.where, n))
        elif cls in s.fs and val is not None and ev.args:
            st.emit(("der", val, tuple(ev.args)))

    def oid(s, eng, st, ev):
        o = ev.locs[0] if False else None
        return ev.obj if ev.obj is not None else None

    def val(s, eng, st, a):
        if a is not None and a[0] == "addr" and a[1][0] == "el":
            v = eng.load(st, a[1][1])
            return v if v is not None else a
        return a

    def known(s, eng, st, out):
        """is the encrypted name known to be empty (True), known not to be, or neither; with its value"""
        if out is None:
            return None
        v = eng.load(st, out)
        return (v, emptiness(st, v, out))


def emptiness(st, v, loc):
    for t in (("call", "empty", v), ("call", "std::basic_string::empty", v)):
        d = st.decide(t)
        if d is not None:
            return d
    for t in (("call", "size", v), ("call", "size", ("in", loc, 0))):
        d = st.decide(("eq0", t))
        if d is not None:
            return d
    return None


def translators(P):
    """the class the names are encrypted by, and its implementations"""
    c = P.__dict__.get("_translators")
    if c is None:
        c = set()
        for f in P.funcs.values():
            if base(f.n) == "encrypt_full_path" and f.scls:
                c.add(f.scls)
        P._translators = c
    return c


def mentions_via(t, e, der, seen=None):
    """does t come from e, through what calls were given"""
    seen = set() if seen is None else seen
    if t is None or t in seen:
        return False
    seen.add(t)
    if t == e:
        return True
    for x in subterms(t):
        if x == e:
            return True
        if x in der and x not in seen:
            seen.add(x)
            if any(mentions_via(a, e, der, seen) for a in der[x]):
                return True
    return t in der and any(mentions_via(a, e, der, seen) for a in der[t])


def judge(P, R, rl, ctors, st, tr):
    """complaints about one path: [(where, text)], and the number of entries followed"""
    bad, n = [], 0
    der, tabs, held, roles_, fss = {}, {}, [], [], []
    for i, t in enumerate(tr):
        if t[0] == "der" and t[1] is not None:
            der.setdefault(t[1], ())
            der[t[1]] += tuple(t[2])
        elif t[0] == "tab":
            tabs[t[1]] = (t[2], t[3])
        elif t[0] == "lock":
            held.append([t[1], i, len(tr)])
        elif t[0] == "unlock":
            for h in held:
                if h[0] == t[1] and h[2] == len(tr):
                    h[2] = i
        elif t[0] == "role":
            roles_.append((i,) + t[1:])
        elif t[0] == "fs":
            fss.append((i,) + t[1:])
    encs = any(t[0] == "enc" for t in tr)
    matched = set()

    def within(i, j, obj):
        return any(h[0] == obj and h[1] < i < h[2] and h[1] < j < h[2] for h in held)

    def find(i, what, ok):
        for r in roles_:
            j, obj, key, args, val, where = r
            if rl[key].verb == ("insert" if what == "c" else "delete") and within(i, j, obj) and ok(r):
                return r
        return None

    def table_of(r, e):
        a = tabs.get(r[1])
        if a is None:
            return None
        f = rl[r[2]].file
        return f is not None and f < len(a[0]) and mentions_via(a[0][f], e, der)

    pair = {}
    for i, what, name, path, es, where, op in fss:
        if not encs:
            if not roles_ or name.endswith("_nothrow"):
                continue
            n += 1
            r = find(i, what, lambda r: mentions_via(path, r[3][rl[r[2]].hash], der))
            if r is None:
                bad.append((where, "an entry with a long name is %s without its name in the same transaction" % ("created" if what == "c" else "removed")))
                continue
            matched.add(r[0])
            pair.setdefault(op, {})[what] = r
            continue
        for e, out, known in es:
            n += 1
            if known is None:
                bad.append((where, "an entry is %s without asking whether its name is long" % ("created" if what == "c" else "removed")))
                continue
            v, empt = known
            if empt is True:
                continue
            r = find(i, what, lambda r: mentions_via(r[3][rl[r[2]].hash], e, der))
            if r is None:
                bad.append((where, "an entry with a long name is %s, but its name is not %s in the same transaction" % (("created", "recorded") if what == "c" else ("removed", "removed"))))
                continue
            matched.add(r[0])
            pair.setdefault(op, {})[what] = r
            if what == "c" and r[3][rl[r[2]].name] != v:
                bad.append((r[5], "what is recorded is not the encrypted name of the entry"))
            if not table_of(r, e):
                bad.append((r[5], "the name is not kept in the table of the directory of the entry"))
    for i, p in pair.items():
        if "c" in p and "d" in p:
            if encs and p["d"][0] > p["c"][0]:
                bad.append((p["d"][5], "the old name is removed after the new one is recorded: it is lost when they are the same"))
            if not encs:
                h = p["d"][3][rl[p["d"][2]].hash]
                nm = p["c"][3][rl[p["c"][2]].name]
                src = [r for r in roles_ if rl[r[2]].verb == "select" and r[3][rl[r[2]].hash] == h and r[4] is not None]
                if not any(nm == r[4] or r[4] in subterms(nm) for r in src):
                    bad.append((p["c"][5], "what is recorded under the new name is not what was under the old"))
                if any(r[0] > p["d"][0] for r in src if nm == r[4]):
                    bad.append((p["c"][5], "the name is looked up after it has been removed"))
    done = {}
    for op, p in pair.items():
        for r in p.values():
            for k, h in enumerate(held):
                if h[0] == r[1] and h[1] < r[0] < h[2]:
                    done.setdefault(k, {})[op] = r
    for k, ops in done.items():
        if len(ops) > 1:
            bad.append((ops[max(ops)][5], "the failure of one file would roll back the names of others already renamed"))
    for r in roles_:
        if rl[r[2]].verb == "delete" and r[0] not in matched and fss:
            bad.append((r[5], "a name is removed that is not that of the entry removed"))
        if rl[r[2]].verb in ("insert", "delete"):
            a = tabs.get(r[1])
            for q in ctors:
                for g, cst, files, ro in ctors[q]:
                    if ro and a and len(g.d["p"]) == len(a[0]):
                        for k, arg in enumerate(a[0]):
                            p = g.d["p"][k]
                            d = cst.decide(("eq0", ("in", ("v", 0, p["id"], p["n"]), 0)))
                            c = st.const(arg)
                            if d is not None and c is not None and (c == 0) == d:
                                bad.append((r[5], "the table is opened for reading only"))
    return bad, n


@rule("C15")
def long_names_go_with_files(P, R):
    """The methods of the tables of long names are read as SQL: which record a (hash, encrypted name) pair, remove it or look it up, in the
    database of which directory. Then every path of every operation that creates, renames or removes an entry: unless the translator said
    that the name is not long, the pair of that entry is recorded or removed, in the table of its directory, between the begin and the end
    of the transaction that also contains the operation on the underlying file system. A transaction is begun when the table is locked,
    committed when unlocked, and rolled back when unlocked because of an exception."""
    R.need(tables(P) and fs_classes(P) and translators(P), "tables of long names")
    rl, ctors = roles(P, R)
    verbs = {r.verb for r in rl.values()}
    R.need({"insert", "delete", "select"} <= verbs, "methods that record, remove and look up a name")
    # transactions
    for g in {tables(P)[q][b].key: tables(P)[q][b] for q in tables(P) for b in ("lock", "unlock")}.values():
        R.fn(g)
        for unw in ((0,) if base(g.n) == "lock" else (0, 1)):
            st0 = State()
            st0.unw = unw
            outs, eng = R.engine(P, Sql(P), g, st=st0)
            want = "begin" if base(g.n) == "lock" else "rollback" if unw else "commit"
            bad = []
            for kind, st, v in outs:
                if kind != "r":
                    continue
                vs = [verb for x in statements(st.trace) for verb, *_ in parse_sql(x[0])]
                if vs != [want]:
                    bad.append("%s instead of %s" % (" ".join(vs) or "nothing", want))
            R.ob("transaction", "%s%s" % (g.n, " (exception)" if unw else ""), not bad, g.where, "; ".join(bad))
    # operations
    total = 0
    roots = [f for f in sorted(ops_roots(P), key=lambda x: x.n) if f.body and not delegates(P, f)]
    mutators = {k for k, r in rl.items() if r.verb != "select"}
    cl = {f.scls for f in roots if mutators & set(P.reach([f]))}
    R.need(cl, "operations that use the tables")
    todo = [f for f in roots if f.scls in cl]
    reached = set(P.reach(todo))
    tabs = set(tables(P))
    for f in P.funcs.values():
        if f.body and f.key not in reached and f.scls not in tabs and any(n.get("k") == "call" and n.get("f") in mutators for n in f.nodes()):
            todo.append(f)
    for f in todo:
        if not f.body:
            continue
        names = reach_names(P, tuple(sorted(FS)))
        if f.key not in names and not any(k in names for k in P.reach([f])):
            continue
        r = Op(P, rl)
        if f.key not in reached:
            r.loop_iters = 2
        outs, eng = R.engine(P, r, f)
        bad, cnt = [], 0
        for kind, st, v in outs:
            b, n = judge(P, R, rl, ctors, st, st.trace)
            if kind == "r":
                bad += b
                cnt += n
        if cnt == 0 and not bad:
            continue
        total += 1
        R.fn(f)
        R.ob("operation", f.n, not bad, bad[0][0] if bad else f.where, bad[0][1] if bad else "")
    R.need(total >= 7, "operations on entries")
