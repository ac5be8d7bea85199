"""A configurable event recorder: only the named calls leave a trace, so that everything else merges."""
from ..engine import *
from ..util import *
from .. import prog as PR


class Ev(Rule):
    loop_iters = 1
    max_states = 400

    def __init__(s, bases, stop=(), ifs=False, pred=None, follow=None, key=None, throws=None, avoid=None):
        s.avoid = avoid
        s.bases = set(bases)
        s.stop = tuple(stop)
        s.ifs = ifs
        s.pred = pred
        s.follow = follow
        s.key = key
        s._throws = throws

    def inline(s, eng, f, ev):
        b = base(f.n)
        if b in s.stop or b in LOGGY:
            return False
        if s.avoid is not None and s.avoid(f):
            return False
        if s.follow is not None:
            return s.follow(eng, f, ev)
        names = reach_names(eng.P, tuple(sorted(s.bases)))
        if simple(f) or f.key in names:
            return True
        # a function given one of these as a callback
        return any(a is not None and a[0] == "lam" and any(k in names for k in a[1]) for a in ev.args)

    def wants(s, ev):
        return ev.base in s.bases or (s.pred is not None and s.pred(ev))

    def on_ret(s, eng, st, ev, val):
        if s.wants(ev):
            st.emit(("c", ev.base, tuple(ev.args), val, ev.where, ev.obj, tuple(ev.locs or ())))

    def throws(s, eng, st, ev):
        if s._throws:
            r = s._throws(ev)
            if r is not None:
                return r
        return Rule.throws(s, eng, st, ev)

    def on_assume(s, eng, st, t, v, node, fr):
        if s.ifs and (s.ifs is True or s.ifs(t)):
            st.emit(("if", t, v))

    def merge_key(s, eng, st):
        return s.key(st) if s.key else None


def events(P, R, f, bases, stop=(), **kw):
    c = P.__dict__.setdefault("_evruns", {})
    r = Ev(bases, stop, **kw)
    outs, eng = R.engine(P, r, f)
    return outs, eng
