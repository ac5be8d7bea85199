"""Rule registry, result reporting, known findings, evidence."""
import json, os, sys, time, traceback
from . import frontend, prog, engine
from .frontend import Broken

REGISTRY = {}


def rule(pid, **meta):
    def deco(fn):
        REGISTRY[pid] = (fn, meta)
        return fn
    return deco


class Result:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.obs = []           # (kind, key, ok, detail)
        s.notes = []
        s.functions = set()
        s.paths = 0
        s.seen = set()
        s.undecided = []

    @property
    def thorough(s):
        return s.tier == "thorough"

    def ob(s, kind, key, ok, where="", detail="", path=None):
        """One obligation at one construct; failing it is a violation at `where`."""
        k = (kind, key, bool(ok), where)
        if k in s.seen:
            return ok
        s.seen.add(k)
        s.obs.append(dict(kind=kind, construct=key, ok=bool(ok), where=where, detail=detail,
                          path=path or []))
        return ok

    def fn(s, *fs):
        for f in fs:
            s.functions.add(f.key if hasattr(f, "key") else f)

    def need(s, n, what):
        """A rule that examined nothing has decided nothing."""
        if not n:
            raise Broken("nothing to analyse: " + what)

    def undec(s, what):
        s.undecided.append(what)

    def engine(s, P, rule, f, budget=None, **kw):
        """Run the dataflow engine on a root and account for it."""
        e = engine.Engine(P, rule, budget=budget or (4000000 if s.thorough else 1500000))
        try:
            out = e.run(f, **kw)
        except engine.TooBig as x:
            rule.max_states = 30
            e = engine.Engine(P, rule, budget=3000000)
            out = e.run(f, **kw)
            s.notes.append("coarse join for " + f.sn)
        s.paths += len(out)
        s.functions.add(f.key)
        s.functions |= e.stat_inlined
        return out, e


def known():
    p = os.path.join(frontend.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import rules
    rules.load_all()
    if pid not in REGISTRY:
        print("no rule for", pid)
        return 2
    fn, meta = REGISTRY[pid]
    ev = os.path.join(frontend.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    R = Result(pid, tier)
    try:
        P = prog.load()
        bad = {t: d for t, d in P.errors.items()}
        for t in bad:
            R.notes.append("parse errors in %s (the rest of it is still analysed)" % t)
        fn(P, R)
        if not R.obs:
            raise Broken("no obligations were generated")
        if bad and all(o["ok"] for o in R.obs) and meta.get("strict_parse"):
            raise Broken("parse errors: %s" % bad)
    except (Broken, engine.TooBig) as x:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    fails = [o for o in R.obs if not o["ok"]]
    listed = []
    kn = [k for k in known() if k["property"] == pid and k["status"] == "known"]
    fresh = []
    for o in fails:
        m = [k for k in kn if k["kind"] == o["kind"] and k["construct"] == o["construct"]]
        (listed if m else fresh).append((o, m[0] if m else None))
    for k in kn:
        hit = [o for o, m in listed if m is k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            R.notes.append("listed finding not observed on this tree: " + k["construct"])
    by = {}
    for o in R.obs:
        b = by.setdefault(o["kind"], dict(obligations=0, discharged=0))
        b["obligations"] += 1
        b["discharged"] += o["ok"]
    total = len(R.obs)
    disch = sum(o["ok"] for o in R.obs)
    samples = []
    seenk = set()
    for o in R.obs:
        if o["kind"] not in seenk or len(samples) < 6:
            seenk.add(o["kind"])
            samples.append({k: o[k] for k in ("kind", "construct", "where", "ok")})
        if len(samples) >= 40:
            break
    cov = dict(explanation="Static analysis of the sources of the working tree (parsed by clang, "
               "implicit code and template instances included). " + (fn.__doc__ or "").strip(),
               obligations=total, discharged=disch, obligations_by_rule=by,
               functions_analysed=len(R.functions), path_classes=R.paths,
               program_functions=len(P.funcs), translation_units=len(P.dumps), samples=samples)
    if R.undecided:
        cov["undecided"] = R.undecided[:50]
    if R.notes:
        cov["notes"] = R.notes
    rep = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
               assumptions=list(meta.get("assumptions", [])) or
               ["the stand-ins for the unavailable headers (uni-algo, absl str_format) have the "
                "signatures of the real ones", "external libraries behave as documented"],
               wall_s=round(time.time() - t0, 3), violations=len(fresh))
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(rep, f, indent=1)
    vp = os.path.join(ev, pid + ".violations.json")
    if os.path.exists(vp):
        os.unlink(vp)
    print("%s: %d obligations, %d discharged, %d functions, %d path classes, %.1fs"
          % (pid, total, disch, len(R.functions), R.paths, time.time() - t0))
    if fresh:
        with open(vp, "w") as f:
            json.dump([o for o, _ in fresh], f, indent=1)
        for o, _ in fresh:
            print("  %s: [%s] %s -- %s" % (o["where"], o["kind"], o["construct"], o["detail"]))
            for p in o["path"][:8]:
                print("      via " + p)
        print("VIOLATION property=%s replay=%s" % (pid, vp))
        return 1
    return 0
