"""Driver support: obligations, findings, evidence."""
import json, os, sys, time, traceback, fnmatch
from . import cxx
from .cxx import AnalysisBroken

VERIF = cxx.VERIF


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = []          # (id, status, where, msg)
        self.units = set()
        self.functions = set()
        self.rules = []
        self.notes = []
        self.counts = {}

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def fn(self, *names):
        self.functions.update(names)

    def unit(self, *names):
        for n in names:
            self.units.add(n.replace(cxx.REPO + "/", "").replace(VERIF + "/", "verif:"))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, oid, msg="", where=""):
        self.obs.append((oid, "holds", where, msg))

    def bad(self, oid, where, msg):
        self.obs.append((oid, "violated", where, msg))

    def undecided(self, oid, where, msg):
        self.obs.append((oid, "undecided", where, msg))

    def check(self, cond, oid, where, msg):
        if cond:
            self.ok(oid, "", where)
        else:
            self.bad(oid, where, msg)
        return cond

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def execute(prop, runner, tier, seed):
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    evdir = os.environ.get("KDA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evp = os.path.join(evdir, prop["id"] + ".json")
    broken = None
    try:
        runner(ctx)
        n = len(ctx.obs)
        if n < prop.get("min_obligations", 1):
            raise AnalysisBroken("only %d obligations instantiated, at least %d were confirmed by hand" % (n, prop.get("min_obligations", 1)))
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    known = [k for k in load_findings() if k["property"] == prop["id"] and k.get("status") == "known"]
    viol, kf = [], []
    for oid, st, where, msg in ctx.obs:
        if st != "violated":
            continue
        m = next((k for k in known if k["instance"] == oid and (not k.get("detail") or k["detail"] in msg)), None)
        (kf if m else viol).append((oid, where, msg, m))
    nund = sum(1 for o in ctx.obs if o[1] == "undecided")
    ev = {
        "property": prop["id"], "tier": tier, "seed": seed, "level": prop["level"],
        "coverage": {
            "explanation": prop["explanation"],
            "rules": ctx.rules,
            "units_analysed": sorted(ctx.units),
            "functions_analysed": sorted(ctx.functions),
            "obligations": len(ctx.obs),
            "holding": sum(1 for o in ctx.obs if o[1] == "holds"),
            "undecided": [{"instance": o[0], "where": o[2], "why": o[3][:300]} for o in ctx.obs if o[1] == "undecided"],
            "known_findings": [{"instance": o[0], "where": o[1]} for o in kf],
            "counts": ctx.counts,
            "instances": [o[0] for o in ctx.obs][:400],
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
        "violation_list": [{"instance": o, "where": w, "what": m[:1500]} for o, w, m, _ in viol],
    }
    if broken:
        ev["coverage"]["analysis_broken"] = broken
    json.dump(ev, open(evp, "w"), indent=1)
    for o, w, m, k in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop["id"], o, k["what"]))
    if viol:
        rp = os.path.join(evdir, prop["id"] + ".replay.txt")
        with open(rp, "w") as f:
            for o, w, m, _ in viol:
                f.write("%s\n  at %s\n  %s\n\n" % (o, w, m))
        for o, w, m, _ in viol[:12]:
            print("%s\n  at %s\n  %s" % (o, w, m[:700]))
        print("VIOLATION property=%s replay=%s" % (prop["id"], rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop["id"], broken))
        return 3
    print("OK property=%s obligations=%d undecided=%d functions=%d (%.1fs)" % (prop["id"], len(ctx.obs), nund, len(ctx.functions), time.time() - t0))
    return 0
