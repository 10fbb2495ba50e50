"""Common driver of the checks: obligations, known findings, evidence, exit status."""
import json, os, sys, time, traceback
import model
from model import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """{key: text} of the recorded (unrepaired) findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" :: ")[0].split(" ") if "=" in x)
                if f.get("property") == pid:
                    out[f["key"]] = l.split(" :: ", 1)[1]
    return out


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obs = []  # (group, key, ok, where, text)
        self.counts = {}
        self.floors = []
        self.notes = []
        self.t0 = time.time()
        self.assumptions = []
        self.P = None
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def load(self, *dirs):
        self.P = model.load(list(dirs) if dirs else None)
        return self.P

    def ob(self, group, key, ok, where, text):
        """One obligation. key names the construct without line numbers."""
        self.obs.append((group, key.replace(" ", ""), bool(ok), where, text))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, group, n):
        """The rule must have at least n instances of this group."""
        self.floors.append((group, n))

    def finish(self):
        groups = {}
        for g, k, ok, w, t in self.obs:
            groups.setdefault(g, [0, 0])
            groups[g][0] += 1
            groups[g][1] += ok
        known = known_findings(self.pid)
        bad, kf = [], {}
        for o in self.obs:
            if o[2]:
                continue
            if o[1] in known:
                kf[o[1]] = o
            else:
                bad.append(o)
        # de-duplicate
        seen, vio = set(), []
        for o in bad:
            if (o[0], o[1], o[3]) not in seen:
                seen.add((o[0], o[1], o[3]))
                vio.append(o)
        if not vio:
            for g, n in self.floors:
                have = groups.get(g, [0, 0])[0]
                if have < n:
                    raise AnalysisBroken("rule group '%s' matched %d instances, at least %d were confirmed by hand" % (g, have, n))
        ev = {"property": self.pid, "tier": "thorough" if self.tier == "thorough" else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {
                  "explanation": self.rule,
                  "obligations": len(self.obs),
                  "discharged": sum(1 for o in self.obs if o[2]),
                  "groups": {g: {"obligations": a, "discharged": b} for g, (a, b) in sorted(groups.items())},
                  "translation_units": len(self.P.tus) if self.P else 0,
                  "functions_in_model": len(self.P.fns) if self.P else 0,
                  "counts": self.counts,
                  "samples": [{"group": g, "construct": k, "where": w, "rule": t, "ok": ok} for g, k, ok, w, t in self.samples()],
                  "known_findings": sorted(kf),
                  "notes": self.notes,
              },
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(vio)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, o in sorted(kf.items()):
            print("KNOWN-FINDING: property=%s %s [%s at %s]" % (self.pid, known[k], k, o[3]))
        print("%s: %d obligations in %d rule groups, %d discharged, %d known findings, %d violations (%.1fs)" % (
            self.pid, len(self.obs), len(groups), ev["coverage"]["discharged"], len(kf), len(vio), ev["wall_s"]))
        if vio:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for g, k, ok, w, t in vio:
                    f.write("[%s] %s\n  at %s\n  %s\n" % (g, k, w, t))
            for g, k, ok, w, t in vio[:12]:
                print("  [%s] %s: %s  -- %s" % (g, w, k, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0

    def samples(self):
        out, per = [], {}
        for o in self.obs:
            if per.get(o[0], 0) < 4:
                per[o[0]] = per.get(o[0], 0) + 1
                out.append(o)
        return out[:60]


def main(run, pid, rule):
    ck = Check(pid, rule)
    sys.setrecursionlimit(20000)
    try:
        run(ck)
        rc = ck.finish()
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
