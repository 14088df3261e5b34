"""Verdicts, known findings and evidence of one check run."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.rules = {}
        self.violations = []
        self.undecided = []
        self.analysed = {}
        self.assumptions = []
        self.known = []
        self.notes = []
        self.samples = {}

    def rule(self, rid, text):
        self.rules.setdefault(rid, {"rule": text, "obligations": 0, "discharged": 0, "undecided": 0, "violated": 0})

    def ok(self, rid, what=None, n=1):
        r = self.rules[rid]
        r["obligations"] += n
        r["discharged"] += n
        if what:
            s = self.samples.setdefault(rid, [])
            if len(s) < 6:
                s.append(str(what)[:200])

    def unknown(self, rid, where, why):
        r = self.rules[rid]
        r["obligations"] += 1
        r["undecided"] += 1
        self.undecided.append({"rule": rid, "where": str(where), "why": str(why)[:300]})

    def bad(self, rid, where, what, key=None):
        """A construct that violates the property.  key identifies it independently of line numbers."""
        r = self.rules[rid]
        v = {"rule": rid, "where": str(where), "what": str(what), "key": key or "{}|{}".format(rid, what)}
        if any(x["key"] == v["key"] and x["where"] == v["where"] for x in self.violations):
            return
        r["obligations"] += 1
        r["violated"] += 1
        self.violations.append(v)

    def check(self, rid, cond, where, what, key=None):
        if cond:
            self.ok(rid, where)
        else:
            self.bad(rid, where, what, key)
        return cond

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def finish(self):
        known = load_known(self.pid)
        fresh = []
        hit = set()
        for v in self.violations:
            if v["key"] in known:
                hit.add(v["key"])
            else:
                fresh.append(v)
        for k in sorted(hit):
            print("KNOWN-FINDING: property={} {}".format(self.pid, known[k]))
        self.known = sorted(hit)
        os.makedirs(EVID, exist_ok=True)
        for v in fresh:
            print("{}: {}: {} [{}] key={}".format(self.pid, v["where"], v["what"], v["rule"], v["key"]))
        path = os.path.join(EVID, self.pid + ".json")
        if fresh:
            rp = os.path.join(EVID, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for v in fresh:
                    f.write("{where}: {what}\n    rule {rule}: {text}\n    key {key}\n".format(
                        text=self.rules[v["rule"]]["rule"], **v))
            print("VIOLATION property={} replay={}".format(self.pid, rp))
        tot = {k: sum(r[k] for r in self.rules.values()) for k in ("obligations", "discharged", "undecided", "violated")}
        expl = "static analysis of the current source: {} obligations, {} discharged, {} undecided, {} violated ({} known). ".format(
            tot["obligations"], tot["discharged"], tot["undecided"], tot["violated"], len(hit))
        expl += "; ".join("{} {}".format(v, k) for k, v in self.analysed.items())
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": dict(
                {"explanation": expl},
                obligations=tot["obligations"], discharged=tot["discharged"], undecided=tot["undecided"],
                analysed=self.analysed, rules=self.rules, undecided_list=self.undecided[:60],
                samples=["{}: {}".format(r, x) for r, l in sorted(self.samples.items()) for x in l],
                known_findings=self.known),
            "wall_s": round(time.time() - self.t0, 3),
            "assumptions": self.assumptions,
            "violations": len(fresh),
        }
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        print("{}: {} obligations, {} discharged, {} undecided, {} violated, {} known ({:.1f} s)".format(
            self.pid, tot["obligations"], tot["discharged"], tot["undecided"], len(fresh), len(hit), time.time() - self.t0))
        return 1 if fresh else 0


def load_known(pid):
    """{key: description}: lines "property=<id> key=<key> :: description"."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("property={} key=".format(pid)):
                    key, _, desc = line.split("key=", 1)[1].partition(" :: ")
                    out[key.strip()] = desc.strip()
    return out
