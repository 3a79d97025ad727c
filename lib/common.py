"""Shared driver: evidence files, known findings, exit codes."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    """The analysis lost its anchors: neither pass nor violation."""


class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for i, a in enumerate(sys.argv):
            if a == "--tier" and i + 1 < len(sys.argv):
                self.tier = sys.argv[i + 1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol, self.counts, self.notes, self.samples = [], {}, [], []
        self.assumptions = []
        self.minimum = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n):
        """Fail as broken if fewer than n instances were analysed."""
        self.minimum[what] = n

    def report(self, where, instance, msg):
        """where: file:line or function; instance: stable identification of the failing construct."""
        self.viol.append({"where": where, "instance": instance, "message": msg})

    def known(self):
        res = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known:"):
                    # known: property=<id> instance=<instance> -- text
                    head, _, text = l[6:].partition(" -- ")
                    d = dict(x.split("=", 1) for x in head.split() if "=" in x)
                    if d.get("property") == self.pid:
                        res[d["instance"]] = text
        return res

    def finish(self, explanation):
        known = self.known()
        bad, seen = [], set()
        for v in self.viol:
            key = v["instance"].replace(" ", "_")
            if key in known:
                if key not in seen:
                    print(f"KNOWN-FINDING: property={self.pid} {v['where']} {v['message'][:200]}")
            elif (v["where"], v["instance"]) not in seen:
                bad.append(v)
            seen.add(key)
            seen.add((v["where"], v["instance"]))
        for k, n in self.minimum.items():
            if self.counts.get(k, 0) < n and not bad:
                print(f"ANALYSIS BROKEN property={self.pid}: only {self.counts.get(k, 0)} of at least {n} '{k}' analysed")
                sys.exit(3)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay", f"{self.pid}.json")
        if bad:
            json.dump(bad, open(rp, "w"), indent=1)
        elif os.path.exists(rp):
            os.remove(rp)
        cov = {"explanation": explanation + " Rule: " + self.rule}
        cov.update(self.counts)
        if self.samples:
            cov["samples"] = self.samples[:20]
        if self.notes:
            cov["notes"] = self.notes[:40]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(bad)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w"), indent=1)
        print(f"{self.pid}: " + ", ".join(f"{v} {k}" for k, v in self.counts.items()))
        for v in bad[:40]:
            print(f"  {v['where']}: {v['message']} [{v['instance']}]")
        if bad:
            print(f"VIOLATION property={self.pid} replay={rp}")
            sys.exit(1)
        sys.exit(0)


def run(main):
    try:
        main()
    except SystemExit:
        raise
    except Broken as e:
        print("ANALYSIS BROKEN:", e)
        sys.exit(3)
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS BROKEN: internal error")
        sys.exit(3)
