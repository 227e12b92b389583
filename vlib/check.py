"""Check harness: obligations, known findings, evidence, verdict."""
import importlib, json, os, sys, time, traceback
from . import absint, build, prog

VERIF = build.VERIF


class Ck:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []           # (rule, instance, status, detail)
        self.p = prog.load()
        self.rules = {}
        self.floors = {}
        self.stats = {"functions_analysed": set(), "call_sites": 0, "paths": 0}
        self.assumptions = []
        self.trusted = ["rustc nightly type checker and MIR construction", "the /verif/vlib analysis code and its models of std"]

    def rule(self, rid, text, floor=0):
        """floor: fewest decided instances accepted (hand-counted, with slack for refactoring)."""
        self.rules[rid] = text
        self.floors[rid] = floor

    def ok(self, rid, inst, detail=""):
        self.obs.append((rid, inst, "ok", detail))

    def bad(self, rid, inst, detail):
        self.obs.append((rid, inst, "violation", detail))

    def und(self, rid, inst, detail):
        self.obs.append((rid, inst, "undecided", detail))

    def judge(self, rid, inst, cond, detail, okdetail=""):
        if cond is None:
            self.und(rid, inst, detail)
        elif cond:
            self.ok(rid, inst, okdetail)
        else:
            self.bad(rid, inst, detail)

    def each(self, rid, inst, f, *a, **kw):
        """Run one rule instance; an unsupported shape is undecided, not an error."""
        try:
            return f(*a, **kw)
        except absint.Undecided as e:
            self.und(rid, inst, "undecided: %s" % e)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, RecursionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.und(rid, inst, "analysis stopped: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None

    def saw(self, engine):
        self.stats["functions_analysed"] |= engine.fns_seen
        self.stats["call_sites"] += engine.calls_seen
        self.stats["paths"] += getattr(engine, "npaths", 0)

    def saw_fn(self, key):
        self.stats["functions_analysed"].add(key)

    # ---------------------------------------------------------------------------------
    def known(self):
        out = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding: "):
                    # finding: property=<id> key=<rule>|<instance> :: text
                    head, _, text = line[len("finding: "):].partition(" :: ")
                    d = dict(x.split("=", 1) for x in head.split(" ", 1))
                    if d["property"] == self.pid:
                        out[d["key"]] = text
        return out

    def finish(self):
        known = self.known()
        viol, kf, und = [], [], []
        seen = set()
        for rid, inst, stt, det in self.obs:
            if stt == "violation":
                k = "%s|%s" % (rid, inst)
                if k in seen:
                    continue
                seen.add(k)
                if k in known:
                    kf.append((k, known[k]))
                else:
                    viol.append((rid, inst, det))
            elif stt == "undecided":
                und.append((rid, inst, det))
        dec, found = {}, {}
        for rid, inst, stt, det in self.obs:
            found.setdefault(rid, set()).add(inst)
            if stt != "undecided":
                dec.setdefault(rid, set()).add(inst)
        # floor on the sites the rule found (an undecided site is reported as such, a vanished one fails the check)
        lost = ["rule %s: %d instances found, expected at least %d" % (r, len(found.get(r, ())), f)
                for r, f in self.floors.items() if len(found.get(r, ())) < f]
        nob = len({(r, i) for r, i, s, d in self.obs})
        nok = len({(r, i) for r, i, s, d in self.obs if s == "ok"} - {(r, i) for r, i, s, d in self.obs if s != "ok"})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the type-checked program (MIR of the current /repo tree, real build features). "
                               "Rules: " + "; ".join("[%s] %s" % x for x in self.rules.items()),
                "obligations": nob, "discharged": nok,
                "undecided": len(und), "known_findings": len(kf),
                "functions_analysed": len(self.stats["functions_analysed"]),
                "call_sites_resolved": self.stats["call_sites"],
                "abstract_paths": self.stats["paths"],
                "instances_per_rule": {r: len(dec.get(r, ())) for r in self.rules},
                "floors": self.floors,
                "bodies_in_program": len(self.p.fns()),
                "program_hash": self.p.hash,
                "samples": [{"rule": r, "instance": i, "status": s, "detail": str(d)[:300]} for r, i, s, d in self.obs[:40]],
                "undecided_items": [{"rule": r, "instance": i, "why": str(d)[:300]} for r, i, d in und[:60]],
                "checker_cmd": "python3 -m vlib.check %s" % self.pid,
                "trusted_base": self.trusted,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, text, k))
        print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations, %d functions (%.1fs)" % (
            self.pid, nob, nok, len(und), len(kf), len(viol), len(self.stats["functions_analysed"]), time.time() - self.t0))
        if os.environ.get("VERIF_VERBOSE"):
            for o in self.obs:
                print("  ", o)
        for r, i, d in und[:20]:
            print("  undecided [%s] %s: %s" % (r, i, str(d)[:200]))
        if viol:
            rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % self.pid)
            with open(rp, "w") as f:
                for rid, inst, det in viol:
                    f.write("rule %s: %s\n  instance: %s\n  %s\n" % (rid, self.rules.get(rid, ""), inst, det))
            for rid, inst, det in viol:
                print("  [%s] %s: %s" % (rid, inst, det))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if lost:
            for l in lost:
                print("ANCHORS LOST: " + l)
            return 2
        return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    mod = importlib.import_module("checks." + pid.lower())
    try:
        ck = Ck(pid, tier)
        mod.run(ck)
    except build.BuildError as e:
        print(e)
        sys.exit(3)
    sys.exit(ck.finish())


if __name__ == "__main__":
    main()
