"""Running a check: violations, known findings, evidence."""
import json, os, sys, time, traceback
import facts

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.viol = {}  # key -> message
        self.counts = {}
        self.notes = []
        self.t0 = time.time()
        self._crate = None

    @property
    def crate(self):
        if self._crate is None:
            self._crate = facts.load()
        return self._crate

    def bad(self, key, msg):
        """report a violation; `key` names the construct and is stable against line moves"""
        self.viol.setdefault(key, msg)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """fail closed when the analysis looked at fewer constructs than the floor"""
        if self.counts.get(name, 0) < n:
            self.bad("floor:" + name, "only %d %s analysed, expected at least %d: the analysis no longer sees its subject" % (self.counts.get(name, 0), name, n))

    def note(self, s):
        self.notes.append(s)

    def run(self, mod):
        import absint

        absint.DEADLINE[0] = self.t0 + (700 if not self.thorough else 3000)
        try:
            mod.check(self)
        except facts.AnalysisError as e:
            if "does not build" in str(e) or "no nightly" in str(e):
                print("ERROR: " + str(e))
                return 2
            self.bad("undecided:" + e.__class__.__name__, "the analysis cannot decide the property on this tree: %s" % e)
        except Exception as e:
            traceback.print_exc()
            self.bad("undecided:" + e.__class__.__name__, "the analysis cannot decide the property on this tree (%s: %s)" % (e.__class__.__name__, e))
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)).get("findings", []):
                if k["property"] == self.prop:
                    known[k["key"]] = k
        new = [(k, m) for k, m in sorted(self.viol.items()) if k not in known]
        old = [(k, m) for k, m in sorted(self.viol.items()) if k in known]
        for k, m in old:
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, known[k]["what"], k))
        EV = os.environ.get("FOLIA_EVIDENCE", os.path.join(VERIF, "evidence"))
        rep = os.path.join(EV, self.prop + ".violations.txt")
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, "w") as f:
            for k, m in new:
                f.write("%s\n    %s\n" % (k, m))
        for k, m in new[:40]:
            print("VIOLATION property=%s replay=%s key=%s :: %s" % (self.prop, rep, k.replace(" ", "_")[:160], m[:400]))
        cov = {"explanation": getattr(mod, "RULE", (mod.__doc__ or "")).strip()}
        cov.update(self.counts)
        if self.notes:
            cov["notes"] = self.notes[:50]
        if old:
            cov["known_findings"] = [k for k, _ in old]
        for k, v in self.counts.items():
            print("analysed: %s = %s" % (k, v))
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": getattr(mod, "LEVEL", "other"),
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        with open(os.path.join(EV, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %s (%d known) in %.1fs" % (self.prop, "%d violation(s)" % len(new) if new else "holds", len(old), time.time() - self.t0))
        return 1 if new else 0
