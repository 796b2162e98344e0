"""Result collection: obligations, violations, known findings, evidence files."""
import json, os, re, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings():
    """lines: 'finding: property=<id> key=<key> -- <text>'  /  'fixed: property=<id> <commit> <what failed>'"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, text = l[len("finding:"):].partition(" -- ")
                m = re.match(r"\s*property=(\S+) key=(.*\S)\s*$", head)
                out[(m.group(1), m.group(2))] = text
    return out


class Ctx:
    """What one check analysed and concluded."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.counts = {}
        self.oblig = []       # (key, status, detail)
        self.viol = {}        # key -> text
        self.samples = []
        self.rules = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, key, detail=""):
        self.oblig.append((key, "ok", detail))

    def undecided(self, key, detail=""):
        self.oblig.append((key, "undecided", detail))

    def violation(self, key, text, where="", path=None):
        """key must not contain line numbers."""
        self.oblig.append((key, "violated", text))
        if key not in self.viol:
            self.viol[key] = {"key": key, "what": text, "where": where, "path": path or []}

    def floor(self, name, need, have):
        """an instance count that fell below what was confirmed by hand."""
        self.counts["floor:" + name] = have
        if have < need:
            self.violation("floor:" + name,
                           "only %d instance(s) of '%s' were found where at least %d exist in the reviewed code; "
                           "the rule would pass vacuously" % (have, name, need))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        known = known_findings()
        rc = 0
        new = []
        for k, v in sorted(self.viol.items()):
            if (self.prop, k) in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[(self.prop, k)]))
            else:
                new.append(v)
        st = {}
        for _, s, _ in self.oblig:
            st[s] = st.get(s, 0) + 1
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of the type-checked MIR of /repo's working tree; nothing was executed. "
                               + " ".join(self.rules),
                "obligations": len(self.oblig),
                "discharged": st.get("ok", 0),
                "undecided": st.get("undecided", 0),
                "undecided_list": sorted({k + ((": " + d) if d else "") for k, s, d in self.oblig if s == "undecided"})[:60],
                "counts": self.counts,
                "samples": self.samples or [k + ": " + s for k, s, _ in self.oblig[:8]],
                "notes": self.notes,
            },
            "assumptions": [
                "rustc's MIR construction, type checking and borrow checking are correct",
                "std and archery behave as documented (SharedPointer::make_mut unshares, mem::swap exchanges, ...)",
            ],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1, default=str)
        rp = os.path.join(d, self.prop + ".replay.txt")
        if new:
            rc = 1
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s\n  %s\n  at %s\n" % (v["key"], v["what"], v["where"]))
                    for p in v["path"]:
                        f.write("    %s\n" % (p,))
            for v in new:
                print("  %s: %s [%s]" % (v["key"], v["what"], v["where"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, VERIF)))
        else:
            if os.path.exists(rp):
                os.remove(rp)
            print("%s: held on %d obligations (%d decided, %d undecided) %s in %.1fs" % (
                self.prop, len(self.oblig), st.get("ok", 0) + st.get("violated", 0), st.get("undecided", 0),
                json.dumps(self.counts, sort_keys=True), time.time() - self.t0))
        return rc
