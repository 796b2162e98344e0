"""Program facts: bodies, types, impls, call graph with class-hierarchy resolution of trait calls."""
import extract
import lin


class Prog:
    def __init__(self, config="release"):
        f = extract.facts(config)
        self.config = config
        self.raw = f
        self.types = f["types"]
        self.bodies = f["bodies"]
        self.adts = f["adts"]
        self.impls = f["impls"]
        self.statics = f["statics"]
        self.consts = f["consts"]
        self.width = self.consts.get("librrb::RRB_WIDTH", 64)
        lin.set_width(self.width)
        for k, b in self.bodies.items():
            b["key"] = k
            b["file"] = b["span"].split(":")[0]
        # trait method key -> [impl body keys]
        self.impl_of = {}
        for k, b in self.bodies.items():
            t = b.get("implements")
            if t:
                self.impl_of.setdefault(t, []).append(k)
        self._cg = None

    def ty(self, i):
        return self.types[i]

    def self_adt(self, b):
        """ADT path of the impl self type, e.g. 'circular::CircularBuffer'."""
        if "self_ty" not in b:
            return None
        t = self.types[b["self_ty"]]
        while t["k"] == "ref":
            t = self.types[t["ty"]]
        return t.get("path")

    def find(self, adt, name, trait=None):
        """bodies of method `name` in an impl for ADT path suffix `adt` (optionally of a trait)."""
        out = []
        for k, b in self.bodies.items():
            if b.get("name") != name:
                continue
            p = self.self_adt(b)
            if p != adt:
                continue
            ip = b.get("implements_path")
            if trait is None and ip is not None:
                # allow trait methods as well when there is no inherent one
                out.append((1, k))
            elif trait is None:
                out.append((0, k))
            elif ip and ip.rsplit("::", 1)[0].endswith(trait):
                out.append((0, k))
        out.sort()
        if out and out[0][0] == 0:
            out = [o for o in out if o[0] == 0]
        return [k for _, k in out]

    def one(self, adt, name, trait=None):
        r = self.find(adt, name, trait)
        return r[0] if len(r) == 1 else None

    def free_fn(self, path):
        for k, b in self.bodies.items():
            if b["path"] == path:
                return k
        return None

    # -- call graph ------------------------------------------------------
    def callees(self, fnref):
        """possible local body keys of a function reference (CHA on trait methods)."""
        r = fnref.get("res")
        if r and r in self.bodies:
            return [r]
        k = fnref["key"]
        out = []
        if k in self.bodies:
            out.append(k)
        if "trait" in fnref and not r:
            for m in self.impl_of.get(k, []):
                if self.in_scope(m):
                    out.append(m)
        return out

    def in_scope(self, key):
        return "::annotated_basic::" not in key

    def fnrefs(self, b):
        """all function constants mentioned in a body (calls, and function values), with location."""
        for bi, bl in enumerate(b["blocks"]):
            for s in bl["s"]:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        if o[0] == "const" and "fn" in o[1]:
                            yield bi, s[-1], o[1]["fn"], False
                    r = s[2]
                    if r[0] == "agg" and r[1][0] == "closure":
                        yield bi, s[-1], {"key": r[1][1], "path": r[1][1], "local": True, "closure": True}, False
            t = bl["t"]
            if t[0] == "call":
                f = t[1]
                if f[0] == "const" and "fn" in f[1]:
                    yield bi, t[6], f[1]["fn"], True
                for o in t[2]:
                    if o[0] == "const" and "fn" in o[1]:
                        yield bi, t[6], o[1]["fn"], False

    def callgraph(self):
        if self._cg is None:
            cg = {}
            for k, b in self.bodies.items():
                s = set()
                for _, _, f, _ in self.fnrefs(b):
                    for c in self.callees(f):
                        s.add(c)
                # drops of local types with Drop impls
                for bl in b["blocks"]:
                    if bl["t"][0] == "drop" and bl["t"][5]:
                        for d in self.drop_bodies(bl["t"][4]):
                            s.add(d)
                cg[k] = s
            self._cg = cg
        return self._cg

    def drop_bodies(self, ti, seen=None):
        seen = seen if seen is not None else set()
        if ti in seen:
            return set()
        seen.add(ti)
        t = self.types[ti]
        out = set()
        if t["k"] == "adt":
            for k, b in self.bodies.items():
                if b.get("implements_path", "").endswith("Drop::drop") and self.self_adt(b) == t["path"]:
                    out.add(k)
            a = self.adts.get(t["def"])
            if a:
                for v in a["variants"]:
                    for f in v["fields"]:
                        out |= self.drop_bodies(f["ty"], seen)
            for x in t["args"]:
                if isinstance(x, int):
                    out |= self.drop_bodies(x, seen)
        elif t["k"] == "tuple":
            for x in t["tys"]:
                out |= self.drop_bodies(x, seen)
        elif t["k"] == "alias":
            n = t["def"].rsplit("::", 1)[-1]
            for im in self.impls.values():
                pass
            for k, b in self.bodies.items():
                if b.get("implements_path", "").endswith("Drop::drop") and self.in_scope(k):
                    p = self.self_adt(b) or ""
                    if n in ("Borrowed",) and "Borrowed" in p:
                        out.add(k)
        return out

    def reach(self, roots):
        cg = self.callgraph()
        seen, st = {}, [(r, None) for r in roots]
        while st:
            k, p = st.pop()
            if k in seen:
                continue
            seen[k] = p
            for c in cg.get(k, ()):
                if c not in seen:
                    st.append((c, k))
        return seen

    def path_to(self, seen, k):
        out = []
        while k is not None:
            out.append(self.bodies[k]["path"])
            k = seen[k]
        return list(reversed(out))

    def public_fns(self):
        """functions reachable from outside the crate through the two public vector families."""
        return [k for k, b in self.bodies.items()
                if b["kind"] in ("Fn", "AssocFn") and b.get("reach") and self.in_scope(k)]


def rv_operands(r):
    k = r[0]
    if k == "use":
        return [r[1]]
    if k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return list(r[2])
    return []


def loc_of(span):
    return span.split("|")[0]


def macro_of(span):
    p = span.split("|")
    return p[1] if len(p) > 1 else ""
