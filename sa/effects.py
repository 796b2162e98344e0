"""Call-graph effects: who can be reached from the public operations, with type-directed clone edges."""
from facts import rv_operands, loc_of

RING = "circular::CircularBuffer"
PUBLIC_ADTS = ("vector::", "focus::")
CLONERS = {"clone", "cloned", "to_vec", "to_owned", "clone_from", "extend_from_slice", "resize", "repeat",
           "unwrap_or_clone", "concat"}
# public only as a test oracle / debugging aid; not part of what the containers promise
ORACLES = ("debug_check_invariants", "equal_iter_debug", "equal_vec", "assert_invariants")


def strip_crate(path):
    return path


def is_public_api(p, k):
    b = p.bodies[k]
    if not b.get("exported") or not p.in_scope(k) or b["kind"] not in ("Fn", "AssocFn"):
        return False
    if b.get("name") in ORACLES:
        return False
    a = p.self_adt(b) or ""
    if a.startswith(PUBLIC_ADTS):
        return True
    ip = b.get("implements_path") or ""
    return "FromIterator" in ip and b["file"].endswith("vector.rs")


def api(p):
    return [k for k in p.bodies if is_public_api(p, k)]


def read_only_api(p):
    """Operations that only hold shared access to a vector: &vector receivers, read cursors and read iterators."""
    out = []
    for k in api(p):
        b = p.bodies[k]
        adt = p.self_adt(b)
        ins = [p.types[i] for i in b.get("inputs", [])]
        def shared_input(t):
            s = t["s"]
            if t["k"] == "ref":
                inner = p.types[t["ty"]]
                path = inner.get("path", "")
                if path == "vector::InternalVector":
                    return not t.get("mut")
                if path in ("focus::Focus", "vector::Iter"):
                    return True
                if path in ("vector::MutBoundGuard", "focus::FocusMut", "vector::IterMut", "vector::IntoIter", "focus::InnerFocusMut"):
                    return not t.get("mut")
                return True
            path = t.get("path", "")
            if path in ("focus::Focus", "vector::Iter"):
                return True
            return not path.startswith(PUBLIC_ADTS)
        if adt and ins and all(shared_input(t) for t in ins) and b.get("name") not in ("drop",):
            t0 = ins[0]
            pth = (p.types[t0["ty"]] if t0["k"] == "ref" else t0).get("path", "")
            if pth.startswith(PUBLIC_ADTS) and pth != "focus::InnerFocusMut":
                out.append(k)
    return out


class Effects:
    def __init__(self, p):
        self.p = p

    def element_params(self, b):
        """names of type parameters of the impl that may stand for an element (or a whole node)"""
        out = set()
        t = b.get("self_ty")
        if t is None:
            return out
        def walk(i):
            t = self.p.types[i]
            if t["k"] == "param":
                out.add(t["s"])
            for x in t.get("args", []) or []:
                if isinstance(x, int):
                    walk(x)
            if "ty" in t and isinstance(t["ty"], int):
                walk(t["ty"])
        walk(t)
        return out

    def clone_of(self, b, ti, seen=()):
        """(elements cloned?, [bodies run]) when a value of type ti is cloned inside body b"""
        t = self.p.types[ti]
        k = t["k"]
        if k == "alias":
            n = t["def"].rsplit("::", 1)[-1]
            if n == "Item":
                return True, []
            if n in ("InternalEntry", "LeafEntry", "Borrowed"):
                return False, self.impl_clones(n)
            return False, []
        if k == "param":
            return t["s"] in self.element_params(b), []
        if k == "ref" or k == "ptr":
            return False, []
        if k == "adt":
            if t["path"] == RING:
                return self.clone_of(b, [x for x in t["args"] if isinstance(x, int)][0], seen)
            if t["path"].endswith("SharedPointer") or t["path"].endswith("::Rc") or t["path"].endswith("::Arc"):
                return False, []
            local = [kk for kk in self.p.find(t["path"], "clone")]
            if local:
                return False, local
            e, bs = False, []
            if t["path"].endswith(("NonNull", "PhantomData")):
                return False, []
            for x in t["args"]:
                if isinstance(x, int):
                    e2, b2 = self.clone_of(b, x)
                    e, bs = e or e2, bs + b2
            return e, bs
        if k == "tuple":
            e, bs = False, []
            for x in t["tys"]:
                e2, b2 = self.clone_of(b, x)
                e, bs = e or e2, bs + b2
            return e, bs
        if k in ("array", "slice") and "ty" in t:
            return self.clone_of(b, t["ty"])
        return False, []

    def impl_clones(self, alias):
        want = {"InternalEntry": ("SharedPointerEntry",), "LeafEntry": ("SharedPointerEntry",),
                "Borrowed": ("BorrowedInternal", "BorrowedLeaf")}[alias]
        out = []
        for k, b in self.p.bodies.items():
            if b.get("name") == "clone" and self.p.in_scope(k) and (self.p.self_adt(b) or "").rsplit("::", 1)[-1] in want:
                out.append(k)
        return out

    def edges(self, k):
        """yield (span, fnref, kind, targets): kind in call, element_clone"""
        b = self.p.bodies[k]
        for bi, span, f, called in self.p.fnrefs(b):
            name = f.get("name") or f["path"].rsplit("::", 1)[-1]
            res = f.get("res")
            if name in CLONERS:
                tys = []
                if f.get("trait") and f["path"].endswith("Clone::clone"):
                    tys = [f["self"]] if f.get("self") is not None else []
                elif f["path"].endswith("Iterator::cloned"):
                    tys = [x for x in f.get("args", [])[1:] if isinstance(x, int)]
                else:
                    tys = [x for x in f.get("args", []) if isinstance(x, int)]
                hit, targets = False, []
                for t in tys:
                    e, bs = self.clone_of(b, t)
                    hit, targets = hit or e, targets + bs
                if f.get("local") and not f["path"].endswith("Clone::clone"):
                    targets = targets + self.p.callees(f)
                yield span, f, "element_clone" if hit else "call", targets
            else:
                yield span, f, "call", self.p.callees(f)
        for bl in b["blocks"]:
            if bl["t"][0] == "drop" and bl["t"][5]:
                yield (bl["t"][6] if len(bl["t"]) > 6 else ""), {"path": "drop", "key": "drop"}, "drop", list(self.p.drop_bodies(bl["t"][4]))

    def reach(self, roots, stop=lambda k: False):
        par = {}
        st = [(r, None, "") for r in roots]
        while st:
            k, pk, sp = st.pop()
            if k in par or not self.p.in_scope(k):
                continue
            par[k] = (pk, sp)
            if stop(k):
                continue
            for span, f, kind, tg in self.edges(k):
                for t in tg:
                    if t not in par:
                        st.append((t, k, span))
        return par

    def trace(self, par, k):
        out = []
        while k is not None:
            pk, sp = par[k]
            out.append(self.p.bodies[k]["path"] + ((" called at " + loc_of(sp)) if sp else ""))
            k = pk
        return list(reversed(out))
