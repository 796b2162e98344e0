"""Snapshot isolation: storage that may be shared is only ever written after it has been unshared."""
from facts import Prog, loc_of, rv_operands
import effects

SHARED = "shared"
TO_MUT_CALLS = ("cast_mut", "transmute", "transmute_copy", "transmute_unchecked", "from_ref_unchecked")
UNSHARE_BYPASS = ("get_mut_unchecked", "from_raw", "from_inner", "new_unchecked_mut")
DUPLICATORS = ("ptr::read", "ptr::read_unaligned", "ptr::read_volatile", "assume_init_read", "transmute_copy", "ManuallyDrop::<T>::take",
               "ptr::copy", "ptr::copy_nonoverlapping", "copy_from_nonoverlapping", "copy_to_nonoverlapping",
               "<impl *const T>::read", "<impl *mut T>::read", "copy_from", "copy_to")


class Prov:
    def __init__(self, p):
        self.p = p
        self.ret = {}      # body -> set of tags (param index / SHARED)
        self.field = {}    # (adt, variant, idx) -> set of (body, tag)
        self.sinks = {}    # body -> {tag: (span, text, trail)}
        self.loc = {}
        self.nsinks = 0
        self.callers = None

    def is_mut_ptr(self, t):
        return (t["k"] == "ref" and t.get("mut")) or (t["k"] == "ptr" and t.get("mut")) or \
               (t["k"] == "adt" and t["path"].endswith("ptr::NonNull")) or (t["k"] == "adt" and t["path"].endswith("::Box"))

    def deref_ty(self, t):
        if "ty" in t and t["k"] in ("ref", "ptr"):
            return self.p.types[t["ty"]]
        return None

    def place(self, k, pl, tags):
        """(tags of what the place designates, its type or None)"""
        b = self.p.bodies[k]
        t = self.p.types[b["locals"][pl[0]][0]]
        cur = set(tags[pl[0]])
        variant = 0
        for e in pl[1:]:
            if e == "*":
                if t is None:
                    continue
                if self.is_mut_ptr(t):
                    cur = set()
                t = self.deref_ty(t)
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "f":
                ft = self.p.types[e[2]] if len(e) > 2 and isinstance(e[2], int) else None
                if ft is not None and self.is_mut_ptr(ft):
                    cur = set()
                elif ft is not None and ft["k"] in ("ref", "ptr") and t is not None and t["k"] == "adt":
                    cur = cur | self.field_tags(k, (t["path"], variant, e[1]))
                t = ft
                variant = 0
            else:
                t = self.p.types[t["ty"]] if t is not None and "ty" in t and isinstance(t["ty"], int) else None
        return cur, t

    def field_tags(self, k, f):
        # a field written with a pointer that some caller derived from shared storage is shared
        return {SHARED} if any(tag == SHARED for _, tag in self.field.get(f, ())) else set()

    def operand(self, k, o, tags):
        if o[0] in ("copy", "move"):
            c, t = self.place(k, o[1], tags)
            if t is not None and self.is_mut_ptr(t):
                return set()
            return c
        return set()

    def resolve(self, f):
        """callee bodies, using the self type's alias to pick the implementation"""
        if f.get("res") in self.p.bodies:
            return [f["res"]]
        cs = self.p.callees(f)
        st = f.get("self")
        if st is not None and len(cs) > 1:
            t = self.p.types[st]
            if t["k"] == "alias":
                want = self.assoc(t)
                if want:
                    c2 = [c for c in cs if self.p.self_adt(self.p.bodies[c]) in want]
                    if c2:
                        return c2
        return cs

    def assoc(self, t):
        n = t["def"].rsplit("::", 1)[-1]
        tr = t["def"].rsplit("::", 1)[0].rsplit("::", 1)[-1]
        out = set()
        for kk, im in self.p.impls.items():
            if "annotated_basic" in im["span"] or im.get("trait", "").rsplit("::", 1)[-1].split("<")[0] != tr:
                continue
            for name, ti in im.get("assoc", []):
                if name == n:
                    x = self.p.types[ti]
                    if x["k"] == "adt":
                        out.add(x["path"])
                    elif x["k"] == "alias":
                        out |= self.assoc(x)
        return out

    def body(self, k):
        """one pass; returns True when something changed"""
        p = self.p
        b = p.bodies[k]
        n = len(b["locals"])
        tags = self.loc.get(k)
        if tags is None:
            tags = [set() for _ in range(n)]
            for i in range(1, b["argc"] + 1):
                t = p.types[b["locals"][i][0]]
                if not self.is_mut_ptr(t):
                    tags[i].add(i)
            self.loc[k] = tags
        changed = True
        any_change = False
        while changed:
            changed = False

            def put(pl, ts):
                nonlocal changed, any_change
                l = pl[0]
                if len(pl) > 1:
                    # a store through a reference: remember what reaches pointer fields
                    if pl[-1] != "*" and pl[-1][0] == "f":
                        c, t = self.place(k, pl[:-1], tags)
                        ft = p.types[pl[-1][2]]
                        if t is not None and t["k"] == "adt" and ft["k"] in ("ref", "ptr") and not self.is_mut_ptr(ft):
                            store((t["path"], 0, pl[-1][1]), ts)
                    if "*" in pl:
                        return
                t = p.types[b["locals"][l][0]]
                if self.is_mut_ptr(t):
                    return
                if not ts <= tags[l]:
                    tags[l] |= ts
                    changed = any_change = True

            def store(f, ts):
                nonlocal changed, any_change
                s = self.field.setdefault(f, set())
                for x in ts:
                    if (k, x) not in s:
                        s.add((k, x))
                        changed = any_change = True

            def sink(ts, span, text, trail=()):
                nonlocal any_change
                d = self.sinks.setdefault(k, {})
                for x in ts:
                    if x not in d:
                        d[x] = (span, text, list(trail))
                        any_change = True

            for bl in b["blocks"]:
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    rv, span = s[2], s[-1]
                    if rv[0] in ("use", "repeat", "un", "bin"):
                        ts = set()
                        if rv[0] in ("use", "repeat"):
                            ts = self.operand(k, rv[1], tags)
                        put(s[1], ts)
                    elif rv[0] == "cast":
                        ts = self.operand(k, rv[2], tags)
                        to = p.types[rv[3]]
                        if self.is_mut_ptr(to) and ts:
                            sink(ts, span, "casts a read-only pointer to a writable one")
                        put(s[1], ts)
                    elif rv[0] in ("ref", "rawptr"):
                        ts, _ = self.place(k, rv[2], tags)
                        # borrowing a local value itself is not access to shared storage
                        if "*" not in rv[2] and not any(isinstance(x, int) or x == SHARED for x in tags[rv[2][0]]):
                            ts = set()
                        mutb = rv[1].lower().startswith("mut")
                        if rv[0] == "rawptr" and mutb and ts and "*" in rv[2]:
                            sink(ts, span, "takes a writable raw pointer through a read-only one")
                        put(s[1], ts)
                    elif rv[0] == "agg":
                        ts = set()
                        for i, o in enumerate(rv[2]):
                            x = self.operand(k, o, tags)
                            ts |= x
                            if rv[1][0] == "adt" and x:
                                path = p.adts.get(rv[1][1], {}).get("path") or rv[1][1]
                                t = p.types[b["locals"][s[1][0]][0]] if len(s[1]) == 1 else None
                                if t is not None and t["k"] == "adt":
                                    path = t["path"]
                                v = rv[1][2] if len(rv[1]) > 2 and isinstance(rv[1][2], int) else 0
                                store((path, v, i), x)
                        put(s[1], ts)
                    elif rv[0] not in ("discr", "len", "nullary"):
                        pass
                t = bl["t"]
                if t[0] != "call":
                    continue
                args = [self.operand(k, o, tags) for o in t[2]]
                allt = set().union(*args) if args else set()
                f = t[1][1].get("fn") if t[1][0] == "const" else None
                if f is None:
                    put(t[3], allt)
                    continue
                path = f["path"]
                nm = f.get("name") or path.rsplit("::", 1)[-1]
                selft = p.types[f["self"]] if f.get("self") is not None else None
                if nm in TO_MUT_CALLS and not f.get("local"):
                    dt = p.types[b["locals"][t[3][0]][0]]
                    if self.is_mut_ptr(dt) and allt:
                        sink(allt, t[6], "converts a read-only pointer to a writable one with %s" % nm)
                if "NonNull" in path and nm in ("from", "from_ref", "new_unchecked", "new") and allt:
                    sink(allt, t[6], "makes a writable NonNull from a read-only pointer")
                if selft is not None and selft["k"] == "adt" and selft["path"].endswith("NonNull") and nm == "from" and allt:
                    sink(allt, t[6], "makes a writable NonNull from a read-only pointer")
                if ("SharedPointer" in path or "::Rc" in path or "::Arc" in path) and nm in UNSHARE_BYPASS:
                    sink({SHARED}, t[6], "writes shared storage through %s" % path)
                tg = self.resolve(f)
                is_sp = ("SharedPointer" in path or (selft is not None and selft["k"] == "adt" and selft["path"].endswith("SharedPointer")))
                if is_sp and nm in ("deref", "as_ref", "borrow", "as_ptr"):
                    put(t[3], {SHARED})
                    continue
                if is_sp:
                    put(t[3], set())
                    continue
                if tg:
                    out = set()
                    for c in tg:
                        for tag in self.ret.get(c, ()):
                            if tag == SHARED:
                                out.add(SHARED)
                            elif tag - 1 < len(args):
                                out |= args[tag - 1]
                        for tag, (sp, text, trail) in list(self.sinks.get(c, {}).items()):
                            if tag != SHARED and tag - 1 < len(args) and args[tag - 1]:
                                sink(args[tag - 1], sp, text, [p.bodies[c]["path"] + " called at " + loc_of(t[6])] + trail)
                        self.feed(c, args)
                    put(t[3], out)
                else:
                    # external: may return anything it was given, and hands it to the closures it was given
                    out = set(allt)
                    for o in t[2]:
                        c = self.closure_of(b, o)
                        if c:
                            cb = p.bodies[c]
                            for tag in self.ret.get(c, ()):
                                out |= {SHARED} if tag == SHARED else allt
                            for tag, (sp, text, trail) in list(self.sinks.get(c, {}).items()):
                                if tag != SHARED and tag >= 2 and allt:
                                    sink(allt, sp, text, [p.bodies[c]["path"] + " passed at " + loc_of(t[6])] + trail)
                    put(t[3], out)
        r = set(tags[0])
        if r != self.ret.get(k, set()):
            self.ret[k] = r
            any_change = True
        return any_change

    def feed(self, c, args):
        """a callee's parameter tag that is stored in a field becomes shared when a caller passes shared storage"""
        for f, s in self.field.items():
            for (kk, tag) in list(s):
                if kk == c and tag != SHARED and tag - 1 < len(args) and SHARED in args[tag - 1] and (kk, SHARED) not in s:
                    s.add((kk, SHARED))

    def closure_of(self, b, o):
        if o[0] in ("copy", "move") and len(o[1]) == 1:
            t = self.p.types[b["locals"][o[1][0]][0]]
            if t["k"] == "closure" and t["def"] in self.p.bodies:
                return t["def"]
        return None

    def run(self):
        ks = [k for k in self.p.bodies if self.p.in_scope(k)]
        for it in range(40):
            ch = False
            before = {f: len(s) for f, s in self.field.items()}
            for k in ks:
                if self.body(k):
                    ch = True
            if not ch and before == {f: len(s) for f, s in self.field.items()}:
                return it
        return 40


def run(ctx):
    p = Prog("release")
    ctx.rule("Interprocedural pointer-provenance dataflow over all functions: a pointer obtained by reading through a "
             "reference-counted node (or through a shared reference given by the user) must never become writable; the only "
             "ways from a node handle to a writable pointer are unsharing (make_mut) and exclusive borrows.")
    pr = Prov(p)
    it = pr.run()
    ctx.count("dataflow rounds", it)
    ks = [k for k in p.bodies if p.in_scope(k)]
    ctx.count("functions analysed", len(ks))
    casts = 0
    mm = 0
    for k in ks:
        b = p.bodies[k]
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "cast" and pr.is_mut_ptr(p.types[s[2][3]]):
                    casts += 1
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1] and t[1][1]["fn"]["path"].endswith("SharedPointer::<T, P>::make_mut"):
                mm += 1
                ctx.ok("unshare:" + b["path"])
    ctx.count("pointer casts examined", casts)
    ctx.floor("unsharing sites", 1, mm)
    api = set(effects.api(p))
    for k in ks:
        b = p.bodies[k]
        for tag, (span, text, trail) in pr.sinks.get(k, {}).items():
            bad = None
            if tag == SHARED:
                bad = "storage behind a reference-counted pointer"
            elif k in api:
                t = p.types[b["locals"][tag][0]]
                if t["k"] == "ref" and not t.get("mut"):
                    bad = "the caller's shared reference"
            if bad:
                ctx.violation("writable:" + b["path"], "%s %s, so a write would be visible through other handles: %s" % (
                    b["path"], text, bad), loc_of(span), trail)
            else:
                ctx.ok("cast:" + b["path"] + ":" + str(tag))
    for k in ks:
        for bi, span, f, c in p.fnrefs(p.bodies[k]):
            ctx.count("call sites")
            if any(f["path"].endswith(d) for d in DUPLICATORS):
                ctx.violation("duplicate:" + p.bodies[k]["path"], "%s copies a value bit by bit through %s, so two owners of one element can exist" % (
                    p.bodies[k]["path"], f["path"]), loc_of(span))
    # control: the provenance of a node's LoadGuard is recognised as shared
    ctl = [k for k in ks if p.bodies[k].get("name") == "load" and SHARED in pr.ret.get(k, ())]
    ctx.floor("shared-read accessors recognised (control)", 1, len(ctl))
