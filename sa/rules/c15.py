"""C15: equality, order and hash are functions of the two sequences of elements.  The comparison code is analysed against iterators over
two arbitrary sequences; what the answers of the element comparisons say is recorded, and the answer given must be the one they imply."""
import itertools
import os
from facts import Prog, loc_of
from absint import *
import absint
from contracts import *
import models
import tree
from rules import c02
from rules.c02 import build, vcontent, fields, settle, witnessed, TreeLab
from tree import Tree

V = "vector::InternalVector"
LEVEL = 4                       # exact passes: every pair of lengths below this
LESS, EQUAL, GREATER, NEITHER = 0, 1, 2, 3
SHAPE = "HIDDEN"


def target(k):
    return Ref(("*", ("vec", k)))


def element(eng, st, v):
    """(vector, position) of an element reached through references"""
    n = 0
    while isinstance(v, Ref) and n < 5:
        e = is_el(v) or of_tree(eng, st, v)
        if e is not None:
            return e
        try:
            v = eng.load(st, v)
        except Stuck:
            return None
        n += 1
    return None


def at_element(v):
    return isinstance(v, Ref) and (is_el(v) is not None or isinstance(v.root, tuple) and v.root[0] == "*" and isinstance(v.root[1], tuple) and
                                   v.root[1][:1] == ("ELEM",) and len(v.path) == 1)


def of_tree(eng, st, v):
    """(vector, position) of an element reached through the nodes of a vector"""
    if not at_element(v):
        return None
    o = v.path[0][1]
    (x,) = tree.full(st, [("I", v.root[1][1], o, o + 1)])
    for (k, line), (a, b, acc) in eng.where.items():
        if line == x[1] and decide(st, c_le(a, x[2])) and decide(st, c_lt(x[2], b)):
            p = acc + x[2] - a
            for i in range(LEVEL):
                if decide(st, c_eq(p, const(i))):
                    return k, const(i)
    raise Stuck("element %r" % (v,))


def number(eng, st, v):
    n = 0
    while isinstance(v, Ref) and n < 5 and not at_element(v):
        v = eng.load(st, v)
        n += 1
    return v


class Ghost:
    """what is known about the elements at equal positions: the exact passes keep a table, the general pass the length of the common
    prefix and the first difference"""

    def __init__(self, run, exact, total):
        self.run, self.exact, self.total = run, exact, total
        self.all = frozenset((LESS, EQUAL, GREATER) if total else (LESS, EQUAL, GREATER, NEITHER))

    def start(self, st):
        if self.exact:
            st.mem[("G", "table")] = Obj("table", None, {})
        else:
            st.mem[("G", "k")] = Int(0)
            st.mem[("G", "first")] = NONE

    def ask(self, st, i, parts):
        """[(state, part)]: the comparison at position i answers one of the parts (sets of relations)"""
        if self.exact:
            t = st.mem[("G", "table")]
            i = i.c if i.is_const() else None
            if i is None:
                raise Stuck("position")
            now = t.f[i].var if i in t.f else self.all
            out = []
            for p in parts:
                x = now & p
                if x:
                    s = st.copy()
                    s.mem[("G", "table")] = Obj("table", None, {**t.f, i: Obj("set", x)})
                    out.append((s, p))
            return out
        k = st.mem[("G", "k")].l
        out = []
        here = decide(st, c_eq(i, k))
        for p in parts:
            p = p & self.all
            if not p:
                continue
            if not here:
                out.append((st.copy(), p))
                continue
            s = st.copy()
            if p == frozenset((EQUAL,)):
                s.mem[("G", "k")] = Int(k + 1)
            elif EQUAL not in p:
                if isinstance(s.mem[("G", "first")], Obj) and s.mem[("G", "first")].tag == "first":
                    continue
                s.mem[("G", "first")] = Obj("first", p)
            out.append((s, p))
        return out

    def answers(self, st, n0, n1):
        """the relations of the two sequences that what is known leaves open"""
        if self.exact:
            t = st.mem[("G", "table")].f
            out = set()
            m = min(n0.c, n1.c)
            for i in range(m):
                x = t[i].var if i in t else self.all
                out |= x - {EQUAL}
                if EQUAL not in x:
                    return out
            out.add(LESS if n0.c < n1.c else GREATER if n1.c < n0.c else EQUAL)
            return out
        f = st.mem[("G", "first")]
        if isinstance(f, Obj) and f.tag == "first":
            return set(f.var)
        k = st.mem[("G", "k")].l
        if decide(st, c_lt(n0, n1)):
            done, r = decide(st, c_le(n0, k)), LESS
        elif decide(st, c_lt(n1, n0)):
            done, r = decide(st, c_le(n1, k)), GREATER
        else:
            done, r = decide(st, c_le(n0, k)), EQUAL
        return {r} if done else set(self.all) | {r}


def bool_of(run, st, v):
    v = number(run.eng, st, v)
    if isinstance(v, Bool):
        return decide(st, v.c)
    raise Stuck("truth value %r" % (v,))


ALL = frozenset((LESS, EQUAL, GREATER, NEITHER))
BY = {"eq": {EQUAL}, "ne": ALL - {EQUAL}, "lt": {LESS}, "le": {LESS, EQUAL}, "gt": {GREATER}, "ge": {GREATER, EQUAL}}


def answer(run, rel, how):
    if how in BY:
        return TRUE if rel <= BY[how] else FALSE
    (r,) = rel
    if how == "cmp":
        return Obj("Ordering", r)
    return NONE if r == NEITHER else some(Obj("Ordering", r))


def parts_of(how):
    if how in BY:
        return [frozenset(BY[how]), ALL - BY[how]]
    return [frozenset((r,)) for r in (LESS, EQUAL, GREATER, NEITHER)]


def install(run, ghost, lens, hashed=None, reflexive=False):
    eng = run.eng
    vecs = {target(k): k for k in range(len(lens))}

    def vec(st, v):
        n = 0
        while isinstance(v, Ref) and n < 5:
            if v in vecs:
                return vecs[v]
            try:
                v = eng.load(st, v)
            except Stuck:
                return None
            n += 1
        return None

    def elements(k):
        return Obj("it", None, {0: Ref(("*", ("EL", k))), 1: Int(0), 2: Int(lens[k])})

    def below(st, v):
        """through references, down to an element reference or a value"""
        n = 0
        while isinstance(v, Ref) and not at_element(v) and v not in vecs and n < 5:
            try:
                v = eng.load(st, v)
            except Stuck:
                break
            n += 1
        return v

    def has_element(v):
        if isinstance(v, Ref):
            return at_element(v)
        return isinstance(v, Obj) and v.tag not in models.ITERS and any(has_element(x) for x in v.f.values())

    def compound(st, x, y, how):
        """== of options and tuples around elements"""
        if x.tag != y.tag or x.tag not in ("Option", "tuple"):
            raise Stuck("comparison of %r and %r" % (x, y))
        if x.tag == "Option":
            p, q = eng.variant(st, x, 2), eng.variant(st, y, 2)
            if p != q:
                return [(st, answer(run, frozenset((LESS,)), how))]
            parts = [0] if p else []
        else:
            parts = sorted(x.f)
        todo, out = [(st, 0)], []
        while todo:
            s, n = todo.pop()
            if n == len(parts):
                out.append((s, answer(run, frozenset((EQUAL,)), how)))
                continue
            rs = compare(s, eng.payload(s, x, parts[n]), eng.payload(s, y, parts[n]), "eq")
            if rs is None:
                raise Stuck("comparison of %r and %r" % (x, y))
            for s2, v in rs:
                if v == TRUE:
                    todo.append((s2, n + 1))
                else:
                    out.append((s2, answer(run, frozenset((LESS,)), how)))
        return out

    def compare(st, x, y, how):
        """[(state, value)] of an element comparison, None if it is not one"""
        x, y = below(st, x), below(st, y)
        a, b = element(eng, st, x), element(eng, st, y)
        if a is None or b is None:
            if how in ("eq", "ne") and isinstance(x, Obj) and isinstance(y, Obj) and (has_element(x) or has_element(y)):
                return compound(st, x, y, how)
            if has_element(x) or has_element(y):
                raise Stuck("comparison of %r and %r" % (x, y))
            return None
        (ka, i), (kb, j) = a, b
        if ka != kb and decide(st, c_eq(i, j)):
            out = []
            for s, p in ghost.ask(st, i, [frozenset(turn(r) for r in q) if ka == 1 else q for q in parts_of(how)]):
                q = frozenset(turn(r) for r in p) if ka == 1 else p
                out.append((s, answer(run, q, how)))
            return out
        # not a comparison of corresponding elements: any answer
        return [(st.copy(), answer(run, q & ghost.all, how)) for q in parts_of(how) if q & ghost.all]

    def sequences(st, a, b, how, c):
        """Iterator::eq and its kin, item by item"""
        out = []
        if not ghost.exact:
            return whole(st, a, b, how)
        todo = [(st, a, b, 0)]
        while todo:
            s, a, b, n = todo.pop()
            if n > 2 * LEVEL:
                raise Stuck("long comparison")
            for s1, a1, x in models.any_next(eng, s, a, c):
                for s2, b1, y in models.any_next(eng, s1.copy(), b, c):
                    if x is None or y is None:
                        r = EQUAL if x is None and y is None else LESS if x is None else GREATER
                        out.append((s2, answer(run, frozenset((r,)), how)))
                        continue
                    inner = "partial_cmp" if how in ("lt", "le", "gt", "ge") else how
                    rs = compare(s2, x, y, inner)
                    if rs is None:
                        raise Stuck("comparison of items %r and %r" % (x, y))
                    for s3, v in rs:
                        if how in ("eq", "ne"):
                            same = (v == TRUE) == (how == "eq")
                            rel = EQUAL if same else LESS
                        else:
                            rel = relation(eng, s3, v, inner)
                        if rel == EQUAL:
                            todo.append((s3, a1, b1, n + 1))
                        else:
                            out.append((s3, answer(run, frozenset((rel,)), how)))
        return out

    def whole(st, a, b, how):
        for v in (a, b):
            if not (isinstance(v, Obj) and v.tag == "it" and is_el(Ref(v.f[0].root, (("at", const(0)),))) is not None):
                raise Stuck("comparison of %r" % (v,))
        ka, kb = a.f[0].root[1][1], b.f[0].root[1][1]
        k = st.mem[("G", "k")].l
        if (ka, kb) != (0, 1) or st.mem[("G", "first")] != NONE or a.f[1].l != b.f[1].l or not decide(st, c_eq(a.f[1].l, k)):
            raise Stuck("comparison of other sequences")
        n0, n1 = a.f[2].l, b.f[2].l
        if decide(st, c_le(n0, n1)):
            m, r = n0, EQUAL if decide(st, c_eq(n0, n1)) else LESS
        else:
            m, r = n1, GREATER
        s = st.copy()
        if decide(st, c_le(k, m)):
            s.mem[("G", "k")] = Int(m)
        out = [(s, answer(run, frozenset((r,)), how))]
        if decide(st, c_lt(k, m)):
            for q in ((LESS,), (GREATER,), (NEITHER,)) if how not in ("eq", "ne") else (tuple(ALL - {EQUAL}),):
                q = frozenset(q) & ghost.all
                if not q:
                    continue
                s = st.copy()
                d = atom(("difference", how))
                s.have(c_le(k, d))
                s.have(c_lt(d, m))
                s.mem[("G", "k")] = Int(d)
                s.mem[("G", "first")] = Obj("first", q)
                out.append((s, answer(run, q, how)))
        return out

    def drive(st, c, nm):
        """the consuming adaptors, item by item (exact passes only)"""
        cell, it = None, c.args[0]
        if isinstance(it, Ref):
            cell = it
            while isinstance(eng.load(st, cell), Ref):
                cell = eng.load(st, cell)
            it = eng.load(st, cell)
        if not (isinstance(it, Obj) and it.tag in models.ITERS):
            return NotImplemented
        if not ghost.exact:
            raise Stuck("iterator " + nm)
        acc0 = c.args[1] if nm == "fold" else None
        fn = c.args[2] if nm == "fold" else c.args[1]
        out, todo = [], [(st, it, acc0, 0)]
        while todo:
            s, it, acc, n = todo.pop()
            if n > 2 * LEVEL:
                raise Stuck("long iteration")
            for s1, it1, x in models.any_next(eng, s, it, c):
                if x is None:
                    if cell is not None:
                        eng.store(s1, cell, it1)
                    out.append((s1, {"all": TRUE, "any": FALSE, "for_each": UNIT, "fold": acc, "position": NONE, "find": NONE}[nm]))
                    continue
                args = [x]
                if nm == "fold":
                    args = [acc, x]
                if nm == "find":
                    root = ("H", ("found", c.site, n))
                    s1.mem[root] = x
                    args = [Ref(root)]
                for s2, v in eng.call_value(s1.copy(), fn, args, c):
                    if nm in ("for_each", "fold"):
                        todo.append((s2, it1, v, n + 1))
                        continue
                    b = bool_of(run, s2, v)
                    stop = {"all": False, "any": True, "position": True, "find": True}[nm]
                    if b == stop:
                        if cell is not None:
                            eng.store(s2, cell, it1)
                        out.append((s2, {"all": FALSE, "any": TRUE, "position": some(Int(n)), "find": some(x)}[nm]))
                    else:
                        todo.append((s2, it1, acc, n + 1))
        return out

    def feed(st, v, c):
        """Hash::hash"""
        e = element(eng, st, v)
        if e is not None:
            k = st.mem[("G", "fed")].l
            run.oblige(st, "hash", ("and", c_le(k, e[1]), ("T",) if e[0] == 0 else ("F",)),
                       "the element at %r is hashed after %r elements" % (e[1], k), c.span)
            s = st.copy()
            s.mem[("G", "fed")] = Int(e[1] + 1)
            return [(s, UNIT)]
        x = number(eng, st, v)
        if isinstance(x, Int):
            run.oblige(st, "hash", c_eq(x.l, lens[0]), "the hasher is fed %r, which is neither an element nor the length" % (x.l,), c.span)
            return [(st, UNIT)]
        raise Stuck("hash of %r" % (x,))

    def hook(eng, st, c):
        own, nm = models.lookup(c.ref["path"])
        a = c.args
        if own in ("PartialEq", "PartialOrd", "Ord") and nm in ("eq", "ne", "lt", "le", "gt", "ge", "partial_cmp", "cmp") and len(a) == 2:
            r = compare(st, a[0], a[1], nm)
            if r is not None:
                return r
            x, y = vec(st, a[0]), vec(st, a[1])
            if x is not None and y is not None and c.ref.get("key") not in eng.p.bodies and c.ref.get("res") not in eng.p.bodies:
                # a default method of the same trait
                raise Stuck("comparison of the vectors themselves")
            return NotImplemented
        if own == "Iterator" and nm in ("eq", "ne", "lt", "le", "gt", "ge", "partial_cmp", "cmp") and len(a) == 2:
            b = a[1]
            k = vec(st, b)
            if k is not None:
                b = elements(k)
            return sequences(st, models.plain(eng, a[0]), models.plain(eng, b), nm, c)
        if own == "Iterator" and nm in ("all", "any", "for_each", "fold", "position", "find"):
            return drive(st, c, nm)
        if own == "Iterator" and nm == "zip" and vec(st, a[1]) is not None:
            return [(st, Obj("zip", None, {0: models.plain(eng, a[0]), 1: elements(vec(st, a[1]))}))]
        if nm == "into_iter" and len(a) == 1 and vec(st, a[0]) is not None:
            return [(st, elements(vec(st, a[0])))]
        if nm in ("next", "next_back", "size_hint", "len", "count", "last", "nth") and a:
            it = models.ld(eng, st, a[0])
            if isinstance(it, Obj) and it.tag in models.ITERS and ("Iterator", nm) in models.TABLE:
                return models.TABLE["Iterator", nm](eng, st, c)
            if isinstance(it, Obj) and it.tag in models.ITERS and nm == "next_back":
                return models.TABLE["DoubleEndedIterator", nm](eng, st, c)
        if nm == "len" and a:
            it = models.ld(eng, st, a[0])
            if isinstance(it, Obj) and it.tag in models.ITERS:
                return [(st, Int(models.it_len(eng, st, it)))]
        if nm == "ptr_eq" or own == "ptr" and nm in ("eq", "addr_eq"):
            x, y = (vec(st, z) for z in a[:2])
            if ghost.total:
                st.spoil("identity of storage")
            t, f = st.copy(), st.copy()
            if x is not None and y is not None and x != y:
                t = t.assume(c_eq(lens[x], lens[y]))
            return [(s, v) for s, v in ((t, TRUE), (f, FALSE)) if s is not None]
        if hashed is not None:
            if own == "Hash" and nm == "hash":
                if vec(st, a[0]) is not None:
                    return NotImplemented
                return feed(st, a[0], c)
            if own == "Hasher" and nm in ("write_usize", "write_length_prefix", "write_u64"):
                return feed(st, a[1], c)
            if own == "Hasher" and nm.startswith("write") and isinstance(number(eng, st, a[1]), Int):
                return feed(st, a[1], c)
        return NotImplemented
    eng.hooks.insert(0, hook)
    lab = run.lab
    for nm in ("iter",):
        k = lab.key(V, nm)
        if k is not None:
            def c_iter(run, st, c):
                x = vec(st, c.args[0])
                if x is None:
                    raise Stuck("iter of another vector")
                return [(st, elements(x))]
            run.contracts[k] = c_iter
    for nm in ("get", "index", "front", "back"):
        k = lab.key(V, nm) or lab.key(V, nm, "Index")
        if k is None:
            continue

        def c_get(run, st, c, nm=nm):
            x = vec(st, c.args[0])
            if x is None:
                raise Stuck("access to another vector")
            if nm in ("front", "back"):
                i = const(0) if nm == "front" else lens[x] - 1
            else:
                i = idx(c)
            if decide(st, c_lt(i, lens[x])) and decide(st, c_le(const(0), i)):
                r = elref(x, i)
                return [(st, r if nm == "index" else some(r))]
            if nm == "index":
                raise Diverge("index out of range")
            return [(st, NONE)]
        run.contracts[k] = c_get


def turn(r):
    return {LESS: GREATER, GREATER: LESS}.get(r, r)


def relation(eng, st, v, how):
    """the relation an Ordering (how: cmp) or an Option<Ordering> stands for"""
    v = number(eng, st, v)
    if how == "cmp":
        return eng.variant(st, v, 3)
    if eng.variant(st, v, 2) == 0:
        return NEITHER
    return eng.variant(st, eng.payload(st, v, 0), 3)


def place(run, st, F, k, n, h):
    """vector k: of length n; h: its height (exact passes), otherwise nothing but its length can be looked at"""
    if h is None:
        v = Obj(V, None, {F[x]: Obj(SHAPE, None) for x in F})
        v.f[F["len"]] = Int(n)
    else:
        v = build(run, st, "AB"[k], F, const(h), bare=None)
        old = vcontent(run, st, v, F)
        where, acc = run.eng.where, const(0)
        for x in tree.full(st, old):
            if x[0] != "I" or (k, x[1]) in where:
                raise Stuck("contents %r" % (old,))
            where[k, x[1]] = (x[2], x[3], acc)
            acc = acc + x[3] - x[2]
        st.have(c_eq(tree.clen(old), n))
        settle(st)
    st.mem[target(k).root] = v


def begin(run, lab, exact, how, order):
    """(state, lengths): the vectors of a judgement; exact: [(length, height)]"""
    st = St()
    run.eng.where = {}
    if exact is None:
        lens = [atom(("n", k)) for k in range(order)]
        for n in lens:
            st.have(c_le(const(0), n))
    else:
        lens = [const(n) for n, h in exact]
        witnessed(run)
        Tree(run)
        run.eng.max_peel = LEVEL + 1
    g = Ghost(run, exact is not None, how == "cmp")
    g.start(st)
    install(run, g, lens, hashed=how == "hash" or None)
    F = fields(lab.p)
    if F is None:
        raise Stuck("fields of the vector")
    for k in range(order):
        place(run, st, F, k, lens[k], exact[k][1] if exact is not None else None)
    if how == "hash":
        st.mem[("G", "fed")] = Int(0)
    return st, lens, g


def compare_setup(lab, how, exact):
    def setup(run):
        st, lens, g = begin(run, lab, exact, how, 2)

        def post(run, st, v):
            left = g.answers(st, *lens)
            if how in ("eq", "ne"):
                left = {EQUAL if r == EQUAL else LESS for r in left}
                if not decide(st, c_eq(*lens)):
                    left = {LESS}
            if how in BY:
                b = bool_of(run, st, v)
                ok = all((r in BY[how]) == b for r in left)
                said = str(b).lower()
            else:
                r = relation(run.eng, st, v, how)
                ok = left == {r}
                said = WORDS[r]
            run.oblige(st, "answer", ok, "for lengths %r and %r, %s answers %s where the elements compared say %s" % (
                lens[0], lens[1], how, said, " or ".join(sorted(WORDS[r] for r in left))))
        return [target(0), target(1)], st, post
    return setup


WORDS = {LESS: "less", EQUAL: "equal", GREATER: "greater", NEITHER: "unordered"}


def hash_setup(lab, exact):
    def setup(run):
        st, lens, g = begin(run, lab, exact, "hash", 1)

        def post(run, st, v):
            run.oblige(st, "hash", True, "")
        return [target(0), Sym("hasher")], st, post
    return setup


def judge(ctx, lab, title, key, general, exacts, name):
    p = lab.p
    over = lab.one_run(key, general, "over")
    ctx.count("functions analysed")
    ctx.count("abstract states", over.eng.nstates)
    bad = [x for x in over.eng.log if x[1] != "ok"]
    pan = [x for x in over.eng.panics if x[0].facts.consistent()]
    if not os.environ.get("SA_EXACT") and over.error is None and not bad and not pan and over.eng.log and not over.eng.unknown:
        ctx.count("obligation instances", len(over.eng.log))
        ctx.count("return partitions", len(over.rets))
        ctx.ok("%s: %s" % (title, name), "proved for every length")
        ctx.sample("%s: %d obligations on %d return partitions, every length" % (title, len(over.eng.log), len(over.rets)))
        return
    why, seen, fail = [over.error] if over.error else [x[2] for x in bad][:1] or ["general proof does not go through"], 0, False
    for e, setup in exacts:
        u = lab.one_run(key, setup, "under", LEVEL + 1)
        ctx.count("abstract states", u.eng.nstates)
        if u.error or u.eng.cuts or u.eng.unknown:
            why.append(u.error or "exact pass incomplete")
        for n, v, text, span, t in u.eng.log:
            seen += v == "ok"
            if v == "fail":
                fail = True
                ctx.violation("%s: %s" % (title, name), "%s: %s" % (p.bodies[key]["path"], text), loc_of(span) if span else loc_of(p.bodies[key]["span"]))
            elif v != "ok":
                why.append(text)
        for st, msg, span in u.eng.panics:
            if not st.taint and st.facts.feasible() and not u.eng.unknown:
                fail = True
                ctx.violation("%s: %s" % (title, name), "%s: panics (%s) for lengths %s" % (p.bodies[key]["path"], msg, e),
                              loc_of(span) if isinstance(span, str) and span else loc_of(p.bodies[key]["span"]))
        if fail:
            return
    ctx.undecided("%s: %s" % (title, name), "; ".join(map(str, why))[:300] + " (exact passes: %d obligations hold)" % seen)


def run(ctx):
    p = Prog("release")
    lab = TreeLab(p, ctx, max_states=30000)
    ctx.rule("eq, partial_cmp, cmp (and any of ne, lt, le, gt, ge the crate overrides) are analysed over two sequences of unknown length whose element "
             "comparisons answer anything; the result must be the lexicographic one that the answers obtained imply, and must be implied by them. hash may feed the hasher "
             "elements in increasing position and the length, nothing else. Iteration by contract (C11).")
    one = [(n, 0) for n in range(LEVEL)] + [(3, 1)]
    pairs = sorted(itertools.product(one, repeat=2), key=lambda x: (x[0][0] + x[1][0], x[0][1] + x[1][1]))
    n = 0
    for trait, how in [("PartialEq", "eq"), ("PartialEq", "ne"), ("PartialOrd", "partial_cmp"), ("PartialOrd", "lt"), ("PartialOrd", "le"),
                       ("PartialOrd", "gt"), ("PartialOrd", "ge"), ("Ord", "cmp")]:
        k = lab.key(V, how, trait)
        if k is None:
            if how in ("eq", "partial_cmp", "cmp"):
                ctx.undecided(how, "no such operation")
            continue
        n += 1
        judge(ctx, lab, how, k, compare_setup(lab, how, None), [(e, compare_setup(lab, how, e)) for e in pairs], "answer")
    k = lab.key(V, "hash", "Hash")
    if k is None:
        ctx.undecided("hash", "no such operation")
    else:
        n += 1
        judge(ctx, lab, "hash", k, hash_setup(lab, None), [(e, hash_setup(lab, (e,))) for e in one], "hash")
    ctx.floor("comparison operations", 4, n)
