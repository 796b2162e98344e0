"""The tree as seen from above its nodes: shapes with symbolic heights, slot counts and sizes, and the sequence of elements
every part stands for.

A *container* is a sequence of nodes (a spine, the children of a node, the root) or of elements (a leaf).  Nodes are read
from containers lazily; what they hold is an interval [a, b) of an *element line* - the sequence the container stood for
when it came into being - with affine bounds over unknown prefix sums.  Restructuring moves intervals about; two parts
hold the same sequence exactly when their interval lists agree after merging what is adjacent and dropping what is empty.
A loop (or a helper that has its own proof) that rearranges several sequences is summarised by one equation: the
concatenation of their contents, in the order that the first iteration conserves, never changes."""
import itertools
import os
import lin
from lin import const, atom, c_le, c_lt, c_eq, c_ne, negate
import absint
from absint import (St, Int, Bool, Sym, Ref, Obj, Word, MOVED, Moved, UNIT, NONE, TRUE, FALSE, some, tup, Diverge, Stuck, NeedSplit,
                    decide, norm_pieces, plen)
import models
from ring import side_of


DEBUG = os.environ.get("SA_DEBUG")


class Base:
    """what is known of a container; immutable"""
    __slots__ = ("n", "line", "off", "tot", "ori", "a", "b", "ne", "cap", "elem")

    def __init__(self, n, line, off, tot, ori="f", a=None, b=0, ne="any", cap="any", elem=False):
        self.n, self.line, self.off, self.tot, self.ori, self.a, self.b = n, line, off, tot, ori, a, b
        self.ne, self.cap, self.elem = ne, cap, elem

    def level(self, i):
        return self.a + i.scale(self.b)


def NODE(c, lv):
    return Obj("NODE", None, {"c": Word(c.p), "lv": Int(lv)})


def is_node(v):
    return isinstance(v, Obj) and v.tag == "NODE"


def W():
    return const(lin.W)


def fresh_id(st):
    n = st.g.get("nb", 0)
    st.g["nb"] = n + 1
    return n


def base(st, X):
    b = st.g.get(("B", X))
    if b is None:
        raise Stuck("container %r" % (X,))
    return b


def new_base(st, name, **kw):
    X = ("b", name, fresh_id(st))
    b = Base(**kw)
    if b.line is None:
        b.line = X
    st.g[("B", X)] = b
    st.g[("P", X)] = ((const(0), const(0)), (b.n, b.tot))
    st.have(c_le(const(0), b.n))
    st.have(c_le(const(0), b.tot))
    if b.ne == "all":
        st.have(c_le(b.n, b.tot))
    return X


def possible(st):
    """a path that contradicts what is known does not exist"""
    if not st.facts.consistent():
        raise NeedSplit([])


def resolve(st, X):
    """the children of a node whose level was left open: elements or nodes"""
    rec = base(st, X)
    if rec.elem is None:
        if decide(st, c_eq(rec.a, const(-1))):
            st.have(c_eq(rec.n, rec.tot))
            rec = Base(rec.n, rec.line, rec.off, rec.tot, a=const(-1), elem=True)
        else:
            rec = Base(rec.n, rec.line, rec.off, rec.tot, a=rec.a, ne="all", cap="inner")
            if rec.a == const(0):
                st.have(c_le(rec.tot, rec.n.scale(lin.W)))
        st.g[("B", X)] = rec
    return rec


def pre(st, X, i, soft=False):
    """number of elements in front of node i of container X (counted from its node 0)"""
    rec = base(st, X)
    if rec.elem:
        return i
    tab = st.g[("P", X)]
    for j, p in tab:
        if j == i:
            return p
    if rec.elem is None:
        return pre(st, X, i) if resolve(st, X) else None
    for j, p in tab:
        if st.facts.entails(c_eq(i, j)) if soft else decide(st, c_eq(i, j)):
            return p
    p = atom(("P", X, i))
    for j, q in tab:
        if soft:
            order(st, rec, i, p, j, q)
        elif decide(st, c_lt(j, i)):
            grows(st, rec, j, q, i, p)
        else:
            grows(st, rec, i, p, j, q)
    st.g[("P", X)] = tab + ((i, p),)
    return p


def grows(st, rec, lo, pl, hi, ph):
    if rec.ne == "all":
        st.have(c_le(pl + (hi - lo), ph))
    elif rec.ne == "first" and lo == const(0):
        st.have(c_le(pl + 1, ph))
    else:
        st.have(c_le(pl, ph))


def order(st, rec, i, p, j, q):
    """whatever is known about the order of two indices holds for their prefix sums"""
    if st.facts.entails(c_le(i, j)):
        if st.facts.entails(c_le(j, i)):
            st.have(c_eq(p, q))
        else:
            grows(st, rec, i, p, j, q) if st.facts.entails(c_lt(i, j)) else st.have(c_le(p, q))
    elif st.facts.entails(c_le(j, i)):
        grows(st, rec, j, q, i, p) if st.facts.entails(c_lt(j, i)) else st.have(c_le(q, p))


def settle(st, X=None):
    """indices may have turned out equal or ordered after both were used, levels known"""
    for k in [k for k in st.g if isinstance(k, tuple) and k[0] == "B" and (X is None or k[1] == X)]:
        rec = st.g[k]
        if rec.elem is None:
            if st.facts.entails(c_eq(rec.a, const(-1))) or st.facts.entails(c_le(const(0), rec.a)):
                resolve(st, k[1])
            elif st.facts.entails(c_eq(rec.n, const(0))):
                st.have(c_eq(rec.tot, const(0)))
    for k in [k for k in st.g if isinstance(k, tuple) and k[0] == "P" and (X is None or k[1] == X)]:
        tab = st.g[k]
        rec = base(st, k[1])
        for x in range(len(tab)):
            for y in range(x):
                if tab[x][1] != tab[y][1]:
                    order(st, rec, tab[x][0], tab[x][1], tab[y][0], tab[y][1])


def start_of(st, X, i):
    """where node i begins on the element line"""
    rec = base(st, X)
    if rec.elem:
        return rec.off + i
    return rec.off + pre(st, X, i) if rec.ori == "f" else rec.off + rec.tot - pre(st, X, i + 1)


def open_node(st, X, i):
    """the node at index i of container X"""
    rec = base(st, X)
    seen = st.g.get(("O", X), ())
    hit = None
    for j in seen:
        if j == i:
            hit = j
    if hit is None:
        for j in seen:
            if decide(st, c_eq(i, j)):
                hit = j
                break
    if hit is not None:
        ch = ("ch", X, hit)
        r = base(st, ch)
        return NODE(Word([("S", ch, const(0), r.n, False)]), r.a + 1)
    lv = rec.level(i)
    size = pre(st, X, i + 1) - pre(st, X, i)
    n = make_children(st, X, i, lv, start_of(st, X, i), size, rec)
    st.g[("O", X)] = seen + (i,)
    return NODE(Word([("S", ("ch", X, i), const(0), n, False)]), lv)


def make_children(st, X, i, lv, off, size, rec):
    ch = ("ch", X, i)
    ent = st.facts.entails
    if ent(c_eq(lv, const(0))):
        n, elem = size, True
    else:
        n = atom(("n", X, i))
        elem = False if ent(c_le(const(1), lv)) else None
        st.have(c_le(n, size))
        if lv == const(1):
            st.have(c_le(size, n.scale(lin.W)))
        if rec.cap == "spine":
            if elem is False:
                st.have(c_le(n, W() - 1))
        if rec.cap == "root" and elem is False:
            st.have(c_le(n, W() - 2))
    st.have(c_le(n, W()))
    if rec.ne == "all" or rec.cap == "inner" or rec.ne == "first" and i == const(0):
        st.have(c_le(const(1), n))
    st.g[("B", ch)] = Base(n, rec.line, off, size, a=lv - 1, ne="all", cap="inner", elem=elem)
    st.g[("P", ch)] = ((const(0), const(0)), (n, size))
    return n


def elem_factory(st, X, i):
    rec = st.g.get(("B", X))
    if rec is None:
        return None
    if rec.elem is None:
        rec = resolve(st, X)
    if rec.elem:
        return None
    return open_node(st, X, i)


def node_piece(st, v):
    """an untouched node is still an element of the container it came from"""
    if is_node(v):
        p = v.f["c"].p
        if len(p) == 1 and p[0][0] == "S" and isinstance(p[0][1], tuple) and p[0][1][0] == "ch" and not p[0][4]:
            ch = p[0][1]
            r = st.g.get(("B", ch))
            if r is not None and p[0][2] == const(0) and p[0][3] == r.n and v.f["lv"].l == r.a + 1:
                return ("S", ch[1], ch[2], ch[2] + 1, False)
    return None


# ---------------------------------------------------------------- content
def content(st, v, rev=False):
    """[('I', line, a, b) | ('E', value) | ('odd', ...)] - the elements a node or a sequence of nodes stands for"""
    out = []
    if is_node(v):
        return content(st, v.f["c"])
    if not isinstance(v, Word):
        raise Stuck("content of %r" % (v,))
    for x in (reversed(v.p) if rev else v.p):
        if x[0] == "E":
            if is_node(x[1]):
                out += content(st, x[1])
            elif isinstance(x[1], Sym) and isinstance(x[1].n, tuple) and x[1].n[0] == "at" and ("B", x[1].n[1]) in st.g:
                resolve(st, x[1].n[1])
                o = base(st, x[1].n[1]).off + x[1].n[2]
                out.append(("I", base(st, x[1].n[1]).line, o, o + 1))
            else:
                out.append(("E", x[1]))
            continue
        _, X, lo, hi, r = x
        rec = st.g.get(("B", X))
        if rec is None:
            out.append(("odd", X, lo, hi, r != rev))
            continue
        if lo == hi:
            continue
        back = r != rev
        if rec.elem is None:
            if lo == const(0) and hi == rec.n and not back:
                out.append(("I", rec.line, rec.off, rec.off + rec.tot))
                continue
            rec = resolve(st, X)
        if rec.elem:
            if back and not hi - lo == const(1) and not decide(st, c_le(hi - lo, const(1))):
                out.append(("odd", X, lo, hi, back))
            else:
                out.append(("I", rec.line, rec.off + lo, rec.off + hi))
            continue
        if (rec.ori == "r") != back and not hi - lo == const(1) and not decide(st, c_le(hi - lo, const(1))):
            out.append(("odd", X, lo, hi, back))
            continue
        a, b = pre(st, X, lo), pre(st, X, hi)
        if rec.ori == "f":
            out.append(("I", rec.line, rec.off + a, rec.off + b))
        else:
            out.append(("I", rec.line, rec.off + rec.tot - b, rec.off + rec.tot - a))
    return out


def clen(ps):
    n = const(0)
    for x in ps:
        if x[0] == "I":
            n = n + (x[3] - x[2])
        elif x[0] == "E":
            n = n + 1
        else:
            raise Stuck("size of %r" % (x,))
    return n


def size_of(st, v):
    """how many elements a node or a sequence of nodes holds, whatever their order"""
    if is_node(v):
        v = v.f["c"]
    n = const(0)
    for x in v.p:
        if x[0] == "E":
            n = n + (size_of(st, x[1]) if is_node(x[1]) else const(1))
            continue
        rec = st.g.get(("B", x[1]))
        if rec is None:
            raise Stuck("size of %r" % (x,))
        if rec.elem is None and not (x[2] == const(0) and x[3] == rec.n):
            rec = resolve(st, x[1])
        n = n + (x[3] - x[2] if rec.elem else pre(st, x[1], x[3]) - pre(st, x[1], x[2]) if rec.elem is False else rec.tot)
    return n


def expand(st, ps):
    """replace lines that were defined as concatenations by what they stand for"""
    out = []
    for x in ps:
        d = st.g.get(("Z", x[1])) if x[0] == "I" else None
        if d is None:
            out.append(x)
            continue
        _, Z, a, b = x
        if not d:
            continue
        if len(d) == 1 and d[0][0] == "I":
            out += expand(st, [("I", d[0][1], d[0][2] + a, d[0][2] + b)])
            continue
        if a == b or st.facts.entails(c_eq(a, b)):
            continue
        pos = const(0)
        res = []
        ok = True
        for y in d:
            n = clen([y])
            end = pos + n
            F = st.facts
            if F.entails(c_le(end, a)) or F.entails(c_le(b, pos)) or F.entails(c_eq(n, const(0))):
                pass
            else:
                lo = pos if F.entails(c_le(a, pos)) else a if F.entails(c_le(pos, a)) else None
                hi = end if F.entails(c_le(end, b)) else b if F.entails(c_le(b, end)) else None
                if lo is None or hi is None:
                    ok = False
                    break
                if y[0] == "I":
                    res.append(("I", y[1], y[2] + (lo - pos), y[2] + (hi - pos)))
                else:
                    res.append(y)
            pos = end
        out += expand(st, res) if ok else [x]
    return out


def same_content(st, A, B, split=True):
    """True / False / None (cannot tell).  With split, undecided comparisons raise NeedSplit."""
    A, B = list(full(st, A)), list(full(st, B))
    ent = st.facts.entails

    def test(c):
        if ent(c):
            return True
        if ent(negate(c)):
            return False
        if split:
            return decide(st, c)
        return None

    while True:
        while A and A[0][0] == "I" and (A[0][2] == A[0][3] or ent(c_eq(A[0][2], A[0][3]))):
            A.pop(0)
        while B and B[0][0] == "I" and (B[0][2] == B[0][3] or ent(c_eq(B[0][2], B[0][3]))):
            B.pop(0)
        if not A and not B:
            return True
        if A and B and A[0] == B[0]:
            A.pop(0)
            B.pop(0)
            continue
        if A and B and A[0][0] == "I" and B[0][0] == "I" and A[0][1] == B[0][1] and ent(c_eq(A[0][2], B[0][2])):
            x, y = A[0], B[0]
            if ent(c_eq(x[3], y[3])):
                A.pop(0)
                B.pop(0)
                continue
            t = test(c_le(x[3], y[3]))
            if t is None:
                return None
            if t:
                A.pop(0)
                B[0] = ("I", y[1], x[3], y[3])
            else:
                B.pop(0)
                A[0] = ("I", x[1], y[3], x[3])
            continue
        # a mismatch unless one of the two is empty
        for q in (A, B):
            if q and q[0][0] == "I":
                t = test(c_eq(q[0][2], q[0][3]))
                if t is None:
                    return None
                if t:
                    q.pop(0)
                    break
        else:
            for q in (A, B):
                if q and (q[0][0] == "odd" or q[0][0] == "I" and ("Z", q[0][1]) in st.g):
                    return None
            if A and B and A[0][0] == "I" and B[0][0] == "I" and A[0][1] == B[0][1]:
                t = test(c_eq(A[0][2], B[0][2]))
                if t is None:
                    return None
                if t:
                    continue
            return False


def merge(st, ps):
    out = []
    for x in ps:
        if x[0] == "I" and x[2] == x[3]:
            continue
        if out and x[0] == "I" and out[-1][0] == "I" and out[-1][1] == x[1] and absint.eqv(st, out[-1][3], x[2]):
            out[-1] = ("I", x[1], out[-1][2], x[3])
            continue
        out.append(x)
    return out


def full(st, ps):
    for _ in range(6):
        q = merge(st, expand(st, merge(st, ps)))
        if q == ps:
            break
        ps = q
    return ps


def define_line(st, ps):
    """an element line for a known sequence: (line, offset, total)"""
    ps = full(st, ps)
    if any(x[0] == "odd" for x in ps):
        raise Stuck("order of %r" % (ps,))
    n = clen(ps)
    if len(ps) == 1 and ps[0][0] == "I":
        return ps[0][1], ps[0][2], n
    Z = ("z", fresh_id(st))
    st.g[("Z", Z)] = tuple(ps)
    return Z, const(0), n


def under_splits(st, f, limit=64):
    """f holds on every case of st"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            return None
        try:
            s = s.copy()
            if not s.facts.consistent():
                continue
            r = f(s)
            if r is not True:
                return r
        except NeedSplit as e:
            for c in e.alts:
                t = s.assume(c)
                if t is not None:
                    work.append(t)
        except Diverge:
            pass
    return True


# ---------------------------------------------------------------- witnesses
def find_model(facts, budget=600):
    """integer values for the unknowns that satisfy every fact, or None"""
    atoms = set()
    for l in list(facts.le) + list(facts.ne):
        atoms.update(l.atoms())
    grow = True
    while grow:
        grow = False
        for a in list(atoms):
            if isinstance(a, tuple):
                for x in a:
                    if isinstance(x, lin.Lin) and a[0] in ("half", "rem"):
                        for b in x.atoms():
                            if b not in atoms:
                                atoms.add(b)
                                grow = True
    order = sorted(atoms, key=lambda a: (isinstance(a, tuple) and a[0] in ("half", "rem"), sum(a in dict(l.t) for l in facts.le) * -1, repr(a)))
    apart = [(l, set(l.atoms())) for l in facts.ne]

    def go(f, i, m):
        if i == len(order):
            return m
        a = order[i]
        for v in (0, 1, 2, 3, 4, 5, 6, 8, 11, 16, 31, 32, 33, 34, 62, 63, 64, 65, 66, 127, 128, 129, 200, 500, 4096):
            if left[0] <= 0:
                return None
            left[0] -= 1
            m2 = {**m, a: v}
            if any(a in ats and all(x in m2 for x in ats) and l.c + sum(k * m2[x] for x, k in l.t) == 0 for l, ats in apart):
                continue
            g = f.add(("eq", atom(a) - v))
            if g is None or not g.consistent():
                continue
            r = go(g, i + 1, m2)
            if r is not None:
                return r
        return None
    left = [budget]
    m = go(facts, 0, {})
    if m is None:
        return None
    val = lambda l: l.c + sum(k * m[a] for a, k in l.t)
    for l in facts.le:
        if val(l) > 0:
            return None
    for l in facts.ne:
        if val(l) == 0:
            return None
    for a in m:
        if isinstance(a, tuple) and a[0] == "half" and m[a] != val(a[1]) // 2:
            return None
        if isinstance(a, tuple) and a[0] == "rem" and m[a] != val(a[1]) % lin.W:
            return None
    return m


# ---------------------------------------------------------------- contracts of the node layer
def node_at(eng, st, v):
    """(reference, node) behind any number of references / guards"""
    r = None
    n = 0
    while isinstance(v, (Ref, Sym)) and n < 6:
        if isinstance(v, Sym):
            raise Stuck("node expected: %r" % (v,))
        r = v
        v = eng.load(st, v)
        n += 1
    if not is_node(v):
        raise Stuck("node expected: %r" % (v,))
    return r, v


TRAITS = ("InternalTrait", "LeafTrait", "Entry", "BorrowedInternalTrait", "BorrowedLeafTrait")


def trait_of(c):
    p = c.ref["path"]
    if "node_traits::" not in p:
        return None
    for t in TRAITS:
        if "::" + t + "::" in p or p.startswith(t + "::"):
            return t
    return None


class Tree:
    """installs the node contracts into a run"""

    def __init__(self, run, lemma=None):
        self.run, self.eng = run, run.eng
        self.notes = {}
        eng = run.eng
        eng.elem = elem_factory
        old = eng.piece_of

        def piece_of(st, v):
            return node_piece(st, v) or old(st, v)
        eng.piece_of = piece_of
        a = next((a for a in run.lab.p.adts.values() if a.get("path", "").endswith("node_traits::NodeRc")), None)
        if a is None:
            raise Stuck("NodeRc")
        names = [x["name"] for x in a["variants"]]
        if set(names) != {"Leaf", "Internal"}:
            raise Stuck("NodeRc variants")
        self.var = {n: names.index(n) for n in names}
        eng.node_var = lambda st, v: self.var["Leaf"] if decide(st, c_eq(v.f["lv"].l, const(0))) else self.var["Internal"]
        self.lemmas = {}
        eng.hooks.insert(0, self.hook)
        eng.loop_plugins.append(Lift(self))
        if run.mode == "over":
            eng.max_peel = 0
            eng.lazy_cut = True
        else:
            eng.max_peel = max(5, 2 * eng.phases + 2)
            eng.unroll = True

    # -- helpers
    def put(self, st, r, c, lv):
        self.eng.store(st, r, NODE(c, lv))

    def slots(self, st, v):
        return v.f["c"].length()

    def side(self, st, v):
        return side_of(self.run, st, v)

    def hook(self, eng, st, c):
        k = eng.target(st, c)
        f = self.lemmas.get(k)
        if f is not None:
            u = getattr(self.run, "used_lemmas", None)
            if u is not None:
                u.add(c.name)
            return f(self.run, st, c)
        t = trait_of(c)
        if t is not None:
            g = getattr(self, "t_" + c.name, None)
            if g is None:
                return NotImplemented
            return g(st, c, t)
        p = c.ref["path"]
        if c.name in ("deref", "deref_mut", "borrow", "as_ref", "as_mut") and len(c.args) == 1 and isinstance(c.args[0], Ref):
            try:
                v = eng.load(st, c.args[0])
            except Stuck:
                return NotImplemented
            if isinstance(v, Ref):
                try:
                    if is_node(eng.load(st, v)):
                        return [(st, v)]
                except Stuck:
                    pass
            if is_node(v):
                return [(st, c.args[0])]
            return NotImplemented
        if c.name == "clone" and len(c.args) == 1 and isinstance(c.args[0], Ref):
            try:
                v = eng.load(st, c.args[0])
            except Stuck:
                return NotImplemented
            if is_node(v) or isinstance(v, Word):
                return [(st, v)]
        return NotImplemented

    def word_of(self, st, n, cut):
        return self.eng.word_cut(st, n.f["c"], cut)

    def norm(self, st, ps):
        return Word(norm_pieces(st, list(ps)))

    # -- Entry
    def t_new(self, st, c, t):
        if t != "Entry" or not is_node(c.args[0]):
            return NotImplemented
        return [(st, c.args[0])]

    def t_load(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, r)]

    t_load_mut = t_load

    # -- construction
    def t_empty_internal(self, st, c, t):
        return [(st, NODE(Word(), c.args[0].l))]

    def t_new_empty(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, NODE(Word(), v.f["lv"].l))]

    def t_empty(self, st, c, t):
        return [(st, NODE(Word(), const(0)))]

    def t_with_item(self, st, c, t):
        return [(st, NODE(Word([self.eng.piece_of(st, c.args[0])]), const(0)))]

    # -- queries
    def t_len(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        settle(st)
        return [(st, Int(size_of(st, v)))]

    def t_slots(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, Int(self.slots(st, v)))]

    def t_free_slots(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, Int(W() - self.slots(st, v)))]

    t_free_space = t_free_slots

    def t_is_empty(self, st, c, t):
        # a node without slots holds nothing, and a node with slots holds something
        r, v = node_at(self.eng, st, c.args[0])
        e = decide(st, c_eq(self.slots(st, v), const(0)))
        n = size_of(st, v)
        st.have(c_eq(n, const(0)) if e else c_le(const(1), n))
        return [(st, TRUE if e else FALSE)]

    def t_is_full(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, Bool(c_eq(self.slots(st, v), W())))]

    def t_level(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, v.f["lv"])]

    # -- restructuring
    def t_share_children_with(self, st, c, t):
        eng = self.eng
        r, v = node_at(eng, st, c.args[0])
        q, d = node_at(eng, st, c.args[1])
        side = self.side(st, c.args[2])
        n = c.args[3].l
        self.run.oblige(st, "levels", c_eq(v.f["lv"].l, d.f["lv"].l), "children of a level %r node are moved to a level %r node" % (v.f["lv"].l, d.f["lv"].l), c.span)
        sv, free = self.slots(st, v), W() - self.slots(st, d)
        k = self.least(st, c, self.least(st, c, n, sv), free)
        if side == "Front":
            x, y = self.word_of(st, v, k)
            self.put(st, r, self.norm(st, y.p), v.f["lv"].l)
            self.put(st, q, self.norm(st, d.f["c"].p + x.p), d.f["lv"].l)
        else:
            x, y = self.word_of(st, v, sv - k)
            self.put(st, r, self.norm(st, x.p), v.f["lv"].l)
            self.put(st, q, self.norm(st, y.p + d.f["c"].p), d.f["lv"].l)
        return [(st, Int(k))]

    def room(self, st, n, why):
        """panics when there is no free slot; a proof about what is returned need not look at that"""
        if self.run.mode != "over":
            if not decide(st, c_lt(n, W())):
                raise Diverge(why)
            return
        if st.facts.entails(c_le(W(), n)):
            raise Diverge(why)
        st.have(c_lt(n, W()))

    def least(self, st, c, a, b):
        """min(a, b); in a proof without a case distinction"""
        F = st.facts
        if self.run.mode != "over":
            return a if decide(st, c_le(a, b)) else b
        if F.entails(c_le(a, b)):
            return a
        if F.entails(c_le(b, a)):
            return b
        m = atom(("min", c.site, fresh_id(st)))
        st.have(c_le(m, a))
        st.have(c_le(m, b))
        st.have(c_le(const(0), m))
        return m

    def t_pack_children(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        n = self.slots(st, v)
        if decide(st, c_le(n, const(0))):
            return [(st, UNIT)]
        line, off, tot = define_line(st, content(st, v))
        m = atom(("pk", c.site, fresh_id(st)))
        st.have(c_le(const(1), m))
        st.have(c_le(m, n))
        X = new_base(st, "pk", n=m, line=line, off=off, tot=tot, a=v.f["lv"].l - 1, ne="all", cap="inner")
        self.put(st, r, Word([("S", X, const(0), m, False)]), v.f["lv"].l)
        return [(st, UNIT)]

    def kind(self, enum, leaf):
        """(tag, variant) of one of the enumerations over leaf / internal nodes"""
        a = next((a for a in self.run.lab.p.adts.values() if a.get("path", "").endswith("node_traits::" + enum)), None)
        names = [x["name"] for x in a["variants"]] if a else []
        if set(names) != {"Leaf", "Internal"}:
            raise Stuck("variants of " + enum)
        return a["path"], names.index("Leaf" if leaf else "Internal")

    def wrap(self, st, enum, v, ref=False):
        tag, var = self.kind(enum, decide(st, c_eq(v.f["lv"].l, const(0))))
        if ref:
            cell = ("*", ("node", fresh_id(st)))
            st.mem[cell] = v
            v = Ref(cell)
        return Obj(tag, var, {0: v})

    def child_of(self, st, v, i):
        """the child that holds position i (known to be inside): (index, its first position)"""
        acc = const(0)
        pos = const(0)
        for x in v.f["c"].p:
            n = size_of(st, Word([x]))
            settle(st)
            if not decide(st, c_lt(i, acc + n)):
                acc = acc + n
                pos = pos + (const(1) if x[0] == "E" else x[3] - x[2])
                continue
            if x[0] == "E":
                return pos, acc
            _, X, lo, hi, back = x
            if back:
                raise Stuck("reversed children")
            z = pre(st, X, lo)
            j = atom(("find", X, i - acc + z))
            st.have(c_le(lo, j))
            st.have(c_lt(j, hi))
            a, b = pre(st, X, j), pre(st, X, j + 1)
            st.have(c_le(a - z + acc, i))
            st.have(c_lt(i, b - z + acc))
            possible(st)
            return pos + (j - lo), acc + (a - z)
        raise Stuck("position %r of %r" % (i, v))

    def t_get_child_ref_for_position(self, st, c, t):
        mut = "mut" in c.name
        r, v = node_at(self.eng, st, c.args[0])
        i = c.args[1].l
        settle(st)
        n = size_of(st, v)
        if not decide(st, c_lt(i, n)):
            return [(st, NONE)]
        k, a = self.child_of(st, v, i)
        ch = self.eng.word_get(st, v.f["c"], k)
        m = size_of(st, ch)
        x = self.wrap(st, "NodeMut" if mut else "NodeRef", ch, True)
        return [(st, some(tup(x, Obj("Range", None, {0: Int(a), 1: Int(a + m)}))))]

    t_get_child_mut_for_position = t_get_child_ref_for_position

    def t_borrow_node(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        return [(st, v)]

    def b_split_at_position(self, st, c):
        """borrowed: (rest of the position in its child, the children before that one, that one and those after it)"""
        r, v = node_at(self.eng, st, c.args[0])
        i = c.args[1].l
        settle(st)
        if not decide(st, c_lt(i, size_of(st, v))):
            raise Diverge("split position out of range")
        k, a = self.child_of(st, v, i)
        x, y = self.word_of(st, v, k)
        lv = v.f["lv"].l
        return [(st, tup(Int(i - a), NODE(self.norm(st, x.p), lv), NODE(self.norm(st, y.p), lv)))]

    def t_split_at(self, st, c, t):
        """borrowed leaf"""
        if t != "BorrowedLeafTrait":
            return NotImplemented
        r, v = node_at(self.eng, st, c.args[0])
        i = c.args[1].l
        if not decide(st, c_le(i, self.slots(st, v))):
            raise Diverge("split position out of range")
        x, y = self.word_of(st, v, i)
        lv = v.f["lv"].l
        return [(st, tup(NODE(self.norm(st, x.p), lv), NODE(self.norm(st, y.p), lv)))]

    def b_pop_child(self, st, c):
        r, v = node_at(self.eng, st, c.args[0])
        n = self.slots(st, v)
        if decide(st, c_le(n, const(0))):
            return [(st, NONE)]
        side = self.side(st, c.args[1])
        x, y = self.word_of(st, v, const(1) if side == "Front" else n - 1)
        one, rest = (x, y) if side == "Front" else (y, x)
        ch = self.eng.word_get(st, one, const(0))
        self.put(st, r, self.norm(st, rest.p), v.f["lv"].l)
        return [(st, some(self.wrap(st, "BorrowedNode", ch)))]

    def t_pop_child(self, st, c, t):
        if t == "BorrowedInternalTrait":
            return self.b_pop_child(st, c)
        eng = self.eng
        r, v = node_at(eng, st, c.args[0])
        n = self.slots(st, v)
        if decide(st, c_le(n, const(0))):
            raise Diverge("pop_child of an empty node")
        side = self.side(st, c.args[1])
        at = const(1) if side == "Front" else n - 1
        x, y = self.word_of(st, v, at)
        one, rest = (x, y) if side == "Front" else (y, x)
        ch = eng.word_get(st, one, const(0))
        self.put(st, r, self.norm(st, rest.p), v.f["lv"].l)
        return [(st, ch)]

    def t_push_child(self, st, c, t):
        eng = self.eng
        r, v = node_at(eng, st, c.args[0])
        side = self.side(st, c.args[1])
        ch = c.args[2]
        if not is_node(ch):
            raise Stuck("pushed child %r" % (ch,))
        self.run.oblige(st, "levels", c_eq(ch.f["lv"].l + 1, v.f["lv"].l), "a level %r node gets a child of level %r" % (v.f["lv"].l, ch.f["lv"].l), c.span)
        k = size_of(st, ch)
        self.run.oblige(st, "no empty child", ("or", c_le(const(1), k), c_le(const(1), self.slots(st, ch))), "an empty node becomes a child", c.span)
        n = self.slots(st, v)
        self.room(st, n, "push_child on a full node")
        x = [eng.piece_of(st, ch)]
        self.put(st, r, self.norm(st, x + list(v.f["c"].p) if side == "Front" else list(v.f["c"].p) + x), v.f["lv"].l)
        return [(st, UNIT)]

    def t_push(self, st, c, t):
        eng = self.eng
        r, v = node_at(eng, st, c.args[0])
        side = self.side(st, c.args[1])
        n = self.slots(st, v)
        self.room(st, n, "push on a full leaf")
        x = [eng.piece_of(st, c.args[2])]
        self.put(st, r, self.norm(st, x + list(v.f["c"].p) if side == "Front" else list(v.f["c"].p) + x), v.f["lv"].l)
        return [(st, UNIT)]

    def t_pop(self, st, c, t):
        eng = self.eng
        r, v = node_at(eng, st, c.args[0])
        n = self.slots(st, v)
        if decide(st, c_le(n, const(0))):
            raise Diverge("pop of an empty leaf")
        side = self.side(st, c.args[1])
        at = const(1) if side == "Front" else n - 1
        x, y = self.word_of(st, v, at)
        one, rest = (x, y) if side == "Front" else (y, x)
        e = eng.word_get(st, one, const(0))
        self.put(st, r, self.norm(st, rest.p), v.f["lv"].l)
        return [(st, e)]

    def t_split(self, st, c, t):
        """leaf: self keeps [0, i), the result gets [i, len)"""
        if t.startswith("Borrowed"):
            return NotImplemented
        r, v = node_at(self.eng, st, c.args[0])
        i = c.args[1].l
        if not decide(st, c_le(i, self.slots(st, v))):
            raise Diverge("split of a leaf out of range")
        x, y = self.word_of(st, v, i)
        self.put(st, r, self.norm(st, x.p), v.f["lv"].l)
        return [(st, NODE(self.norm(st, y.p), v.f["lv"].l))]

    def t_split_at_child(self, st, c, t):
        return self.t_split(st, c, t)

    def t_split_at_position(self, st, c, t):
        """internal: self keeps the first i elements, the result gets the others; neither gets an empty child"""
        if t == "BorrowedInternalTrait":
            return self.b_split_at_position(st, c)
        r, v = node_at(self.eng, st, c.args[0])
        i = c.args[1].l
        lv = v.f["lv"].l
        ps = content(st, v)
        n = clen(ps)
        if not decide(st, c_lt(i, n)):
            raise Diverge("split position out of range")
        line, off, tot = define_line(st, ps)
        s = self.slots(st, v)
        out = []
        for part, (o, ln) in enumerate(((off, i), (off + i, tot - i))):
            m = atom(("sp", c.site, part, fresh_id(st)))
            st.have(c_le(m, s))
            st.have(c_le(m, ln))
            if part:
                st.have(c_le(const(1), m))
            X = new_base(st, "sp%d" % part, n=m, line=line, off=o, tot=ln, a=lv - 1, ne="all", cap="inner")
            out.append(NODE(Word([("S", X, const(0), m, False)]), lv))
        if not decide(st, c_eq(i, const(0))):
            # both exist; together at most one more than before
            m0, m1 = self.slots(st, out[0]), self.slots(st, out[1])
            st.have(c_le(const(1), m0))
            st.have(c_le(m0 + m1, s + 1))
            st.have(c_le(s, m0 + m1))
        else:
            st.have(c_eq(self.slots(st, out[0]), const(0)))
            st.have(c_eq(self.slots(st, out[1]), s))
        self.eng.store(st, r, out[0])
        return [(st, out[1])]

    # -- elements
    def elem_ref(self, st, r, v, i):
        """a place that stands for the element at position i of the node"""
        ps = merge(st, expand(st, content(st, v)))
        acc = const(0)
        for x in ps:
            n = clen([x])
            if decide(st, c_lt(i, acc + n)):
                if x[0] == "E":
                    return Ref(("*", ("EV", repr(x[1]))))
                return Ref(("*", ("ELEM", x[1])), (("at", x[2] + (i - acc)),))
            acc = acc + n
        raise Stuck("element %r of %r" % (i, v))

    def t_get(self, st, c, t):
        r, v = node_at(self.eng, st, c.args[0])
        i = c.args[1].l
        settle(st)
        if not decide(st, c_lt(i, size_of(st, v))):
            return [(st, NONE)]
        return [(st, some(self.elem_ref(st, r, v, i)))]

    t_get_mut = t_get
    t_get_mut_guarded = t_get

    def end(self, st, c, front):
        r, v = node_at(self.eng, st, c.args[0])
        n = size_of(st, v)
        if decide(st, c_eq(n, const(0))):
            return [(st, NONE)]
        return [(st, some(self.elem_ref(st, r, v, const(0) if front else n - 1)))]

    def t_front(self, st, c, t):
        return self.end(st, c, True)

    def t_back(self, st, c, t):
        return self.end(st, c, False)

    t_front_mut = t_front
    t_back_mut = t_back

    def t_debug_check_invariants(self, st, c, t):
        return [(st, UNIT)]


# ---------------------------------------------------------------- loops (and helpers) that rearrange sequences of nodes
def tree_cell(eng, c, states):
    """the node or sequence of nodes that a changed cell belongs to: (root, path) or None"""
    root, path = c
    for i in range(len(path) + 1):
        for s in states:
            try:
                v = eng.read(s, root, path[:i])
            except (Stuck, NeedSplit):
                continue
            if is_node(v):
                return (root, path[:i])
            if isinstance(v, Word):
                return (root, path[:i]) if node_word(s, v) else None
    return None


def node_word(st, w):
    """does the sequence consist of nodes? (an empty one may)"""
    for x in w.p:
        if x[0] == "E":
            return is_node(x[1])
        rec = st.g.get(("B", x[1]))
        return rec is not None and not rec.elem
    return True


class Lift:
    def __init__(self, tree):
        self.tree = tree
        self.mem = {}

    def __call__(self, eng, plan, hs, keep, edgesA):
        cells = {}
        for c in keep:
            t = tree_cell(eng, c, [plan.st0] + edgesA)
            if t is not None:
                cells.setdefault(t, []).append(c)
        cs = sorted(cells, key=repr)
        info = self.mem.get(id(plan))
        if info is None or info["cells"] != cs:
            info = {"cells": cs, "plan": plan, "noempty": set(), "notele": set(), "notne": set(), "notcmp": set()}
            if cs:
                info["cands"] = equations(eng, plan.st0, edgesA, cs)
                info["shapes"] = {c: shape_cands(eng, c, plan.st0, edgesA) for c in cs}
                info["pick"] = {c: 0 for c in cs}
            self.mem[id(plan)] = info
        done = set()
        if cs:
            if not info["cands"]:
                if DEBUG:
                    for e in edgesA:
                        print("EDGE", e.facts)
                        for c in cs:
                            try:
                                print("   ", cell_name(c), "was", full(e, content(e, eng.read(plan.st0, *c))), "is", full(e, content(e, eng.read(e, *c))))
                            except (NeedSplit, Stuck) as x:
                                print("   ", cell_name(c), type(x).__name__, x)
                raise Stuck("no order of %s is conserved by the loop" % ", ".join(map(cell_name, cs)))
            order = info["cands"][0]
            sh = {}
            for c in cs:
                if info["pick"][c] >= len(info["shapes"][c]):
                    raise Stuck("levels of %s change irregularly" % cell_name(c))
                sh[c] = info["shapes"][c][info["pick"][c]]
            lift(eng, hs, plan.st0, order, sh, plan.k)
            for c in cs:
                for end in (0, 1):
                    if (c, end) in info["notne"]:
                        continue
                    if not all(self.ne_ok(eng, e, c, end) for e in edgesA):
                        info["notne"].add((c, end))
                        continue
                    v = eng.read(hs, *c)
                    X = v.p[0][1]
                    n = base(hs, X).n
                    if end:
                        hs.have(c_le(pre(hs, X, n - 1, True) + 1, base(hs, X).tot))
                    else:
                        hs.have(c_le(const(1), pre(hs, X, const(1), True)))
                    settle(hs, X)
            for c in cs:
                done |= set(cells[c])
                for x in cells[c]:
                    plan.fresh_of[x] = None
        self.counters(eng, plan, hs, [c for c in keep if c not in done], edgesA, info, done)
        return done

    # -- counters: sums over a prefix, and empty prefixes
    def counters(self, eng, plan, hs, ints, edgesA, info, done):
        reg, irr = [], []
        for c in ints:
            try:
                v0 = eng.read(plan.st0, *c)
                vs = [eng.read(e, *c) for e in edgesA]
            except Stuck:
                continue
            if not isinstance(v0, Int) or not all(isinstance(v, Int) for v in vs):
                continue
            ds = {absint.const_of(e, v.l - v0.l) for e, v in zip(edgesA, vs)}
            d = ds.pop() if len(ds) == 1 else None
            if d is None:
                irr.append((c, v0.l))
            elif d:
                reg.append((v0.l, d))
        reg = list(dict.fromkeys(reg))
        words = {}
        for r, v in hs.mem.items():
            collect_bases(v, words)
        bases = [X for X in words if hs.g.get(("B", X)) is not None and base(hs, X).elem is False or
                 hs.g.get(("B", X)) is not None and X[0] == "b" and base(hs, X).elem is not True]
        bases = [X for X in bases if not base(hs, X).n.is_const()]
        k = plan.k
        info["tele"] = []
        for c, a0 in irr:
            for X, (e0, d), sg in itertools.product(bases, reg, (1, -1)):
                t = (c, X, e0, d, sg)
                if t in info["notele"]:
                    continue
                if ("B", X) not in plan.st0.g or not all(self.tele_ok(eng, plan, e, t, a0, const(1)) for e in edgesA):
                    info["notele"].add(t)
                    continue
                val = a0 + (pre(hs, X, e0 + k.scale(d), True) - pre(hs, X, e0, True)).scale(sg)
                eng.write(hs, c[0], c[1], Int(val))
                plan.fresh_of[c] = Int(val)
                done.add(c)
                info["tele"].append((t, a0))
                break
        # how the sums compare with what does not change
        changed = set(ints)
        others = [(r, ()) for r, v in sorted(plan.st0.mem.items(), key=lambda kv: repr(kv[0]))
                  if r[0] == "L" and r[1] == plan.fr.fid and isinstance(v, Int) and (r, ()) not in changed][:10]
        info["comps"] = []
        for (c, *_), a0 in info["tele"]:
            for o in others:
                for lt in (False, True):
                    t = (c, o, lt)
                    if t in info["notcmp"] or not all(self.cmp_ok(eng, e, t) for e in edgesA):
                        info["notcmp"].add(t)
                        continue
                    hs.have(self.cmp_cond(eng, hs, t))
                    info["comps"].append(t)
        info["empty"] = []
        # what is empty at the head: the first few nodes of a sequence
        where = info.get("where")
        if where is None:
            where = info["where"] = node_seqs(eng, plan.st0)
        for w in where:
            for e0, d in reg:
                for off in (0, 1, -1):
                    t = (w, e0, d, off)
                    if t in info["noempty"]:
                        continue
                    if not all(self.empty_ok(eng, e, t, const(1)) for e in edgesA):
                        info["noempty"].add(t)
                        continue
                    v = eng.read(hs, *w)
                    at = e0 + k.scale(d) + off
                    if len(v.p) == 1 and v.p[0][0] == "S" and not v.p[0][4] and v.p[0][2] == const(0):
                        hs.have(c_eq(pre(hs, v.p[0][1], at, True), const(0)))
                        settle(hs, v.p[0][1])
                        info["empty"].append(t)

    def cmp_cond(self, eng, s, t):
        c, o, lt = t
        x, y = eng.read(s, *c), eng.read(s, *o)
        if not isinstance(x, Int) or not isinstance(y, Int):
            return ("F",)
        return c_lt(y.l, x.l) if lt else c_le(x.l, y.l)

    def cmp_ok(self, eng, e, t):
        settle(e)
        return e.facts.entails(self.cmp_cond(eng, e, t))

    def ne_ok(self, eng, e, c, end):
        """the first / last node of the sequence exists and is not empty"""
        def f(s):
            v = eng.read(s, *c)
            if not isinstance(v, Word) or not s.facts.entails(c_le(const(1), v.length())):
                return None
            x = eng.word_get(s, v, v.length() - 1 if end else const(0))
            if not is_node(x):
                return None
            n = size_of(s, x)
            settle(s)
            return True if s.facts.entails(c_le(const(1), n)) else None
        try:
            return under_splits(e, f, 12) is True
        except Stuck:
            return False

    def tele_ok(self, eng, plan, e, t, a0, kk):
        c, X, e0, d, sg = t

        def f(s):
            x = eng.read(s, *c)
            if not isinstance(x, Int):
                return None
            settle(s, X)
            want = a0 + (pre(s, X, e0 + kk.scale(d)) - pre(s, X, e0)).scale(sg)
            return True if s.facts.entails(c_eq(x.l, want)) else None
        try:
            return under_splits(e, f, 12) is True
        except Stuck:
            return False

    def empty_ok(self, eng, e, t, kk):
        w, e0, d, off = t

        def f(s):
            v = eng.read(s, *w)
            at = e0 + kk.scale(d) + off
            if s.facts.entails(c_lt(at, const(0))) or s.facts.entails(c_lt(v.length(), at)):
                return None
            if s.facts.entails(c_le(at, const(0))):
                return True
            x, y = eng.word_cut(s, v, at)
            n = size_of(s, x)
            settle(s)
            return True if s.facts.entails(c_eq(n, const(0))) else None
        try:
            return under_splits(e, f, 12) is True
        except Stuck:
            return False

    def check(self, eng, plan, hs, edgesA, edges):
        info = self.mem.get(id(plan))
        if info is None:
            return False
        edges = [e for e in edges if e.facts.consistent()]
        changed = []
        for t, a0 in info.get("tele", ()):
            if not all(self.tele_ok(eng, plan, e, t, a0, plan.k + 1) for e in edges):
                info["notele"].add(t)
                changed.append(("tele", t))
        for t in info.get("comps", ()):
            if not all(self.cmp_ok(eng, e, t) for e in edges):
                info["notcmp"].add(t)
                changed.append(("compare", t))
        for t in info.get("empty", ()):
            if not all(self.empty_ok(eng, e, t, plan.k + 1) for e in edges):
                info["noempty"].add(t)
                changed.append(("empty", t))
        for c in info["cells"]:
            for end in (0, 1):
                if (c, end) not in info["notne"] and not all(self.ne_ok(eng, e, c, end) for e in edges):
                    info["notne"].add((c, end))
                    changed.append(("ne", c, end))
        if info["cells"]:
            order = info["cands"][0]
            K = total(eng, hs, order)
            if any(under_splits(e, lambda s: settle(s) or same_content(s, total(eng, s, order), K) or None) is not True for e in edges):
                if DEBUG:
                    print("  order", [(cell_name(c), r) for c, r in order], len(info["cands"]))
                info["cands"].pop(0)
                changed.append("order")
            for c in info["cells"]:
                sh = info["shapes"][c][info["pick"][c]]
                for e, first in [(x, True) for x in edgesA] + [(x, False) for x in edges]:
                    kk = const(1) if first else plan.k + 1
                    if under_splits(e, lambda s: fits(eng, s, c, sh, kk) or None) is not True:
                        info["pick"][c] += 1
                        changed.append(("shape", c))
                        break
        if DEBUG and changed:
            print("  refined", plan.lp.head, changed)
        return bool(changed)


def collect_bases(v, out):
    if isinstance(v, Word):
        for x in v.p:
            if x[0] == "S":
                out[x[1]] = True
            elif x[0] == "E":
                collect_bases(x[1], out)
    elif isinstance(v, Obj):
        for x in v.f.values():
            collect_bases(x, out)


def node_seqs(eng, st):
    """places that hold a sequence of nodes"""
    out = []

    def walk(v, root, path):
        if isinstance(v, Word):
            if v.p and node_word(st, v):
                out.append((root, path))
        elif isinstance(v, Obj) and not is_node(v):
            for i, x in v.f.items():
                walk(x, root, path + (("f", i),))
    for r, v in st.mem.items():
        walk(v, r, ())
    return sorted(out, key=repr)


def cell_name(c):
    return "%s%s" % (absint.show(c[0]), "".join("." + absint.show(x) for x in c[1]))


def total(eng, st, order):
    out = []
    for c, rev in order:
        out += content(st, eng.read(st, *c), rev)
    return out


def orders(eng, st0, cs):
    """orders and directions in which the cells could follow each other, the likely ones first"""
    vs = {c: eng.read(st0, *c) for c in cs}
    dirs = [((False,) if is_node(vs[c]) else (False, True)) for c in cs]
    # a spine runs towards the root or away from it: try the orders first in which a node is where the levels lead
    trend = {}
    for c in cs:
        if not is_node(vs[c]):
            t = [-rec.b if x[4] else rec.b for x in vs[c].p if x[0] == "S" for rec in [base(st0, x[1])] if rec.b and not x[3] - x[2] == const(1)]
            trend[c] = t[0] if t else 0

    def odd_places(order):
        n = 0
        for i, (c, d) in enumerate(order):
            t = trend.get(c, 0) * (-1 if d else 1)
            j = i + t
            if t and not (0 <= j < len(order) and is_node(vs[order[j][0]])):
                n += 1
        return n
    tries = [[(cs[i], d) for i, d in zip(perm, ds)] for perm in itertools.permutations(range(len(cs))) for ds in itertools.product(*[dirs[i] for i in perm])]
    tries.sort(key=odd_places)
    return tries


def equations(eng, st0, edges, cs):
    """orders (with direction) in which the concatenation of the cells is what it was before the loop, on every first edge"""
    tries = orders(eng, st0, cs)
    out = []
    for order in tries:
        if len(out) > 6:
            break
        try:
            if any(x[0] == "odd" for x in total(eng, st0.copy(), order)):
                continue
        except NeedSplit:
            continue
        if all(under_splits(e, lambda s: settle(s) or same_content(s, total(eng, s, order), total_in(eng, st0, s, order)) or None) is True for e in edges):
            out.append(order)
    return out


def total_in(eng, st0, s, order):
    """the contents the cells had in st0, evaluated with the facts of s (which continues st0)"""
    out = []
    for c, rev in order:
        out += content(s, eng.read(st0, *c), rev)
    return out


def node_levels(st, v):
    """[(position, level, count)] of a sequence of nodes"""
    out = []
    pos = const(0)
    for x in v.p:
        if x[0] == "E":
            out.append((pos, x[1].f["lv"].l, 0, const(1)))
            pos = pos + 1
        else:
            rec = base(st, x[1])
            n = x[3] - x[2]
            if x[4]:
                out.append((pos, rec.level(x[3] - 1), -rec.b, n))
            else:
                out.append((pos, rec.level(x[2]), rec.b, n))
            pos = pos + n
    return out


def shape_cands(eng, c, st0, edges):
    """possible descriptions of a cell at the k-th iteration"""
    v0 = eng.read(st0, *c)
    vs = [eng.read(e, *c) for e in edges]
    if is_node(v0):
        if not vs or not all(is_node(v) for v in vs):
            return []
        l0, l1 = v0.f["lv"].l, vs[0].f["lv"].l
        if not all(e.facts.entails(c_eq(l1, v.f["lv"].l)) for e, v in zip(edges, vs)):
            return []
        d = absint.const_of(edges[0], l1 - l0)
        out = [] if d is None else [("node", l0, d)]
        return out + [("node", l1 - x, x) for x in (0, -1, 1) if ("node", l1 - x, x) not in out]
    if not isinstance(v0, Word) or not all(isinstance(v, Word) for v in vs):
        return []
    ds = {absint.const_of(e, v.length() - v0.length()) for e, v in zip(edges, vs)}
    d = ds.pop() if len(ds) == 1 else None
    cands = []
    for s, w in [(st0, v0)] + list(zip(edges, vs)):
        for pos, lv, b, n in node_levels(s, w):
            for bb in ([b] if b and not n == const(1) else [b, 1, -1, 0] if b else [1, -1, 0]):
                x = (lv - pos.scale(bb), bb)
                if x not in cands:
                    cands.append(x)
    if not cands:
        cands = [(const(0), 1)]
    return [("vec", v0.length(), d, a, b) for a, b in cands]


def lift(eng, hs, st0, order, sh, k):
    ps = total(eng, hs, order)
    line, off, tot = define_line(hs, ps)
    pos = const(0)
    parts = []
    for j, (c, rev) in enumerate(order):
        if j == len(order) - 1:
            t = tot - pos
        else:
            t = atom(("tot", line, fresh_id(hs), j))
        parts.append((c, rev, pos, t))
        pos = pos + t
    for c, rev, p, t in parts:
        hs.have(c_le(const(0), t))
    vals = {}
    for c, rev, p, t in parts:
        s = sh[c]
        if s[0] == "node":
            lv = s[1] + k.scale(s[2])
            X = new_base(hs, "lift", n=const(1), line=line, off=off + p, tot=t, a=lv, ne="any")
            v = ("node", X)
        else:
            n = s[1] + k.scale(s[2]) if s[2] is not None else atom(("wl", cell_name(c), fresh_id(hs)))
            X = new_base(hs, "lift", n=n, line=line, off=off + p, tot=t, a=s[3], b=s[4], ori="r" if rev else "f", ne="any")
            v = Word([("S", X, const(0), n, False)])
        vals[c] = v
    for c, v in vals.items():
        # a node stays folded until something looks at it
        eng.write(hs, c[0], c[1], v if isinstance(v, Word) else lazy_node(hs, v[1]))


def lazy_node(st, X):
    rec = base(st, X)
    n = make_children(st, X, const(0), rec.a, rec.off, rec.tot, rec)
    st.g[("O", X)] = (const(0),)
    return NODE(Word([("S", ("ch", X, const(0)), const(0), n, False)]), rec.a)


def fits(eng, s, c, sh, k):
    v = eng.read(s, *c)
    ent = s.facts.entails
    if sh[0] == "node":
        return is_node(v) and ent(c_eq(v.f["lv"].l, sh[1] + k.scale(sh[2])))
    if not isinstance(v, Word):
        return False
    if sh[2] is not None and not ent(c_eq(v.length(), sh[1] + k.scale(sh[2]))):
        return False
    for pos, lv, b, n in node_levels(s, v):
        if ent(c_le(n, const(0))):
            continue
        if not ent(c_eq(lv, sh[3] + pos.scale(sh[4]))):
            return False
        if b != sh[4] and not ent(c_le(n, const(1))):
            return False
    return True
