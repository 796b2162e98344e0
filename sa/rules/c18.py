"""C18: cursors.  Read and write cursors are analysed over the tree: an arbitrary vector (or forest of borrowed nodes), an
arbitrary position of the cursor inside it, an unknown index."""
from facts import Prog, loc_of
from absint import *
import absint
from contracts import *
import lin
import multiprocessing
import time
import tree
from rules import c02
from rules.c02 import V, build, vcontent, fields, side_val, SIDES, TreeLab, witnessed, same_content, content, clen, settle
from tree import Tree, new_base, NODE

FOCUS, PARTIAL, INNER, FMUT = "focus::Focus", "focus::PartialFocus", "focus::InnerFocusMut", "focus::FocusMut"
NEED = {FOCUS: ("tree", "spine_position", "spine_node_focus", "focus_range", "range"), PARTIAL: ("path", "leaf", "leaf_range"),
        INNER: ("nodes", "len", "root", "path", "leaf", "leaf_range", "borrowed_nodes")}
VREF = Ref(("*", ("vec", "A")))
CREF = Ref(("*", "cur"))


class Layout:
    def __init__(self, p):
        self.f = {}
        for t, need in NEED.items():
            a = next((a for k, a in p.adts.items() if a.get("path", k) == t), None)
            if a is None:
                continue
            names = [x["name"] for x in a["variants"][0]["fields"]]
            if all(n in names for n in need):
                self.f[t] = {n: names.index(n) for n in names}
        a = next((a for k, a in p.adts.items() if a.get("path", k) == FMUT), None)
        self.fm = None
        if a is not None:
            vs = a["variants"]
            r = next((i for i, v in enumerate(vs) if v["name"] == "Rooted"), None)
            if r is not None and "focus" in [x["name"] for x in vs[r]["fields"]]:
                self.fm = (r, [x["name"] for x in vs[r]["fields"]])

    def obj(self, t, **kw):
        return Obj(t, None, {self.f[t][n]: v for n, v in kw.items()})

    def get(self, o, t, n):
        if not isinstance(o, Obj) or o.tag != t:
            raise Stuck("%s expected: %r" % (t, o))
        return o.f[self.f[t][n]]


def rng(a, b):
    return Obj("Range", None, {0: Int(a), 1: Int(b)})


def ends(run, st, v):
    v = models.ld(run.eng, st, v)
    lo, hi = models.range_parts(run.eng, st, v)
    return lo, hi


def size(st, n):
    s = tree.size_of(st, n)
    settle(st)
    return s


def positions(h):
    return [("Front", i) for i in range(h)] + [None] + [("Back", i) for i in reversed(range(h))]


def spine_node(run, st, v, F, pos):
    if pos is None:
        return v.f[F["root"]]
    return run.eng.word_get(st, v.f[F["left_spine" if pos[0] == "Front" else "right_spine"]], const(pos[1]))


def start_of(run, st, v, F, h, pos):
    acc = const(0)
    for q in positions(h):
        if q == pos:
            return acc
        acc = acc + size(st, spine_node(run, st, v, F, q))


def chain(run, st, n, lv, base=None):
    """an arbitrary way down from node n: [(node, lo, hi)] including n and the leaf, ranges relative to n"""
    acc = base if base is not None else const(0)
    out = [(n, acc, acc + size(st, n))]
    x = n
    for d in range(lv):
        k = x.f["c"].length()
        j = atom(("way", d))
        st.have(c_le(const(0), j))
        st.have(c_lt(j, k))
        p = x.f["c"].p
        if len(p) != 1 or p[0][0] != "S":
            raise Stuck("children %r" % (x,))
        X, lo = p[0][1], p[0][2]
        a = tree.pre(st, X, lo + j) - tree.pre(st, X, lo)
        y = run.eng.word_get(st, x.f["c"], j)
        acc = acc + a
        out.append((y, acc, acc + size(st, y)))
        x = y
    settle(st)
    return out


def entry(n, lo, hi):
    return ("E", tup(n, rng(lo, hi)))


def partial(run, st, L, n, lv):
    c = chain(run, st, n, lv)
    leaf = c[-1]
    return L.obj(PARTIAL, path=Word([entry(*x) for x in c[:-1]]), leaf=leaf[0], leaf_range=rng(leaf[1], leaf[2]))


def sub(st, ps, lo, hi):
    """the part [lo, hi) of a sequence"""
    line, off, tot = tree.define_line(st, ps)
    return [("I", line, off + lo, off + hi)]


def same(run, st, name, got, want, text):
    r = same_content(st, got, want)
    if r is None:
        raise Stuck("contents cannot be compared")
    run.oblige(st, name, ("T",) if r else ("F",), text)


def check_chain(run, st, n, ws, leaf, whole, name="way down", base=None):
    """every entry (node, lo, hi) of a way down from node n holds exactly the positions lo..hi of n, one level deeper each"""
    lv = n.f["lv"].l
    prev = None
    b = base if base is not None else const(0)
    for i, (x, lo, hi) in enumerate(ws):
        run.oblige(st, name, c_eq(x.f["lv"].l, lv - i - (0 if whole else 1)), "node %d on the way down has level %r under a level %r node" % (i, x.f["lv"].l, lv))
        same(run, st, name, content(st, x), sub(st, content(st, n), lo - b, hi - b), "node %d on the way down is said to hold %r..%r but holds other positions" % (i, lo, hi))
        if prev is not None:
            run.oblige(st, name, ("and", c_le(prev[0], lo), c_le(hi, prev[1])), "node %d on the way down reaches outside the one above" % i)
        prev = (lo, hi)
    if leaf is not None:
        run.oblige(st, name, c_eq(leaf[0].f["lv"].l, const(0)), "the leaf has level %r" % (leaf[0].f["lv"].l,))
        same(run, st, name, content(st, leaf[0]), sub(st, content(st, n), leaf[1] - b, leaf[2] - b), "the leaf is said to hold %r..%r but holds other positions" % (leaf[1], leaf[2]))


def entries(run, st, w):
    out = []
    for x in w.p:
        if x[0] != "E":
            raise Stuck("path %r" % (w,))
        n, r = run.eng.payload(st, x[1], 0), run.eng.payload(st, x[1], 1)
        if not tree.is_node(n):
            raise Stuck("path %r" % (w,))
        lo, hi = ends(run, st, r)
        out.append((n, lo, hi))
    return out


def check_focus(run, st, L, F, h, f, want):
    """a read cursor that is fit for use and covers the positions want = (lo, hi) of the vector"""
    eng = run.eng
    t = L.get(f, FOCUS, "tree")
    while isinstance(t, Ref) and t != VREF:
        t = eng.load(st, t)
    run.oblige(st, "part", t == VREF, "the cursor is over another vector")
    lo, hi = ends(run, st, L.get(f, FOCUS, "range"))
    if decide(st, c_le(want[1], want[0])):
        run.oblige(st, "part", c_eq(lo, hi), "an empty part becomes %r..%r" % (lo, hi))
        return
    run.oblige(st, "part", ("and", c_eq(lo, want[0]), c_eq(hi, want[1])), "the cursor covers %r..%r instead of %r..%r" % (lo, hi, want[0], want[1]))
    v = eng.read(st, VREF.root, ())
    sp = L.get(f, FOCUS, "spine_position")
    if eng.variant(st, sp, 2) == 0:
        pos = None
    else:
        pr = eng.payload(st, sp, 0)
        sd, i = eng.payload(st, pr, 0), eng.payload(st, pr, 1)
        if not isinstance(sd, Obj) or sd.var is None or not isinstance(i, Int) or not i.l.is_const():
            raise Stuck("position %r" % (sp,))
        pos = (SIDES[sd.var], i.l.c)
    n = spine_node(run, st, v, F, pos)
    a = start_of(run, st, v, F, h, pos)
    s = size(st, n)
    flo, fhi = ends(run, st, L.get(f, FOCUS, "focus_range"))
    run.oblige(st, "way down", ("and", c_eq(flo, a), c_eq(fhi, a + s)), "the node of the cursor holds %r..%r but the cursor says %r..%r" % (a, a + s, flo, fhi))
    pf = L.get(f, FOCUS, "spine_node_focus")
    ws = entries(run, st, L.get(pf, PARTIAL, "path"))
    leaf = L.get(pf, PARTIAL, "leaf")
    llo, lhi = ends(run, st, L.get(pf, PARTIAL, "leaf_range"))
    run.oblige(st, "way down", c_eq(const(len(ws)), n.f["lv"].l), "%d nodes on the way down from level %r" % (len(ws), n.f["lv"].l))
    if ws:
        run.oblige(st, "way down", ("and", c_eq(ws[0][1], const(0)), c_eq(ws[0][2], s)), "the way down begins with %r..%r of %r positions" % (ws[0][1], ws[0][2], s))
    check_chain(run, st, n, ws, (leaf, llo, lhi), True)


def same_ref(run, st, r, ps, i, nm):
    """does the answer designate element i of the sequence?"""
    want = tree.full(st, sub(st, ps, i, i + 1))
    while isinstance(r, Ref) and not (r.root[0] == "*" and isinstance(r.root[1], tuple) and r.root[1][0] == "ELEM"):
        r = run.eng.load(st, r)
    if not isinstance(r, Ref):
        raise Stuck("%s answers %r" % (nm, r))
    got = tree.full(st, [("I", r.root[1][1], r.path[0][1], r.path[0][1] + 1)])
    if len(got) != 1 or len(want) != 1 or got[0][0] != "I" or want[0][0] != "I":
        raise Stuck("%s answers %r" % (nm, r))
    ok = got[0][1] == want[0][1]
    run.oblige(st, "position", c_eq(got[0][2], want[0][2]) if ok else ("F",), "%s(%r) answers the element at %r instead of %r" % (nm, i, got[0][2], want[0][2]))


def opening(run):
    """the state a judgement starts from, in one of the cases its setup distinguishes"""
    st = St()
    for c in run.case:
        st.have(c)
    return st


# ---------------------------------------------------------------- read cursors
def focus_setup(lab, key, L, F, nm, h, pos):
    p = lab.p

    def setup(run):
        witnessed(run)
        t = Tree(run)
        run.eng.max_peel = 2 * h + 3
        st = opening(run)
        v = build(run, st, "A", F, const(h), bare=None)
        st.mem[VREF.root] = v
        n = clen(vcontent(run, st, v, F))
        settle(st)
        i = atom("i")
        st.have(c_le(const(0), i))
        old = vcontent(run, st, v, F)

        def untouched(st):
            same(run, st, "unchanged", vcontent(run, st, run.eng.read(st, VREF.root, ()), F), old, "the vector changes")
        if nm == "new":
            return [VREF], st, lambda run, st, f: (settle(st), check_focus(run, st, L, F, h, f, (const(0), n)), untouched(st))
        if nm == "focus":
            return [VREF], st, lambda run, st, f: (settle(st), check_focus(run, st, L, F, h, f, (const(0), n)), untouched(st))
        if nm == "narrowed_tree":
            a, b = atom("a"), atom("b")
            st.have(c_le(const(0), a))
            st.have(c_le(const(0), b))

            def post(run, st, f):
                settle(st)
                check_focus(run, st, L, F, h, f, (a, b) if decide(st, c_le(b, n)) else (a, n))
                untouched(st)
            return [VREF, rng(a, b)], st, post
        N = spine_node(run, st, v, F, pos)
        s = size(st, N)
        st.have(c_le(const(1), s))
        a0 = start_of(run, st, v, F, h, pos)
        r0, r1 = atom("r0"), atom("r1")
        st.have(c_le(const(0), r0))
        st.have(c_le(r0, r1))
        st.have(c_le(r1, n))
        sp = NONE if pos is None else some(tup(side_val(p, pos[0]), Int(pos[1])))
        lv = h if pos is None else pos[1]
        pf = partial(run, st, L, N, lv)
        f = L.obj(FOCUS, tree=VREF, spine_position=sp, spine_node_focus=pf, focus_range=rng(a0, a0 + s), range=rng(r0, r1))
        st.mem[CREF.root] = f
        settle(st)
        if nm in ("get", "index"):
            run.may_panic = c_le(r1 - r0, i) if nm == "index" else ("F",)

            def post(run, st, v):
                settle(st)
                inside = decide(st, c_lt(i, r1 - r0))
                d = run.eng.variant(st, v, 2) if nm == "get" else 1
                run.oblige(st, "in range", (d == 1) == inside, "position %r of a cursor over %r..%r is %s" % (i, r0, r1, "answered" if d else "not answered"))
                if inside and d == 1:
                    same_ref(run, st, run.eng.payload(st, v, 0) if nm == "get" else v, old, r0 + i, nm)
                check_focus(run, st, L, F, h, run.eng.read(st, CREF.root, ()), (r0, r1))
                untouched(st)
            return [CREF, Int(i)], st, post
        if nm == "len":
            def post(run, st, v):
                run.oblige(st, "length", c_eq(v.l, r1 - r0), "a cursor over %r..%r has length %r" % (r0, r1, v.l))
            return [CREF], st, post
        if nm == "is_empty":
            def post(run, st, v):
                run.oblige(st, "length", c02.c_of(v, decide(st, c_eq(r0, r1))), "is_empty of a cursor over %r..%r" % (r0, r1))
            return [CREF], st, post
        if nm == "clone":
            return [CREF], st, lambda run, st, f: check_focus(run, st, L, F, h, f, (r0, r1))
        if nm == "split_at":
            run.may_panic = c_le(r1 - r0, i)

            def post(run, st, v):
                settle(st)
                x, y = run.eng.payload(st, v, 0), run.eng.payload(st, v, 1)
                if not decide(st, c_le(i, r1 - r0)):
                    for z, nm in ((x, "left"), (y, "right")):
                        lo, hi = ends(run, st, L.get(z, FOCUS, "range"))
                        if not decide(st, c_le(hi, lo)):
                            run.oblige(st, "part", ("and", c_le(r0, lo), c_le(hi, r1)), "a split of %r..%r at %r leaves the %s half %r..%r, which reaches outside" % (r0, r1, i, nm, lo, hi))
                    return
                check_focus(run, st, L, F, h, x, (r0, r0 + i))
                check_focus(run, st, L, F, h, y, (r0 + i, r1))
            return [f, Int(i)], st, post
        if nm.startswith("narrow/"):
            combo = nm.split("/")[1:]
            v, a, b = range_arg(run, st, combo, r1 - r0, inside=False)
            run.may_panic = ("or", c_lt(r1 - r0, b), c_lt(b, a))

            def post(run, st, _):
                settle(st)
                check_focus(run, st, L, F, h, run.eng.read(st, CREF.root, ()), (r0 + a, r0 + b))
            return [CREF, v], st, post
        raise Stuck(nm)
    return setup


# ---------------------------------------------------------------- write cursors
def forest(run, st, t, levels):
    """arbitrary borrowed nodes of the given levels, one after the other on one line"""
    out, off = [], const(0)
    for k, lv in enumerate(levels):
        s = atom(("t", k))
        st.have(c_le(const(1), s))
        X = new_base(st, "N%d" % k, n=const(1), line=("forest",), off=off, tot=s, a=const(lv), cap="any", ne="all")
        out.append(tree.lazy_node(st, X))
        off = off + s
    settle(st)
    return out, off


def unbox(run, st, x):
    """the node inside a borrowed node"""
    if isinstance(x, Obj) and x.tag.endswith("BorrowedNode") and x.var is not None:
        n = x.f.get(0)
        if tree.is_node(n):
            return n
    raise Stuck("borrowed node %r" % (x,))


def nodes_of(run, st, w):
    if not isinstance(w, Word):
        raise Stuck("nodes %r" % (w,))
    out = []
    for x in w.p:
        if x[0] != "E":
            raise Stuck("nodes %r" % (w,))
        out.append(unbox(run, st, x[1]))
    return out


def check_inner(run, st, L, f, want, what="the cursor"):
    """a write cursor fit for use over exactly the sequence want"""
    eng = run.eng
    ns = nodes_of(run, st, L.get(f, INNER, "nodes"))
    got = [y for n in ns for y in content(st, n)]
    same(run, st, "part", got, want, "%s holds other elements than its part" % what)
    n = L.get(f, INNER, "len")
    run.oblige(st, "length", c_eq(n.l, clen(want)), "%s says it has %r positions instead of %r" % (what, n.l, clen(want)))
    for k, x in enumerate(ns):
        run.oblige(st, "no empty node", c_le(const(1), size(st, x)), "%s holds an empty node" % what)
    root = L.get(f, INNER, "root")
    ws = entries(run, st, L.get(f, INNER, "path"))
    leaf = L.get(f, INNER, "leaf")
    llo, lhi = ends(run, st, L.get(f, INNER, "leaf_range"))
    haveleaf = eng.variant(st, leaf, 2) == 1
    if eng.variant(st, root, 2) == 0:
        run.oblige(st, "way down", not ws and not haveleaf, "%s has a way down without a root" % what)
        run.oblige(st, "way down", c_le(lhi, llo), "%s has a leaf range without a root" % what)
        return
    pr = eng.payload(st, root, 0)
    i = eng.payload(st, pr, 0)
    if not isinstance(i, Int) or not i.l.is_const() or not 0 <= i.l.c < len(ns):
        raise Stuck("root %r" % (root,))
    lo, hi = ends(run, st, eng.payload(st, pr, 1))
    a = const(0)
    for x in ns[:i.l.c]:
        a = a + size(st, x)
    r = ns[i.l.c]
    s = size(st, r)
    run.oblige(st, "way down", ("and", c_eq(lo, a), c_eq(hi, a + s)), "%s: the root holds %r..%r but %r..%r is said" % (what, a, a + s, lo, hi))
    lv = r.f["lv"].l
    if decide(st, c_eq(lv, const(0))):
        run.oblige(st, "way down", not ws and not haveleaf, "%s has a way down from a leaf" % what)
        run.oblige(st, "way down", ("or", c_le(lhi, llo), ("and", c_eq(llo, a), c_eq(lhi, a + s))), "%s: the leaf range is %r..%r instead of %r..%r" % (what, llo, lhi, a, a + s))
        return
    if not haveleaf:
        run.oblige(st, "way down", c_le(lhi, llo), "%s has the leaf range %r..%r but no leaf" % (what, llo, lhi))
        check_chain(run, st, r, ws, None, False, base=a)
        return
    run.oblige(st, "way down", c_eq(const(len(ws)), lv - 1), "%s: %d nodes between the root of level %r and the leaf" % (what, len(ws), lv))
    check_chain(run, st, r, ws, (eng.payload(st, leaf, 0), llo, lhi), False, base=a)


def inner_value(run, st, t, L, levels, at):
    ns, tot = forest(run, st, t, levels)
    root, path, leaf, lr = NONE, Word(), NONE, rng(const(0), const(0))
    if at is not None:
        a = const(0)
        for x in ns[:at]:
            a = a + size(st, x)
        n = ns[at]
        root = some(tup(Int(at), rng(a, a + size(st, n))))
        c = chain(run, st, n, levels[at], a)
        path = Word([entry(*x) for x in c[1:-1]])
        if len(c) > 1:
            leaf = some(c[-1][0])
        lr = rng(c[-1][1], c[-1][2])
    w = Word([("E", t.wrap(st, "BorrowedNode", n)) for n in ns])
    f = L.obj(INNER, nodes=w, len=Int(tot), root=root, path=path, leaf=leaf, leaf_range=lr, borrowed_nodes=Word())
    ps = [y for n in ns for y in content(st, n)]
    return f, ps, tot


def inner_setup(lab, key, L, F, nm, levels, at, rooted=False):
    def setup(run):
        witnessed(run)
        t = Tree(run)
        st = opening(run)
        f, ps, tot = inner_value(run, st, t, L, levels, at)
        cell = CREF
        if rooted:
            var, names = L.fm
            x = Obj(FMUT, var, {names.index(n): f if n == "focus" else Sym(("fm", n)) for n in names})
            st.mem[CREF.root] = x
        else:
            st.mem[CREF.root] = f

        def now(st):
            x = run.eng.read(st, CREF.root, ())
            return x.f[L.fm[1].index("focus")] if rooted else x

        def inner(st, x):
            n = 0
            while isinstance(x, Obj) and x.tag == FMUT and n < 2:
                x = next(y for y in x.f.values() if isinstance(y, Obj) and y.tag == INNER)
                n += 1
            return x
        i = atom("i")
        st.have(c_le(const(0), i))
        settle(st)
        if nm in ("get", "index"):
            run.may_panic = c_le(tot, i) if nm == "index" else ("F",)

            def post(run, st, v):
                settle(st)
                inside = decide(st, c_lt(i, tot))
                d = run.eng.variant(st, v, 2) if nm == "get" else 1
                run.oblige(st, "in range", (d == 1) == inside, "position %r of a cursor of length %r is %s" % (i, tot, "answered" if d else "not answered"))
                if inside and d == 1:
                    same_ref(run, st, run.eng.payload(st, v, 0) if nm == "get" else v, ps, i, nm)
                check_inner(run, st, L, now(st), ps)
            return [cell, Int(i)], st, post
        if nm == "len":
            return [cell], st, lambda run, st, v: run.oblige(st, "length", c_eq(v.l, tot), "a cursor over %r positions has length %r" % (tot, v.l))
        if nm == "is_empty":
            return [cell], st, lambda run, st, v: run.oblige(st, "length", c02.c_of(v, False), "a cursor over %r positions is empty" % (tot,))
        if nm == "split_at":
            run.may_panic = c_lt(tot, i)

            def post(run, st, v):
                settle(st)
                x, y = (inner(st, run.eng.payload(st, v, k)) for k in (0, 1))
                whole = lambda z: [u for n in nodes_of(run, st, L.get(z, INNER, "nodes")) for u in content(st, n)]
                a, b = whole(x), whole(y)
                same(run, st, "halves", a + b, ps, "the halves together do not hold the elements of the cursor in order")
                if not decide(st, c_le(i, tot)):
                    return
                run.oblige(st, "halves", c_eq(clen(a), i), "the left half of a split at %r has %r positions" % (i, clen(a)))
                check_inner(run, st, L, x, a, "the left half")
                check_inner(run, st, L, y, b, "the right half")
            return [cell, Int(i)], st, post
        raise Stuck(nm)
    return setup


def from_vec_setup(lab, key, L, F, nm, h):
    """focus_mut over an arbitrary vector"""
    def setup(run):
        witnessed(run)
        Tree(run)
        run.eng.max_peel = 2 * h + 3
        st = opening(run)
        v = build(run, st, "A", F, const(h))
        st.mem[VREF.root] = v
        old = vcontent(run, st, v, F)

        def post(run, st, v):
            settle(st)
            f = v
            n = 0
            while isinstance(f, Obj) and f.tag == FMUT and n < 2:
                f = next(y for y in f.f.values() if isinstance(y, Obj) and y.tag == INNER)
                n += 1
            check_inner(run, st, L, f, old)
            same(run, st, "unchanged", vcontent(run, st, run.eng.read(st, VREF.root, ()), F), old, "the vector changes")
        return [VREF], st, post
    return setup


SHARED = None
SECONDS = 120
LIMIT = 60000


def task(job):
    kind, nm, a, b, c = job
    p, F, L = SHARED
    lab = TreeLab(p, None, max_states=LIMIT, phases=1)
    lab.only = None
    lab.bare, lab.h2 = {}, 0
    owner, fn = OWNER[kind], nm.split("/")[0]
    k = lab.key(owner, fn) if fn != "clone" else lab.key(owner, fn, "Clone") or lab.key(owner, fn)
    mk = {"focus": lambda: focus_setup(lab, k, L, F, nm, a, b), "inner": lambda: inner_setup(lab, k, L, F, nm, a, b),
          "fmut": lambda: inner_setup(lab, k, L, F, nm, a, b, True), "vec": lambda: from_vec_setup(lab, k, L, F, nm, a),
          "vfocus": lambda: focus_setup(lab, k, L, F, nm, a, b)}[kind]()

    t0 = time.time()
    out = dict(error=None, rets=0, states=0, log=[], panics=[], unknown=[], t=0)
    todo, nothing = [()], []
    while todo and not out["error"]:
        case = todo.pop()

        def setup(run):
            run.may_panic = ("F",)
            run.case = case
            run.eng.deadline = t0 + SECONDS
            try:
                args, st, post = mk(run)
                if not st.facts.feasible():
                    nothing.append(case)
                    raise Stuck("no such case")
                return args, st, post
            except NeedSplit as e:
                todo.extend(case + (c,) for c in e.alts)
                raise Stuck("cases")
        before = len(todo) + len(nothing)
        run = lab.one_run(k, setup, "under", 1)
        if len(todo) + len(nothing) > before:
            continue
        out["rets"] += len(run.rets or ())
        out["states"] += run.eng.nstates
        out["log"] += [(n, v, t[:500], loc_of(sp) if sp else loc_of(p.bodies[k]["span"]), ta) for n, v, t, sp, ta in run.eng.log]
        for st, why, span in run.eng.panics:
            st = st.assume(lin.negate(run.may_panic)) if run.may_panic != ("F",) else st
            if st is not None and st.facts.feasible():
                sure = not st.taint and tree.find_model(st.facts) is not None
                out["panics"].append((why, loc_of(span) if isinstance(span, str) and span else loc_of(p.bodies[k]["span"]), sure))
        out["error"] = run.error or ("a loop does not end within the bound" if run.eng.cuts else None)
        out["unknown"] += sorted(map(str, run.eng.unknown))[:3]
    out["t"] = round(time.time() - t0, 2)
    return out


OWNER = {"focus": FOCUS, "inner": INNER, "fmut": FMUT, "vec": V, "vfocus": V}
DEEP = 3


def jobs_for(prop="C18"):
    """(kind, operation, height or levels, where the cursor stands, -), the long ones first"""
    out = []
    for h in reversed(range(3)):
        for pos in positions(h):
            out.append(("focus", "get", h, pos, None))
            if h < 2:
                out.append(("focus", "index", h, pos, None))
    shapes = [(a, b) for a in (2, 1, 0) for b in (2, 1, 0)] + [(a,) for a in (2, 1, 0)] + [(a, b, c) for a in (1, 0) for b in (2, 1, 0) for c in (1, 0)]
    for s in sorted(shapes, key=lambda s: -sum(s)):
        for at in [None] + list(range(len(s))):
            if at in (None, 0):
                out.append(("inner", "split_at", s, at, None))
            out.append(("inner", "get", s, at, None))
    out += [("inner", "get", (DEEP,), None, None), ("inner", "split_at", (DEEP,), None, None)]
    for s in [(2, 1), (1, 0), (0,)]:
        for at in (0, None):
            for nm in ("split_at", "get", "index", "len", "is_empty"):
                out.append(("fmut", nm, s, at, None))
            out.append(("inner", "len", s, at, None))
            out.append(("inner", "is_empty", s, at, None))
    for h in reversed(range(DEEP + 1)):
        for nm in ("new", "narrowed_tree"):
            out.append(("focus", nm, h, None, None))
        out.append(("vfocus", "focus", h, None, None))
        out.append(("vec", "focus_mut", h, None, None))
    for h in reversed(range(2)):
        for pos in positions(h):
            for nm in ("len", "is_empty", "clone", "split_at"):
                out.append(("focus", nm, h, pos, None))
            for combo in RANGE_COMBOS:
                out.append(("focus", "narrow/%s/%s" % tuple(combo), h, pos, None))
    return [j for j in out if prop not in OPS or j[1].split("/")[0] in OPS[prop]]


# the operations in which the other properties show
OPS = {"C10": ("get", "index"), "C16": ("get", "index"), "C09": ("new", "narrowed_tree", "focus", "focus_mut", "len", "is_empty", "clone", "split_at", "narrow")}
GROUPS = {"C18": ("part", "length", "in range", "position", "halves", "way down", "no empty node", "unchanged"), "C10": ("position", "in range"),
          "C16": ("in range", "unchanged"), "C09": ("length",)}


def run_cursors(ctx, prop):
    global SHARED
    only = GROUPS[prop]
    p = Prog("release")
    F, L = fields(p), Layout(p)
    if F is None or any(t not in L.f for t in NEED) or L.fm is None:
        ctx.undecided("cursor layout", "the fields of the vector or of its cursors have other names")
        return
    SHARED = (p, F, L)
    lab = Lab(p, ctx)
    jobs = []
    have = {}
    for j in jobs_for(prop):
        kind, fn = j[0], j[1].split("/")[0]
        if (kind, fn) not in have:
            have[kind, fn] = lab.key(OWNER[kind], fn) is not None or fn == "clone" and lab.key(OWNER[kind], fn, "Clone") is not None
            if not have[kind, fn]:
                ctx.undecided("%s.%s" % (OWNER[kind].split("::")[-1], fn), "no such operation")
        if have[kind, fn]:
            jobs.append(j)
    pub = [k for k in have if k[0] != "inner" and k[1] != "narrowed_tree"]
    ctx.floor("cursor operations", len(pub), sum(have[k] for k in pub))
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(jobs)))) as pool:
        rs = pool.map(task, jobs, chunksize=1)
    by = {}
    for j, r in zip(jobs, rs):
        by.setdefault("%s.%s" % (OWNER[j[0]].split("::")[-1], j[1].split("/")[0]), []).append((j, r))
        ctx.count("functions analysed")
        ctx.count("abstract states", r["states"])
        ctx.count("return partitions", r["rets"])
        ctx.count("obligation instances", sum(x[0] in only for x in r["log"]))
    for title, xs in sorted(by.items()):
        seen, bad = set(), {}
        err = [r["error"] for j, r in xs if r["error"]]
        for j, r in xs:
            where = "%s, %s" % (title, describe(j))
            for n, v, text, loc, ta in r["log"]:
                if n not in only:
                    continue
                seen.add(n)
                if v == "fail":
                    bad[n] = 2
                    ctx.violation("%s: %s" % (title, n), "%s: %s" % (where, text), loc)
                elif v != "ok":
                    bad.setdefault(n, 1)
            for why, loc, sure in r["panics"]:
                seen.add("completes")
                if sure and prop != "C09":
                    bad["completes"] = 2
                    ctx.violation("%s: completes" % title, "%s panics on an admissible call: %s" % (where, why), loc)
                else:
                    bad.setdefault("completes", 1)
        if prop != "C09":
            seen.add("completes")
        for n in sorted(seen):
            if err or bad.get(n) == 1:
                ctx.undecided("%s: %s" % (title, n), "; ".join(map(str, err[:1])) or "not certain")
            elif n not in bad:
                ctx.ok("%s: %s" % (title, n), "exact, %d shapes" % len(xs))
        ctx.sample("%s: %d shapes, %d return partitions" % (title, len(xs), sum(r["rets"] for j, r in xs)))


def describe(j):
    if j[0] in ("inner", "fmut"):
        return "borrowed nodes of levels %s%s" % (list(j[2]), "" if j[3] is None else ", standing in node %d" % j[3])
    return "vector of height %d%s" % (j[2], "" if j[3] is None else ", standing in node %s of the %s spine" % (j[3][1], j[3][0]))


def run(ctx):
    ctx.rule("Read cursors are analysed over an arbitrary vector (sizes, slot counts and positions unknown, heights 0 to %d), standing at an "
             "arbitrary leaf; write cursors over arbitrary sequences of borrowed nodes. Every operation must answer the element of its part, "
             "leave the part as it was, and leave a way down whose nodes hold exactly the positions it says; the halves of a split are the "
             "elements before and after the split index." % DEEP)
    run_cursors(ctx, "C18")
