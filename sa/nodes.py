"""The node layer itself: Internal, Leaf and SizeTable over ring buffers that are words (ring.py), decided against the
contracts the tree layer uses (tree.py).  Children are abstract nodes; the structs are the real ones."""
import lin
import absint
from absint import *
from contracts import *
import models
import tree
from tree import Tree, new_base, NODE, content, clen, same_content, settle, size_of, is_node, pre, start_of
from ring import RING, ring_of, install_ring, CB, BB

INT = "node_impls::basic::Internal"
LEAF = "node_impls::basic::Leaf"
CL = "node_impls::basic::ChildList"
BINT = "node_impls::basic::BorrowedInternal"
BCL = "node_impls::basic::BorrowedChildList"
ST = "size_table::SizeTable"
RNG = "Range"


class Layout:
    def __init__(self, p):
        self.p = p
        self.f = {}
        for path, need in ((INT, ("sizes", "children")), (LEAF, ("buffer",)), (ST, ("level", "buffer")), (BINT, ("sizes", "children")), (BB, ("range", "data", "front"))):
            a = self.adt(path)
            names = [x["name"] for x in a["variants"][0]["fields"]]
            if not all(n in names for n in need):
                raise Stuck("%s has other fields" % path)
            self.f[path] = {n: names.index(n) for n in names}
        for path in (CL, BCL):
            a = self.adt(path)
            names = [x["name"] for x in a["variants"]]
            if set(names) != {"Leaves", "Internals"}:
                raise Stuck("%s has other variants" % path)
            self.f[path] = {n: names.index(n) for n in names}

    def adt(self, path):
        for k, a in self.p.adts.items():
            q = a.get("path", k)
            if q == path or q.endswith("::" + path):
                return a
        raise Stuck("no " + path)

    def obj(self, path, var=None, **kw):
        return Obj(path, var, {self.f[path][n]: v for n, v in kw.items()})


def install(run, real=True):
    """contracts for the ring and the children; the analysed structs are real"""
    run.lay = Layout(run.lab.p)
    eng = run.eng
    run.tree = t = Tree(run)
    plain = eng.elem

    def elem(st, X, i):
        """entry i of an untouched size table: the size of the children 0..=i"""
        if isinstance(X, tuple) and X[0] == "cum":
            return Int(pre(st, X[1], i + 1))
        return plain(st, X, i)
    eng.elem = elem
    # children are abstract, the receiver is not: answer only for abstract receivers
    old = t.hook

    def hook(eng, st, c):
        if tree.trait_of(c) is not None:
            if not c.args:
                return NotImplemented
            try:
                v, n = c.args[0], 0
                while isinstance(v, Ref) and n < 6:
                    v = eng.load(st, v)
                    n += 1
            except Stuck:
                return NotImplemented
            if not is_node(v):
                return NotImplemented
        return old(eng, st, c)
    eng.hooks[eng.hooks.index(old)] = hook
    def t_borrow_node(st, c, tr):
        r, v = tree.node_at(eng, st, c.args[0])
        return [(st, Obj("BNODE", None, {0: r}))]
    t.t_borrow_node = t_borrow_node
    install_ring(run)
    lab = run.lab

    def it(run, st, c):
        r, w = ring_of(run, st, c.args[0])
        return [(st, Obj("it", None, {0: Ref(r.root, r.path + (("f", "w"),)), 1: Int(0), 2: Int(w.length())}))]

    def owned_it(run, st, c):
        v = c.args[0]
        if isinstance(v, Ref):
            return it(run, st, c)
        if not (isinstance(v, Obj) and v.tag == "RING"):
            raise Stuck("into_iter of %r" % (v,))
        root = ("H", ("ringit", c.site))
        st.mem[root] = v.f["w"]
        return [(st, Obj("it", None, {0: Ref(root), 1: Int(0), 2: Int(v.f["w"].length()), 3: TRUE}))]
    for k, b in lab.p.bodies.items():
        if lab.p.self_adt(b) == CB and b.get("name") in ("iter", "iter_mut"):
            run.contracts[k] = it
        elif b.get("name") == "into_iter" and "circular" in b["path"]:
            run.contracts[k] = owned_it

    def it_hook(eng, st, c):
        """next / len of a ring iterator that the contracts made"""
        own, nm = models.lookup(c.ref["path"])
        if nm in ("next", "next_back", "len", "size_hint", "into_iter", "enumerate", "skip", "rev") and c.args:
            v = c.args[0]
            n = 0
            try:
                while isinstance(v, Ref) and n < 4:
                    v = eng.load(st, v)
                    n += 1
            except Stuck:
                return NotImplemented
            if isinstance(v, Obj) and v.tag in models.ITERS:
                own = {"next": "Iterator", "next_back": "DoubleEndedIterator", "into_iter": "IntoIterator", "len": "ExactSizeIterator", "size_hint": "Iterator",
                       "enumerate": "Iterator", "skip": "Iterator", "rev": "Iterator"}[nm]
                f = models.TABLE.get((own, nm))
                if f is not None:
                    return f(eng, st, c)
        return NotImplemented
    eng.hooks.insert(0, it_hook)
    views(run)


def views(run):
    """borrowed views of a ring: range within the word behind data"""
    lay, lab, eng = run.lay, run.lab, run.eng
    F = lay.f[BB]

    def view(st, ref):
        r, v, n = None, ref, 0
        while isinstance(v, Ref) and n < 6:
            r = v
            v = eng.load(st, v)
            n += 1
        if not (isinstance(v, Obj) and v.tag == BB):
            raise Stuck("view expected: %r" % (v,))
        rg = v.f[F["range"]]
        return r, v, rg.f[0].l, rg.f[1].l

    def mview(run, st, c):
        r, w = ring_of(run, st, c.args[0])
        d = Ref(r.root, r.path + (("f", "w"),))
        return [(st, Obj(BB, None, {F["range"]: Obj("Range", None, {0: Int(0), 1: Int(w.length())}), F["data"]: d, F["front"]: Sym("front")}))]

    def at(run, st, c):
        r, v, a, b = view(st, c.args[0])
        i = idx(c)
        if not decide(st, c_lt(a + i, b)):
            return [(st, NONE)]
        d = v.f[F["data"]]
        return [(st, some(Ref(d.root, d.path + (("at", a + i),))))]

    def vlen(run, st, c):
        r, v, a, b = view(st, c.args[0])
        return [(st, Int(b - a))]

    def split(run, st, c):
        r, v, a, b = view(st, c.args[0])
        i = idx(c)
        if not decide(st, c_le(a + i, b)):
            raise Diverge("split of a view out of range")
        out = []
        for lo, hi in ((a, a + i), (a + i, b)):
            out.append(Obj(BB, None, {**v.f, F["range"]: Obj("Range", None, {0: Int(lo), 1: Int(hi)})}))
        return [(st, tup(*out))]

    def clone(run, st, c):
        r, v, a, b = view(st, c.args[0])
        return [(st, v)]
    for nm, f in (("get", at), ("get_mut", at), ("get_ptr", at), ("get_mut_ptr", at), ("len", vlen), ("split_at", split), ("clone", clone)):
        k = lab.key(BB, nm)
        if k is not None:
            run.contracts[k] = f
    k = lab.key(CB, "mutable_view")
    if k is not None:
        run.contracts[k] = mview
    run.view_of = view


# ---------------------------------------------------------------- instances
def internal(run, st, name, lv, k):
    """an arbitrary internal node of level lv with k children and a size table that describes them"""
    lay = run.lay
    k = const(k) if isinstance(k, int) else k
    tot = atom((name, "tot"))
    X = new_base(st, name, n=k, line=None, off=const(0), tot=tot, a=lv - 1, b=0, ne="all", cap="inner")
    st.have(c_le(k, const(lin.W)))
    if k.is_const():
        cum = Word([("E", Int(pre(st, X, const(i + 1)))) for i in range(k.c)])
    else:
        cum = Word(absint.norm_pieces(st, [("S", ("cum", X), const(0), k, False)]))
    ws = Word(absint.norm_pieces(st, [("S", X, const(0), k, False)]))
    leaves = decide(st, c_eq(lv, const(1)))
    ch = Obj(CL, lay.f[CL]["Leaves" if leaves else "Internals"], {0: RING(ws)})
    return X, lay.obj(INT, sizes=lay.obj(ST, level=Int(lv), buffer=RING(cum)), children=ch)


def view_of_words(run, st, root, ws, lo, hi):
    st.mem[root] = ws
    F = run.lay.f[BB]
    return Obj(BB, None, {F["range"]: Obj("Range", None, {0: Int(lo), 1: Int(hi)}), F["data"]: Ref(root), F["front"]: Sym("front")})


def borrowed(run, st, name, lv, k, lo, hi):
    """a borrowed part lo..hi of an arbitrary internal node of level lv with k children"""
    lay = run.lay
    X, o = internal(run, st, name, lv, k)
    lvl, var, cw, bw = open_internal(run, st, o)
    v = view_of_words(run, st, ("*", (name, "data")), cw, lo, hi)
    return X, lay.obj(BINT, sizes=o.f[lay.f[INT]["sizes"]], children=Obj(BCL, lay.f[BCL][var], {0: v}))


def leaf(run, st, name, k):
    lay = run.lay
    k = const(k) if isinstance(k, int) else k
    X = new_base(st, name, n=k, line=None, off=const(0), tot=k, elem=True)
    st.have(c_le(k, const(lin.W)))
    return X, lay.obj(LEAF, buffer=RING(Word(absint.norm_pieces(st, [("S", X, const(0), k, False)]))))


def open_internal(run, st, v):
    """(level, variant name, children word, cumulative word)"""
    lay = run.lay
    if not (isinstance(v, Obj) and v.tag == INT):
        raise Stuck("node %r" % (v,))
    F, S = lay.f[INT], lay.f[ST]
    s, ch = v.f[F["sizes"]], v.f[F["children"]]
    if not (isinstance(s, Obj) and s.tag == ST and isinstance(ch, Obj) and ch.tag == CL):
        raise Stuck("parts of %r" % (v,))
    lv, b = s.f[S["level"]], s.f[S["buffer"]]
    if not isinstance(lv, Int) or not (isinstance(b, Obj) and b.tag == "RING") or not (isinstance(ch.f.get(0), Obj) and ch.f[0].tag == "RING"):
        raise Stuck("parts of %r" % (v,))
    var = next(n for n, i in lay.f[CL].items() if i == ch.var)
    return lv.l, var, ch.f[0].f["w"], b.f["w"]


def abstract(run, st, v, what, span=""):
    """the abstract node a real one stands for, with the obligations that make it one"""
    if is_node(v):
        return v
    if isinstance(v, Obj) and v.tag == LEAF:
        b = v.f[run.lay.f[LEAF]["buffer"]]
        return NODE(b.f["w"], const(0))
    lv, var, cw, bw = open_internal(run, st, v)
    cw, bw = solid(st, cw), solid(st, bw)
    run.oblige(st, "levels", (("eq", lv - 1) if var == "Leaves" else c_le(const(2), lv)) , "%s: a level %r node keeps a list of %s" % (what, lv, var.lower()), span)
    for pos, l, b, k in tree.node_levels(st, cw):
        if not st.facts.entails(c_le(k, const(0))):
            run.oblige(st, "levels", ("and", c_eq(l, lv - 1), c_eq(const(b if isinstance(b, int) else 0), const(0))) if b != 1 else c_eq(l, lv - 1),
                       "%s: a level %r node has a child of level %r" % (what, lv, l), span)
    n = cw.length()
    run.oblige(st, "sizes", c_eq(bw.length(), n), "%s: the size table has %r entries for %r children" % (what, bw.length(), n), span)
    describe(run, st, cw, bw, what, span)
    return NODE(cw, lv)


def solid(st, w):
    """the word with bounds written as constants where the facts fix them"""
    def fix(l):
        if l.is_const():
            return l
        for n in range(6):
            if st.facts.entails(c_eq(l, const(n))):
                return const(n)
        return l
    ps = [(x[:2] + (fix(x[2]), fix(x[3])) + x[4:]) if x[0] == "S" else x for x in w.p]
    return Word(absint.norm_pieces(st, [x for x in ps if not (x[0] == "S" and x[2] == x[3])]))


def describe(run, st, cw, bw, what, span):
    """the size table holds the cumulative sizes of the children"""
    n = cw.length()
    if n.is_const() and bw.length().is_const() and n.c <= 8:
        acc = const(0)
        for i in range(min(n.c, bw.length().c)):
            acc = acc + size_of(st, run.eng.word_get(st, cw, const(i)))
            x = run.eng.word_get(st, bw, const(i))
            settle(st)
            if not isinstance(x, Int):
                raise Stuck("size %r" % (x,))
            run.oblige(st, "sizes", c_eq(x.l, acc), "%s: entry %d of the size table is %r where the children up to it hold %r elements" % (what, i, x.l, acc), span)
        return
    # symbolic number of children: piece by piece
    a, b = list(cw.p), list(bw.p)
    acc = const(0)
    out = []
    for x in a:
        if x[0] == "S" and (x[3] - x[2]).is_const() and (x[3] - x[2]).c <= 4 and not (b and len(a) == len(b) and b[len(out)][0] == "S"):
            out += [("E", run.eng.elem_at(st, x[1], x[2] + i)) for i in range((x[3] - x[2]).c)]
        else:
            out.append(x)
    a = out
    for x in list(a):
        if x[0] == "S":
            if not b or b[0][0] != "S" or b[0][1] != ("cum", x[1]) or b[0][2] != x[2] or b[0][3] != x[3]:
                raise Stuck("size table %r against children %r" % (bw, cw))
            p0 = pre(st, x[1], x[2])
            run.oblige(st, "sizes", c_eq(p0, acc), "%s: the size table counts %r elements in front of child %r where there are %r" % (what, p0, x[2], acc), span)
            acc = acc + pre(st, x[1], x[3]) - p0
            b.pop(0)
        else:
            acc = acc + size_of(st, x[1])
            if not b:
                raise Stuck("size table %r against children %r" % (bw, cw))
            y = run.eng.word_get(st, bw, bw.length() - sum((absint.plen(z) for z in b), const(0)))
            b = rest_after_one(st, b)
            settle(st)
            run.oblige(st, "sizes", c_eq(y.l, acc), "%s: an entry of the size table is %r where the children up to it hold %r elements" % (what, y.l, acc), span)


def rest_after_one(st, b):
    x = b[0]
    if x[0] == "E":
        return b[1:]
    if st.facts.entails(c_eq(x[3] - x[2], const(1))):
        return b[1:]
    return [x[:2] + (x[2] + 1,) + x[3:]] + b[1:]


def element(run, st, v):
    """(line, position) of the element a pointer stands for"""
    if isinstance(v, Ref) and isinstance(v.root, tuple) and v.root[0] == "*" and isinstance(v.root[1], tuple) and v.root[1][0] == "ELEM":
        return v.root[1][1], v.path[0][1]
    if isinstance(v, Ref):
        x = run.eng.load(st, v)
        if isinstance(x, Sym) and isinstance(x.n, tuple) and x.n[0] == "at":
            X = x.n[1]
            r = st.g.get(("B", X))
            if r is not None:
                return r.line, start_of(st, X, x.n[2])
            return X, x.n[2]
    raise Stuck("element %r" % (v,))


def wordeq(run, st, name, got, want, text, span=""):
    r = same_content(st, got, want)
    if r is None:
        st = st.copy()
        st.spoil("contents cannot be compared")
        run.oblige(st, name, ("F",), text, span)
        return
    run.oblige(st, name, ("T",) if r else ("F",), text, span)
