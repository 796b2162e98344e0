"""What each function of the node layer must do, and the driver that decides it."""
import multiprocessing
import time
import lin
import absint
import extract
import tree
from absint import *
from contracts import *
from facts import Prog, loc_of
from nodes import *
from ring import CB

SIDES = ("Front", "Back")
SELF = Ref(("*", "self"))
DEST = Ref(("*", "dest"))


def W():
    return const(lin.W)


def side_val(p, name):
    a = next((a for k, a in p.adts.items() if a.get("path", k).endswith("Side")), None)
    k = next(k for k, x in p.adts.items() if x is a)
    return Obj(a.get("path", k), [x["name"] for x in a["variants"]].index(name))


class Case:
    """one instance: level, number of children (None = unknown), side"""

    def __init__(self, run, st, lv, k, side, part=None):
        self.part = part
        self.run, self.st, self.lvi, self.k, self.side = run, st, lv, k, side
        if lv is None:
            self.lv = atom("lv")
            st.have(c_le(const(2), self.lv))
        else:
            self.lv = const(lv)

    def node(self, name, ref, k="k"):
        """a node of the case's level behind ref; returns (container, object)"""
        k = self.k if k == "k" else k
        if k is None:
            k = atom((name, "k"))
            self.st.have(c_le(const(1), k))
        if self.lvi == 0:
            X, o = leaf(self.run, self.st, name, k)
        else:
            X, o = internal(self.run, self.st, name, self.lv, k)
            if k == 0:
                self.st.have(c_eq(tree.base(self.st, X).tot, const(0)))
        if ref is not None:
            self.st.mem[ref.root] = o
        return X, o

    def child(self, name):
        """an unattached node one level below, with something in it"""
        st = self.st
        t = atom((name, "tot"))
        X = new_base(st, name, n=const(1), line=None, off=const(0), tot=t, a=self.lv - 1, b=0, ne="all", cap="inner")
        return tree.lazy_node(st, X)


def now(st, ref=SELF):
    return st.mem[ref.root]


def words(run, st, o):
    """(contents, number of children)"""
    if isinstance(o, Obj) and o.tag == LEAF:
        w = o.f[run.lay.f[LEAF]["buffer"]].f["w"]
        return content(st, w), w.length()
    if is_node(o):
        return content(st, o), o.f["c"].length()
    lv, var, cw, bw = open_internal(run, st, o)
    return content(st, cw), cw.length()


def unchanged(run, st, o, X, what):
    """o still holds exactly what it held at the start"""
    rec = tree.base(st, X)
    got, n = words(run, st, o)
    wordeq(run, st, "content", got, [("I", rec.line, rec.off, rec.off + rec.tot)], "%s changes the node" % what)
    run.oblige(st, "slots", c_eq(n, rec.n), "%s changes the number of children" % what)


def whole(st, X):
    rec = tree.base(st, X)
    return [("I", rec.line, rec.off, rec.off + rec.tot)]


def part(st, X, a, b):
    """the elements of nodes a..b of X"""
    rec = tree.base(st, X)
    if rec.elem:
        return [("I", rec.line, rec.off + a, rec.off + b)]
    return [("I", rec.line, rec.off + pre(st, X, a), rec.off + pre(st, X, b))]


def has_level(run, st, o, c, what):
    n = abstract(run, st, o, what)
    run.oblige(st, "levels", c_eq(n.f["lv"].l, c.lv), "%s leaves a node of level %r instead of %r" % (what, n.f["lv"].l, c.lv))
    return n


# ---------------------------------------------------------------- reading
def reading(f):
    def mk(run, st, c):
        X, o = c.node("A", SELF)
        args, post = f(run, st, c, X, o)

        def after(run, st, v):
            unchanged(run, st, now(st), X, "a reading operation")
            post(run, st, v)
        return args, after
    return mk


def int_is(name, f):
    def g(run, st, c, X, o):
        def post(run, st, v):
            want = f(st, c, X)
            run.oblige(st, name, isinstance(v, Int) and c_eq(v.l, want), "it answers %r instead of %r" % (v, want))
        return [SELF], post
    return reading(g)


def bool_is(name, f):
    def g(run, st, c, X, o):
        def post(run, st, v):
            want = decide(st, f(st, c, X))
            if isinstance(v, Bool):
                d = decide(st, v.c)
            elif isinstance(v, Sym):
                d = decide(st, ("b", v.n, True))
            else:
                raise Stuck("bool")
            run.oblige(st, name, d == want, "it answers %s" % d)
        return [SELF], post
    return reading(g)


tot = lambda st, c, X: tree.base(st, X).tot
nch = lambda st, c, X: tree.base(st, X).n


def points_to(run, st, v, X, i, what):
    line, at = element(run, st, v)
    rec = tree.base(st, X)
    run.oblige(st, "position", line == rec.line and c_eq(at, rec.off + i), "%s: index %r designates element %r of %s" % (what, i, at - rec.off, absint.show(line)))


def strip(run, st, v):
    """the pointer inside a guard"""
    n = 0
    while isinstance(v, Obj) and len(v.f) == 1 and n < 4:
        v = next(iter(v.f.values()))
        n += 1
    return v


def get(run, st, c, X, o):
    i = atom("i")
    st.have(c_le(const(0), i))

    def post(run, st, v):
        d = run.eng.variant(st, v, 2)
        inside = decide(st, c_lt(i, tot(st, c, X)))
        run.oblige(st, "in range", (d == 1) == inside, "index %r of %r elements answers %s" % (i, tot(st, c, X), "Some" if d else "None"))
        if d == 1 and inside:
            points_to(run, st, strip(run, st, run.eng.payload(st, v, 0)), X, i, "get")
    return [SELF, Int(i)], post


def child_at(by_slot):
    def f(run, st, c, X, o):
        i = atom("i")
        st.have(c_le(const(0), i))
        n = nch(st, c, X)

        def post(run, st, v):
            d = run.eng.variant(st, v, 2)
            inside = decide(st, c_lt(i, n if by_slot else tot(st, c, X)))
            run.oblige(st, "in range", (d == 1) == inside, "child for %r answers %s" % (i, "Some" if d else "None"))
            if d != 1 or not inside:
                return
            pr = run.eng.payload(st, v, 0)
            node, rg = run.eng.payload(st, pr, 0), run.eng.payload(st, pr, 1)
            x = strip_ref(run, st, node)
            lo, hi = run.eng.payload(st, rg, 0), run.eng.payload(st, rg, 1)
            got = content(st, x)
            rec = tree.base(st, X)
            wordeq(run, st, "position", got, [("I", rec.line, rec.off + lo.l, rec.off + hi.l)], "the child for %r is said to hold positions %r..%r but it holds other ones" % (i, lo.l, hi.l))
            if by_slot:
                run.oblige(st, "position", c_eq(lo.l, pre(st, X, i)), "the child at slot %r is said to begin at %r instead of %r" % (i, lo.l, pre(st, X, i)))
            else:
                run.oblige(st, "position", ("and", c_le(lo.l, i), c_lt(i, hi.l)), "position %r is said to be in the child that holds %r..%r" % (i, lo.l, hi.l))
        return [SELF, Int(i)], post
    return reading(f)


def strip_ref(run, st, v):
    n = 0
    while n < 8:
        if is_node(v):
            return v
        if isinstance(v, Obj) and v.tag in (LEAF, INT):
            return abstract(run, st, v, "the node")
        if isinstance(v, Ref):
            v = run.eng.load(st, v)
        elif isinstance(v, Obj) and len(v.f) == 1:
            v = next(iter(v.f.values()))
        else:
            break
        n += 1
    raise Stuck("child %r" % (v,))


def new_empty(run, st, c):
    X, o = c.node("A", SELF)

    def post(run, st, v):
        n = has_level(run, st, v, c, "new_empty")
        run.oblige(st, "slots", c_eq(n.f["c"].length(), const(0)), "new_empty is not empty")
        unchanged(run, st, now(st), X, "new_empty")
    return [SELF], post


def make_empty(run, st, c):
    def post(run, st, v):
        n = has_level(run, st, v, c, "a new node")
        run.oblige(st, "slots", c_eq(n.f["c"].length(), const(0)), "a new node is not empty")
    return ([Int(c.lv)] if c.lvi != 0 else []), post


def with_item(run, st, c):
    e = Sym(("item", 0))

    def post(run, st, v):
        n = has_level(run, st, v, c, "a new leaf")
        wordeq(run, st, "content", content(st, n), [("E", e)], "the new leaf does not hold the item")
    return [e], post


# ---------------------------------------------------------------- changing
def push_child(run, st, c):
    X, o = c.node("A", SELF)
    st.have(c_lt(tree.base(st, X).n, W()))
    e = c.child("N")
    ec = content(st, e)

    def post(run, st, v):
        n = has_level(run, st, now(st), c, "push_child")
        old = whole(st, X)
        wordeq(run, st, "content", content(st, n), ec + old if c.side == "Front" else old + ec, "push_child(%s): the node holds %s" % (c.side, show_c(st, content(st, n))))
        run.oblige(st, "slots", c_eq(n.f["c"].length(), tree.base(st, X).n + 1), "push_child does not add one child")
    return [SELF, side_val(run.lab.p, c.side), e], post


def pop_child(run, st, c):
    X, o = c.node("A", SELF)
    k = tree.base(st, X).n
    st.have(c_le(const(1), k))

    def post(run, st, v):
        n = has_level(run, st, now(st), c, "pop_child")
        run.oblige(st, "levels", is_node(v) and c_eq(v.f["lv"].l, c.lv - 1), "pop_child returns a node of another level")
        f = c.side == "Front"
        a, b = (const(0), const(1)) if f else (k - 1, k)
        wordeq(run, st, "content", content(st, v), part(st, X, a, b), "pop_child(%s) returns another child" % c.side)
        a, b = (const(1), k) if f else (const(0), k - 1)
        wordeq(run, st, "content", content(st, n), part(st, X, a, b), "pop_child(%s) leaves %s" % (c.side, show_c(st, content(st, n))))
        run.oblige(st, "slots", c_eq(n.f["c"].length(), k - 1), "pop_child does not remove one child")
    return [SELF, side_val(run.lab.p, c.side)], post


def push(run, st, c):
    X, o = c.node("A", SELF)
    st.have(c_lt(tree.base(st, X).n, W()))
    e = Sym(("item", 0))

    def post(run, st, v):
        n = has_level(run, st, now(st), c, "push")
        old = whole(st, X)
        wordeq(run, st, "content", content(st, n), [("E", e)] + old if c.side == "Front" else old + [("E", e)], "push(%s): the leaf holds %s" % (c.side, show_c(st, content(st, n))))
    return [SELF, side_val(run.lab.p, c.side), e], post


def pop(run, st, c):
    X, o = c.node("A", SELF)
    k = tree.base(st, X).n
    st.have(c_le(const(1), k))

    def post(run, st, v):
        n = has_level(run, st, now(st), c, "pop")
        f = c.side == "Front"
        a, b = (const(0), const(1)) if f else (k - 1, k)
        wordeq(run, st, "content", content(st, Word([("E", v)])), part(st, X, a, b), "pop(%s) returns another element" % c.side)
        a, b = (const(1), k) if f else (const(0), k - 1)
        wordeq(run, st, "content", content(st, n), part(st, X, a, b), "pop(%s) leaves %s" % (c.side, show_c(st, content(st, n))))
    return [SELF, side_val(run.lab.p, c.side)], post


def share(run, st, c):
    X, o = c.node("A", SELF)
    Y, d = c.node("B", DEST, k=None if c.k is None else (c.k + 1) % 3)
    k, m = tree.base(st, X).n, tree.base(st, Y).n
    ln = atom("len")
    st.have(c_le(const(0), ln))

    def post(run, st, v):
        a = has_level(run, st, now(st), c, "share_children_with (source)")
        b = has_level(run, st, now(st, DEST), c, "share_children_with (destination)")
        s = ln
        for y in (k, W() - m):
            if not decide(st, c_le(s, y)):
                s = y
        f = c.side == "Front"
        wordeq(run, st, "content", content(st, a), part(st, X, s, k) if f else part(st, X, const(0), k - s), "share_children_with(%s): the source keeps %s" % (c.side, show_c(st, content(st, a))))
        old = whole(st, Y)
        wordeq(run, st, "content", content(st, b), old + part(st, X, const(0), s) if f else part(st, X, k - s, k) + old,
               "share_children_with(%s): the destination gets %s" % (c.side, show_c(st, content(st, b))))
        run.oblige(st, "slots", ("and", c_eq(a.f["c"].length(), k - s), c_eq(b.f["c"].length(), m + s)), "share_children_with moves another number of children")
        run.oblige(st, "result", isinstance(v, Int) and c_eq(v.l, s), "share_children_with answers %r but moves %r" % (v, s))
    return [SELF, DEST, side_val(run.lab.p, c.side), Int(ln)], post


def no_empty_child(run, st, n, what):
    w = n.f["c"]
    if w.length().is_const():
        for i in range(w.length().c):
            x = run.eng.word_get(st, w, const(i))
            if is_node(x):
                run.oblige(st, "no empty child", ("or", c_le(const(1), size_of(st, x)), c_le(const(1), x.f["c"].length())), "%s leaves an empty child at slot %d" % (what, i))


def pack(run, st, c):
    X, o = c.node("A", SELF)

    def post(run, st, v):
        n = has_level(run, st, now(st), c, "pack_children")
        wordeq(run, st, "content", content(st, n), whole(st, X), "pack_children: the node holds %s" % show_c(st, content(st, n)))
        no_empty_child(run, st, n, "pack_children")
        run.oblige(st, "slots", c_le(n.f["c"].length(), tree.base(st, X).n), "pack_children adds children")
    return [SELF], post


def split_child(run, st, c):
    X, o = c.node("A", SELF)
    i = atom("i")
    k = tree.base(st, X).n
    st.have(c_le(const(0), i))
    st.have(c_le(i, k))

    def post(run, st, v):
        a = has_level(run, st, now(st), c, "the split (receiver)")
        b = has_level(run, st, v, c, "the split (result)")
        wordeq(run, st, "content", content(st, a), part(st, X, const(0), i), "the receiver keeps %s" % show_c(st, content(st, a)))
        wordeq(run, st, "content", content(st, b), part(st, X, i, k), "the result gets %s" % show_c(st, content(st, b)))
    return [SELF, Int(i)], post


def split_pos(run, st, c):
    X, o = c.node("A", SELF)
    i = atom("i")
    rec = tree.base(st, X)
    st.have(c_le(const(0), i))
    st.have(c_lt(i, rec.tot))

    def post(run, st, v):
        a = has_level(run, st, now(st), c, "split_at_position (receiver)")
        b = has_level(run, st, v, c, "split_at_position (result)")
        wordeq(run, st, "content", content(st, a), [("I", rec.line, rec.off, rec.off + i)], "split_at_position(%r): the receiver keeps %s" % (i, show_c(st, content(st, a))))
        wordeq(run, st, "content", content(st, b), [("I", rec.line, rec.off + i, rec.off + rec.tot)], "split_at_position(%r): the result gets %s" % (i, show_c(st, content(st, b))))
        for n in (a, b):
            no_empty_child(run, st, n, "split_at_position")
        k, m, s = a.f["c"].length(), b.f["c"].length(), rec.n
        run.oblige(st, "slots", ("and", c_le(s, k + m), c_le(k + m, s + 1)), "split_at_position turns %r children into %r and %r" % (s, k, m))
    return [SELF, Int(i)], post


def show_c(st, ps):
    return "[" + " ".join("%s[%r..%r]" % (absint.show(x[1]), x[2], x[3]) if x[0] == "I" else "<%s>" % (absint.show(x[1]) if x[0] == "E" else x[1:],) for x in tree.full(st, ps)) + "]"


# ---------------------------------------------------------------- size tables
def table(run, st, c, name="A"):
    """a table for c.k children of unknown sizes; returns the sizes' container"""
    k = const(c.k) if c.k is not None else atom((name, "k"))
    if c.k is None:
        st.have(c_le(const(1), k))
    t = atom((name, "tot"))
    X = new_base(st, name, n=k, line=None, off=const(0), tot=t, a=const(0), b=0, ne="all", cap="inner")
    st.have(c_le(k, W()))
    if k.is_const():
        cum = Word([("E", Int(pre(st, X, const(i + 1)))) for i in range(k.c)])
    else:
        cum = Word(absint.norm_pieces(st, [("S", ("cum", X), const(0), k, False)]))
    o = run.lay.obj(ST, level=Int(atom("level")), buffer=RING(cum))
    st.mem[SELF.root] = o
    return X, k, t


def table_words(run, st, o):
    S = run.lay.f[ST]
    return o.f[S["level"]], o.f[S["buffer"]].f["w"]


def table_is(run, st, o, X, sizes, what):
    """the table describes the given parts: ('n', a, b) = sizes of X a..b, ('x', size)"""
    lv, w = table_words(run, st, o)
    run.oblige(st, "levels", isinstance(lv, Int) and c_eq(lv.l, atom("level")), "%s changes the level" % what)
    want = []
    acc = const(0)
    n = const(0)
    for s in sizes:
        if s[0] == "x":
            acc = acc + s[1]
            want.append(acc)
        elif s[1].is_const() and s[2].is_const():
            for i in range(s[1].c, s[2].c):
                acc = acc + pre(st, X, const(i + 1)) - pre(st, X, const(i))
                want.append(acc)
        else:
            raise Stuck("symbolic table")
    run.oblige(st, "sizes", c_eq(w.length(), const(len(want))), "%s: the table has %r entries instead of %d" % (what, w.length(), len(want)))
    if w.length() == const(len(want)):
        for i, x in enumerate(want):
            y = run.eng.word_get(st, w, const(i))
            settle(st)
            run.oblige(st, "sizes", isinstance(y, Int) and c_eq(y.l, x), "%s: entry %d is %r instead of %r" % (what, i, y, x))


def t_int(f, arg=False, opt=False, ref=False):
    def mk(run, st, c):
        X, k, t = table(run, st, c)
        i = atom("i")
        st.have(c_le(const(0), i))

        def post(run, st, v):
            table_is(run, st, now(st), X, [("n", const(0), k)], "a reading operation") if k.is_const() else None
            want = f(run, st, X, k, t, i)
            if opt:
                d = run.eng.variant(st, v, 2)
                run.oblige(st, "in range", (d == 1) == (want is not None), "it answers %s" % ("Some" if d else "None"))
                if d != 1 or want is None:
                    return
                v = run.eng.payload(st, v, 0)
            if isinstance(v, Ref):
                v = run.eng.load(st, v)
            if isinstance(want, tuple):
                for j, x in enumerate(want):
                    y = run.eng.payload(st, v, j)
                    run.oblige(st, "position", isinstance(y, Int) and c_eq(y.l, x), "component %d of the answer is %r instead of %r" % (j, y, x))
            else:
                run.oblige(st, "position", isinstance(v, Int) and c_eq(v.l, want), "it answers %r instead of %r" % (v, want))
        return [SELF] + ([Int(i)] if arg else []), post
    return mk


def within(f):
    return lambda run, st, X, k, t, i: f(st, X, i) if decide(st, c_lt(i, k)) else None


def find_pos(run, st, X, k, t, i):
    if not decide(st, c_lt(i, t)):
        return None
    if not k.is_const():
        raise Stuck("symbolic table")
    for j in range(k.c):
        if decide(st, c_lt(i, pre(st, X, const(j + 1)))):
            return (const(j), i - pre(st, X, const(j)))
    return None


def t_push(run, st, c):
    X, k, t = table(run, st, c)
    st.have(c_lt(k, W()))
    s = atom("size")
    st.have(c_le(const(0), s))

    def post(run, st, v):
        e, old = [("x", s)], [("n", const(0), k)]
        table_is(run, st, now(st), X, e + old if c.side == "Front" else old + e, "push_child(%s)" % c.side)
    return [SELF, side_val(run.lab.p, c.side), Int(s)], post


def t_pop(run, st, c):
    X, k, t = table(run, st, c)
    st.have(c_le(const(1), k))

    def post(run, st, v):
        f = c.side == "Front"
        table_is(run, st, now(st), X, [("n", const(1), k)] if f else [("n", const(0), k - 1)], "pop_child(%s)" % c.side)
        a = const(0) if f else k - 1
        run.oblige(st, "result", isinstance(v, Int) and c_eq(v.l, pre(st, X, a + 1) - pre(st, X, a)), "pop_child(%s) answers %r" % (c.side, v))
    return [SELF, side_val(run.lab.p, c.side)], post


def t_new(run, st, c):
    def post(run, st, v):
        lv, w = table_words(run, st, v)
        run.oblige(st, "sizes", c_eq(w.length(), const(0)), "a new table is not empty")
        run.oblige(st, "levels", c_eq(lv.l, atom("level")), "a new table has another level")
    return [Int(atom("level"))], post


SPECS = {
    # (owner, function): (maker, sides, levels, expected obligations)
    (INT, "len"): (int_is("length", tot), False), (INT, "slots"): (int_is("result", nch), False),
    (INT, "free_slots"): (int_is("result", lambda st, c, X: W() - nch(st, c, X)), False),
    (INT, "level"): (int_is("levels", lambda st, c, X: c.lv), False),
    (INT, "get"): (reading(get), False), (INT, "get_mut"): (reading(get), False), (INT, "get_mut_guarded"): (reading(get), False),
    (INT, "get_child_ref_at_slot"): (child_at(True), False), (INT, "get_child_ref_for_position"): (child_at(False), False),
    (INT, "get_child_mut_at_slot"): (child_at(True), False), (INT, "get_child_mut_for_position"): (child_at(False), False),
    (INT, "new_empty"): (new_empty, False), (INT, "empty_internal"): (make_empty, False),
    (INT, "push_child"): (push_child, True), (INT, "pop_child"): (pop_child, True),
    (INT, "share_children_with"): (share, True), (INT, "pack_children"): (pack, False),
    (INT, "split_at_child"): (split_child, False), (INT, "split_at_position"): (split_pos, False),
    (LEAF, "len"): (int_is("length", tot), False), (LEAF, "free_space"): (int_is("result", lambda st, c, X: W() - nch(st, c, X)), False),
    (LEAF, "get"): (reading(get), False), (LEAF, "get_mut"): (reading(get), False), (LEAF, "get_mut_guarded"): (reading(get), False),
    (LEAF, "empty"): (make_empty, False), (LEAF, "with_item"): (with_item, False),
    (LEAF, "push"): (push, True), (LEAF, "pop"): (pop, True), (LEAF, "split"): (split_child, False),
    (LEAF, "share_children_with"): (share, True),
    (ST, "new"): (t_new, False), (ST, "level"): (t_int(lambda run, st, X, k, t, i: atom("level")), False),
    (ST, "cumulative_size"): (t_int(lambda run, st, X, k, t, i: t), False), (ST, "len"): (t_int(lambda run, st, X, k, t, i: k), False),
    (ST, "get_cumulative_child_size"): (t_int(within(lambda st, X, i: pre(st, X, i + 1)), True, True), False),
    (ST, "get_child_size"): (t_int(within(lambda st, X, i: pre(st, X, i + 1) - pre(st, X, i)), True, True), False),
    (ST, "get_child_range"): (t_int(within(lambda st, X, i: (pre(st, X, i), pre(st, X, i + 1))), True, True), False),
    (ST, "position_info_for"): (t_int(find_pos, True, True), False),
    (ST, "push_child"): (t_push, True), (ST, "pop_child"): (t_pop, True),
}

# ---------------------------------------------------------------- borrowed nodes: a part lo..hi of a node
BLEAF = "node_impls::basic::BorrowedLeaf"
NT = "node_traits::"


def part_of(f):
    """specs over a borrowed part; f(run, st, c, X, lo, hi) -> (args, post)"""
    def mk(run, st, c):
        n = c.part
        lo, hi = const(n[0]), const(n[1])
        if c.lvi == 0:
            X, o = leaf(run, st, "A", c.k)
            w = o.f[run.lay.f[LEAF]["buffer"]].f["w"]
            o = Obj(BLEAF, None, {0: view_of_words(run, st, ("*", ("A", "data")), w, lo, hi)})
        else:
            X, o = borrowed(run, st, "A", c.lv, c.k, lo, hi)
        if c.k == 0:
            st.have(c_eq(tree.base(st, X).tot, const(0)))
        st.mem[SELF.root] = o
        return f(run, st, c, X, lo, hi)
    mk.borrowed = True
    return mk


def view_now(run, st, o):
    """(word, lo, hi) of a borrowed node"""
    lay = run.lay
    if isinstance(o, Obj) and o.tag == BINT:
        ch = o.f[lay.f[BINT]["children"]]
        v = ch.f[0]
    elif isinstance(o, Obj) and o.tag == BLEAF:
        v = o.f[0]
    else:
        raise Stuck("borrowed %r" % (o,))
    F = lay.f[BB]
    rg = v.f[F["range"]]
    return run.eng.load(st, v.f[F["data"]]), rg.f[0].l, rg.f[1].l


def covers(run, st, o, X, a, b, what):
    w, lo, hi = view_now(run, st, o)
    run.oblige(st, "position", ("and", c_eq(lo, a), c_eq(hi, b)) if not (lo == a and hi == b) else True, "%s covers children %r..%r instead of %r..%r" % (what, lo, hi, a, b))
    if o.tag == BINT:
        sz = o.f[run.lay.f[BINT]["sizes"]]
        bw = sz.f[run.lay.f[ST]["buffer"]].f["w"]
        describe(run, st, solid(st, w), solid(st, bw), what, "")


def p_int(g, name="position"):
    def f(run, st, c, X, lo, hi):
        def post(run, st, v):
            want = g(st, c, X, lo, hi)
            run.oblige(st, name, isinstance(v, Int) and c_eq(v.l, want), "it answers %r instead of %r for children %r..%r" % (v, want, lo, hi))
            covers(run, st, now(st), X, lo, hi, "the part")
        return [SELF], post
    return part_of(f)


def p_bool(g):
    def f(run, st, c, X, lo, hi):
        def post(run, st, v):
            want = decide(st, g(st, c, X, lo, hi))
            run.oblige(st, "position", decide(st, v.c) == want, "it answers %s for children %r..%r" % (not want, lo, hi))
        return [SELF], post
    return part_of(f)


def p_range(run, st, c, X, lo, hi):
    def post(run, st, v):
        a, b = run.eng.payload(st, v, 0).l, run.eng.payload(st, v, 1).l
        run.oblige(st, "position", ("and", c_eq(a, lo), c_eq(b, hi)), "it answers %r..%r instead of %r..%r" % (a, b, lo, hi))
    return [SELF], post


def size_between(st, X, lo, hi):
    rec = tree.base(st, X)
    return hi - lo if rec.elem else pre(st, X, hi) - pre(st, X, lo)


def p_child(how):
    def f(run, st, c, X, lo, hi):
        i = atom("i")
        if how == "Front":
            i = const(0)
        elif how == "Back":
            i = hi - lo - 1
        else:
            st.have(c_le(const(0), i))
        by_slot = how != "position"
        n = hi - lo if by_slot else size_between(st, X, lo, hi)
        args = [SELF, side_val(run.lab.p, how) if how in SIDES else Int(i)]

        def post(run, st, v):
            d = run.eng.variant(st, v, 2)
            inside = decide(st, c_lt(i, n)) and decide(st, c_le(const(0), i))
            run.oblige(st, "in range", (d == 1) == inside, "child for %r of the part %r..%r answers %s" % (i, lo, hi, "Some" if d else "None"))
            if d != 1 or not inside:
                return
            pr = run.eng.payload(st, v, 0)
            node, rg = run.eng.payload(st, pr, 0), run.eng.payload(st, pr, 1)
            x = strip_ref(run, st, node)
            a, b = run.eng.payload(st, rg, 0), run.eng.payload(st, rg, 1)
            rec = tree.base(st, X)
            z = rec.off + pre(st, X, lo)
            wordeq(run, st, "position", content(st, x), [("I", rec.line, z + a.l, z + b.l)], "the child for %r of the part %r..%r is said to hold positions %r..%r but it holds other ones" % (i, lo, hi, a.l, b.l))
            if by_slot:
                run.oblige(st, "position", c_eq(a.l, size_between(st, X, lo, lo + i)), "the child at slot %r is said to begin at %r" % (i, a.l))
            else:
                run.oblige(st, "position", ("and", c_le(a.l, i), c_lt(i, b.l)), "position %r is said to be in the child that holds %r..%r" % (i, a.l, b.l))
            covers(run, st, now(st), X, lo, hi, "the part")
        return args, post
    return part_of(f)


def p_sided(run, st, c):
    return p_child(c.side)(run, st, c)


p_sided.borrowed = True


def which(st, X, lo, hi, i):
    """the child of the part that holds position i"""
    for j in range(lo.c, hi.c):
        if decide(st, c_lt(i, size_between(st, X, lo, const(j + 1)))):
            return const(j)
    return None


def p_find(run, st, c, X, lo, hi):
    i = atom("i")
    st.have(c_le(const(0), i))

    def post(run, st, v):
        d = run.eng.variant(st, v, 2)
        j = which(st, X, lo, hi, i)
        run.oblige(st, "in range", (d == 1) == (j is not None), "position %r of the part %r..%r answers %s" % (i, lo, hi, "Some" if d else "None"))
        if d != 1 or j is None:
            return
        pr = run.eng.payload(st, v, 0)
        a, b = run.eng.payload(st, pr, 0).l, run.eng.payload(st, pr, 1).l
        run.oblige(st, "position", ("and", c_eq(a, j - lo), c_eq(b, i - size_between(st, X, lo, j))), "position %r of the part %r..%r is said to be %r of child %r" % (i, lo, hi, b, a))
    return [SELF, Int(i)], post


def p_split_child(run, st, c, X, lo, hi):
    i = atom("i")
    st.have(c_le(const(0), i))
    st.have(c_le(i, hi - lo))

    def post(run, st, v):
        for o, a, b in ((run.eng.payload(st, v, 0), lo, lo + i), (run.eng.payload(st, v, 1), lo + i, hi)):
            covers(run, st, o, X, a, b, "a half")
            has_same_level(run, st, o, c)
    return [SELF, Int(i)], post


def has_same_level(run, st, o, c):
    if o.tag == BINT:
        lv = o.f[run.lay.f[BINT]["sizes"]].f[run.lay.f[ST]["level"]]
        run.oblige(st, "levels", c_eq(lv.l, c.lv), "the half is of level %r" % (lv,))


def p_split_pos(run, st, c, X, lo, hi):
    i = atom("i")
    st.have(c_le(const(0), i))
    st.have(c_lt(i, size_between(st, X, lo, hi)))

    def post(run, st, v):
        j = which(st, X, lo, hi, i)
        rest = run.eng.payload(st, v, 0).l
        run.oblige(st, "position", c_eq(rest, i - size_between(st, X, lo, j)), "the rest of position %r in its child is said to be %r" % (i, rest))
        for o, a, b in ((run.eng.payload(st, v, 1), lo, j), (run.eng.payload(st, v, 2), j, hi)):
            covers(run, st, o, X, a, b, "a half")
    return [SELF, Int(i)], post


def p_pop(run, st, c):
    def f(run, st, c, X, lo, hi):
        front = c.side == "Front"

        def post(run, st, v):
            d = run.eng.variant(st, v, 2)
            inside = decide(st, c_lt(lo, hi))
            run.oblige(st, "in range", (d == 1) == inside, "popping from the part %r..%r answers %s" % (lo, hi, "Some" if d else "None"))
            if not inside or d != 1:
                covers(run, st, now(st), X, lo, hi, "the part")
                return
            covers(run, st, now(st), X, lo + (1 if front else 0), hi - (0 if front else 1), "the part after popping at the %s" % c.side)
            x = run.eng.payload(st, v, 0)
            n = 0
            while isinstance(x, Obj) and x.tag != "BNODE" and len(x.f) == 1 and n < 4:
                x = next(iter(x.f.values()))
                n += 1
            if not (isinstance(x, Obj) and x.tag == "BNODE"):
                raise Stuck("popped %r" % (x,))
            i = lo if front else hi - 1
            wordeq(run, st, "position", content(st, strip_ref(run, st, x.f[0])), part(st, X, i, i + 1), "popping at the %s hands out another child" % c.side)
        return [SELF, side_val(run.lab.p, c.side)], post
    return part_of(f)(run, st, c)


p_pop.borrowed = True


def p_unpop(run, st, c):
    def f(run, st, c, X, lo, hi):
        front = c.side == "Front"
        st.have(c_le(const(1), lo) if front else c_lt(hi, const(c.k)))

        def post(run, st, v):
            covers(run, st, now(st), X, lo - (1 if front else 0), hi + (0 if front else 1), "the part after unpopping at the %s" % c.side)
        return [SELF, side_val(run.lab.p, c.side)], post
    return part_of(f)(run, st, c)


p_unpop.borrowed = True


def p_get(run, st, c, X, lo, hi):
    i = atom("i")
    st.have(c_le(const(0), i))

    def post(run, st, v):
        d = run.eng.variant(st, v, 2)
        inside = decide(st, c_lt(i, hi - lo))
        run.oblige(st, "in range", (d == 1) == inside, "index %r of %r elements answers %s" % (i, hi - lo, "Some" if d else "None"))
        if d == 1 and inside:
            points_to(run, st, strip(run, st, run.eng.payload(st, v, 0)), X, lo + i, "get")
    return [SELF, Int(i)], post


def p_split_leaf(run, st, c, X, lo, hi):
    return p_split_child(run, st, c, X, lo, hi)


def borrow(run, st, c):
    X, o = c.node("A", SELF)

    def post(run, st, v):
        covers(run, st, v, X, const(0), tree.base(st, X).n, "the borrowed node")
    return [SELF], post


# ---------------------------------------------------------------- functions that only choose between leaf and inner node
def abs_node(c, name="A", ref=SELF):
    st = c.st
    k = atom((name, "k"))
    st.have(c_le(const(0), k))
    st.have(c_le(k, W()))
    if c.lvi == 0:
        X = new_base(st, name, n=k, line=None, off=const(0), tot=k, elem=True)
    else:
        st.have(c_le(const(1), k))
        X = new_base(st, name, n=k, line=None, off=const(0), tot=atom((name, "tot")), a=c.lv - 1, b=0, ne="all", cap="inner")
    st.mem[ref.root] = tree.NODE(Word(absint.norm_pieces(st, [("S", X, const(0), k, False)])), c.lv)
    return X


def owner_value(run, c, owner, ref=SELF):
    """how the functions of owner see the node behind ref"""
    if owner in ("NodeRef", "NodeMut"):
        a = next((a for k, a in run.lab.p.adts.items() if a.get("path", k) == NT + owner), None)
        if a is None:
            raise Stuck(owner)
        names = [x["name"] for x in a["variants"]]
        root = ("*", ("wrap", owner))
        c.st.mem[root] = Obj(NT + owner, names.index("Leaf" if c.lvi == 0 else "Internal"), {0: ref})
        return Ref(root)
    return ref


def d_int(owner, g, name="result"):
    def mk(run, st, c):
        X = abs_node(c)

        def post(run, st, v):
            want = g(st, c, X)
            run.oblige(st, name, isinstance(v, Int) and c_eq(v.l, want), "it answers %r instead of %r" % (v, want))
        return [owner_value(run, c, owner)], post
    return mk


def d_bool(owner, g):
    def mk(run, st, c):
        X = abs_node(c)

        def post(run, st, v):
            want = decide(st, g(st, c, X))
            run.oblige(st, "result", decide(st, v.c) == want, "it answers %s" % (not want))
        return [owner_value(run, c, owner)], post
    return mk


def d_get(owner, at=None):
    def mk(run, st, c):
        X = abs_node(c)
        t = tree.base(st, X).tot
        i = atom("i")
        st.have(c_le(const(0), i))
        if at == "front":
            i = const(0)
        elif at == "back":
            i = t - 1

        def post(run, st, v):
            d = run.eng.variant(st, v, 2)
            inside = decide(st, c_lt(i, t)) and decide(st, c_le(const(0), i))
            run.oblige(st, "in range", (d == 1) == inside, "index %r of %r elements answers %s" % (i, t, "Some" if d else "None"))
            if d == 1 and inside:
                points_to(run, st, strip(run, st, run.eng.payload(st, v, 0)), X, i, "it")
        return [owner_value(run, c, owner)] + ([] if at else [Int(i)]), post
    return mk


def d_split(by_child):
    def mk(run, st, c):
        X = abs_node(c)
        rec = tree.base(st, X)
        i = atom("i")
        st.have(c_le(const(0), i))
        st.have(c_le(i, rec.n) if by_child or c.lvi == 0 else c_lt(i, rec.tot))

        def post(run, st, v):
            v = strip_ref(run, st, v)
            x, y = content(st, now(st)), content(st, v)
            w = (part(st, X, const(0), i), part(st, X, i, rec.n)) if by_child else ([("I", rec.line, rec.off, rec.off + i)], [("I", rec.line, rec.off + i, rec.off + rec.tot)])
            wordeq(run, st, "content", x, w[0], "the receiver keeps %s" % show_c(st, x))
            wordeq(run, st, "content", y, w[1], "the result gets %s" % show_c(st, y))
            run.oblige(st, "levels", c_eq(v.f["lv"].l, c.lv), "the result is of level %r" % (v.f["lv"],))
        return [SELF, Int(i)], post
    return mk


def d_share(run, st, c):
    X = abs_node(c)
    Y = abs_node(c, "B", DEST)
    k, m = tree.base(st, X).n, tree.base(st, Y).n
    ln = atom("len")
    st.have(c_le(const(0), ln))

    def post(run, st, v):
        s = ln
        for y in (k, W() - m):
            if not decide(st, c_le(s, y)):
                s = y
        a, b = content(st, now(st)), content(st, now(st, DEST))
        f = c.side == "Front"
        wordeq(run, st, "content", a, part(st, X, s, k) if f else part(st, X, const(0), k - s), "the source keeps %s" % show_c(st, a))
        wordeq(run, st, "content", b, whole(st, Y) + part(st, X, const(0), s) if f else part(st, X, k - s, k) + whole(st, Y), "the destination gets %s" % show_c(st, b))
        run.oblige(st, "result", isinstance(v, Int) and c_eq(v.l, s), "it answers %r but moves %r" % (v, s))
    return [SELF, DEST, side_val(run.lab.p, c.side), Int(ln)], post


def d_empty(run, st, c):
    X = abs_node(c)

    def post(run, st, v):
        v = strip_ref(run, st, v)
        run.oblige(st, "slots", is_node(v) and c_eq(v.f["c"].length(), const(0)), "the new node is not empty")
        run.oblige(st, "levels", c_eq(v.f["lv"].l, c.lv), "the new node is of level %r" % (v.f["lv"],))
    return [SELF], post


def d_end(owner):
    def mk(run, st, c):
        X = abs_node(c)
        n = tree.base(st, X).n

        def contract(run, st, cc):
            i = cc.args[1].l
            run.oblige(st, "position", c_eq(i, const(0) if c.side == "Front" else n - 1), "the child at the %s is looked up at slot %r of %r" % (c.side, i, n))
            return [(st, Sym("child"))]
        run.slot_contract = contract
        eng = run.eng

        def hook(eng, st, cc):
            if cc.name in ("get_child_ref_at_slot", "get_child_mut_at_slot"):
                return contract(run, st, cc)
            return NotImplemented
        eng.hooks.insert(0, hook)
        return [SELF, side_val(run.lab.p, c.side)], lambda run, st, v: None
    return mk


SPECS.update({
    (BINT, "len"): (p_int(lambda st, c, X, lo, hi: size_between(st, X, lo, hi)), False),
    (BINT, "slots"): (p_int(lambda st, c, X, lo, hi: hi - lo), False), (BINT, "level"): (p_int(lambda st, c, X, lo, hi: c.lv, "levels"), False),
    (BINT, "range"): (part_of(p_range), False),
    (BINT, "get_child_mut_at_slot"): (p_child("slot"), False), (BINT, "get_child_mut_for_position"): (p_child("position"), False),
    (BINT, "position_info_for"): (part_of(p_find), False),
    (BINT, "pop_child"): (p_pop, True), (BINT, "unpop_child"): (p_unpop, True),
    (BINT, "split_at_child"): (part_of(p_split_child), False), (BINT, "split_at_position"): (part_of(p_split_pos), False),
    (NT + "BorrowedInternalTrait", "is_empty"): (p_bool(lambda st, c, X, lo, hi: c_eq(size_between(st, X, lo, hi), const(0))), False),
    (NT + "BorrowedInternalTrait", "get_child_mut_at_side"): (p_sided, True),
    (BLEAF, "len"): (p_int(lambda st, c, X, lo, hi: hi - lo), False),
    (BLEAF, "split_at"): (part_of(p_split_leaf), False), (BLEAF, "get_mut"): (part_of(p_get), False), (BLEAF, "get_mut_guarded"): (part_of(p_get), False),
    (INT, "borrow_node"): (borrow, False), (LEAF, "borrow_node"): (borrow, False),
    (NT + "NodeRc", "share_children_with"): (d_share, True), (NT + "NodeRc", "new_empty"): (d_empty, False),
    (NT + "NodeRc", "split_at_child"): (d_split(True), False), (NT + "NodeRc", "split_at_position"): (d_split(False), False),
    (NT + "NodeRc", "get_mut"): (d_get("NodeRc"), False), (NT + "NodeRc", "get_mut_guarded"): (d_get("NodeRc"), False),
    (NT + "NodeRc", "is_full"): (d_bool("NodeRc", lambda st, c, X: c_eq(nch(st, c, X), W())), False),
    (NT + "LeafTrait", "front"): (d_get("LeafTrait", "front"), False), (NT + "LeafTrait", "back"): (d_get("LeafTrait", "back"), False),
    (NT + "LeafTrait", "front_mut"): (d_get("LeafTrait", "front"), False), (NT + "LeafTrait", "back_mut"): (d_get("LeafTrait", "back"), False),
    (NT + "InternalTrait", "get_child_ref_at_side"): (d_end("InternalTrait"), True), (NT + "InternalTrait", "get_child_mut_at_side"): (d_end("InternalTrait"), True),
})
for _o in ("NodeRc", "NodeRef", "NodeMut", "LeafTrait", "InternalTrait"):
    if _o in ("NodeRc", "NodeRef", "NodeMut"):
        SPECS.update({
            (NT + _o, "len"): (d_int(_o, tot, "length"), False), (NT + _o, "slots"): (d_int(_o, nch), False),
            (NT + _o, "level"): (d_int(_o, lambda st, c, X: c.lv, "levels"), False), (NT + _o, "free_slots"): (d_int(_o, lambda st, c, X: W() - nch(st, c, X)), False),
            (NT + _o, "is_leaf"): (d_bool(_o, lambda st, c, X: c_eq(c.lv, const(0))), False), (NT + _o, "get"): (d_get(_o), False)})
    else:
        SPECS[(NT + _o, "is_full")] = (d_bool(_o, lambda st, c, X: c_eq(nch(st, c, X), W())), False)
    SPECS[(NT + _o, "is_empty")] = (d_bool(_o, lambda st, c, X: c_eq(tot(st, c, X), const(0))), False)


def key_of(lab, owner, nm):
    k = lab.key(owner, nm)
    if k is None and owner.endswith("Trait"):
        k = next((k for k, b in lab.p.bodies.items() if b["path"] == owner + "::" + nm), None)
    return k


GROUPS = {"C02": ("content", "no empty child", "slots", "result"), "C09": ("length",),
          "C10": ("sizes", "position", "in range"), "C19": ("levels", "no empty child")}


def setup_for(lab, key, spec, lv, k, side, part=None):
    def setup(run):
        st = St()
        install(run)
        c = Case(run, st, lv, k, side, part)
        args, post = spec(run, st, c)
        if not st.facts.feasible():
            raise Nothing()

        def after(run, st, v):
            settle(st)
            post(run, st, v)
        return args, st, after
    return setup


class Nothing(Diverge):
    """the case does not exist (a push onto a full node, a pop from an empty one)"""

    def __init__(self):
        Diverge.__init__(self, "no such case")


SHARED = {}


def task(job):
    owner, nm, lv, k, side, mode, cfg, part = job
    p = SHARED[cfg]
    lin.set_width(p.width)
    lab = Lab(p, None, max_states=20000)
    key = key_of(lab, owner, nm)

    def setup(run):
        witnessed(run)
        run.eng.deadline = time.time() + 60
        return setup_for(lab, key, SPECS[(owner, nm)][0], lv, k, side, part)(run)
    run = lab.one_run(key, setup, mode, 1)
    if run.error == "diverges at the top: no such case":
        run.error = None
    loc = loc_of(p.bodies[key]["span"])
    log = [(n, v, t[:600], loc_of(sp) if sp else loc, ta) for n, v, t, sp, ta in run.eng.log]
    pan = []
    if mode == "under":
        for st, why, span in run.eng.panics:
            if not st.taint and st.facts.feasible() and tree.find_model(st.facts) is not None:
                pan.append((why, loc_of(span) if isinstance(span, str) and span else loc))
    return dict(error=run.error, rets=len(run.rets or ()), states=run.eng.nstates, log=log, panics=pan)


def witnessed(run):
    """drop failures for which no concrete instance was found"""
    old = run.oblige

    def oblige(st, name, cond, text, span=""):
        n = len(run.eng.log)
        r = old(st, name, cond, text, span)
        if len(run.eng.log) > n and run.eng.log[-1][1] == "fail" and run.mode == "under":
            m = tree.find_model(st.facts)
            x = run.eng.log[-1]
            run.eng.log[-1] = (x[0], "fail" if m is not None else "unknown", x[2], x[3], x[4])
        return r
    run.oblige = oblige


def run_nodes(ctx, prop, names=None):
    only = GROUPS[prop]
    p = Prog("release")
    SHARED["release"] = p
    try:
        SHARED["width4"] = Prog("width4")
        if SHARED["width4"].width != 4:
            raise extract.BuildError("the width constant is not the node width")
    except extract.BuildError as e:
        SHARED.pop("width4", None)
        ctx.undecided("full nodes", "the source cannot be analysed at node width 4: %s" % str(e)[:200])
    lin.set_width(p.width)
    lab = Lab(p, ctx)
    fns = []
    for (owner, nm), (mk, sided) in SPECS.items():
        if names and nm not in names:
            continue
        if key_of(lab, owner, nm) is None:
            ctx.undecided("%s::%s" % (owner.rsplit("::", 1)[-1], nm), "no such function")
            continue
        fns.append((owner, nm, sided))
    res = {}

    def go(js):
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for j, r in zip(js, pool.map(task, js, chunksize=4)):
                res[j] = r
                ctx.count("node layer runs")
                ctx.count("node layer states", r["states"])
    first, second = {}, {}
    for owner, nm, sided in fns:
        sides = SIDES if sided else (None,)
        f = (owner, nm)
        first[f], second[f] = [], []
        if getattr(SPECS[f][0], "borrowed", False):
            for k in range(4):
                second[f] += [(owner, nm, lv, k, s, "under", "release", (lo, hi)) for lv in ((0,) if owner == BLEAF else (1, 2)) for s in sides
                              for lo in range(k + 1) for hi in range(lo, k + 1)]
            continue
        over, under = {INT: ((1, None), (1, 2)), LEAF: ((0,), (0,)), ST: ((1,), (1,)), NT + "LeafTrait": ((0,), (0,)), NT + "InternalTrait": ((None,), (1, 2))}.get(owner, ((0, None), (0, 1, 2)))
        first[f] = [(owner, nm, lv, None, s, "over", "release", None) for lv in over for s in sides]
        for cfg in SHARED:
            ks = (None,) if owner == LEAF and cfg == "release" or owner.startswith(NT) else range(5) if cfg == "width4" else range(4)
            second[f] += [(owner, nm, lv, k, s, "under", cfg, None) for lv in under for k in ks for s in sides]
    go([j for js in first.values() for j in js])
    whole = {f for f, js in first.items() if js and all(not res[j]["error"] and res[j]["rets"] and all(x[1] == "ok" for x in res[j]["log"]) for j in js)}
    go([j for js in second.values() for j in js])
    for f in first:
        title = "%s::%s" % (f[0].rsplit("::", 1)[-1], f[1])
        worst, err = {}, []
        for j in second[f]:
            r = res[j]
            at = "level %s, %s children%s" % (j[2], j[3] if j[3] is not None else "any number of", ", node width 4" if j[6] == "width4" else "")
            if r["error"]:
                err.append(r["error"])
            for n, v, text, loc, ta in r["log"]:
                if n not in only:
                    continue
                worst[n] = max(worst.get(n, 0), ("ok", "unknown", "fail").index(v))
                if v == "fail":
                    ctx.violation("%s: %s" % (title, n), "%s (%s): %s" % (title, at, text), loc)
            if prop in ("C02", "C10"):
                worst.setdefault("completes", 0)
                for why, loc in r["panics"]:
                    worst["completes"] = 2
                    ctx.violation("%s: completes" % title, "%s panics on a well-formed node (%s): %s" % (title, at, why), loc)
        if f in whole and all(v < 2 for v in worst.values()):
            for n in sorted({x[0] for j in first[f] for x in res[j]["log"] if x[0] in only}):
                ctx.ok("%s: %s" % (title, n), "every number of children")
                worst.pop(n, None)
        for n, v in sorted(worst.items()):
            if v == 0 and not err:
                ctx.ok("%s: %s" % (title, n), "exact: up to 3 children, and up to full nodes of width 4")
            elif v < 2:
                ctx.undecided("%s: %s" % (title, n), "; ".join(err[:1]) or "no concrete instance")
        if not worst and err and f not in whole:
            ctx.undecided(title, err[0])
