"""C14: in a dual sort every exchange in the primary is matched, in order, by the same exchange in the secondary."""
from facts import Prog
from absint import *
from contracts import *
import sorters
from rules.c12 import make_args, vec_args, sorter_hook, V


def pend(st):
    return st.mem.get(("G", "pend"), Obj("pend"))


def init(run, st):
    st.mem[("G", "pend")] = Obj("pend")

    def head(eng, fr, lp, s, phase):
        if phase in ("first", "later"):
            t = fr.b["blocks"][lp.head]["t"]
            none_left(run, s, "an iteration ends", t[-1] if isinstance(t[-1], str) else "")
    run.eng.on_head.append(head)


def on_swap(run, st, a, b, span):
    (va, x), (vb, y) = a, b
    if va != vb:
        run.oblige(st, "exchanges stay within one vector", False, "an element of one vector is exchanged with one of the other", span)
        return
    if decide(st, c_eq(x, y)):
        return
    q = pend(st)
    items = [q.f[i] for i in sorted(q.f)]
    if items and items[0].var != va:
        j = None
        for i, o in enumerate(items):
            p0, p1 = o.f[0].l, o.f[1].l
            if st.facts.entails(("and", c_eq(p0, x), c_eq(p1, y))) or st.facts.entails(("and", c_eq(p0, y), c_eq(p1, x))):
                j = i
                break
        if j is None:
            o = items[0]
            p0, p1 = o.f[0].l, o.f[1].l
            if len(items) == 1:
                run.oblige(st, "same positions in both vectors",
                           ("or", ("and", c_eq(p0, x), c_eq(p1, y)), ("and", c_eq(p0, y), c_eq(p1, x))),
                           "positions %r and %r of one vector are exchanged, but %r and %r of the other" % (p0, p1, x, y), span)
                j = 0
            else:
                st.spoil("exchanges matched out of order")
                j = 0
        else:
            if j:
                st.spoil("exchanges matched out of order")
            run.oblige(st, "same positions in both vectors", ("T",), "", span)
        items.pop(j)
    else:
        if len(items) > 6:
            raise Stuck("too many unmatched exchanges")
        items.append(Obj("swap", va, {0: Int(x), 1: Int(y)}))
    st.mem[("G", "pend")] = Obj("pend", None, dict(enumerate(items)))


def none_left(run, st, where, span=""):
    q = pend(st)
    if not isinstance(q, Obj):
        st.spoil("unmatched exchanges unknown")
    n = len(q.f) if isinstance(q, Obj) else 0
    run.oblige(st, "every exchange is matched", n == 0,
               "%s while an exchange of positions %s is not matched in the other vector" %
               (where, ", ".join("%r/%r" % (x.f[0].l, x.f[1].l) for x in q.f.values() if isinstance(x, Obj)) if n else ""), span)


def on_call(run, st, cs, c):
    none_left(run, st, "the sort recurses", c.span)
    run.oblige(st, "recurses on the same part of both", {x[1] for x in cs} == set(run.vids) and len(cs) == len(run.vids),
               "the recursion does not receive one cursor of each vector", c.span)
    for x in cs[1:]:
        run.oblige(st, "recurses on the same part of both", ("or", ("and", c_eq(x[2], cs[0][2]), c_eq(x[3], cs[0][3])),
                                                             ("and", c_le(x[3] - x[2], const(1)), c_le(cs[0][3] - cs[0][2], const(1)))),
                   "the recursion gets %r..%r of one vector and %r..%r of the other" % (cs[0][2], cs[0][3], x[2], x[3]), c.span)


def entry_setup(lab, key):
    """public dual sorts: both cursors handed to the sorter cover the same positions, whatever the bounds are"""
    p = lab.p

    def setup(run):
        install_cursors(run)
        st = St()
        vs = vec_args(p, key)
        fixed = {i: Ref(("*", ("vec", i))) for i in vs}
        n = vec_len(run, st, fixed[0])
        try:
            args, (s, e) = make_args(run, key, st, ("Included", "Excluded"), n, fixed)
        except Stuck:
            b = p.bodies[key]
            args = [fixed[i] if i in fixed else run.eng.mk(b["locals"][i + 1][1] or "a%d" % i, b["locals"][i + 1][0]) for i in range(b["argc"])]
            s, e = const(0), n
        for i in vs[1:]:
            st.have(c_le(e, vec_len(run, st, fixed[i])))
        want = {vid_of(fixed[i]) for i in vs}
        init(run, st)
        run.on_swap = lambda st, a, b, span: on_swap(run, st, a, b, span)

        def checks(st, cs, c):
            run.oblige(st, "both vectors are sorted together", {x[1] for x in cs} == want and len(cs) == len(want),
                       "the sorter is not given one cursor of each vector", c.span)
            for x in cs[1:]:
                run.oblige(st, "starts on the same part of both", ("and", c_eq(x[2], cs[0][2]), c_eq(x[3], cs[0][3])),
                           "the sorter gets %r..%r of one vector and %r..%r of the other" % (cs[0][2], cs[0][3], x[2], x[3]), c.span)
        sorter_hook(run, st, checks)

        def post(run, st, v):
            none_left(run, st, "the operation returns")
        return args, st, post
    return setup


def run(ctx):
    p = Prog("release")
    lab = Lab(p, ctx, max_states=60000, phases=2, samples=60)
    ctx.rule("The recursive dual sorter is analysed on two cursors of equal, unknown length with arbitrary comparator answers: exchanges of "
             "the two vectors are paired in order and must name the same positions, none may be pending when the sorter recurses, loops or "
             "returns, and recursion and entry must hand over the same part of both vectors.")
    n = 0
    for k in sorters.sorters(p):
        if len(sorters.cursor_args(p, k)) < 2:
            continue
        n += 1
        lab.judge(p.bodies[k]["name"], k,
                  sorters.sorter_setup(lab, k, on_call, on_swap=on_swap, init=init,
                                       final=lambda run, st, v: none_left(run, st, "the sort returns")),
                  ("same positions in both vectors", "every exchange is matched", "recurses on the same part of both"))
    if not n:
        ctx.undecided("dual sorter", "no recursive procedure takes two cursors")
    m = 0
    for nm in ("dual_sort", "dual_sort_by", "dual_sort_range", "dual_sort_range_by", "dual_sort_range_by_key"):
        k = lab.key(V, nm)
        if k is None:
            ctx.undecided(nm, "no such operation")
            continue
        m += 1
        lab.judge(nm, k, entry_setup(lab, k), ("starts on the same part of both",))
    ctx.floor("dual sort operations", 5, m)
