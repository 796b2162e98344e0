"""C22: a sort, reverse or search restricted to a range examines, compares and exchanges only positions inside it."""
from facts import Prog
from absint import *
from contracts import *
from rules.c12 import V, SORTS, SEARCH, make_args, vec_args, sorter_hook
import sorters


def inside(run, st, x, s, e, combo, what, span):
    run.oblige(st, "stays inside the range", ("and", c_le(s, x), c_lt(x, e)),
               "with a %s start and %s end, %s position %r, outside %r..%r" % (*combo, what, x, s, e), span)
    st.mem[("G", "did")] = TRUE


def op_setup(lab, key, combo):
    p = lab.p

    def setup(run):
        install_cursors(run)
        run.eng.pure_callbacks = True
        st = St()
        vs = vec_args(p, key)
        fixed = {i: Ref(("*", ("vec", i))) for i in vs}
        if 0 not in vs:
            raise Stuck("receiver")
        n = vec_len(run, st, fixed[0])
        args, (s, e) = make_args(run, key, st, combo, n, fixed)
        for i in vs[1:]:
            st.have(c_le(e, vec_len(run, st, fixed[i])))

        def on_element(st, r, how, span):
            inside(run, st, is_el(r)[1], s, e, combo, how, span)
        run.on_element = on_element

        def checks(st, cs, c):
            for v, vid, lo, hi in cs:
                run.oblige(st, "stays inside the range", ("or", c_le(hi, lo), ("and", c_le(s, lo), c_le(hi, e))),
                           "with a %s start and %s end, positions %r..%r are handed to the sorter (range %r..%r)" % (*combo, lo, hi, s, e), c.span)
            st.mem[("G", "did")] = TRUE
        sorter_hook(run, st, checks)
        dk = lab.key(V, "equal_range_in_range_by")
        if dk is not None and dk != key:
            def delegated(run, st, c):
                rs = []
                for a in c.args:
                    try:
                        rs.append(bounds_of(run, st, a, n))
                    except Stuck:
                        pass
                if len(rs) != 1:
                    raise Stuck("delegation")
                lo, hi = rs[0]
                run.oblige(st, "stays inside the range", ("or", c_le(hi, lo), ("and", c_le(s, lo), c_le(hi, e))),
                           "with a %s start and %s end, the search runs over %r..%r (range %r..%r)" % (*combo, lo, hi, s, e), c.span)
                return [(st, Obj("delegated"))]
            run.contracts[dk] = delegated

        def post(run, st, v):
            # nothing outside the range was touched on the way here
            run.oblige(st, "stays inside the range", ("T",), "")
        return args, st, post
    return setup


def rec_init(run, st):
    pass


def run(ctx):
    p = Prog("release")
    lab = Lab(p, ctx, max_states=20000)
    ctx.rule("Each range-restricted sort, reverse and search is analysed for all nine bound combinations: every element position that is "
             "accessed, passed to a callback or exchanged, and every part handed to the sorter or to another search, must lie in [s, e); "
             "the sorter itself reaches elements only through the cursors it is given.")
    n = 0
    for nm in SORTS + ("reverse_range",) + SEARCH:
        k = lab.key(V, nm)
        if k is None:
            ctx.undecided(nm, "no such operation")
            continue
        n += 1
        for combo in RANGE_COMBOS:
            lab.judge("%s(%s start, %s end)" % (nm, *combo), k, op_setup(lab, k, combo), ("stays inside the range",))
            ctx.count("operation x bounds")
    ctx.floor("range-restricted operations", 11, n)
    # the sorter: no vector, element reference or cell other than through its cursors
    for k in sorters.sorters(p):
        b = p.bodies[k]
        ca = sorters.cursor_args(p, k)
        bad = []
        for i in range(b["argc"]):
            if i not in ca:
                t = p.types[b["locals"][i + 1][0]]
                while t["k"] in ("ref", "ptr"):
                    t = p.types[t["ty"]]
                if t["k"] == "adt" and (t.get("path") or "").startswith(("vector::", "focus::", "node_")):
                    bad.append(t["path"])
        if bad:
            ctx.undecided(b["name"] + ": reaches elements only through cursors", "also receives " + ", ".join(bad))
        else:
            ctx.ok(b["name"] + ": reaches elements only through cursors")
        ctx.count("sorters")
        lab.judge(b["name"], k, sorters.sorter_setup(
            lab, k, lambda run, st, cs, c: [run.oblige(st, "recurses inside its part", ("and", c_le(const(0), x[2]), c_le(x[3], run.n)),
                                                       "the recursion gets %r..%r of 0..%r" % (x[2], x[3], run.n), c.span) for x in cs],
            on_element=lambda run, st, r, how, span: run.oblige(st, "stays inside its part", ("and", c_le(const(0), is_el(r)[1]), c_lt(is_el(r)[1], run.n)),
                                                                "%s position %r of 0..%r" % (how, is_el(r)[1], run.n), span)),
                  ("recurses inside its part", "stays inside its part"))
