"""The recursive sorting procedures and how rules look at them."""
from absint import *
from contracts import *
from rules.c12 import recursive

FM = "focus::FocusMut"


def cursor_args(p, key):
    b = p.bodies[key]
    out = []
    for i in range(b["argc"]):
        t = p.types[b["locals"][i + 1][0]]
        if t["k"] == "ref" and p.types[t["ty"]].get("path") == FM:
            out.append(i)
    return out


def sorters(p):
    """recursive functions of the crate that receive mutable cursors"""
    return sorted(k for k, b in p.bodies.items()
                  if p.in_scope(k) and b["kind"] in ("Fn", "AssocFn") and p.self_adt(b) is None and cursor_args(p, k) and recursive(p, k))


def sorter_setup(lab, key, on_call, on_swap=None, on_element=None, init=None, final=None, size=None):
    """the sorter on cursors covering positions 0..n of as many vectors, recursion seen through on_call"""
    p = lab.p

    def setup(run):
        install_cursors(run)
        st = St()
        n = atom("n") if size is None else const(size)
        b = p.bodies[key]
        ca = cursor_args(p, key)
        args = []
        for i in range(b["argc"]):
            nm = b["locals"][i + 1][1] or "a%d" % i
            if i in ca:
                st.mem[("*", ("cur", i))] = Obj("FM", None, {"v": Obj("vid", ("vec", i)), "lo": Int(0), "hi": Int(n)})
                args.append(Ref(("*", ("cur", i))))
            else:
                args.append(run.eng.mk(nm, b["locals"][i + 1][0]))
        run.vids = [("vec", i) for i in ca]
        run.n = n
        if init:
            init(run, st)
        if on_swap:
            run.on_swap = lambda st, a, b, span: on_swap(run, st, a, b, span)
        if on_element:
            run.on_element = lambda st, r, how, span: on_element(run, st, r, how, span)

        def hook(eng, st, c):
            k = eng.target(st, c)
            if k is None or k not in eng.p.bodies or not recursive(eng.p, k):
                return NotImplemented
            cs = []
            for a in c.args:
                try:
                    cs.append(cursor(run, st, a))
                except Stuck:
                    pass
            if not cs:
                return NotImplemented
            after = on_call(run, st, cs, c)
            return [(s, UNIT) for s in (after if isinstance(after, list) and all(isinstance(s, St) for s in after) else [st])]
        run.eng.hooks.insert(1, hook)

        def post(run, st, v):
            if final:
                final(run, st, v)
        return args, st, post
    return setup
