"""C24: searches on sorted input.  The elements are sorted with respect to the callback: it answers Less below L, Greater from E on and
Equal in between, for unknown positions L <= E.  Every search must then answer exactly the equal positions of its range, or the insertion point."""
from facts import Prog
from absint import *
from contracts import *
from rules.c12 import V, vec_args

CORE = ("equal_range_in_range_by", "equal_range_for_index_in_range_by")
BY = ("equal_range_in_range_by", "equal_range_by", "equal_range_for_index_in_range_by", "equal_range_for_index_by")
VALUE = ("equal_range_in_range", "equal_range")
BETWEEN = ("between_range_in_range", "between_range")
ORDER = {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2), "eq": (1,), "ne": (0, 2)}
# where the equal positions lie with respect to the range
CASES = (("equal positions start inside", "and end inside", True, True), ("start inside", "and reach the end", True, False),
         ("start at or before the range", "and end inside", False, True), ("start at or before the range", "and reach the end", False, False))


class Sorted:
    """where the borders lie: rel(st, token, x) = how the element at x compares"""

    def __init__(self, run, st, n):
        self.run, self.n = run, n
        self.b = {}

    def border(self, st, tok):
        if tok not in self.b:
            L, E = atom(("L", tok)), atom(("E", tok))
            self.b[tok] = (L, E)
        L, E = self.b[tok]
        return L, E

    def declare(self, st, tok):
        L, E = self.border(st, tok)
        for c in (c_le(const(0), L), c_le(L, E), c_le(E, self.n)):
            st.have(c)
        return L, E

    def rel(self, st, tok, x):
        L, E = self.border(st, tok)
        if decide(st, c_lt(x, L)):
            return 0
        if decide(st, c_lt(x, E)):
            return 1
        return 2


def below(eng, st, v):
    n = 0
    while isinstance(v, Ref) and is_el(v) is None and n < 6:
        if isinstance(v.root, tuple) and v.root[0] == "*" and v.root[1] in ("value", "b1", "b2"):
            return v
        v = eng.load(st, v)
        n += 1
    return v


def token(v):
    if isinstance(v, Ref) and isinstance(v.root, tuple) and v.root[0] == "*" and v.root[1] in ("value", "b1", "b2"):
        return v.root[1]
    return None


def install(run, srt, callback):
    eng = run.eng
    install_cursors(run)
    eng.pure_callbacks = True
    progress(run)
    old = eng.user_call

    def user_call(st, v, args, c):
        xs = [is_el(below(eng, st, a)) for a in args if isinstance(a, Ref)]
        if len(args) == 1 and isinstance(args[0], Obj) and args[0].tag == "tuple":
            xs = [is_el(below(eng, st, a)) for a in args[0].f.values()]
        xs = [x for x in xs if x is not None]
        if callback and len(xs) == 1:
            return [(st, Obj("Ordering", srt.rel(st, "f", xs[0][1])))]
        return old(st, v, args, c)
    eng.user_call = user_call

    def compare(eng, st, c):
        own, nm = models.lookup(c.ref["path"])
        if own not in ("PartialOrd", "Ord", "PartialEq") or nm not in ("cmp", "partial_cmp") + tuple(ORDER) or len(c.args) != 2:
            return NotImplemented
        a, b = below(eng, st, c.args[0]), below(eng, st, c.args[1])
        ea, eb, ta, tb = is_el(a), is_el(b), token(a), token(b)
        if ea is not None and tb is not None:
            r = srt.rel(st, tb, ea[1])
        elif eb is not None and ta is not None:
            r = 2 - srt.rel(st, ta, eb[1])
        elif ea is not None or eb is not None or ta is not None or tb is not None:
            raise Stuck("comparison of %r and %r" % (a, b))
        else:
            return NotImplemented
        if nm == "cmp":
            return [(st, Obj("Ordering", r))]
        if nm == "partial_cmp":
            return [(st, some(Obj("Ordering", r)))]
        return [(st, TRUE if r in ORDER[nm] else FALSE)]
    eng.hooks.insert(1, compare)


def progress(run):
    """every iteration changes what the next one looks at (answers depend on positions only, so one that does not repeats for ever)"""
    def numbers(fr, st):
        return {r: v.l for r, v in st.mem.items() if r[0] == "L" and r[1] == fr.fid and isinstance(v, Int)}

    def others(fr, st):
        return {r: repr(v) for r, v in st.mem.items() if r[0] == "L" and r[1] == fr.fid and not isinstance(v, Int)}

    def head(eng, fr, lp, st, phase):
        at = ("at", fr.fid, lp.head)
        if phase in ("entry", "head"):
            st.g[at] = (numbers(fr, st), others(fr, st))
            return
        if at not in st.g:
            return
        old, rest = st.g[at]
        now = numbers(fr, st)
        cs = [c_ne(now[r], old[r]) for r in now if r in old and now[r] != old[r]]
        if set(now) - set(old) or {r: x for r, x in others(fr, st).items() if rest.get(r) != x}:
            return
        c = ("F",)
        for x in cs:
            c = x if c == ("F",) else ("or", c, x)
        if c != ("F",) and any(st.facts.entails(x) for x in cs):
            c = ("T",)
        t = fr.b["blocks"][lp.head]["t"]
        run.oblige(st, "every step narrows the search", c if cs else False, "an iteration leaves the bounds of the search as they were",
                   t[-1] if isinstance(t[-1], str) else "")
    run.eng.on_head.append(head)


def largest(st, a, b):
    return b if decide(st, c_le(a, b)) else a


def smallest(st, a, b):
    return a if decide(st, c_le(a, b)) else b


def spec(st, L, E, s, e):
    """('ok', lo, hi) or ('err', at)"""
    if not decide(st, c_lt(s, e)):
        return "err", s, None
    lo, hi = largest(st, L, s), smallest(st, E, e)
    if decide(st, c_lt(lo, hi)):
        return "ok", lo, hi
    return "err", largest(st, s, smallest(st, L, e)), None


def mk_range(lo, hi):
    return Obj("Range", None, {0: Int(lo), 1: Int(hi)})


def delegate(run, st, c, srt, kind, vid, n, border):
    """one of the two searches called by another one"""
    eng = run.eng
    if vid_of(c.args[0]) != vid:
        raise Stuck("search of another vector")
    rs, index, fs = [], None, []
    for a in c.args[1:]:
        try:
            rs.append(bounds_of(run, st, a, n))
            continue
        except Stuck:
            pass
        if isinstance(a, Int):
            index = a.l
        else:
            fs.append(a)
    if len(rs) != 1 or len(fs) != 1 or (index is None) == (kind == CORE[1]):
        raise Stuck("delegation")
    lo, hi = rs[0]
    L, E = border(st)
    # what the callback handed over answers for any position of that range
    x = atom(("probe", c.site))
    s2 = st.copy()
    outs = []
    s2.have(c_le(lo, x))
    s2.have(c_lt(x, hi))
    if s2.facts.consistent():
        f = fs[0]
        k = 0
        while isinstance(f, Ref) and k < 4:
            f2 = eng.load(s2, f)
            if isinstance(f2, Sym):
                f = f2
                break
            f = f2
            k += 1
        outs = eng.call_value(s2, f, [elref(vid, x)], c, "probe")
    return lo, hi, index, L, E, outs, x


def setup_for(lab, key, nm, combo, case, bounds=None):
    p = lab.p

    def setup(run):
        st = St()
        me = Ref(("*", ("vec", 0)))
        n = vec_len(run, st, me)
        st.have(c_le(const(0), n))
        srt = Sorted(run, st, n)
        by = nm in BY
        install(run, srt, by)
        b = p.bodies[key]
        if vec_args(p, key) != [0]:
            raise Stuck("receiver")
        args, rng, index, nb = [me], (const(0), n), None, 0
        for i in range(1, b["argc"]):
            t = p.types[b["locals"][i + 1][0]]
            if t["k"] == "param":
                v, s, e = range_arg(run, st, combo, n)
                rng = (s, e)
                args.append(v)
            elif t["k"] == "int":
                index = atom("index")
                st.have(c_le(const(0), index))
                args.append(Int(index))
            elif t["k"] == "ref":
                if by:
                    args.append(Sym("callback"))
                else:
                    args.append(Ref(("*", "value")))
            elif t.get("path", "").endswith("Bound"):
                k = bounds[nb]
                nb += 1
                args.append(Obj("Bound", BV[k], {} if k == "Unbounded" else {0: Ref(("*", "b%d" % nb))}))
            else:
                raise Stuck("argument")
        s, e = rng
        if by:
            L, E = srt.declare(st, "f")
        elif nm in VALUE:
            L, E = srt.declare(st, "value")
        else:
            L1, E1 = srt.declare(st, "b1")
            L2, E2 = srt.declare(st, "b2")
            L = {"Included": L1, "Excluded": E1, "Unbounded": const(0)}[bounds[0]]
            E = {"Included": E2, "Excluded": L2, "Unbounded": n}[bounds[1]]
            st.have(c_le(L, E))
        if case is not None:
            st.have(c_lt(s, L) if case[2] else c_le(L, s))
            st.have(c_lt(E, e) if case[3] else c_le(e, E))
        if not st.facts.consistent():
            return None
        run.eng.borders = [L, E, s, e]
        vid = vid_of(me)
        for core in CORE:
            dk = lab.key(V, core)
            if dk is None or dk == key:
                continue

            def delegated(run, st, c, core=core):
                lo, hi, ix, L_, E_, outs, x = delegate(run, st, c, srt, core, vid, n, lambda st: (L, E))
                for s2, v in outs:
                    want = 0 if decide(s2, c_lt(x, L)) else 1 if decide(s2, c_lt(x, E)) else 2
                    d = run.eng.variant(s2, v, 3)
                    run.oblige(s2, "compares as named", d == want, "the callback handed to %s answers %s for an element that is %s" % (
                        core, ("Less", "Equal", "Greater")[d], ("before", "among", "after")[want] + " the positions searched for"), c.span)
                if core == CORE[0]:
                    how, a, z = spec(st, L, E, lo, hi)
                    if how == "ok":
                        return [(st, Obj("Result", 0, {0: mk_range(a, z)}))]
                    return [(st, Obj("Result", 1, {0: Int(a)}))]
                if decide(st, c_le(lo, ix)) and decide(st, c_lt(ix, hi)) and decide(st, c_le(L, ix)) and decide(st, c_lt(ix, E)):
                    return [(st, mk_range(largest(st, L, lo), smallest(st, E, hi)))]
                return [(st, mk_range(const(0), const(0)))]
            run.contracts[dk] = delegated

        def post(run, st, v):
            if index is not None:
                lo, hi = models.range_parts(run.eng, st, v)
                if decide(st, c_le(s, index)) and decide(st, c_lt(index, e)) and decide(st, c_le(L, index)) and decide(st, c_lt(index, E)):
                    a, z = largest(st, L, s), smallest(st, E, e)
                    run.oblige(st, "answers the equal range", ("and", c_eq(lo, a), c_eq(hi, z)),
                               "with index %r, equal positions %r..%r and range %r..%r the answer is %r..%r" % (index, L, E, s, e, lo, hi))
                else:
                    run.oblige(st, "answers the equal range", c_le(hi, lo),
                               "with index %r, equal positions %r..%r and range %r..%r the answer is %r..%r, not an empty range" % (index, L, E, s, e, lo, hi))
                return
            d = run.eng.variant(st, v, 2)
            x = run.eng.payload(st, v, 0)
            how, a, z = spec(st, L, E, s, e)
            text = "with equal positions %r..%r and range %r..%r" % (L, E, s, e)
            if d == 1:
                x = models.as_usize(run.eng, x)
                run.oblige(st, "answers the equal range", how == "err", "%s the answer is an insertion point" % text)
                if how == "err":
                    run.oblige(st, "answers the insertion point", c_eq(x, a), "%s the insertion point answered is %r instead of %r" % (text, x, a))
            else:
                lo, hi = models.range_parts(run.eng, st, x)
                if how == "err":
                    run.oblige(st, "answers the equal range", False, "%s the answer is Ok(%r..%r) although none is equal" % (text, lo, hi))
                else:
                    run.oblige(st, "answers the equal range", ("and", c_eq(lo, a), c_eq(hi, z)), "%s the answer is %r..%r" % (text, lo, hi))
        return args, st, post
    return setup


def run(ctx):
    p = Prog("release")
    lab = Lab(p, ctx, max_states=20000, phases=4)
    ctx.rule("Each search is analysed on a vector of unknown length that is sorted with respect to its callback or value (answers Less below an unknown "
             "position L, Greater from an unknown position E on, Equal between them), for every range: it must answer exactly the equal positions "
             "inside the range, or Err with the position where such an element would be inserted; the searches by value or bounds must hand on a "
             "callback that classifies every element as their name says.")
    n = 0
    never = lambda st, why: False
    for nm in BY + VALUE + BETWEEN:
        k = lab.key(V, nm)
        if k is None:
            ctx.undecided(nm, "no such operation")
            continue
        n += 1
        ranged = any(p.types[p.bodies[k]["locals"][i + 1][0]]["k"] == "param" for i in range(p.bodies[k]["argc"]))
        for bounds in RANGE_COMBOS if nm in BETWEEN else (None,):
            for combo in RANGE_COMBOS if ranged and (bounds is None or bounds == ("Included", "Excluded")) else (("Unbounded", "Unbounded"),):
                for case in CASES if nm in CORE else (None,):
                    what = "range: %s start, %s end" % combo if ranged else ""
                    if bounds:
                        what = "bounds: %s, %s; %s" % (*bounds, what)
                    if case:
                        what += "; equal positions " + case[0] + " " + case[1]
                    lab.judge("%s(%s)" % (nm, what), k, setup_for(lab, k, nm, combo, case, bounds), ("answers the equal range",), panic_ok=never)
                    ctx.count("operation x bounds")
    ctx.floor("searches", 8, n)
