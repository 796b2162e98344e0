"""C12: range arguments.  Every operation that takes a range is analysed once per combination of start and end bound
(included / excluded / unbounded), with symbolic bound values and a symbolic length; what it does to the vector must be
expressed by the standard positions [s, e) of that combination."""
from facts import Prog, loc_of
from absint import *
import absint
from contracts import *
import lin

V = "vector::InternalVector"
SORTS = ("sort_range_by", "sort_range", "sort_range_by_key", "dual_sort_range_by", "dual_sort_range", "dual_sort_range_by_key")
SEARCH = ("equal_range_in_range_by", "equal_range_in_range", "between_range_in_range", "equal_range_for_index_in_range_by")


def recursive(p, k, memo={}):
    r = memo.get((id(p), k))
    if r is None:
        cg = p.callgraph()
        r = k in p.reach(list(cg.get(k, ())))
        memo[(id(p), k)] = r
    return r


def make_args(run, key, st, combo, length, fixed):
    """arguments of a public operation; the by-value generic parameter is the range"""
    p = run.lab.p
    b = p.bodies[key]
    args = []
    rng = None
    for i in range(b["argc"]):
        ti = b["locals"][i + 1][0]
        nm = b["locals"][i + 1][1] or "a%d" % i
        if i in fixed:
            args.append(fixed[i])
            continue
        t = p.types[ti]
        if t["k"] == "param":
            if rng is not None:
                raise Stuck("two generic arguments")
            v, s, e = range_arg(run, st, combo, length)
            rng = (s, e)
            args.append(v)
        elif t["k"] == "int":
            args.append(Int(atom(nm)))
        elif t["k"] == "ref":
            args.append(Ref(("*", nm)))
        else:
            args.append(Sym(nm))
    if rng is None:
        raise Stuck("no range argument")
    return args, rng


def vec_args(p, key):
    """indices of the arguments that are references to vectors"""
    b = p.bodies[key]
    out = []
    for i in range(b["argc"]):
        t = p.types[b["locals"][i + 1][0]]
        if t["k"] == "ref" and p.types[t["ty"]].get("path") == V:
            out.append(i)
    return out


def sorter_hook(run, st0, checks):
    """a recursive local function that receives cursors is the sorter: report what it is given"""
    def hook(eng, st, c):
        k = eng.target(st, c)
        if k is None or k not in eng.p.bodies or not recursive(eng.p, k):
            return NotImplemented
        cs = []
        for a in c.args:
            try:
                cs.append(cursor(run, st, a))
            except Stuck:
                pass
        cs = [x for x in cs if x[0].tag == "FM"]
        if not cs:
            return NotImplemented
        checks(st, cs, c)
        return [(st, UNIT)]
    run.eng.hooks.insert(1, hook)


def sort_setup(lab, key, combo):
    p = lab.p

    def setup(run):
        install_cursors(run)
        st = St()
        vs = vec_args(p, key)
        fixed = {}
        lens = {}
        for i in vs:
            nm = p.bodies[key]["locals"][i + 1][1] or "a%d" % i
            fixed[i] = Ref(("*", ("vec", i)))
        if 0 not in vs:
            raise Stuck("receiver")
        n = vec_len(run, st, fixed[0])
        args, (s, e) = make_args(run, key, st, combo, n, fixed)
        for i in vs[1:]:
            st.have(c_le(e, vec_len(run, st, fixed[i])))
        want = {vid_of(fixed[i]) for i in vs}

        def checks(st, cs, c):
            got = {x[1] for x in cs}
            run.oblige(st, "sorts the vectors it was given", got == want, "the sorter is not given one cursor per vector", c.span)
            for v, vid, lo, hi in cs:
                run.oblige(st, "acts on exactly [s, e)", ("and", c_eq(lo, s), c_eq(hi, e)),
                           "with a %s start and %s end the sorted part is %r..%r instead of %r..%r" % (*combo, lo, hi, s, e), c.span)
            st.mem[("G", "sorted")] = Int(st.mem.get(("G", "sorted"), Int(0)).l + 1)
        sorter_hook(run, st, checks)

        def post(run, st, v):
            n = st.mem.get(("G", "sorted"))
            if n is None:
                run.oblige(st, "acts on exactly [s, e)", c_le(e - s, const(1)), "a range of two or more positions is not sorted at all")
        return args, st, post
    return setup


def reverse_setup(lab, key, combo):
    def setup(run):
        install_cursors(run)
        st = St()
        self = Ref(("*", ("vec", 0)))
        n = vec_len(run, st, self)
        args, (s, e) = make_args(run, key, st, combo, n, {0: self})
        st.mem[("G", "n")] = Int(0)

        def on_swap(st, a, b, span):
            (va, x), (vb, y) = a, b
            run.oblige(st, "exchanges mirrored positions", c_eq(x + y, s + e - 1),
                       "with a %s start and %s end, position %r is exchanged with %r (range %r..%r)" % (*combo, x, y, s, e), span)
            run.oblige(st, "acts inside [s, e)", ("and", ("and", c_le(s, x), c_lt(x, e)), ("and", c_le(s, y), c_lt(y, e))),
                       "position %r or %r is outside %r..%r" % (x, y, s, e), span)
            st.mem[("G", "n")] = Int(st.mem[("G", "n")].l + 1)
        run.on_swap = on_swap

        def post(run, st, v):
            k = st.mem[("G", "n")].l.scale(2)
            run.oblige(st, "covers [s, e)", ("and", c_le(k, e - s), c_le(e - s - 1, k)),
                       "with a %s start and %s end, %r pairs are exchanged in a range of %r positions" % (*combo, st.mem[("G", "n")].l, e - s))
        return args, st, post
    return setup


def search_setup(lab, key, combo):
    p = lab.p

    def setup(run):
        install_cursors(run)
        run.eng.pure_callbacks = True
        st = St()
        self = Ref(("*", ("vec", 0)))
        n = vec_len(run, st, self)
        args, (s, e) = make_args(run, key, st, combo, n, {0: self})
        index = None
        b = p.bodies[key]
        for i in range(b["argc"]):
            if isinstance(args[i], Int):
                index = args[i].l

        def on_element(st, r, how, span):
            vid, x = is_el(r)
            run.oblige(st, "examines only [s, e)", ("and", c_le(s, x), c_lt(x, e)),
                       "with a %s start and %s end, position %r is examined (range %r..%r)" % (*combo, x, s, e), span)
            st.mem[("G", "looked")] = TRUE
        run.on_element = on_element

        dk = lab.key(V, "equal_range_in_range_by")
        if dk is not None and dk != key:
            def delegated(run, st, c):
                rs = []
                for a in c.args:
                    try:
                        rs.append(bounds_of(run, st, a, n))
                    except Stuck:
                        pass
                if len(rs) != 1 or vid_of(c.args[0]) != vid_of(self):
                    raise Stuck("delegation")
                lo, hi = rs[0]
                run.oblige(st, "examines only [s, e)", ("or", ("and", c_eq(lo, s), c_eq(hi, e)), ("and", c_le(e, s), c_le(hi, lo))),
                           "with a %s start and %s end, the search runs over %r..%r instead of %r..%r" % (*combo, lo, hi, s, e), c.span)
                run.oblige(st, "answers inside [s, e)", ("T",), "")
                return [(st, Obj("delegated"))]
            run.contracts[dk] = delegated

        def post(run, st, v):
            if isinstance(v, Obj) and v.tag == "delegated":
                return
            looked = ("G", "looked") in st.mem
            if index is not None:
                if not looked:
                    run.oblige(st, "examines [s, e)", ("or", c_lt(index, s), c_le(e, index)),
                               "with a %s start and %s end, position %r inside the range is not examined" % (*combo, index))
                    return
                lo, hi = models.range_parts(run.eng, st, v)
                if st.facts.entails(("and", c_eq(lo, const(0)), c_eq(hi, const(0)))):
                    return
                run.oblige(st, "answers inside [s, e)", ("and", c_le(s, lo), c_le(hi, e)),
                           "with a %s start and %s end, the answer %r..%r leaves %r..%r" % (*combo, lo, hi, s, e))
                return
            if not looked:
                run.oblige(st, "examines [s, e)", c_le(e, s), "with a %s start and %s end, a non-empty range is not examined" % combo)
            d = run.eng.variant(st, v, 2)
            x = run.eng.payload(st, v, 0)
            if d == 1:
                x = models.as_usize(run.eng, x)
                run.oblige(st, "answers inside [s, e)", ("and", c_le(s, x), c_le(x, e)),
                           "with a %s start and %s end, the insertion point %r is outside %r..%r" % (*combo, x, s, e))
            else:
                lo, hi = models.range_parts(run.eng, st, x)
                run.oblige(st, "answers inside [s, e)", ("and", c_le(s, lo), c_le(hi, e)),
                           "with a %s start and %s end, the answer %r..%r leaves %r..%r" % (*combo, lo, hi, s, e))
        return args, st, post
    return setup


def narrow_setup(lab, key, combo):
    """Focus::narrow on a cursor whose part is R.start..R.end: the new cursor is built for R.start+s .. R.start+e"""
    p = lab.p

    def setup(run):
        st = St()
        nk = lab.key("focus::Focus", "narrowed_tree")
        lk = lab.key("focus::Focus", "len")
        if nk is None or lk is None:
            raise Stuck("anchors")
        a = p.adts[p.types[p.bodies[key]["self_ty"]]["def"]]
        names = [f["name"] for f in a["variants"][0]["fields"]]
        if "range" not in names:
            raise Stuck("no range field")
        ri = names.index("range")
        self = Ref(("*", "cur"))
        r0, r1 = atom((("*", "cur"), ri, 0)), atom((("*", "cur"), ri, 1))
        r0, r1 = atom("p0"), atom("p1")
        st.mem[("*", "cur")] = Obj("focus::Focus", None, {ri: Obj("Range", None, {0: Int(r0), 1: Int(r1)})}, "cur")
        st.have(c_le(r0, r1))
        outs = run.eng.start(lk, [self], st)
        if len(outs) != 1:
            raise Stuck("len")
        n = outs[0][1].l
        args, (s, e) = make_args(run, key, st, combo, n, {0: self})

        def built(run, st, c):
            rg = [models.ld(run.eng, st, x) for x in c.args if isinstance(x, (Obj, Sym))]
            rg = [x for x in rg if isinstance(x, Obj) and x.tag == "Range"]
            if len(rg) != 1:
                raise Stuck("narrowed_tree arguments")
            return [(st, Obj("focus::Focus", None, {ri: rg[0]}, ("cur", c.site)))]
        run.contracts[nk] = built

        def post(run, st, v):
            x = run.eng.read(st, ("*", "cur"), (("f", ri),))
            lo, hi = models.range_parts(run.eng, st, x)
            run.oblige(st, "acts on exactly [s, e)", ("and", c_eq(lo, r0 + s), c_eq(hi, r0 + e)),
                       "with a %s start and %s end, a cursor over %r..%r becomes %r..%r" % (*combo, r0, r1, lo, hi))
        return args, st, post
    return setup


def vec_word(run, st, ref):
    v = ref
    n = 0
    while isinstance(v, Ref) and n < 4:
        r = v
        v = run.eng.load(st, v)
        n += 1
    if isinstance(v, Obj) and v.tag == "VEC":
        return (r if isinstance(ref, Ref) else None), v.f["w"]
    raise Stuck("vector expected: %r" % (v,))


LEN = None      # the vector's length field, for operations that read it directly


def VEC(w):
    f = {"w": Word(w.p)}
    if LEN is not None:
        f[LEN] = Int(w.length())
    return Obj("VEC", None, f)


def install_vectors(run, names=None, keep=None):
    """whole-vector operations on sequences of elements"""
    global LEN
    lab, eng = run.lab, run.eng
    a = next((a for k, a in lab.p.adts.items() if a.get("path", k) == V), None)
    fs = [f["name"] for f in a["variants"][0]["fields"]] if a else []
    LEN = fs.index("len") if "len" in fs else None

    def split_off(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        i = idx(c)
        if not decide(st, c_lt(i, w.length())):
            return [(st, VEC(Word()))]
        a, b = eng.word_cut(st, w, i)
        eng.store(st, r, VEC(a))
        return [(st, VEC(b))]

    def append(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        _, o = vec_word(run, st, c.args[1])
        eng.store(st, r, VEC(Word(absint.norm_pieces(st, list(w.p) + list(o.p)))))
        return [(st, UNIT)]

    def prepend(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        _, o = vec_word(run, st, c.args[1])
        eng.store(st, r, VEC(Word(absint.norm_pieces(st, list(o.p) + list(w.p)))))
        return [(st, UNIT)]

    def vlen(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        return [(st, Int(w.length()))]

    def vempty(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        return [(st, Bool(c_eq(w.length(), const(0))))]

    def new(run, st, c):
        return [(st, VEC(Word()))]

    def push(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        x = eng.piece_of(st, c.args[1])
        ps = list(w.p) + [x] if c.name == "push_back" else [x] + list(w.p)
        eng.store(st, r, VEC(Word(absint.norm_pieces(st, ps))))
        return [(st, UNIT)]

    def pop(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        if decide(st, c_eq(w.length(), const(0))):
            return [(st, NONE)]
        at = const(1) if c.name == "pop_front" else w.length() - 1
        a, b = eng.word_cut(st, w, at)
        x, rest = (a, b) if c.name == "pop_front" else (b, a)
        eng.store(st, r, VEC(rest))
        return [(st, some(eng.word_get(st, x, const(0))))]

    def front_slice(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        i = idx(c)
        if not decide(st, c_lt(i, w.length())):
            return [(st, UNIT)]
        eng.store(st, r, VEC(eng.word_cut(st, w, i)[0]))
        return [(st, UNIT)]

    def back_slice(run, st, c):
        r, w = vec_word(run, st, c.args[0])
        i = idx(c)
        if not decide(st, c_lt(i, w.length())):
            eng.store(st, r, VEC(Word()))
            return [(st, UNIT)]
        eng.store(st, r, VEC(eng.word_cut(st, w, i)[1]))
        return [(st, UNIT)]
    tab = {"split_off": split_off, "append": append, "prepend": prepend, "len": vlen, "is_empty": vempty, "new": new, "default": new,
           "push_back": push, "push_front": push, "pop_front": pop, "pop_back": pop, "slice_from_start": front_slice,
           "slice_to_end": back_slice}
    for n, f in tab.items():
        if names is None or n in names:
            k = lab.key(V, n)
            if k is not None and k != keep:
                run.contracts[k] = f


def slices(ps):
    return Word(ps)


def same_word(run, st, w, want):
    """are two words of slices of one container equal?"""
    a = absint.norm_pieces(st, list(w.p))
    b = absint.norm_pieces(st, list(want.p))
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "S":
            if x[1] != y[1] or not absint.eqv(st, x[2], y[2]) or not absint.eqv(st, x[3], y[3]):
                return False
            if x[4] != y[4] and not absint.eqv(st, x[3], x[2] + 1):
                return False
        elif x[1] != y[1]:
            return False
    return True


def extract_setup(lab, key, combo):
    def setup(run):
        install_vectors(run)
        st = St()
        n = atom("len")
        st.mem[("*", "self")] = VEC(Word([("S", "A", const(0), n, False)]))
        self = Ref(("*", "self"))
        args, (s, e) = make_args(run, key, st, combo, n, {0: self})

        def post(run, st, v):
            for c in (c_eq(s, const(0)), c_eq(s, e), c_eq(e, n)):
                decide(st, c)
            _, w = vec_word(run, st, self)
            got = v.f["w"] if isinstance(v, Obj) and v.tag == "VEC" else None
            if got is None:
                raise Stuck("result")
            run.oblige(st, "takes out exactly [s, e)", same_word(run, st, got, Word([("S", "A", s, e, False)])),
                       "with a %s start and %s end the result is %r instead of %r..%r" % (*combo, got, s, e))
            run.oblige(st, "keeps everything outside [s, e)", same_word(run, st, w, Word([("S", "A", const(0), s, False), ("S", "A", e, n, False)])),
                       "with a %s start and %s end what remains is %r (range %r..%r of %r)" % (*combo, w, s, e, n))
        return args, st, post
    return setup


def run(ctx):
    p = Prog("release")
    lab = Lab(p, ctx)
    ctx.rule("Each operation that takes a range is analysed for all nine combinations of start and end bound, with the bound values, the "
             "length (and, for searches, the index and every callback answer) unknown: the part handed to the sorter, the exchanged "
             "pairs, the examined positions, the extracted slice and the narrowed cursor must be exactly the standard [s, e).")
    found = 0

    def todo(adt, names, mk, expect):
        nonlocal found
        for n in names:
            k = lab.key(adt, n)
            if k is None:
                ctx.undecided(n, "no such operation")
                continue
            found += 1
            for combo in RANGE_COMBOS:
                lab.judge("%s(%s start, %s end)" % (n, *combo), k, mk(lab, k, combo), expect, panic_ok=no_panic)
                ctx.count("operation x bounds")
    no_panic = lambda st, why: False
    todo(V, SORTS, sort_setup, ("acts on exactly [s, e)",))
    todo(V, ("reverse_range",), reverse_setup, ("covers [s, e)",))
    todo(V, SEARCH, search_setup, ("examines only [s, e)", "answers inside [s, e)"))
    todo(V, ("extract_slice",), extract_setup, ("takes out exactly [s, e)",))
    todo("focus::Focus", ("narrow",), narrow_setup, ("acts on exactly [s, e)",))
    ctx.floor("operations taking a range", 13, found)
