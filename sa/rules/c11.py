"""C11: iterators.  The constructor's result and what one call changes give a description of the iterator after i calls of
next and j calls of next_back; next, next_back and size_hint are then analysed in that state, for all i + j <= n."""
from facts import Prog
from absint import *
from contracts import *
from iters import Form, NoForm, WIDTH
from ring import CB, BB, RING, install_ring
from rules.c12 import V, VEC, install_vectors
import absint

IT = Ref(("*", "it"))
OPS = ("next", "next_back", "size_hint")
SKIPS = ("nth", "nth_back")            # methods an impl may override: by &mut self, with a number of elements to skip
ENDS = ("last", "count")               # by value


def same_place(st, a, b):
    if isinstance(a, Sym) and isinstance(b, Sym):
        if a.n == b.n:
            return True
        if isinstance(a.n, tuple) and isinstance(b.n, tuple) and a.n[0] == b.n[0] == "at" and a.n[1] == b.n[1]:
            return c_eq(a.n[2], b.n[2])
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root != b.root or len(a.path) != len(b.path):
            return False
        cond = ("T",)
        for x, y in zip(a.path, b.path):
            if x[0] == "at" and y[0] == "at":
                cond = ("and", cond, c_eq(x[1], y[1]))
            elif x != y:
                return False
        return cond
    return a == b


class Source:
    """one iterator: how to build it, what it walks over"""

    def __init__(self, name, adt, make):
        self.name, self.adt, self.make = name, adt, make


def check_result(run, st, op, v, i, j, n, expected, tag="", skip=None):
    """obligations on the result of one call when i + j of n positions are gone; returns the new (i, j)"""
    eng = run.eng
    if op == "size_hint":
        rem = n - i - j
        lo = models.as_usize(eng, v.f[0]) if isinstance(v, Obj) else None
        hi = v.f[1] if isinstance(v, Obj) else None
        if lo is None or hi is None:
            raise Stuck("size_hint result")
        run.oblige(st, "size_hint is exact", c_eq(lo, rem), "the lower bound is %r when %r positions remain%s" % (lo, rem, tag))
        d = eng.variant(st, hi, 2)
        run.oblige(st, "size_hint is exact", d == 1, "there is no upper bound" + tag)
        if d == 1:
            x = models.as_usize(eng, eng.payload(st, hi, 0))
            run.oblige(st, "size_hint is exact", c_eq(x, rem), "the upper bound is %r when %r positions remain%s" % (x, rem, tag))
        return i, j
    if op == "count":
        x = models.as_usize(eng, v)
        if x is None:
            raise Stuck("count result")
        run.oblige(st, "counts what remains", c_eq(x, n - i - j), "count is %r when %r positions remain%s" % (x, n - i - j, tag))
        return i, n - i
    if skip is not None:
        if decide(st, c_le(i + j + skip + 1, n)):
            i, j = (i + skip, j) if op == "nth" else (i, j + skip)
        else:
            i, j = (n - j, j) if op == "nth" else (i, n - i)
        op = "next" if op == "nth" else "next_back"
    if op == "last":
        op = "next_back"
    d = eng.variant(st, v, 2)
    if not decide(st, c_le(i + j + 1, n)):
        run.oblige(st, "ends when exhausted", d == 0, "%s yields an element although none remains%s" % (op, tag))
        return i, j
    run.oblige(st, "yields every position once", d == 1, "%s answers None although %r positions remain%s" % (op, n - i - j, tag))
    k = i if op == "next" else n - 1 - j
    if d == 1:
        x = eng.payload(st, v, 0)
        for s2, want in expected(run, st, k):
            if not s2.facts.consistent():
                continue
            if isinstance(want, Obj) and want.tag == "Option":
                want = eng.payload(s2, want, 0)
            run.oblige(s2, "yields every position once", same_place(s2, x, want),
                       "%s yields %r instead of the element at position %r%s" % (op, x, k, tag))
    return (i + 1, j) if op == "next" else (i, j + 1)


def step_setup(lab, src, op, keys, st0, form, alt, i, j, n, expected, install):
    obj, facts = alt

    def setup(run):
        install(run)
        st = st0.copy()
        for f in [c_le(const(0), i), c_le(const(0), j), c_le(i + j, n)] + facts:
            g = st.facts.add(f)
            if g is None:
                raise Stuck("empty case")
            st.facts = g
        st.mem[("*", "it")] = obj

        m = None
        if op in SKIPS:
            m = atom("skip")
            st.have(c_le(const(0), m))

        def post(run, st, v):
            i2, j2 = check_result(run, st, op, v, i, j, n, expected, "" if m is None else " (asked to skip %r)" % m, m)
            if op in ENDS:
                return
            o = run.eng.read(st, ("*", "it"), ())
            if form is not None and form.matches(st, o, i2, j2):
                run.oblige(st, "moves on by one position", ("T",), "")
                return
            # not the expected object: what does it do next?
            for op2 in OPS:
                if op2 not in keys:
                    continue
                for s2, v2 in run.eng.start(keys[op2], [IT], st):
                    def post2(run, s, v):
                        i3, j3 = check_result(run, s, op2, v, i2, j2, n, expected, " (after one %s)" % op)
                        for op3 in OPS:
                            if op3 in keys and op2 != "size_hint":
                                for s3, v3 in run.eng.start(keys[op3], [IT], s):
                                    lab.split_post(run, s3, v3, lambda run, s, v: check_result(run, s, op3, v, i3, j3, n, expected, " (after %s and %s)" % (op, op2)))
                    lab.split_post(run, s2, v2, post2)
            st.spoil("the iterator's state is not the expected one")
            run.oblige(st, "moves on by one position", ("T",), "")
        if op in ENDS:
            return [obj], st, post
        return ([IT] if m is None else [IT, Int(m)]), st, post
    return setup


def analyse(lab, ctx, name, adt, make):
    """make(run) -> (state, iterator object, n, expected, install)"""
    p = lab.p
    keys = {}
    for op in OPS + SKIPS + ENDS:
        k = lab.key(adt, op)
        if k is not None:
            keys[op] = k
    if "next" not in keys or "size_hint" not in keys:
        ctx.undecided(name, "no next/size_hint in the crate's own impl")
        return 0
    try:
        made = make(lab)
    except (Stuck, Cap, NeedSplit, Diverge, KeyError, AttributeError) as e:
        ctx.undecided(name, "constructor: %s" % (e,))
        return 0
    if not made:
        ctx.undecided(name, "constructor not analysable")
        return 0
    i, j = atom("i"), atom("j")
    for m, (st0, obj, n, expected, install) in enumerate(made):
        form = None
        try:
            form = Form(obj)
            for which, op in ((1, "next"), (2, "next_back")):
                if op not in keys:
                    continue
                run = Run(lab, keys[op], "over")
                install(run)
                st = st0.copy()
                g = st.facts.add(c_le(const(2), n))
                if g is None:
                    continue
                st.facts = g
                st.mem[("*", "it")] = obj
                outs = run.eng.start(keys[op], [IT], st)
                form.learn([run.eng.read(s, ("*", "it"), ()) for s, _ in outs if s.facts.consistent()], which)
        except NoForm as e:
            ctx.notes.append("%s: %s" % (name, e))
            form = None
        except (Stuck, Cap, NeedSplit, Diverge, KeyError, AttributeError) as e:
            ctx.notes.append("%s: %s" % (name, e))
            form = None
        if form is None:
            # no inductive description: only the first few calls can be judged
            alts, ii, jj = [(obj, [])], const(0), const(0)
        else:
            alts, ii, jj = list(form.objects(i, j)), i, (j if "next_back" in keys else const(0))
        for q, alt in enumerate(alts):
            s = st0.copy()
            f = s.facts
            for x in [c_le(const(0), ii), c_le(const(0), jj), c_le(ii + jj, n)] + alt[1]:
                f = f.add(x) if f is not None else None
            if f is None or not f.consistent():
                continue
            for op in OPS + SKIPS + ENDS:
                if op in keys:
                    exp = ("size_hint is exact",) if op == "size_hint" else ("counts what remains",) if op == "count" else ()
                    lab.judge("%s::%s%s%s" % (name, op, "" if len(made) == 1 else " (case %d)" % m, "" if len(alts) == 1 else " (wrap %d)" % q),
                              keys[op], step_setup(lab, name, op, keys, st0, form, alt, ii, jj, n, expected, install), exp, lambda st, why: False)
                    if form is None:
                        ctx.undecided("%s::%s" % (name, op), "no inductive description of the iterator; only calls near the start were examined")
    return 1


# ---------------------------------------------------------------- what is iterated over
def vector_iter(ctor):
    def make(lab):
        k = by_self(lab, V, "into_iter", ctor) if ctor in ("ref", "mut") else lab.key(V, ctor)
        run = Run(lab, k, "over")
        install_cursors(run)
        st = St()
        self = Ref(("*", ("vec", 0)))
        n = vec_len(run, st, self)
        out = []
        for s, o in run.eng.start(k, [self], st):
            if s.taint:
                raise Stuck("constructor: " + "; ".join(s.taint))

            def expected(run, st, i):
                return [(st, elref(vid_of(self), i))]
            out.append((s, o, n, expected, install_cursors))
        return out
    return make


def by_self(lab, adt, name, how):
    """the method of that name whose receiver is the type itself ("adt"), a reference ("ref") or a mutable one ("mut")"""
    def kind(k):
        t = lab.p.ty(lab.p.bodies[k]["inputs"][0])
        return "mut" if t["k"] == "ref" and t["mut"] else t["k"]
    ks = [k for k in lab.p.find(adt, name) if kind(k) == how]
    if len(ks) != 1:
        raise Stuck("no %s::%s by %s" % (adt, name, how))
    return ks[0]


def vector_into(lab):
    k = by_self(lab, V, "into_iter", "adt")
    run = Run(lab, k, "over")
    install_vectors(run)
    st = St()
    n = atom("len")
    w = Word([("S", "A", const(0), n, False)])
    return [(s, o, n, lambda run, st, i: [(st, run.eng.word_get(st, w, i))], install_vectors) for s, o in run.eng.start(k, [VEC(w)], st)]


def fields(lab, adt):
    for k, a in lab.p.adts.items():
        if a.get("path", k) == adt or k.endswith(adt):
            return [f["name"] for f in a["variants"][0]["fields"]]
    raise Stuck("no " + adt)


def ring_obj(lab, st, adt):
    names = fields(lab, adt)
    f = {}
    for i, nm in enumerate(names):
        if nm == "front":
            f[i] = Int(atom("front"))
            st.have(c_lt(atom("front"), const(WIDTH)))
        elif nm == "len":
            f[i] = Int(atom("len"))
            st.have(c_le(atom("len"), const(WIDTH)))
        elif nm == "range":
            f[i] = Obj("Range", None, {0: Int(atom("r0")), 1: Int(atom("r1"))})
            st.have(c_le(atom("r0"), atom("r1")))
            st.have(c_le(atom("r1"), const(WIDTH)))
    if "front" not in names or not ({"len", "range"} & set(names)):
        raise Stuck("fields of " + adt)
    return Obj(adt, None, f, ("*", "ring"))


def ring_iter(adt, ctor):
    def make(lab):
        k = by_self(lab, adt, "into_iter", ctor) if ctor in ("ref", "mut") else lab.key(adt, ctor)
        run = Run(lab, k, "over")
        st = St()
        self = Ref(("*", "ring"))
        st.mem[("*", "ring")] = ring_obj(lab, st, adt)
        lk, gk = lab.key(adt, "len"), lab.key(adt, "get_ptr")
        if lk is None or gk is None:
            raise Stuck("anchors")
        outs = run.eng.start(lk, [self], st)
        if len(outs) != 1:
            raise Stuck("len")
        n = outs[0][1].l

        def expected(run, st, i):
            return run.eng.start(gk, [self, Int(i)], st)
        res = []
        for s, o in run.eng.start(k, [self], st):
            if s.taint:
                raise Stuck("constructor: " + "; ".join(s.taint))
            res.append((s, o, n, expected, lambda run: None))
        return res
    return make


def ring_into(lab):
    k = by_self(lab, CB, "into_iter", "adt")
    run = Run(lab, k, "over")
    install_ring(run)
    st = St()
    n = atom("len")
    st.have(c_le(n, const(WIDTH)))
    w = Word([("S", "A", const(0), n, False)])
    return [(s, o, n, lambda run, st, i: [(st, run.eng.word_get(st, w, i))], install_ring) for s, o in run.eng.start(k, [RING(w)], st)]


def run(ctx):
    p = Prog("release")
    lab = Lab(p, ctx)
    ctx.rule("For each iterator of the crate: the object after i calls of next and j of next_back is described by linear (or width-modular) "
             "counters learnt from its constructor and one call; with i, j and the length unknown, next and next_back must yield exactly "
             "positions i and n-1-j, leave the described object, answer None for ever once i + j = n, and size_hint must be n-i-j twice.")
    n = 0
    n += analyse(lab, ctx, "Iter", "vector::Iter", vector_iter("iter"))
    n += analyse(lab, ctx, "IterMut", "vector::IterMut", vector_iter("iter_mut"))
    n += analyse(lab, ctx, "IntoIter", "vector::IntoIter", vector_into)
    analyse(lab, ctx, "Iter from &v", "vector::Iter", vector_iter("ref"))
    analyse(lab, ctx, "IterMut from &mut v", "vector::IterMut", vector_iter("mut"))
    ctx.floor("public vector iterators", 3, n)
    m = 0
    m += analyse(lab, ctx, "ring Iter", "circular::Iter", ring_iter(CB, "iter"))
    m += analyse(lab, ctx, "ring IterMut", "circular::IterMut", ring_iter(CB, "iter_mut"))
    analyse(lab, ctx, "ring Iter from &b", "circular::Iter", ring_iter(CB, "ref"))
    analyse(lab, ctx, "ring IterMut from &mut b", "circular::IterMut", ring_iter(CB, "mut"))
    m += analyse(lab, ctx, "ring BorrowedIter", "circular::BorrowedIter", ring_iter(BB, "iter"))
    m += analyse(lab, ctx, "ring IntoIter", "circular::IntoIter", ring_into)
    ctx.count("vector iterators", n)
    ctx.count("ring buffer iterators", m)
