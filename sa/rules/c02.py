"""C02 / C09 / C19 over the tree of an InternalVector: contents conserved, length field exact, levels uniform."""
from facts import Prog, loc_of
from absint import *
import absint
from contracts import *
import lin
import multiprocessing
import nodespecs
import time
import tree
from rules import c07, c12, compose
from tree import Tree, new_base, NODE, Base, content, clen, same_content, settle

V = "vector::InternalVector"
FIELDS = ("left_spine", "right_spine", "root", "len")
SIDES = ("Front", "Back")


def fields(p):
    a = next((a for k, a in p.adts.items() if a.get("path", k) == V or a.get("path", k).endswith("::" + V)), None)
    if a is None:
        return None
    names = [f["name"] for f in a["variants"][0]["fields"]]
    if not all(f in names for f in FIELDS):
        return None
    return {f: names.index(f) for f in FIELDS}


def side_val(p, name):
    a = next((a for k, a in p.adts.items() if a.get("path", k).endswith("Side")), None)
    k = next(k for k, x in p.adts.items() if x is a)
    return Obj(a.get("path", k), [x["name"] for x in a["variants"]].index(name))


class Vec:
    """a vector in a run: where it is, what it held at the start"""

    def __init__(self, run, st, ref, F):
        self.run, self.ref, self.F = run, ref, F


def build(run, st, name, F, h, weak=False, bare=None):
    """an arbitrary well-formed vector of height h; bare: the root has no children / has some (exact passes)"""
    zero = const(0)
    st.have(c_le(zero, h))
    flat = st.facts.entails(c_eq(h, zero))
    tl, tr, t0 = (atom((name, x)) for x in ("tl", "tr", "t0"))
    if flat:
        tl = tr = zero
    kw = dict(a=zero, b=1, ne="any" if weak else "first", cap="any" if weak else "spine")
    L = new_base(st, name + "L", n=h, line=None, off=zero, tot=tl, **kw)
    R = new_base(st, name + "R", n=h, line=None, off=zero, tot=tr, ori="r", **kw)
    Q = new_base(st, name + "Q", n=const(1), line=None, off=zero, tot=t0, a=h, cap="any" if weak else "root")
    if not weak:
        for b, t in ((L, tl), (R, tr)):
            if not flat:
                if st.facts.entails(c_le(const(1), h)):
                    st.have(c_le(const(1), t))
    root = tree.lazy_node(st, Q)
    spine = lambda X: Word(absint.norm_pieces(st, [("S", X, zero, h, False)]))
    n = tl + tr + t0
    if bare is not None and h.is_const() and h.c >= 1:
        slots = lambda v: v.f["c"].length()
        if bare:
            st.have(c_eq(slots(root), zero))
            a, b = (slots(tree.open_node(st, X, h - 1)) for X in (L, R))
            st.have(c_le(a - b, const(1)))
            st.have(c_le(b - a, const(1)))
            st.have(c_le(const(lin.W - (2 if h.c > 1 else 0)), a + b))
        else:
            st.have(c_le(const(1), slots(root)))
    ln = atom((name, "len")) if weak == "any len" else n
    v = Obj(V, None, {F["left_spine"]: spine(L), F["right_spine"]: spine(R), F["root"]: root, F["len"]: Int(ln)})
    return v


def parts(run, st, v, F):
    if not isinstance(v, Obj):
        raise Stuck("vector %r" % (v,))
    l, r, root, n = (v.f.get(F[x]) for x in FIELDS)
    if not isinstance(l, Word) or not isinstance(r, Word) or not tree.is_node(root) or not isinstance(n, Int):
        raise Stuck("vector %r" % (v,))
    return l, root, r, n.l


def vcontent(run, st, v, F):
    l, root, r, n = parts(run, st, v, F)
    return content(st, l) + content(st, root) + content(st, r, True)


def uniform(run, st, v, F, what, span=""):
    """levels: spine[i] has level i, both spines are as long as the root's level"""
    l, root, r, n = parts(run, st, v, F)
    h = root.f["lv"].l
    ok = run.oblige(st, "spines", ("and", c_eq(l.length(), h), c_eq(r.length(), h)),
                    "%s: left spine of height %r, right spine of height %r, root of level %r" % (what, l.length(), r.length(), h), span)
    for nm, w in (("left", l), ("right", r)):
        for pos, lv, b, k in tree.node_levels(st, w):
            if st.facts.entails(c_le(k, const(0))):
                continue
            good = c_eq(lv, pos)
            if b != 1 and not decide(st, c_le(k, const(1))):
                good = ("F",)
            run.oblige(st, "levels", good, "%s: node %r of the %s spine has level %r" % (what, pos, nm, lv), span)


def conserved(run, st, name, got, want, text, span=""):
    settle(st)
    r = same_content(st, got, want)
    if r is None:
        st = st.copy()
        st.spoil("contents cannot be compared: %s against %s" % (show_c(st, got), show_c(st, want)))
        run.oblige(st, name, ("F",), text, span)
        return
    if r is False and run.mode == "under" and tree.find_model(st.facts) is None:
        st = st.copy()
        st.spoil("no concrete instance found")
    run.oblige(st, name, ("T",) if r else ("F",), text + "" if r else "%s: holds %s instead of %s" % (text, show_c(st, got), show_c(st, want)), span)


def c_of(v, want):
    """condition: the boolean v is want"""
    c = v.c if isinstance(v, Bool) else ("b", v.n, True) if isinstance(v, Sym) else ("F",)
    return c if want else lin.negate(c)


def show_c(st, ps):
    return "[" + " ".join("%s[%r..%r]" % (absint.show(x[1]), x[2], x[3]) if x[0] == "I" else "<%r>" % (x[1:],) for x in tree.full(st, ps)) + "]"


def heights(run):
    """a symbolic height for proofs, a concrete one (by pass) for refutations"""
    if run.mode == "over":
        return None
    return run.eng.phases - 1


def run_side(run, st, v):
    return SIDES.index(tree.side_of(run, st, v))


def fill_lemma(F):
    """fill_spine: completes the spine of one side from its lowest node (or the root) down to a leaf"""
    def f(run, st, c):
        ref = c.args[0]
        while isinstance(run.eng.load(st, ref), Ref):
            ref = run.eng.load(st, ref)
        v = run.eng.load(st, ref)
        side = run_side(run, st, c.args[1])
        mine, other = FIELDS[side], FIELDS[1 - side]
        w, o, root = v.f[F[mine]], v.f[F[other]], v.f[F["root"]]
        h = root.f["lv"].l
        run.oblige(st, "spines", ("and", c_eq(o.length(), h), c_le(w.length(), h)), "fill_spine with spines of height %r and %r under a level %r root" % (w.length(), o.length(), h), c.span)
        low = h - w.length()
        for (ww, at) in ((w, low), (o, const(0))):
            for pos, lv, b, k in tree.node_levels(st, ww):
                if not st.facts.entails(c_le(k, const(0))):
                    good = c_eq(lv, at + pos) if b == 1 or decide(st, c_le(k, const(1))) else ("F",)
                    run.oblige(st, "levels", good, "fill_spine: node %r of a spine has level %r instead of %r" % (pos, lv, at + pos), c.span)
        if not decide(st, c_eq(w.length(), const(0))):
            x = run.eng.word_get(st, w, const(0))
            m = tree.size_of(st, x)
            settle(st)
            run.oblige(st, "content", c_le(const(1), m), "fill_spine starts from an empty node", c.span)
        ps = content(st, w) + content(st, root) if side == 0 else content(st, root) + content(st, w, True)
        line, off, tot = tree.define_line(st, ps)
        i = tree.fresh_id(st)
        t0 = atom(("fill", i, "t"))
        for x in (t0, tot - t0):
            st.have(c_le(const(0), x))
        z = const(0)
        a, b = ((off, t0), (off + t0, tot - t0)) if side == 0 else ((off + tot - t0, t0), (off, tot - t0))
        X = new_base(st, "fill", n=h, line=line, off=a[0], tot=a[1], a=z, b=1, ne="first", ori="fr"[side])
        Q = new_base(st, "fillQ", n=const(1), line=line, off=b[0], tot=b[1], a=h)
        f2 = dict(v.f)
        f2[F[mine]] = Word([("S", X, z, h, False)])
        f2[F["root"]] = tree.lazy_node(st, Q)
        run.eng.store(st, ref, Obj(v.tag, v.var, f2, v.base))
        return [(st, FALSE)]
    return f


def op_lemma(F):
    """push / pop with their own proof: one element more or less at an end"""
    def f(run, st, c):
        ref = c.args[0]
        while isinstance(run.eng.load(st, ref), Ref):
            ref = run.eng.load(st, ref)
        v = run.eng.load(st, ref)
        front = c.name.endswith("front")
        uniform(run, st, v, F, "call of %s" % c.name, c.span)
        n = parts(run, st, v, F)[3]
        ps = vcontent(run, st, v, F)
        run.oblige(st, "length", c_eq(n, clen(ps)), "%s of a vector whose length is wrong" % c.name, c.span)
        out = NONE
        if c.name.startswith("push"):
            e = content(st, Word([("E", c.args[1])]))
            ps = e + ps if front else ps + e
            line, off, tot = tree.define_line(st, ps)
            out = UNIT
            n = n + 1
        else:
            if decide(st, c_eq(n, const(0))):
                return [(st, NONE)]
            line, off, tot = tree.define_line(st, ps)
            at = off if front else off + tot - 1
            X = new_base(st, "popped", n=const(1), line=line, off=at, tot=const(1), elem=True)
            out = some(Sym(("at", X, const(0))))
            if front:
                off = off + 1
            tot = tot - 1
            n = n - 1
        put_vec(run, st, ref, v, F, line, off, tot, n)
        return [(st, out)]
    return f


def put_vec(run, st, ref, v, F, line, off, tot, n):
    i = tree.fresh_id(st)
    h = atom(("lemma", i, "h"))
    t0, t1 = atom(("lemma", i, "l")), atom(("lemma", i, "q"))
    for x in (h, t0, t1, tot - t0 - t1):
        st.have(c_le(const(0), x))
    z = const(0)
    L = new_base(st, "lemL", n=h, line=line, off=off, tot=t0, a=z, b=1)
    Q = new_base(st, "lemQ", n=const(1), line=line, off=off + t0, tot=t1, a=h)
    R = new_base(st, "lemR", n=h, line=line, off=off + t0 + t1, tot=tot - t0 - t1, a=z, b=1, ori="r")
    f2 = dict(v.f)
    f2[F["left_spine"]] = Word([("S", L, z, h, False)])
    f2[F["right_spine"]] = Word([("S", R, z, h, False)])
    f2[F["root"]] = tree.lazy_node(st, Q)
    f2[F["len"]] = Int(n)
    run.eng.store(st, ref, Obj(v.tag, v.var, f2, v.base))


OPS = ("push_back", "push_front", "pop_back", "pop_front")
HELPERS = ("fixup_spine_tops", "empty_leaf", "complete_leaf", "fill_spine")


def lemma(F, self_key):
    """a helper with its own proof: rearranges the vector without changing its contents, and leaves it uniform"""
    def f(run, st, c):
        ref = c.args[0]
        while isinstance(run.eng.load(st, ref), Ref):
            ref = run.eng.load(st, ref)
        v = run.eng.load(st, ref)
        l, root, r, n = parts(run, st, v, F)
        uniform(run, st, v, F, "call of %s" % c.name, c.span)
        if c.name == "empty_leaf":
            w = (l, r)[run_side(run, st, c.args[1])]
            if decide(st, c_le(w.length(), const(0))):
                raise Diverge("no leaf")
            x = run.eng.word_get(st, w, const(0))
            m = tree.size_of(st, x)
            settle(st)
            run.oblige(st, "content", ("or", c_eq(m, const(0)), c_eq(x.f["c"].length(), const(0))), "empty_leaf is called although the leaf holds %r elements" % (m,), c.span)
        line, off, tot = tree.define_line(st, vcontent(run, st, v, F))
        put_vec(run, st, ref, v, F, line, off, tot, n)
        return [(st, UNIT)]
    return f


def setup_for(lab, key, F, spec, side=None, lem=()):
    p = lab.p

    def setup(run):
        st = St()
        t = Tree(run)
        hc = heights(run)
        if run.mode == "over":
            for nm in lem:
                k = lab.key(V, nm)
                if k is not None and k != key:
                    t.lemmas[k] = fill_lemma(F) if nm == "fill_spine" else op_lemma(F) if nm in OPS else lemma(F, k)
        args, news = [], {}
        b = p.bodies[key]
        for i in range(b["argc"]):
            ti = b["locals"][i + 1][0]
            ty = p.types[ti]
            inner = p.types[ty["ty"]] if ty["k"] == "ref" else ty
            if inner.get("path") == V:
                nm = "AB"[len(news)] if len(news) < 2 else "C"
                h = atom((nm, "h")) if hc is None else const(hc if nm == "A" else run.lab.h2)
                v = build(run, st, nm, F, h, weak=spec.get("weak", "nodes") if run.mode == "over" else False, bare=run.lab.bare.get(nm))
                news[i] = v
                if ty["k"] == "ref":
                    st.mem[("*", ("vec", nm))] = v
                    args.append(Ref(("*", ("vec", nm))))
                else:
                    args.append(v)
            elif inner.get("path", "").endswith("Side"):
                args.append(side_val(p, side))
            elif ty["k"] == "int":
                args.append(Int(atom(b["locals"][i + 1][1] or "a%d" % i)))
            else:
                args.append(Sym(("item", i)))
        if "pre" in spec:
            spec["pre"](run, st, args, news)
        old = [vcontent(run, st, v, F) for v in news.values()]

        run.may_panic = spec["panics"](args, clen(old[0])) if "panics" in spec else ("F",)

        def now(st, i=0):
            return run.eng.read(st, ("*", ("vec", "AB"[i])), ())

        def post(run, st, v):
            settle(st)
            spec["post"](run, st, v, old, now, args)
        return args, st, post
    return setup


# ---------------------------------------------------------------- what each operation promises
def well(run, st, v, F, what):
    uniform(run, st, v, F, what)
    n = clen(vcontent(run, st, v, F))
    settle(st)
    strong_after(run, st, v, F, what)
    run.oblige(st, "length", c_eq(parts(run, st, v, F)[3], n), "%s: len is %r but there are %r elements" % (what, parts(run, st, v, F)[3], n))


def specs(F):
    def helper(run, st, v, old, now, args):
        x = now(st)
        conserved(run, st, "content", vcontent(run, st, x, F), old[0], "rearranging")
        uniform(run, st, x, F, "afterwards")
        run.oblige(st, "length", c_eq(parts(run, st, x, F)[3], atom(("A", "len"))), "the length field changes")

    def push(side):
        def post(run, st, v, old, now, args):
            x = now(st)
            e = [("E", args[-1])]
            conserved(run, st, "content", vcontent(run, st, x, F), old[0] + e if side == "Back" else e + old[0], "push at the %s" % side)
            well(run, st, x, F, "push")
        return post

    def pop(side):
        def post(run, st, v, old, now, args):
            x = now(st)
            well(run, st, x, F, "pop")
            if run.eng.variant(st, v, 2) == 0:
                conserved(run, st, "content", vcontent(run, st, x, F), old[0], "pop answering None")
                unchanged(run, st, old, now)
                run.oblige(st, "pop of elements", c_eq(clen(old[0]), const(0)), "pop of a vector with %r elements answers None" % (clen(old[0]),))
                return
            e = content(st, Word([("E", run.eng.payload(st, v, 0))]))
            g = vcontent(run, st, x, F)
            conserved(run, st, "content", g + e if side == "Back" else e + g, old[0], "pop at the %s" % side)
        return post

    def append(run, st, v, old, now, args):
        x = now(st)
        conserved(run, st, "content", vcontent(run, st, x, F), old[0] + old[1], "append")
        well(run, st, x, F, "append")

    def split_off(run, st, v, old, now, args):
        x = now(st)
        a, b = vcontent(run, st, x, F), vcontent(run, st, v, F)
        conserved(run, st, "content", a + b, old[0], "split_off")
        n = clen(old[0])
        at = args[1].l
        k = at if decide(st, c_le(at, n)) else n
        run.oblige(st, "cut position", c_eq(clen(a), k), "split_off(%r) of %r elements keeps %r" % (at, n, clen(a)))
        well(run, st, x, F, "split_off (receiver)")
        well(run, st, v, F, "split_off (result)")

    def leaf_gone(run, st, args, news):
        """the outermost leaf of the side is empty"""
        w = news[0].f[F["left_spine" if args[1].var == SIDES.index("Front") else "right_spine"]]
        st.have(c_le(const(1), w.length()))
        if w.p[0][0] == "S":
            tree.pre(st, w.p[0][1], const(1), True)
        n = run.eng.word_get(st, w, const(0))
        st.have(c_eq(n.f["c"].length(), const(0)))
        settle(st)

    out = {}
    for nm in HELPERS:
        out[nm] = dict(post=helper, weak="any len")
    out["empty_leaf"]["pre"] = leaf_gone

    def lower(run, st, args, news):
        """the spine of the side reaches down to some level only; what is there is not empty"""
        side = args[1].var
        v = news[0]
        f = F[FIELDS[side]]
        h = v.f[F["root"]].f["lv"].l
        m = atom("reach") if run.mode == "over" else const(max(0, min(run.eng.phases - 1, h.c) - (run.eng.phases > 2)))
        st.have(c_le(const(0), m))
        st.have(c_le(m, h))
        t = atom(("A", "reach"))
        st.have(c_le(m, t))
        X = new_base(st, "Areach", n=m, line=None, off=const(0), tot=t, a=h - m, b=1, ne="first", ori="fr"[side])
        v.f[f] = Word(absint.norm_pieces(st, [("S", X, const(0), m, False)]))
        run.eng.store(st, args[0], v)

    def filled(run, st, v, old, now, args):
        helper(run, st, v, old, now, args)
        run.oblige(st, "content", c_of(v, False), "fill_spine reports an empty leaf")
    out["fill_spine"].update(pre=lower, post=filled)
    out["push_back"] = dict(post=push("Back"))
    out["push_front"] = dict(post=push("Front"))
    out["pop_back"] = dict(post=pop("Back"))
    out["pop_front"] = dict(post=pop("Front"))
    out["append"] = dict(post=append, weak=False)
    out["split_off"] = dict(post=split_off)

    def element(st, ps, i):
        """where element i of a sequence lies: (line, position), or the value itself"""
        acc = const(0)
        for x in tree.full(st, ps):
            n = clen([x])
            if decide(st, c_lt(i, acc + n)):
                return ("at", x[1], x[2] + (i - acc)) if x[0] == "I" else ("value", x[1])
            acc = acc + n
        raise Stuck("element %r" % (i,))

    def unchanged(run, st, old, now):
        x = now(st)
        conserved(run, st, "unchanged", vcontent(run, st, x, F), old[0], "looking at the vector")
        run.oblige(st, "unchanged", c_eq(parts(run, st, x, F)[3], clen(old[0])), "looking at the vector changes its length")

    def designates(run, st, r, old, i, nm):
        want = element(st, old[0], i)
        if isinstance(r, Obj) and r.tag != "NODE":      # a guard around the reference
            rs = [x for x in r.f.values() if isinstance(x, Ref) and x.root[0] == "*" and isinstance(x.root[1], tuple) and x.root[1][0] in ("ELEM", "EV")]
            if len(rs) == 1:
                r = rs[0]
        if not isinstance(r, Ref) or r.root[0] != "*" or not isinstance(r.root[1], tuple) or r.root[1][0] != "ELEM" or want[0] != "at":
            raise Stuck("%s answers %r" % (nm, r))
        line, path = r.root[1][1], r.path
        ps = tree.full(st, [("I", line, path[0][1], path[0][1] + 1)])
        if len(ps) != 1 or ps[0][0] != "I":
            raise Stuck("%s answers %r" % (nm, r))
        same = ps[0][1] == want[1]
        run.oblige(st, "position read", c_eq(ps[0][2], want[2]) if same else ("F",), "%s: position %r is answered with the element at %r instead of %r" % (nm, i, ps[0][2], want[2]))

    def read(nm, where=None, option=True):
        def post(run, st, v, old, now, args):
            n = clen(old[0])
            i = args[1].l if where is None else const(0) if where == "front" else n - 1
            inside = decide(st, c_lt(i, n)) if where is None else not decide(st, c_eq(n, const(0)))
            some_ = run.eng.variant(st, v, 2) == 1 if option else True
            run.oblige(st, "read in range", ("T",) if some_ == inside else ("F",),
                       "%s: a position %s the length is %s" % (nm, "below" if inside else "at or beyond", "answered" if some_ else "not answered"))
            if some_ and inside:
                designates(run, st, run.eng.payload(st, v, 0) if option else v, old, i, nm)
            unchanged(run, st, old, now)
        return post
    for nm in ("get", "get_mut", "get_mut_guarded"):
        out[nm] = dict(post=read(nm), total=True)
    for nm in ("index", "index_mut"):
        out[nm] = dict(post=read(nm, option=False), total=True, panics=lambda args, n: c_le(n, args[1].l))
    for nm in ("front", "front_mut", "back", "back_mut"):
        out[nm] = dict(post=read(nm, nm.split("_")[0]), total=True, weak=False)

    def length(run, st, v, old, now, args):
        run.oblige(st, "length", c_eq(v.l, clen(old[0])), "len answers %r for %r elements" % (v.l, clen(old[0])))
        unchanged(run, st, old, now)

    def isempty(run, st, v, old, now, args):
        none = decide(st, c_eq(clen(old[0]), const(0)))
        run.oblige(st, "length", c_of(v, none), "is_empty answers wrongly for %r elements" % (clen(old[0]),))
        unchanged(run, st, old, now)

    def fresh(run, st, v, old, now, args):
        want = [("E", a) for a in args]
        conserved(run, st, "content", vcontent(run, st, v, F), want, "construction")
        well(run, st, v, F, "construction")

    def copy(run, st, v, old, now, args):
        conserved(run, st, "content", vcontent(run, st, v, F), old[0], "clone")
        conserved(run, st, "content", vcontent(run, st, now(st), F), old[0], "being cloned")
        well(run, st, v, F, "clone")
    out["new"] = dict(post=fresh)
    out["default"] = dict(post=fresh)
    out["singleton"] = dict(post=fresh)
    out["clone"] = dict(post=copy)
    out["len"] = dict(post=length, total=True)
    out["is_empty"] = dict(post=isempty, total=True)
    return out


GROUPS = {"C02": ("content", "cut position", "pop of elements"), "C09": ("length",),
          "C19": ("levels", "spines", "no empty child", "outermost nodes", "room", "balance"),
          "C10": ("position read", "read in range"), "C16": ("read in range", "unchanged", "pop of elements")}


def strong_after(run, st, v, F, what):
    """what every operation may rely on (exact passes only): ends are not empty, inner nodes have room for one more"""
    if run.mode != "under":
        return
    l, root, r, n = parts(run, st, v, F)
    h = root.f["lv"].l
    if not h.is_const():
        raise Stuck("height %r" % (h,))
    if h.c < 1:
        return
    last = []
    for nm, w in (("left", l), ("right", r)):
        if not w.length() == h:
            return
        for i in range(h.c):
            k = run.eng.word_get(st, w, const(i)).f["c"].length()
            if i == 0:
                run.oblige(st, "outermost nodes", c_le(const(1), k), "%s: the leaf of the %s spine is empty in a vector of height %r" % (what, nm, h))
            else:
                run.oblige(st, "room", c_le(k, W() - 1), "%s: node %d of the %s spine has no free slot" % (what, i, nm))
        last.append(k)
    k = root.f["c"].length()
    run.oblige(st, "room", c_le(k, W() - 2), "%s: the root has %r children, fewer than two free slots" % (what, k))
    if decide(st, c_eq(k, const(0))):
        a, b = last
        run.oblige(st, "balance", ("and", c_le(a - b, const(1)), c_le(b - a, const(1)), c_le(const(lin.W - (2 if h.c > 1 else 0)), a + b)),
                   "%s: the root is empty and the spines end in nodes with %r and %r children" % (what, a, b))


def W():
    return const(lin.W)


class TreeLab(Lab):
    """a Lab whose exact passes only count what has a concrete instance"""
    bare = {}
    h2 = 0


def witnessed(run):
    """drop failures for which no concrete instance was found"""
    old = run.oblige

    def oblige(st, name, cond, text, span=""):
        n = len(run.eng.log)
        r = old(st, name, cond, text, span)
        if len(run.eng.log) > n and run.eng.log[-1][1] == "fail" and run.mode == "under":
            m = tree.find_model(st.facts)
            x = run.eng.log[-1]
            run.eng.log[-1] = (x[0], "fail" if m is not None else "unknown", x[2], x[3], x[4])
        return r
    run.oblige = oblige


def task(job):
    """one pass over one function; in a process of its own"""
    nm, sd, mode, h, bare, h2 = job
    p, F, S = SHARED
    lab = TreeLab(p, None, max_states=LIMIT, phases=3)
    lab.only = None
    lab.bare, lab.h2 = bare, h2
    k = lab.key(V, nm)
    used = set()
    lem = (HELPERS + OPS * (nm not in OPS)) if mode == "over" else ()
    inner = setup_for(lab, k, F, S[nm], sd, lem)

    def setup(run):
        witnessed(run)
        run.eng.deadline = time.time() + SECONDS
        run.used_lemmas = used
        return inner(run)
    t0 = time.time()
    run = lab.one_run(k, setup, mode, h)
    log = [(n, v, t[:600], loc_of(sp) if sp else loc_of(p.bodies[k]["span"]), ta) for n, v, t, sp, ta in run.eng.log]
    pan = []
    if mode == "over" and S[nm].get("total") and not run.error:
        for st, why, span in run.eng.panics:
            good = not st.facts.consistent() or st.facts.entails(run.may_panic)
            log.append(("completes", "ok" if good else "fail", why, loc_of(p.bodies[k]["span"]), bool(st.taint)))
        log.append(("completes", "ok", "", loc_of(p.bodies[k]["span"]), False))
    if mode == "under":
        for st, why, span in run.eng.panics:
            st = st.assume(lin.negate(run.may_panic)) if run.may_panic != ("F",) else st
            if st is not None and not st.taint and st.facts.feasible() and tree.find_model(st.facts) is not None:
                pan.append((why, loc_of(span) if isinstance(span, str) and span else loc_of(p.bodies[k]["span"])))
    if run.eng.cuts and not run.error:
        run.error = "a loop does not end within the bound"
    return dict(error=run.error, rets=len(run.rets or ()), states=run.eng.nstates, log=log, panics=pan, used=sorted(used), t=round(time.time() - t0, 1))


SHARED = None
LIMIT = 120000
SECONDS = 300


def run_tree(ctx, prop, always_exact=False):
    global SHARED, LIMIT
    only = GROUPS[prop]
    ops = OPSETS[prop]
    p = Prog("release")
    F = fields(p)
    if F is None:
        ctx.undecided("vector layout", "the fields of the vector have other names")
        return
    S = specs(F)
    SHARED = (p, F, S)
    lab = Lab(p, ctx)
    jobs, sides = [], {}
    for nm in tuple(HELPERS) * any(nm in PUBLIC for nm in ops) + ops:
        k = lab.key(V, nm)
        if k is None:
            ctx.undecided(nm, "no such method")
            continue
        b = p.bodies[k]
        takes_side = any(p.types[b["locals"][i + 1][0]].get("path", "").endswith("Side") for i in range(b["argc"]))
        sides[nm] = SIDES if takes_side else (None,)
        jobs += [(nm, sd, "over", 1, {}, None) for sd in sides[nm]]
    ctx.floor("operations", len(ops), sum(nm in sides for nm in ops))
    jobs.sort(key=lambda j: j[0] not in ("append", "split_off"))
    res = {}

    def go(js):
        with multiprocessing.get_context("fork").Pool(min(8, max(1, len(js)))) as pool:
            for j, r in zip(js, pool.map(task, js, chunksize=1)):
                res[j[:4] + (tuple(sorted(j[4].items())), j[5])] = r
                ctx.count("functions analysed")
                ctx.count("abstract states", r["states"])
                ctx.count("return partitions", r["rets"])
    go(jobs)

    def over(nm):
        return [res[(nm, sd, "over", 1, (), None)] for sd in sides[nm]]

    def sound(nm):
        return nm in sides and all(not r["error"] and r["rets"] and all(x[1] == "ok" for x in r["log"]) for r in over(nm))
    base = {nm for nm in sides if sound(nm)}
    proved = {nm for nm in base if all(u in base for r in over(nm) for u in r["used"])}
    while True:
        q = {nm for nm in proved if all(u in proved for r in over(nm) for u in r["used"])}
        if q == proved:
            break
        proved = q
    for nm in sides:
        for sd, r in zip(sides[nm], over(nm)):
            title = nm + (" " + sd if sd else "")
            mine = [x for x in r["log"] if x[0] in only or x[0] == "completes" and prop in ("C10", "C16")]
            if nm in proved:
                for n in sorted({x[0] for x in mine}):
                    ctx.ok("%s: %s" % (title, n), "every height and shape")
                ctx.count("obligation instances", len(mine))
                ctx.sample("%s: %d obligations on %d return partitions, every height; uses %s" % (title, len(mine), r["rets"], ", ".join(r["used"]) or "no lemma"))
            elif nm in HELPERS:
                bad = [x for x in r["log"] if x[1] != "ok"]
                ctx.undecided(title, r["error"] or (bad[0][0] + ": " + bad[0][2] if bad else "a procedure it uses is not proved"))
    # exact passes over small heights
    todo = [nm for nm in ops if nm in sides and (always_exact or nm not in proved or prop == "C16" and not S[nm].get("total"))]
    jobs = []
    for nm in todo:
        two = nm == "append"
        for h in (1, 2, 3) if nm in PUBLIC else (1, 2, 3, 4, 5):
            for h2 in ((0, 1, 2) if two else (0,)):
                for a in ((None,) if h == 1 else (True, False)):
                    for b in ((None,) if h2 == 0 else (True, False)):
                        jobs.append((nm, None, "under", h, {"A": a, "B": b}, h2))
    jobs.sort(key=lambda j: -j[3] - (j[5] or 0))
    go(jobs)
    exact = only + (("completes",) if prop != "C09" else ())
    for nm in todo:
        worst = {}
        rs = [(j, res[j[:4] + (tuple(sorted(j[4].items())), j[5])]) for j in jobs if j[0] == nm]
        err = [r["error"] for j, r in rs if r["error"]]
        for j, r in rs:
            for n, v, text, loc, ta in r["log"]:
                if n in only:
                    if v == "fail":
                        ctx.violation("%s: %s" % (nm, n), "%s, height %d: %s" % (nm, j[3] - 1, text), loc)
                    worst[n] = max(worst.get(n, 0), ("ok", "unknown", "fail").index(v))
            if prop != "C09":
                worst.setdefault("completes", 0)
                for why, loc in r["panics"]:
                    worst["completes"] = 2
                    ctx.violation("%s: completes" % nm, "%s of a well-formed vector of height %d panics: %s" % (nm, j[3] - 1, why), loc)
        for n in exact:
            if worst.get(n) == 0 and not err:
                ctx.ok("%s: %s" % (nm, n), "exact, heights 0 to %d" % (2 if nm in PUBLIC else 4))
            elif n in worst and worst[n] != 2 or err:
                ctx.undecided("%s: %s" % (nm, n), "; ".join(map(str, err[:1])) or "no concrete instance")
            elif n not in worst and nm not in proved and n in ("content", "length", "levels"):
                ctx.undecided("%s: %s" % (nm, n), "not reached")


PUBLIC = OPS + ("split_off", "append")
MAKE = ("new", "default", "singleton", "clone")
READS = ("get", "get_mut", "get_mut_guarded", "index", "index_mut", "front", "front_mut", "back", "back_mut")
OPSETS = {"C02": PUBLIC + MAKE, "C09": PUBLIC + MAKE + ("len", "is_empty"), "C19": PUBLIC + MAKE, "C10": READS, "C16": READS + ("pop_back", "pop_front")}


def run(ctx):
    ctx.rule(RULE)
    run_tree(ctx, "C02")
    COMPOSED = ("insert", "remove", "prepend", "slice_from_start", "slice_to_end", "from_iter")
    p = Prog("release")
    n = compose.composites(ctx, p, COMPOSED, {nm: ("sequence",) for nm in COMPOSED})
    lab = Lab(p, ctx)
    k = lab.key(V, "extract_slice")
    if k is not None:
        n += 1
        for combo in RANGE_COMBOS:
            lab.judge("extract_slice(%s start, %s end)" % combo, k, c12.extract_setup(lab, k, combo), ("takes out exactly [s, e)",), panic_ok=lambda st, why: False)
    ctx.floor("composed operations", len(COMPOSED), n)
    nodespecs.run_nodes(ctx, "C02")
    c07.contents(ctx)


RULE = ("The vector is analysed as three sequences of nodes (left spine, root, right spine) with symbolic sizes and levels over the "
        "contracts of the node layer; loops are summarised by the concatenation of all places that hold nodes, which every operation "
        "must leave as its name promises. Helpers are proved first and then used as lemmas.")
