"""Operations that are put together from whole-vector operations: what they do to the sequence of elements.
The whole-vector operations they call (split_off, append, push, pop, ...) are the ones c02 decides on the tree itself."""
from facts import loc_of
from absint import *
import absint
from contracts import *
import lin
from rules import c12
from rules.c12 import VEC, vec_word, install_vectors, same_word

V = "vector::InternalVector"


def seq(run, st, ref):
    return vec_word(run, st, ref)[1]


def part(x, lo, hi):
    return ("S", x, lo, hi, False)


def setup_for(lab, key, nm, spec):
    p = lab.p

    def setup(run):
        install_vectors(run, keep=key)
        install_streams(run)
        st = St()
        b = p.bodies[key]
        args, vs, ints, items = [], [], [], []
        for i in range(b["argc"]):
            t = p.types[b["locals"][i + 1][0]]
            inner = p.types[t["ty"]] if t["k"] == "ref" else t
            if inner.get("path") == V:
                x = "ABC"[len(vs)]
                n = atom(("n", x))
                st.have(c_le(const(0), n))
                w = VEC(Word([part(x, const(0), n)]))
                if t["k"] == "ref":
                    st.mem[("*", x)] = w
                    args.append(Ref(("*", x)))
                else:
                    args.append(w)
                vs.append((x, n))
            elif t["k"] == "int":
                a = atom(b["locals"][i + 1][1] or "i%d" % i)
                ints.append(a)
                args.append(Int(a))
            elif spec.get("stream"):
                n = atom(("n", "I"))
                st.have(c_le(const(0), n))
                args.append(Obj("STREAM", None, {"at": Int(0)}))
                vs.append(("I", n))
            else:
                args.append(Sym(("item", i)))
                items.append(("E", args[-1]))
        if "when" in spec:
            for c in spec["when"](vs, ints):
                st.have(c)

        def post(run, st, v):
            spec["post"](run, st, v, vs, ints, items, args)
        return args, st, post
    return setup


def install_streams(run):
    """a caller's iterator: answers the elements I[0], I[1], ... and then None"""
    def hook(eng, st, c):
        if c.name == "into_iter" and len(c.args) == 1 and isinstance(c.args[0], Obj) and c.args[0].tag == "STREAM":
            return [(st, c.args[0])]
        if c.name == "take" and len(c.args) == 2 and isinstance(c.args[0], Obj) and c.args[0].tag == "STREAM":
            k = models.as_usize(eng, c.args[1])
            s = c.args[0]
            if k is None or "end" in s.f:
                return NotImplemented
            return [(st, Obj("STREAM", None, dict(s.f, end=Int(s.f["at"].l + k))))]
        if c.name in ("size_hint", "next") and len(c.args) == 1 and isinstance(c.args[0], Ref):
            r = c.args[0]
            v = eng.load(st, r)
            while isinstance(v, Ref):
                r, v = v, eng.load(st, v)
            if not isinstance(v, Obj) or v.tag != "STREAM":
                return NotImplemented
            n, k = atom(("n", "I")), v.f["at"].l
            if c.name == "size_hint":
                if "end" in v.f:
                    return NotImplemented
                lo = atom(("hint", c.site, 0))      # an iterator may promise any number it will really answer
                st.have(c_le(const(0), lo))
                st.have(c_le(lo + k, n))
                return [(st, tup(Int(lo), Sym(("hint", c.site, 1))))]
            if "end" in v.f and not decide(st, c_lt(k, v.f["end"].l)):
                return [(st, NONE)]
            if not decide(st, c_lt(k, n)):
                return [(st, NONE)]
            eng.store(st, r, Obj("STREAM", None, dict(v.f, at=Int(k + 1))))
            return [(st, some(Sym(("at", "I", k))))]
        return NotImplemented
    run.eng.hooks.insert(0, hook)


def is_word(run, st, w, want, name, text, cuts=()):
    for c in cuts:
        decide(st, c)
    run.oblige(st, name, same_word(run, st, w, Word(want)), "%s: the sequence is %r instead of %r" % (text, w, Word(want)))


def specs():
    z = const(0)

    def insert(run, st, v, vs, ints, items, args):
        (x, n), i = vs[0], ints[0]
        is_word(run, st, seq(run, st, args[0]), [part(x, z, i), items[0], part(x, i, n)], "sequence", "insert", (c_eq(i, z), c_eq(i, n)))

    def remove(run, st, v, vs, ints, items, args):
        (x, n), i = vs[0], ints[0]
        w = seq(run, st, args[0])
        inside = decide(st, c_lt(i, n))
        k = run.eng.variant(st, v, 2)
        run.oblige(st, "answers", (k == 1) == inside, "remove of position %r %s" % (i, "below the length answers None" if inside else "at or beyond the length answers an element"))
        if not inside:
            is_word(run, st, w, [part(x, z, n)], "unchanged", "remove out of range", (c_eq(n, z),))
            return
        if k != 1:
            return
        e = run.eng.piece_of(st, run.eng.payload(st, v, 0))
        run.oblige(st, "sequence", same_word(run, st, Word([e]), Word([part(x, i, i + 1)])), "remove answers %r instead of position %r" % (e, i))
        is_word(run, st, w, [part(x, z, i), part(x, i + 1, n)], "sequence", "remove", (c_eq(i, z), c_eq(i + 1, n)))

    def prepend(run, st, v, vs, ints, items, args):
        (x, n), (y, m) = vs
        is_word(run, st, seq(run, st, args[0]), [part(y, z, m), part(x, z, n)], "sequence", "prepend", (c_eq(n, z), c_eq(m, z)))

    def from_start(run, st, v, vs, ints, items, args):
        (x, n), i = vs[0], ints[0]
        k = i if decide(st, c_le(i, n)) else n
        is_word(run, st, seq(run, st, args[0]), [part(x, z, k)], "sequence", "slice_from_start", (c_eq(k, z), c_eq(k, n)))

    def to_end(run, st, v, vs, ints, items, args):
        (x, n), i = vs[0], ints[0]
        k = i if decide(st, c_le(i, n)) else n
        is_word(run, st, seq(run, st, args[0]), [part(x, k, n)], "sequence", "slice_to_end", (c_eq(k, z), c_eq(k, n)))

    def collect(run, st, v, vs, ints, items, args):
        x, n = vs[0]
        if not (isinstance(v, Obj) and v.tag == "VEC"):
            raise Stuck("result %r" % (v,))
        is_word(run, st, v.f["w"], [part(x, z, n)], "sequence", "collecting", (c_eq(n, z),))
    return {"insert": dict(post=insert, when=lambda vs, ints: [c_le(ints[0], vs[0][1])]),
            "remove": dict(post=remove), "prepend": dict(post=prepend), "slice_from_start": dict(post=from_start),
            "slice_to_end": dict(post=to_end), "from_iter": dict(post=collect, stream=True)}


def composites(ctx, p, names, expect):
    S = specs()
    lab = Lab(p, ctx)
    n = 0
    for nm in names:
        k = lab.key(V, nm)
        if k is None:
            ctx.undecided(nm, "no such operation")
            continue
        n += 1
        lab.only = expect[nm]
        lab.judge(nm, k, setup_for(lab, k, nm, S[nm]), expect[nm], panic_ok=lambda st, why: False)
    return n
