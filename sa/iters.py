"""Iterators as objects that move linearly: the object after i calls of next and j calls of next_back is described by the
constructor's result plus i and j times what one call changes; that description is then proved inductively."""
import itertools
from absint import *
from contracts import *
import absint
import lin

WIDTH = lin.W


class NoForm(Exception):
    pass


def leaves(v, path=()):
    if isinstance(v, Int):
        yield path, v
    elif isinstance(v, Obj):
        for i in sorted(v.f, key=str):
            yield from leaves(v.f[i], path + (("f", i),))
    elif isinstance(v, Word):
        for k, x in enumerate(v.p):
            if x[0] == "S":
                yield path + (("w", k, 2),), Int(x[2])
                yield path + (("w", k, 3),), Int(x[3])
    # anything else is not a counter


def skeleton(v):
    """the object with its counters blanked, for comparing shapes"""
    if isinstance(v, Int):
        return "int"
    if isinstance(v, Obj):
        return (v.tag, v.var, v.base, tuple((i, skeleton(v.f[i])) for i in sorted(v.f, key=str)))
    if isinstance(v, Word):
        return ("word", tuple((x[0], x[1], x[4]) if x[0] == "S" else ("E", repr(x[1])) for x in v.p))
    return repr(v)


def rebuild(v, sub, path=()):
    if isinstance(v, Int):
        return Int(sub[path])
    if isinstance(v, Obj):
        return Obj(v.tag, v.var, {i: rebuild(x, sub, path + (("f", i),)) for i, x in v.f.items()}, v.base)
    if isinstance(v, Word):
        ps = []
        for k, x in enumerate(v.p):
            ps.append(("S", x[1], sub[path + (("w", k, 2),)], sub[path + (("w", k, 3),)], x[4]) if x[0] == "S" else x)
        return Word(ps)
    return v


def same_normal(st, a, b):
    if isinstance(a, Word) and isinstance(b, Word):
        x, y = absint.norm_pieces(st, list(a.p)), absint.norm_pieces(st, list(b.p))
        if len(x) != len(y):
            return False
        return all(u[0] == v[0] == "S" and u[1] == v[1] and u[4] == v[4] and st.facts.entails(c_eq(u[2], v[2])) and
                   st.facts.entails(c_eq(u[3], v[3])) for u, v in zip(x, y))
    if isinstance(a, Int) and isinstance(b, Int):
        return st.facts.entails(c_eq(a.l, b.l))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return (a.tag, a.var, a.base, set(a.f)) == (b.tag, b.var, b.base, set(b.f)) and all(same_normal(st, a.f[i], b.f[i]) for i in a.f)
    return repr(a) == repr(b)


class Form:
    """O(i, j)"""

    def __init__(self, o0):
        self.o0 = o0
        self.shape = skeleton(o0)
        self.cell = {p: [v.l, 0, 0, False] for p, v in leaves(o0)}

    def learn(self, objs, which):
        """objs: results of one call (one per path)"""
        ds = {p: set() for p in self.cell}
        for o in objs:
            if skeleton(o) != self.shape:
                raise NoForm("one call changes more than counters: %r" % (o,))
            now = dict(leaves(o))
            for p in self.cell:
                d = now[p].l - self.cell[p][0]
                if not d.is_const():
                    raise NoForm("%s changes by %r" % (p, d))
                ds[p].add(d.c)
        for p, s in ds.items():
            m = {d % WIDTH for d in s}
            if len(s) == 1:
                self.cell[p][which] = s.pop()
            elif len(m) == 1:
                d = m.pop()
                self.cell[p][which] = d if d < WIDTH // 2 else d - WIDTH
                self.cell[p][3] = True
            else:
                raise NoForm("%s changes irregularly by %s" % (p, sorted(s)))

    def objects(self, i, j):
        """(object, facts) alternatives: counters that wrap are taken modulo the width"""
        ring = [p for p in self.cell if self.cell[p][3]]
        for qs in itertools.product((0, -1, 1), repeat=len(ring)):
            sub, facts = {}, []
            for p, (l, a, b, w) in self.cell.items():
                v = l + i.scale(a) + j.scale(b)
                if w:
                    v = v + WIDTH * qs[ring.index(p)]
                    facts += [c_le(const(0), v), c_lt(v, const(WIDTH))]
                sub[p] = v
            yield rebuild(self.o0, sub), facts

    def matches(self, st, o, i, j):
        if skeleton(o) != self.shape and not any(x[3] for x in self.cell.values()):
            # a word that has become empty
            sub = {p: l + i.scale(a) + j.scale(b) for p, (l, a, b, w) in self.cell.items()}
            return same_normal(st, rebuild(self.o0, sub), o)
        if skeleton(o) != self.shape:
            return False
        now = dict(leaves(o))
        for p, (l, a, b, w) in self.cell.items():
            v = l + i.scale(a) + j.scale(b)
            x = now[p].l
            if st.facts.entails(c_eq(x, v)):
                if w and not (st.facts.entails(c_lt(x, const(WIDTH)))):
                    return False
                continue
            if w and any(st.facts.entails(c_eq(x, v + q)) for q in (WIDTH, -WIDTH)) and \
                    st.facts.entails(c_lt(x, const(WIDTH))) and st.facts.entails(c_le(const(0), x)):
                continue
            return False
        return True
