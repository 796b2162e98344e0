"""Affine expressions, conditions and a small linear-inequality domain (Fourier-Motzkin entailment)."""
from functools import lru_cache
from math import gcd

W = 64  # replaced by the crate's RRB_WIDTH when facts are loaded


def set_width(w):
    global W
    W = w


def get_width():
    return W


_NAME = {}


def _by_name(x):
    a = x[0]
    r = _NAME.get(a)
    if r is None:
        r = _NAME[a] = repr(a)
    return r


class Lin:
    """const + sum(coeff * atom); immutable, hashable. Atoms are hashable opaque ids (usize, >= 0)."""
    __slots__ = ("c", "t", "_h", "_r")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t if isinstance(t, tuple) else tuple(sorted(((a, k) for a, k in t.items() if k), key=_by_name))
        self._h = self._r = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def d(self):
        return dict(self.t)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = self.d()
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.t})

    def is_const(self):
        return not self.t

    def atoms(self):
        return [a for a, _ in self.t]

    def subst(self, m):
        """m: atom -> Lin"""
        if not any(a in m for a, _ in self.t):
            return self
        r = Lin(self.c)
        for a, k in self.t:
            r = r + (m[a].scale(k) if a in m else Lin(0, ((a, k),)))
        return r

    def __repr__(self):
        s = []
        for a, k in self.t:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show_atom(a))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s).replace("+ -", "- ")


def show_atom(a):
    if isinstance(a, tuple):
        if not a:
            return "()"
        if a and a[0] == "rem":
            return "(%r %% %d)" % (a[1], W)
        if a and a[0] == "call":
            return "%s@%s" % (a[1], a[-1] if len(a) > 2 else "")
        return str(a[0]) + "(" + ",".join(show_atom(x) if not isinstance(x, Lin) else repr(x) for x in a[1:]) + ")"
    return str(a)


def const(n):
    return Lin(n)


def atom(a):
    return Lin(0, ((a, 1),))


def rem(l):
    """l mod W, canonical."""
    d = {}
    c = l.c
    for a, k in l.t:
        if isinstance(a, tuple) and a and a[0] == "rem":
            c += a[1].c * k
            for b, kk in a[1].t:
                d[b] = d.get(b, 0) + kk * k
        else:
            d[a] = d.get(a, 0) + k
    d = {a: k % W for a, k in d.items() if k % W}
    # keep -1 as W-1 (canonical residue)
    r = Lin(c % W, d)
    if r.is_const():
        return r
    return atom(("rem", r))


def residue(l):
    """canonical representative of l modulo W (a Lin with coefficients in [0,W))."""
    x = rem(l)
    if x.is_const():
        return x
    if len(x.t) == 1 and isinstance(x.t[0][0], tuple) and x.t[0][0][0] == "rem":
        return x.t[0][0][1]
    return x


# ---- conditions: ('le', L) means L <= 0; ('eq', L); ('ne', L); ('T',); ('F',); ('b', id, bool)

def c_le(a, b):
    return norm(("le", a - b))


def c_lt(a, b):
    return norm(("le", a - b + 1))


def c_eq(a, b):
    return norm(("eq", a - b))


def c_ne(a, b):
    return norm(("ne", a - b))


def norm(c):
    if c[0] == "le":
        if c[1].is_const():
            return ("T",) if c[1].c <= 0 else ("F",)
    elif c[0] == "eq":
        if c[1].is_const():
            return ("T",) if c[1].c == 0 else ("F",)
        if c[1].t[0][1] < 0:
            c = ("eq", -c[1])
    elif c[0] == "ne":
        if c[1].is_const():
            return ("T",) if c[1].c != 0 else ("F",)
        if c[1].t[0][1] < 0:
            c = ("ne", -c[1])
    return c


def negate(c):
    k = c[0]
    if k == "T":
        return ("F",)
    if k == "F":
        return ("T",)
    if k == "le":
        return norm(("le", -c[1] + 1))
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "b":
        return ("b", c[1], not c[2])
    if k == "d":  # discriminant test: ('d', symid, value, bool)
        return ("d", c[1], c[2], not c[3])
    if k == "and":
        return ("or", negate(c[1]), negate(c[2]))
    if k == "or":
        return ("and", negate(c[1]), negate(c[2]))
    raise ValueError(c)


_BOUNDS = {}


def _bounds(a):
    b = _BOUNDS.get(a)
    if b is None:
        b = _BOUNDS[a] = tuple(_atom_bounds(a))
    return b


def _atom_bounds(a):
    """implicit constraints on an atom (list of Lin <= 0)."""
    x = atom(a)
    out = [-x]  # usize >= 0
    if isinstance(a, tuple) and a:
        if a[0] == "rem":
            out.append(x - (W - 1))
        elif a[0] == "half":
            # a = floor(L/2): 2a <= L, L <= 2a+1
            out.append(x.scale(2) - a[1])
            out.append(a[1] - x.scale(2) - 1)
    return out


_AID = {}
_AREPR = []


def _aid(a):
    i = _AID.get(a)
    if i is None:
        i = _AID[a] = len(_AREPR)
        _AREPR.append(repr(a))
    return i


def _row(l):
    r = l._r
    if r is None:
        r = l._r = tuple(sorted((_aid(a), k) for a, k in l.t))
    return r


@lru_cache(maxsize=200000)
def infeasible(cons):
    """cons: frozenset of Lin (each meaning Lin <= 0). True if definitely infeasible (rational FM)."""
    cs = {}                                 # row -> tightest constant
    for l in cons:
        if not l.t:
            if l.c > 0:
                return True
            continue
        r = _row(l)
        c = cs.get(r)
        if c is None or c < l.c:
            cs[r] = l.c
    steps = 0
    while cs:
        # choose the atom with the fewest products
        occ = {}
        for t in cs:
            for a, k in t:
                p = occ.get(a)
                if p is None:
                    p = occ[a] = [0, 0]
                p[0 if k > 0 else 1] += 1
        best, bk = None, None
        for a, (x, y) in occ.items():
            k = x * y - x - y
            if bk is None or k < bk or k == bk and _AREPR[a] < _AREPR[best]:
                best, bk = a, k
        pos, neg, rest = [], [], {}
        for t, c in cs.items():
            for a, k in t:
                if a == best:
                    (pos if k > 0 else neg).append((k if k > 0 else -k, t, c))
                    break
            else:
                rest[t] = c
        for kp, tp, cp in pos:
            for kn, tn, cn in neg:
                d = {a: k * kn for a, k in tp}
                for a, k in tn:
                    k = d.get(a, 0) + k * kp
                    if k:
                        d[a] = k
                    else:
                        d.pop(a, None)
                c = cp * kn + cn * kp
                if not d:
                    if c > 0:
                        return True
                    continue
                g = gcd(*d.values())
                if g > 1:
                    # integer tightening: floor division of the constant
                    c = -((-c) // g)
                    r = tuple(sorted([(a, k // g) for a, k in d.items()]))
                else:
                    r = tuple(sorted(d.items()))
                # subsumption: keep the tightest constant for the same terms
                o = rest.get(r)
                if o is None or o < c:
                    rest[r] = c
        cs = rest
        steps += 1
        if len(cs) > 400 or steps > 60:
            return False
    return False


IMPOSSIBLE = const(1)


class Facts:
    """Conjunction of linear facts and boolean/discriminant facts. Immutable."""
    __slots__ = ("le", "ne", "bools", "_cc", "_from")

    def __init__(self, le=frozenset(), ne=frozenset(), bools=frozenset(), cc=None, more=()):
        self.le, self.ne, self.bools = le, ne, bools
        self._cc = None
        # what is known of a set of facts that lacks a few of these
        self._from = (cc, more) if cc is not None else None
        if cc is not None and not more:
            self._cc, self._from = cc, None

    def _with(self, *more):
        more = [l for l in more if l not in self.le]
        if not more:
            return self
        cc = self._cc
        if cc is None and self._from is not None and len(self._from[1]) < 8:
            cc, more0 = self._from
            return Facts(self.le.union(more), self.ne, self.bools, cc, tuple(more0) + tuple(more))
        return Facts(self.le.union(more), self.ne, self.bools, cc, tuple(more))

    def key(self):
        return (self.le, self.ne, self.bools)

    def add(self, c):
        """returns new Facts or None if contradictory."""
        k = c[0]
        if k == "T":
            return self
        if k == "F":
            return None
        if k == "le":
            if self.entails(negate(c)):
                return None
            return self._with(c[1])
        if k == "eq":
            if self.entails(("ne", c[1])):
                return None
            return self._with(c[1], -c[1])
        if k == "ne":
            if self.entails(("eq", c[1])):
                return None
            f = self
            # usize: x != lower bound  =>  x >= lower bound + 1
            if f.entails(("le", c[1])):
                return f._with(c[1] + 1)
            if f.entails(("le", -c[1])):
                return f._with(-c[1] + 1)
            return Facts(f.le, f.ne | {c[1]}, f.bools, f._cc)
        if k == "b":
            if ("b", c[1], not c[2]) in self.bools:
                return None
            return Facts(self.le, self.ne, self.bools | {c}, self._cc)
        if k == "d":
            for b in self.bools:
                if b[0] == "d" and b[1] == c[1]:
                    if b[3] and c[3] and b[2] != c[2]:
                        return None
                    if b[2] == c[2] and b[3] != c[3]:
                        return None
                    if b[3] and not c[3] and b[2] != c[2]:
                        return self
            return Facts(self.le, self.ne, self.bools | {c}, self._cc)
        if k == "and":
            f = self.add(c[1])
            return f.add(c[2]) if f is not None else None
        if k == "or":
            a, b = self.add(c[1]), self.add(c[2])
            if a is None:
                return b
            if b is None:
                return a
            return self
        raise ValueError(c)

    def discr(self, sym):
        for b in self.bools:
            if b[0] == "d" and b[1] == sym and b[3]:
                return b[2]
        return None

    def not_discr(self, sym):
        return {b[2] for b in self.bools if b[0] == "d" and b[1] == sym and not b[3]}

    def _parts(self):
        """the facts (with what holds of every unknown in them) by connected component: (atom -> part, part -> facts)"""
        if self._cc is not None:
            return self._cc
        if self._from is not None:
            cc, more = self._from
            self._from = None
            of, parts, names = dict(cc[0]), dict(cc[1]), cc[3]
            for l in more:
                lines, todo, seen = [l], [l], set()
                hit = set()
                ids = []
                while todo:
                    for a, _ in todo.pop().t:
                        i = _aid(a)
                        if i in seen:
                            continue
                        seen.add(i)
                        ids.append(i)
                        p = of.get(i)
                        if p is not None:
                            hit.add(p)
                        else:
                            b = _bounds(a)
                            lines.extend(b)
                            todo.extend(b)
                if not ids:
                    continue
                new = max(hit, key=lambda p: len(names[p])) if hit else ids[0]
                got = [parts[p] for p in hit]
                parts[new] = frozenset(lines).union(*got)
                mine = set(ids)
                for p in hit:
                    mine.update(names[p])
                    if p != new:
                        del parts[p]
                for i in mine if len(hit) > 1 else ids:
                    of[i] = new
                names = {**names, new: frozenset(mine)}
            self._cc = (of, parts, {}, names)
            return self._cc
        up = {}

        def find(a):
            while up[a] != a:
                up[a] = up[up[a]]
                a = up[a]
            return a
        lines, seen, todo = list(self.le), set(), list(self.le)
        while todo:
            ids = []
            for a, _ in todo.pop().t:
                i = _aid(a)
                ids.append(i)
                if i not in up:
                    up[i] = i
                if i not in seen:
                    seen.add(i)
                    b = _bounds(a)
                    lines.extend(b)
                    todo.extend(b)
            for i in ids[1:]:
                up[find(i)] = find(ids[0])
        of, parts = {}, {}
        for l in lines:
            if l.t:
                parts.setdefault(find(_row(l)[0][0]), []).append(l)
        of = {i: find(i) for i in up}
        names = {}
        for i, p in of.items():
            names.setdefault(p, set()).add(i)
        self._cc = (of, {p: frozenset(x) for p, x in parts.items()}, {}, names)
        return self._cc

    def _relevant(self, atoms):
        of, parts, memo, _ = self._parts()
        ps, extra = set(), []
        todo, seen = list(atoms), set()
        while todo:
            a = todo.pop()
            i = _aid(a)
            if i in seen:
                continue
            seen.add(i)
            p = of.get(i)
            if p is not None:
                ps.add(p)
                continue
            for l in _bounds(a):
                extra.append(l)
                todo += l.atoms()
        ps = frozenset(ps)
        r = memo.get(ps)
        if r is None:
            r = memo[ps] = frozenset().union(*[parts[p] for p in ps])
        return r.union(extra) if extra else r

    def entails(self, c):
        if IMPOSSIBLE in self.le:
            return True
        k = c[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "le":
            l = c[1]
            if l.is_const():
                return l.c <= 0
            if l in self.le:
                return True
            return infeasible(self._relevant(l.atoms()) | {-l + 1})
        if k == "eq":
            l = c[1]
            if l.is_const():
                return l.c == 0
            return self.entails(("le", l)) and self.entails(("le", -l))
        if k == "ne":
            l = c[1]
            if l.is_const():
                return l.c != 0
            if l in self.ne or -l in self.ne:
                return True
            return self.entails(("le", l + 1)) or self.entails(("le", -l + 1))
        if k == "b":
            return c in self.bools
        if k == "d":
            for b in self.bools:
                if b[0] == "d" and b[1] == c[1]:
                    if b[2] == c[2] and b[3] == c[3]:
                        return True
                    if b[3] and b[2] != c[2] and not c[3]:
                        return True
            return False
        if k == "and":
            return self.entails(c[1]) and self.entails(c[2])
        if k == "or":
            return self.entails(c[1]) or self.entails(c[2])
        raise ValueError(c)

    def consistent(self):
        """False if the linear part is infeasible (contradictory path)."""
        if IMPOSSIBLE in self.le:
            return False
        atoms = set()
        for l in self.le:
            atoms.update(l.atoms())
        return not infeasible(self._relevant(atoms)) if atoms else True

    def feasible(self, depth=6):
        """like consistent, with the disequations decided to one side each"""
        if not self.consistent():
            return False
        for l in sorted(self.ne, key=repr):
            if self.entails(("le", l + 1)) or self.entails(("le", l.scale(-1) + 1)):
                continue
            if depth == 0:
                return True
            rest = Facts(self.le, self.ne - {l}, self.bools)
            for sg in (1, -1):
                f = rest.add(("le", l.scale(sg) + 1))
                if f is not None and f.feasible(depth - 1):
                    return True
            return False
        return True

    def meet_common(self, o):
        """facts true in both (syntactic intersection, plus mutual entailment)."""
        le = {l for l in self.le if l in o.le or o.entails(("le", l))} | {l for l in o.le if self.entails(("le", l))}
        ne = {l for l in self.ne if o.entails(("ne", l))} | {l for l in o.ne if self.entails(("ne", l))}
        return Facts(frozenset(le), frozenset(ne), self.bools & o.bools)
