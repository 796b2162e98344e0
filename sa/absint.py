"""Abstract interpreter over MIR: relational (linear) facts, symbolic heap shapes, one abstract state per trace
partition; loops are summarised by an inductive head state, never unrolled.  No solver, no execution: values are
affine expressions over named unknowns and opaque symbols, and every branch is decided by linear entailment or split."""
import time
import lin
from lin import Lin, const, atom, c_le, c_lt, c_eq, c_ne, negate, Facts


class NeedSplit(Exception):
    def __init__(self, alts):
        self.alts = alts


class Cap(Exception):
    pass


class Diverge(Exception):
    """the current operation never returns normally (panic)"""
    def __init__(self, why):
        self.why = why


class Stuck(Exception):
    """the domain cannot represent the operation"""
    pass


# ---------------------------------------------------------------- values
class Int:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = const(l) if isinstance(l, int) else l

    def __eq__(self, o):
        return isinstance(o, Int) and self.l == o.l

    def __hash__(self):
        return hash(("I", self.l))

    def __repr__(self):
        return "%r" % self.l


class Bool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Bool) and self.c == o.c

    def __hash__(self):
        return hash(("B", self.c))

    def __repr__(self):
        return "<%r>" % (self.c,)


TRUE, FALSE = Bool(("T",)), Bool(("F",))


class Sym:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Sym) and self.n == o.n

    def __hash__(self):
        return hash(("S", self.n))

    def __repr__(self):
        return "$" + show(self.n)


class Ref:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash(("R", self.root, self.path))

    def __repr__(self):
        return "&" + show(self.root) + "".join("." + show(x) for x in self.path)


class Obj:
    """struct / enum variant / tuple / closure / model object; f: field index -> value, missing ones come from base"""
    __slots__ = ("tag", "var", "f", "base")

    def __init__(self, tag, var=None, f=None, base=None):
        self.tag, self.var, self.f, self.base = tag, var, f or {}, base

    def __eq__(self, o):
        return isinstance(o, Obj) and self.tag == o.tag and self.var == o.var and self.base == o.base and self.f == o.f

    def __hash__(self):
        return hash(("O", self.tag, self.var, self.base, tuple(sorted(self.f.items(), key=lambda x: str(x[0])))))

    def __repr__(self):
        return "%s%s{%s}%s" % (self.tag, "" if self.var is None else "#%s" % (self.var,),
                               ", ".join("%s:%r" % (k, v) for k, v in sorted(self.f.items(), key=lambda x: str(x[0]))),
                               "" if self.base is None else "/" + show(self.base))


class Fn:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, Fn) and self.ref["key"] == o.ref["key"]

    def __hash__(self):
        return hash(("F", self.ref["key"]))

    def __repr__(self):
        return "fn " + self.ref["path"]


class Word:
    """finite sequence: pieces ('S', X, lo, hi, rev) = slice of container X, or ('E', value)"""
    __slots__ = ("p",)

    def __init__(self, p=()):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Word) and self.p == o.p

    def __hash__(self):
        return hash(("W", self.p))

    def __repr__(self):
        return "[" + " ".join(show_piece(x) for x in self.p) + "]"

    def length(self):
        n = const(0)
        for x in self.p:
            n = n + plen(x)
        return n


class Moved:
    def __eq__(self, o):
        return isinstance(o, Moved)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "moved"


MOVED = Moved()
UNINIT = Sym(("uninit",))
UNIT = Obj("tuple")


def plen(x):
    return x[3] - x[2] if x[0] == "S" else const(1)


def show_piece(x):
    if x[0] == "S":
        return "%s%s[%r..%r]" % ("rev " if x[4] else "", show(x[1]), x[2], x[3])
    return "<%r>" % (x[1],)


def show(n):
    if isinstance(n, tuple):
        return "(" + " ".join(show(x) for x in n) + ")"
    return str(n)


def some(v):
    return Obj("Option", 1, {0: v})


NONE = Obj("Option", 0, {})


def tup(*vs):
    return Obj("tuple", None, dict(enumerate(vs)))


# ---------------------------------------------------------------- state
class St:
    __slots__ = ("mem", "facts", "ev", "g", "taint")

    def __init__(self, mem=None, facts=None, ev=(), g=None, taint=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else Facts()
        self.ev = ev
        self.g = g if g is not None else {}
        self.taint = taint

    def copy(self):
        return St(dict(self.mem), self.facts, self.ev, dict(self.g), self.taint)

    def assume(self, c):
        f = self.facts.add(c)
        if f is None:
            return None
        s = self.copy()
        s.facts = f
        return s

    def have(self, c):
        """add a fact that is known to hold (in place on a private copy)"""
        f = self.facts.add(c)
        # a contradiction: this path does not exist
        self.facts = f if f is not None else self.facts._with(lin.IMPOSSIBLE)
        return self

    def event(self, *e):
        self.ev = self.ev + (e,)

    def spoil(self, why):
        if why not in self.taint:
            self.taint = self.taint + (why,)


def decide(st, c):
    k = c[0]
    if k == "T":
        return True
    if k == "F":
        return False
    if k == "and":
        return decide(st, c[1]) and decide(st, c[2])
    if k == "or":
        return decide(st, c[1]) or decide(st, c[2])
    if st.facts.entails(c):
        return True
    n = negate(c)
    if st.facts.entails(n):
        return False
    if k == "eq" and not st.facts.entails(("le", c[1])) and not st.facts.entails(("le", -c[1])):
        # a three-way split keeps the facts convex
        raise NeedSplit([c, ("le", c[1] + 1), ("le", -c[1] + 1)])
    if k == "ne" and not st.facts.entails(("le", c[1])) and not st.facts.entails(("le", -c[1])):
        raise NeedSplit([n, ("le", c[1] + 1), ("le", -c[1] + 1)])
    raise NeedSplit([c, n])


class Loop:
    def __init__(self, head, body):
        self.head, self.body = head, body


def loops_of(b):
    if "_loops" in b:
        return b["_loops"]
    succ = {}
    for i, bl in enumerate(b["blocks"]):
        if bl["cleanup"]:
            continue
        succ[i] = [x for x in successors(bl["t"]) if not b["blocks"][x]["cleanup"]]
    # iterative dominators
    order, seen = [], set()

    def dfs(r):
        st = [(r, iter(succ[r]))]
        seen.add(r)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                st.pop()
    dfs(0)
    order.reverse()
    preds = {n: [] for n in order}
    for n in order:
        for m in succ[n]:
            preds[m].append(n)
    dom = {n: set(order) for n in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for n in order[1:]:
            d = set.intersection(*[dom[p] for p in preds[n]]) | {n} if preds[n] else {n}
            if d != dom[n]:
                dom[n] = d
                ch = True
    ls = {}
    for n in order:
        for m in succ[n]:
            if m in dom[n]:
                body = ls.setdefault(m, {m})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    b["_loops"] = {h: Loop(h, bd) for h, bd in ls.items()}
    # locals live at each loop head
    b["_live"] = liveness(b, succ)
    return b["_loops"]


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def liveness(b, succ):
    """locals that may be read (or are borrowed) from each block on; borrowed locals stay live"""
    use, dfn = {}, {}
    borrowed = set()

    def rd(o, u, d):
        if o[0] in ("copy", "move"):
            pl(o[1], u, d)

    def pl(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for e in p[1:]:
            if e[0] == "i" and e[1] not in d:
                u.add(e[1])
    from facts import rv_operands
    for i in succ:
        u, d = set(), set()
        for s in b["blocks"][i]["s"]:
            if s[0] == "=":
                r = s[2]
                for o in rv_operands(r):
                    rd(o, u, d)
                if r[0] in ("ref", "rawptr"):
                    pl(r[2], u, d)
                    if "*" not in r[2][1:]:
                        borrowed.add(r[2][0])
                if r[0] in ("discr", "len"):
                    pl(r[1], u, d)
                if len(s[1]) == 1:
                    d.add(s[1][0])
                else:
                    pl(s[1], u, d)
        t = b["blocks"][i]["t"]
        if t[0] == "call":
            rd(t[1], u, d)
            for o in t[2]:
                rd(o, u, d)
            if len(t[3]) == 1:
                d.add(t[3][0])
            else:
                pl(t[3], u, d)
        elif t[0] == "switch":
            rd(t[1], u, d)
        elif t[0] == "assert":
            rd(t[1], u, d)
        elif t[0] == "drop":
            pl(t[1], u, d)
        elif t[0] == "return":
            u.add(0)
        use[i], dfn[i] = u, d
    live = {i: set() for i in succ}
    ch = True
    while ch:
        ch = False
        for i in succ:
            o = set()
            for s in succ[i]:
                o |= live[s]
            n = use[i] | (o - dfn[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return {i: live[i] | borrowed for i in live}


ORDERING = {255: 0, -1: 0, 0: 1, 1: 2}


class Frame:
    __slots__ = ("b", "fid", "key", "depth", "stack")

    def __init__(self, b, key, fid, depth, stack):
        self.b, self.key, self.fid, self.depth, self.stack = b, key, fid, depth, stack


class Call:
    """one call as hooks see it"""
    __slots__ = ("ref", "path", "name", "args", "fr", "span", "site", "retty", "ops")

    def __init__(self, ref, args, fr, span, site, retty):
        self.ref, self.args, self.fr, self.span, self.site, self.retty = ref, args, fr, span, site, retty
        self.path = ref.get("res_path") or ref["path"]
        self.name = ref.get("name") or ref["path"].rsplit("::", 1)[-1]


class Engine:
    def __init__(self, prog, max_states=6000, max_depth=40):
        self.p = prog
        self.hooks = []
        self.max_states = max_states
        self.max_depth = max_depth
        self.nstates = 0
        self.lazy_cut = False
        self.deadline = None
        self.panics = []          # (state, why, span)
        self.keep_panics = False
        self.phases = 1
        self.pick = None         # (random source, how many ways out of a loop to follow)
        self.loop_plugins = []    # objects with havoc(eng, st, fr, loop, cells) -> set of handled cells
        self.on_head = []         # callbacks(eng, fr, loop, st, phase)
        self.elem = None          # container element factory: (X, Lin) -> value
        self.inline_ok = lambda key: True
        self.unknown = {}         # path -> count of calls havocked
        self.log = []             # obligations recorded by hooks; entries of abandoned attempts are removed
        self.mode = "over"        # over: invariants (proofs); under: exact paths only (refutations)
        import models
        models.install(self)

    # ---- values
    def mk(self, name, ti=None):
        if ti is None:
            return Sym(name)
        t = self.p.types[ti]
        k = t["k"]
        if k == "int":
            return Int(atom(name))
        if k == "bool":
            return Bool(("b", name, True))
        if k in ("ref", "ptr"):
            return Ref(("*", name))
        if k == "tuple" and not t.get("tys"):
            return UNIT
        if k == "fndef":
            return Fn({"key": t["def"], "path": t["path"], "args": t.get("args", [])})
        return Sym(name)

    def elem_at(self, st, X, idx):
        if X == "DEAD":
            return UNINIT
        if self.elem is not None:
            v = self.elem(st, X, idx)
            if v is not None:
                return v
        return Sym(("at", X, idx))

    def as_word(self, st, v, r):
        """an opaque sequence as a word over its own name"""
        if v == UNINIT:
            return Word([("S", "DEAD", const(0), const(lin.W), False)])
        return Word([("S", v.n, const(0), atom(("len", v.n)), False)])

    def clone_value(self, st, c, v, ti):
        """Clone of something user-defined"""
        self.user_seen(st, c.args, c)
        st.event("user", c.path, tuple(c.args), c.span)
        return [(st, self.mk(("cloneof", v.n if isinstance(v, Sym) else repr(v), c.site), ti))]

    # ---- memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "*":
                return Sym(root)
            raise Stuck("read of unset local %r" % (root,))
        return v

    def project(self, st, v, e, ti=None):
        k = e[0]
        if k == "d":
            if isinstance(v, Sym):
                return v
            return v
        if k == "f":
            i = e[1]
            if isinstance(v, Obj):
                if v.tag == "NODE" and i == 0:
                    return v
                if i in v.f:
                    return v.f[i]
                if v.base is not None:
                    return self.mk((v.base, i), ti)
                raise Stuck("no field %s in %r" % (i, v))
            if isinstance(v, Sym):
                return self.mk((self.base_of(st, v), i), ti)
            if isinstance(v, Ref) and i == 0 and v.root[0] == "H" and not v.path:
                return v        # the pointer inside a box
            raise Stuck("field of %r" % (v,))
        if k == "at":
            if isinstance(v, Word):
                return self.word_get(st, v, e[1])
            if isinstance(v, Sym):
                return self.elem_at(st, v.n, e[1])
            raise Stuck("index of %r" % (v,))
        if k == "sl":
            if isinstance(v, Sym):
                v = self.as_word(st, v, None)
            if isinstance(v, Word):
                a, b = self.word_cut(st, v, e[1])
                return self.word_cut(st, b, e[2] - e[1])[0]
            raise Stuck("slice of %r" % (v,))
        if k == "wp":
            if not isinstance(v, Word) or e[1] >= len(v.p) or e[2] >= len(v.p[e[1]]):
                raise Stuck("piece of %r" % (v,))
            x = v.p[e[1]][e[2]]
            return Int(x) if v.p[e[1]][0] == "S" else x
        if k == "x":
            v = v.f.get(e[1]) if isinstance(v, Obj) else None
            if v is None:
                raise Stuck("model field")
            return v
        raise Stuck("projection %r" % (e,))

    def base_of(self, st, v):
        d = st.facts.discr(v.n)
        return v.n if d is None else (v.n, "d", d)

    def read(self, st, root, path, ti=None):
        v = self.root_value(st, root)
        n = len(path)
        for j, e in enumerate(path):
            v = self.project(st, v, e, ti if j == n - 1 else None)
        return v

    def load(self, st, r, ti=None):
        if isinstance(r, Sym):
            r = Ref(("*", r.n))
        if not isinstance(r, Ref):
            raise Stuck("deref of %r" % (r,))
        return self.read(st, r.root, r.path, ti)

    def write(self, st, root, path, val):
        """in place on a private state"""
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = self.updated(st, self.root_value(st, root), path, val)

    def store(self, st, r, val):
        if isinstance(r, Sym):
            r = Ref(("*", r.n))
        self.write(st, r.root, r.path, val)

    def updated(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        k = e[0]
        if k == "d":
            if isinstance(v, Sym):
                return self.updated(st, Obj("?", e[1], {}, self.base_of(st, v)), path[1:], val)
            return self.updated(st, v, path[1:], val)
        if k == "wp":
            if not isinstance(v, Word) or e[1] >= len(v.p) or e[2] >= len(v.p[e[1]]):
                raise Stuck("piece of %r" % (v,))
            x = list(v.p[e[1]])
            if x[0] == "S":
                if not isinstance(val, Int):
                    raise Stuck("piece bound %r" % (val,))
                x[e[2]] = val.l
            else:
                x[e[2]] = self.updated(st, x[e[2]], path[1:], val)
            return Word(v.p[:e[1]] + (tuple(x),) + v.p[e[1] + 1:])
        if k in ("f", "x"):
            i = e[1]
            if isinstance(v, Sym):
                v = Obj("?", st.facts.discr(v.n), {}, self.base_of(st, v))
            if isinstance(v, Moved):
                v = Obj("?", None, {})
            if isinstance(v, Obj) and v.tag == "NODE" and i == 0:
                return self.updated(st, v, path[1:], val)
            if not isinstance(v, Obj):
                raise Stuck("write field of %r" % (v,))
            f = dict(v.f)
            if len(path) == 1:
                f[i] = val
            else:
                old = v.f[i] if i in v.f else (Sym((v.base, i)) if v.base is not None else MOVED)
                f[i] = self.updated(st, old, path[1:], val)
            return Obj(v.tag, v.var, f, v.base)
        if k == "sl":
            if isinstance(v, Sym):
                v = self.as_word(st, v, None)
            a, b = self.word_cut(st, v, e[1])
            m, b = self.word_cut(st, b, e[2] - e[1])
            if len(path) > 1:
                val = self.updated(st, m, path[1:], val)
            return Word(norm_pieces(st, list(a.p) + list(val.p) + list(b.p)))
        if k == "at":
            if isinstance(v, Sym):
                v = self.as_word(st, v, None)
            if not isinstance(v, Word):
                raise Stuck("write index of %r" % (v,))
            if len(path) == 1:
                return self.word_set(st, v, e[1], val)
            old = self.word_get(st, v, e[1])
            return self.word_set(st, v, e[1], self.updated(st, old, path[1:], val))
        raise Stuck("write through %r" % (e,))

    # ---- words
    def locate(self, st, w, idx):
        """(piece index, offset inside it)"""
        acc = const(0)
        for j, x in enumerate(w.p):
            n = plen(x)
            if x[0] == "E":
                if decide(st, c_lt(idx, acc + 1)):
                    return j, const(0)
            elif decide(st, c_lt(idx, acc + n)):
                return j, idx - acc
            acc = acc + n
        raise Stuck("index %r beyond %r" % (idx, w))

    def word_get(self, st, w, idx):
        j, off = self.locate(st, w, idx)
        x = w.p[j]
        if x[0] == "E":
            return x[1]
        if x[0] == "S":
            return self.elem_at(st, x[1], x[2] + off if not x[4] else x[3] - 1 - off)
        raise Stuck("element of %r" % (x,))

    def word_set(self, st, w, idx, val):
        j, off = self.locate(st, w, idx)
        x = w.p[j]
        keep = None
        if x[0] == "E":
            new = [self.piece_of(st, val)]
        elif x[0] == "S":
            _, X, lo, hi, rev = x
            pos = lo + off if not rev else hi - 1 - off
            a, b = ("S", X, lo, pos, rev), ("S", X, pos + 1, hi, rev)
            if rev:
                a, b = b, a
            if a[2] == a[3]:
                keep = b        # it may just have become empty: whoever writes through it goes on doing so
            elif b[2] == b[3]:
                keep = a
            mid = ("S", X, pos, pos + 1, False) if val == self.elem_at(st, X, pos) else self.piece_of(st, val)
            new = [a, mid, b]
        else:
            raise Stuck("write element of %r" % (x,))
        return Word(norm_pieces(st, list(w.p[:j]) + new + list(w.p[j + 1:]), keep))

    def piece_of(self, st, v):
        """an element as a piece (kept as a slice when it is an untouched element of a container)"""
        if isinstance(v, Sym) and isinstance(v.n, tuple) and v.n[0] == "at":
            return ("S", v.n[1], v.n[2], v.n[2] + 1, False)
        return ("E", v)

    def word_cut(self, st, w, idx):
        """split a word at idx (0 <= idx <= len)"""
        acc = const(0)
        if self.lazy_cut and idx == w.length():
            return w, Word()
        for j, x in enumerate(w.p):
            n = plen(x)
            if not idx == acc and self.lazy_cut and x[0] == "S" and st.facts.entails(c_le(idx, acc + n)):
                pass        # one of the two parts may be empty
            elif decide(st, c_eq(idx, acc)) if not idx == acc else True:
                return Word(w.p[:j]), Word(w.p[j:])
            if idx == acc + n:
                return Word(w.p[:j + 1]), Word(w.p[j + 1:])
            if x[0] == "S" and decide(st, c_lt(idx, acc + n)):
                _, X, lo, hi, rev = x
                off = idx - acc
                if not rev:
                    l, r = ("S", X, lo, lo + off, rev), ("S", X, lo + off, hi, rev)
                else:
                    l, r = ("S", X, hi - off, hi, rev), ("S", X, lo, hi - off, rev)
                return Word(w.p[:j] + (l,)), Word((r,) + w.p[j + 1:])
            acc = acc + n
        if decide(st, c_eq(idx, acc)):
            return w, Word()
        raise Stuck("cut at %r of %r" % (idx, w))

    # ---- places
    def place(self, st, fr, p):
        root, path = ("L", fr.fid, p[0]), ()
        ti = fr.b["locals"][p[0]][0]
        for e in p[1:]:
            if e == "*":
                v = self.read(st, root, path, ti)
                if isinstance(v, Ref):
                    root, path = v.root, v.path
                elif isinstance(v, Sym):
                    root, path = ("*", v.n), ()
                else:
                    raise Stuck("deref of %r" % (v,))
                t = self.p.types[ti] if ti is not None else {}
                ti = t.get("ty")
            elif e[0] == "f":
                path = path + (("f", e[1]),)
                ti = e[2]
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "i":
                iv = self.read(st, ("L", fr.fid, e[1]), ())
                if not isinstance(iv, Int):
                    raise Stuck("index by %r" % (iv,))
                path = path + (("at", iv.l),)
                t = self.p.types[ti] if ti is not None else {}
                ti = t.get("ty")
            elif e[0] == "ci" and not e[3]:
                path = path + (("at", const(e[1])),)
                t = self.p.types[ti] if ti is not None else {}
                ti = t.get("ty")
            else:
                raise Stuck("projection %r" % (e,))
        return root, path, ti

    def read_place(self, st, fr, p):
        root, path, ti = self.place(st, fr, p)
        return self.read(st, root, path, ti)

    # ---- operands and rvalues
    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return self.read_place(st, fr, o[1])
        if o[0] == "const":
            return self.constant(st, fr, o[1])
        raise Stuck("operand %r" % (o[0],))

    def constant(self, st, fr, c):
        if "fn" in c:
            return Fn(c["fn"])
        if "v" in c:
            t = self.p.types[c["ty"]]
            if t["k"] == "bool":
                return TRUE if c["v"] else FALSE
            if t["k"] == "adt":
                if t["path"].endswith("cmp::Ordering"):
                    return Obj("Ordering", ORDERING.get(c["v"], c["v"]))
                return Sym(("const", c.get("s", ""), c["v"], c["ty"]))
            return Int(c["v"])
        if "promoted" in c:
            return self.promoted(st, fr, c)
        t = self.p.types[c["ty"]]
        if t["k"] == "tuple" and not t.get("tys"):
            return UNIT
        if t["k"] == "fndef":
            return Fn({"key": t["def"], "path": t["path"], "args": t.get("args", [])})
        s = c.get("s", "")
        if t["k"] in ("ref",):
            return Ref(("*", ("const", s)))
        return Sym(("const", s, c["ty"]))

    def promoted(self, st, fr, c):
        owner = self.p.bodies.get(c["def"])
        if not owner:
            raise Stuck("promoted of an external body")
        pb = dict(owner["promoted"][c["promoted"]])
        pb.setdefault("promoted", [])
        key = c["def"] + "#p%d" % c["promoted"]
        f2 = Frame(pb, key, ("P", key), fr.depth + 1, fr.stack)
        rets = self.run_frame(f2, st, [])
        if len(rets) != 1:
            raise Stuck("promoted")
        s2, v = rets[0]
        for r, val in s2.mem.items():
            if r[0] == "L" and r[1] == ("P", key):
                st.mem[r] = val
        return v

    def rvalue(self, st, fr, r, destty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "rawptr"):
            root, path, ti = self.place(st, fr, r[2])
            return Ref(root, path)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if isinstance(v, Bool) and self.p.types[r[3]]["k"] == "int":
                return Int(1) if decide(st, v.c) else Int(0)
            return v
        if k == "bin":
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not" and isinstance(v, Bool):
                return Bool(negate(v.c))
            if r[1] == "PtrMetadata":
                return self.length_of(st, v)
            return self.fresh(st, fr, ("un", r[1]))
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            if isinstance(v, Obj) and v.tag == "NODE":
                return Int(self.node_var(st, v))
            if isinstance(v, Obj) and v.var is not None:
                return Int(v.var) if v.tag != "Ordering" else Int({0: -1, 1: 0, 2: 1}[v.var])
            if isinstance(v, Obj):
                return Obj("discr", None, {0: v.base})
            if isinstance(v, Sym):
                d = st.facts.discr(v.n)
                return Obj("discr", None, {0: v.n})
            raise Stuck("discriminant of %r" % (v,))
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                tag = self.tag(kk[1])
                if self.node_var is not None and len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].tag == "NODE" and tag.endswith("::NodeRc"):
                    return vs[0]
                a = self.p.adts.get(kk[1])
                isenum = a is not None and len(a["variants"]) != 1 or tag in STD_ENUMS
                return Obj(tag, kk[2] if isenum else None, dict(enumerate(vs)))
            if kk[0] == "closure":
                return Obj("closure:" + kk[1], None, dict(enumerate(vs)))
            if kk[0] == "array":
                return Word([("E", v) for v in vs])
            return Obj("tuple", None, dict(enumerate(vs)))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if v == UNINIT:
                return v
            return self.fresh(st, fr, "repeat")
        raise Stuck("rvalue %s" % k)

    def tag(self, key):
        if key.startswith("librrb"):
            a = self.p.adts.get(key)
            return a["path"] if a and "path" in a else key
        return key.rsplit("::", 1)[-1].split("#")[0]

    def fresh(self, st, fr, what, ti=None):
        return self.mk(("v", what, fr.fid), ti)

    def length_of(self, st, v):
        x = self.load(st, v)
        if isinstance(x, Word):
            return Int(x.length())
        raise Stuck("length of %r" % (x,))

    def binop(self, st, fr, op, a, b):
        if isinstance(a, Obj) and a.tag == "discr" or isinstance(b, Obj) and b.tag == "discr":
            a, b = self.undiscr(st, a), self.undiscr(st, b)
        if isinstance(a, Int) and isinstance(b, Int):
            x, y = a.l, b.l
            if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                return Bool({"Lt": c_lt, "Le": c_le, "Gt": lambda p, q: c_lt(q, p), "Ge": lambda p, q: c_le(q, p),
                             "Eq": c_eq, "Ne": c_ne}[op](x, y))
            if op.startswith("Add"):
                v = Int(x + y)
            elif op.startswith("Sub"):
                v = Int(self.sub(st, x, y))
            elif op.startswith("Mul"):
                v = Int(x.scale(y.c)) if y.is_const() else Int(y.scale(x.c)) if x.is_const() else Int(atom(("mul", x, y)))
            elif op == "Div":
                v = Int(self.div(st, x, y))
            elif op == "Rem":
                v = Int(self.mod(st, x, y))
            elif op == "Shr" and y == const(1):
                v = Int(self.div(st, x, const(2)))
            elif op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                if op == "BitAnd" and y.is_const() and y.c >= 0 and (y.c & (y.c + 1)) == 0:
                    v = Int(self.mod(st, x, const(y.c + 1)))
                elif op == "BitAnd" and y == const(1):
                    v = Int(self.mod(st, x, const(2)))
                else:
                    v = Int(atom((op, x, y)))
            elif op == "Cmp":
                if decide(st, c_eq(x, y)):
                    return Obj("Ordering", 1)
                return Obj("Ordering", 0 if decide(st, c_lt(x, y)) else 2)
            else:
                raise Stuck("binop " + op)
            if op.endswith("WithOverflow"):
                return tup(v, FALSE)
            return v
        if isinstance(a, Bool) and isinstance(b, Bool):
            if op == "BitAnd":
                return Bool(("and", a.c, b.c)) if a.c not in (("T",), ("F",)) and b.c not in (("T",), ("F",)) else \
                    (b if a.c == ("T",) else a if b.c == ("T",) else FALSE)
            if op == "BitOr":
                return Bool(("or", a.c, b.c)) if a.c not in (("T",), ("F",)) and b.c not in (("T",), ("F",)) else \
                    (b if a.c == ("F",) else a if b.c == ("F",) else TRUE)
            if op in ("Eq", "Ne", "BitXor"):
                x, y = decide(st, a.c), decide(st, b.c)
                return TRUE if (x == y) == (op == "Eq") else FALSE
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
            if a == b:
                return TRUE if op == "Eq" else FALSE
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return Bool(("b", ("cmp", op, repr(a), repr(b)), True))
        if op == "Offset" and isinstance(a, Ref) and isinstance(b, Int):
            return self.ptr_add(st, a, b.l)
        if op == "Offset":
            raise Stuck("pointer offset")
        return self.fresh(st, fr, ("bin", op, repr(a), repr(b)))

    def ptr_add(self, st, a, l):
        if a.path and a.path[-1][0] == "at":
            return Ref(a.root, a.path[:-1] + (("at", a.path[-1][1] + l),))
        raise Stuck("pointer arithmetic")

    def undiscr(self, st, v):
        if isinstance(v, Obj) and v.tag == "discr":
            n = v.f[0]
            d = st.facts.discr(n)
            if d is None:
                raise NeedSplit([("d", n, i, True) for i in (0, 1)])
            return Int(d)
        return v

    def sub(self, st, x, y):
        # Overflow would panic in a checked build: the result is only used on runs where it does not wrap.
        if not st.facts.entails(c_le(y, x)):
            if st.facts.entails(c_lt(x, y)):
                raise Diverge("subtraction below zero: %r - %r" % (x, y))
            if self.split_sub and not decide(st, c_le(y, x)):
                raise Diverge("subtraction below zero: %r - %r" % (x, y))
            st.have(c_le(y, x))
        return x - y

    def div(self, st, x, y):
        if y.is_const() and y.c == 1:
            return x
        if y.is_const() and x.is_const() and y.c:
            return const(x.c // y.c)
        if y.is_const() and y.c == 2:
            # drop even parts: floor((2a + r)/2) = a + floor(r/2)
            ev = {a: k // 2 for a, k in x.t}
            rest = {a: k - 2 * (k // 2) for a, k in x.t}
            c = x.c // 2
            r = Lin(x.c - 2 * c, rest)
            base = Lin(c, ev)
            if r.is_const():
                return base + (r.c // 2)
            return base + atom(("half", r))
        return atom(("div", x, y))

    def mod(self, st, x, y):
        if y.is_const():
            n = y.c
            if x.is_const() and n:
                return const(x.c % n)
            if n == 2:
                return x - self.div(st, x, y).scale(2)
            if st.facts.entails(c_lt(x, y)):
                return x
            # bounded quotient: split eagerly
            for q in range(1, 4):
                if st.facts.entails(c_lt(x, const(n * (q + 1)))):
                    for j in range(q + 1):
                        if decide(st, c_lt(x, const(n * (j + 1)))):
                            return x - n * j
            if n == lin.W:
                r = lin.rem(x)
                return r
        a = atom(("mod", x, y))
        st.have(c_lt(a, y))
        return a

    # ---- enum helpers
    def variant(self, st, v, n=2):
        if isinstance(v, Obj) and v.var is not None:
            return v.var
        name = v.n if isinstance(v, Sym) else v.base if isinstance(v, Obj) else None
        if name is None:
            raise Stuck("variant of %r" % (v,))
        d = st.facts.discr(name)
        if d is not None:
            return d
        no = st.facts.not_discr(name)
        left = [i for i in range(n) if i not in no]
        if len(left) == 1:
            return left[0]
        raise NeedSplit([("d", name, i, True) for i in left])

    def is_variant(self, st, v, want, n):
        """like variant() == want, without telling the other variants apart"""
        if isinstance(v, Obj) and v.var is not None:
            return v.var == want
        name = v.n if isinstance(v, Sym) else v.base if isinstance(v, Obj) else None
        if name is None:
            raise Stuck("variant of %r" % (v,))
        d = st.facts.discr(name)
        if d is not None:
            return d == want
        no = st.facts.not_discr(name)
        left = [i for i in range(n) if i not in no]
        if want not in left:
            return False
        if len(left) == 1:
            return True
        if len(left) == 2:
            raise NeedSplit([("d", name, i, True) for i in left])
        raise NeedSplit([("d", name, want, True), ("d", name, want, False)])

    def payload(self, st, v, i=0, ti=None):
        return self.project(st, v, ("f", i), ti)

    # ---- execution
    def start(self, key, args, st, stack=()):
        """run a body from an abstract initial state; returns [(state, value)]"""
        b = self.p.bodies[key]
        fr = Frame(b, key, (key,), 0, stack + (key,))
        return self.run_frame(fr, st, args)

    def run_frame(self, fr, st, args):
        s = st.copy()
        if len(args) > len(fr.b["locals"]) - 1:
            raise Stuck("argument count")
        for i, a in enumerate(args):
            s.mem[("L", fr.fid, i + 1)] = a
        loops_of(fr.b)
        rets, edges, exits = self.explore(fr, s, 0, None)
        out = []
        for s in rets:
            v = s.mem.get(("L", fr.fid, 0), UNIT)
            if fr.depth and fr.fid[0] != "P":
                s = s.copy()
                for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.fid]:
                    del s.mem[r]
            out.append((s, v))
        return out

    def explore(self, fr, st, bb, ctx, first=False):
        rets, edges, exits = [], [], []
        work = [(st, bb, first)]
        loops = fr.b["_loops"]
        while work:
            st, bb, fst = work.pop()
            if ctx is not None and not fst:
                if bb == ctx.head:
                    edges.append(st)
                    continue
                if bb not in ctx.body:
                    exits.append((st, bb))
                    continue
            if bb in loops and not fst:
                r2, ex = self.loop(fr, st, loops[bb])
                rets += r2
                if self.pick is not None and len(ex) > self.pick[1]:
                    ex = self.pick[0].sample(ex, self.pick[1])
                for s, b2 in ex:
                    work.append((s, b2, False))
                continue
            for s, nb in self.block(fr, st, bb):
                if nb is None:
                    rets.append(s)
                else:
                    work.append((s, nb, False))
        return rets, edges, exits

    def block(self, fr, st, bb):
        bl = fr.b["blocks"][bb]
        n = len(bl["s"])
        stack = [(st, 0)]
        outs = []
        while stack:
            st, i = stack.pop()
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Cap("state limit in %s" % fr.b.get("path"))
            if self.deadline is not None and self.nstates % 64 == 0 and time.time() > self.deadline:
                raise Cap("time limit in %s" % fr.b.get("path"))
            cur = st
            pos = len(self.log)
            try:
                while i < n:
                    cur = st
                    st = self.stmt(fr, st, bl["s"][i])
                    i += 1
                cur = st
                outs += self.term(fr, st, bl["t"], bb)
            except NeedSplit as e:
                del self.log[pos:]
                for c in e.alts:
                    s2 = cur.assume(c)
                    if s2 is not None:
                        stack.append((s2, i))
            except Diverge as e:
                if self.keep_panics:
                    self.panics.append((cur, e.why, ""))
        return outs

    def stmt(self, fr, st, s):
        k = s[0]
        if k == "=":
            s2 = st.copy()
            v = self.rvalue(s2, fr, s[2], None)
            root, path, ti = self.place(s2, fr, s[1])
            self.moves(s2, fr, s[2])
            self.write(s2, root, path, v)
            return s2
        if k == "dead":
            if ("L", fr.fid, s[1]) in st.mem:
                s2 = st.copy()
                del s2.mem[("L", fr.fid, s[1])]
                return s2
            return st
        if k == "setdiscr":
            s2 = st.copy()
            root, path, ti = self.place(s2, fr, s[1])
            v = self.read(s2, root, path, ti)
            self.write(s2, root, path, Obj(v.tag if isinstance(v, Obj) else "?", s[2], v.f if isinstance(v, Obj) else {}))
            return s2
        return st

    def moves(self, st, fr, r):
        from facts import rv_operands
        for o in rv_operands(r):
            if o[0] == "move" and len(o[1]) == 1:
                st.mem[("L", fr.fid, o[1][0])] = MOVED

    def term(self, fr, st, t, bb):
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "return":
            return [(st, None)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            s2 = st.copy()
            v = self.operand(s2, fr, t[1])
            if isinstance(v, Bool):
                c = v.c if t[2] else negate(v.c)
                s3 = s2.assume(c)
                if self.keep_panics:
                    bad = s2.assume(negate(c))
                    if bad is not None:
                        self.panics.append((bad, t[5], t[6]))
                return [(s3, t[3])] if s3 is not None else []
            return [(s2, t[3])]
        if k == "drop":
            s2 = st.copy()
            for h in self.drop_hooks:
                h(self, s2, fr, t)
            if len(t[1]) == 1:
                s2.mem[("L", fr.fid, t[1][0])] = MOVED
            return [(s2, t[2])]
        if k == "call":
            return self.do_call(fr, st, t, bb)
        raise Stuck("terminator %s" % k)

    drop_hooks = ()

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        dt = self.p.types[t[4]]["s"]
        outs = []
        if isinstance(v, Bool):
            if decide(st, v.c):
                val = 1
            else:
                val = 0
            for x, b in t[2]:
                if x == val:
                    return [(st, b)]
            return [(st, t[3])]
        if isinstance(v, Int):
            if v.l.is_const():
                for x, b in t[2]:
                    if dt == "i8" and x > 127:
                        x -= 256
                    if x == v.l.c:
                        return [(st, b)]
                return [(st, t[3])]
            rest = st
            for x, b in t[2]:
                if rest is None:
                    break
                s2 = rest.assume(c_eq(v.l, const(x)))
                if s2 is not None:
                    outs.append((s2, b))
                rest = rest.assume(c_ne(v.l, const(x)))
            if rest is not None:
                outs.append((rest, t[3]))
            return outs
        if isinstance(v, Obj) and v.tag == "discr":
            n = v.f[0]
            seen = []
            for x, b in t[2]:
                i = ORDERING.get(x, x) if dt == "i8" else x
                seen.append(i)
                s2 = st.assume(("d", n, i, True))
                if s2 is not None:
                    outs.append((s2, b))
            s2 = st
            if dt == "i8" and len(seen) == 2:
                s2 = st.assume(("d", n, ({0, 1, 2} - set(seen)).pop(), True))
            elif len(seen) == 1 and dt == "isize" and seen[0] in (0, 1) and self.two_variants(fr, t):
                s2 = st.assume(("d", n, 1 - seen[0], True))
            else:
                for i in seen:
                    s2 = s2.assume(("d", n, i, False)) if s2 is not None else None
            if s2 is not None and fr.b["blocks"][t[3]]["t"][0] != "unreachable":
                outs.append((s2, t[3]))
            return outs
        # unknown: explore all
        st = st.copy()
        st.spoil("switch on %r" % (v,))
        return [(st, b) for _, b in t[2]] + [(st, t[3])]

    def two_variants(self, fr, t):
        """the switch is on an enum with two variants"""
        p = t[1]
        if p[0] not in ("copy", "move"):
            return False
        loc = p[1][0]
        for bl in fr.b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[1] == [loc] and s[2][0] == "discr":
                    ti = self.place_ty(fr, s[2][1])
                    if ti is None:
                        return False
                    ty = self.p.types[ti]
                    if ty["k"] == "adt":
                        a = self.p.adts.get(ty["def"])
                        if a:
                            return len(a["variants"]) == 2
                        return ty["path"].rsplit("::", 1)[-1] in ("Option", "Result", "ControlFlow")
        return False

    def place_ty(self, fr, p):
        ti = fr.b["locals"][p[0]][0]
        for e in p[1:]:
            if ti is None:
                return None
            if e == "*":
                ti = self.p.types[ti].get("ty")
            elif e[0] == "f":
                ti = e[2]
            elif e[0] == "i":
                ti = self.p.types[ti].get("ty")
            elif e[0] == "d":
                pass
            else:
                return None
        return ti

    # ---- calls
    def do_call(self, fr, st, t, bb):
        s2 = st.copy()
        args = [self.operand(s2, fr, o) for o in t[2]]
        f = t[1]
        span = t[6]
        retty = self.place_ty(fr, t[3])
        if f[0] == "const" and "fn" in f[1]:
            ref = f[1]["fn"]
        else:
            fv = self.operand(s2, fr, f)
            if isinstance(fv, Fn):
                ref = fv.ref
            else:
                raise Stuck("indirect call")
        for o in t[2]:
            if o[0] == "move" and len(o[1]) == 1:
                s2.mem[("L", fr.fid, o[1][0])] = MOVED
        c = Call(ref, args, fr, span, (fr.fid, bb), retty)
        c.ops = t[2]
        res = self.call(s2, c)
        outs = []
        for s, v in res:
            if t[4] is None:
                continue
            s = s.copy()
            root, path, ti = self.place(s, fr, t[3])
            self.write(s, root, path, v)
            outs.append((s, t[4]))
        return outs

    def call(self, st, c):
        for h in self.hooks:
            r = h(self, st, c)
            if r is not NotImplemented:
                return r
        k = self.target(st, c)
        if k is not None:
            return self.inline(st, c, k)
        return self.havoc_call(st, c)

    def target(self, st, c):
        ref = c.ref
        r = ref.get("res")
        if r and r in self.p.bodies:
            return r
        k = ref["key"]
        if "trait" in ref and not r:
            ims = [m for m in self.p.impl_of.get(k, []) if self.p.in_scope(m)]
            if ref.get("self") is not None and self.p.types[ref["self"]]["k"] == "param" and not ref.get("local"):
                ims = []
            if len(ims) == 1:
                return ims[0]
            if len(ims) > 1:
                return None
        if k in self.p.bodies:
            return k
        return None

    def inline(self, st, c, key, args=None):
        if c.fr.depth >= self.max_depth or c.fr.stack.count(key) >= 2 or not self.inline_ok(key):
            return self.havoc_call(st, c)
        b = self.p.bodies[key]
        f2 = Frame(b, key, (c.site, key), c.fr.depth + 1, c.fr.stack + (key,))
        return self.run_frame(f2, st, c.args if args is None else args)

    def call_value(self, st, fv, args, c, tag="cb"):
        """call a closure / fn value with already spread arguments"""
        self_ref = fv
        v = fv
        n = 0
        while isinstance(v, (Ref,)) and n < 4:
            self_ref = v
            v = self.load(st, v)
            n += 1
        if isinstance(v, Obj) and v.tag.startswith("closure:"):
            key = v.tag[8:]
            b = self.p.bodies.get(key)
            if b is None:
                raise Stuck("closure body")
            t1 = self.p.types[b["locals"][1][0]]
            if t1["k"] == "ref":
                if not isinstance(self_ref, Ref):
                    root = ("H", ("clo", c.site, tag))
                    st.mem[root] = v
                    self_ref = Ref(root)
                a0 = self_ref
            else:
                a0 = v
            f2 = Frame(b, key, (c.site, key, tag), c.fr.depth + 1, c.fr.stack + (key,))
            return self.run_frame(f2, st, [a0] + list(args))
        if isinstance(v, Fn):
            c2 = Call(v.ref, list(args), c.fr, c.span, (c.site, tag), c.retty)
            return self.call(st, c2)
        return self.user_call(st, v, args, c)

    def user_seen(self, st, args, c):
        pass

    def user_call(self, st, v, args, c):
        """a callback the user supplied: any result"""
        self.user_seen(st, args, c)
        st.event("user", repr(v), tuple(args), c.span)
        return [(st, self.mk(("user", repr(v), self.answer(st, args, c)), c.retty))]

    def answer(self, st, args, c):
        """what a callback's answer depends on: its arguments when callbacks are taken to be functions of them"""
        if not self.pure_callbacks:
            return c.site
        out = []
        for a in args:
            n = 0
            while isinstance(a, Ref) and n < 4 and not (a.path and a.path[-1][0] == "at"):
                try:
                    a = self.load(st, a)
                except Stuck:
                    break
                n += 1
            out.append(repr(a))
        return tuple(out)

    pure_callbacks = False
    borders = ()            # unknown positions the contract speaks of: loops are related to them
    max_peel = 5            # how often a loop is entered anew because a sequence took another shape
    split_sub = False       # a difference that may be negative is a panic of its own instead of an assumption
    cuts = 0                # loops left before their last iteration
    unroll = False          # exact passes over structures of known size: every iteration is looked at on its own
    node_var = None         # which variant a tree node is (set by the tree layer)

    def havoc_call(self, st, c):
        self.unknown[c.path] = self.unknown.get(c.path, 0) + 1
        for a in c.args:
            if isinstance(a, Ref):
                for o, ty in zip(getattr(c, "ops", ()), c.args):
                    pass
        muts = self.mut_args(c)
        st.spoil("unmodelled call " + c.path)
        for a in muts:
            if isinstance(a, Ref):
                try:
                    self.store(st, a, Sym(("havoc", c.site, repr(a))))
                except Stuck:
                    pass
        return [(st, self.mk(("ret", c.site), c.retty))]

    def mut_args(self, c):
        out = []
        for o, a in zip(getattr(c, "ops", ()) or (), c.args):
            if o[0] in ("copy", "move"):
                ti = self.place_ty(c.fr, o[1])
                if ti is not None and self.p.types[ti]["k"] in ("ref", "ptr") and self.p.types[ti].get("mut"):
                    out.append(a)
            elif isinstance(a, Ref):
                pass
        return out

    # ---- loops
    def loop(self, fr, st0, lp, peel=0):
        """returns (return states, exit states). Head = first iteration exactly + an inductive later iteration."""
        live = fr.b["_live"].get(lp.head, set())
        st0 = st0.copy()
        for r in [r for r in st0.mem if r[0] == "L" and r[1] == fr.fid and r[2] not in live]:
            del st0.mem[r]
        for h in self.on_head:
            h(self, fr, lp, st0, "entry")
        retsA, edgesA, exitsA = self.explore(fr, st0, lp.head, lp, first=True)
        edgesA = [self.at_edge(fr, lp, s, live, "first") for s in edgesA]
        if not edgesA:
            return retsA, exitsA
        rets0, exits0 = list(retsA), list(exitsA)
        if peel < self.max_peel:
            # a sequence takes another shape (gets its first piece, uses one up): that is a loop of its own from there on
            new = list(edgesA) if self.unroll else [e for e in edgesA if self.reshaped(st0, e)]
            if len(new) <= 6 or self.unroll:
                edgesA = [e for e in edgesA if not any(e is x for x in new)]
                for e in new:
                    r, x = self.loop(fr, e, lp, peel + 1)
                    rets0 += r
                    exits0 += x
                if not edgesA:
                    return rets0, exits0
        if self.unroll:
            self.cuts += any(e.facts.feasible() for e in edgesA)
            return rets0, exits0     # further iterations are not looked at
        if self.mode == "under":
            return self.accelerate(fr, lp, st0, live, rets0, edgesA, exits0, peel=peel)
        cells = {}
        for e in edgesA:
            self.diff(st0, e, cells)
        plan = LoopPlan(self, fr, lp, st0, live, peel)
        pos, pan = len(self.log), len(self.panics)
        for rnd in range(14):
            del self.log[pos:]
            del self.panics[pan:]
            hs = plan.head(cells, edgesA)
            if hs is None:
                return rets0, exits0     # no later iteration is possible
            for h in self.on_head:
                h(self, fr, lp, hs, "head")
            rets, edges, exits = self.explore(fr, hs, lp.head, lp, first=True)
            edges = [self.at_edge(fr, lp, s, live, "later") for s in edges]
            turn = []
            if peel < self.max_peel:
                turn = [e for e in edges if self.reshaped(hs, e, st0)]
                if len(turn) <= 6:
                    edges = [e for e in edges if not any(e is x for x in turn)]
                else:
                    turn = []
            new = dict(cells)
            for e in edges:
                self.diff(hs, e, new, plan.fresh_of)
            if set(new) != set(cells):
                cells = new
                plan.reset()
                continue
            r1, r2 = plan.refine(cells, edgesA, hs, edges), plan.plug_refine(hs, edgesA, edges)
            if r1 or r2:
                continue
            plan.finish(hs, edges, exits, rets)
            for e in turn:
                if e.facts.consistent():
                    r, x = self.loop(fr, e, lp, peel + 1)
                    rets0 += r
                    exits0 += x
            return rets0 + rets, exits0 + exits
        raise Stuck("loop invariant did not stabilise")

    def accelerate(self, fr, lp, st0, live, retsA, edgesA, exitsA, phase=0, last=None, peel=0):
        """exact later iterations: k >= 1 repetitions of one and the same path through the body, then (up to a few
        phases deep) repetitions of another.  Path conditions are linear in the iteration number, so holding in the
        first and the last repetition they hold in every one (disequations are decided to one side first)."""
        rets, exits = list(retsA), list(exitsA)
        if phase >= self.phases or not edgesA:
            return rets, exits
        k = atom(("k", fr.fid, lp.head) + ((phase,) if phase else ()) + (("peel", peel) if peel else ()))
        for e in edgesA[:12]:
            choice = e.facts.bools - st0.facts.bools
            if last is not None and choice == last[0] and self.same_delta(st0, e, last[1]):
                continue
            if phase and st0.g.get("ph", 0) + 1 >= self.phases:
                continue
            reps = list(self.repeated(fr, lp, st0, e, k, live))
            if not reps:
                if st0.g.get("ph", 0) + 1 >= self.phases:
                    continue
                reps = [(e.copy(), {})]         # once, as it is
                reps[0][0].g["ph"] = st0.g.get("ph", 0) + 1
            for hs, cells in reps:
                if phase:
                    hs.g["ph"] = st0.g.get("ph", 0) + 1
                for h in self.on_head:
                    h(self, fr, lp, hs, "head")
                r2, e2, x2 = self.explore(fr, hs, lp.head, lp, first=True)
                e2 = [self.at_edge(fr, lp, s, live, "later") for s in e2]
                rets += r2
                exits += x2
                if peel < 5:
                    turn = [x for x in e2 if self.reshaped(hs, x)]
                    e2 = [x for x in e2 if not any(x is y for y in turn)]
                    for x in turn[:6]:
                        r3, x3 = self.loop(fr, x, lp, peel + 1)
                        rets += r3
                        exits += x3
                if phase + 1 < self.phases and e2:
                    d = {c: (self.read(e, *c).l - self.read(st0, *c).l) for c in cells if isinstance(self.read(e, *c), Int)}
                    r3, x3 = self.accelerate(fr, lp, hs, live, [], e2, [], phase + 1, (choice, d) if cells else None, peel)
                    rets += r3
                    exits += x3
        return rets, exits

    def same_delta(self, st0, e, d):
        try:
            return all(self.read(e, *c).l - self.read(st0, *c).l == x for c, x in d.items())
        except (Stuck, AttributeError):
            return False

    def repeated(self, fr, lp, st0, e, k, live):
        """states at the head after k repetitions of the path that led to edge e"""
        cells = {}
        self.diff(st0, e, cells)
        hs = st0.copy()
        hs.have(c_le(const(1), k))
        hs.ev = e.ev
        hs.taint = e.taint
        steps = {}
        for root, path in cells:
            try:
                v0 = self.read(st0, root, path)
                v1 = self.read(e, root, path)
            except Stuck:
                return
            if not (isinstance(v0, Int) and isinstance(v1, Int)):
                if isinstance(v1, Moved) or isinstance(v0, Moved):
                    continue
                return
            d = const_of(e, v1.l - v0.l)
            if d is None:
                return
            steps[root, path] = d
            self.write(hs, root, path, Int(v0.l + k.scale(d)))
        # the first repetition's path condition, as is
        f = hs.facts
        for l in e.facts.le - st0.facts.le:
            f = f.add(("le", l)) if f is not None else None
        for l in e.facts.ne - st0.facts.ne:
            f = f.add(("ne", l)) if f is not None else None
        if f is None:
            return
        if self.pure_callbacks:
            for b in e.facts.bools - st0.facts.bools:
                f = f.add(b) if f is not None else None
            if f is None:
                return
        hs.facts = f
        # the last one's: replay the body from iteration k-1 along the same path
        ps = st0.copy()
        ps.have(c_le(const(0), k - 1))
        for root, path in cells:
            v0, v1 = self.read(st0, root, path), self.read(e, root, path)
            if isinstance(v0, Int) and isinstance(v1, Int):
                self.write(ps, root, path, Int(v0.l + (k - 1).scale(steps[root, path])))
        pos, pan = len(self.log), len(self.panics)
        _, es, _ = self.explore(fr, ps, lp.head, lp, first=True)
        del self.log[pos:]
        del self.panics[pan:]
        kat = k.t[0][0]
        for s in es:
            s = self.at_edge(fr, lp, s, live, "replay")
            # same path: the same choices and the same effect
            if (s.facts.bools - st0.facts.bools) != (e.facts.bools - st0.facts.bools):
                continue
            try:
                if not (all(self.same_step(s, hs, e, st0, c) for c in cells) and
                        all(e.facts.entails(("le", l.subst({kat: const(1)}))) for l in s.facts.le - ps.facts.le) and
                        all(e.facts.entails(("ne", l.subst({kat: const(1)}))) for l in s.facts.ne - ps.facts.ne)):
                    continue
            except Stuck:
                continue
            alts = [hs.facts]
            for l in s.facts.le - ps.facts.le:
                alts = [x for x in (f.add(("le", l)) for f in alts) if x is not None]
            for l in s.facts.ne - ps.facts.ne:
                one = l.subst({kat: const(1)})
                nxt = []
                for f in alts:
                    if kat not in l.atoms():
                        nxt.append(f.add(("ne", l)))
                        continue
                    for sg in (1, -1):
                        g = f.add(("le", l.scale(sg) + 1))
                        g = g.add(("le", one.scale(sg) + 1)) if g is not None else None
                        nxt.append(g)
                alts = [x for x in nxt if x is not None and x.consistent()][:4]
            for f in alts:
                h = hs.copy()
                h.facts = f
                yield h, cells
            return

    def same_step(self, s, hs, e, st0, c):
        v0 = self.read(st0, *c)
        if not isinstance(v0, Int):
            return True
        x, y = self.read(s, *c), self.read(hs, *c)
        return isinstance(x, Int) and isinstance(y, Int) and (x.l == y.l or eqv(s, x.l, y.l))

    def at_edge(self, fr, lp, s, live, phase):
        s = s.copy()
        for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.fid and r[2] not in live]:
            del s.mem[r]
        for h in self.on_head:
            h(self, fr, lp, s, phase)
        return s

    def diff(self, a, b, cells, fresh_of=None):
        for r, v in b.mem.items():
            if r[0] == "H" and r not in a.mem:
                continue
            if r not in a.mem:
                if r[0] == "*":
                    if same(v, Sym(r)):
                        continue
                    self.diffv(Sym(r), v, r, (), cells)
                    continue
                if r[0] == "L" and isinstance(r[1], tuple) and r[1][:1] == ("P",):
                    continue        # a constant's frame
                if r[0] == "L" and not isinstance(v, Moved):
                    cells[(r, ())] = True
                continue
            if a.mem[r] is v or a.mem[r] == v:
                continue
            self.diffv(a.mem[r], v, r, (), cells)
        for r, v in a.mem.items():
            if r not in b.mem and r[0] == "L":
                pass

    def diffv(self, x, y, root, path, cells):
        if same(x, y):
            return
        if isinstance(x, Obj) and isinstance(y, Obj) and x.tag == y.tag and x.var == y.var and x.base == y.base \
                or isinstance(x, Sym) and isinstance(y, Obj) and y.base == x.n \
                or isinstance(x, Obj) and isinstance(y, Obj) and x.base == y.base and x.base is not None and x.var == y.var:
            xf = x.f if isinstance(x, Obj) else {}
            for i in set(xf) | set(y.f):
                xv = xf.get(i)
                yv = y.f.get(i)
                if yv is None and y.base is None or xv is None and (isinstance(x, Obj) and x.base is None):
                    cells[(root, path)] = True
                    return
            for i in set(xf) | set(y.f):
                bx = (x.n if isinstance(x, Sym) else x.base, i)
                xv = xf.get(i, Sym(bx))
                yv = y.f.get(i, Sym(bx))
                self.diffv(xv, yv, root, path + (("f", i),), cells)
            return
        if isinstance(x, Word) and isinstance(y, Word) and word_shape(x) == word_shape(y):
            for j, (a, b) in enumerate(zip(x.p, y.p)):
                if a[0] == "S":
                    for n in (2, 3):
                        if a[n] != b[n]:
                            cells[(root, path + (("wp", j, n),))] = True
                else:
                    self.diffv(a[1], b[1], root, path + (("wp", j, 1),), cells)
            return
        cells[(root, path)] = True

    def reshaped(self, a, b, c=None):
        """does the step from a to b change the shape of a sequence (one that has a shape at c)?"""
        cells = {}
        self.diff(a, b, cells)
        for c in cells:
            try:
                x, y = self.read(a, *c), self.read(b, *c)
            except Stuck:
                continue
            if isinstance(x, Word) and isinstance(y, Word):
                if any(p[0] == "S" and isinstance(p[1], tuple) and p[1][:1] == ("hw",) for p in x.p):
                    continue        # already given up on
                return True
        return False


def word_shape(w):
    return tuple((x[0], x[1], x[4]) if x[0] == "S" else ("E",) for x in w.p)


STD_ENUMS = {"Option", "Result", "Ordering", "Bound", "ControlFlow", "Cow", "Entry"}


def same(x, y):
    if x is y or x == y:
        return True
    if isinstance(x, Obj) and isinstance(y, Sym):
        x, y = y, x
    if isinstance(x, Sym):
        if isinstance(y, Int):
            return y.l == atom(x.n)
        if isinstance(y, Bool):
            return y.c == ("b", x.n, True)
        if isinstance(y, Ref):
            return y.root == ("*", x.n) and not y.path
        if isinstance(y, Obj) and y.base is not None and (y.base == x.n or y.base[:2] == (x.n, "d") if isinstance(y.base, tuple) else False):
            return all(same(Sym((y.base, i)), v) for i, v in y.f.items())
    if isinstance(x, (Int, Bool, Ref)) and isinstance(y, Sym):
        return same(y, x)
    if isinstance(x, Obj) and isinstance(y, Obj) and x.base == y.base and x.var == y.var:
        for i in set(x.f) | set(y.f):
            d = Sym((x.base, i))
            if not same(x.f.get(i, d), y.f.get(i, d)):
                return False
        return True
    return False


def norm_pieces(st, ps, keep=None):
    out = []
    for x in ps:
        if x is keep and x[2] != x[3] and x[1] != "DEAD":
            out.append(x)
            continue
        if x[0] == "E" and x[1] == UNINIT:
            x = ("S", "DEAD", const(0), const(1), False)
        if x[0] == "S":
            if x[2] == x[3]:
                continue
            if st is not None and st.facts.entails(("eq", x[2] - x[3])):
                continue
            if x[1] == "DEAD":
                if out and out[-1][0] == "S" and out[-1][1] == "DEAD":
                    out[-1] = ("S", "DEAD", const(0), out[-1][3] + x[3] - x[2], False)
                else:
                    out.append(("S", "DEAD", const(0), x[3] - x[2], False))
                continue
            if out and out[-1][0] == "S" and out[-1][1] == x[1]:
                y = out[-1]
                if not y[4] and not x[4] and eqv(st, y[3], x[2]):
                    out[-1] = ("S", x[1], y[2], x[3], False)
                    continue
                if (y[4] or eqv(st, y[3], y[2] + 1)) and (x[4] or eqv(st, x[3], x[2] + 1)) and eqv(st, y[2], x[3]):
                    out[-1] = ("S", x[1], x[2], y[3], True)
                    continue
        out.append(x)
    return out


def eqv(st, a, b):
    if a == b:
        return True
    return st is not None and st.facts.entails(c_eq(a, b))


def const_of(st, l):
    """the constant a small step amounts to"""
    if l.is_const():
        return l.c
    for c in (0, 1, -1, 2):
        if st.facts.entails(c_eq(l, const(c))):
            return c
    return None


class LoopPlan:
    """Builds the inductive head state of the later iterations of one loop."""

    def __init__(self, eng, fr, lp, st0, live, nth=0):
        self.eng, self.fr, self.lp, self.st0, self.live = eng, fr, lp, st0, live
        self.nth = (nth,) if nth else ()
        self.k = atom(("k", fr.fid, lp.head) + self.nth)
        self.delta = {}        # int cell -> step or None
        self.cands = None
        self.dropped = set()
        self.fresh_of = {}
        self.extra = {}        # cell -> values later iterations leave behind that the head's shape did not cover
        self.plug = {}
        self.guards = None

    def reset(self):
        self.delta = {}
        self.guards = None
        self.plug = {}
        self.nondelta = set()

    def cell(self, st, c):
        return self.eng.read(st, c[0], c[1])

    def head(self, cells, edgesA):
        eng = self.eng
        # close cells: drop those below another
        cs = sorted(cells, key=lambda c: (repr(c[0]), len(c[1])))
        keep = []
        for c in cs:
            if not any(c[0] == d[0] and c[1][:len(d[1])] == d[1] for d in keep):
                keep.append(c)
        self.keep = keep
        hs = self.st0.copy()
        hs.have(c_le(const(1), self.k))
        ints = []
        self.ints = ints
        handled = set()
        for pl in eng.loop_plugins:
            r = pl(eng, self, hs, keep, edgesA)
            if r is None:
                return None
            handled |= r
        self.plugged = handled
        for c in keep:
            if c in handled:
                continue
            vals = []
            missing = False
            try:
                v0 = self.cell(self.st0, c)
            except Stuck:
                v0 = None
            name = ("h", self.fr.fid, self.lp.head, c[0][1:], c[1]) + self.nth
            ev = []
            for e in edgesA:
                try:
                    ev.append(self.cell(e, c))
                except Stuck:
                    ev.append(None)
            kinds = [x for x in ev + [v0] + self.extra.get(c, []) if x is not None and not isinstance(x, Moved)]
            if kinds and all(isinstance(x, Int) for x in kinds):
                isnew = not isinstance(v0, Int)
                d = self.delta.get(c, "?")
                if not isnew and d == "?":
                    ds = set()
                    for x, e in zip(ev, edgesA):
                        dd = x.l - v0.l if isinstance(x, Int) else None
                        ds.add(const_of(e, dd) if dd is not None else None)
                    d = ds.pop() if len(ds) == 1 else None
                    self.delta[c] = d
                if not isnew and d is not None and d != "?":
                    val = Int(v0.l + self.k.scale(d))
                else:
                    val = Int(atom(name))
                    self.delta[c] = None
                ints.append((c, v0, val))
            elif kinds and all(isinstance(x, Bool) for x in kinds):
                val = Bool(("b", name, True))
            else:
                val = self.generalise(hs, kinds, name)
            self.fresh_of[c] = val
            eng.write(hs, c[0], c[1], val)
        # what the previous iteration's guards established, one step back
        for g in (self.guard_facts(edgesA) if self.guards is None else self.guards):
            f = hs.facts.add(g)
            if f is None:
                return None
            hs.facts = f
        self.build_cands(hs)
        if not getattr(self, "filtered", False):
            # only what the first iteration establishes is worth assuming (and jointly consistent)
            self.filtered = True
            kat = self.k.t[0][0]
            for c in self.cands:
                for e in edgesA:
                    m = self.subst(e)
                    m[kat] = const(1)
                    if not e.facts.entails(("le", c[1].subst(m))):
                        self.dropped.add(c)
                        break
        for c in self.cands:
            if c not in self.dropped:
                f = hs.facts.add(c)
                if f is None:
                    return None
                hs.facts = f
        return hs

    def generalise(self, hs, kinds, name):
        """least shape covering the values seen: keep common constructors, rename what differs"""
        if kinds and all(isinstance(x, Obj) for x in kinds):
            x0 = kinds[0]
            if all(x.tag == x0.tag and x.var == x0.var and set(x.f) == set(x0.f) and x.base == x0.base for x in kinds):
                f = {}
                for i in x0.f:
                    vs = [x.f[i] for x in kinds]
                    if all(v == vs[0] for v in vs):
                        f[i] = vs[0]
                    elif all(isinstance(v, Int) for v in vs):
                        f[i] = Int(atom((name, i)))
                    elif all(isinstance(v, Bool) for v in vs):
                        f[i] = Bool(("b", (name, i), True))
                    else:
                        f[i] = self.generalise(hs, vs, (name, i))
                return Obj(x0.tag, x0.var, f, x0.base)
        if kinds and all(isinstance(x, Word) for x in kinds):
            n = ("hw",) + name
            return Word([("S", n, const(0), atom(("len", n)), False)])
        return Sym(name)

    def guard_facts(self, edges):
        return ()

    def entry_value(self, c):
        try:
            return self.cell(self.st0, c)
        except Stuck:
            return None

    def build_cands(self, hs):
        """relations between integers that change irregularly and anything they are compared with"""
        if self.cands is not None:
            return
        irr = [(c, v0, v) for c, v0, v in self.ints if self.delta.get(c) is None]
        out = []
        others = []
        seen = set()
        for r, v in sorted(self.st0.mem.items(), key=lambda kv: repr(kv[0])):
            if r[0] == "L" and r[1] == self.fr.fid and isinstance(v, Int):
                if not any(c == (r, ()) for c, _, _ in self.ints):
                    if v.l not in seen:
                        seen.add(v.l)
                        others.append(v.l)
        others = others[:8] + [o for o in self.eng.borders if o not in seen]
        for i, (c, v0, v) in enumerate(irr):
            if isinstance(v0, Int):
                out += [("le", v.l - v0.l), ("le", v0.l - v.l)]
            for j, (c2, w0, w) in enumerate(irr):
                if i != j:
                    out += [("le", v.l - w.l), ("le", v.l - w.l + 1)]
            for o in others:
                out += [("le", v.l - o), ("le", o - v.l), ("le", v.l - o + 1), ("le", o - v.l + 1)]
        # regular counters against loop invariants: v <= o (only informative with a guard)
        for c, v0, v in self.ints:
            if self.delta.get(c) is not None:
                for o in others:
                    out += [("le", v.l - o), ("le", o - v.l)]
                for c2, w0, w in irr:
                    out += [("le", v.l - w.l), ("le", w.l - v.l)]
        self.filtered = False
        self.cands = [x for x in (lin.norm(y) for y in out) if x[0] == "le"]
        self.cands = list(dict.fromkeys(self.cands))[:160]

    def subst(self, st):
        """map the head unknowns to their values at an edge"""
        m = {}
        for c, v0, v in self.ints:
            try:
                x = self.cell(st, c)
            except Stuck:
                x = None
            if isinstance(x, Int) and len(v.l.t) == 1 and v.l.c == 0 and v.l.t[0][1] == 1 and v.l.t[0][0] != self.k.t[0][0]:
                m[v.l.t[0][0]] = x.l
        return m

    def covers(self, pat, x, c):
        """does the head's value stand for this one as well?"""
        fresh = ("h", self.fr.fid, self.lp.head, c[0][1:], c[1]) + self.nth

        def mine(n):
            while isinstance(n, tuple):
                if n == fresh:
                    return True
                if not n:
                    return False
                n = n[0]
            return False
        if isinstance(pat, Sym) and mine(pat.n):
            return True
        if isinstance(pat, Int) and isinstance(x, Int):
            if len(pat.l.t) == 1 and pat.l.c == 0 and mine(pat.l.t[0][0]):
                return True
            return c in self.delta or pat == x
        if isinstance(pat, Bool) and isinstance(x, Bool) and pat.c[0] == "b" and mine(pat.c[1]):
            return True
        if isinstance(pat, Word) and isinstance(x, Word) and pat.p and pat.p[0][0] == "S" and isinstance(pat.p[0][1], tuple) and pat.p[0][1][:1] == ("hw",):
            return True
        if isinstance(pat, Obj) and isinstance(x, Obj) and pat.tag == x.tag and pat.var == x.var and pat.base == x.base and set(pat.f) == set(x.f):
            return all(self.covers(pat.f[i], x.f[i], c) for i in pat.f)
        return same(pat, x)

    def refine(self, cells, edgesA, hs, edges):
        """check what was assumed against every edge; returns True when something had to be weakened"""
        changed = False
        for c in self.keep:
            if c in self.plugged or any(c == i[0] for i in self.ints):
                continue
            for e in edges:
                try:
                    x = self.cell(e, c)
                except Stuck:
                    x = Sym(("?",))
                if isinstance(x, Moved):
                    continue
                if not self.covers(self.fresh_of[c], x, c):
                    if len(self.extra.get(c, ())) > 4:
                        raise Stuck("loop value does not settle")
                    self.extra.setdefault(c, []).append(x)
                    changed = True
        if changed:
            return True
        kat = self.k.t[0][0]
        for c, v0, v in self.ints:
            d = self.delta.get(c)
            if d is None:
                continue
            for e in edges:
                x = self.cell(e, c)
                if not (isinstance(x, Int) and eqv(e, x.l, v.l + d)):
                    if not isinstance(x, (Int, Moved)):
                        raise Stuck("a counter stops being one")
                    self.delta[c] = None
                    self.cands = None
                    changed = True
                    break
        if changed:
            return True
        if self.guards is None:
            gs = None
            irr = {v.l.t[0][0] for c, v0, v in self.ints if self.delta.get(c) is None and v.l.t}
            # facts of every iteration (first one with k = 0, later ones with k), moved one step back
            def gather(es, base, first):
                com = None
                for e in es:
                    fs = set()
                    for l in e.facts.le - base.facts.le:
                        fs.add(l)
                    com = fs if com is None else {l for l in com if l in fs or e.facts.entails(("le", l))} | \
                        {l for l in fs if all(l in o or True for o in ())}
                return com or set()
            later = gather(edges, hs, False)
            atoms0 = set()
            for l in self.st0.facts.le:
                atoms0.update(l.atoms())
            out = []
            for l in later:
                ats = set(l.atoms())
                if kat not in ats or ats & irr:
                    continue
                if any(self.foreign(a, kat) for a in ats):
                    continue
                back = l.subst({kat: self.k - 1})
                # the first iteration must establish it as well (k = 1)
                one = l.subst({kat: const(0)})
                if all(e.facts.entails(("le", one)) for e in edgesA):
                    if not hs.facts.entails(("le", back)):
                        out.append(("le", back))
            self.guards = out
            if out:
                return True
        # Houdini
        bad = []
        for c in self.cands:
            if c in self.dropped:
                continue
            ok = True
            for e, first in [(e, True) for e in edgesA] + [(e, False) for e in edges]:
                m = self.subst(e)
                m[kat] = const(1) if first else self.k + 1
                l = c[1].subst(m)
                if not e.facts.entails(("le", l)):
                    ok = False
                    break
            if not ok:
                bad.append(c)
        if bad:
            self.dropped.update(bad)
            return True
        return False

    def plug_refine(self, hs, edgesA, edges):
        r = False
        for pl in self.eng.loop_plugins:
            chk = getattr(pl, "check", None)
            if chk and chk(self.eng, self, hs, edgesA, edges):
                r = True
        return r

    def foreign(self, a, kat):
        """an unknown introduced inside the loop body (not meaningful at the head)"""
        if a == kat:
            return False
        s0 = getattr(self, "_known", None)
        if s0 is None:
            s0 = set()
            for l in self.st0.facts.le:
                s0.update(l.atoms())
            for v in self.st0.mem.values():
                collect_atoms(v, s0)
            self._known = s0
        return a not in s0

    def finish(self, hs, edges, exits, rets):
        pass


def collect_atoms(v, out):
    if isinstance(v, Int):
        out.update(v.l.atoms())
    elif isinstance(v, Obj):
        for x in v.f.values():
            collect_atoms(x, out)
    elif isinstance(v, Word):
        for x in v.p:
            if x[0] == "S":
                out.update(x[2].atoms())
                out.update(x[3].atoms())
            elif x[0] == "E":
                collect_atoms(x[1], out)
    elif isinstance(v, Ref):
        for e in v.path:
            if e[0] == "at":
                out.update(e[1].atoms())
