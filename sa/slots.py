"""The ring buffer's own code: which physical slots hold a live element, who owns what.

The buffer's array is a word of exactly WIDTH slots: pieces of the element source "A" (or "B" for a second buffer) where
a live element sits, pieces of "DEAD" elsewhere.  Elements that are dropped are appended to a ghost word."""
import lin
from absint import *
from contracts import *
from ring import CB, BB, RING, install_ring
import absint
import models

W = lin.W
GHOST = ("H", "dropped")


class Layout:
    def __init__(self, p):
        a = next((a for k, a in p.adts.items() if a.get("path", k) == CB), None)
        if a is None:
            raise Stuck("no " + CB)
        fs = a["variants"][0]["fields"]
        names = [f["name"] for f in fs]
        self.n = len(names)
        arr = [i for i, f in enumerate(fs) if p.types[f["ty"]]["k"] == "array"]
        if len(arr) != 1 or "front" not in names or "len" not in names:
            raise Stuck("the buffer's fields are not front, len and one array")
        self.front, self.len, self.data = names.index("front"), names.index("len"), arr[0]


def is_ring(v):
    return isinstance(v, Obj) and v.tag == CB


def live(run, st, o, check=True, what="the buffer"):
    """the word of elements the bookkeeping (front, len) claims to be live"""
    L = run.layout
    f, n, d = o.f.get(L.front), o.f.get(L.len), o.f.get(L.data)
    if isinstance(d, Sym):
        d = run.eng.as_word(st, d, None)
    if not (isinstance(f, Int) and isinstance(n, Int) and isinstance(d, Word)):
        raise Stuck("buffer fields %r" % (o,))
    f, n = f.l, n.l
    if check:
        run.oblige(st, "front and len stay within the width", ("and", c_lt(f, const(W)), c_le(n, const(W))),
                   "%s has front %r and len %r" % (what, f, n), run.span)
    if decide(st, c_le(f + n, const(W))):
        a, b = run.eng.word_cut(st, d, f)
        w = run.eng.word_cut(st, b, n)[0]
    else:
        a, b = run.eng.word_cut(st, d, f)
        c = run.eng.word_cut(st, d, f + n - W)[0]
        w = Word(list(b.p) + list(c.p))
    w = Word(absint.norm_pieces(st, list(w.p)))
    return w


def no_dead(w):
    return all(not (x[0] == "S" and x[1] == "DEAD") and x != ("E", UNINIT) for x in w.p)


def ring_case(run, st, which, src="A", pre=""):
    """a buffer whose live elements are source src, unwrapped or wrapped; returns (object, expected live word, n)"""
    L = run.layout
    f, n = atom(pre + "front"), atom(pre + "len")
    st.have(c_le(const(0), f))
    st.have(c_lt(f, const(W)))
    st.have(c_le(const(0), n))
    st.have(c_le(n, const(W)))
    dead = lambda k: ("S", "DEAD", const(0), k, False)
    if which == "unwrapped":
        st.have(c_le(f + n, const(W)))
        d = [dead(f), ("S", src, const(0), n, False), dead(const(W) - f - n)]
    else:
        st.have(c_lt(const(W), f + n))
        d = [("S", src, const(W) - f, n, False), dead(const(W) - n), ("S", src, const(0), const(W) - f, False)]
    o = Obj(CB, None, {L.front: Int(f), L.len: Int(n), L.data: Word(absint.norm_pieces(st, d))})
    return o, Word(absint.norm_pieces(st, [("S", src, const(0), n, False)])), n


def release(run, st, v, ti, span=""):
    """the value is dropped: its elements go to the ghost"""
    p = run.lab.p
    t = p.types[ti] if ti is not None else {"k": "?"}
    k = t["k"]
    if isinstance(v, Moved) or k in ("ref", "ptr", "int", "bool", "fndef", "str", "never"):
        return
    last = t.get("path", "").rsplit("::", 1)[-1]
    if k == "adt" and last in ("MaybeUninit", "ManuallyDrop"):
        return
    if is_ring(v):
        w = live(run, st, v, False)
        run.oblige(st, "no dead slot is dropped", no_dead(w), "a buffer is dropped whose live range %r covers dead slots" % (w,), span)
        give(run, st, list(w.p))
        return
    if isinstance(v, Obj) and v.tag == "RING":
        give(run, st, list(v.f["w"].p))
        return
    if k == "param" or isinstance(v, Sym) and element(v):
        run.oblige(st, "no dead slot is dropped", v != UNINIT, "a dead slot is dropped as if it held an element", span)
        user_point(run, st, span)
        if v != UNINIT:
            give(run, st, [run.eng.piece_of(st, v)])
        return
    if isinstance(v, Word):
        give(run, st, list(v.p))
        return
    if isinstance(v, Obj):
        for i in sorted(v.f, key=str):
            release(run, st, v.f[i], None, span)


def element(v):
    return v == UNINIT or isinstance(v.n, tuple) and v.n[:1] in (("at",), ("item",))


def give(run, st, ps):
    w = st.mem.get(GHOST, Word())
    st.mem[GHOST] = Word(absint.norm_pieces(st, list(w.p) + ps))


def user_point(run, st, span):
    """user code runs here: whatever buffer exists must not claim dead slots as live"""
    if getattr(run, "own_drop", False) or not getattr(run, "watch_user", False):
        return
    run.user_points = getattr(run, "user_points", 0) + 1
    for r, v in list(st.mem.items()):
        if r[0] == "L" and isinstance(r[1], tuple) and r[1][:1] == ("P",):
            continue
        for o in rings_in(v):
            w = live(run, st, o, True, "a buffer that exists while user code runs")
            run.oblige(st, "bookkeeping is consistent while user code runs", no_dead(w),
                       "user code (an element's Clone or Drop) runs while a buffer claims %r as live: if it panics, dead slots are dropped" % (w,), span)


def rings_in(v):
    if is_ring(v):
        yield v
    elif isinstance(v, Obj):
        for x in v.f.values():
            yield from rings_in(x)


def install_slots(run):
    eng = run.eng
    run.layout = Layout(run.lab.p)
    run.span = ""

    def on_drop(eng, st, fr, t):
        try:
            v = eng.read_place(st, fr, t[1])
        except Stuck:
            return
        release(run, st, v, t[4], t[-1] if isinstance(t[-1], str) else "")
    eng.drop_hooks = (on_drop,)

    def hook(eng, st, c):
        own, nm = models.lookup(c.ref["path"])
        if nm == "drop" and own == "mem":
            release(run, st, c.args[0], eng_argty(c), c.span)
            return [(st, UNIT)]
        if nm == "drop_in_place" or own == "MaybeUninit" and nm == "assume_init_drop":
            r = c.args[0]
            v = eng.load(st, r)
            ti = models.strip1(eng, models.argty(eng, c, 0))
            if isinstance(v, Sym) and element(v):
                ti = None
            release(run, st, v, ti, c.span)
            eng.store(st, r, UNINIT if isinstance(v, Sym) else Word([("S", "DEAD", const(0), v.length(), False)]) if isinstance(v, Word) else UNINIT)
            return [(st, UNIT)]
        if own == "MaybeUninit" and nm in ("assume_init", "assume_init_read", "assume_init_ref", "assume_init_mut") or \
                nm in ("read", "read_unaligned", "read_volatile") and own in ("ptr", "const_ptr", "mut_ptr", "NonNull"):
            v = c.args[0]
            if nm != "assume_init" and isinstance(v, Ref):
                v = eng.load(st, v)
            t = eng.p.types[c.retty] if c.retty is not None else {}
            if nm == "assume_init" and v == UNINIT and t.get("k") == "array":
                return [(st, eng.as_word(st, v, None))]
            if t.get("k") in ("ref", "ptr"):
                t = eng.p.types[t["ty"]]
            if t.get("k") == "param":
                run.oblige(st, "no dead slot is read", v != UNINIT, "a slot that holds no live element is read as one", c.span)
            return NotImplemented
        return NotImplemented

    def eng_argty(c):
        return models.argty(eng, c, 0)
    eng.hooks.insert(1, hook)

    def user_seen(st, args, c):
        user_point(run, st, c.span)
    eng.user_seen = user_seen

    def clone_value(st, c, v, ti):
        run.oblige(st, "no dead slot is read", v != UNINIT, "a dead slot is cloned", c.span)
        user_point(run, st, c.span)
        if isinstance(v, Sym) and isinstance(v.n, tuple) and v.n[0] == "at":
            return [(st, Sym(("at", ("clone", v.n[1]), v.n[2])))]
        return [(st, Sym(("item", "clone", repr(v), c.site)))]
    eng.clone_value = clone_value


# ---------------------------------------------------------------- conservation in general
def owned(run, st, v):
    """pieces of elements a value owns"""
    if is_ring(v):
        w = live(run, st, v)
        run.oblige(st, "the live range holds only live elements", no_dead(w), "front and len claim %r as live" % (w,), run.span)
        return list(w.p)
    if isinstance(v, Obj) and v.tag == "RING":
        return list(v.f["w"].p)
    if isinstance(v, Obj):
        return [x for i in sorted(v.f, key=str) for x in owned(run, st, v.f[i])]
    if isinstance(v, Word):
        return [x for x in v.p if not (x[0] == "S" and x[1] == "DEAD")]
    if isinstance(v, Sym) and element(v):
        return [run.eng.piece_of(st, v)]
    return []


def conserved(run, st, have, want, what):
    """are the pieces have (in any order) exactly the elements of the words want?"""
    name = "every element is kept or given back exactly once"
    for src, n in want:
        if src[0] == "item":
            k = sum(1 for x in have if x == ("E", Sym(src)))
            run.oblige(st, name, k == 1, "%s: the argument ends up in %d places" % (what, k), run.span)
            continue
        ps = [x for x in have if x[0] == "S" and x[1] == src]
        pos = const(0)
        while ps:
            nx = None
            for x in ps:
                if absint.eqv(st, x[2], x[3]):
                    nx = x
                    break
                if absint.eqv(st, x[2], pos):
                    nx = x
                    break
            if nx is None:
                for x in ps:
                    if decide(st, c_eq(x[2], x[3])) or decide(st, c_eq(x[2], pos)):
                        nx = x
                        break
            if nx is None:
                break
            ps.remove(nx)
            if not absint.eqv(st, nx[2], nx[3]):
                pos = nx[3]
        run.oblige(st, name, not ps and c_eq(pos, n), "%s: of the %r elements, %r are accounted for in order%s" %
                   (what, n, pos, "; besides there are " + repr(Word(ps)) if ps else ""), run.span)
    extra = [x for x in have if not (x[0] == "S" and any(x[1] == s for s, _ in want) or x[0] == "E" and any(x[1] == Sym(s) for s, _ in want))]
    extra = [x for x in extra if not (x[0] == "S" and isinstance(x[1], tuple) and x[1][:1] == ("clone",)) and not (x[0] == "E" and isinstance(x[1], Sym) and x[1].n[:2] == ("item", "clone"))]
    run.oblige(st, name, not extra, "%s: it also owns %r" % (what, Word(extra)), run.span)
