"""The ring buffer as seen from above: a word of at most WIDTH elements."""
import lin
from absint import *
from contracts import *
import absint

CB = "circular::CircularBuffer"
BB = "circular::BorrowedBuffer"


def RING(w):
    return Obj("RING", None, {"w": Word(w.p)})


def ring_of(run, st, ref):
    v, r, n = ref, None, 0
    while isinstance(v, Ref) and n < 5:
        r = v
        v = run.eng.load(st, v)
        n += 1
    if isinstance(v, Obj) and v.tag == "RING":
        return r, v.f["w"]
    raise Stuck("ring buffer expected: %r" % (v,))


def side_of(run, st, v):
    """0 = Front, 1 = Back, by the enum's declaration"""
    a = next((a for k, a in run.lab.p.adts.items() if a.get("path", k).endswith("Side")), None)
    d = run.eng.variant(st, v, 2)
    if a:
        return a["variants"][d]["name"]
    raise Stuck("Side")


def install_ring(run, skip=()):
    lab, eng = run.lab, run.eng
    W = const(lin.W)

    def put(name, f):
        if name in skip:
            return
        k = lab.key(CB, name)
        if k is not None:
            run.contracts[k] = f

    def new(run, st, c):
        return [(st, RING(Word()))]

    def with_item(run, st, c):
        return [(st, RING(Word([eng.piece_of(st, c.args[0])])))]

    def rlen(run, st, c):
        return [(st, Int(ring_of(run, st, c.args[0])[1].length()))]

    def empty(run, st, c):
        return [(st, Bool(c_eq(ring_of(run, st, c.args[0])[1].length(), const(0))))]

    def full(run, st, c):
        return [(st, Bool(c_eq(ring_of(run, st, c.args[0])[1].length(), W)))]

    def space(run, st, c):
        return [(st, Int(W - ring_of(run, st, c.args[0])[1].length()))]

    def push(run, st, ref, side, item, strict):
        r, w = ring_of(run, st, ref)
        if not decide(st, c_lt(w.length(), W)):
            if strict:
                raise Diverge("push onto a full buffer")
            return [(st, NONE)]
        x = eng.piece_of(st, item)
        eng.store(st, r, RING(Word(absint.norm_pieces(st, (list(w.p) + [x]) if side == "Back" else ([x] + list(w.p))))))
        return [(st, UNIT if strict else some(UNIT))]

    def pop(run, st, ref, side, strict):
        r, w = ring_of(run, st, ref)
        n = w.length()
        if not decide(st, c_lt(const(0), n)):
            if strict:
                raise Diverge("pop from an empty buffer")
            return [(st, NONE)]
        a, b = eng.word_cut(st, w, n - 1 if side == "Back" else const(1))
        x, rest = (b, a) if side == "Back" else (a, b)
        eng.store(st, r, RING(rest))
        v = eng.word_get(st, x, const(0))
        return [(st, v if strict else some(v))]

    def at(run, st, c, strict=False, ptr=False):
        r, w = ring_of(run, st, c.args[0])
        i = idx(c)
        if not decide(st, c_lt(i, w.length())):
            if strict:
                raise Diverge("ring index out of range")
            return [(st, NONE)]
        v = Ref(r.root, r.path + (("f", "w"), ("at", i)))
        return [(st, v if strict else some(v))]

    def back(run, st, c):
        r, w = ring_of(run, st, c.args[0])
        n = w.length()
        if decide(st, c_eq(n, const(0))):
            return [(st, NONE)]
        return [(st, some(Ref(r.root, r.path + (("f", "w"), ("at", n - 1)))))]

    def pair(run, st, c):
        r, w = ring_of(run, st, c.args[0])
        i, j = idx(c), idx(c, 2)
        for x in (i, j):
            if not decide(st, c_lt(x, w.length())):
                raise Diverge("pair out of range")
        if decide(st, c_eq(i, j)):
            raise Diverge("pair of one")
        return [(st, tup(Ref(r.root, r.path + (("f", "w"), ("at", i))), Ref(r.root, r.path + (("f", "w"), ("at", j)))))]

    def decant(run, st, c):
        r, w = ring_of(run, st, c.args[0])
        q, d = ring_of(run, st, c.args[1])
        side = side_of(run, st, c.args[2])
        k = idx(c, 3)
        n, m = w.length(), d.length()
        lim = k
        for y in (n, W - m):
            if not decide(st, c_le(lim, y)):
                lim = y
        if decide(st, c_eq(lim, const(0))):
            return [(st, Int(0))]
        if side == "Front":
            a, b = eng.word_cut(st, w, lim)
            eng.store(st, r, RING(b))
            eng.store(st, q, RING(Word(absint.norm_pieces(st, list(d.p) + list(a.p)))))
        else:
            a, b = eng.word_cut(st, w, n - lim)
            eng.store(st, r, RING(a))
            eng.store(st, q, RING(Word(absint.norm_pieces(st, list(b.p) + list(d.p)))))
        return [(st, Int(lim))]
    put("new", new)
    put("default", new)
    put("with_item", with_item)
    put("len", rlen)
    put("is_empty", empty)
    put("is_full", full)
    put("free_space", space)
    for s in ("back", "front"):
        S = s.capitalize()
        put("try_push_" + s, lambda run, st, c, S=S: push(run, st, c.args[0], S, c.args[1], False))
        put("push_" + s, lambda run, st, c, S=S: push(run, st, c.args[0], S, c.args[1], True))
        put("try_pop_" + s, lambda run, st, c, S=S: pop(run, st, c.args[0], S, False))
        put("pop_" + s, lambda run, st, c, S=S: pop(run, st, c.args[0], S, True))
    put("push", lambda run, st, c: push(run, st, c.args[0], side_of(run, st, c.args[1]), c.args[2], True))
    put("pop", lambda run, st, c: pop(run, st, c.args[0], side_of(run, st, c.args[1]), True))
    put("try_pop", lambda run, st, c: pop(run, st, c.args[0], side_of(run, st, c.args[1]), False))
    for n in ("get", "get_mut", "get_ptr", "get_mut_ptr"):
        put(n, at)
    for n in ("index", "index_mut"):
        put(n, lambda run, st, c: at(run, st, c, True))
    put("back", back)
    put("pair_mut", pair)
    put("decant_into", decant)
