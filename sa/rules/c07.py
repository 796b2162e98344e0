"""C07: every element dropped exactly once, no dead slot read.  The only code that can break this is the code that is
exempt from the compiler's ownership rules: the ring buffer (uninitialised array, front, len).  Each of its functions is
analysed on a buffer with unknown front and length, wrapped or not."""
from facts import Prog, loc_of
from absint import *
from contracts import *
from ring import CB, BB, RING, install_ring
from slots import *
from rules.c12 import same_word
import absint
import models

SELF = Ref(("*", "self"))
ITEM = Sym(("item", "x"))


def E(v):
    return ("E", v)


def A(lo, hi):
    return ("S", "A", lo, hi, False)


# what each function must do to the sequence: name -> f(n, args) -> list of (guard, word after, result) ; None = by conservation only
def push_spec(side, strict):
    def f(run, st, n, args):
        full = not decide(st, c_lt(n, const(W)))
        if full:
            return [A(const(0), n)], (None if strict else ("none",)), strict
        w = [A(const(0), n), E(ITEM)] if side == "Back" else [E(ITEM), A(const(0), n)]
        return w, (("any",) if strict else ("some", ("any",))), False
    return f


def pop_spec(side, strict):
    def f(run, st, n, args):
        if not decide(st, c_lt(const(0), n)):
            return [], (None if strict else ("none",)), strict
        i = n - 1 if side == "Back" else const(0)
        w = [A(const(0), n - 1)] if side == "Back" else [A(const(1), n)]
        return w, (("el", i) if strict else ("some", ("el", i))), False
    return f


def side_of(run, st, v):
    a = next((a for k, a in run.lab.p.adts.items() if a.get("path", k).endswith("Side")), None)
    return a["variants"][run.eng.variant(st, v, 2)]["name"]


def sided(make, strict):
    return lambda run, st, n, args: make(side_of(run, st, args[1]), strict)(run, st, n, args)


def at_spec(strict):
    def f(run, st, n, args):
        i = args[1].l
        if not decide(st, c_lt(i, n)):
            return [A(const(0), n)], (None if strict else ("none",)), strict
        return [A(const(0), n)], (("ref", i) if strict else ("some", ("ref", i))), False
    return f


def back_spec(run, st, n, args):
    if not decide(st, c_lt(const(0), n)):
        return [A(const(0), n)], ("none",), False
    return [A(const(0), n)], ("some", ("ref", n - 1)), False


def front_spec(run, st, n, args):
    if not decide(st, c_lt(const(0), n)):
        return [A(const(0), n)], ("none",), False
    return [A(const(0), n)], ("some", ("ref", const(0))), False


def pair_spec(run, st, n, args):
    i, j = args[1].l, args[2].l
    if decide(st, c_eq(i, j)) or not decide(st, c_lt(i, n)) or not decide(st, c_lt(j, n)):
        return [A(const(0), n)], None, True
    return [A(const(0), n)], ("pair", ("ref", i), ("ref", j)), False


def int_spec(f):
    return lambda run, st, n, args: ([A(const(0), n)], ("int", f(n)), False)


def bool_spec(f):
    return lambda run, st, n, args: ([A(const(0), n)], ("bool", f(n)), False)


SPECS = {
    "len": int_spec(lambda n: n), "free_space": int_spec(lambda n: const(W) - n),
    "is_empty": bool_spec(lambda n: c_eq(n, const(0))), "is_full": bool_spec(lambda n: c_eq(n, const(W))),
    "try_push_back": push_spec("Back", False), "push_back": push_spec("Back", True),
    "try_push_front": push_spec("Front", False), "push_front": push_spec("Front", True),
    "try_pop_back": pop_spec("Back", False), "pop_back": pop_spec("Back", True),
    "try_pop_front": pop_spec("Front", False), "pop_front": pop_spec("Front", True),
    "push": sided(push_spec, True), "try_push": sided(push_spec, False), "pop": sided(pop_spec, True), "try_pop": sided(pop_spec, False),
    "get": at_spec(False), "get_mut": at_spec(False), "get_ptr": at_spec(False), "get_mut_ptr": at_spec(False),
    "index": at_spec(True), "index_mut": at_spec(True), "back": back_spec, "back_mut": back_spec, "front": front_spec, "front_mut": front_spec,
    "pair_mut": pair_spec,
}
OBSERVED = {"fmt"}


def never(st, why):
    return False


# functions that answer for every argument: a panic in them (an index outside the array, a subtraction below zero) is a failure
TOTAL = {n: never for n in ("len", "free_space", "is_empty", "is_full", "try_push_back", "try_push_front", "try_pop_back", "try_pop_front", "try_push", "try_pop",
                            "get", "get_mut", "get_ptr", "get_mut_ptr", "back", "back_mut", "front", "front_mut", "decant_into", "clone", "drop", "new", "default",
                            "iter", "iter_mut", "into_iter", "singleton", "pair")}


def argument(run, st, i, ti, name, which, used):
    """an argument by its type"""
    p = run.lab.p
    t = p.types[ti]
    if t["k"] in ("ref", "ptr") and p.types[t["ty"]].get("path") == CB:
        if used:
            raise Stuck("more than one buffer")
        o, w, n = ring_case(run, st, which)
        st.mem[SELF.root] = o
        used.append(("A", n))
        return SELF
    if t.get("path") == CB:
        if used:
            raise Stuck("more than one buffer")
        o, w, n = ring_case(run, st, which)
        used.append(("A", n))
        return o
    if t["k"] == "int":
        return Int(atom(("arg", name)))
    if t["k"] == "bool":
        return Bool(("b", ("arg", name), True))
    if t["k"] == "param":
        return ITEM
    return Sym(("arg", name))


def setup_for(lab, key, which, spec, watch=False):
    p = lab.p
    b = p.bodies[key]

    def setup(run):
        install_slots(run)
        run.watch_user = watch
        run.own_drop = b["name"] == "drop"      # nothing runs its destructor again
        run.span = b["span"]
        st = St()
        st.mem[GHOST] = Word()
        used = []
        args = []
        items = []
        for i in range(b["argc"]):
            ti, nm = b["locals"][i + 1][0], b["locals"][i + 1][1] or "a%d" % i
            a = argument(run, st, i, ti, nm, which, used)
            if a == ITEM:
                items.append((ITEM.n, const(1)))
            args.append(a)
        byref = SELF in args

        def post(run, st, v):
            o = st.mem.get(SELF.root) if byref else None
            want = list(used) + items
            if b["name"] == "drop":
                got = st.mem[GHOST]
                conserved(run, st, list(got.p), used, "the destructor")
                return
            if b["name"] == "clone":
                got = live(run, st, v, True, "the copy")
                run.oblige(st, "copies every element in order", same_word(run, st, got, Word([("S", ("clone", "A"), const(0), used[0][1], False)])),
                           "the copy holds %r" % (got,), b["span"])
            if spec is not None and byref:
                n = used[0][1]
                w, res, diverges = spec(run, st, n, args)
                if diverges:
                    run.oblige(st, "panics when it must", False, "it returns where it is documented to panic", b["span"])
                    return
                got = live(run, st, o)
                run.oblige(st, "leaves exactly the expected elements", same_word(run, st, got, Word(w)),
                           "the buffer then holds %r instead of %r" % (got, Word(absint.norm_pieces(st, w))), b["span"])
                result(run, st, v, res, o, got)
            have = (owned(run, st, o) if o is not None else []) + owned(run, st, v) + list(st.mem[GHOST].p)
            if res_none(spec, v) and items:
                want = [x for x in want if x not in items] + ([] if any(y == E(ITEM) for y in have) else [])
                have = [x for x in have if x != E(ITEM)]
            conserved(run, st, have, want, b["name"])
        return args, st, post
    return setup


def res_none(spec, v):
    # the only function that may refuse its argument is one that answers None: the argument is dropped with it
    return False


def result(run, st, v, res, o, w):
    eng = run.eng
    name = "returns what it must"
    if res is None or res[0] == "any":
        return
    if res[0] == "int":
        run.oblige(st, name, isinstance(v, Int) and c_eq(v.l, res[1]), "it returns %r instead of %r" % (v, res[1]), run.span)
    elif res[0] == "bool":
        d = decide(st, v.c)
        e = decide(st, res[1])
        run.oblige(st, name, d == e, "it returns %s" % d, run.span)
    elif res[0] == "none":
        run.oblige(st, name, eng.variant(st, v, 2) == 0, "it returns Some where there is nothing", run.span)
    elif res[0] == "some":
        d = eng.variant(st, v, 2)
        run.oblige(st, name, d == 1, "it returns None although there is an element", run.span)
        if d == 1:
            result(run, st, eng.payload(st, v, 0), res[1], o, w)
    elif res[0] == "el":
        want = Sym(("at", "A", res[1]))
        ok = isinstance(v, Sym) and isinstance(v.n, tuple) and v.n[0] == "at" and v.n[1] == "A" and absint.eqv(st, v.n[2], res[1])
        run.oblige(st, name, ok, "it returns %r instead of %r" % (v, want), run.span)
    elif res[0] == "ref":
        slot(run, st, v, res[1], o)
    elif res[0] == "pair":
        for i in (0, 1):
            slot(run, st, eng.payload(st, v, i), res[1 + i][1], o)


def slot(run, st, v, i, o):
    """v points to the slot that holds element i of A"""
    x = None
    if isinstance(v, Ref) and v.root == SELF.root:
        x = run.eng.load(st, v)
    ok = isinstance(x, Sym) and isinstance(x.n, tuple) and x.n[0] == "at" and x.n[1] == "A" and absint.eqv(st, x.n[2], i)
    if x is None:
        raise Stuck("reference %r" % (v,))
    run.oblige(st, "hands out the slot of the element asked for", ok, "it hands out the slot of %r instead of element %r" % (x, i), run.span)


# ---------------------------------------------------------------- functions of two buffers
def two_setup(lab, key):
    """the other functions of the buffer are taken as verified; both buffers are words"""
    p = lab.p
    b = p.bodies[key]

    def setup(run):
        run.layout = Layout(p)
        run.span = b["span"]
        install_ring(run, skip=(b["name"],))
        eng = run.eng

        def on_drop(eng, st, fr, t):
            try:
                v = eng.read_place(st, fr, t[1])
            except Stuck:
                return
            release(run, st, v, t[4], "")
        eng.drop_hooks = (on_drop,)
        st = St()
        st.mem[GHOST] = Word()
        args, rings, srcs = [], [], ["A", "B", "C"]
        for i in range(b["argc"]):
            ti, nm = b["locals"][i + 1][0], b["locals"][i + 1][1] or "a%d" % i
            t = p.types[ti]
            if t["k"] in ("ref", "ptr") and p.types[t["ty"]].get("path") == CB or t.get("path") == CB:
                src = srcs.pop(0)
                n = atom("len" + src)
                st.have(c_le(n, const(W)))
                o = RING(Word([("S", src, const(0), n, False)]))
                root = ("*", nm)
                rings.append((root, src, n))
                if t.get("path") == CB:
                    args.append(o)
                else:
                    st.mem[root] = o
                    args.append(Ref(root))
            elif t["k"] == "int":
                args.append(Int(atom(("arg", nm))))
            else:
                args.append(Sym(("arg", nm)))

        def post(run, st, v):
            if b["name"] == "decant_into" and len(rings) == 2 and len(args) == 4:
                (r1, _, n), (r2, _, m) = rings
                side = side_of(run, st, args[2])
                k = args[3].l
                for y in (n, const(W) - m):
                    if not decide(st, c_le(k, y)):
                        k = y
                a, d = st.mem[r1].f["w"], st.mem[r2].f["w"]
                B = ("S", "B", const(0), m, False)
                wa, wd = ([A(k, n)], [B, A(const(0), k)]) if side == "Front" else ([A(const(0), n - k)], [A(n - k, n), B])
                name = "moves exactly the first or last elements, in order"
                run.oblige(st, name, same_word(run, st, a, Word(wa)), "%s: the source keeps %r instead of %r" % (side, a, Word(wa)), b["span"])
                run.oblige(st, name, same_word(run, st, d, Word(wd)), "%s: the destination gets %r instead of %r" % (side, d, Word(wd)), b["span"])
                run.oblige(st, "reports how many it moved", isinstance(v, Int) and c_eq(v.l, k), "it returns %r, but moves %r" % (v, k), b["span"])
            have = list(st.mem[GHOST].p) + owned(run, st, v)
            for r, _, _ in rings:
                if r in st.mem:
                    have += owned(run, st, st.mem[r])
            conserved(run, st, have, [(s, n) for _, s, n in rings], b["name"])
        return args, st, post
    return setup


def buffers_in(p, key):
    b = p.bodies[key]
    n = 0
    for i in range(b["argc"]):
        t = p.types[b["locals"][i + 1][0]]
        if t["k"] in ("ref", "ptr"):
            t = p.types[t["ty"]]
        n += t.get("path") == CB
    return n


# ---------------------------------------------------------------- views of a buffer
class View:
    def __init__(self, p):
        a = next((a for k, a in p.adts.items() if a.get("path", k) == BB), None)
        if a is None:
            raise Stuck("no " + BB)
        fs = {f["name"]: i for i, f in enumerate(a["variants"][0]["fields"])}
        if not {"range", "data", "front"} <= set(fs):
            raise Stuck("the view's fields are not range, data and front")
        self.f = fs


def view_obj(run, st, r0, r1, which):
    L = run.layout
    V = run.view = View(run.lab.p)
    o, w, n = ring_case(run, st, which)
    st.mem[SELF.root] = o
    st.have(c_le(const(0), r0))
    st.have(c_le(r0, r1))
    st.have(c_le(r1, n))
    f = {}
    for nm, i in V.f.items():
        f[i] = {"range": Obj("Range", None, {0: Int(r0), 1: Int(r1)}), "front": o.f[L.front], "len": o.f[L.len],
                "data": Ref(SELF.root, (("f", L.data),))}.get(nm)
        if f[i] is None:
            raise Stuck("unknown field of the view")
    return Obj(BB, None, f), n


def covers(run, st, v, a, z, what):
    """view v gives access to exactly elements a..z of A"""
    eng = run.eng
    i = atom(("probe", what))
    name = "a view covers exactly its part"
    gk = run.lab.key(BB, "get_ptr")
    if gk is None:
        raise Stuck("no get_ptr")
    s = st.copy()
    root = ("H", "view", what)
    s.mem[root] = v
    for s2, r in eng.start(gk, [Ref(root), Int(i)], s):
        def post(run, s3, r):
            d = eng.variant(s3, r, 2)
            inside = decide(s3, c_lt(a + i, z))
            run.oblige(s3, name, (d == 1) == inside, "%s: position %r of %r..%r answers %s" % (what, i, a, z, "Some" if d else "None"), run.span)
            if d == 1 and inside:
                slot(run, s3, eng.payload(s3, r, 0), a + i, None)
        run.lab.split_post(run, s2, r, post)


def view_setup(lab, key, which, name):
    p = lab.p
    b = p.bodies[key]

    def setup(run):
        install_slots(run)
        run.span = b["span"]
        st = St()
        st.mem[GHOST] = Word()
        r0, r1 = atom("r0"), atom("r1")
        v, n = view_obj(run, st, r0, r1, which)
        st.mem[("*", "view")] = v
        i = atom("i")
        args = [Ref(("*", "view")), Int(i)][:b["argc"]]

        def post(run, st, res):
            eng = run.eng
            if name in ("get_ptr", "get", "get_mut_ptr", "get_mut"):
                d = eng.variant(st, res, 2)
                inside = decide(st, c_lt(r0 + i, r1))
                run.oblige(st, "answers exactly inside the part", (d == 1) == inside, "position %r of %r..%r answers %s" % (i, r0, r1, "Some" if d else "None"), b["span"])
                if d == 1 and inside:
                    slot(run, st, eng.payload(st, res, 0), r0 + i, None)
            elif name in ("index", "index_mut"):
                run.oblige(st, "answers exactly inside the part", c_lt(r0 + i, r1), "position %r of %r..%r is answered" % (i, r0, r1), b["span"])
                slot(run, st, res, r0 + i, None)
            elif name == "len":
                run.oblige(st, "reports its length", isinstance(res, Int) and c_eq(res.l, r1 - r0), "it returns %r for %r..%r" % (res, r0, r1), b["span"])
            elif name == "split_at":
                run.oblige(st, "answers exactly inside the part", c_le(r0 + i, r1), "a split at %r of %r..%r is answered" % (i, r0, r1), b["span"])
                covers(run, st, eng.payload(st, res, 0), r0, r0 + i, "the left half")
                covers(run, st, eng.payload(st, res, 1), r0 + i, r1, "the right half")
        return args, st, post
    return setup


def ctor_setup(lab, key, which):
    p = lab.p
    b = p.bodies[key]

    def setup(run):
        install_slots(run)
        run.span = b["span"]
        st = St()
        st.mem[GHOST] = Word()
        o, w, n = ring_case(run, st, which)
        st.mem[SELF.root] = o

        def post(run, st, res):
            covers(run, st, res, const(0), n, "the whole buffer's view")
        return [SELF], st, post
    return setup


VIEW_FNS = {"get_ptr": "hands out the slot of the element asked for", "get": "hands out the slot of the element asked for",
            "get_mut_ptr": "hands out the slot of the element asked for", "get_mut": "hands out the slot of the element asked for",
            "index": "hands out the slot of the element asked for", "index_mut": "hands out the slot of the element asked for",
            "len": "reports its length", "split_at": "a view covers exactly its part"}


def views(lab, ctx):
    n = 0
    for nm, want in sorted(VIEW_FNS.items()):
        k = lab.key(BB, nm)
        if k is None:
            ctx.undecided("view " + nm, "no such function")
            continue
        n += 1
        for which in ("unwrapped", "wrapped"):
            lab.judge("view %s (%s)" % (nm, which), k, view_setup(lab, k, which, nm), (want,))
    k = lab.key(CB, "mutable_view")
    if k is None:
        ctx.undecided("mutable_view", "no such function")
    else:
        n += 1
        for which in ("unwrapped", "wrapped"):
            lab.judge("mutable_view (%s)" % which, k, ctor_setup(lab, k, which), ("a view covers exactly its part",))
    ctx.count("view functions", n)


# ---------------------------------------------------------------- everything else
RAW = {"read", "read_unaligned", "read_volatile", "transmute_copy", "transmute", "assume_init", "assume_init_read", "assume_init_ref", "assume_init_mut",
       "assume_init_drop", "copy_nonoverlapping", "copy", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping", "drop_in_place", "zeroed", "set_len",
       "from_raw_parts", "from_raw", "take", "write", "write_bytes", "uninit"}


def raw_op(c):
    own, nm = models.lookup(c["path"])
    if nm not in RAW:
        return None
    if nm in ("read", "read_unaligned", "read_volatile", "copy_nonoverlapping", "copy", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping",
              "drop_in_place", "write", "write_bytes"):
        return own in ("ptr", "const_ptr", "mut_ptr", "NonNull", "intrinsics") and "ptr::" + nm
    if nm in ("transmute_copy", "transmute", "zeroed"):
        return "mem::" + nm
    if nm == "take":
        return own == "ManuallyDrop" and "ManuallyDrop::take"
    if nm in ("set_len", "from_raw_parts", "from_raw"):
        return "%s::%s" % (own, nm)
    return own == "MaybeUninit" and "MaybeUninit::" + nm


OWNERS = {"vector::InternalVector", CB, "node_traits::NodeRc", "vector::IntoIter", "circular::IntoIter"}


def owns_elements(p, ti):
    """does a value of this type hold elements (not only point to them)?"""
    t = p.types[ti]
    if t["k"] == "tuple":
        return any(owns_elements(p, x) for x in t.get("tys", []))
    if t["k"] == "alias":
        return t["def"].rsplit("::", 1)[-1] in ("Item", "Leaf", "LeafEntry", "InternalEntry") and "node_traits" in t["def"]
    if t["k"] == "adt":
        return t["path"] in OWNERS or t["path"].startswith("std::") and any(owns_elements(p, x) for x in t.get("args", []) if isinstance(x, int))
    return False


def forgotten(p, ctx):
    """values that hold elements and are given up without being dropped"""
    for k in sorted(p.bodies):
        b = p.bodies[k]
        calls = list(p.fnrefs(b))
        for bi, span, f, _ in calls:
            own, nm = models.lookup(f["path"])
            if f.get("local") or not (nm == "forget" and own == "mem" or nm == "leak"):
                continue
            ctx.count("forgetting call sites")
            if not any(isinstance(x, int) and owns_elements(p, x) for x in f.get("args") or []):
                continue
            if any(raw_op(g) for _, _, g, _ in calls):
                ctx.undecided("forgets in " + b["path"], "what it held may have been read out before")
            else:
                ctx.violation("forgets:" + b["path"], "%s gives up a value that holds elements through %s: they are never dropped" % (b["path"], f["path"]), loc_of(span))
    ctx.ok("no value that holds elements is forgotten")


def elsewhere(p, ctx):
    """raw ownership operations outside the buffer"""
    n = 0
    for k in sorted(p.bodies):
        b = p.bodies[k]
        n += 1
        owner = b
        kk = k
        while "::{closure" in kk:
            kk = kk.rsplit("::{closure", 1)[0]
            owner = p.bodies.get(kk, owner)
        if p.self_adt(owner) in (CB, BB):
            continue
        for bi, span, f, _ in p.fnrefs(b):
            o = raw_op(f)
            if o:
                ctx.undecided("raw operation in " + b["path"], "%s at %s is outside the analysed buffer" % (o, loc_of(span)))
    ctx.count("bodies searched for raw ownership operations", n)
    ctx.ok("no other function duplicates, fabricates or overwrites elements behind the compiler's back")


USER = "bookkeeping is consistent while user code runs"
DEAD = {USER, "no dead slot is dropped", "no dead slot is read", "the live range holds only live elements", "front and len stay within the width"}


CONTENT = {"every element is kept or given back exactly once", "leaves exactly the expected elements", "copies every element in order", "returns what it must",
           "hands out the slot of the element asked for", "moves exactly the first or last elements, in order", "reports how many it moved",
           "answers exactly inside the part", "reports its length", "a view covers exactly its part", "panics when it must"}


def contents(ctx):
    """the buffer as a sequence: what each of its functions does to the order of the elements"""
    p, lab, n = buffers(ctx, "release", only=CONTENT)
    views(lab, ctx)


def buffers(ctx, config, watch=False, only=None):
    p = Prog(config)
    lab = Lab(p, ctx, max_states=20000)
    lab.only = only
    expect, total = ("every element is kept or given back exactly once",), TOTAL
    if watch:
        lab.only = DEAD
        expect, total = (), {}
    n = 0
    for key in sorted(p.bodies):
        b = p.bodies[key]
        if p.self_adt(b) != CB or "{closure" in key:
            continue
        nm = b["name"]
        if nm in OBSERVED:
            continue
        if config != "release" and nm != "drop":
            continue
        n += 1
        tag = "" if config == "release" else " [%s]" % config
        if buffers_in(p, key) > 1:
            lab.judge(nm + tag, key, two_setup(lab, key), expect, total.get(nm))
            continue
        for which in ("unwrapped", "wrapped"):
            if buffers_in(p, key) == 0 and which == "wrapped":
                continue
            lab.judge("%s (%s)%s" % (nm, which, tag), key, setup_for(lab, key, which, SPECS.get(nm), watch),
                      expect, total.get(nm))
    return p, lab, n


def run(ctx):
    ctx.rule("Every function of the ring buffer is analysed on a buffer with unknown front (0..WIDTH) and length (0..=WIDTH), wrapped and "
             "unwrapped, whose array slots are known to be live or dead: on every path the slots claimed by front and len afterwards are live "
             "ones, no dead slot is read, cloned, dropped or handed out, and the elements that went in are exactly those that are in the "
             "buffer, returned or dropped afterwards, each once; accessors and end operations act on exactly the slot their name says. "
             "The destructor is analysed with and without may_dangle. Everything else in the crate is subject to the compiler's own rules "
             "as long as it uses no raw ownership operation, which is searched for.")
    p, lab, n = buffers(ctx, "release")
    ctx.count("buffer functions", n)
    if n == 0:
        ctx.undecided("buffer functions", "there is no " + CB)
    for cfg, has in (("release", [k for k in p.bodies if p.self_adt(p.bodies[k]) == CB and p.bodies[k]["name"] == "drop"]),
                     ("may_dangle", buffers(ctx, "may_dangle")[2])):
        if n and not has:
            a = next(a for k, a in p.adts.items() if a.get("path", k) == CB)
            if any("MaybeUninit" in p.types[f["ty"]]["s"] for f in a["variants"][0]["fields"]):
                ctx.violation("destructor [%s]" % cfg, "%s keeps its elements in MaybeUninit slots but has no destructor: they are never dropped" % CB)
            else:
                ctx.undecided("destructor [%s]" % cfg, "no destructor")
    views(lab, ctx)
    elsewhere(p, ctx)
    forgotten(p, ctx)
