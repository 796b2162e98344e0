"""Contracts used while analysing the layers above them, and the driver that decides obligations.

A function is analysed twice by the abstract interpreter: once over-approximating (loop invariants), which can prove an
obligation, and, when that does not prove everything, once over exact paths only (accelerated loops), which can refute
it.  Proved -> ok; refuted on an exact path with no unmodelled step -> violation; neither -> undecided (reported in the
evidence, never as an alarm)."""
import lin
from lin import const, atom, c_le, c_lt, c_eq, c_ne, negate
import absint
from absint import (Engine, St, Int, Bool, Sym, Ref, Obj, Fn, Word, MOVED, UNIT, NONE, TRUE, FALSE, some, tup, Diverge, Stuck,
                    NeedSplit, Cap, decide, Moved)
import models
from facts import loc_of

import os
import traceback
import random
DEBUG = bool(os.environ.get('SA_DEBUG'))
RANGE_COMBOS = [(s, e) for s in ("Included", "Excluded", "Unbounded") for e in ("Included", "Excluded", "Unbounded")]
BV = {"Included": 0, "Excluded": 1, "Unbounded": 2}


class Run:
    """one abstract run: engine + obligations"""

    def __init__(self, lab, key, mode):
        self.lab, self.key, self.mode = lab, key, mode
        self.eng = Engine(lab.p, max_states=lab.max_states)
        self.eng.mode = mode
        self.eng.keep_panics = True
        self.contracts = {}
        self.eng.hooks.insert(0, self.hook)
        self.eng.run = self
        self.rets = None
        self.error = None

    # ---- obligations
    def oblige(self, st, name, cond, text, span=""):
        if self.lab.only is not None and name not in self.lab.only:
            return True
        if cond is True:
            v = "ok"
        elif cond is False:
            v = "fail"
        else:
            if self.mode == "over" and cond[0] in ("eq", "le", "ne", "and", "or", "T", "F", "d", "b"):
                v = "ok" if st.facts.entails(cond) else "fail"
            else:
                v = "ok" if st.facts.entails(cond) else "fail"
        if v == "ok" and st.taint:
            v = "unknown"
        if v == "fail" and (st.taint or not (st.facts.feasible() if self.mode == "under" else st.facts.consistent())):
            v = "unknown" if st.taint else "ok"
        self.eng.log.append((name, v, text, span, tuple(st.taint)))
        return v == "ok"

    # ---- calls
    def hook(self, eng, st, c):
        k = eng.target(st, c)
        if k is None:
            k = c.ref["key"]
        f = self.contracts.get(k)
        if f is None:
            return NotImplemented
        return f(self, st, c)


class Lab:
    def __init__(self, prog, ctx, max_states=6000, phases=1, samples=0):
        self.samples = samples
        self.only = None            # restrict to these obligations
        self.split_sub = not os.environ.get("SA_NOSUB")    # a subtraction that may go below zero is a panic, not an assumption
        self.p, self.ctx, self.max_states, self.phases = prog, ctx, max_states, phases
        self.refuted = set()

    def key(self, adt, name, trait=None):
        r = self.p.find(adt, name, trait)
        return r[0] if len(r) == 1 else None

    def one_run(self, key, setup, mode, phases=1, pick=None):
        """setup(run) -> (args, state, post or None)"""
        run = Run(self, key, mode)
        run.eng.phases = phases
        run.eng.pick = pick
        run.eng.split_sub = self.split_sub
        try:
            args, st, post = setup(run)
            run.rets = run.eng.start(key, args, st)
            if post is not None:
                for s, v in run.rets:
                    for s2, v2 in self.split_post(run, s, v, post):
                        pass
        except Stuck as e:
            run.error = "not representable: %s" % (e,)
        except Cap as e:
            run.error = str(e)
        except NeedSplit as e:
            run.error = "split outside a step"
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        except Diverge as e:
            run.error = "diverges at the top: %s" % (e.why,)
        except RecursionError:
            run.error = "recursion"
        except Exception as e:      # a construct the interpreter does not know: no verdict
            run.error = "interpreter: %s %s" % (type(e).__name__, e)
            if DEBUG:
                raise
        return run

    def split_post(self, run, s, v, post):
        work = [s]
        out = []
        n = 0
        while work and n < 400:
            s = work.pop()
            n += 1
            pos = len(run.eng.log)
            try:
                s2 = s.copy()
                post(run, s2, v)
                out.append((s2, v))
            except NeedSplit as e:
                del run.eng.log[pos:]
                for c in e.alts:
                    t = s.assume(c)
                    if t is not None:
                        work.append(t)
            except Diverge:
                pass
        return out

    def judge(self, name, key, setup, expect=(), panic_ok=None):
        """run and record.  expect: obligation names that must have been reached for 'ok'.
        panic_ok(state, why) -> True when that panic is allowed; None allows all."""
        b = self.p.bodies[key]
        ctx = self.ctx
        over = self.one_run(key, setup, "over")
        ctx.count("functions analysed")
        ctx.count("abstract states", over.eng.nstates)
        ctx.count("return partitions", len(over.rets or ()))
        problems = [] if over.error is None else [over.error]
        bad = [x for x in over.eng.log if x[1] != "ok"]
        pan = []
        if panic_ok is not None:
            pan = [p for p in over.eng.panics if p[0].facts.consistent() and not panic_ok(p[0], p[1])]
        seen = {x[0] for x in over.eng.log}
        miss = [n for n in expect if n not in seen]
        if not problems and not bad and not pan and not miss:
            for n in sorted(seen):
                ctx.ok("%s: %s" % (name, n))
            ctx.count("obligation instances", len(over.eng.log))
            ctx.sample("%s [%s]: %d obligations on %d return partitions" % (name, b["path"], len(over.eng.log), len(over.rets)))
            return over
        viol = False
        spent = 0
        plan = [(ph, None) for ph in range(1, self.phases + 1)] + \
            [(self.phases + 1 + i % 2, (random.Random(i), 2 + i % 3)) for i in range(self.samples)]
        for ph, pick in plan:
            if spent > 12 * self.max_states:
                break
            under = self.one_run(key, setup, "under", ph, pick)
            spent += under.eng.nstates
            ctx.count("abstract states", under.eng.nstates)
            for n, v, text, span, t in under.eng.log:
                if v == "fail":
                    self.ctx.violation("%s: %s" % (name, n), "%s: %s" % (b["path"], text), loc_of(span) if span else loc_of(b["span"]))
                    viol = True
            if panic_ok is not None:
                for st, why, span in under.eng.panics:
                    if not st.taint and st.facts.feasible() and not panic_ok(st, why):
                        self.ctx.violation("%s: panics" % name, "%s: %s on an admissible call" % (b["path"], why), loc_of(span) if isinstance(span, str) and span else loc_of(b["span"]))
                        viol = True
            if viol or not problems and not bad and not pan:
                break
        if not viol:
            why = problems or [x[0] + ": " + x[2] + (" (%s)" % "; ".join(x[4]) if x[4] else "") for x in bad][:3] or \
                ["panic: %s" % p[1] for p in pan][:2] or ["not reached: " + ", ".join(miss)]
            if under.error:
                why = why + ["exact pass: " + under.error]
            for n in sorted(set(expect) | {x[0] for x in bad} or {"all"}):
                self.ctx.undecided("%s: %s" % (name, n), "; ".join(map(str, why))[:300])
        return over


# ---------------------------------------------------------------- vectors and cursors as seen from above
def vec_len(run, st, ref):
    """length of the vector behind ref: what its len() reads"""
    lk = run.lab.key("vector::InternalVector", "len")
    n = run.eng.load(st, ref)
    if isinstance(n, Obj) and n.tag == "VEC":
        return n.f["w"].length()
    if lk is None:
        raise Stuck("no len()")
    outs = run.eng.start(lk, [ref], st)
    if len(outs) != 1 or not isinstance(outs[0][1], Int):
        raise Stuck("len()")
    return outs[0][1].l


def elref(vid, l):
    return Ref(("*", ("EL", vid)), (("at", l),))


def is_el(r):
    """(vector, index) of an element reference"""
    if isinstance(r, Ref) and isinstance(r.root, tuple) and r.root[0] == "*" and isinstance(r.root[1], tuple) and r.root[1][:1] == ("EL",) \
            and len(r.path) == 1 and r.path[0][0] == "at":
        return r.root[1][1], r.path[0][1]
    return None


def vid_of(ref):
    if isinstance(ref, Sym):
        return (("*", ref.n), ())
    if isinstance(ref, Ref):
        return (ref.root, ref.path)
    raise Stuck("vector identity")


def c_focus_mut(run, st, c):
    ref = c.args[0]
    n = vec_len(run, st, ref)
    return [(st, Obj("FM", None, {"v": Obj("vid", vid_of(ref)), "lo": Int(0), "hi": Int(n)}))]


def c_focus(run, st, c):
    ref = c.args[0]
    n = vec_len(run, st, ref)
    return [(st, Obj("FO", None, {"v": Obj("vid", vid_of(ref)), "lo": Int(0), "hi": Int(n)}))]


def cursor(run, st, v):
    n = 0
    while isinstance(v, (Ref,)) and n < 5:
        v = run.eng.load(st, v)
        n += 1
    if isinstance(v, Obj) and v.tag in ("FM", "FO"):
        return v, v.f["v"].var, v.f["lo"].l, v.f["hi"].l
    raise Stuck("cursor expected, got %r" % (v,))


def mk_cursor(v, lo, hi):
    return Obj(v.tag, None, {"v": v.f["v"], "lo": Int(lo), "hi": Int(hi)})


def idx(c, i=1):
    v = c.args[i]
    if not isinstance(v, Int):
        raise Stuck("index %r" % (v,))
    return v.l


def c_cur_len(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    return [(st, Int(hi - lo))]


def c_cur_is_empty(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    return [(st, Bool(c_eq(hi - lo, const(0))))]


def c_cur_index(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    i = idx(c)
    if not (decide(st, c_lt(i, hi - lo)) and decide(st, c_le(const(0), i))):
        raise Diverge("cursor index out of range")
    r = elref(vid, lo + i)
    seen(run, st, r, "accesses", c.span)
    return [(st, r)]


def c_cur_get(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    i = idx(c)
    if not (decide(st, c_lt(i, hi - lo)) and decide(st, c_le(const(0), i))):
        return [(st, NONE)]
    r = elref(vid, lo + i)
    seen(run, st, r, "accesses", c.span)
    return [(st, some(r))]


def c_cur_split(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    i = idx(c)
    if v.tag == "FM":
        if not decide(st, c_le(i, hi - lo)):
            raise Diverge("split out of range")
    elif not decide(st, c_lt(i, hi - lo)):
        raise Diverge("split out of range")
    return [(st, tup(mk_cursor(v, lo, lo + i), mk_cursor(v, lo + i, hi)))]


def bounds_of(run, st, v, length):
    """(start, end) of a range value, in the standard meaning"""
    eng = run.eng
    n = 0
    while isinstance(v, Ref) and n < 4:
        v = eng.load(st, v)
        n += 1
    if isinstance(v, Obj) and v.tag == "Range":
        return v.f[0].l, v.f[1].l
    if isinstance(v, Obj) and v.tag == "RangeFull":
        return const(0), length
    if isinstance(v, Obj) and v.tag == "RangeFrom":
        return v.f[0].l, length
    if isinstance(v, Obj) and v.tag == "RangeTo":
        return const(0), v.f[0].l
    if isinstance(v, Obj) and v.tag == "RangeInclusive" and v.f.get(2) == FALSE:
        return v.f[0].l, v.f[1].l + 1
    if isinstance(v, Obj) and v.tag == "RangeToInclusive":
        return const(0), v.f[0].l + 1
    if isinstance(v, Obj) and v.tag == "tuple" and len(v.f) == 2 and all(isinstance(x, Obj) and x.tag == "Bound" for x in v.f.values()):
        def pos(b):
            x = b.f[0]
            while isinstance(x, Ref):
                x = eng.load(st, x)
            return x.l
        s, e = v.f[0], v.f[1]
        return (const(0) if s.var == 2 else pos(s) + s.var), (length if e.var == 2 else pos(e) + (1 - e.var))
    if isinstance(v, Obj) and v.tag == "RB":
        return v.f["s"].l, v.f["e"].l if v.f["e"] is not None else length
    raise Stuck("range %r" % (v,))


def c_cur_narrow(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    s, e = bounds_of(run, st, c.args[1], hi - lo)
    if not decide(st, c_le(e, hi - lo)):
        raise Diverge("narrow out of range")
    if not decide(st, c_le(s, e)):
        raise Diverge("narrow reversed")
    run.eng.store(st, c.args[0], mk_cursor(v, lo + s, lo + e))
    return [(st, UNIT)]


def c_cur_clone(run, st, c):
    v, vid, lo, hi = cursor(run, st, c.args[0])
    return [(st, v)]


def c_vec_get(run, st, c):
    ref = c.args[0]
    n = vec_len(run, st, ref)
    i = idx(c)
    if not decide(st, c_lt(i, n)):
        return [(st, NONE)]
    r = elref(vid_of(ref), i)
    seen(run, st, r, "accesses", c.span)
    return [(st, some(r))]


def c_vec_index(run, st, c):
    ref = c.args[0]
    n = vec_len(run, st, ref)
    i = idx(c)
    if not decide(st, c_lt(i, n)):
        raise Diverge("index out of range")
    r = elref(vid_of(ref), i)
    seen(run, st, r, "accesses", c.span)
    return [(st, r)]


def seen(run, st, r, how, span):
    f = getattr(run, "on_element", None)
    if f is not None:
        f(st, r, how, span)


def install_cursors(run):
    lab = run.lab
    V, FM, FO = "vector::InternalVector", "focus::FocusMut", "focus::Focus"

    def put(adt, name, f, trait=None):
        k = lab.key(adt, name, trait)
        if k is not None:
            run.contracts[k] = f
    put(V, "focus_mut", c_focus_mut)
    put(V, "focus", c_focus)
    put(V, "get", c_vec_get)
    put(V, "get_mut", c_vec_get)
    put(V, "index", c_vec_index)
    put(V, "index_mut", c_vec_index)
    for t in (FM, FO):
        put(t, "len", c_cur_len)
        put(t, "is_empty", c_cur_is_empty)
        put(t, "index", c_cur_index)
        put(t, "get", c_cur_get)
        put(t, "split_at", c_cur_split)
    put(FO, "narrow", c_cur_narrow)
    put(FO, "clone", c_cur_clone)

    def user_seen(st, args, c):
        eng = run.eng
        for a in args:
            n = 0
            while isinstance(a, Ref) and n < 4:
                if is_el(a):
                    seen(run, st, a, "passes to a callback", c.span)
                    break
                try:
                    a = eng.load(st, a)
                except Stuck:
                    break
                n += 1
    run.eng.user_seen = user_seen
    old = models.TABLE[("mem", "swap")]

    def swap(eng, st, c):
        own, nm = models.lookup(c.ref["path"])
        if (own, nm) not in (("mem", "swap"), ("ptr", "swap")):
            return NotImplemented
        a, b = c.args[0], c.args[1]
        ea, eb = is_el(a), is_el(b)
        if ea is None and eb is None:
            return NotImplemented
        if ea is None or eb is None:
            st.spoil("swap with something else")
            return [(st, UNIT)]
        st.event("swap", a, b, c.span)
        seen(run, st, a, "exchanges", c.span)
        seen(run, st, b, "exchanges", c.span)
        f = getattr(run, "on_swap", None)
        if f is not None:
            f(st, ea, eb, c.span)
        return [(st, UNIT)]
    run.eng.hooks.insert(1, swap)


# ---------------------------------------------------------------- range arguments
def range_arg(run, st, combo, length, name="r", inside=True):
    """a range value with the given kinds of bounds; returns (value, start, end); inside: 0 <= start <= end <= length assumed"""
    sk, ek = combo
    a, b = atom(name + ".a"), atom(name + ".b")
    st.mem[("H", name, "a")] = Int(a)
    st.mem[("H", name, "b")] = Int(b)
    s = {"Included": a, "Excluded": a + 1, "Unbounded": const(0)}[sk]
    e = {"Included": b + 1, "Excluded": b, "Unbounded": length}[ek]
    sb = Obj("Bound", BV[sk], {} if sk == "Unbounded" else {0: Ref(("H", name, "a"))})
    eb = Obj("Bound", BV[ek], {} if ek == "Unbounded" else {0: Ref(("H", name, "b"))})
    st.have(c_le(const(0), a))
    st.have(c_le(const(0), b))
    if inside:
        st.have(c_le(s, e))
        st.have(c_le(e, length))
    v = Obj("RB", None, {0: sb, 1: eb, "s": Int(s), "e": Int(e) if ek != "Unbounded" else None})

    def hook(eng, st, c):
        own, nm = models.lookup(c.ref["path"])
        if own == "RangeBounds" and nm in ("start_bound", "end_bound"):
            x = models.ld(eng, st, c.args[0])
            if isinstance(x, Obj) and x.tag == "RB":
                return [(st, x.f[0 if nm == "start_bound" else 1])]
        if own == "RangeBounds" and nm == "contains":
            x = models.ld(eng, st, c.args[0])
            if isinstance(x, Obj) and x.tag == "RB":
                i = models.ldt(eng, st, c, 1)
                if x.f["e"] is None:
                    return [(st, Bool(c_le(x.f["s"].l, i.l)))]
                return [(st, TRUE if decide(st, c_le(x.f["s"].l, i.l)) and decide(st, c_lt(i.l, x.f["e"].l)) else FALSE)]
        if own in ("Clone",) and nm == "clone":
            x = models.ld(eng, st, c.args[0])
            if isinstance(x, Obj) and x.tag == "RB":
                return [(st, x)]
        return NotImplemented
    run.eng.hooks.insert(1, hook)
    return v, s, e
