"""Meaning of the std / dependency functions the crate calls, on abstract values.  Anything not listed here is an
unmodelled call: its result is unknown and whatever it may have written is tainted (never reported)."""
import lin
from lin import const, atom, c_le, c_lt, c_eq, c_ne, negate
from absint import (UNINIT, Int, Bool, Sym, Ref, Obj, Fn, Word, MOVED, UNIT, NONE, TRUE, FALSE, some, tup, Diverge, Stuck, NeedSplit,
                    decide, Moved, norm_pieces, plen, same)

UNCH = NotImplemented
ORD = {"Less": 0, "Equal": 1, "Greater": 2}


def install(eng):
    eng.hooks.append(dispatch)


def base(path):
    """'std::option::Option::<T>::unwrap' -> ('Option', 'unwrap')"""
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(path):
        ch = path[i]
        if ch == "<":
            depth += 1
        elif ch == ">" and path[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            if path.startswith("::", i):
                out.append(cur)
                cur = ""
                i += 2
                continue
            cur += ch
        i += 1
    out.append(cur)
    out = [x for x in out if x]
    return out


_CACHE = {}


def lookup(path):
    r = _CACHE.get(path)
    if r is None:
        b = base(path)
        nm = b[-1]
        own = b[-2] if len(b) > 1 else ""
        r = (own, nm)
        _CACHE[path] = r
    return r


def dispatch(eng, st, c):
    path = c.ref["path"]
    own, nm = lookup(path)
    k = c.ref["key"]
    if c.ref.get("local") and k in eng.p.bodies:
        return UNCH
    if c.ref.get("res") in eng.p.bodies and own not in ("Fn", "FnMut", "FnOnce"):
        return UNCH
    f = TABLE.get((own, nm))
    if f is None:
        f = TABLE.get(("*", nm))
        if f is None:
            if path.startswith(("core::panicking", "std::rt::begin_panic", "core::option::", "core::slice::index")) or nm in (
                    "assert_failed", "begin_panic", "panic", "panic_fmt", "panic_display", "unreachable_display", "panic_explicit"):
                raise Diverge("panic")
            if "fmt" in path or path.startswith("std::io::"):
                return [(st, eng.mk(("fmt", c.site), c.retty))]
            return UNCH
    return f(eng, st, c)


TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            own, _, nm = n.rpartition(".")
            TABLE[(own or "*", nm)] = f
        return f
    return deco


def one(st, v):
    return [(st, v)]


def ld(eng, st, v):
    """the value behind any number of references"""
    n = 0
    while isinstance(v, Ref) and n < 6:
        v = eng.load(st, v)
        n += 1
    return v


def argty(eng, c, i):
    """type index of argument i"""
    o = c.ops[i] if getattr(c, "ops", None) and i < len(c.ops) else None
    if o is None:
        return None
    if o[0] in ("copy", "move"):
        return eng.place_ty(c.fr, o[1])
    return o[1].get("ty")


def strip_refs(eng, ti):
    while ti is not None and eng.p.types[ti]["k"] in ("ref", "ptr"):
        ti = eng.p.types[ti].get("ty")
    return ti


def ldt(eng, st, c, i):
    """argument i with references removed, typed"""
    v = c.args[i]
    ti = argty(eng, c, i)
    n = 0
    while isinstance(v, (Ref, Sym)) and n < 6:
        if ti is not None:
            t = eng.p.types[ti]
            if t["k"] not in ("ref", "ptr"):
                break
            ti = t.get("ty")
            v = eng.load(st, v, ti)
        elif isinstance(v, Ref):
            v = eng.load(st, v)
        else:
            break
        n += 1
    return v


def asint(v):
    return v.l if isinstance(v, Int) else None


# ---------------------------------------------------------------- Option / Result
def opt(eng, st, v):
    return eng.variant(st, v, 2)


def pay(eng, st, v, i=0, ti=None):
    if isinstance(v, Obj) and i in v.f:
        return v.f[i]
    return eng.payload(st, v, i, ti)


@model("Option.unwrap", "Option.expect", "Option.unwrap_unchecked")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        raise Diverge("unwrap of None")
    return one(st, pay(eng, st, v, 0, c.retty))


@model("Result.unwrap", "Result.expect")
def _(eng, st, c):
    v = c.args[0]
    if eng.variant(st, v, 2) == 1:
        raise Diverge("unwrap of Err")
    return one(st, pay(eng, st, v, 0, c.retty))


@model("Option.unwrap_or")
def _(eng, st, c):
    v = c.args[0]
    return one(st, pay(eng, st, v, 0, c.retty) if opt(eng, st, v) == 1 else c.args[1])


@model("Option.unwrap_or_default")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 1:
        return one(st, pay(eng, st, v, 0, c.retty))
    t = eng.p.types[c.retty] if c.retty is not None else {}
    if t.get("k") == "int":
        return one(st, Int(0))
    if t.get("k") == "bool":
        return one(st, FALSE)
    return UNCH


@model("Option.unwrap_or_else")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 1:
        return one(st, pay(eng, st, v, 0, c.retty))
    return eng.call_value(st, c.args[1], [], c)


@model("Option.map")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, NONE)
    return [(s, some(x)) for s, x in eng.call_value(st, c.args[1], [pay(eng, st, v)], c)]


@model("Option.and_then")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, NONE)
    return eng.call_value(st, c.args[1], [pay(eng, st, v)], c)


@model("Option.map_or")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, c.args[1])
    return eng.call_value(st, c.args[2], [pay(eng, st, v)], c)


@model("Option.map_or_else")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return eng.call_value(st, c.args[1], [], c, "none")
    return eng.call_value(st, c.args[2], [pay(eng, st, v)], c)


@model("Option.is_some_and")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, FALSE)
    return eng.call_value(st, c.args[1], [pay(eng, st, v)], c)


@model("Option.is_none_or")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, TRUE)
    return eng.call_value(st, c.args[1], [pay(eng, st, v)], c)


@model("Option.filter")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, NONE)
    x = pay(eng, st, v)
    root = ("H", ("filter", c.site))
    st.mem[root] = x
    out = []
    for s, b in eng.call_value(st, c.args[1], [Ref(root)], c):
        if isinstance(b, Bool):
            for cond, r in ((b.c, some(x)), (negate(b.c), NONE)):
                s2 = s.assume(cond)
                if s2 is not None:
                    out.append((s2, r))
        else:
            return UNCH
    return out


@model("Option.or_else")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 1:
        return one(st, v)
    return eng.call_value(st, c.args[1], [], c)


@model("Option.or")
def _(eng, st, c):
    return one(st, c.args[0] if opt(eng, st, c.args[0]) == 1 else c.args[1])


@model("Option.and")
def _(eng, st, c):
    return one(st, c.args[1] if opt(eng, st, c.args[0]) == 1 else NONE)


@model("Option.ok_or")
def _(eng, st, c):
    v = c.args[0]
    return one(st, Obj("Result", 0, {0: pay(eng, st, v)}) if opt(eng, st, v) == 1 else Obj("Result", 1, {0: c.args[1]}))


@model("Option.is_some")
def _(eng, st, c):
    return one(st, TRUE if opt(eng, st, ld(eng, st, c.args[0])) == 1 else FALSE)


@model("Option.is_none")
def _(eng, st, c):
    return one(st, FALSE if opt(eng, st, ld(eng, st, c.args[0])) == 1 else TRUE)


@model("Result.is_ok")
def _(eng, st, c):
    return one(st, TRUE if opt(eng, st, ld(eng, st, c.args[0])) == 0 else FALSE)


@model("Result.is_err")
def _(eng, st, c):
    return one(st, FALSE if opt(eng, st, ld(eng, st, c.args[0])) == 0 else TRUE)


@model("Option.take")
def _(eng, st, c):
    v = eng.load(st, c.args[0])
    eng.store(st, c.args[0], NONE)
    return one(st, v)


@model("Option.replace")
def _(eng, st, c):
    v = eng.load(st, c.args[0])
    eng.store(st, c.args[0], some(c.args[1]))
    return one(st, v)


@model("Option.insert")
def _(eng, st, c):
    eng.store(st, c.args[0], some(c.args[1]))
    r = c.args[0]
    return one(st, Ref(r.root, r.path + (("d", 1), ("f", 0))))


@model("Option.as_ref", "Option.as_mut", "Option.as_deref", "Option.as_deref_mut")
def _(eng, st, c):
    r = c.args[0]
    v = ld(eng, st, r)
    if opt(eng, st, v) == 0:
        return one(st, NONE)
    if not isinstance(r, Ref):
        r = Ref(("*", r.n))
    x = Ref(r.root, r.path + (("d", 1), ("f", 0)))
    if c.name.startswith("as_deref"):
        y = pay(eng, st, v)
        if isinstance(y, Ref):
            x = y
    return one(st, some(x))


@model("Option.copied", "Option.cloned")
def _(eng, st, c):
    v = c.args[0]
    if opt(eng, st, v) == 0:
        return one(st, NONE)
    ti = None
    if c.retty is not None:
        a = eng.p.types[c.retty].get("args") or []
        ti = next((x for x in a if isinstance(x, int)), None)
    x = pay(eng, st, v)
    return one(st, some(eng.load(st, x, ti)))


@model("Try.branch")
def _(eng, st, c):
    v = c.args[0]
    p = c.ref.get("res_path") or c.path
    d = eng.variant(st, v, 2)
    if "Result" in p:
        return one(st, Obj("ControlFlow", 0, {0: pay(eng, st, v)}) if d == 0 else
                   Obj("ControlFlow", 1, {0: Obj("Result", 1, {0: pay(eng, st, v)})}))
    return one(st, Obj("ControlFlow", 0, {0: pay(eng, st, v)}) if d == 1 else Obj("ControlFlow", 1, {0: NONE}))


@model("FromResidual.from_residual")
def _(eng, st, c):
    return one(st, c.args[0])


# ---------------------------------------------------------------- ranges and bounds
@model("RangeBounds.start_bound", "RangeBounds.end_bound")
def _(eng, st, c):
    v = ld(eng, st, c.args[0])
    which = "s" if c.name == "start_bound" else "e"
    if isinstance(v, Obj):
        t = v.tag
        if t == "RangeFull":
            return one(st, Obj("Bound", 2, {}))
        root = ("H", ("bnd", c.site))
        i = 0 if which == "s" else 1
        if t == "RangeTo":
            if which == "s":
                return one(st, Obj("Bound", 2, {}))
            i = 0
            var = 1
        elif t == "RangeToInclusive":
            if which == "s":
                return one(st, Obj("Bound", 2, {}))
            i = 0
            var = 0
        elif t == "RangeFrom":
            if which == "e":
                return one(st, Obj("Bound", 2, {}))
            var = 0
        elif t == "Range":
            var = 0 if which == "s" else 1
        elif t == "RangeInclusive":
            var = 0
        elif t == "tuple":
            x = v.f.get(i)
            return one(st, x)
        else:
            return UNCH
        st.mem[root] = v.f[i]
        return one(st, Obj("Bound", var, {0: Ref(root)}))
    if isinstance(v, Sym):
        return one(st, Sym((v.n, "bound", which)))
    return UNCH


@model("Bound.cloned", "Bound.copied")
def _(eng, st, c):
    v = c.args[0]
    k = eng.variant(st, v, 3)
    if k == 2:
        return one(st, Obj("Bound", 2, {}))
    return one(st, Obj("Bound", k, {0: ld(eng, st, pay(eng, st, v))}))


@model("Bound.map")
def _(eng, st, c):
    v = c.args[0]
    k = eng.variant(st, v, 3)
    if k == 2:
        return one(st, Obj("Bound", 2, {}))
    return [(s, Obj("Bound", k, {0: x})) for s, x in eng.call_value(st, c.args[1], [pay(eng, st, v)], c)]


@model("Bound.as_ref")
def _(eng, st, c):
    v = ld(eng, st, c.args[0])
    k = eng.variant(st, v, 3)
    if k == 2:
        return one(st, Obj("Bound", 2, {}))
    r = c.args[0]
    return one(st, Obj("Bound", k, {0: Ref(r.root, r.path + (("d", k), ("f", 0)))}))


@model("RangeInclusive.new")
def _(eng, st, c):
    return one(st, Obj("RangeInclusive", None, {0: c.args[0], 1: c.args[1], 2: FALSE}))


@model("Range.contains", "RangeInclusive.contains", "RangeBounds.contains")
def _(eng, st, c):
    r = ld(eng, st, c.args[0])
    x = ldt(eng, st, c, 1)
    if not isinstance(x, Int):
        return UNCH
    lo, hi = pay(eng, st, r, 0, 0), pay(eng, st, r, 1, 0)
    lo, hi = as_usize(eng, lo), as_usize(eng, hi)
    up = c_lt(x.l, hi) if lookup(c.ref["path"])[0] != "RangeInclusive" else c_le(x.l, hi)
    if not decide(st, c_le(lo, x.l)):
        return one(st, FALSE)
    return one(st, TRUE if decide(st, up) else FALSE)


def as_usize(eng, v):
    if isinstance(v, Int):
        return v.l
    if isinstance(v, Sym):
        return atom(v.n)
    raise Stuck("integer expected: %r" % (v,))


def range_parts(eng, st, v):
    return as_usize(eng, pay(eng, st, v, 0)), as_usize(eng, pay(eng, st, v, 1))


@model("Range.is_empty")
def _(eng, st, c):
    lo, hi = range_parts(eng, st, ld(eng, st, c.args[0]))
    return one(st, Bool(c_le(hi, lo)))


@model("ExactSizeIterator.len", "Iterator.len")
def _(eng, st, c):
    v = ld(eng, st, c.args[0])
    if isinstance(v, Obj) and v.tag == "Range" or isinstance(v, Sym) and "Range" in tyname(eng, c, 0):
        lo, hi = range_parts(eng, st, v)
        if decide(st, c_le(lo, hi)):
            return one(st, Int(hi - lo))
        return one(st, Int(0))
    if isinstance(v, Obj) and v.tag in ITERS:
        return one(st, Int(it_len(eng, st, v)))
    return UNCH


def tyname(eng, c, i):
    ti = strip_refs(eng, argty(eng, c, i))
    return eng.p.types[ti].get("s", "") if ti is not None else ""


# ---------------------------------------------------------------- integers, booleans, comparisons
def int2(eng, st, c):
    a, b = ldt(eng, st, c, 0), ldt(eng, st, c, 1)
    if isinstance(a, Int) and isinstance(b, Int):
        return a.l, b.l
    return None


@model("Add.add")
def _(eng, st, c):
    r = int2(eng, st, c)
    return one(st, Int(r[0] + r[1])) if r else UNCH


@model("Sub.sub")
def _(eng, st, c):
    r = int2(eng, st, c)
    return one(st, Int(eng.sub(st, *r))) if r else UNCH


@model("AddAssign.add_assign", "SubAssign.sub_assign")
def _(eng, st, c):
    a = ldt(eng, st, c, 0)
    b = ldt(eng, st, c, 1)
    if not (isinstance(a, Int) and isinstance(b, Int)):
        return UNCH
    eng.store(st, c.args[0], Int(a.l + b.l if c.name == "add_assign" else eng.sub(st, a.l, b.l)))
    return one(st, UNIT)


@model("saturating_sub")
def _(eng, st, c):
    r = int2(eng, st, c)
    if not r:
        return UNCH
    return one(st, Int(r[0] - r[1]) if decide(st, c_le(r[1], r[0])) else Int(0))


@model("saturating_add", "wrapping_add")
def _(eng, st, c):
    r = int2(eng, st, c)
    return one(st, Int(r[0] + r[1])) if r else UNCH


@model("checked_sub")
def _(eng, st, c):
    r = int2(eng, st, c)
    if not r:
        return UNCH
    return one(st, some(Int(r[0] - r[1])) if decide(st, c_le(r[1], r[0])) else NONE)


@model("checked_add")
def _(eng, st, c):
    r = int2(eng, st, c)
    return one(st, some(Int(r[0] + r[1]))) if r else UNCH


@model("abs_diff")
def _(eng, st, c):
    r = int2(eng, st, c)
    if not r:
        return UNCH
    return one(st, Int(r[0] - r[1]) if decide(st, c_le(r[1], r[0])) else Int(r[1] - r[0]))


@model("rem_euclid")
def _(eng, st, c):
    r = int2(eng, st, c)
    return one(st, Int(eng.mod(st, *r))) if r else UNCH


@model("wrapping_sub")
def _(eng, st, c):
    r = int2(eng, st, c)
    if not r:
        return UNCH
    if decide(st, c_le(r[1], r[0])):
        return one(st, Int(r[0] - r[1]))
    # below zero: only its residue modulo a power of two is meaningful
    return one(st, Int(atom(("wrap", r[0] - r[1]))))


@model("min", "max")
def _(eng, st, c):
    r = int2(eng, st, c) if len(c.args) == 2 else None
    if not r:
        return UNCH
    le = decide(st, c_le(r[0], r[1]))
    return one(st, Int(r[0] if le == (c.name == "min" or lookup(c.path)[1] == "min") else r[1]))


def cmp_vals(eng, st, a, b, op, c):
    if isinstance(a, Int) and isinstance(b, Int):
        x, y = a.l, b.l
        return Bool({"eq": c_eq(x, y), "ne": c_ne(x, y), "lt": c_lt(x, y), "le": c_le(x, y), "gt": c_lt(y, x),
                     "ge": c_le(y, x)}[op])
    if isinstance(a, Bool) and isinstance(b, Bool) and op in ("eq", "ne"):
        return TRUE if (decide(st, a.c) == decide(st, b.c)) == (op == "eq") else FALSE
    return None


def eq_vals(eng, st, a, b, ti, c, depth=0):
    """structural equality as a python bool, or None when unknown"""
    if depth > 4:
        return None
    if isinstance(a, (Ref,)) or isinstance(b, Ref):
        t = eng.p.types[ti] if ti is not None else {}
        if t.get("k") in ("ref",) or ti is None:
            return eq_vals(eng, st, eng.load(st, a, t.get("ty")), eng.load(st, b, t.get("ty")), t.get("ty"), c, depth + 1)
        if a == b:
            return True
        return None
    if isinstance(a, Int) or isinstance(b, Int):
        a, b = as_usize(eng, a), as_usize(eng, b)
        return decide(st, c_eq(a, b))
    if isinstance(a, Bool) and isinstance(b, Bool):
        return decide(st, a.c) == decide(st, b.c)
    t = eng.p.types[ti] if ti is not None else {}
    n, pay_tys = enum_info(eng, ti)
    if n is None:
        if isinstance(a, Word) and isinstance(b, Word) and not a.p and not b.p:
            return True
        if isinstance(a, Obj) and isinstance(b, Obj) and a.tag == b.tag == "Range":
            la, lb = range_parts(eng, st, a), range_parts(eng, st, b)
            return decide(st, c_eq(la[0], lb[0])) and decide(st, c_eq(la[1], lb[1]))
        return None
    if isinstance(a, (Obj, Sym)) and isinstance(b, (Obj, Sym)):
        if n > 2 and not pay_tys:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Obj) and y.var is not None:
                    return eng.is_variant(st, x, y.var, n)
        va, vb = eng.variant(st, a, n), eng.variant(st, b, n)
        if va != vb:
            return False
        for i, pt in enumerate(pay_tys.get(va, ())):
            r = eq_vals(eng, st, pay(eng, st, a, i, pt), pay(eng, st, b, i, pt), pt, c, depth + 1)
            if r is None or r is False:
                return r
        return True
    return None


def enum_info(eng, ti):
    if ti is None:
        return None, {}
    t = eng.p.types[ti]
    if t["k"] != "adt":
        if t["k"] == "tuple":
            return 1, {None: t.get("tys", ())}
        return None, {}
    last = t["path"].rsplit("::", 1)[-1]
    args = [x for x in t.get("args", []) if isinstance(x, int)]
    if last == "Option":
        return 2, {1: args[:1]}
    if last == "Ordering":
        return 3, {}
    if last == "Result":
        return 2, {0: args[:1], 1: args[1:2]}
    a = eng.p.adts.get(t["def"])
    if a and len(a["variants"]) > 1 and all(not v["fields"] for v in a["variants"]):
        return len(a["variants"]), {}
    return None, {}


@model("PartialEq.eq", "PartialEq.ne")
def _(eng, st, c):
    ti = argty(eng, c, 0)
    ti = eng.p.types[ti].get("ty") if ti is not None and eng.p.types[ti]["k"] == "ref" else None
    try:
        a, b = eng.load(st, c.args[0], ti), eng.load(st, c.args[1], ti)
    except Stuck:
        return UNCH
    r = eq_vals(eng, st, a, b, ti, c)
    if r is None:
        if isinstance(a, Word) and isinstance(b, Word) or isinstance(a, Ref):
            return UNCH
        return user(eng, st, c)
    return one(st, TRUE if r == (c.name == "eq") else FALSE)


@model("PartialOrd.lt", "PartialOrd.le", "PartialOrd.gt", "PartialOrd.ge")
def _(eng, st, c):
    r = cmp_vals(eng, st, ldt(eng, st, c, 0), ldt(eng, st, c, 1), c.name, c)
    return one(st, r) if r is not None else user(eng, st, c)


def ordering(st, x, y):
    if decide(st, c_lt(x, y)):
        return Obj("Ordering", 0)
    return Obj("Ordering", 1 if decide(st, c_eq(x, y)) else 2)


@model("Ord.cmp")
def _(eng, st, c):
    a, b = ldt(eng, st, c, 0), ldt(eng, st, c, 1)
    if isinstance(a, Int) and isinstance(b, Int):
        return one(st, ordering(st, a.l, b.l))
    return user(eng, st, c)


@model("PartialOrd.partial_cmp")
def _(eng, st, c):
    a, b = ldt(eng, st, c, 0), ldt(eng, st, c, 1)
    if isinstance(a, Int) and isinstance(b, Int):
        return one(st, some(ordering(st, a.l, b.l)))
    return user(eng, st, c)


def user(eng, st, c):
    """a trait method of an element type: user code"""
    eng.user_seen(st, c.args, c)
    st.event("user", c.path, tuple(c.args), c.span)
    return one(st, eng.mk(("user", c.path, eng.answer(st, c.args, c)), c.retty))


@model("Ordering.is_lt", "Ordering.is_gt", "Ordering.is_eq", "Ordering.is_ne", "Ordering.is_le", "Ordering.is_ge")
def _(eng, st, c):
    want, same = {"is_lt": (0, True), "is_gt": (2, True), "is_eq": (1, True), "is_ne": (1, False), "is_le": (2, False), "is_ge": (0, False)}[lookup(c.path)[1]]
    r = eng.is_variant(st, c.args[0], want, 3) == same
    return one(st, TRUE if r else FALSE)


@model("Ordering.reverse")
def _(eng, st, c):
    return one(st, Obj("Ordering", 2 - eng.variant(st, c.args[0], 3)))


@model("Ordering.then", "Ordering.then_with")
def _(eng, st, c):
    v = ld(eng, st, c.args[0])
    if eng.variant(st, v, 3) != 1:
        return one(st, v)
    if c.name == "then":
        return one(st, c.args[1])
    return eng.call_value(st.copy(), c.args[1], [], c)


@model("Not.not")
def _(eng, st, c):
    v = ld(eng, st, c.args[0])
    return one(st, Bool(negate(v.c))) if isinstance(v, Bool) else UNCH


@model("bool.then", "then")
def _(eng, st, c):
    v = c.args[0]
    if not isinstance(v, Bool):
        return UNCH
    if not decide(st, v.c):
        return one(st, NONE)
    return [(s, some(x)) for s, x in eng.call_value(st, c.args[1], [], c)]


@model("bool.then_some", "then_some")
def _(eng, st, c):
    v = c.args[0]
    if not isinstance(v, Bool):
        return UNCH
    return one(st, some(c.args[1]) if decide(st, v.c) else NONE)


# ---------------------------------------------------------------- memory
@model("mem.replace", "ptr.replace")
def _(eng, st, c):
    v = eng.load(st, c.args[0], strip1(eng, argty(eng, c, 0)))
    eng.store(st, c.args[0], c.args[1])
    return one(st, v)


def strip1(eng, ti):
    return eng.p.types[ti].get("ty") if ti is not None and eng.p.types[ti]["k"] in ("ref", "ptr") else None


@model("mem.take")
def _(eng, st, c):
    v = eng.load(st, c.args[0])
    if isinstance(v, Word):
        eng.store(st, c.args[0], Word())
    elif isinstance(v, Int):
        eng.store(st, c.args[0], Int(0))
    elif isinstance(v, Obj) and v.tag == "Option":
        eng.store(st, c.args[0], NONE)
    else:
        return UNCH
    return one(st, v)


@model("mem.swap", "ptr.swap")
def _(eng, st, c):
    st.event("swap", c.args[0], c.args[1], c.span)
    ti = strip1(eng, argty(eng, c, 0))
    a, b = eng.load(st, c.args[0], ti), eng.load(st, c.args[1], ti)
    eng.store(st, c.args[0], b)
    eng.store(st, c.args[1], a)
    return one(st, UNIT)


@model("mem.drop", "drop")
def _(eng, st, c):
    st.event("drop", c.args[0], c.span)
    return one(st, UNIT)


@model("mem.forget")
def _(eng, st, c):
    return one(st, UNIT)


@model("ptr.read", "read")
def _(eng, st, c):
    if isinstance(c.args[0], (Ref, Sym)):
        return one(st, eng.load(st, c.args[0], c.retty))
    return UNCH


@model("ptr.write", "write")
def _(eng, st, c):
    if isinstance(c.args[0], (Ref, Sym)) and len(c.args) == 2:
        eng.store(st, c.args[0], c.args[1])
        return one(st, UNIT)
    return UNCH


IDENT = ("ManuallyDrop.new", "ManuallyDrop.into_inner", "SharedPointer.new", "SharedPointer.make_mut", "NonNull.as_ptr",
         "NonNull.new_unchecked", "NonNull.as_ref", "NonNull.as_mut", "Box.new", "MaybeUninit.new", "MaybeUninit.assume_init", "MaybeUninit.as_ptr",
         "MaybeUninit.as_mut_ptr", "MaybeUninit.assume_init_ref", "MaybeUninit.assume_init_mut", "Deref.deref", "DerefMut.deref_mut",
         "Borrow.borrow", "BorrowMut.borrow_mut", "AsRef.as_ref", "AsMut.as_mut", "hint.must_use", "hint.black_box", "convert.identity", "Into.into", "From.from",
         "mut_ptr.cast", "const_ptr.cast", "mut_ptr.cast_const", "const_ptr.cast_mut", "Vec.as_slice", "Vec.as_mut_slice",
         "Vec.into_boxed_slice", "slice.as_ptr", "slice.as_mut_ptr", "Box.leak", "Vec.leak", "MaybeUninit.write")


@model(*[x for x in IDENT if x != "MaybeUninit.write"])
def _(eng, st, c):
    return one(st, c.args[0])


@model("MaybeUninit.write")
def _(eng, st, c):
    eng.store(st, c.args[0], c.args[1])
    return one(st, c.args[0])


@model("MaybeUninit.uninit")
def _(eng, st, c):
    return one(st, UNINIT)


@model("MaybeUninit.assume_init_read")
def _(eng, st, c):
    return one(st, eng.load(st, c.args[0], c.retty))


@model("NonNull.new")
def _(eng, st, c):
    return one(st, some(c.args[0]))


@model("mut_ptr.as_ref", "const_ptr.as_ref", "mut_ptr.as_mut")
def _(eng, st, c):
    return one(st, some(c.args[0]))


@model("ManuallyDrop.drop")
def _(eng, st, c):
    st.event("mdrop", c.args[0], c.span)
    return one(st, UNIT)


@model("mut_ptr.add", "const_ptr.add", "NonNull.add")
def _(eng, st, c):
    a, b = c.args
    if isinstance(a, Ref) and isinstance(b, Int):
        if a.path and a.path[-1][0] == "at":
            return one(st, Ref(a.root, a.path[:-1] + (("at", a.path[-1][1] + b.l),)))
        return one(st, Ref(a.root, a.path + (("at", b.l),)))
    if isinstance(a, Sym) and isinstance(b, Int):
        return one(st, Ref(("*", a.n), (("at", b.l),)))
    return UNCH


@model("Clone.clone", "ToOwned.to_owned", "Clone.clone_from")
def _(eng, st, c):
    if c.name == "clone_from":
        return UNCH
    ti = argty(eng, c, 0)
    inner = strip1(eng, ti)
    v = eng.load(st, c.args[0], inner)
    s = eng.p.types[inner]["s"] if inner is not None else ""
    if isinstance(v, (Int, Bool, Ref, Word)):
        return one(st, v)
    if isinstance(v, Obj) and v.tag in ("Range", "Option", "Ordering", "RangeInclusive", "RangeFull", "Bound", "tuple") or \
            isinstance(v, Obj) and v.tag in ITERS:
        return one(st, v)
    if isinstance(v, Sym) and inner is not None:
        t = eng.p.types[inner]
        if t["k"] in ("ref", "ptr", "int", "bool"):
            return one(st, v)
        if t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] in ("Range", "SharedPointer", "ManuallyDrop", "Option", "Vec", "NonNull"):
            return one(st, v)
    if "SharedPointer" in s or "ManuallyDrop" in s:
        return one(st, v)
    if isinstance(v, Obj) and v.tag.startswith("closure:"):
        return one(st, v)
    return eng.clone_value(st, c, v, inner)


@model("SharedPointer.clone")
def _(eng, st, c):
    return one(st, eng.load(st, c.args[0]))


@model("SharedPointer.ptr_eq", "ptr.eq", "SharedPointer.strong_count")
def _(eng, st, c):
    return one(st, eng.mk(("ident", c.site), c.retty))


# ---------------------------------------------------------------- callables
@model("Fn.call", "FnMut.call_mut", "FnOnce.call_once")
def _(eng, st, c):
    a = c.args[1]
    if isinstance(a, Obj):
        args = [a.f[i] for i in sorted(a.f)]
    else:
        return UNCH
    return eng.call_value(st, c.args[0], args, c)


# ---------------------------------------------------------------- vectors and slices
def word_at(eng, st, r):
    """(reference to the word, word) behind a reference to a Vec / slice"""
    n = 0
    while n < 4:
        if isinstance(r, Sym):
            r = Ref(("*", r.n))
        if not isinstance(r, Ref):
            raise Stuck("not a sequence: %r" % (r,))
        v = eng.load(st, r)
        if isinstance(v, Ref):
            r = v
            n += 1
            continue
        if isinstance(v, Sym):
            w = eng.as_word(st, v, r)
            if w is not None:
                return r, w
        if isinstance(v, Word):
            return r, v
        raise Stuck("not a sequence: %r" % (v,))
    raise Stuck("sequence")


def elem_ref(r, l):
    """reference to element l of the sequence behind r (looking through a sub-slice)"""
    if r.path and r.path[-1][0] == "sl":
        return Ref(r.root, r.path[:-1] + (("at", r.path[-1][1] + l),))
    return Ref(r.root, r.path + (("at", l),))


@model("Vec.new", "Vec.with_capacity", "Default.default")
def _(eng, st, c):
    if c.name == "default":
        t = eng.p.types[c.retty] if c.retty is not None else {}
        if t.get("k") == "int":
            return one(st, Int(0))
        if t.get("k") == "bool":
            return one(st, FALSE)
        last = t.get("path", "").rsplit("::", 1)[-1]
        if last == "Option":
            return one(st, NONE)
        if last != "Vec":
            return UNCH
    return one(st, Word())


@model("Vec.len", "slice.len")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    return one(st, Int(w.length()))


@model("Vec.is_empty", "slice.is_empty")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    return one(st, Bool(c_eq(w.length(), const(0))))


@model("Vec.push")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    eng.store(st, r, Word(norm_pieces(st, list(w.p) + [eng.piece_of(st, c.args[1])])))
    return one(st, UNIT)


@model("Vec.pop")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    n = w.length()
    if decide(st, c_eq(n, const(0))):
        return one(st, NONE)
    v = eng.word_get(st, w, n - 1)
    a, b = eng.word_cut(st, w, n - 1)
    eng.store(st, r, Word(norm_pieces(st, a.p)))
    return one(st, some(v))


@model("Vec.insert")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    i = c.args[1].l
    if not decide(st, c_le(i, w.length())):
        raise Diverge("insert out of bounds")
    a, b = eng.word_cut(st, w, i)
    eng.store(st, r, Word(norm_pieces(st, list(a.p) + [eng.piece_of(st, c.args[2])] + list(b.p))))
    return one(st, UNIT)


@model("Vec.remove", "Vec.swap_remove")
def _(eng, st, c):
    if lookup(c.path)[1] == "swap_remove":
        return UNCH
    r, w = word_at(eng, st, c.args[0])
    i = c.args[1].l
    if not decide(st, c_lt(i, w.length())):
        raise Diverge("remove out of bounds")
    v = eng.word_get(st, w, i)
    a, b = eng.word_cut(st, w, i)
    _, b = eng.word_cut(st, b, const(1))
    eng.store(st, r, Word(norm_pieces(st, list(a.p) + list(b.p))))
    return one(st, v)


@model("Vec.split_off")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    i = c.args[1].l
    if not decide(st, c_le(i, w.length())):
        raise Diverge("split_off out of bounds")
    a, b = eng.word_cut(st, w, i)
    eng.store(st, r, Word(norm_pieces(st, a.p)))
    return one(st, Word(norm_pieces(st, b.p)))


@model("Vec.truncate")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    i = c.args[1].l
    if decide(st, c_lt(i, w.length())):
        a, b = eng.word_cut(st, w, i)
        eng.store(st, r, Word(norm_pieces(st, a.p)))
        st.event("discard", b, c.span)
    return one(st, UNIT)


@model("Vec.clear")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    st.event("discard", w, c.span)
    eng.store(st, r, Word())
    return one(st, UNIT)


@model("Vec.append")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    r2, w2 = word_at(eng, st, c.args[1])
    eng.store(st, r2, Word())
    eng.store(st, r, Word(norm_pieces(st, list(w.p) + list(w2.p))))
    return one(st, UNIT)


def rev_word(st, w):
    return Word(norm_pieces(st, [("S", x[1], x[2], x[3], not x[4]) if x[0] == "S" else x for x in reversed(w.p)]))


@model("slice.reverse")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    eng.store(st, r, rev_word(st, w))
    return one(st, UNIT)


@model("slice.first", "slice.first_mut", "slice.last", "slice.last_mut")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    n = w.length()
    if decide(st, c_eq(n, const(0))):
        return one(st, NONE)
    return one(st, some(elem_ref(r, const(0) if lookup(c.path)[1].startswith("first") else n - 1)))


@model("slice.get", "slice.get_mut", "Vec.get", "Vec.get_mut")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    if not isinstance(c.args[1], Int):
        return UNCH
    i = c.args[1].l
    return one(st, some(elem_ref(r, i)) if decide(st, c_lt(i, w.length())) else NONE)


@model("slice.get_unchecked", "slice.get_unchecked_mut")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    if not isinstance(c.args[1], Int):
        return UNCH
    return one(st, elem_ref(r, c.args[1].l))


@model("Index.index", "IndexMut.index_mut")
def _(eng, st, c):
    i = c.args[1]
    r, w = word_at(eng, st, c.args[0])
    n = w.length()
    if isinstance(i, Int):
        if not decide(st, c_lt(i.l, n)):
            raise Diverge("index out of bounds")
        return one(st, elem_ref(r, i.l))
    lo, hi = slice_bounds(eng, st, i, n)
    return one(st, sub_slice(r, lo, hi))


def slice_bounds(eng, st, i, n):
    if not isinstance(i, Obj):
        raise Stuck("slice index %r" % (i,))
    t = i.tag
    if t == "Range":
        lo, hi = as_usize(eng, i.f[0]), as_usize(eng, i.f[1])
    elif t == "RangeTo":
        lo, hi = const(0), as_usize(eng, i.f[0])
    elif t == "RangeFrom":
        lo, hi = as_usize(eng, i.f[0]), n
    elif t == "RangeFull":
        lo, hi = const(0), n
    elif t == "RangeInclusive":
        lo, hi = as_usize(eng, i.f[0]), as_usize(eng, i.f[1]) + 1
    elif t == "RangeToInclusive":
        lo, hi = const(0), as_usize(eng, i.f[0]) + 1
    else:
        raise Stuck("slice index %s" % t)
    if not decide(st, c_le(lo, hi)) or not decide(st, c_le(hi, n)):
        raise Diverge("slice out of bounds")
    return lo, hi


def sub_slice(r, lo, hi):
    if r.path and r.path[-1][0] == "sl":
        b = r.path[-1][1]
        return Ref(r.root, r.path[:-1] + (("sl", b + lo, b + hi),))
    return Ref(r.root, r.path + (("sl", lo, hi),))


@model("slice.split_at_mut", "slice.split_at")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    n = w.length()
    i = c.args[1].l
    if not decide(st, c_le(i, n)):
        raise Diverge("split out of bounds")
    return one(st, tup(sub_slice(r, const(0), i), sub_slice(r, i, n)))


@model("slice.swap")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    a, b = c.args[1].l, c.args[2].l
    n = w.length()
    if not decide(st, c_lt(a, n)) or not decide(st, c_lt(b, n)):
        raise Diverge("swap out of bounds")
    st.event("swap", elem_ref(r, a), elem_ref(r, b), c.span)
    x, y = eng.word_get(st, w, a), eng.word_get(st, w, b)
    if decide(st, c_eq(a, b)):
        return one(st, UNIT)
    w = eng.word_set(st, w, a, y)
    eng.store(st, r, eng.word_set(st, w, b, x))
    return one(st, UNIT)


@model("boxed.box_assume_init_into_vec_unsafe", "slice.into_vec", "slice.to_vec")
def _(eng, st, c):
    v = c.args[0]
    if isinstance(v, Ref):
        v = eng.load(st, v)
    n = 0
    while isinstance(v, Obj) and v.tag == "?" and len(v.f) == 1 and n < 4:
        v = next(iter(v.f.values()))
        n += 1
    if isinstance(v, Word):
        return one(st, v)
    return UNCH


@model("Box.new_uninit")
def _(eng, st, c):
    root = ("H", ("box", c.site))
    st.mem[root] = MOVED
    return one(st, Ref(root))


# ---------------------------------------------------------------- iterators
# ("it", r, lo, hi): positions lo..hi of the word behind r ; adaptors wrap other iterators
ITERS = {"it", "ints", "enumerate", "revit", "map", "chain", "once", "zip", "copied", "skipit", "takeit", "Range", "drain", "filterit",
         "peekit", "inspectit", "stepit", "takewhile"}


@model("slice.iter", "slice.iter_mut", "Vec.iter", "Vec.iter_mut")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    n = w.length()
    if r.path and r.path[-1][0] == "sl":
        b = r.path[-1][1]
        return one(st, Obj("it", None, {0: Ref(r.root, r.path[:-1]), 1: Int(b), 2: Int(b + n)}))
    return one(st, Obj("it", None, {0: r, 1: Int(0), 2: Int(n)}))


@model("IntoIterator.into_iter")
def _(eng, st, c):
    v = c.args[0]
    if isinstance(v, Obj) and v.tag in ITERS:
        return one(st, v)
    if isinstance(v, Obj) and v.tag in ("RangeInclusive",):
        return one(st, Obj("Range", None, {0: v.f[0], 1: Int(as_usize(eng, v.f[1]) + 1)}))
    if isinstance(v, Obj) and v.tag == "Option":
        return one(st, Obj("once", None, {0: v}))
    if isinstance(v, (Ref, Sym)):
        n = tyname(eng, c, 0)
        ti = argty(eng, c, 0)
        t = eng.p.types[ti] if ti is not None else {}
        if t.get("k") in ("ref", "ptr"):
            try:
                return TABLE[("slice", "iter")](eng, st, c)
            except Stuck:
                pass
            x = ld(eng, st, v)
            if isinstance(x, Obj) and x.tag in ITERS:
                return one(st, v)
        if isinstance(v, Sym) and t.get("k") == "adt" and t["path"].rsplit("::", 1)[-1] == "Range":
            return one(st, Obj("Range", None, {0: eng.payload(st, v, 0, c_usize(eng)), 1: eng.payload(st, v, 1, c_usize(eng))}))
        # the identity for anything that already is an iterator
        if (c.ref.get("res_path") or "").startswith("<I as"):
            return one(st, v)
    if isinstance(v, Word):
        root = ("H", ("intoiter", c.site))
        st.mem[root] = v
        return one(st, Obj("it", None, {0: Ref(root), 1: Int(0), 2: Int(v.length()), 3: TRUE}))
    if isinstance(v, Obj) and not v.tag.startswith("closure"):
        if (c.ref.get("res_path") or "").startswith("<I as"):
            return one(st, v)
    return UNCH


def c_usize(eng):
    u = getattr(eng, "_usize", None)
    if u is None:
        u = next(i for i, t in enumerate(eng.p.types) if t["k"] == "int" and t["s"] == "usize")
        eng._usize = u
    return u


@model("iter.once")
def _(eng, st, c):
    return one(st, Obj("once", None, {0: some(c.args[0])}))


@model("iter.empty")
def _(eng, st, c):
    return one(st, Obj("once", None, {0: NONE}))


@model("Iterator.enumerate")
def _(eng, st, c):
    return one(st, Obj("enumerate", None, {0: plain(eng, c.args[0]), 1: Int(0)}))


def plain(eng, v):
    """a..=b that nothing was taken from yet, as a..b+1"""
    if isinstance(v, Obj) and v.tag == "RangeInclusive":
        if isinstance(v.f.get(2), Bool) and v.f[2].c == ("F",):
            return Obj("Range", None, {0: v.f[0], 1: Int(as_usize(eng, v.f[1]) + 1)})
    return v


@model("Iterator.rev")
def _(eng, st, c):
    return one(st, Obj("revit", None, {0: plain(eng, c.args[0])}))


@model("Iterator.map")
def _(eng, st, c):
    return one(st, Obj("map", None, {0: plain(eng, c.args[0]), 1: c.args[1]}))


@model("Iterator.filter")
def _(eng, st, c):
    return one(st, Obj("filterit", None, {0: plain(eng, c.args[0]), 1: c.args[1]}))


@model("Iterator.copied", "Iterator.cloned")
def _(eng, st, c):
    return one(st, Obj("copied", None, {0: c.args[0]}))


@model("Iterator.by_ref")
def _(eng, st, c):
    return one(st, c.args[0])


@model("Iterator.chain")
def _(eng, st, c):
    return one(st, Obj("chain", None, {0: plain(eng, c.args[0]), 1: plain(eng, c.args[1])}))


@model("Iterator.zip")
def _(eng, st, c):
    b = c.args[1]
    if isinstance(b, (Ref,)):
        r, w = word_at(eng, st, b)
        b = Obj("it", None, {0: r, 1: Int(0), 2: Int(w.length())})
    return one(st, Obj("zip", None, {0: plain(eng, c.args[0]), 1: plain(eng, b)}))


def seeded(v):
    """does the iterator support moving its ends without running user code?"""
    return isinstance(v, Obj) and (v.tag in ("it", "Range", "ints") or v.tag in ("enumerate", "revit", "copied", "once", "map", "chain", "zip") and
                                   all(seeded(x) for x in v.f.values() if isinstance(x, Obj) and x.tag in ITERS))


def it_len(eng, st, v):
    t = v.tag
    if t in ("it", "ints"):
        return v.f[2].l - v.f[1].l
    if t == "Range":
        lo, hi = range_parts(eng, st, v)
        return hi - lo if decide(st, c_le(lo, hi)) else const(0)
    if t in ("enumerate", "revit", "map", "copied", "inspectit"):
        return it_len(eng, st, v.f[0])
    if t == "once":
        return const(1) if opt(eng, st, v.f[0]) == 1 else const(0)
    if t == "chain":
        return it_len(eng, st, v.f[0]) + it_len(eng, st, v.f[1])
    if t == "zip":
        a, b = it_len(eng, st, v.f[0]), it_len(eng, st, v.f[1])
        return a if decide(st, c_le(a, b)) else b
    raise Stuck("length of iterator %s" % t)


def it_skip(eng, st, v, n):
    """drop n items from the front"""
    t = v.tag
    m = it_len(eng, st, v)
    if not decide(st, c_le(n, m)):
        n = m
    if n == const(0):
        return v
    if t in ("it", "ints"):
        return Obj(t, None, {**v.f, 1: Int(v.f[1].l + n)})
    if t == "Range":
        return Obj(t, None, {0: Int(as_usize(eng, v.f[0]) + n), 1: v.f[1]})
    if t == "enumerate":
        return Obj(t, None, {0: it_skip(eng, st, v.f[0], n), 1: Int(v.f[1].l + n)})
    if t in ("map", "copied"):
        return Obj(t, None, {**v.f, 0: it_skip(eng, st, v.f[0], n)})
    if t == "revit":
        return Obj(t, None, {0: it_take(eng, st, v.f[0], m - n)})
    if t == "zip":
        return Obj(t, None, {0: it_skip(eng, st, v.f[0], n), 1: it_skip(eng, st, v.f[1], n)})
    if t == "once":
        return Obj(t, None, {0: NONE if decide(st, c_le(const(1), n)) else v.f[0]})
    if t == "chain":
        a = it_len(eng, st, v.f[0])
        if decide(st, c_le(n, a)):
            return Obj(t, None, {0: it_skip(eng, st, v.f[0], n), 1: v.f[1]})
        return it_skip(eng, st, v.f[1], n - a)
    raise Stuck("skip of %s" % t)


def it_take(eng, st, v, n):
    """keep the first n items"""
    t = v.tag
    m = it_len(eng, st, v)
    if not decide(st, c_lt(n, m)):
        return v
    if t in ("it", "ints"):
        return Obj(t, None, {**v.f, 2: Int(v.f[1].l + n)})
    if t == "Range":
        return Obj(t, None, {0: v.f[0], 1: Int(as_usize(eng, v.f[0]) + n)})
    if t in ("enumerate", "map", "copied"):
        return Obj(t, None, {**v.f, 0: it_take(eng, st, v.f[0], n)})
    if t == "revit":
        return Obj(t, None, {0: it_skip(eng, st, v.f[0], m - n)})
    if t == "zip":
        return Obj(t, None, {0: it_take(eng, st, v.f[0], n), 1: it_take(eng, st, v.f[1], n)})
    if t == "once":
        return Obj(t, None, {0: NONE})
    if t == "chain":
        a = it_len(eng, st, v.f[0])
        if decide(st, c_le(n, a)):
            return it_take(eng, st, v.f[0], n)
        return Obj(t, None, {0: v.f[0], 1: it_take(eng, st, v.f[1], n - a)})
    raise Stuck("take of %s" % t)


@model("Iterator.skip")
def _(eng, st, c):
    v = plain(eng, c.args[0])
    if seeded(v) and isinstance(c.args[1], Int):
        return one(st, it_skip(eng, st, v, c.args[1].l))
    return one(st, Obj("skipit", None, {0: c.args[0], 1: c.args[1]}))


@model("Iterator.take")
def _(eng, st, c):
    v = plain(eng, c.args[0])
    if seeded(v) and isinstance(c.args[1], Int):
        return one(st, it_take(eng, st, v, c.args[1].l))
    return one(st, Obj("takeit", None, {0: c.args[0], 1: c.args[1]}))


def it_next(eng, st, v, c, back=False):
    """[(state, new iterator, None or item)]"""
    t = v.tag
    if t in ("it", "ints"):
        lo, hi = v.f[1].l, v.f[2].l
        if not decide(st, c_lt(lo, hi)):
            return [(st, v, None)]
        i = hi - 1 if back else lo
        nv = Obj(t, None, {**v.f, 2: Int(hi - 1)} if back else {**v.f, 1: Int(lo + 1)})
        r = v.f[0]
        x = Ref(r.root, r.path + (("at", i),))
        if 3 in v.f:
            x = eng.load(st, x)
        return [(st, nv, x)]
    if t == "Range":
        lo, hi = range_parts(eng, st, v)
        if not decide(st, c_lt(lo, hi)):
            return [(st, v, None)]
        if back:
            return [(st, Obj("Range", None, {0: Int(lo), 1: Int(hi - 1)}), Int(hi - 1))]
        return [(st, Obj("Range", None, {0: Int(lo + 1), 1: Int(hi)}), Int(lo))]
    if t == "revit":
        return [(s, Obj(t, None, {0: n}), x) for s, n, x in any_next(eng, st, v.f[0], c, not back)]
    if t == "enumerate":
        if back:
            i = v.f[1].l + it_len(eng, st, v.f[0]) - 1
        else:
            i = v.f[1].l
        out = []
        for s, n, x in any_next(eng, st, v.f[0], c, back):
            if x is None:
                out.append((s, Obj(t, None, {0: n, 1: v.f[1]}), None))
            else:
                out.append((s, Obj(t, None, {0: n, 1: v.f[1] if back else Int(i + 1)}), tup(Int(i), x)))
        return out
    if t == "copied":
        return [(s, Obj(t, None, {0: n}), None if x is None else eng.load(s, x, None)) for s, n, x in any_next(eng, st, v.f[0], c, back)]
    if t == "map":
        out = []
        for s, n, x in any_next(eng, st, v.f[0], c, back):
            if x is None:
                out.append((s, Obj(t, None, {0: n, 1: v.f[1]}), None))
            else:
                for s2, y in eng.call_value(s.copy(), v.f[1], [x], c):
                    out.append((s2, Obj(t, None, {0: n, 1: v.f[1]}), y))
        return out
    if t == "once":
        if opt(eng, st, v.f[0]) == 0:
            return [(st, v, None)]
        return [(st, Obj("once", None, {0: NONE}), pay(eng, st, v.f[0]))]
    if t == "chain":
        a, b = (1, 0) if back else (0, 1)
        out = []
        for s, n, x in any_next(eng, st, v.f[a], c, back):
            if x is not None:
                out.append((s, Obj(t, None, {a: n, b: v.f[b]}), x))
                continue
            for s2, n2, y in any_next(eng, s, v.f[b], c, back):
                out.append((s2, Obj(t, None, {a: n, b: n2}), y))
        return out
    if t == "zip":
        if back:
            raise Stuck("zip from the back")
        out = []
        for s, n, x in any_next(eng, st, v.f[0], c, False):
            if x is None:
                out.append((s, Obj(t, None, {0: n, 1: v.f[1]}), None))
                continue
            for s2, n2, y in any_next(eng, s, v.f[1], c, False):
                out.append((s2, Obj(t, None, {0: n, 1: n2}), None if y is None else tup(x, y)))
        return out
    if t == "filterit":
        return [(s, Obj(t, None, {**v.f, 0: n}), x if hit else None) for s, n, x, hit in
                consume(eng, st, v.f[0], c, lambda s, a, x: [(s2, x, b) for s2, b in shown(eng, s, v.f[1], x, c)], None, back)]
    if t == "takewhile" and not back:
        if 2 in v.f:
            return [(st, v, None)]
        out = []
        for s, n, x in any_next(eng, st, v.f[0], c):
            if x is None:
                out.append((s, Obj(t, None, {**v.f, 0: n}), None))
                continue
            for s2, b in shown(eng, s, v.f[1], x, c):
                out.append((s2, Obj(t, None, {**v.f, 0: n, **({} if b else {2: TRUE})}), x if b else None))
        return out
    raise Stuck("iterator %s" % t)


ROUNDS = 24             # how many items a consumer of an iterator is followed through


class TooLong(Stuck):
    pass


def consume(eng, st, v, c, step, acc, back=False):
    """step(state, acc, item) -> [(state, acc, end?)] over the items: [(state, rest of the iterator, acc, ended early?)]"""
    work, out = [(st, v, acc, 0)], []
    while work:
        s, it, a, k = work.pop()
        if k > 3 and it.tag == "STREAM":
            eng.cuts += 1
            continue
        if k > ROUNDS:
            raise TooLong("a loop does not end within the bound")
        for s2, n, x in any_next(eng, s, it, c, back):
            if x is None:
                out.append((s2, n, a, False))
                continue
            for s3, a2, end in step(s2.copy(), a, x):
                if end:
                    out.append((s3, n, a2, True))
                else:
                    work.append((s3, n, a2, k + 1))
    return out


def truths(st, b):
    """[(state, does it hold?)]"""
    if not isinstance(b, Bool):
        raise TooLong("not a condition: %r" % (b,))
    out = []
    for cond, r in ((b.c, True), (negate(b.c), False)):
        s = st.assume(cond)
        if s is not None:
            out.append((s, r))
    return out


def shown(eng, st, f, x, c):
    """what the callback f answers when it is shown x: [(state, bool)]"""
    root = ("H", ("shown", c.site, len(st.mem)))
    st = st.copy()
    st.mem[root] = x
    return [y for s, b in eng.call_value(st, f, [Ref(root)], c) for y in truths(s, b)]


def any_next(eng, st, v, c, back=False):
    if isinstance(v, Obj) and v.tag in ITERS:
        return it_next(eng, st, v, c, back)
    if isinstance(v, Obj) and v.tag == "STREAM" and not back:
        return stream_next(st, v)
    raise Stuck("iterator %r" % (v,))


def stream_next(st, v):
    """a caller's iterator: it answers the elements I[at], I[at + 1], ... up to its end, or to where take ends it"""
    k, n = v.f["at"].l, atom(("n", "I"))
    more, none = c_lt(k, n), c_le(n, k)
    if "end" in v.f:
        e = v.f["end"].l
        more, none = ("and", more, c_lt(k, e)), ("or", none, c_le(e, k))
    out = []
    s = st.assume(none)
    if s is not None:
        out.append((s, v, None))
    s = st.assume(more)
    if s is not None:
        out.append((s, Obj("STREAM", None, dict(v.f, at=Int(k + 1))), Sym(("at", "I", k))))
    return out


@model("Iterator.next", "DoubleEndedIterator.next_back")
def _(eng, st, c):
    r = c.args[0]
    v = ld(eng, st, r)
    if isinstance(v, Obj) and v.tag in ITERS:
        while isinstance(eng.load(st, r), Ref):
            r = eng.load(st, r)
        out = []
        for s, n, x in it_next(eng, st, v, c, c.name == "next_back"):
            s = s.copy()
            eng.store(s, r, n)
            out.append((s, NONE if x is None else some(x)))
        return out
    if isinstance(v, Sym) and isinstance(r, Ref) and "Range" in tyname(eng, c, 0):
        eng.store(st, r, Obj("Range", None, {0: eng.payload(st, v, 0, c_usize(eng)), 1: eng.payload(st, v, 1, c_usize(eng))}))
        return TABLE[("Iterator", "next")](eng, st, c)
    # an iterator of the caller
    if isinstance(r, Ref) and isinstance(v, Sym):
        ti = strip_refs(eng, argty(eng, c, 0))
        if ti is not None and eng.p.types[ti]["k"] in ("param", "alias"):
            st.event("user", c.path, tuple(c.args), c.span)
            n = ("unext", c.site)
            return [(st.copy(), NONE), (st.copy(), some(eng.mk(n)))]
    return UNCH


@model("Iterator.count")
def _(eng, st, c):
    v = c.args[0]
    if isinstance(v, Obj) and v.tag in ITERS:
        if v.tag in ("filterit", "takewhile"):
            pos = len(eng.log)
            try:
                return [(s, Int(k)) for s, n, k, hit in consume(eng, st, v, c, lambda s, k, x: [(s, k + 1, False)], const(0))]
            except TooLong:
                del eng.log[pos:]
                return UNCH
        return one(st, Int(it_len(eng, st, v)))
    return UNCH


@model("Iterator.last")
def _(eng, st, c):
    v = c.args[0]
    if isinstance(v, Obj) and v.tag in ITERS and seeded(v):
        return [(s, NONE if x is None else some(x)) for s, n, x in it_next(eng, st, v, c, True)]
    return UNCH


@model("Iterator.nth")
def _(eng, st, c):
    r = c.args[0]
    v = ld(eng, st, r)
    if isinstance(v, Obj) and v.tag in ITERS and seeded(v):
        v = it_skip(eng, st, v, c.args[1].l)
        out = []
        for s, n, x in it_next(eng, st, v, c):
            s = s.copy()
            eng.store(s, r, n)
            out.append((s, NONE if x is None else some(x)))
        return out
    return UNCH


@model("Iterator.take_while")
def _(eng, st, c):
    return one(st, Obj("takewhile", None, {0: plain(eng, c.args[0]), 1: c.args[1]}))


def consumer(*names):
    """a model that follows the iterator item by item; where that does not end the call is unknown"""
    def deco(f):
        @model(*names)
        def _(eng, st, c):
            r = v = c.args[0]
            while isinstance(r, Ref) and isinstance(eng.load(st, r), Ref):
                r = eng.load(st, r)
            if isinstance(r, Ref):
                v = eng.load(st, r)
            if not (isinstance(v, Obj) and (v.tag in ITERS or v.tag == "RangeInclusive" or v.tag == "STREAM" and eng.mode == "under")):
                return UNCH
            pos = len(eng.log)
            out = []
            try:
                for s, n, x in f(eng, st, plain(eng, v), c):
                    if isinstance(r, Ref):
                        s = s.copy()
                        eng.store(s, r, n)
                    out.append((s, x))
            except TooLong:
                del eng.log[pos:]
                return UNCH
            return out
    return deco


def called(eng, s, f, args, c):
    return [(s2, x) for s2, x in eng.call_value(s.copy(), f, args, c)]


@consumer("Iterator.position")
def _(eng, st, v, c):
    def step(s, k, x):
        return [(s3, k if b else k + 1, b) for s2, y in called(eng, s, c.args[1], [x], c) for s3, b in truths(s2, y)]
    return [(s, n, some(Int(k)) if hit else NONE) for s, n, k, hit in consume(eng, st, v, c, step, const(0))]


@consumer("Iterator.any", "Iterator.all")
def _(eng, st, v, c):
    want = c.name == "any"

    def step(s, a, x):
        return [(s3, a, b == want) for s2, y in called(eng, s, c.args[1], [x], c) for s3, b in truths(s2, y)]
    return [(s, n, TRUE if hit == want else FALSE) for s, n, a, hit in consume(eng, st, v, c, step, None)]


@consumer("Iterator.find")
def _(eng, st, v, c):
    def step(s, a, x):
        return [(s2, x, b) for s2, b in shown(eng, s, c.args[1], x, c)]
    return [(s, n, some(x) if hit else NONE) for s, n, x, hit in consume(eng, st, v, c, step, None)]


@consumer("Iterator.find_map")
def _(eng, st, v, c):
    def step(s, a, x):
        return [(s2, y, opt(eng, s2, y) == 1) for s2, y in called(eng, s, c.args[1], [x], c)]
    return [(s, n, y if hit else NONE) for s, n, y, hit in consume(eng, st, v, c, step, None)]


@consumer("Iterator.for_each")
def _(eng, st, v, c):
    def step(s, a, x):
        return [(s2, a, False) for s2, y in called(eng, s, c.args[1], [x], c)]
    return [(s, n, UNIT) for s, n, a, hit in consume(eng, st, v, c, step, None)]


@consumer("Iterator.fold")
def _(eng, st, v, c):
    def step(s, a, x):
        return [(s2, y, False) for s2, y in called(eng, s, c.args[2], [a, x], c)]
    return [(s, n, a) for s, n, a, hit in consume(eng, st, v, c, step, c.args[1])]


@consumer("Iterator.sum")
def _(eng, st, v, c):
    def step(s, a, x):
        x = ld(eng, s, x)
        if not isinstance(x, Int):
            raise TooLong("sum of %r" % (x,))
        return [(s, a + x.l, False)]
    return [(s, n, Int(a)) for s, n, a, hit in consume(eng, st, v, c, step, const(0))]


@consumer("Iterator.collect")
def _(eng, st, v, c):
    t = eng.p.types[c.retty] if c.retty is not None else {}
    if t.get("path", "").rsplit("::", 1)[-1] != "Vec":
        raise TooLong("collecting %s" % t.get("s"))
    return [(s, n, Word(norm_pieces(s, a))) for s, n, a, hit in
            consume(eng, st, v, c, lambda s, a, x: [(s, a + (eng.piece_of(s, x),), False)], ())]


@model("Vec.drain")
def _(eng, st, c):
    r, w = word_at(eng, st, c.args[0])
    lo, hi = slice_bounds(eng, st, plain(eng, c.args[1]), w.length())
    a, b = eng.word_cut(st, w, lo)
    m, b = eng.word_cut(st, b, hi - lo)
    eng.store(st, r, Word(norm_pieces(st, list(a.p) + list(b.p))))
    root = ("H", ("drain", c.site))
    st.mem[root] = m
    return one(st, Obj("it", None, {0: Ref(root), 1: Int(0), 2: Int(m.length()), 3: TRUE}))


@model("Iterator.size_hint")
def _(eng, st, c):
    v = ld(eng, st, c.args[0])
    if isinstance(v, Obj) and v.tag in ITERS:
        n = Int(it_len(eng, st, v))
        return one(st, tup(n, some(n)))
    return UNCH


# ---------------------------------------------------------------- random numbers: any value
@model("SeedableRng.seed_from_u64", "SeedableRng.from_seed")
def _(eng, st, c):
    return one(st, Sym(("rng", c.site)))


@model("RngCore.next_u64", "RngCore.next_u32")
def _(eng, st, c):
    return one(st, Int(atom(("rnd", c.site))))
