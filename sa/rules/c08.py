"""C08: a panic in user code never makes an element be dropped twice or read dead."""
from facts import Prog, loc_of
from absint import successors
import models
from rules import c07

FRESH = {"read", "read_unaligned", "read_volatile", "transmute_copy", "assume_init_read", "take", "from_raw", "zeroed"}
HEAL = {"write", "write_unaligned", "write_volatile", "copy", "copy_nonoverlapping", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping",
        "forget", "replace", "set_len"}
GUARDS = ("ManuallyDrop", "MaybeUninit")


def duplicates(p, c, retty):
    """does this call make a second owner of a value?"""
    own, nm = models.lookup(c["path"])
    if c.get("local") or nm not in FRESH:
        return False
    if nm in ("read", "read_unaligned", "read_volatile") and own not in ("ptr", "const_ptr", "mut_ptr", "NonNull"):
        return False
    if nm == "take" and own != "ManuallyDrop":
        return False
    if nm == "from_raw" and own not in ("Box", "Rc", "Arc", "SharedPointer"):
        return False
    return owning(p, retty)


def owning(p, ti, depth=0):
    if ti is None or depth > 4:
        return True
    t = p.types[ti]
    k = t["k"]
    if k in ("param", "alias"):
        return True
    if k == "adt":
        if t["path"].rsplit("::", 1)[-1] in GUARDS:
            return False
        return any(owning(p, x, depth + 1) for x in t["args"] if isinstance(x, int)) or bool(c_adt_drop(p, t))
    if k == "tuple":
        return any(owning(p, x, depth + 1) for x in t["tys"])
    if k == "array":
        return owning(p, t["ty"], depth + 1)
    return False


def c_adt_drop(p, t):
    return p.drop_bodies(next(i for i, x in enumerate(p.types) if x is t)) if t.get("def") in p.adts else False


def user(p, f):
    """is this a call of code the user wrote?"""
    if f.get("local") or f.get("res") in p.bodies or "trait" not in f:
        return False
    s = f.get("self")
    t = p.types[s] if isinstance(s, int) else None
    while t is not None and t["k"] in ("ref", "ptr"):
        t = p.types[t["ty"]]
    return t is not None and (t["k"] == "param" or t["k"] == "alias" and t["def"].rsplit("::", 1)[-1] in ("Item", "IntoIter"))


def runs_user(p):
    """bodies from which user code can be reached"""
    cg = p.callgraph()
    out = {k for k, b in p.bodies.items() if any(user(p, f) for _, _, f, _ in p.fnrefs(b))
           or any(bl["t"][0] == "drop" and p.types[bl["t"][4]]["k"] in ("param", "alias") for bl in b["blocks"])}
    rev = {}
    for a, cs in cg.items():
        for c in cs:
            rev.setdefault(c, set()).add(a)
    st = list(out)
    while st:
        for a in rev.get(st.pop(), ()):
            if a not in out:
                out.add(a)
                st.append(a)
    return out


def holes(p, ctx, skip):
    """from a second owner to a call of user code without closing the hole first"""
    ru = runs_user(p)
    n = 0
    for key in sorted(p.bodies):
        b = p.bodies[key]
        if p.self_adt(b) in skip:
            continue
        n += 1
        for bi, bl in enumerate(b["blocks"]):
            t = bl["t"]
            if t[0] != "call" or t[1][0] != "const" or "fn" not in t[1][1]:
                continue
            f = t[1][1]["fn"]
            retty = b["locals"][t[3][0]][0] if len(t[3]) == 1 else None
            if not duplicates(p, f, retty):
                continue
            seen, work = set(), [t[4]] if t[4] is not None else []
            bad = None
            first = True
            while work and bad is None:
                x = work.pop()
                if x in seen or x is None:
                    continue
                seen.add(x)
                u = b["blocks"][x]["t"]
                if b["blocks"][x].get("cleanup"):
                    continue
                if u[0] == "call" and u[1][0] == "const" and "fn" in u[1][1]:
                    g = u[1][1]["fn"]
                    own, nm = models.lookup(g["path"])
                    if nm in HEAL and not g.get("local") or nm == "new" and own in GUARDS:
                        continue
                    if user(p, g) or any(c in ru for c in p.callees(g)):
                        bad = (x, g, u[6])
                        break
                if u[0] == "call" and not (u[1][0] == "const" and "fn" in u[1][1]):
                    bad = (x, {"path": "a function value"}, u[6])
                    break
                work += [y for y in successors(u) if y is not None]
            name = "second owner of an element in " + b["path"]
            if bad:
                ctx.violation(name, "%s makes a second owner of a value (%s) and calls %s before the first one is overwritten or forgotten: if that panics, the value is dropped twice"
                              % (b["path"], f["path"], bad[1]["path"]), loc_of(bad[2]))
            else:
                ctx.ok(name)
    ctx.count("bodies searched for second owners", n)
    ctx.count("bodies that can reach user code", len(ru))
    ctx.ok("no function outside the buffer holds two owners of a value while user code runs")


def run(ctx):
    ctx.rule("User code is an element's Clone, Drop and comparisons, a comparator, a key function or an iterator. Inside the ring buffer: at "
             "every call of user code and every drop of an element, every buffer that exists (its own destructor's aside: nothing "
             "runs its destructor again) claims by front and len only slots that hold a live element at that moment, so that unwinding drops "
             "each element at most once. Outside the buffer: after an operation that makes a second owner of a value (ptr::read and "
             "the like), no path reaches user code before the first owner was overwritten, forgotten or wrapped in ManuallyDrop.")
    p, lab, n = c07.buffers(ctx, "release", watch=True)
    ctx.count("buffer functions", n)
    holes(p, ctx, (c07.CB,))
