"""Sorting and reversing only ever rearrange: the multiset of elements never changes, whatever the comparator does."""
import effects
from facts import Prog, loc_of

NAMES = ("sort", "sort_by", "sort_range", "sort_range_by", "sort_range_by_key", "dual_sort", "dual_sort_by", "dual_sort_range",
         "dual_sort_range_by", "dual_sort_range_by_key", "reverse", "reverse_range")
# unsharing copies a node's elements into a node the vector then owns alone; ownership of each copy is decided by C01/C07
STORAGE_FIELDS = ("circular::CircularBuffer", "vector::InternalVector")


def element_ty(p, b, ti):
    t = p.types[ti]
    return t["k"] == "alias" and t["def"].rsplit("::", 1)[-1] == "Item" and "LeafTrait" in t["def"]


def place_ty(p, b, pl):
    t = p.types[b["locals"][pl[0]][0]]
    ti = b["locals"][pl[0]][0]
    for e in pl[1:]:
        if e == "*":
            if "ty" not in t:
                return None, None
            ti = t["ty"]
        elif e[0] == "f":
            ti = e[2]
        elif e[0] == "d":
            continue
        else:
            if "ty" not in t or not isinstance(t["ty"], int):
                return None, None
            ti = t["ty"]
        t = p.types[ti]
    return ti, t


def owner_adts(p, b, pl):
    """ADTs whose fields the place goes through behind a pointer"""
    out = set()
    t = p.types[b["locals"][pl[0]][0]]
    deref = False
    for e in pl[1:]:
        if e == "*":
            deref = True
            t = p.types[t["ty"]] if isinstance(t.get("ty"), int) else {"k": "?"}
        elif e[0] == "f":
            if deref and t["k"] == "adt":
                out.add(t["path"])
            t = p.types[e[2]]
        elif e[0] == "d":
            pass
        else:
            t = p.types[t["ty"]] if isinstance(t.get("ty"), int) else {"k": "?"}
    return out


def run(ctx):
    p = Prog("release")
    e = effects.Effects(p)
    ctx.rule("Effect analysis over the call graph of the sorting and reversing operations: element values are written only by "
             "mem::swap of two element places; no reachable function stores to an element place, takes an element by value, or "
             "changes how many elements a storage block or the vector holds. A comparator that panics or answers "
             "inconsistently therefore cannot lose, duplicate or invent an element.")
    roots = [k for k in effects.api(p) if p.bodies[k].get("name") in NAMES]
    ctx.floor("rearranging public operations", 12, len(roots))
    nsw = 0
    for r in sorted(roots):
        par = e.reach([r])
        bad = None
        swaps = 0
        for k in par:
            b = p.bodies[k]
            ctor = b.get("name") in ("clone", "drop")
            for bl in b["blocks"]:
                if bl["cleanup"]:
                    continue
                for s in bl["s"]:
                    if s[0] != "=" or len(s[1]) == 1:
                        continue
                    ti, t = place_ty(p, b, s[1])
                    if ti is not None and element_ty(p, b, ti) and "*" in s[1]:
                        bad = bad or (k, s[-1], "overwrites an element")
                    for a in owner_adts(p, b, s[1]):
                        if a in STORAGE_FIELDS and not ctor:
                            bad = bad or (k, s[-1], "changes the extent of %s" % a)
                t = bl["t"]
                if t[0] != "call" or t[1][0] != "const" or "fn" not in t[1][1]:
                    continue
                f = t[1][1]["fn"]
                nm = f.get("name") or f["path"].rsplit("::", 1)[-1]
                el = any(isinstance(x, int) and element_ty(p, b, x) for x in f.get("args", []) or [])
                if nm == "swap" and f["path"].startswith(("std::mem::", "std::ptr::", "core::ptr::")):
                    if el:
                        swaps += 1
                    else:
                        x = [p.types[y].get("path") for y in f.get("args", []) if isinstance(y, int)]
                        if any(a in STORAGE_FIELDS for a in x):
                            bad = bad or (k, t[6], "exchanges whole storage blocks")
                elif el and not p.callees(f) and (f["path"].startswith(("std::mem::", "std::ptr::", "core::ptr::")) or
                                                  nm in ("write", "replace", "take", "read", "copy_from", "copy_to")):
                    bad = bad or (k, t[6], "moves element values through %s" % f["path"])
                elif any(p.types[y].get("path") in STORAGE_FIELDS for y in f.get("args", []) if isinstance(y, int)) and \
                        f["path"].startswith("std::mem::"):
                    bad = bad or (k, t[6], "replaces whole storage blocks through %s" % f["path"])
        path = p.bodies[r]["path"]
        ctx.count("functions analysed", len(par))
        nsw += swaps
        if bad:
            ctx.violation("rearrange:" + path, "%s %s in %s, which is not a rearrangement" % (path, bad[2], p.bodies[bad[0]]["path"]),
                          loc_of(bad[1]), e.trace(par, bad[0]))
        elif swaps == 0:
            ctx.violation("noswap:" + path, "%s never exchanges elements" % path, p.bodies[r]["span"])
        else:
            ctx.ok("rearrange:" + path, "%d swap sites" % swaps)
    ctx.count("element swap sites", nsw)
