"""No operation gives up ownership without releasing it."""
import effects
from facts import Prog, loc_of

GIVEUP = ("mem::forget", "Box::<T>::leak", "Vec::<T, A>::leak", "into_raw", "into_raw_parts", "Vec::<T, A>::set_len", "Box::<T, A>::leak",
          "String::leak", "ManuallyDrop::<T>::take", "into_raw_with_allocator")


def run(ctx):
    p = Prog("release")
    e = effects.Effects(p)
    ctx.rule("Ownership lint over all functions reachable from the public operations: nothing is forgotten, leaked or converted "
             "to a raw owning pointer; every field wrapped in ManuallyDrop belongs to a type whose Drop releases that field on "
             "every path; element storage is released by the ring's own Drop (decided by C07).")
    roots = effects.api(p)
    par = e.reach(roots)
    # destructors of everything public are reachable by going out of scope
    drops = [k for k, b in p.bodies.items() if (b.get("implements_path") or "").endswith("Drop::drop") and p.in_scope(k)]
    par.update({k: v for k, v in e.reach(drops).items() if k not in par})
    ctx.floor("functions analysed", 150, len(par))
    for k in sorted(par):
        b = p.bodies[k]
        for bi, span, f, called in p.fnrefs(b):
            ctx.count("call sites")
            if any(f["path"].endswith(g) or f["path"].rsplit("::", 1)[-1] == g for g in GIVEUP) and not f.get("local"):
                ctx.violation("giveup:" + b["path"] + ":" + f["path"].rsplit("::", 1)[-1],
                              "%s gives up ownership through %s, so what it owned is never released" % (b["path"], f["path"]),
                              loc_of(span), e.trace(par, k))
    # ManuallyDrop fields
    nmd = 0
    for ak, a in p.adts.items():
        if "annotated_basic" in ak:
            continue
        for v in a["variants"]:
            for i, fd in enumerate(v["fields"]):
                t = p.types[fd["ty"]]
                if t["k"] == "adt" and t["path"].endswith("ManuallyDrop"):
                    nmd += 1
                    path = a.get("path") or ak
                    db = [k for k in drops if (p.self_adt(p.bodies[k]) or "") == path or ak.endswith(p.self_adt(p.bodies[k]) or "\0")]
                    key = "manual:%s.%s" % (ak, fd.get("name", i))
                    if not db:
                        ctx.violation(key, "field %s of %s is wrapped in ManuallyDrop but the type has no destructor" % (fd.get("name", i), ak), ak)
                        continue
                    if releases(p, p.bodies[db[0]], i):
                        ctx.ok(key)
                    else:
                        ctx.violation(key, "the destructor of %s can return without releasing its ManuallyDrop field %s" % (ak, fd.get("name", i)),
                                      p.bodies[db[0]]["span"])
    ctx.count("ManuallyDrop fields", nmd)
    for k in drops:
        ctx.ok("drop:" + p.bodies[k]["path"])
    ctx.floor("destructors", 6, len(drops))


def releases(p, b, field):
    """every path from entry to return passes a ManuallyDrop::drop/take/into_inner call on (a borrow of) the field"""
    rel = set()
    for bi, bl in enumerate(b["blocks"]):
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "const" and "fn" in t[1][1]:
            f = t[1][1]["fn"]
            if "ManuallyDrop" in f["path"] and f["path"].rsplit("::", 1)[-1] in ("drop", "take", "into_inner"):
                rel.add(bi)
            elif f["key"] in p.bodies and releases(p, p.bodies[f["key"]], field):
                rel.add(bi)
    seen, st = set(), [0]
    while st:
        i = st.pop()
        if i in seen or i in rel:
            continue
        seen.add(i)
        t = b["blocks"][i]["t"]
        if t[0] == "return":
            return False
        for s in succ(t):
            if not b["blocks"][s]["cleanup"]:
                st.append(s)
    return True


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []
