"""Determinism: results depend only on the arguments and the contents."""
import effects
from facts import Prog, loc_of

DENY = ("std::io::", "std::fs::", "std::net::", "std::env::", "std::time::", "std::process::", "std::thread::",
        "std::sync::", "core::sync::", "std::os::", "std::hash::random", "std::collections::hash_map::RandomState",
        "std::hash::RandomState", "std::hash::BuildHasher", "getrandom", "rand::thread_rng", "rand::random",
        "std::alloc::", "std::backtrace", "core::arch", "std::random", "std::any::", "std::cell::", "std::hint::black_box")
DENY_NAMES = ("from_entropy", "from_os_rng", "from_rng", "thread_rng", "addr", "expose_provenance", "addr_of", "strong_count", "weak_count",
              "ptr_eq", "as_ptr_addr")
TEXT = ("std::fmt::", "core::fmt::", "std::rt::begin_panic", "core::panicking::")


def run(ctx):
    p = Prog("release")
    e = effects.Effects(p)
    ctx.rule("Call-graph effect analysis: no public operation reaches I/O, time, environment, threads, locks, entropy, "
             "reference counts, address comparison or mutable global state; pseudo-random generators are seeded from constants; "
             "pointer-to-integer conversions do not occur.")
    roots = effects.api(p)
    ctx.floor("public operations", 80, len(roots))
    seeds = 0
    for r in sorted(roots):
        par = e.reach([r])
        bad = None
        for k in par:
            b = p.bodies[k]
            for span, f, kind, tg in e.edges(k):
                path = f["path"]
                nm = path.rsplit("::", 1)[-1]
                full = f.get("res_path") or path
                if tg:
                    continue
                if path.startswith(DENY) or full.startswith(DENY) or nm in DENY_NAMES:
                    # cell/any used only as marker types never appear as calls
                    bad = (k, span, "reaches " + path)
            for bl in b["blocks"]:
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    if rv[0] == "cast" and "Expose" in str(rv[1]):
                        bad = (k, s[-1], "converts a pointer to an integer")
                    if rv[0] in ("tls", "threadlocal"):
                        bad = (k, s[-1], "reads thread-local state")
                    if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
                        if is_ptr(p, b, rv[2]):
                            bad = (k, s[-1], "compares addresses")
                t = bl["t"]
                if t[0] == "call":
                    f = t[1][1].get("fn") if t[1][0] == "const" else None
                    if f and (f.get("name") or f["path"].rsplit("::", 1)[-1]) in ("seed_from_u64", "from_seed"):
                        seeds += 1
                        if not constant(b, t[2][0]):
                            bad = (k, t[6], "seeds a generator from a non-constant")
        path = p.bodies[r]["path"]
        if bad:
            ctx.violation("ambient:" + path, "%s %s in %s" % (path, bad[2], p.bodies[bad[0]]["path"]), loc_of(bad[1]),
                          e.trace(par, bad[0]))
        else:
            ctx.ok("ambient:" + path)
        ctx.count("functions analysed", len(par))
    muts = [s["key"] for s in p.statics if s["mut"]]
    for s in muts:
        ctx.violation("static:" + str(s), "mutable global state %s" % s, str(s))
    ctx.count("statics", len(p.statics))
    ctx.count("seed sites (per entry point)", seeds)
    ctx.floor("generator seed sites", 4, seeds)


def is_ptr(p, b, o):
    if o[0] in ("copy", "move"):
        pl = o[1]
        if len(pl) == 1 or (len(pl) == 2 and pl[1] == "*"):
            t = p.types[b["locals"][pl[0]][0]] if not isinstance(b["locals"][pl[0]], dict) else p.types[b["locals"][pl[0]]["ty"]]
            return len(pl) == 1 and t["k"] == "ptr"
    return False


def constant(b, o, depth=0):
    if o[0] == "const":
        return True
    if depth > 8 or len(o[1]) != 1:
        return False
    l = o[1][0]
    if 0 < l <= b["argc"]:
        return False
    defs = [s[2] for bl in b["blocks"] for s in bl["s"] if s[0] == "=" and s[1] == [l]]
    calls = [bl["t"] for bl in b["blocks"] if bl["t"][0] == "call" and bl["t"][3] == [l]]
    if calls or not defs:
        return False
    for d in defs:
        if d[0] == "use" and not constant(b, d[1], depth + 1):
            return False
        if d[0] == "bin" and not (constant(b, d[2], depth + 1) and constant(b, d[3], depth + 1)):
            return False
        if d[0] not in ("use", "bin"):
            return False
    return True
