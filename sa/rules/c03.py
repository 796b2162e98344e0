"""Reads and snapshots never run an element's Clone and never unshare storage."""
import effects
from facts import Prog, loc_of


def run(ctx):
    p = Prog("release")
    e = effects.Effects(p)
    ctx.rule("Call-graph effect analysis: from every public operation that only has shared access to a vector (including "
             "clone and the read cursors and iterators) no call chain reaches a Clone of an element type or the unsharing "
             "of a reference-counted node (make_mut / get_mut). Clone calls are resolved by the cloned type.")
    roots = effects.read_only_api(p)
    ctx.floor("read-only public operations", 30, len(roots))
    sites = 0
    for r in sorted(roots):
        par = e.reach([r])
        bad = None
        for k in par:
            for span, f, kind, tg in e.edges(k):
                sites += 1
                nm = f["path"].rsplit("::", 1)[-1]
                if kind == "element_clone":
                    bad = (k, span, "clones elements through %s" % f["path"])
                elif "SharedPointer" in f["path"] and nm in ("make_mut", "get_mut", "try_unwrap"):
                    bad = (k, span, "unshares a node through %s" % f["path"])
        path = p.bodies[r]["path"]
        key = "read:" + path
        ctx.count("functions analysed", len(par))
        if bad:
            ctx.violation(key, "the read-only operation %s %s in %s" % (path, bad[2], p.bodies[bad[0]]["path"]),
                          loc_of(bad[1]), e.trace(par, bad[0]))
        else:
            ctx.ok(key)
    ctx.count("call sites", sites)
    # positive control: the mutating operations do reach both sinks
    par = e.reach([k for k in effects.api(p) if p.bodies[k].get("name") == "push_back"])
    un = sum(1 for k in par for s, f, kd, t in e.edges(k) if f["path"].endswith("::make_mut"))
    par2 = e.reach([k for k, b in p.bodies.items() if b.get("name") == "clone" and p.self_adt(b) == "node_impls::basic::Leaf"])
    cl = sum(1 for k in par2 for s, f, kd, t in e.edges(k) if kd == "element_clone")
    ctx.floor("make_mut sites reachable from push_back (control)", 1, un)
    ctx.floor("element clone sites in the leaf clone (control)", 1, cl)
