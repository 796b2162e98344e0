"""Send/Sync exactness, decided by type-level witnesses."""
import witness

PRE = """extern crate librrb;
use std::marker::PhantomData;
#[derive(Clone, Debug)] pub struct Both(i32);
#[derive(Clone, Debug)] pub struct SendOnly(PhantomData<std::cell::Cell<i32>>);
#[derive(Clone, Debug)] pub struct SyncOnly(PhantomData<std::sync::MutexGuard<'static, i32>>);
#[derive(Clone, Debug)] pub struct Neither(PhantomData<*const i32>);
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn send_v<T: Send>(_: T) {}
fn sync_v<T: Sync>(_: T) {}
"""
ELEMS = ["Both", "SendOnly", "SyncOnly", "Neither"]
TYPES = ["Vector", "Focus", "FocusMut", "Iter", "IterMut", "IntoIter"]


def name_of(fam, ty, el):
    if ty == "Vector":
        return "librrb::%sVector<%s>" % (fam, el)
    if ty == "IntoIter":
        return "<librrb::%sVector<%s> as IntoIterator>::IntoIter" % (fam, el)
    return "librrb::%s%s<'static, %s>" % (fam, ty, el)


def run(ctx):
    ctx.rule("Each row (vector family x public type x element class x {Send, Sync}) is a program that compiles only if "
             "the type has the marker. A handle over atomically counted nodes may cross threads exactly when its "
             "elements are Send + Sync; a handle over non-atomically counted nodes never may. Control rows prove the "
             "element classes mean what they say.")
    progs, want = {}, {}
    for el in ELEMS:
        for tr in ("send", "sync"):
            k = "control_%s_%s" % (el, tr)
            progs[k] = PRE + "pub fn f() { %s::<%s>() }" % (tr, el)
            want[k] = el == "Both" or (el == "SendOnly" and tr == "send") or (el == "SyncOnly" and tr == "sync")
    for fam in ("Regular", "ThreadSafe"):
        for el in ELEMS:
            for tr in ("send", "sync"):
                for ty in TYPES:
                    k = "%s%s_%s_%s" % (fam, ty, el, tr)
                    progs[k] = PRE + "pub fn f() { %s::<%s>() }" % (tr, name_of(fam, ty, el))
                    want[k] = fam == "ThreadSafe" and el == "Both"
                # the guarded mutable reference may be conservative, but never more permissive than its vector
                k = "%sMutBoundGuard_%s_%s" % (fam, el, tr)
                progs[k] = PRE + "pub fn f(v: &mut librrb::%sVector<%s>) { %s_v(v.get_mut_guarded(0).unwrap()) }" % (fam, el, tr)
                want[k] = None if fam == "ThreadSafe" and el == "Both" else False
    # the guard accessor itself must exist, or the rows above would be vacuous
    progs["control_guard"] = PRE + "pub fn f(v: &mut librrb::RegularVector<Both>) { let _g = v.get_mut_guarded(0).unwrap(); }"
    want["control_guard"] = True
    res = witness.compile_all(progs)
    for k in sorted(progs):
        got, codes, text = res[k]
        ctx.count("witness programs")
        if not got and any(c not in ("E0277",) for c in codes) or (not got and not codes):
            ctx.violation("row:" + k, "the witness program no longer type-checks for another reason: %s" % text, k)
            continue
        if want[k] is None or got == want[k]:
            ctx.ok("row:" + k)
        elif got:
            ctx.violation("row:" + k, "%s has the %s marker although sharing it between threads is unsound for that element "
                          "class or pointer family" % (k.rsplit("_", 1)[0], k.rsplit("_", 1)[1]), "marker impls reachable from " + k)
        else:
            ctx.violation("row:" + k, "%s lost the %s marker the thread-safe family promises: %s" % (
                k.rsplit("_", 1)[0], k.rsplit("_", 1)[1], text), k)
    ctx.sample({"program": progs["ThreadSafeVector_SendOnly_send"].splitlines()[-1], "compiles": res["ThreadSafeVector_SendOnly_send"][0]})
    ctx.floor("witness rows", 110, len(progs))
