"""Borrow discipline of the public API, decided by compile-fail witnesses with compiling twins."""
import witness

# name, body with «OFFENDING» statement marked by a leading '!', expected error codes
W = [
    ("iter_then_push", "let mut v: V<i32> = V::new(); let mut i = v.iter(); !v.push_back(1); i.next();", {"E0502"}),
    ("iter_then_pop", "let mut v: V<i32> = V::new(); let mut i = v.iter(); !v.pop_front(); i.next();", {"E0502"}),
    ("iter_then_clear", "let mut v: V<i32> = V::new(); let mut i = v.iter(); !v = V::new(); i.next();", {"E0506"}),
    ("iter_item_then_push", "let mut v: V<i32> = V::new(); let r = v.iter().next(); !v.push_back(1); drop(r);", {"E0502"}),
    ("iter_back_item_then_push", "let mut v: V<i32> = V::new(); let r = v.iter().next_back(); !v.push_back(1); drop(r);", {"E0502"}),
    ("into_iter_ref_then_push", "let mut v: V<i32> = V::new(); let r = (&v).into_iter().next(); !v.push_back(1); drop(r);", {"E0502"}),
    ("get_then_push", "let mut v: V<i32> = V::new(); let r = v.get(0); !v.push_front(1); drop(r);", {"E0502"}),
    ("front_then_push", "let mut v: V<i32> = V::new(); let r = v.front(); !v.push_front(1); drop(r);", {"E0502"}),
    ("back_then_push", "let mut v: V<i32> = V::new(); let r = v.back(); !v.push_front(1); drop(r);", {"E0502"}),
    ("index_then_append", "let mut v: V<i32> = V::new(); let r = &v[0]; !v.append(V::new()); drop(r);", {"E0502"}),
    ("get_then_split", "let mut v: V<i32> = V::new(); let r = v.get(0); !v.split_off(0); drop(r);", {"E0502"}),
    ("get_then_sort", "let mut v: V<i32> = V::new(); let r = v.get(0); !v.sort(); drop(r);", {"E0502"}),
    ("get_mut_twice", "let mut v: V<i32> = V::new(); let r = v.get_mut(0); !v.get_mut(1); drop(r);", {"E0499"}),
    ("get_mut_then_read", "let mut v: V<i32> = V::new(); let r = v.get_mut(0); !v.get(1); drop(r);", {"E0502"}),
    ("index_mut_then_push", "let mut v: V<i32> = V::new(); let r = &mut v[0]; !v.push_back(1); drop(r);", {"E0499"}),
    ("front_mut_back_mut", "let mut v: V<i32> = V::new(); let r = v.front_mut(); !v.back_mut(); drop(r);", {"E0499"}),
    ("back_mut_then_len", "let mut v: V<i32> = V::new(); let r = v.back_mut(); !v.len(); drop(r);", {"E0502"}),
    ("guard_then_push", "let mut v: V<i32> = V::new(); let r = v.get_mut_guarded(0); !v.push_back(1); drop(r);", {"E0499"}),
    ("guard_then_clone", "let mut v: V<i32> = V::new(); let r = v.get_mut_guarded(0); !v.clone(); drop(r);", {"E0502"}),
    ("guard_deref_outlives", "let mut v: V<i32> = V::new(); let mut g = v.get_mut_guarded(0).unwrap(); let r = &mut *g; !drop(g); *r = 1;", {"E0505"}),
    ("iter_mut_twice", "let mut v: V<i32> = V::new(); let mut i = v.iter_mut(); !v.iter_mut(); i.next();", {"E0499"}),
    ("iter_mut_then_read", "let mut v: V<i32> = V::new(); let mut i = v.iter_mut(); !v.get(0); i.next();", {"E0502"}),
    ("iter_mut_item_then_push", "let mut v: V<i32> = V::new(); let r = v.iter_mut().next(); !v.push_back(1); drop(r);", {"E0499"}),
    ("iter_mut_back_item_then_push", "let mut v: V<i32> = V::new(); let r = v.iter_mut().next_back(); !v.push_back(1); drop(r);", {"E0499"}),
    ("into_iter_mut_then_clone", "let mut v: V<i32> = V::new(); let r = (&mut v).into_iter().next(); !v.clone(); drop(r);", {"E0502"}),
    ("focus_then_push", "let mut v: V<i32> = V::new(); let mut f = v.focus(); !v.push_back(1); f.get(0);", {"E0502"}),
    ("focus_get_twice", "let v: V<i32> = V::new(); let mut f = v.focus(); let r = f.get(0); !f.get(1); drop(r);", {"E0499"}),
    ("focus_index_then_narrow", "let v: V<i32> = V::new(); let mut f = v.focus(); let r = f.index(0); !f.narrow(..); drop(r);", {"E0499"}),
    ("focus_item_outlives_focus", "let v: V<i32> = V::new(); let mut f = v.focus(); let r = f.get(0); !drop(f); drop(r);", {"E0505"}),
    ("focus_split_moves", "let v: V<i32> = V::new(); let mut f = v.focus(); let s = f.split_at(0); !f.get(0); drop(s);", {"E0382"}),
    ("focus_clone_then_push", "let mut v: V<i32> = V::new(); let mut f = { let g = v.focus(); g.clone() }; !v.push_back(1); f.get(0);", {"E0502"}),
    ("focus_half_then_push", "let mut v: V<i32> = V::new(); let mut f = v.focus().split_at(0).1; !v.push_back(1); f.get(0);", {"E0502"}),
    ("focus_mut_twice", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); !v.focus_mut(); f.get(0);", {"E0499"}),
    ("focus_mut_then_read", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); !v.len(); f.get(0);", {"E0502"}),
    ("focus_mut_then_clone", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); !v.clone(); f.get(0);", {"E0502"}),
    ("focus_mut_get_twice", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let r = f.get(0); !f.get(1); drop(r);", {"E0499"}),
    ("focus_mut_index_twice", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let r = f.index(0); !f.index(1); drop(r);", {"E0499"}),
    ("focus_mut_get_then_split", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let r = f.get(0); !f.split_at(0); drop(r);", {"E0499"}),
    ("split_half_then_parent", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let (mut a, _b) = f.split_at(0); !f.get(0); a.get(0);", {"E0499"}),
    ("split_half_then_parent_right", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let (_a, mut b) = f.split_at(0); !f.get(0); b.get(0);", {"E0499"}),
    ("split_twice", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let (mut a, _b) = f.split_at(0); !f.split_at(0); a.get(0);", {"E0499"}),
    ("split_half_then_vector", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let (mut a, _b) = f.split_at(0); !v.len(); a.get(0);", {"E0502"}),
    ("nested_split_parent", "let mut v: V<i32> = V::new(); let mut f = v.focus_mut(); let (mut a, _b) = f.split_at(0); let (mut c, _d) = a.split_at(0); !a.get(0); c.get(0);", {"E0499"}),
    ("into_iter_moves", "let v: V<i32> = V::new(); let mut i = v.into_iter(); !v.len(); i.next();", {"E0382"}),
    ("append_moves", "let mut v: V<i32> = V::new(); let w: V<i32> = V::new(); v.append(w); !w.len();", {"E0382"}),
    ("prepend_moves", "let mut v: V<i32> = V::new(); let w: V<i32> = V::new(); v.prepend(w); !w.len();", {"E0382"}),
    ("dual_sort_self", "let mut v: V<i32> = V::new(); let mut w: V<i32> = V::new(); v.dual_sort(&mut w); !v.dual_sort(&mut v);", {"E0499"}),
    ("drop_while_iterating", "let v: V<i32> = V::new(); let mut i = v.iter(); !drop(v); i.next();", {"E0505"}),
    ("drop_while_focused", "let mut v: V<i32> = V::new(); let mut i = v.focus_mut(); !drop(v); i.get(0);", {"E0505"}),
    ("spine_private", "let v: V<i32> = V::new(); !&v.left_spine; drop(v);", {"E0616"}),
    ("root_private", "let v: V<i32> = V::new(); !&v.root; drop(v);", {"E0616"}),
    ("len_private", "let mut v: V<i32> = V::new(); !v.len = 3; drop(v);", {"E0616", "E0615"}),
    ("comparator_is_shared", "let mut v: V<i32> = V::new(); v.sort_by(&|a: &i32, b: &i32| { !*(a as &i32) = 1; a.cmp(b) });", {"E0594"}),
    ("no_mut_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.get_mut(0); r.len();", {"E0596"}),
    ("no_iter_mut_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.iter_mut(); r.len();", {"E0596"}),
    ("no_focus_mut_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.focus_mut(); r.len();", {"E0596"}),
    ("no_front_mut_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.front_mut(); r.len();", {"E0596"}),
    ("no_back_mut_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.back_mut(); r.len();", {"E0596"}),
    ("no_push_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.push_back(1); r.len();", {"E0596"}),
    ("no_sort_through_shared", "let v: V<i32> = V::new(); let r: &V<i32> = &v; !r.sort(); r.len();", {"E0596"}),
]

# whole-function witnesses: (name, offending program, twin program, acceptable codes or message)
F = [
    ("item_outlives_vector",
     "pub fn f() { let r; { let v: V<i32> = V::new(); r = v.get(0).cloned(); } drop(r); }",
     "pub fn f() { let r; { let v: V<i32> = V::new(); r = v.get(0); } drop(r); }", {"E0597"}),
    ("iter_item_outlives_vector",
     "pub fn f() { let r; { let v: V<i32> = V::new(); r = v.iter().next().cloned(); } drop(r); }",
     "pub fn f() { let r; { let v: V<i32> = V::new(); r = v.iter().next(); } drop(r); }", {"E0597"}),
    ("iter_mut_item_outlives_vector",
     "pub fn f() { let r; { let mut v: V<i32> = V::new(); r = v.iter_mut().next().cloned(); } drop(r); }",
     "pub fn f() { let r; { let mut v: V<i32> = V::new(); r = v.iter_mut().next(); } drop(r); }", {"E0597"}),
    ("focus_outlives_vector",
     "pub fn f() { let r; { let v: V<i32> = V::new(); r = v.focus().len(); } drop(r); }",
     "pub fn f() { let r; { let v: V<i32> = V::new(); r = v.focus(); } drop(r); }", {"E0597"}),
    ("focus_mut_outlives_vector",
     "pub fn f() { let r; { let mut v: V<i32> = V::new(); r = v.focus_mut().len(); } drop(r); }",
     "pub fn f() { let r; { let mut v: V<i32> = V::new(); r = v.focus_mut(); } drop(r); }", {"E0597"}),
    ("half_outlives_focus_mut",
     "pub fn f() { let mut v: V<i32> = V::new(); let r; { let mut f = v.focus_mut(); r = f.split_at(0).0.len(); } drop(r); }",
     "pub fn f() { let mut v: V<i32> = V::new(); let r; { let mut f = v.focus_mut(); r = f.split_at(0).0; } drop(r); }", {"E0597"}),
    ("guard_outlives_vector",
     "pub fn f() { let r; { let mut v: V<i32> = V::new(); r = v.get_mut_guarded(0).is_some(); } drop(r); }",
     "pub fn f() { let r; { let mut v: V<i32> = V::new(); r = v.get_mut_guarded(0); } drop(r); }", {"E0597"}),
    ("element_borrow_outlives_referent",
     "pub fn f() { let s = String::new(); let mut v: V<&String> = V::new(); { v.push_back(&s); } v.len(); }",
     "pub fn f() { let mut v: V<&String> = V::new(); { let s = String::new(); v.push_back(&s); } v.len(); }", {"E0597"}),
    ("iter_mut_element_lifetime",
     "pub fn f<'s>(v: &mut V<&'s str>, s: &'s str) { for x in v.iter_mut() { *x = s; } }",
     "pub fn f<'s>(v: &mut V<&'static str>, s: &'s str) { for x in v.iter_mut() { *x = s; } }", {"lifetime", "E0521"}),
    ("focus_mut_is_invariant",
     "pub fn f<'a, 's>(v: FM<'a, &'s str>) -> FM<'a, &'s str> { v }",
     "pub fn f<'a, 's>(v: FM<'a, &'static str>) -> FM<'a, &'s str> { v }", {"lifetime"}),
    ("iter_mut_is_invariant",
     "pub fn f<'a, 's>(v: IM<'a, &'s str>) -> IM<'a, &'s str> { v }",
     "pub fn f<'a, 's>(v: IM<'a, &'static str>) -> IM<'a, &'s str> { v }", {"lifetime"}),
    ("get_result_is_tied_to_vector",
     "pub fn f<'a>(v: &'a V<i32>) -> Option<&'a i32> { v.get(0) }",
     "pub fn f<'a>(v: &'a V<i32>) -> Option<&'static i32> { v.get(0) }", {"lifetime"}),
    ("get_mut_result_is_tied_to_vector",
     "pub fn f<'a>(v: &'a mut V<i32>) -> Option<&'a mut i32> { v.get_mut(0) }",
     "pub fn f<'a>(v: &'a mut V<i32>) -> Option<&'static mut i32> { v.get_mut(0) }", {"lifetime"}),
    ("iter_result_is_tied_to_vector",
     "pub fn f<'a>(v: &'a V<i32>) -> Option<&'a i32> { v.iter().next() }",
     "pub fn f<'a>(v: &'a V<i32>) -> Option<&'static i32> { v.iter().next() }", {"lifetime"}),
    # the state behind a mutable focus must not be able to outlive the focus
    ("focus_mut_state_cannot_escape",
     "pub fn f() { let n; { let mut v: V<i32> = V::new(); let f = v.focus_mut(); "
     "n = match &f { librrb::FocusMut::Rooted { focus, .. } => Some(focus.len()), _ => None }; } drop(n); }",
     "pub fn f() { let n; { let mut v: V<i32> = V::new(); let f = v.focus_mut(); "
     "n = match &f { librrb::FocusMut::Rooted { focus, .. } => Some(focus.clone()), _ => None }; } drop(n); }",
     {"E0597", "E0505", "E0599", "E0616", "E0451", "E0603"}),
]


def run(ctx):
    ctx.rule("Each witness is a pair of programs that differ by one statement or type: the accepted twin must compile and "
             "the offending one must be rejected with the expected error. Together they fix, for every program using the "
             "API, which combinations of live references and mutating calls can exist.")
    progs, meta = {}, {}
    for fam in ("Regular", "ThreadSafe"):
        pre = ("extern crate librrb;\n#[allow(dead_code)] type V<A> = librrb::%sVector<A>;\n"
               "#[allow(dead_code)] type FM<'a, A> = librrb::%sFocusMut<'a, A>;\n"
               "#[allow(dead_code)] type IM<'a, A> = librrb::%sIterMut<'a, A>;\n" % (fam, fam, fam))
        for name, body, codes in W:
            i = body.index("!")
            if name == "comparator_is_shared":
                j = body.index(";", i) + 1
            else:
                j = body.index(";", i) + 1
            bad = pre + "pub fn f() { " + body[:i] + body[i + 1:] + " }"
            good = pre + "pub fn f() { " + body[:i] + body[j:] + " }"
            k = "%s_%s" % (fam, name)
            progs[k + "_bad"], progs[k + "_good"] = bad, good
            meta[k] = codes
        for name, good, bad, codes in F:
            k = "%s_%s" % (fam, name)
            progs[k + "_bad"], progs[k + "_good"] = pre + bad, pre + good
            meta[k] = codes
    res = witness.compile_all(progs)
    for k in sorted(meta):
        ctx.count("witness pairs")
        gok, gcodes, gtext = res[k + "_good"]
        bok, bcodes, btext = res[k + "_bad"]
        if bok:
            ctx.violation("witness:" + k, "a program that holds a conflicting reference is accepted by the type checker",
                          progs[k + "_bad"].splitlines()[-1])
        elif not gok and not k.endswith("focus_mut_state_cannot_escape"):
            ctx.violation("witness:" + k, "the accepted twin no longer compiles (%s), so the witness proves nothing" % gtext,
                          progs[k + "_good"].splitlines()[-1])
        elif set(bcodes) & meta[k] or ("lifetime" in meta[k] and "lifetime" in btext) or not gok:
            ctx.ok("witness:" + k, ",".join(bcodes))
        else:
            ctx.violation("witness:" + k, "rejected for an unexpected reason (%s %s); the borrow it witnesses is no longer "
                          "what the compiler objects to" % (bcodes, btext), progs[k + "_bad"].splitlines()[-1])
    k = "Regular_iter_then_push"
    ctx.sample({"offending": progs[k + "_bad"].splitlines()[-1], "errors": res[k + "_bad"][1]})
    ctx.floor("witness pairs", 140, len(meta))
