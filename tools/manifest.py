"""writes MANIFEST.json from the table of claimed checks; python3 tools/manifest.py"""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("interprocedural pointer-provenance dataflow on MIR", "Sound for the provenance rule over all functions of the crate (context-sensitive summaries, trait calls resolved to the in-scope implementations): no pointer read through a reference-counted node becomes writable. Trusts archery's make_mut and rustc."),
 "C03": ("call-graph effect analysis, clone edges resolved by cloned type", "Over-approximate call graph from every read-only public operation; trusts that std only runs element Clones where its signature says so."),
 "C04": ("call-graph effect analysis against a deny list of ambient effects", "Over-approximate call graph from every public operation; the deny list names the std and dependency entry points with ambient effects."),
 "C05": ("type-level witnesses (compile / compile-fail pairs)", "rustc decides each row of the full table family x type x element class x marker; controls validate the rows. 12 rows are known findings."),
 "C06": ("compile-fail witnesses paired with compiling twins", "rustc's borrow checker decides each witness; twins differ only in the offending line. 2 witnesses are a known finding."),
 "C08": ("abstract interpretation of the buffer module with ownership obligations at every user-code point, plus a path rule for second owners", "Every call of user code reachable inside the buffer, every layout; raw second owners elsewhere are followed on all CFG paths. Assumes safe Rust unwinds correctly."),
 "C11": ("inductive typestate of iterators by abstract interpretation of the MIR", "For each iterator, position counters learnt from constructor and one call are proved inductive; every order of next/next_back/size_hint calls, every length. Cursor get (C18) and pops by contract."),
 "C12": ("abstract interpretation of the MIR (linear facts, inductive loop invariants), one run per pair of range bounds", "Proves, for every bound value, length and callback answer, the positions each range operation acts on; reports only exact, unhavocked paths. Assumes the cursor contract (C18)."),
 "C14": ("abstract interpretation of the recursive dual sorter with exchange pairing", "Proved for every length and every comparator answer; recursion and cursors by contract (C18)."),
 "C07": ("abstract interpretation of the buffer module over a word domain (slot ownership, symbolic ring layout, inductive loop invariants)", "Every method of the buffers and their views, every layout, every element type; raw pointer and MaybeUninit use outside the module is listed and judged. Caller-side contracts of private methods are assumed at their entry."),
 "C22": ("abstract interpretation of the MIR, one run per pair of range bounds", "Proved for every bound value, length and callback answer; cursor accesses by contract (C18)."),
 "C02": ("abstract interpretation of the vector's MIR over words of tree nodes; helper procedures proved and used as lemmas", "Loops of the restructuring code are summarised by the concatenation of the places that hold nodes; every height and shape for push, pop, split_off and the spine helpers; append under the documented vector invariants. Contracts of the node layer are decided separately on the node layer itself (exact up to 3 children where the general proof does not go through)."),
 "C09": ("abstract interpretation of the vector's MIR over words of tree nodes; helper procedures proved and used as lemmas", "The length field equals the sizes of the three parts after push, pop, split_off and append, every height and shape; node lengths equal the sizes of their children."),
 "C19": ("abstract interpretation of the vector's MIR over words of tree nodes, plus exact passes over small heights", "Levels of every node and spine heights proved for every height; the outermost-node and free-slot invariants decided exactly on every path of vectors up to height 2 (append: each pair of heights), failures reported only with a concrete instance."),
 "C10": ("abstract interpretation of node lookups (symbolic size tables and child counts) and of the vector's search over arbitrary nodes", "Every position, height and shape for get/get_mut/get_mut_guarded/index/front/back; node lookups for any child count; size tables after every node operation exact up to 3 children (4 at node width 4). Cursors: C18; iterators: C11."),
 "C16": ("abstract interpretation of the vector's MIR over words of tree nodes, with an unknown position", "Indexed reads, end accesses, pops and remove: answered exactly below the length, unchanged otherwise; every height and shape (pops' completeness: heights 0 to 2). Cursor accesses: C18."),
 "C18": ("abstract interpretation of the cursors' MIR over arbitrary trees, standing at an arbitrary leaf", "Read cursors over vectors of height 0 to 3 (get: 0 to 2) with unknown sizes, child counts, part and index; write cursors over up to three borrowed nodes of levels 0 to 2; failures reported only with a concrete instance."),
 "C15": ("abstract interpretation of the comparison and hashing code with the element comparisons' answers as the only unknowns", "eq, partial_cmp, cmp and hash proved for every pair of lengths; where an equivalent rewriting defeats the general proof, exact passes over all length pairs up to 3. Iteration by contract (C11)."),
 "C13": ("effect analysis over the call graph of sort/reverse", "Every write to an element value reachable from sorting and reversing is an exchange; no reachable function changes the extent of storage."),
 "C24": ("abstract interpretation of the searches' MIR with unknown borders of the equal positions (linear facts, inductive loop invariants)", "Proved for every length, range, index and position of the equal elements; searches by value or bounds are reduced to the callback they hand on, which is judged for every element. Each iteration must narrow the search, so it ends. Element access by the cursor contract (C18)."),
 "C21": ("ownership lint plus must-release analysis on destructors", "No reachable forget/leak/into_raw, ManuallyDrop fields are released on all destructor paths. One known finding."),
}
NA = {
 "C23": "Sortedness of the result is a numerical property of a data-dependent recursive partition loop over unbounded sequences; no sound static argument in reach bounds it. Its structural clauses are claimed separately (C13, C14, C22).",
 "C25": "Height, amortised time and stack depth depend on the numeric history of fill levels; the packing heuristic has no static bound in reach (sorting all-equal input already recurses linearly, see DESIGN.md).",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            t, n = CLAIMED[i]
            checks.append({"property": i, "quick_cmd": "python3 sa/check.py " + i, "thorough_cmd": "python3 sa/check.py " + i,
                           "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
        else:
            na.append({"property": i, "reason": NA.get(i, "The static analysis for this property is not built yet.")})
    json.dump({"version": 1, "setup_cmd": "python3 sa/extract.py release debug may_dangle width4", "checks": checks, "not_applicable": na,
               "notes": "All checks are static analyses of the MIR of /repo's current tree; no hooks are added to /repo. Genuine defects: known-findings.txt."},
              open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
main()
