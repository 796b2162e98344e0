"""C19: levels and spine heights after every structural operation (the tree analysis of c02.py)."""
import nodespecs
from rules import c02


def run(ctx):
    ctx.rule(c02.RULE + " Here: every node sits at the level its place demands, both spines reach the root; on exact paths up to height 2 "
             "also that the outermost leaves are not empty, inner nodes keep free slots, and no operation on a well-formed vector panics.")
    c02.run_tree(ctx, "C19", always_exact=True)
    nodespecs.run_nodes(ctx, "C19")
