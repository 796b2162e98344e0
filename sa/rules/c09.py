"""C09: the length field after every structural operation (the tree analysis of c02.py)."""
import nodespecs
from rules import c02, c18


def run(ctx):
    ctx.rule(c02.RULE + " Here: the length field equals the number of elements of the three parts.")
    c02.run_tree(ctx, "C09")
    nodespecs.run_nodes(ctx, "C09")
    c18.run_cursors(ctx, "C09")
