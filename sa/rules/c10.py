"""C10: indexed access: rings, size tables, nodes, borrowed nodes and the vector's own search for a position."""
import nodespecs
from rules import c02, c07, c18


def run(ctx):
    ctx.rule("Each node is analysed over an arbitrary well-formed size table and arbitrary children: every function that changes a node must "
             "leave a table that describes the children, every function that looks up a position must answer the child that holds it with the "
             "right range; the vector, over arbitrary nodes, must pick the node that holds the position; and only positions below the length are answered. The ring under each node must hand out the slot asked for.")
    c02.run_tree(ctx, "C10")
    nodespecs.run_nodes(ctx, "C10")
    c07.contents(ctx)
    c18.run_cursors(ctx, "C10")
