"""C16: out-of-range requests answer None (or panic where documented) and change nothing."""
from facts import Prog
from rules import c02, c18, compose


def run(ctx):
    ctx.rule("Every indexed read, end access, pop and remove is analysed on an arbitrary well-formed vector with an unknown position: it "
             "answers exactly when the position is below the length (the indexing operators panic exactly when it is not), completes "
             "without panicking otherwise, and leaves length and contents alone when it does not answer.")
    c02.run_tree(ctx, "C16")
    n = compose.composites(ctx, Prog("release"), ("remove",), {"remove": ("answers", "unchanged")})
    ctx.floor("remove", 1, n)
    c18.run_cursors(ctx, "C16")
