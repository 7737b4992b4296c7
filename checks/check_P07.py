import _blocks
EXPLANATION = ('Ownership analysis of the blocks held by the array-like containers: every path of every operation is followed symbolically, for all lengths, capacities and indices; each allocated block must end up with exactly one owner (which knows its true capacity) or be released once, with its size, to the allocator it came from.')
ASSUMPTIONS = ("elements' constructors, destructors and assignments, and the allocator, do what their contracts say and do not throw",
               "distinct arguments denote distinct objects except in the self-assignment entry points", "sizes do not overflow", "documented preconditions on indices hold")


def run(rep):
    _blocks.run(rep, "own", 100)
    rep.rules = ["a block is released at most once, with the allocated size, to its own allocator", "at return every live block has exactly one owner", "the owner's capacity is the block's", "no owner without a block has a nonzero capacity"]
