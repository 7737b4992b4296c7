import _blocks
EXPLANATION = ('Bounds analysis of every access to the blocks of the array-like containers, for all lengths, capacities and indices.')
ASSUMPTIONS = ("elements' constructors, destructors and assignments, and the allocator, do what their contracts say and do not throw",
               "distinct arguments denote distinct objects except in the self-assignment entry points", "sizes do not overflow", "documented preconditions on indices hold")


def run(rep):
    _blocks.run(rep, "bounds", 100)
    rep.rules = ["every element construction, destruction, copy, read and write lies inside its block", "no access to a released block", "length <= capacity at return"]
