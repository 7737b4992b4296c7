import _blocks
EXPLANATION = ('Lifetime analysis of the elements inside the blocks of the array-like containers: the ranges of live elements are tracked symbolically through loops, copies, moves and bitwise relocation.')
ASSUMPTIONS = ("elements' constructors, destructors and assignments, and the allocator, do what their contracts say and do not throw",
               "distinct arguments denote distinct objects except in the self-assignment entry points", "sizes do not overflow", "documented preconditions on indices hold")


def run(rep):
    _blocks.run(rep, "life", 100)
    rep.rules = ["construct only dead elements, destroy and assign only live ones", "a block is released only when no element in it is live", "at return exactly the first length elements are live", "non-trivially-relocatable elements are not relocated bitwise"]
