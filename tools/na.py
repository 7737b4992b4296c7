from props import P, H, PROPS

# ---- properties static analysis does not decide here
N = [
("N01", "What a serializer writes, the matching parser reads back unchanged",
 "For every value of a serialisable type, parsing the JSON, XML, TOML, UBJSON or INI text written for it yields an equal value.",
 ["inputs"], "every value of every serialisable type and every engine", [H + "JSON.h", H + "XML.h", H + "TOML.h", H + "UBJSON.h", H + "Serializer.h"],
 "Equality of the value parsed with the value written relates two programs over unbounded character data (number formatting through iostreams included); no dataflow or typestate argument bounds it."),
("N02", "Numeric types and geometry compute the documented result",
 "Fixed-point, rational, vector, matrix, SSE, geometry and collision functions return the mathematically specified result within their documented precision.",
 ["inputs"], "every argument", [H + "FixedPt.h", H + "Rational.h", H + "vector.h", H + "sseVec.h", H + "Geometry.h", H + "Collision.h"],
 "Floating-point and wrap-around arithmetic over runtime values needs numeric proof or testing; a static value analysis would only give intervals too wide to decide the result."),
("N03", "Hash tables and ordered maps find exactly the keys that were inserted",
 "A lookup in Hash, Map or StringTable returns the value last stored under an equal key and fails for all other keys.",
 ["inputs", "histories"], "every history of insertions and removals", [H + "Hash.h", H + "Map.h", H + "StringTable.h"],
 "Correctness of open addressing depends on hash values and the contents of the probe sequence, i.e. on runtime quantities over an unbounded table; memory and lifetime aspects are decidable, contents are not."),
("N04", "Priority queues deliver elements in priority order",
 "Peek and Pop of BinaryHeap and PriorityQueue always give an element that no other element precedes.",
 ["inputs", "histories"], "every history of operations", [H + "BinaryHeap.h", H + "PriorityQueue.h"],
 "The heap order is a universally quantified property of array contents along index arithmetic (parent/child), which needs quantified invariants and a solver; lifetime and bounds are decided by P07-P09."),
("N05", "Array-like containers keep the order and values of their elements",
 "After inserting, removing or replacing elements the sequence held is the previous one with exactly that change.",
 ["inputs", "histories"], "every length, index and value", [H + "Array.h", H + "DynArray.h", H + "ArrayCircular.h", H + "Queue.h", H + "Stack.h"],
 "Which value ends at which index is a quantified statement about array contents; the ranges that are live, owned and accessed are decided by P07-P09."),
("N06", "Random generators and weighted tables have the documented distribution",
 "AliasTable and the xorshift engines produce values with the documented probabilities and period.",
 ["inputs", "histories"], "every seed and weight table", [H + "AliasTable.h", H + "XorshiftEngine.h"],
 "A statistical property of outputs; nothing in the program text decides it."),
("N07", "Timers, profiler and scheduler report and honour time correctly",
 "Durations reported are the durations elapsed and scheduled events run when due.",
 ["schedules"], "every clock history", [H + "HighPrecisionTimer.h", H + "Profiler.h", H + "Scheduler.h"],
 "Depends on the clock and on real time, which static analysis does not see."),
("N08", "Concurrent allocators and queues are linearizable",
 "Every concurrent history of the lock-free allocators and queues is equivalent to a sequential one.",
 ["schedules"], "every interleaving", [H + "BlockAllocMT.h", H + "LocklessQueue.h", H + "RingAlloc.h"],
 "Linearizability quantifies over interleavings of several threads; the per-thread protocol obligations it rests on are decided by P01-P06, the composition is a model-checking question."),
]
for i, t, s, o, x, f, r in N:
    P(i, t, s, o, x, "Tests sample a few values or histories.", f, [("implementation", f[0])], na=r)
