"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
H = "include/bss-util/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state, observe=observe))


P("P01", "Concurrent components never leak, double-release or deadlock on their locks",
  "Every public operation of the thread-safe allocators, concurrent queues and thread pool returns with exactly the locks it held on entry, on every path. "
  "No path releases or upgrades a lock it does not hold, re-acquires a lock it already holds exclusively, or acquires two locks in an order that another path reverses. "
  "Tentative acquisitions that fail leave nothing held.",
  ["schedules", "histories"], "every path through every public operation, under every outcome of every tentative lock acquisition and compare-and-swap",
  "Leaks appear only on rarely taken branches (failed upgrade, bucket recycled mid-allocation, allocator growth race); the tests run a few uncontended or lightly contended schedules.",
  [H + "GreedyAlloc.h", H + "CacheAlloc.h", H + "RingAlloc.h", H + "BlockAllocMT.h", H + "LocklessQueue.h", H + "ThreadPool.h"],
  [("paired lock operations", H + "RingAlloc.h Alloc/Dealloc/_checkRecycle"), ("read-to-write upgrade", H + "CacheAlloc.h Alloc, " + H + "GreedyAlloc.h Alloc")],
  "interprocedural lock typestate and lock-order analysis over GIMPLE SSA",
  "Path-sensitive abstract interpretation of all entry points with callees inlined; loops are joined/widened, so every path is covered. Trusts gcc's GIMPLE, the RWLock contract (decided by P03) and that no exception crosses an operation.")
P("P02", "Shared state of the concurrent components is only touched under its lock",
  "Every access to non-atomic state shared between threads inside the thread-safe allocators and the concurrent queues happens while the lock that protects it is held in a sufficient mode: exclusive for writing, at least shared for reading. "
  "A decision made before exclusive access was obtained is re-validated before it is acted upon.",
  ["schedules"], "every read and write of protected state on every path of every public operation",
  "An unprotected access is a data race that needs a precise interleaving to show; the tests sample few interleavings and do not run a race detector.",
  [H + "GreedyAlloc.h", H + "CacheAlloc.h", H + "RingAlloc.h", H + "BlockAllocMT.h", H + "LocklessQueue.h"],
  [("guarded fields", "chunk list, size-class table, bucket list and last size, queue end pointers")],
  "guarded-by dataflow analysis over GIMPLE SSA with a confirmed field/lock table",
  "Same interpreter as P01 with a frozen field-to-lock table confirmed by reading. Destructors and move operations require external exclusivity, as documented.")
P("P03", "The readers-writer lock admits one writer or many readers",
  "On the readers-writer lock a successful exclusive acquisition implies no other holder, a successful shared acquisition implies no writer, and a failed attempt leaves the lock as it was. "
  "Releasing, upgrading and downgrading give back exactly what was held. "
  "Acquisition and release order the protected memory accesses.",
  ["schedules"], "every interleaving of the atomic steps of every lock operation with arbitrary other threads",
  "The violating schedules need a second thread to act between two particular atomic steps; unit tests cannot force them and x86 hides missing memory ordering.",
  [H + "RWLock.h", H + "lockless.h"],
  [("lock word: writer bit and reader count", H + "RWLock.h"), ("bit test-and-set", H + "lockless.h asmbts")],
  "effect analysis of atomic read-modify-writes on the lock word (rely/guarantee summaries) over GIMPLE SSA",
  "Each operation's net effect on the lock word, its success/failure conditions and memory orders are derived from all its atomic steps with arbitrary interference between them, and compared with the specification of the operation.")
P("P04", "Lock-free free lists are updated only by tagged compare-and-swap",
  "Every modification of a shared lock-free free list is a double-width compare-and-swap whose tag differs from the one read, whose new head comes from the same read (or is the block being returned, already linked to the head that was read), and which is retried with freshly read values when it fails. "
  "A block popped from a free list is returned to its caller only after the swap that removed it succeeded.",
  ["schedules"], "every compare-and-swap on every path, for every interference by other threads",
  "ABA and lost-update corruption need another thread to pop and push between a read and a swap; tests cannot schedule this.",
  [H + "BlockAllocMT.h", H + "CacheAlloc.h", H + "RingAlloc.h", H + "lockless.h"],
  [("pointer/tag pair and 16-byte compare-and-swap", H + "lockless.h bss_PTag/asmcasr")],
  "value-provenance analysis of compare-and-swap operands over GIMPLE SSA",
  "Symbolic operands of every swap are traced to the read they come from; contents of the shared word are arbitrary at every read.")
P("P05", "Concurrent queues publish complete items and deliver each exactly once",
  "An item becomes visible to consumers only after it is fully constructed and linked, with release/acquire ordering between the two sides. "
  "A successful pop takes exactly one item, advances the queue past exactly that item, and adjusts the length once; a failed pop changes nothing. "
  "A node is destroyed and released exactly once, and only when neither side can reach it.",
  ["schedules", "histories"], "every push/pop path, every interleaving of one producer and one consumer (lock-free queue) or many of each (micro-lock queue)",
  "Publication-order mistakes surface only under particular interleavings or weaker memory ordering than x86 provides in the test build.",
  [H + "LocklessQueue.h"],
  [("publication store of the tail/link", H + "LocklessQueue.h _produce"), ("consumer position", H + "LocklessQueue.h Pop")],
  "event-order (typestate) analysis of every queue path over GIMPLE SSA",
  "All paths of push, pop, construction and destruction are matched against the publication protocol. Assumes the documented single-producer/single-consumer use of the lock-free queue.")
P("P06", "The thread pool runs every task exactly once and waits for all of them",
  "Every task given to the pool is counted as pending before it is queued, queued as often as asked, and signalled to the workers only afterwards, once per task; whoever takes a task runs exactly that task once and only then retires it. "
  "A worker sleeps only after finding the queue empty. "
  "Wait returns, and the pool is torn down, only after observing (with acquire ordering) that no task is pending, and teardown stops, wakes and outlasts every worker. "
  "A deferred function call is stored completely before it is queued, called once, then destroyed and its storage returned to the allocator it came from.",
  ["schedules", "histories"], "every path of every pool operation and of the worker loop, for every number of tasks and threads",
  "A task retired too early, a signal sent too early or a stored call released too early only shows when a worker runs in exactly that window.",
  [H + "ThreadPool.h", H + "Thread.h"],
  [("pending counter and queue", H + "ThreadPool.h AddTask/Wait/_worker"), ("deferred calls", H + "ThreadPool.h AddFunc/_callfn")],
  "symbolic event counting (affine loop invariants) and typestate over GIMPLE SSA",
  "Counters of reserved, queued, signalled, run and retired tasks are tracked symbolically through loops on every path. Assumes the queue contract (P05), no counter wrap-around and tasks that do not throw.")

P("P07", "Array-like containers own each of their memory blocks exactly once",
  "After every operation on an array-like container (fixed and growable array, stack, queue, circular array, random queue, binary heap) each block it ever allocated has exactly one owner, or has been released exactly once, with the size it was allocated with, to the allocator it came from. "
  "The owner's recorded capacity is that of its block. "
  "This includes construction from nothing, from a list, from a copy and from a move, assignment (also to itself), growing, shrinking, clearing and destruction, for empty and non-empty containers alike; a moved-from container owns nothing.",
  ["inputs", "histories"], "every path of every operation, for every length, capacity, index and allocator",
  "Leaks, double frees and frees with a wrong size or allocator are invisible to value-comparing tests, and depend on sizes and on which operations precede each other.",
  [H + "Array.h", H + "DynArray.h", H + "Stack.h", H + "BinaryHeap.h", H + "RandomQueue.h", H + "ArrayCircular.h", H + "Queue.h"],
  [("raw block with capacity", H + "Array.h ArrayBase"), ("element array policies", H + "Array.h ArrayInternal"), ("growable array", H + "DynArray.h")],
  "ownership (typestate) analysis with symbolic sizes over GIMPLE SSA",
  "One symbolic start state per emptiness case covers every length/capacity; loops are summarised by affine invariants. Element and allocator operations are opaque. Element kinds: plain, constructed, safe (copied), move-only.")
P("P08", "Array-like containers construct and destroy each element exactly once",
  "An element of an array-like container (fixed and growable array, stack, queue, circular array, random queue, binary heap) is constructed before it is used, destroyed exactly once, and never assigned, moved or destroyed while not alive; nothing is constructed over a live element. "
  "After every operation exactly the elements below the container's length (for circular containers: the length elements ending at the current position, modulo the capacity) are alive, and a block is released only when nothing in it is alive. "
  "Elements that must not be relocated bitwise are moved or copied one by one.",
  ["inputs", "histories"], "every path of every operation, for every length, capacity and index",
  "A skipped or repeated constructor or destructor does not change the values tests compare, and depends on the relation of length, capacity and index.",
  [H + "Array.h", H + "DynArray.h", H + "Stack.h", H + "BinaryHeap.h", H + "RandomQueue.h", H + "ArrayCircular.h", H + "Queue.h"],
  [("construction, relocation, destruction policies", H + "Array.h ArrayInternal"), ("insert/remove", H + "DynArray.h")],
  "lifetime (typestate) analysis over symbolic element ranges in GIMPLE SSA",
  "Live ranges of every block are tracked as symbolic intervals through loops, copies and moves; must hold for every length and index. Elements' own operations are opaque and assumed not to throw.")
P("P09", "Array-like containers touch only memory inside their blocks",
  "Every element an array-like container (fixed and growable array, stack, queue, circular array, random queue, binary heap) reads, writes, constructs or destroys lies inside a block it currently owns, whatever its length and capacity, as long as the documented index preconditions hold. "
  "Its length never exceeds its capacity.",
  ["inputs", "histories"], "every path of every operation, for every length, capacity and index",
  "An off-by-one in growth or shifting is only visible at the particular length/capacity boundary and then usually only as silent heap corruption.",
  [H + "Array.h", H + "DynArray.h", H + "Stack.h", H + "BinaryHeap.h", H + "RandomQueue.h", H + "ArrayCircular.h", H + "Queue.h"],
  [("capacity growth", H + "DynArray.h _checkSize"), ("shifting", H + "Array.h _pushInsert/_pushRemove")],
  "symbolic bounds analysis (affine ranges) over GIMPLE SSA",
  "Every access is compared with the symbolic size of its block under the path's facts.")

P("P10", "Linked structures stay well linked and hold exactly the intended sequence",
  "After every operation on an intrusive list, LinkedList, LinkedArray or the edge lists of a Graph, neighbours point at each other in both directions, the ends are terminated, and the first/last pointers and the count describe the same sequence. "
  "That sequence is the previous one with exactly the named node added at, or removed from, the documented position. "
  "A removed node is given back exactly once, to the allocator it came from, and no node that was given back is followed.",
  ["inputs", "histories"], "every operation, every position of the node (only, first, middle, last), every length of the list on either side",
  "A missed link update shows only for particular positions (only element, ends) and often only when the list is later walked in the other direction; the tests walk few lists, mostly forwards.",
  [H + "LLBase.h", H + "LinkedList.h", H + "LinkedArray.h", H + "Graph.h"],
  [("link updates", H + "LLBase.h"), ("end pointers and counts", H + "LinkedList.h"), ("index links and free list", H + "LinkedArray.h"), ("edge on two lists", H + "Graph.h AddEdge/RemoveEdge")],
  "shape analysis over GIMPLE SSA (explicit heap, summarised stretches, case split on the neighbourhood)",
  "Operations touch a bounded neighbourhood, so the case split is complete for any length; walking loops are closed by folding. Growth of LinkedArray is followed for one representative capacity.")

P("P11", "The AVL tree stays ordered, balanced and complete",
  "After every insertion, removal or key replacement on an AVLTree the in-order contents are the previous ones with exactly the element concerned added or removed, every node's subtrees differ in height by at most one, and the balance recorded in each node is the real one. "
  "A lookup finds an element exactly if one with an equal key is in the tree. "
  "A removed node is destroyed and given back once, a cleared, destroyed or moved-from tree leaves none behind, and nodes only ever go back to the allocator they came from.",
  ["inputs", "histories"], "every tree shape and size, every position of the key, every rotation case",
  "Rebalancing has many cases; a wrong balance factor or height report corrupts the shape only several operations later, and only for particular insertion/removal orders.",
  [H + "AVLTree.h"],
  [("rotations and balance factors", H + "AVLTree.h _leftRotate/_rightRotate/_rebalance"), ("recursive insertion and removal", H + "AVLTree.h _insert/_remove")],
  "inductive shape analysis with height arithmetic over GIMPLE SSA",
  "Complete case split over local shapes with symbolic heights; recursion by contract, so all tree sizes are covered. Termination is not decided.")

P("P12", "Reference counts and ownership match the holders",
  "After any sequence of constructing, copying, moving, assigning and destroying ref_ptr objects, an object's count is the number of its holders, and the object is destroyed exactly when the last one lets go: not earlier, not twice, not never. "
  "This includes self-assignment, assigning the object already held, and assigning from a pointer stored inside the object being let go. A copied or assigned RefCounter object keeps a count of its own holders only. "
  "An OwnerPtr deletes its object exactly once if it owns it and never if it only borrows it; copies borrow, moves transfer, self-assignment changes nothing.",
  ["inputs", "histories"], "every operation, every combination of operands (null, same object, different object, nested) and of other holders",
  "A missed grab or drop shows up as a use after free or a leak long after the operation, and only for particular aliasing of the operands.",
  [H + "RefCounter.h", H + "SmartPtr.h"],
  [("count balance", H + "RefCounter.h ref_ptr"), ("destruction at zero", H + "RefCounter.h RefCounter::Drop"), ("single owner", H + "SmartPtr.h OwnerPtr")],
  "typestate/ownership analysis over GIMPLE SSA (explicit heap, complete case split on aliasing)",
  "Every operation touches at most two pointers and two objects, so the case split is complete.")

P("P13", "A Variant holds exactly the alternative its tag names",
  "Whatever sequence of construction, copying, moving, assignment (of another Variant or of a value, including itself or its own content), typeset and destruction a Variant goes through, its tag names the alternative that currently lives in its storage, or none. "
  "Each alternative that was constructed is destroyed exactly once, as its own type; nothing is constructed over a live alternative; the value held is the last one assigned. "
  "The storage is large enough and correctly aligned for every alternative, whatever their order, and empty Variants can be copied and assigned.",
  ["inputs", "histories"], "every operation, every pair of alternatives held by the operands (none included)",
  "A wrong tag or a skipped destructor is invisible for trivial alternatives and for assignments within one alternative, which is what tests mostly use; misalignment is invisible on x86.",
  [H + "Variant.h"],
  [("assignment between alternatives", H + "Variant.h _assign"), ("destruction by tag", H + "Variant.h _destroy"), ("storage layout", H + "Variant.h _store")],
  "typestate analysis over GIMPLE SSA, plus constant-expression witnesses for the layout",
  "Three opaque alternatives stand for any list. Parsing a Variant from a stream (Serializer.h ActionVariantRef) is not covered.")

P("P14", "Parsers always make progress and stop at the end of input",
  "The JSON, TOML, UBJSON and XML parsers terminate on every finite input, valid or not: no loop keeps running without consuming input or otherwise getting closer to its end. "
  "Whatever character or end of input the stream stands at when a loop is entered (malformed keys, unexpected closing brackets, lone quotes, NUL characters, carriage returns, truncated documents, a stream that has already failed), "
  "each run of the loop moves the read position, changes the state of the stream so that the loop ends, or reaches another exit. Backtracking (XML pattern matching) does not undo all progress of a loop that goes on.",
  ["inputs"], "every input: any character, end of input or stream failure at every read",
  "A parser that stalls needs one particular unexpected character or a document cut off at one particular place; tests parse well-formed documents.",
  [H + "JSON.h", H + "TOML.h", H + "UBJSON.h", "bss-util/UBJSON.cpp", "bss-util/XML.cpp"],
  [("object and array loops", H + "JSON.h ParseJSONObject, ParseArray"), ("key/value and table loops", H + "TOML.h ParseTOMLPairs, ParseTOMLTable, ParseTOMLRoot, ParseTOMLString"),
   ("typed containers", H + "UBJSON.h UBJSONTuple::Parse"), ("content and attribute loops, backtracking match", "bss-util/XML.cpp _parseInner, _parseAttribute, _match")],
  "abstract interpretation of stream position, lookahead and error state over GIMPLE SSA, with function summaries; loops whose state repeats are reported",
  "Loops bounded by a counter read from the input (UBJSON lengths) end with the counter; recursion depth is not bounded.")
P("P15", "Hash tables keep every entry alive exactly once and count them right",
  "For every table (empty, any capacity, any mix of used, deleted and never used slots) and every operation of Hash (construction, Insert, Remove, RemoveIter, Set, SetValue, SetCapacity, Clear, copy, move, both assignments including to itself, destruction): "
  "a slot marked used holds exactly one live key and, in a map, one live value, of the same entry; other slots hold none. Nothing is constructed over a live object, assigned to, moved from or destroyed in a slot without one; "
  "a rehash or growth carries every entry over exactly once with its own value and leaves no moved-from object behind. Length() changes by exactly the entries added or removed, and the counts that decide when to grow stay those of the slots in use. "
  "The flag, key and value arrays have the size the capacity says, are released exactly once with that size and are not used afterwards. A copy has the same entries and leaves the source alone; a moved-from table is empty. "
  "Insert, Remove, Set and ExistsIter report what they did, PointerValue and Get give null or a used slot, and forward iteration stops at used slots only and passes over none.",
  ["inputs", "histories"], "every history of operations leading to any legal table state, and every hash value",
  "Which slot an entry sits in, whether a deleted slot is reused and which entries are kicked out during a rehash depend on hash values and history; a leak or double destruction there changes no result tests look at.",
  [H + "Hash.h"],
  [("rehash with kick-out", H + "Hash.h Hash::_resize"), ("growth", H + "Hash.h Hash::_realloc"), ("slot choice and construction", H + "Hash.h Hash::_put, _insert"), ("removal", H + "Hash.h Hash::_delete, Clear"),
   ("copy and assignment", H + "Hash.h Hash::_docopy, operator="), ("iteration", H + "Hash.h HashIterator::_next")],
  "abstract interpretation over GIMPLE SSA following one arbitrary slot (case split index == slot) with object typestate, entry identity, symbolic counters and block ownership",
  "Whether a lookup finds a key (probe order) is N03; that probing finds a free slot, that capacities are powers of two and that allocation succeeds is assumed.")
