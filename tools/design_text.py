TEXT = {
'P01': '''Oracle: a pointer into an object's storage, or a count read from it, is *stale* once a call that may run user code (release of a value, callback,
iterator step, conversion with a warning) lies between its load and its use, unless the storage is private to the operation or pinned (a copy, an extra reference). Typestate per
SSA value; obligations are all uses in all entry points. Teardown functions must detach before they release. Tests would need re-entrant code at each of
about a thousand release/callback sites. All pointers derived from one storage field become stale together when the block is reallocated or freed by the operation itself.''',
'P02': '''Oracle: the arginfo tables generated from the stubs (arity, parameter kinds, return types), read from the constants of the compiled module. For each method the
analysis collects the zval types that can be in the return slot at each normal exit and the argument counts the prologue accepts.''',
'P03': '''Oracle: the branch conditions that dominate (or lie on every path to) an access, evaluated since user code last ran. A demand-driven difference-bound
prover (ABCD style) shows `0 <= position < count` and `index inside block`. In addition exact off-by-one detection: comparisons of a position with the count must not admit
the count itself (except insertion and resizing), reads at `count + k`, k >= 0, and block moves whose source range ends past the last element are reported.''',
'P04': '''Oracle: reference-count algebra. Each copy of a counted value into storage, a return slot or an array must be paid for by an increment, and each origin that
is consumed must be released exactly once on every path; each allocated block reaches exactly one of: a field, a free, a return; freed blocks are not the static
empty lists; clone/teardown cover all owned fields; element ranges released in bulk are the whole range (a release loop counting down to zero says nothing about whether its block exists). A slot of a hash table that is no longer counted is marked unused
or cut off on every path; a tree node given back had its values released or moved out; a string kept behind raw bytes is handed out with a reference of its own.''',
'P06': '''Oracle: the linear form of the address range given to the collector in each get_gc handler compared with base/size/wrap of the storage; all value-carrying
fields found from debug info must be reported; iterators that pin an object must report it.''',
'P07': '''Oracle: effect sets. No entry point of an immutable class other than constructor, unserialiser, set_state, clone and the lazy fetch writes a field of an existing object;
constructors and unserialisers are guarded by a test that any completed initialisation makes fail.''',
'P08': '''Oracle: exception state per path: after a call that can throw, until a test of EG(exception) (or a result code that implies it) only clean-up calls are allowed; after an
explicit throw the operation reaches its exit without callbacks, iterator steps or collection writes.''',
'P11': '''Oracle: per mutator, no write to elements, count or width reaches an explicit throw site on any path.''',
'P12': '''Oracle: effect sets of the non-mutating entry points (all handlers and all methods outside an explicit list of mutators): no write through the object except to the
iterator list and lazily fetched entries; elements are not separated or written.''',
'P19': '''Oracle: values from arrays, iterators and callbacks may be IS_REFERENCE; each copy from such an origin into storage or a return value must be dominated by a dereference or a
test that excludes references; type tests on such values must look through the reference first.''',
'P05': '''Oracle: (1) list algebra of registration and unlinking; (2) path coverage: a store that moves elements (count - k, insertion at a place, compaction of a hash table, release of a tree
node) lies on no entry-to-return path that neither found the list of live iterators empty nor entered a loop over it that writes positions; (3) linear forms of the update (amount = change of the
count, place = position of the change, guard inside the collection; a removal anywhere does not adjust only the last place; a step back in a hash table skips unused slots; leaving the first tree node is recorded); (4) forms of the handlers (start, step, valid, key). Not covered: that a tree predecessor/successor function
is right, and what happens to iterators of indexed collections when the collection is emptied.''',
'P15': '''Oracle: the exceptions documented in the stubs (`@throws`), as a table method x kind of class -> classes that must / may be raised by its own code. On top of the set comparison: (1) cut the
edges on which the count (or root) was found zero: no throw of the emptiness exception may remain reachable; (2) cut the edges on which it was found non-zero and those with a pending exception: no
normal return may remain reachable; (3) accessors write the return slot, writers write the collection, on every path to a normal return. Blocks that test their own phi are split by
predecessor so that helper functions returning NULL keep the correlation.''',
'P09': '''Oracle: PHP's type tags. A forward dataflow keeps, per address of a PHP value, the set of tags the passed tests leave (equality, ranges, switches, comparison of two tags); each load of a
payload used as integer/float or dereferenced as string/array/object/reference/counted value must find a subset of the matching tags. LowMemoryVector reads a payload according to its own representation
marker; there a second, disjunctive analysis keeps pairs (possible markers, possible tags) so that the promotion code is verified rather than assumed. Lookup results and tree nodes merged with null
must be on the non-null side of a test; a tree root is non-null where the count was found non-zero. For compact forms (LowMemoryVector, IntVector) each access of an element has the width that the recorded marker prescribes on that path.''',
'P13': '''Oracle: the representation of the original. On every path of a clone handler that has not found the original empty, each element count and type marker of the copy must end with the value of the original, each capacity must be non-zero, each buffer must be freshly allocated (never the original's), and the loop or block copy that fills it must cover the whole extent, advance on both sides, start at the first element on both sides and move each part of an element to the same part; in a ring the walk must go back to the start exactly after the last slot. Tree nodes must be copied with every field that other code reads, both subtrees and the link to the new parent. An empty clone must be marked as constructed. Independently, no function outside module startup may write a variable that outlives the call and that code reads (a shared cache or scratch buffer is how collections come to influence each other). Why beyond tests: the states (holes, wrapped rings, element types, node colours) are enumerated by the paths, not by inputs; this rule led to the fix of the lost node colours (a clone of a valid tree crashed on later removals).''',
'P16': '''Oracle: the shape each data format prescribes. For each test of shape the failing edge must not reach a normal return once edges with a pending exception (and edges on which the same value
passed another test) are cut. Existence obligations: functions that look entries up by index test the number of entries; functions that walk the supplied array test for string keys, those of maps and
iterables also for an odd count; a length divided by the element size is multiplied back (or its remainder tested); a type marker is compared with its limit before it is stored.''',
'P14': '''Oracle: count <= capacity <= elements the block was allocated for. Each function that stores one of the three is interpreted in a domain of finitely many conjunctions of linear
inequalities over the three quantities of each object, the values loaded from them, branch conditions, allocation arguments and results of understood helpers (rounding up to a power of two, halving).
Loop invariants are found by Houdini elimination from the template "one loop variable <= another (plus a constant)" and "loop variable * width <= bytes of the loop's block". Calls that can run PHP code
forget everything about collections such code can reach except the inequality itself; a bound that was established before such a call and used after it is reported. Obligations are decided at returns, at
calls that can run outside code and at loop back edges. Reported only when the path's quantities are all understood; otherwise counted as undecided. Blocks allocated for n elements of a constant width are also checked to be stepped through in steps of at most that width.''',
'P10': '''Oracle: the number of elements (or used slots) the object itself records. For every loop of a conversion or search that addresses the storage of a collection, trip count, first
address and stride are put into linear form over the fields of the object (a ring index `(offset + i) & mask` counts as position i; choices made before the loop are resolved one by one) and must be: start at the
first element (or first used slot), one element per iteration, exactly as many iterations as elements or slots. Several loops over parts of one block, unrolled and peeled loops are recognised and not judged one by one.
In a conversion no path through an iteration avoids writing output, or avoids reading the element for more than a comparison, unless the slot was found unused. Branches that lead past all the loops compare the
number of elements in a way only zero satisfies. memchr-style searches cover the whole block. Tree walks start at the leftmost node and proceed to the leftmost node below the right child or to the first ancestor
reached from the left. Catches what tests cannot: dependence on size, gaps, wrap position and tree shape.''',
}
