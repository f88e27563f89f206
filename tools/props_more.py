P(id='P04', title='Every stored value and every buffer has exactly one owner',
  statement='On every path through every operation, including early returns and exceptions thrown by user code, each PHP value held by a collection carries exactly one counted reference, and every buffer, array, string or iterator acquired is released exactly once or handed to the object or caller that will release it. Nothing is leaked, released twice or released while still reachable, and destroying a collection releases everything it holds.',
  over=['inputs', 'histories', 'faults'], text='every operation, every path through it (argument errors, exceptions at any callback, growth and shrink), every element type',
  why='Leaks and double releases are invisible to output-comparing tests, need refcounted elements and often need an exception at one particular point.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_strictsortedvectormap.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_strictheap.c', 'teds_cachediterable.c', 'teds_immutablesortedstringset.c', 'teds.c', 'teds_util.c'],
  mech=[('reference taken on every copy in or out', 'every reader and writer of element storage'), ('release on every failure path', 'constructors, filter/map, fromPairs'), ('destruction handlers', 'free_obj and iterator dtor of every class')],
  state=[{'name': 'reference counts', 'meaning': 'owners of each value', 'where': 'element storage'}],
  observe=['valgrind leak and invalid-free reports', 'destructor calls'],
  technique='ownership and reference-balance dataflow over flattened SSA',
  note='Per-origin reference balance, acquired-block typestate and buffer life cycle over all paths of all entry points; balances of values whose origins merge are not decided.')

P(id='P07', title='Immutable collections never change and construction happens once',
  statement='Once constructed, an immutable or empty collection never changes: no method, array syntax, iterator, handler, second constructor call or repeated unserialisation alters its contents, and each mutating method it declares throws on every call. For every collection, calling the constructor or unserialisation on an object that is already initialised throws without changing it.',
  over=['programs', 'histories', 'inputs'], text='every entry point of every immutable class; every constructor and unserialiser of every class, called any number of times on any object state',
  why='Tests call a few mutators once; a second construction through reflection or a write on a rare path is not sampled.',
  files=['teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_immutablesortedstringset.c', 'teds_emptycollection.c', 'teds_vector.c', 'teds_deque.c', 'teds_strictsortedvectormap.c', 'teds_intvector.c'],
  mech=[('already-initialised guard', '__construct and __unserialize of every class'), ('unsupported-operation throwers', 'mutators of immutable classes'), ('empty-list sentinel', 'set_empty_list helpers')],
  state=[{'name': 'initialised', 'meaning': 'storage pointer (or type tag) is non-null once construction finished', 'where': 'the object of every collection'}],
  observe=['contents before and after', 'exception of the second call'],
  technique='effect analysis and must-throw dataflow over flattened SSA',
  note='Every entry point of the immutable classes and every constructor/unserialiser; completeness of initialisation is decided for the field the guard tests.')

P(id='P12', title='Reading a collection never changes it',
  statement='Every operation that only queries a collection (element access, search, iteration, counting, conversion, comparison, serialisation, debugging output, garbage-collection traversal, filter and map) leaves the collection it is applied to exactly as it was, whatever arguments it gets and whatever path it takes. References into a collection are never handed out, so code iterating or reading cannot change it from outside.',
  over=['inputs', 'histories', 'programs'], text='every method, object handler and iterator function that is not a declared mutator, on every path',
  why='Tests look at the result of a query, not at the state of the collection afterwards, and only for a few contents.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_strictsortedvectormap.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_strictheap.c', 'teds_immutablesequence.c'],
  mech=[('pure readers', 'every query method and handler'), ('by-reference iteration refused', 'get_iterator of every class')],
  state=[{'name': 'elements', 'meaning': 'storage, size and layout fields', 'where': 'the object of every collection'}],
  observe=['toArray()/var_dump before and after a query'],
  technique='interprocedural effect analysis over flattened SSA',
  note='All non-mutating entry points; registration of live iterators and the lazy fetch of CachedIterable are the only writes allowed.')

P(id='P06', title='The cycle collector sees every value a collection owns exactly once',
  statement='Whenever PHP\'s cycle collector examines a collection, whatever its contents, layout or history, it is told about every PHP value the collection owns, each exactly once and nothing else, including a source iterator that is still being read. An iterator over a collection of PHP values reports the collection it keeps alive, so garbage cycles through collections and iterators can always be reclaimed and live values are never freed.',
  over=['histories', 'inputs'], text='every collection class, every content and internal layout (wrapped ring buffers, removed slots, lazily read sources), every iterator',
  why='Collector runs are rare in tests and the effect of a wrong report is a leak or a much later crash; wrapped or sparse layouts are not sampled.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_stricthashmap.c', 'teds_stricthashset.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_cachediterable.c', 'teds_mutableiterable.c', 'teds_lowmemoryvector.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_util.c'],
  mech=[('get_gc handlers', 'get_gc function of every class'), ('iterator get_gc', 'iterator function tables')],
  state=[{'name': 'element range', 'meaning': 'which slots hold values', 'where': 'storage and count fields'}],
  observe=['gc_collect_cycles() and destructor calls', 'memory use'],
  technique='symbolic range and offset coverage of collection-traversal handlers over flattened SSA',
  note='Linear forms over the object fields decide the reported ranges; traversal order of trees is trusted.')

P(id='P19', title='PHP references never leak into or out of collections',
  statement='A collection holds plain values: whatever source a value comes from (an array or iterator that holds or yields references, a callback returning by reference, unserialised data, an offset variable bound by reference), the collection stores and looks up the referenced value and never the reference itself. Writing to a variable that was bound to a source element never changes a collection built from it, and values of an accepted type are accepted alike whether or not they are held in a reference.',
  over=['inputs', 'programs'], text='every element copied into a collection from an array, an iterator or a callback, every offset used in array syntax, every reference/non-reference combination of them',
  why='Tests rarely build collections from arrays holding references, and each of the many copy sites has to dereference on its own.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_strictsortedvectormap.c', 'teds_cachediterable.c', 'teds_immutableiterable.c', 'teds_intvector.c', 'teds.c'],
  mech=[('dereference before copy', 'every init_from_array/traversable/pairs helper'), ('unwrapping of callback results', 'map(), fold(), find()'), ('offset dereference', 'array-syntax handlers')],
  state=[], observe=['contents after changing the original variable'],
  technique='value-origin dataflow with reference-tag facts over flattened SSA',
  note='Every copy into storage or a return value whose origin is an array element, iterator element or callback result, every array-syntax handler, every type test of a source element.')

P(id='P08', title='An exception from user code stops the operation at once',
  statement='When user code run by an operation throws (a callback, a step of the iterator being read, an error handler called for a conversion warning) or the operation itself throws, the operation stops there: no further callback or iterator step is run, nothing more is written to the collection, and that same exception reaches the caller. No operation goes on as if the failed call had produced a value.',
  over=['faults', 'programs', 'inputs'], text='every operation that calls user code, and every call of it at which an exception can be raised',
  why='An exception has to be raised at one particular call of one particular operation; tests raise a few of them.',
  files=['teds.c', 'teds.h', 'teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_cachediterable.c', 'teds_immutableiterable.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_immutablesortedstringset.c'],
  mech=[('exception test after every callback and iterator step', 'constructors from Traversable, filter/map, fromPairs'), ('conversion failure tests', 'offset and value conversion macros')],
  state=[{'name': 'pending exception', 'meaning': 'an exception was thrown and has not reached the caller yet', 'where': 'executor state'}],
  observe=['calls seen by the callback or iterator', 'contents after the exception', 'exception and its previous'],
  technique='exception-state dataflow (unchecked / pending / clear) over flattened SSA',
  note='All call sites of callbacks, iterator steps, key conversions and explicit throws; exceptions of destructors are out of scope.')

P(id='P11', title='An operation that throws leaves the collection unchanged',
  statement='When an operation on an existing collection throws an exception of its own (a position out of range, a value of the wrong type among several arguments, an empty collection, an unsupported operation), the collection is left exactly as it was: same elements, same size, same serialised form. No prefix of a multi-value operation is applied before a later value is rejected.',
  over=['inputs', 'histories'], text='every mutating method and array-syntax handler, every argument list and state for which it throws',
  why='Tests assert the exception and rarely look at the collection afterwards, and only for the first invalid argument position.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_strictsortedvectormap.c', 'teds_strictheap.c'],
  mech=[('checks before changes', 'push/insert/set/pop/offsetSet of every mutable class')],
  state=[{'name': 'elements', 'meaning': 'storage, size and representation fields', 'where': 'the object of every collection'}],
  observe=['count(), toArray() and serialize() after the exception'],
  technique='effect-before-throw dataflow over flattened SSA',
  note='Every explicit throw site of every mutator; construction and unserialisation of the object itself are excluded, as are exceptions of callbacks and destructors.')

P(id='P03', title='Positions are checked against the current size before an element is touched',
  statement='Whatever position a program supplies (a method argument, an offset in array syntax of any type that converts to a number, the position an iterator has reached while the collection changed under it), an element is read, written or removed only if the position lies between zero and the current number of elements. Otherwise the operation throws or reports absence, and memory outside the elements is never touched.',
  over=['inputs', 'histories'], text='every integer argument, array offset and iterator position, negative and huge values included, at every size including empty, after any modification',
  why='Off-by-one and sign errors show only at boundary positions of particular sizes, and reading just outside storage usually goes unnoticed.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_cachediterable.c', 'teds_mutableiterable.c', 'teds_util.h'],
  mech=[('range checks', 'get/set/offsetGet/offsetSet/offsetUnset/insert/keyAt/valueAt and the array-syntax handlers'), ('iterator position checks', 'get_current_data/get_current_key of every iterator')],
  state=[{'name': 'size', 'meaning': 'number of elements', 'where': 'count field of every collection'}],
  observe=['exception or isset() result', 'memory checker'],
  technique='taint plus difference-bound dataflow over flattened SSA',
  note='Every storage access whose address depends on an external position; ring-buffer indices are checked through their logical position. Assumes the element count never exceeds the capacity.')

P(id='P05', title='Iteration visits each element once; live iterators follow insertions and removals',
  statement='A loop over a collection visits its elements in order, each exactly once, starting at the first and ending after the last. When elements are inserted or removed (other than by emptying the whole collection) while iterators are active, every active iterator keeps referring to the element it was on (or, if that element was removed, to the one before it), so that no remaining element is skipped or visited twice. Ending an iterator never affects the other iterators of the same collection.',
  over=['histories', 'programs'], text='every interleaving of iteration steps of any number of iterators with insertions, removals, clearing and internal compaction',
  why='It takes a modification at one particular place relative to the position of a live iterator, often with several iterators or unused slots; tests iterate over collections that do not change.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricthashset.c', 'teds_strictsortedvectormap.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_util.h'],
  mech=[('list of live iterators', 'get_iterator and dtor of every iterator'), ('adjustment of live iterators', 'push-front, insert, pop, shift, unset, remove and growth of every mutable collection'), ('iterator handlers', 'valid/current/key/next/rewind of every iterator')],
  state=[{'name': 'live iterators', 'meaning': 'iterators over the collection that have not ended', 'where': 'list in every mutable collection'}, {'name': 'position', 'meaning': 'element an iterator refers to', 'where': 'every iterator'}],
  observe=['keys and values seen by foreach'],
  technique='path coverage and typestate over flattened SSA plus linear forms of the position updates',
  note='Every mutator, iterator constructor, destructor and handler of the classes that track live iterators. That the tree predecessor function returns the predecessor, and clearing of indexed collections, are not covered.')

P(id='P15', title='Failures raise the documented exception, exactly when they occur',
  statement='Asking an empty collection for an element raises UnderflowException, an unknown key or a position outside the collection raises OutOfBoundsException, and changing an immutable or empty collection raises UnsupportedOperationException, in every method and in array syntax. An element accessor never returns silently without a result and a writing operation never returns silently without having written. The emptiness exception is never raised while there are elements.',
  over=['inputs', 'histories'], text='every method and array-syntax handler of every class, every state (empty, one element, many) and every missing key or position',
  why='Tests sample one failing call per method at most; the class of the exception and the absence of silent failures has to hold on every path of some 300 methods.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_strictsortedvectormap.c', 'teds_strictsortedvectorset.c', 'teds_strictheap.c', 'teds_emptycollection.c', 'teds_exceptions.c'],
  mech=[('throw sites', 'every zend_throw_exception/zend_type_error call reachable from an entry point'), ('emptiness tests', 'pop/popFront/first/last/top/bottom/extract of every class')],
  state=[{'name': 'count', 'meaning': 'number of elements', 'where': 'count field or tree root of every collection'}],
  observe=['class of the exception caught', 'return value'],
  technique='exception-effect and path-cut analysis over flattened SSA',
  note='Oracle: the @throws annotations of the stubs (interface Sequence and the classes). Whether a key lookup finds every present key is not decided here.')

P(id='P09', title='A value is only ever used as the type it was found to have',
  statement='Whatever values a program passes in, stores, yields from an iterator or puts into serialised data, the extension treats a value as an integer, float, string, array, object or reference only after finding it to be of that type. An entry that may be missing (from supplied data or from the collection) is used only after it was found. A collection that stores its elements in a compact form reads and writes them only in the form it has recorded.',
  over=['inputs', 'histories'], text='every PHP value that reaches a collection by argument, array element, iterator, callback result or serialised data, of every type including references and interned strings',
  why='A wrong interpretation shows only for a value of one particular type at one particular place, and then often silently as a wrong number or a read of unrelated memory.',
  files=['teds.c', 'teds.h', 'teds_util.h', 'teds_vector.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_immutablesortedstringset.c', 'teds_stricthashmap.c', 'teds_stricttreemap.c', 'teds_mutableiterable.c', 'teds_cachediterable.c'],
  mech=[('type tests', 'every test of the type of a value before its payload is read'), ('null tests', 'every lookup in supplied data and in trees')],
  state=[], observe=['result or exception', 'memory checker'],
  technique='type-tag dataflow with correlated representation markers over flattened SSA',
  note='All payload reads of all entry points (about 2000) and all dereferences of lookup results and optional nodes (about 200).')

P(id='P16', title='Malformed serialised data, pairs and elements are refused by an exception',
  statement='Restoring a collection (unserialisation, set_state, construction from pairs) and storing into a collection of integers, bits or strings accepts only data of the documented shape. Data of any other shape (a missing or extra entry, an entry or element of the wrong type, a string key, an odd number of entries, a binary length or type marker that does not fit) raises an exception: it is never silently skipped, truncated or accepted.',
  over=['inputs'], text='every serialised form or list of pairs a program can supply to every class, and every element value stored into a typed collection',
  why='The space of malformed inputs is unbounded and tests contain one or two malformed samples for a few classes.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_immutablesortedstringset.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_cachediterable.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricthashset.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_strictsortedvectormap.c', 'teds_strictsortedvectorset.c', 'teds_strictheap.c'],
  mech=[('validation of serialised data', '__unserialize and unserialize of every class'), ('validation of pairs', 'fromPairs of every map and iterable'), ('validation of elements', 'constructor, push, insert, set of IntVector, BitVector and the sorted int/string sets')],
  state=[], observe=['exception raised', 'contents of the restored collection'],
  technique='refusal (path-cut) analysis of shape tests over flattened SSA',
  note='Every shape test of every restoring function, plus the obligation that the tests a data format calls for exist. Sortedness of serialised integer sets is not checked by the code and not part of the property.')

P(id='P13', title='A clone is a complete, independent copy; collections share no state',
  statement='Cloning a collection that can be cloned yields a new object with exactly the elements of the original in the same order, which afterwards behaves as the original would have. Changing, emptying, iterating or destroying either of the two never affects the other. No operation on one collection depends on or alters state kept outside it that other collections use.',
  over=['histories', 'programs'], text='every state a collection can be in when cloned (empty, partly filled, with unused slots, wrapped round, of every internal element type) and everything done to both afterwards',
  why='It takes a clone in one particular internal state followed by changes to one of the two; tests clone small, freshly built collections and look at the contents once.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricthashset.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_strictsortedvectormap.c', 'teds_strictsortedvectorset.c', 'teds_strictheap.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_immutablesortedstringset.c'],
  mech=[('copying of the storage', 'clone handler of every collection class'), ('copying of tree nodes', 'StrictTreeMap and StrictTreeSet'), ('module-wide variables', 'every function of the extension')],
  state=[{'name': 'storage', 'meaning': 'buffer, table or tree that holds the elements', 'where': 'every collection object'}],
  observe=['contents and behaviour of clone and original'],
  technique='field-completeness and extent analysis of clone handlers over flattened SSA; effect analysis of writes to variables that outlive a call',
  note='Every clone handler on every path, and every function for writes to shared variables. Copy loops of a shape that is not recognised are reported as undecided in the evidence.')

P(id='P14', title='Storage always has room for the elements a collection counts',
  statement='Whatever is added, inserted, removed, filtered, mapped, popped, restored or resized, and whatever callbacks, error handlers and iterators do in between, a collection never counts more elements than its storage has room for. Storage grows before an element that does not fit is added, never shrinks below the elements that remain, and a resulting collection is allocated for at least the elements put into it.',
  over=['inputs', 'histories'], text='every sequence of operations on every collection, in particular at the moments when the storage is exactly full or is given back, and every modification made by outside code during an operation',
  why='The storage is exactly full only at particular counts, and a block that is too small by one element usually lies in a larger allocation, so tests see nothing.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricthashset.c', 'teds_strictsortedvectormap.c', 'teds_strictsortedvectorset.c', 'teds_strictheap.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_cachediterable.c', 'teds_immutablesortedstringset.c'],
  mech=[('growth tests', 'push, pushFront, insert, add, set and construction from iterators of every collection'), ('shrinking', 'pop, popFront/shift, offsetUnset, remove, filter, setSize of every collection'), ('allocation of results', 'map, filter, construction from arrays and restored data')],
  state=[{'name': 'size', 'meaning': 'number of elements', 'where': 'count field of every collection'}, {'name': 'capacity', 'meaning': 'number of elements there is room for', 'where': 'capacity or mask field of every growable collection'}],
  observe=['memory checker', 'crash or corrupted elements'],
  technique='disjunctive linear-inequality dataflow with inductive loop invariants over flattened SSA',
  note='Every function that stores a count, capacity or storage pointer; paths whose arithmetic the domain cannot express are counted as undecided, not reported. Collections of variable element width and hash tables: count against capacity only.')

P(id='P10', title='Conversions and searches take every element into account exactly once',
  statement='Converting a collection to an array, to its keys, values, pairs, serialised or debug form, or mapping it yields every element it holds exactly once, from the first to the last, whatever the size, the internal form of the elements, gaps left by removals, or the shape of a tree. Searching a sequence or an unordered list of pairs for a value, and filtering, look at every element until the answer is known. Neither leaves elements out unless there are none.',
  over=['inputs', 'histories'], text='every size, internal element form, wrap-around position, gap pattern and tree shape a collection can have when it is converted or searched',
  why='A loop that stops one element early, starts one late, wraps wrongly or treats one size or type specially is visible only for particular sizes, histories and contents; tests convert a few small collections.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_mutableiterable.c', 'teds_stricthashmap.c', 'teds_stricthashset.c', 'teds_stricttreemap.c', 'teds_stricttreeset.c', 'teds_strictsortedvectormap.c', 'teds_strictsortedvectorset.c', 'teds_strictheap.c', 'teds_immutablesequence.c', 'teds_immutableiterable.c', 'teds_cachediterable.c', 'teds_util.h'],
  mech=[('conversion loops', 'toArray, values, keys, toPairs, __serialize, jsonSerialize, map and the debug handlers of every collection'), ('search loops', 'contains, containsValue, indexOf, indexOfKey, indexOfValue, filter of every sequence and list of pairs'), ('tree walks', 'conversions of StrictTreeMap and StrictTreeSet')],
  state=[], observe=['contents of the resulting array', 'result of the search'],
  technique='loop-extent analysis (linear forms of trip counts, starts and strides) and path-cut analysis of loop bodies over flattened SSA',
  note='Every loop of a conversion or search whose counter and addresses are linear, ring-shaped or an in-order tree walk; other loops are counted as undecided in the evidence. Loops over packed bits, and keyed searches of sorted, hashed and tree collections (which do not visit all elements), are not covered.')
