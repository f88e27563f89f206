PROPS = []
def P(**k): PROPS.append(k)

P(id='P01', title='Re-entrant user code never leaves an operation on released storage',
  statement='Whatever PHP code runs in the middle of a collection operation (a callback, an element destructor, a source iterator, an error handler, a numeric or string conversion) and whatever it does to the very collection being operated on, the operation never reads, writes or frees element storage that this code may have replaced or released. Nor does an operation go on using element storage that it has itself resized or released. An element is never destroyed while it is still reachable through the collection.',
  over=['programs', 'histories', 'inputs'], text='every operation of every collection class, every point inside it at which user code can run, and every modification that code can make to the collection',
  why='The tests run a handful of re-entrant scripts; the fault needs a particular element type (object with destructor, string conversion that warns) at a particular point of one of some 700 entry points.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_strictsortedvectormap.c', 'teds_stricthashmap.c', 'teds_strictsortedvectorset.c', 'teds_strictheap.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_cachediterable.c', 'teds_util.c'],
  mech=[('detach storage before destroying its elements', 'clear() and shrink paths of every collection'), ('reload of the element array on every loop iteration', 'any/all/filter/map/reduce loops'), ('snapshot before converting keys', 'toArray of maps and sets')],
  state=[{'name': 'entries/size', 'meaning': 'current element storage', 'where': 'the object of every collection'}],
  observe=['crash or invalid access under valgrind', 'wrong element returned'],
  technique='typestate dataflow over flattened SSA (clang/LLVM IR)',
  note='All entry points of the extension, with helpers inlined, under a table of PHP API functions that may run user code; flow- and path-insensitive to conditions other than the CFG.')

P(id='P02', title='Methods accept and return exactly what their signatures declare',
  statement='Every PHP-visible method and function accepts exactly the argument counts and types its declared signature (as shown by reflection and the stubs) names, and whenever it completes without throwing it returns a value of the declared return type. Every object a constructor, factory, clone or conversion produces is of the class it is declared to produce and behaves with that class\'s own operations.',
  over=['inputs', 'programs'], text='every method and function, every argument list, every path that returns without an exception',
  why='Release builds of PHP do not verify internal functions against their arginfo, and the tests sample a few argument lists per method.',
  files=['*_arginfo.h', '*.stub.php', 'teds_*.c'],
  mech=[('arginfo tables', '*_arginfo.h'), ('ZEND_PARSE_PARAMETERS blocks', 'every PHP_METHOD'), ('object creation helpers', 'create_object and clone handlers')],
  state=[], observe=['return values', 'ReflectionMethod', 'TypeError/ArgumentCountError'],
  technique='return-type and parameter dataflow checked against the arginfo tables',
  note='Every method table entry reachable from module startup; types are tracked as zval type tags over all CFG paths on which no exception is certainly pending.')

exec(open(__file__.replace('props.py', 'props_more.py')).read()) if __import__('os').path.exists(__file__.replace('props.py', 'props_more.py')) else None

P(id='N01', title='Sequences behave like the list of values written to them',
  statement='For every history of operations, what a sequence returns (values, order, size) equals what the same history produces on an ideal list.',
  over=['histories', 'inputs'], text='every sequence class, every history of operations',
  why='Unbounded histories and values.',
  files=['teds_vector.c', 'teds_deque.c', 'teds_intvector.c', 'teds_lowmemoryvector.c', 'teds_bitvector.c'],
  mech=[('element moves and index arithmetic', 'every mutator')], state=[], observe=['toArray()'],
  na='Full functional equivalence relates runtime contents of arrays across arbitrary histories; no sound static argument in reach derives it from the source. Memory safety, ownership, bounds and state discipline parts of it are claimed separately.')
P(id='N02', title='Serialisation round-trips',
  statement='For every collection, unserialize(serialize($c)) and __set_state(export) produce a collection equal to the original.',
  over=['inputs', 'histories'], text='every collection value', why='Unbounded values.',
  files=['teds_*.c'], mech=[('__serialize/__unserialize pairs', 'every serialisable class')], state=[], observe=['== and var_dump'],
  na='Equality of two runtime values after encoding and decoding; the static family can check guards and layouts of each side but not the composition.')
P(id='N03', title='Tree collections stay balanced and hash collections stay amortised constant',
  statement='Lookup, insertion and removal in tree maps and sets take logarithmic time and in hash maps and sets amortised constant time, for every history.',
  over=['histories'], text='every history of insertions and removals', why='Asymptotic costs are not sampled.',
  files=['teds_stricttreemap.c', 'teds_stricthashmap.c'], mech=[('red-black rebalancing', 'teds_stricttreemap.c'), ('rehash/pack', 'teds_stricthashmap.c')], state=[], observe=['running time'],
  na='Red-black colouring and hash distribution are shape invariants over heap graphs produced at run time; deciding them needs shape analysis with arithmetic that is out of reach for the tools present.')
