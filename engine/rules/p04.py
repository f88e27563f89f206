"""Every PHP value and every buffer has exactly one owner on every path."""
from own import Own
from bal import Bal, assumption
from heap import Heap
from walk import release_walks
from slots import nodes, removals, backing
from store import Store, teardown, bulk, field_of
LEVEL = 'other'
RULE = ('Ownership dataflow over every PHP entry point with helpers inlined: (1) a value copied into or out of a collection takes a reference, moves one or borrows one, '
        'and over every path references taken equal references given away, per origin of the value; (2) callback results and iterator keys are released or stored exactly once; '
        '(3) buffers, arrays, strings and iterators a function acquires are stored, returned or released on every path and not freed while they hold values; '
        '(4) replacing a buffer kept in an object frees or moves the old one; (5) destruction handlers free every buffer, release every value of every element and tear down the object; iterator destruction releases the collection.')
ASSUMPTIONS = ['PHP API functions have the ownership effects tabulated in engine/own.py, engine/bal.py and engine/heap.py',
               'element counts are consistent with the elements present (a zero count means no element)',
               'paths on which balances of different values cannot be told apart are not reported']
FLOORS = {'functions': 500, 'copies': 400, 'blocks acquired': 500, 'frees': 300, 'field stores': 400, 'teardown': 15, 'teardown-field': 15, 'iterator-teardown': 10}

def run(ctx, res):
    fo = field_of(ctx.M)
    for fn in ctx.fns(res):
        if fn.name.startswith('zm_'): continue
        o = Own(ctx.M, fn).run()
        b = Bal(ctx.M, fn).run()
        a = assumption(ctx.M, ctx.fns(), fn)
        if a:
            res.ob('element forms', sample=fn.name)
            b.find.update(Bal(ctx.M, fn, a).run().find)
        h = Heap(ctx.M, fn).run()
        s = Store(ctx.M, fn).run()
        res.ob('functions'); res.ob('copies', len(o.cc)); res.ob('blocks acquired', len(h.acq)); res.ob('frees', h.nfree); res.ob('field stores', s.n)
        for k, (i, msg) in list(o.find.items()) + list(b.find.items()) + list(h.find.items()) + list(s.find.items()):
            res.bad(k[0], '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: %s' % (fn.name, msg))
        for i, msg in bulk(ctx, fn, res, fo): res.bad('bulk', '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: %s' % (fn.name, msg))
        for i, msg in release_walks(ctx, fn, res): res.bad('walk', '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: %s' % (fn.name, msg))
        for i, msg in list(nodes(ctx.M, fn, res)): res.bad('node', '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: %s' % (fn.name, msg))
        for i, msg in list(removals(ctx.M, fn, res)): res.bad('slot', '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: %s' % (fn.name, msg))
        for i, msg in list(backing(ctx.M, fn, res)): res.bad('backing', '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: %s' % (fn.name, msg))
    teardown(ctx, res)
