"""Storage is never smaller than what is recorded to be in it."""
from ir import *
from grow import Grow
from stride import steps

LEVEL = 'other'
RULE = ('for every function that stores a count, a capacity or a storage pointer of a collection, on every path (a disjunctive domain of linear inequalities over the '
        'collection\'s count, its capacity, the number of elements the block was allocated for, and the values they are computed from; loops by inductive invariants '
        'from a fixed template): when control returns, when code outside may run, and around every loop, count <= capacity <= elements allocated (count <= elements '
        'allocated where no capacity is kept). A path on which a count grows without an adequate comparison with the capacity, on which the new capacity does not cover '
        'the new count, or on which the capacity recorded exceeds the block is reported; a path where the quantities are related by arithmetic the domain does not '
        'express is counted as undecided and not reported. A block allocated for elements of a constant width is stepped through in steps of at most that width')
ASSUMPTIONS = ['a collection satisfies the inequalities when one of its functions is entered', 'sizes do not wrap around (limits are enforced before allocation)',
               'collections whose element width varies (IntVector, LowMemoryVector) and hash tables: count against capacity only']
FLOORS = {'function': 150, 'inequality': 3000, 'proved': 3000}

def run(ctx, res):
    M = ctx.M
    seen = set()
    for fn in ctx.fns():
        for i, a, w, step in steps(fn):
            res.ob('step through a block')
            k = (fn.locstr(i), 'step')
            if step <= w or k in seen: continue
            seen.add(k)
            res.bad('element wider than its room', fn.locstr(i), fn.locstr(i), '%s: the block allocated at %s has room for %d bytes per element, but is stepped through %d bytes at a time' % (
                fn.locstr(i), fn.locstr(a), w, step))
        g = Grow(M, fn)
        if not g.roots: continue
        ctx.fn(fn.name, res)
        g.run()
        res.ob('function', sample=fn.name)
        res.ob('inequality', g.stats['check'])
        res.ob('proved', g.stats['proved'])
        if g.stats['undecided']: res.ob('undecided', g.stats['undecided'])
        if g.overflow: res.ob('too many cases', 1, sample=fn.name)
        for site, at, what, x, y, fs in g.sites:
            i = fn.I[site]
            k = (fn.locstr(i), what)
            if k in seen: continue
            seen.add(k)
            res.bad('count exceeds capacity' if what == 'size' else 'capacity exceeds block', fn.locstr(i), fn.locstr(i),
                    '%s: on a path to %s the %s (%s) is not covered by the %s (%s)' % (
                        fn.locstr(i), fn.locstr(fn.I[at]), 'element count' if what == 'size' else 'recorded capacity', x,
                        'capacity' if what == 'size' else 'allocated block', y))
