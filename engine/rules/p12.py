"""Operations that only read leave the collection as it was."""
from ir import *
from flow import zero_edge, throws
from model import obj_field
from effects import effects
from rules import common

LEVEL = 'other'
RULE = ('effect analysis over flattened SSA: no entry point other than construction, destruction and the declared mutators writes, moves, frees or '
        'reallocates a field, an element, a buffer or a node of a collection that existed before the call (registration of live iterators and the lazy '
        'fetch of a lazily cached source excepted); foreach by reference, which would hand out references into storage, is refused with an exception by every iterator factory')
ASSUMPTIONS = ['objects are reached only through the entry points registered at module startup']
FLOORS = {'read-only': 330, 'writes-known': 100, 'by-reference iteration': 15}

MUT_METHODS = {'__construct', '__unserialize', '__set_state', 'push', 'pushInts', 'pushBits', 'setInt', 'setBit', 'setInt8', 'setInt16', 'setInt32', 'setInt64', 'pushFront', 'pop', 'popFront', 'shift', 'unshift', 'insert', 'set', 'clear', 'add', 'remove', 'extract', 'next',
               'offsetSet', 'offsetUnset', 'setSize', 'setKeyAt', 'setValueAt', 'shrinkToFit', 'reserve'}
MUT_HANDLERS = {'write_dimension', 'unset_dimension', 'free_obj', 'dtor_obj'}
LAZY = {'Teds\\CachedIterable'}
ITER_ONLY = {'active_iterators'}

def mutator(role):
    k, _, n = role.partition(':')
    if k == 'method': return n in MUT_METHODS
    if k == 'handler': return n in MUT_HANDLERS
    return k == 'create' or role == 'iter:dtor'

def without_source(M, fn):
    """blocks reachable without having found the lazily read source still open"""
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        z = zero_edge(fn, b); skip = None
        if z and z[1] != z[2]:
            for op in {z[0], fn.canon(z[0])}:
                j = fn.d(op)
                if j is not None and j['op'] == 'load':
                    f = obj_field(M, fn, j['ops'][0])
                    if f is not None and f.type.startswith('zend_object_iterator'): skip = z[2]
        st += [s for s in fn.succ[b] if s != skip]
    return seen

def by_ref(fn, res):
    """foreach by reference would hand out references into element storage: it has to be refused"""
    from rules.p07 import always_throws
    zero = set()
    for b in fn.rpo:
        z = zero_edge(fn, b)
        if z and z[1] != z[2] and 'a2' in (z[0], fn.canon(z[0])) and always_throws(fn, z[2]): zero.add((b, z[1]))
    res.ob('by-reference iteration', sample=fn.name)
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(throws(fn, i) for i in fn.blocks[b]): continue
        t = fn.blocks[b][-1]
        if t['op'] == 'ret':
            res.bad('by-reference', fn.src, fn.locstr(t), '%s lets foreach take references into the collection' % fn.name)
        st += [s for s in fn.succ[b] if (b, s) not in zero]

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        roles = common.roles(M, fn)
        if not roles or all(c is None for c, r in roles): continue
        ef = effects(M, fn)
        if any(r == 'get_iterator' for c, r in roles): by_ref(fn, res)
        if any(mutator(r) for c, r in roles):
            res.ob('writes-known', len(ef)); continue
        lazy = all(c in LAZY for c, r in roles)
        if lazy: live = without_source(M, fn)
        res.ob('read-only', sample=fn.name)
        for e in ef:
            if e.what in ITER_ONLY and any(r == 'get_iterator' or r.startswith('iter:') for c, r in roles): continue
            if lazy and e.i['b'] not in live: res.ob('lazy-fetch'); continue
            res.bad('reader-writes', '%s:%s' % (fn.src, e.what), fn.locstr(e.i), '%s only reads but writes %s (%s)' % (fn.name, e.what, e.kind))
