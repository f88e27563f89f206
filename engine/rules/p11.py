"""An operation that fails leaves the collection as it was."""
from ir import *
from flow import *
from effects import effects
from model import obj_field
LEVEL = 'other'
RULE = ('effect-before-throw dataflow over flattened SSA: on no path of a mutating operation is a field, element, buffer or node of the existing collection written before the '
        'operation throws an exception of its own (argument conversion, range, emptiness or type check); construction and unserialisation of a new object excepted')
ASSUMPTIONS = ['exceptions raised by destructors or callbacks after the change has been completed are not failures of the operation']
FLOORS = {'throw-site': 150, 'mutator': 60}
HIDDEN = ('active_iterators', 'capacity', 'bit_capacity', 'should_rebuild_properties')   # not observable by themselves
LAZY = {'Teds\\CachedIterable'}                             # fetching from the lazy source is not a change
NEWOBJ = ('method:__construct', 'method:__unserialize', 'method:__set_state', 'create')

def rechecks(M, fn):
    """throws inside a loop whose guard compares the loop counter with a field this operation itself has just set on every path: the check
    re-validates positions the operation created"""
    def tr(st, i):
        if i['op'] == 'store':
            f = obj_field(M, fn, i['ops'][1])
            if f is not None: return st | {f.name}
        return st
    inn, outs = forward(fn, frozenset(), tr, lambda a, b: a & b)
    def slice_(op, d=0):
        i = fn.d(op)
        if i is None or d > 6: return
        yield i
        if i['op'] in ('icmp', 'add', 'sub', 'zext', 'sext', 'trunc', 'freeze', 'and', 'or', 'mul') or i['op'] == 'call' and (fn.callee(i) or '').startswith('llvm.expect'):
            for o in i['ops']: yield from slice_(o, d + 1)
    out = set()
    for i in fn.I.values():
        if not throws(fn, i): continue
        b = i['b']
        while b is not None and not (len(fn.succ[b]) == 2 and not fn.postdominates(i['b'], b)):
            nb = fn.idom[b] if not callable(fn.idom) else fn.idom()[b]
            if nb == b: b = None
            else: b = nb
        if b is None: continue
        ce = cond_edges(fn, b)
        if not ce or b not in outs: continue
        fs = set(); phi = False
        for j in slice_(ce[0]):
            if j['op'] == 'load':
                f = obj_field(M, fn, j['ops'][0])
                if f is not None: fs.add(f.name)
            elif j['op'] == 'phi' and any(fn.dominates(j['b'], x) for x in j['in']): phi = True
        if phi and fs and fs <= outs[b]: out.add(i['i'])
    return out

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        roles = M.roles.get(fn.name, [])
        if not roles or all(c is None for c, r in roles): continue
        th = {i['i'] for i in fn.I.values() if throws(fn, i)}
        res.ob('throw-site', len(th))
        if any(r in NEWOBJ for c, r in roles): continue
        ef = {e.i['i']: e for e in effects(M, fn) if e.what not in HIDDEN and not (e.kind == 'field' and 'entries' in e.what)}
        if not ef: continue
        if any(c in LAZY for c, r in roles): res.ob('lazy'); continue
        ok = rechecks(M, fn)
        res.ob('mutator', sample=fn.name)
        def tr(st, i):
            e = ef.get(i['i'])
            if e is not None: return st | {i['i']}
            if i['i'] in th and i['i'] not in ok and st:
                e = ef[min(st)]
                res.bad('changed-then-throws', '%s:%s' % (fn.src, e.what), fn.locstr(i), '%s throws here after it has already changed %s at %s' % (fn.name, e.what, fn.locstr(e.i)))
            return st
        forward(fn, frozenset(), tr, lambda a, b: a | b)
