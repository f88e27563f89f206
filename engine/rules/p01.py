"""No pointer into a collection's storage survives a call that may run user code."""
from stale import Stale
from ir import AnalysisBroken
from rules import common
from model import obj_field

LEVEL = 'other'
RULE = ('typestate over flattened SSA: a pointer loaded from an object storage field becomes stale at every call that may run '
        'user code; any dereference, free or hand-over of a stale or freed pointer is a violation')
ASSUMPTIONS = ['effects of PHP API functions on user code follow the table in engine/ir.py',
               'immutable classes never change their storage once constructed (decided by P07)']
FLOORS = {'functions': 500, 'uses': 2000, 'events': 800}

def run(ctx, res):
    for fn in ctx.fns(res):
        if common.is_teardown(ctx.M, fn): 
            res.ob('teardown-functions'); free = True
        else: free = False
        s = Stale(ctx.M, fn, free)
        s.run()
        res.ob('functions'); res.ob('uses', s.nuse); res.ob('events', s.nevents)
        for (i, what, t) in s.reports.values():
            if common.exempt_storage(ctx.M, fn, t): continue
            ev = t[4]
            res.bad('stale-use', '%s:%s:%s' % (fn.src, t[2], what.split()[0]), fn.locstr(i),
                    '%s: %s %s pointer (loaded at %s) after %s at %s' % (fn.name, what, t[2], fn.locstr(t[3]),
                    'free' if t[1] == 'freed' else 'a call that may run user code', fn.locstr(ev) if ev else '?'))
        for (i, t) in s.inplace.values():
            if common.exempt_storage(ctx.M, fn, t): continue
            res.bad('in-place-release', '%s:%s' % (fn.src, t[2]), fn.locstr(i),
                    '%s: destroys an element while it is still reachable through %s' % (fn.name, t[2]))
        if not free:
            for i, f in held_releases(ctx.M, fn, res):
                res.bad('in-place-release', '%s:%s' % (fn.src, f.name), fn.locstr(i), '%s: destroys %s while the collection still refers to it, so user code run by the destruction can use it' % (fn.name, f.name))

RELEASES = {'zend_iterator_dtor': 0, 'zend_object_release': 0, 'zend_objects_store_del': 0}
def held_releases(M, fn, res):
    out = []
    for i in fn.I.values():
        if i['op'] != 'call' or fn.callee(i) not in RELEASES or i['b'] not in fn.rpoidx: continue
        d = fn.d(fn.addr(i['ops'][RELEASES[fn.callee(i)]])[0])
        if d is None or d['op'] != 'load': continue
        f = obj_field(M, fn, d['ops'][0])
        if f is None: continue
        res.ob('held-release')
        a = fn.addr(d['ops'][0])
        def before(x, y): return x['b'] == y['b'] and x['p'] < y['p'] or x['b'] != y['b'] and fn.dominates(x['b'], y['b'])
        if not any(s['op'] == 'store' and fn.addr(s['ops'][1]) == a and before(s, i) and not before(s, d) for s in fn.I.values()): out.append((i, f))
    return out
