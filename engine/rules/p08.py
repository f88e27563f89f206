"""An exception thrown by user code stops the operation."""
from ir import *
from flow import *
from stale import iter_slot
from effects import effects
from model import obj_field
from own import root_kinds
from heap import bases, is_free
LEVEL = 'other'
RULE = ('typestate over flattened SSA: after every point where user code may throw (callback, step of a source iterator, conversion with a warning or deprecation handler) or '
        'where the operation itself throws, no path reaches another callback, another step of the source iterator, a write to the collection or another throw before the pending '
        'exception was tested for (directly, through a failure status or through an undefined result) and found absent; per-element functions do not ask for the next element then')
ASSUMPTIONS = ['an iterator whose valid() reports success has not thrown', 'exceptions from destructors of values released on the way do not count as exceptions of the operation', 'a callback leaves its result undefined exactly when it throws']
FLOORS = {'source': 60, 'sink': 200}

STEPS = {'get_current_data', 'get_current_key', 'move_forward', 'rewind'}
CALLS = {'zend_call_function', 'zend_call_known_function', 'zend_call_known_instance_method', 'zend_call_method'}
CONV = {'zval_get_string_func', 'zval_try_get_string_func', 'zval_get_long_func', 'zval_get_double_func', 'zend_error', 'zend_dval_to_lval_safe', 'zend_incompatible_double_to_long_error', 'array_set_zval_key'}

def kind(fn, i):
    if i['op'] != 'call': return None
    n = fn.callee(i)
    if n is None:
        s = iter_slot(fn, i)
        if s in STEPS: return s
        if s == 'valid': return 'valid'
        if s is None and fn.d(i['callee']) is not None:
            # a class' own get_iterator
            c = fn.d(i['callee'])
            if c['op'] == 'load':
                for st, o in fn.structs_at(c['ops'][0]):
                    if st == '_zend_class_entry': return 'get_iterator'
        return None
    if n in CALLS: return 'callback'
    if n in CONV: return 'conversion'
    return None

def applied(M):
    """functions handed to spl_iterator_apply"""
    if not hasattr(M, '_applied'):
        M._applied = set()
        for n, r in M.P._raw.items():
            for L in r['blocks']:
                for i in L:
                    if i['op'] == 'call' and i['callee'] == '@spl_iterator_apply': M._applied |= {o[1:] for o in i['ops'] if o[0] == '@'}
    return M._applied

class Disc:
    def __init__(s, M, fn, res):
        s.M = M; s.fn = fn; s.res = res
        s.src = {}
        for i in fn.I.values():
            k = kind(fn, i)
            if k: s.src[i['i']] = k
        s.newst = set(); s.ctor = any(r in ('method:__construct', 'method:__unserialize', 'method:__set_state') for _, r in M.roles.get(fn.name, []))
        s.bad = {}; s.applied = fn.name in applied(M)
    def run(s):
        fn = s.fn
        if not any(i['op'] == 'call' and fn.callee(i) in THROWS for i in fn.I.values()) and not s.src: return s
        s.eff = {e.i['i']: e for e in effects(s.M, fn)}
        for i in fn.I.values():
            if i['op'] == 'store' and root_kinds(s.M, fn, fn.addr(i['ops'][1])[0]) & {'new'} and not s.scratch(i): s.newst.add(i['i'])
        s.retoff = fn.prog.field_off('_zend_fcall_info', 'retval')
        s.uedge = {}
        for b in fn.rpo:
            s.uedge[b] = exception_edge(fn, b)
        join = lambda x, y: (x[0] | y[0], x[1] and y[1])
        s.inn, s.outs = forward(fn, (frozenset(), False), s.tr, join, s.edge)
        if s.applied: s.steps()
        return s
    def scratch(s, i):
        """a number put into a buffer that never becomes part of anything: it is given up again in this function"""
        fn = s.fn
        if i.get('sty') not in ('i64', 'i32') : return False
        bs = bases(fn, i['ops'][1])
        if not bs: return False
        freed = set()
        for j in fn.I.values():
            if j['op'] == 'store' and j.get('sty') == 'ptr' and bs & set(bases(fn, j['ops'][0])): return False
            if j['op'] == 'ret' and j['ops'] and j['ops'][0][0] == '%' and bs & set(bases(fn, j['ops'][0])): return False
            if j['op'] == 'call' and is_free(fn.callee(j) or ''): freed |= set(bases(fn, j['ops'][0]))
        return bs <= freed

    def steps(s):
        """a per-element function must not ask for the next element while an exception may be pending"""
        fn = s.fn
        def vals(op, b, st, d=0):
            i = fn.d(op)
            if i is not None and i['op'] in ('zext', 'sext', 'trunc'): yield from vals(i['ops'][0], b, st, d); return
            if i is not None and i['op'] == 'phi' and d < 6:
                for o, pb in zip(i['ops'], i['in']):
                    if pb in s.outs: yield from vals(o, pb, s.edge(s.outs[pb], pb, i['b']), d + 1)
            elif i is not None and i['op'] == 'select' and d < 6:
                for o in i['ops'][1:]: yield from vals(o, b, st, d + 1)
            else: yield const(op), st
        for b in fn.rpo:
            t = fn.blocks[b][-1]
            if t['op'] != 'ret' or b not in s.outs or not t['ops']: continue
            for v, (U, C) in vals(t['ops'][0], b, s.outs[b]):
                if v == 0 and (U or C): s.bad.setdefault(t['i'], ('unchecked', sorted(U)[0] if U else None, 'asking for the next element'))
    def tr(s, st, i):
        U, C = st; fn = s.fn
        k = s.src.get(i['i'])
        if k:
            s.sink(U, C, i, k)
            if k == 'valid': return (U, C)
            return (frozenset([i['i']]) , C)
        if i['op'] == 'call':
            n = fn.callee(i)
            if n in THROWS and U and not C and any(u in s.src for u in U): s.sink(U, C, i, 'throw')
            if n in THROWS: return (frozenset([i['i']]), True)
            if n == 'zend_clear_exception': return (frozenset(), False)
        if i['i'] in s.newst and U: s.sink(U, C, i, 'write to the new contents')
        e = s.eff.get(i['i'])
        if e is not None and U and e.what != 'active_iterators': s.sink(U, C, i, 'write of ' + e.what)
        return st
    def sink(s, U, C, i, k):
        if U and not C: s.bad.setdefault((i['i']), ('unchecked', sorted(U)[0], k))
        elif C and not k.startswith('write'): s.bad.setdefault((i['i']), ('after', None, k))
    def edge(s, st, b, x):
        U, C = st; fn = s.fn
        if U and fn.dominates(x, b):
            # a throw inside a loop body counts for what follows in that iteration and after the loop
            U = frozenset(u for u in U if u in s.src); st = (U, C)
        e = s.uedge[b]
        if e and e[0] != e[1]: return (frozenset(u for u in U if s.src.get(u, 'conversion') == 'conversion' and not s.ctor), True) if x == e[0] else (frozenset(), False)
        if x in pending_edges(fn, b): return (frozenset(), True)
        t = test(fn, b)
        if t and U:
            # the result slot of a callback is undefined exactly when it threw
            j = fn.d(t[0])
            while j is not None and j['op'] == 'and': j = fn.d(j['ops'][0])
            if j is not None and j['op'] == 'load' and t[1] == 0:
                a = fn.addr(j['ops'][0])
                for u in U:
                    c = fn.I[u]
                    if s.src.get(u) == 'callback' and (a[0], a[1] - 8, a[2]) in s.slots(c): return (U - {u}, C) if x == t[3] else (frozenset(), True)
                    if s.src.get(u) in ('get_current_data', 'get_iterator') and t[0] == '%%%d' % u: pass
        return st
    def slots(s, c):
        fn = s.fn
        if not hasattr(s, '_sl'):
            s._sl = {}
        if c['i'] not in s._sl:
            r = fn.addr(c['ops'][0]); out = set()
            for j in fn.I.values():
                if j['op'] == 'store' and j['ops'][0] != 'null':
                    a = fn.addr(j['ops'][1])
                    if a == (r[0], r[1] + s.retoff, r[2]): out.add(fn.addr(j['ops'][0]))
            s._sl[c['i']] = out
        return s._sl[c['i']]

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        d = Disc(M, fn, res).run()
        if not d.src and not d.bad: continue
        res.ob('source', len(d.src), sample=fn.name)
        res.ob('sink', len(getattr(d, 'eff', {})) + len(d.src))
        if d.applied: res.ob('per-element function', sample=fn.name)
        for k, (why, u, what) in d.bad.items():
            i = fn.I[k]
            if why == 'unchecked':
                res.bad('unchecked', '%s:%s->%s' % (fn.src, d.src.get(u, 'throw'), what), fn.locstr(i), '%s goes on (%s) after the %s at %s may have thrown, without testing for it' % (fn.name, what, d.src.get(u, 'throw'), fn.locstr(fn.I[u]) if u is not None else '?'))
            else:
                res.bad('after-throw', '%s:%s' % (fn.src, what), fn.locstr(i), '%s runs %s with an exception pending' % (fn.name, what))
