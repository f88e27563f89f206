"""Immutable collections never change; construction happens once."""
from ir import *
from flow import *
from model import obj_field
from effects import effects
from pend import must_pending, exits_pending
from rules import common

LEVEL = 'other'
RULE = ('effect analysis over flattened SSA: no entry point of an immutable or empty class other than construction writes a field, '
        'an element or a buffer of an existing object; every mutator of an immutable class ends with an exception on every path; '
        'every write made by a constructor or __unserialize lies behind the test that rejects an already initialised object, and '
        'every path on which it completes leaves the field that test reads non-zero; no other operation leaves that field zero when it returns or when it calls code that may run PHP code')
ASSUMPTIONS = ['objects are reached only through the entry points registered at module startup']
FLOORS = {'entry-points': 100, 'mutators': 15, 'init-writes': 300, 'init-complete': 30, 'init-kept': 30}

INIT = ('__construct', '__unserialize')
MUTATORS = {'set', 'insert', 'push', 'pop', 'pushFront', 'popFront', 'unshift', 'shift', 'clear', 'add', 'remove', 'offsetSet', 'offsetUnset', 'setSize', 'setKeyAt', 'setValueAt', 'shrinkToFit', 'reserve'}

def is_init(M, fn): return any(r[1] in ('method:__construct', 'method:__unserialize') for r in common.roles(M, fn))

def run(ctx, res):
    M = ctx.M
    marks = {}
    for fn in ctx.fns():
        if is_init(M, fn):
            for f, z, b, a in guards(M, fn)[:1]: marks.setdefault(f.struct, f)
    for fn in ctx.fns(res):
        roles = common.roles(M, fn)
        cs = common.classes_of(M, fn)
        if not roles or not cs: continue
        if is_init(M, fn): init(M, fn, res); continue
        if common.is_teardown(M, fn) or any(r[1] == 'create' for r in roles): continue
        imm = [c for c in cs if c['immutable']]
        factory(M, fn, res, marks)
        keeps(M, fn, res, marks)
        if imm:
            res.ob('entry-points', sample=fn.name)
            for e in effects(M, fn):
                if e.what == 'active_iterators': continue
                if not all(c['immutable'] for c in cs): continue
                res.bad('immutable-write', '%s:%s' % (fn.src, e.what), fn.locstr(e.i), '%s writes %s of an immutable collection' % (fn.name, e.what))
        for c, r in roles:
            if r.startswith('method:') and r[7:] in MUTATORS and c and '\\Immutable' in c:
                res.ob('mutators', sample=fn.name)
                for t, st in exits_pending(fn):
                    if st is None: res.bad('mutator-accepts', '%s' % fn.src, fn.locstr(t), '%s can return without throwing' % fn.name)

def guards(M, fn):
    """[(field offset root, zero successor, block)] tests of a field of this that let an initialised object through only to a throw"""
    out = []
    inn, outs = must_pending(fn)
    for b in fn.rpo:
        z = zero_edge(fn, b)
        if not z or z[1] == z[2]: continue
        for op in {z[0], fn.canon(z[0])}:
            j = fn.d(op)
            if j is None or j['op'] != 'load': continue
            f = obj_field(M, fn, j['ops'][0])
            if f is None: continue
            if always_throws(fn, z[2]): out.append((f, z[1], b, fn.addr(j['ops'][0])))
    return out

def always_throws(fn, s):
    """every path from the start of s reaches a return with an exception thrown on it, before any effect"""
    seen = set(); st = [s]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        thrown = any(throws(fn, i) for i in fn.blocks[b])
        if thrown: continue
        t = fn.blocks[b][-1]
        if t['op'] == 'ret': return False
        if not fn.succ[b]: continue
        st += fn.succ[b]
    return True

def init(M, fn, res):
    from own import root_kinds
    gs = guards(M, fn)
    # blocks reachable without passing a guard's zero edge
    zero = {(b, s) for f, s, b, a in gs}
    reach = set(); st = [0]
    while st:
        b = st.pop()
        if b in reach: continue
        reach.add(b)
        for s in fn.succ[b]:
            if (b, s) not in zero: st.append(s)
    for e in effects(M, fn):
        res.ob('init-writes')
        if e.i['b'] in reach:
            res.bad('reinit', '%s:%s' % (fn.src, e.what), fn.locstr(e.i), '%s writes %s of an object that may already be initialised' % (fn.name, e.what))
    # completion: the guarded field is non-zero on every return without a pending exception
    if not gs: return
    complete(fn, res, gs[0][3], gs[0][0].name, None)

def tested_nonzero(fn, b):
    """canonical values known to be non-zero on entry to block b (dominating branch tests)"""
    c = fn.__dict__.setdefault('_tnz', {})
    if b in c: return c[b]
    out = set(); d = fn.idom(); x = b
    while True:
        ps = fn.pred[x]
        if len(ps) == 1:
            z = zero_edge(fn, ps[0])
            if z and z[2] == x and z[1] != x: out.add(z[0]); out.add(fn.canon(z[0]))
        if x not in d or d[x] == x or d[x] is None: break
        x = d[x]
    c[b] = out
    return out

def stores_through(fn):
    if not hasattr(fn, '_sthru'):
        fn._sthru = {}
        for i in fn.I.values():
            if i['op'] == 'store' and i['b'] in fn.rpoidx: fn._sthru.setdefault(fn.addr(i['ops'][1])[0], set()).add(i['b'])
    return fn._sthru

def nonzero(fn, v, b, seen=()):
    """may v be zero when used in block b? True: no null constant reaches it unguarded"""
    v = fn.addr(v)[0] if v[0] in '%a@' else v
    if v[0] == '@': return True
    k = const(v)
    if k is not None: return k != 0
    i = fn.d(v)
    if i is None or v in seen: return True
    t = tested_nonzero(fn, b)
    if v in t or fn.canon(v) in t: return True
    # dereferenced on the way: not null
    for u in stores_through(fn).get(v, ()):
        if fn.dominates(u, b): return True
    if i['op'] == 'phi':
        # a counter advanced together with the pointer may carry the test (size > 0 exactly when something was allocated)
        for w in t:
            j = fn.d(w)
            if j is not None and j['op'] == 'phi' and j['b'] == i['b']: return True
        for o, p in zip(i['ops'], i['in']):
            z = zero_edge(fn, p)
            if z and z[2] == i['b'] != z[1] and o in (z[0], fn.canon(z[0])): continue
            if not nonzero(fn, o, p, seen + (v,)): return False
        return True
    if i['op'] == 'select': return nonzero(fn, i['ops'][1], b, seen + (v,)) and nonzero(fn, i['ops'][2], b, seen + (v,))
    return True

def complete(fn, res, addr, name, alloc):
    Z, N, P = 'zero', 'set', 'pending'
    def tr(s, i):
        if alloc is not None and i is alloc: return (s - {N}) | {Z}
        if i['op'] == 'store' and fn.addr(i['ops'][1]) == addr:
            return s - {Z, N} | {N if nonzero(fn, i['ops'][0], i['b']) else Z}
        if throws(fn, i): return s | {P}
        return s
    # keep the set of (field state, exception pending) combinations
    def tr2(S, i):
        if i['op'] not in ('store', 'call'): return S
        return frozenset(frozenset(tr(x, i)) for x in S)
    def edge2(S, b, t):
        if t in pending_edges(fn, b): return frozenset(frozenset(x | {P}) for x in S)
        e = exception_edge(fn, b)
        if e and t == e[1] != e[0]: S = frozenset(x for x in S if P not in x)
        return S or None
    inn, outs = forward(fn, frozenset([frozenset([N if alloc is not None else Z])]), tr2, lambda x, y: x | y, edge2)
    for b in fn.rpo:
        t = fn.blocks[b][-1]
        if t['op'] == 'ret' and b in outs:
            res.ob('init-complete', sample=fn.name)
            if any(Z in x and P not in x for x in outs[b]):
                res.bad('init-incomplete', '%s:%s' % (fn.src, name), fn.locstr(t), '%s can complete with %s still unset, so the object could be constructed again' % (fn.name, name))

def keeps(M, fn, res, marks):
    """an operation on an initialised object leaves the field that marks it as initialised non-zero"""
    seen = set()
    for i in fn.I.values():
        if i['op'] != 'store' or i['b'] not in fn.rpoidx: continue
        f = obj_field(M, fn, i['ops'][1])
        if f is None or f.struct not in marks or marks[f.struct].name != f.name: continue
        a = fn.addr(i['ops'][1])
        j = fn.d(a[0])
        if j is not None and j['op'] == 'call' and fn.callee(j) == 'zend_object_alloc': continue
        if a in seen: continue
        seen.add(a)
        res.ob('init-kept', sample=fn.name)
        def tr(S, i):
            if i['op'] != 'store' or fn.addr(i['ops'][1]) != a: return S
            return frozenset([None if nonzero(fn, i['ops'][0], i['b']) else i['i']])
        inn, outs = forward(fn, frozenset([None]), tr, lambda x, y: x | y, lambda S, b, t: S)
        for b in fn.rpo:
            if b not in inn: continue
            S = inn[b]
            for t in fn.blocks[b]:
                if t['op'] == 'ret' or is_event(fn, t):
                  for z in S - {None}:
                    res.bad('init-lost', '%s:%s' % (fn.src, f.name), fn.locstr(fn.I[z]), '%s leaves %s unset, so an object in use could be constructed again' % (fn.name, f.name))
                S = tr(S, t)

def factory(M, fn, res, marks):
    """objects a factory, clone or conversion hands out are initialised as well"""
    for i in fn.I.values():
        if i['op'] != 'call' or fn.callee(i) != 'zend_object_alloc' or i['b'] not in fn.rpoidx: continue
        root = '%%%d' % i['i']
        size = const(i['ops'][0])
        names = [n for (kk, sz), ns in M.by_k.items() if sz == size for n in ns]
        offs = set()
        for n in names:
            K = next(f[1] for f in M.P.structs[n]['fields'] if f[3] == 'zend_object' and f[4] == 'agg')
            if n in marks: offs.add((K + marks[n].off, marks[n].name))
        if len({o for o, _ in offs}) != 1: continue
        off, name = sorted(offs)[0]
        complete(fn, res, (root, off, ()), name, i)
