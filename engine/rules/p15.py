"""Failures are reported by the documented exception, exactly when they occur."""
from ir import *
from flow import *
from model import obj_field
from effects import effects, ITER_FIELDS
from pend import ce_name, must_pending
from rules.p03 import Guard, COUNT

LEVEL = 'other'
RULE = ('exception-effect analysis over flattened SSA: for every PHP-visible method and array-syntax handler, the set of exception classes its own code can raise is exactly the documented one; '
        'the emptiness exception is raised on precisely the paths on which the element count or root was found to be zero, and no path on which it was zero returns normally; '
        'no accessor returns normally without a result (or with a null it did not find) and no writer returns normally without having written')
ASSUMPTIONS = ['exceptions for wrong argument counts and types are raised by the PHP API as declared (P02)']
FLOORS = {'method': 600, 'empty': 35, 'result': 55, 'change': 38}

EMPTY = {'pop', 'popFront', 'shift', 'first', 'last', 'top', 'bottom', 'firstKey', 'lastKey', 'topKey', 'bottomKey', 'extract'}
U = 'spl_ce_UnderflowException'; O = 'spl_ce_OutOfBoundsException'; R = 'spl_ce_RuntimeException'; V = 'spl_ce_UnexpectedValueException'; X = 'teds_ce_UnsupportedOperationException'
PARAM = {'zend_wrong_parameter_error', 'zend_wrong_parameters_count_error', 'zend_wrong_parameters_none_error'}

def own_throws(fn):
    out = []
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i['op'] == 'call' and fn.callee(i) in THROWS:
                n = fn.callee(i)
                out.append((i, (ce_name(fn, i['ops'][0]) if n.startswith('zend_throw') and n != 'zend_throw_exception_object' else None) or n))
    return out

def threaded(fn):
    """control-flow graph in which a block that tests its own phi is split by predecessor; nodes are (block, pred or None)"""
    split = {}; never = {}
    for b in fn.rpo:
        z = zero_edge(fn, b)
        if not z or z[1] == z[2]: continue
        d = fn.d(z[0])
        if d is not None and d['op'] == 'getelementptr': never[b] = z[1]
        if d is not None and d['op'] == 'phi' and d['b'] == b: split[b] = (d, z)
    def known(d, p):
        for o, q in zip(d['ops'], d['in']):
            if q == p:
                if o in ('null', '0', 'false') or const(o) == 0: return True
                if const(o) is not None or o[0] == '@': return False
                g = fn.d(o)
                if g is not None and g['op'] == 'getelementptr': return False   # address of a stored element
        return None
    def nexts(n):
        b, p = n
        ss = [x for x in fn.succ[b] if x != never.get(b)]
        if b in split and p is not None:
            d, z = split[b]
            k = known(d, p)
            if k is True: ss = [z[1]]
            elif k is False: ss = [z[2]]
        return [(s, b if s in split else None) for s in ss]
    return nexts

def empties(M, fn):
    """block -> (zero successor, other successor) of tests whether the collection is empty"""
    out = {}
    for b in fn.rpo:
        z = zero_edge(fn, b)
        if not z or z[1] == z[2]: continue
        for o in (z[0], fn.canon(z[0])):
            d = fn.d(o)
            if d is not None and d['op'] == 'load':
                f = obj_field(M, fn, d['ops'][0])
                if f is not None and (f.name in COUNT or f.name == 'root' ): out[b] = (z[1], z[2])
    return out

def reach(nexts, start, cut):
    seen = {start}; st = [start]
    while st:
        n = st.pop()
        for m in nexts(n):
            if (n[0], m[0]) in cut or m in seen: continue
            seen.add(m); st.append(m)
    return seen

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        roles = M.roles.get(fn.name, [])
        if not roles: continue
        rn = {r.split(':', 1)[-1] for c, r in roles}
        th = own_throws(fn)
        if rn & EMPTY:
            res.ob('empty', sample=fn.name)
            em = empties(M, fn)
            nx = threaded(fn)
            ze = {(b, z) for b, (z, nz) in em.items()}; nze = {(b, nz) for b, (z, nz) in em.items()}
            r1 = {n[0] for n in reach(nx, (0, None), ze)}
            for i, c in th:
                if all(kind(M, x) == 'empty' for x, r in roles if x): break
                if c == U and i['b'] in r1: res.bad('only', fn.name, fn.locstr(i), '%s raises the emptiness exception although the collection may hold elements' % fn.name)
            inn, outs = must_pending(fn)
            pe = pending(fn, outs)
            r2 = {n[0] for n in reach(nx, (0, None), nze | pe)}
            for b in r2:
                if fn.blocks[b][-1]['op'] == 'ret' and outs.get(b) is None: res.bad('always', fn.name, fn.locstr(fn.blocks[b][-1]), '%s can return normally for an empty collection' % fn.name)
        classes(M, fn, res, roles, rn, th)
        inn, outs = must_pending(fn)
        pe = pending(fn, outs)
        if not fn.is_method and not rn & {'write_dimension', 'read_dimension'}: continue
        if all(outs.get(b) is not None for b in fn.rpo if fn.blocks[b][-1]['op'] == 'ret' and b in outs): continue
        if rn & CHANGES or rn & UNSETS and any(c and is_seq(M, c) for c, r in roles):
            res.ob('change', sample=fn.name)
            eff = {e.i['b'] for e in effects(M, fn) if not (e.kind == 'field' and e.what in ITER_FIELDS)}
            skipped(fn, res, pe, outs, eff, '%s can return normally without having done anything')
        if rn & RESULTS and fn.is_method:
            res.ob('result', sample=fn.name)
            w = set()
            for i in fn.I.values():
                if i['op'] == 'store' and fn.addr(i['ops'][1])[:2] == ('a1', 8): 
                    if const(i['ops'][0]) == 1 and not (outs.get(i['b']) is not None): res.bad('null', fn.name, fn.locstr(i), '%s returns null instead of raising an exception' % fn.name)
                    w.add(i['b'])
                elif i['op'] == 'call' and any(t == 'ptr' and o[0] in '%a' and fn.addr(o)[0] == 'a1' for o, t in zip(i['ops'], i['at'])) : w.add(i['b'])
            skipped(fn, res, pe, outs, w, '%s can return normally without a result')

def skipped(fn, res, pe, outs, done, msg):
    seen = {0}; st = [0]
    while st:
        b = st.pop()
        if b in done: continue
        if fn.blocks[b][-1]['op'] == 'ret' and outs.get(b) is None:
            res.bad('done', fn.name, fn.locstr(fn.blocks[b][-1]), msg % fn.name); return
        for s in fn.succ[b]:
            if (b, s) not in pe and s not in seen: seen.add(s); st.append(s)

def pending(fn, outs):
    """edges on which an exception is certainly pending"""
    out = set()
    for b in fn.rpo:
        e = exception_edge(fn, b)
        if e and e[0] != e[1]: out.add((b, e[0]))
        for s in fn.succ[b]:
            if outs.get(b) is not None or s in pending_edges(fn, b): out.add((b, s))
    return out

def is_seq(M, c): return any(x in c for x in ('Vector', 'Deque')) and 'Map' not in c and 'Set' not in c

POSN = {'get', 'set', 'insert', 'offsetGet', 'offsetSet', 'offsetUnset', 'keyAt', 'valueAt', 'setKeyAt', 'setValueAt', 'setBit', 'setInt', 'read_dimension', 'write_dimension'}
CHANGES = {'set', 'offsetSet', 'write_dimension', 'setKeyAt', 'setValueAt', 'setBit', 'setInt', 'setInt8', 'setInt16', 'setInt32', 'setInt64', 'pop', 'popFront', 'shift', 'extract'}
UNSETS = {'offsetUnset', 'unset_dimension'}
RESULTS = {'get', 'offsetGet', 'first', 'last', 'top', 'bottom', 'firstKey', 'lastKey', 'topKey', 'bottomKey', 'pop', 'popFront', 'shift', 'extract', 'keyAt', 'valueAt', 'current',
           'getInt8', 'getUInt8', 'getInt16', 'getUInt16', 'getInt32', 'getUInt32', 'getInt64'}

BUILD = {'__construct', '__unserialize', '__set_state', 'fromPairs', 'unserialize'}
MUTATORS = {'set', 'insert', 'push', 'pop', 'pushFront', 'popFront', 'shift', 'unshift', 'offsetSet', 'offsetUnset', 'add', 'remove', 'clear', 'setSize', 'write_dimension', 'unset_dimension'}
KEYED = {'get', 'offsetGet', 'read_dimension'}

def kind(M, c):
    if 'Empty' in c: return 'empty'
    k = M.classes.get(c)
    return 'immutable' if k and k['immutable'] and 'Cached' not in c else 'cached' if 'Cached' in c else 'map' if 'Map' in c else 'set' if 'Set' in c else 'heap' if 'Heap' in c else 'sequence' if is_seq(M, c) else 'other'

def expected(M, c, r):
    """(exceptions that have to be possible, further ones that may be) for this method of this class"""
    k = kind(M, c)
    need, may = set(), set()
    if r in BUILD: return set(), {R, V, 'zend_type_error'}
    if r == 'get_iterator': return {'zend_throw_error'}, set()
    if r in ('get_current_data', 'get_current_key'): return set(), {O, R}
    if k == 'cached': may.add(R)
    if k in ('empty', 'immutable', 'cached') and r in MUTATORS:
        if k == 'empty' and (r in ('clear', 'remove') or r == 'offsetUnset' and 'Map' in c): return set(), may
        return ({X}, may) if r not in ('write_dimension', 'unset_dimension') else (set(), {X})
    if k in ('empty', 'immutable') and r == 'read_dimension': may.add(X)
    if k == 'empty' and r in ('current', 'key'): return {O}, set()
    if r in EMPTY: return {U}, may
    if k == 'heap' and r in ('current', 'key', 'next'): return set(), {U}
    if k == 'map' or k == 'empty' and 'Map' in c:
        if r in KEYED: return {O}, may
        if r in ('write_dimension', 'unset_dimension', 'has_dimension', 'offsetSet', 'offsetUnset', 'offsetExists', 'containsKey', 'contains'): return set(), {R} if r == 'write_dimension' else set()
        return set(), may
    may.add('zend_type_error')
    if r in POSN or r.startswith(('getInt', 'getUInt', 'setInt')):
        return {O}, may | ({R} if r == 'write_dimension' else set())
    if r == 'setSize': return set(), {'zend_argument_value_error', 'zend_value_error', V}
    if r in ('pushFront', 'unshift'): may.add(O)
    if r == 'reserve': may.add(V)
    return need, may

def classes(M, fn, res, roles, rn, th):
    got = {}
    for i, c in th:
        if c not in PARAM: got.setdefault(c, i)
    for c, r in roles:
        if not c: continue
        r = r.split(':', 1)[-1]
        res.ob('method')
        need, may = expected(M, c, r)
        for x in sorted(set(got) - need - may): res.bad('class', '%s|%s' % (fn.name, x), fn.locstr(got[x]), '%s of %s raises %s, which is not what it documents' % (r, c, x))
        for x in sorted(need - set(got)): res.bad('class', '%s|no %s' % (fn.name, x), fn.locstr(fn.blocks[0][0]), '%s of %s never raises %s, which it documents' % (r, c, x))
