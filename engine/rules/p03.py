"""Positions supplied by a program are checked against the number of elements before an element is touched."""
from ir import *
from flow import *
from bounds import Bounds, SIZE_FIELDS
from model import obj_field
from own import root_kinds
from lin import add
import heapq

LEVEL = 'other'
RULE = ('taint and difference-bound dataflow over flattened SSA: at every element access whose address depends on a position from outside (a parsed integer argument, '
        'an array-syntax offset after conversion, the position kept by an iterator) the branch conditions on every path, evaluated since user code last ran, imply '
        '0 <= position < number of elements (<= for insertion), and the accessed index lies inside the block the storage field points to')
ASSUMPTIONS = ['the number of elements never exceeds the capacity of the storage between operations', 'the last used slot of a hash table is occupied']
FLOORS = {'position-use': 90, 'in-storage': 90}

COUNT = {'size', 'bit_size', 'nNumOfElements', 'nNumUsed'}
CONV = {'zend_dval_to_lval', 'zval_get_long_func', 'zval_get_long', 'zend_dval_to_lval_safe', 'zend_dval_to_lval_cap', 'zendi_smart_str'}
PASS = ('add', 'sub', 'zext', 'sext', 'trunc', 'and', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'select', 'or', 'freeze', 'phi', 'urem')

def source(M, fn, i):
    """does this instruction yield a position from outside?"""
    if i['op'] == 'load':
        a = fn.addr(i['ops'][0])
        if is_local(fn, a[0]):
            return any(u['op'] == 'call' and (fn.callee(u) or '').startswith(('zend_parse_arg_long', 'zend_parse_arg_number')) and a[0] in [fn.addr(o)[0] for o in u['ops'] if o[0] == '%']
                       for u in fn.uses().get(a[0], []))
        if i['ty'] not in ('i64', 'i32'): return False
        if obj_field(M, fn, i['ops'][0]) is not None: return False
        ks = root_kinds(M, fn, a[0])
        if i['ty'] == 'i64' and ks & {'arg', 'arg*', 'frame', 'param', 'ht'} and not any(s[0] in ('_zend_array', '_zend_string') for s in fn.structs_at(i['ops'][0])): return True
        return any(s[0].endswith('_it') and s[0].startswith('_teds') for s in fn.structs_at(i['ops'][0]))
    return i['op'] == 'call' and fn.callee(i) in CONV

def atoms(M, fn, op, seen=None):
    """maximal sub-expressions of an index that are positions from outside"""
    seen = set() if seen is None else seen
    c = fn.canon(op)
    if c in seen or const(c) is not None: return set()
    seen.add(c)
    i = fn.d(c)
    if i is None: return set()
    if source(M, fn, i): return {c}
    if i['op'] not in PASS: return set()
    out = set()
    for o in i['ops'][1 if i['op'] == 'select' else 0:]: out |= atoms(M, fn, o, seen)
    if out and (i['op'] == 'select' or i['op'] == 'phi' and not any(fn.dominates(i['b'], p) for p in i['in'])): return {c}
    return out

class Guard:
    def __init__(s, M, fn):
        s.M = M; s.fn = fn; s.B = Bounds(M, fn)
        s.events()
        # candidate counts: loads of a count field, and values stored to one, with the event epoch they are valid in
        s.cands = []
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i['op'] == 'load' or i['op'] == 'store':
                    f = s.B.field(i['ops'][0 if i['op'] == 'load' else 1])
                    if f is not None and f.name in COUNT:
                        v = fn.canon('%%%d' % i['i']) if i['op'] == 'load' else fn.canon(i['ops'][0])
                        s.cands.append((v, i, s.ep[i['i']]))

    def events(s):
        """epoch: which user-code call (or merge of them) last happened before each instruction"""
        fn = s.fn; inn = {0: 'entry'}; heap = [(0, 0)]; inq = {0}
        s.ep = {}
        while heap:
            _, b = heapq.heappop(heap); inq.discard(b)
            v = inn[b]
            for i in fn.blocks[b]:
                s.ep[i['i']] = v
                if i['op'] == 'call' and is_event(fn, i): v = 'e%d' % i['i']
            for t in fn.succ[b]:
                if t not in inn: inn[t] = v
                elif inn[t] != v and inn[t] != 'm%d' % t: inn[t] = 'm%d' % t
                else: continue
                if t not in inq: heapq.heappush(heap, (fn.rpoidx[t], t)); inq.add(t)
        s.epout = {}
        for b in fn.rpo:
            v = inn[b]
            for i in fn.blocks[b]:
                if i['op'] == 'call' and is_event(fn, i): v = 'e%d' % i['i']
            s.epout[b] = v
        s.epin = inn

    def here(s, u, slack, loc, ep):
        B = s.B
        if not B.is_nonneg(u, loc) and not s.nonneg(u, loc): return False
        for v, i, e in s.cands:
            if e != ep: continue
            bv, kv = B.lin(v)
            if B.prove_le(u, bv, kv - 1 + slack, loc): return True
        return False

    def nonneg(s, u, loc):
        return any(f[0] == 'le' and (f[1] == u and f[4] or f[1] is None and f[2] == u and f[3] <= 0) for f in s.B.facts(loc))

    def ok(s, u, slack, b, ep=None, seen=frozenset(), depth=0, nxt=None):
        """on every path to (the end of) block b the position u is below the count"""
        fn = s.fn
        ep = s.epout[b] if ep is None else ep
        if s.here(u, slack, b, ep): return True
        if b in seen or depth > 24: return b in seen
        ps = [p for p in fn.pred[b] if p in fn.rpoidx]
        if not ps: return False
        d = fn.d(u)
        if d is not None and d['b'] == b and d['op'] == 'phi':
            for o, p in zip(d['ops'], d['in']):
                if p not in fn.rpoidx: continue
                lb, lk = s.B.lin(o)
                if lb is None:
                    if not s.const_ok(lk, slack, p): return False
                elif not s.edge(lb, slack - lk, p, b, seen | {b}, depth): return False
            return True
        if d is not None and d['b'] == b: return False
        if ep != s.epin[b]: return False           # user code ran in this block: older checks do not count
        dead = s.B.dead_preds(b, nxt)
        return all(p in dead or s.edge(u, slack, p, b, seen | {b}, depth) for p in ps)

    def const_ok(s, k, slack, p): return False

    def edge(s, u, slack, p, b, seen, depth):
        if s.here(u, slack, (p, b), s.epout[p]): return True
        return s.ok(u, slack, p, None, seen, depth + 1, b)

def given_out(fn, u):
    """the address is the function's result (possibly next to a null result on other paths)"""
    if u['op'] == 'ret': return True
    return u['op'] == 'phi' and any(w['op'] == 'ret' for w in fn.uses().get('%%%d' % u['i'], []))

def ring(fn, op, seen=None):
    """index reduced modulo a mask on every path"""
    seen = seen or set()
    c = fn.canon(op)
    if c in seen: return True
    seen.add(c)
    i = fn.d(c)
    if i is None: return False
    if i['op'] in ('zext', 'sext', 'trunc'): return ring(fn, i['ops'][0], seen)
    if i['op'] == 'and': return all(const(o) is None for o in i['ops'])
    if i['op'] == 'phi': return all(ring(fn, o, seen) for o in i['ops'])
    return False

def count_load(G, v):
    """v is a load of a count field (not refilled by a store just before)"""
    i = G.fn.d(v) if v and v[0] == '%' else None
    if i is None or i['op'] != 'load': return None
    f = G.B.field(i['ops'][0])
    return f if f is not None and f.name in COUNT else None

def versus_count(G, u):
    """the position is also compared with the number of elements"""
    for i in G.fn.I.values():
        if i['op'] == 'icmp' and i['pred'] not in ('eq', 'ne'):
            x, y = G.B.lin(i['ops'][0])[0], G.B.lin(i['ops'][1])[0]
            if u in (x, y) and (count_load(G, y) if u == x else count_load(G, x)): return True
    return False

def grows(G, v, k):
    """a count field is set to v + k' with k' > k, or to something not expressed through v, somewhere in the function"""
    fn = G.fn
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i['op'] == 'store':
                f = G.B.field(i['ops'][1])
                if f is not None and f.name in COUNT:
                    bb, kk = G.B.lin(i['ops'][0])
                    if bb is None and kk == 0: continue
                    if bb is not None and bb != v and count_load(G, bb) and kk <= 0: continue
                    if bb != v or kk > k: return True
    return False

def off_by_one(M, fn, G, roles, res):
    """comparisons of a position with the count that let one position past the end through; element reads and block moves that end past the last element"""
    B = G.B
    rn = {r for c, r in roles}
    lenient = rn & {'method:setSize', 'method:insert', 'method:__construct'}
    iter_fn = bool(fn.raw.get('ditypes')) and len(fn.raw['ditypes']) > 1 and fn.raw['ditypes'][1] == 'zend_object_iterator*'
    writes = any(i['op'] == 'store' and root_kinds(M, fn, fn.addr(i['ops'][1])[0]) & {'storage'} for i in fn.I.values())
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i['op'] == 'icmp' and i['pred'] not in ('eq', 'ne') and not lenient:
                X, Y = B.lin(i['ops'][0]), B.lin(i['ops'][1])
                p = i['pred'][1:]
                for (ub, uk), (cb, ck), q in ((X, Y, p), (Y, X, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[p])):
                    if cb is None and ub is not None and i['pred'][0] == 's' and ck - uk + (1 if q in ('le', 'gt') else 0) == 1 and atoms(M, fn, ub) == {ub} and versus_count(G, ub):
                        res.bad('first-rejected', fn.src, fn.locstr(i), 'in %s this comparison treats position 0 as not existing' % fn.name)
                    if ub is None or cb is None or not count_load(G, cb): continue
                    if atoms(M, fn, ub) != {ub}: continue
                    d = fn.d(ub)
                    if d['op'] == 'load' and not iter_fn and any(t[0].endswith('_it') for t in fn.structs_at(d['ops'][0])): continue
                    if grows(G, cb, 0): continue
                    t = ck - uk + (1 if q in ('le', 'gt') else 0)
                    res.ob('boundary', sample='%s %s' % (fn.name, fn.locstr(i)))
                    if t > 0: res.bad('boundary', fn.src, fn.locstr(i), 'in %s this comparison treats position "number of elements%s" as existing' % (fn.name, ' + %d' % (t - 1) if t > 1 else ''))
            elif i['op'] == 'load':
                a = fn.addr(i['ops'][0])
                r = fn.d(a[0])
                if r is None or len(a[2]) != 1 or not root_kinds(M, fn, a[0]) & {'storage'}: continue
                v, sc = a[2][0]
                j = fn.d(v)
                sh = 0
                if j is not None and j['op'] in ('lshr', 'udiv') and const(j['ops'][1]) is not None: v = j['ops'][0]; sh = 1
                bb, kk = B.lin(v)
                if sh and (a[1] or writes): continue
                kk += a[1] // sc if sc > 0 else 0
                f = count_load(G, bb)
                if f is None: continue
                res.ob('at-end', sample='%s %s' % (fn.name, fn.locstr(i)))
                if kk >= 0 and not grows(G, bb, kk): res.bad('past-end-read', fn.src, fn.locstr(i), 'in %s this reads the element at position "number of elements%s"' % (fn.name, ' + %d' % kk if kk else ''))
            elif i['op'] == 'call' and (fn.callee(i) or '').startswith(('llvm.memmove', 'llvm.memcpy', 'memmove', 'memcpy')):
                a = fn.addr(i['ops'][1])
                if not root_kinds(M, fn, a[0]) & {'storage'}: continue
                e = vform(G, i['ops'][1]); e = add(e, vform(G, i['ops'][2]))
                e = {t: c for t, c in e.items() if t != a[0]}
                k = e.pop('', 0)
                if len(e) == 1:
                    (v, sc), = e.items()
                    if count_load(G, v) is None: continue
                    res.ob('move-end', sample='%s %s' % (fn.name, fn.locstr(i)))
                    if sc > 0 and k > 0 and not grows(G, v, k // sc): res.bad('past-end-move', fn.src, fn.locstr(i), 'in %s the block moved here ends %d bytes past the last element' % (fn.name, k))

def vform(G, op, depth=0):
    """linear form over canonical values, memory contents included"""
    fn = G.fn
    k = const(op)
    if k is not None: return {'': k} if k else {}
    c = fn.canon(op)
    k = const(c)
    if k is not None: return {'': k} if k else {}
    i = fn.d(c)
    if i is None or depth > 20: return {c: 1}
    o = i['op']
    if o == 'getelementptr' and i['off'] is not None:
        r = add(vform(G, i['ops'][0], depth + 1), {'': i['off']} if i['off'] else {})
        for v, s in i['var']: r = add(r, vform(G, v, depth + 1), s)
        return r
    if o in ('add', 'sub'):
        b = vform(G, i['ops'][1], depth + 1)
        kb = const(i['ops'][1])
        if kb is not None and i.get('ty') == 'i32' and kb > 0x7fffffff: b = {'': kb - (1 << 32)}
        return add(vform(G, i['ops'][0], depth + 1), b, 1 if o == 'add' else -1)
    if o in ('mul', 'shl'):
        for x, y in ((0, 1), (1, 0)):
            k = const(i['ops'][y])
            if k is not None and (o == 'mul' or y == 1):
                m = k if o == 'mul' else 1 << k
                return {t: cc * m for t, cc in vform(G, i['ops'][x], depth + 1).items()}
    return {c: 1}

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        roles = M.roles.get(fn.name, [])
        if not roles or fn.name.startswith('zm_'): continue
        if all(r in ('method:__unserialize', 'method:__set_state', 'create') for c, r in roles): continue
        G = None; seen = set()
        insert = any(r in ('method:insert',) for c, r in roles)
        sites = []
        G = Guard(M, fn)
        off_by_one(M, fn, G, roles, res)
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i['op'] == 'load': sites.append((b, i, i['ops'][0], True))
                elif i['op'] == 'store': sites.append((b, i, i['ops'][1], True))
                elif i['op'] == 'getelementptr' and i['var'] and any(given_out(fn, u) for u in fn.uses().get('%%%d' % i['i'], [])): sites.append((b, i, '%%%d' % i['i'], True))
                elif i['op'] == 'call' and (fn.callee(i) or '').startswith(('llvm.memmove', 'llvm.memcpy', 'memmove', 'memcpy', 'teds_zval_dtor_range', 'teds_zval_copy_range')):
                    for q, o in enumerate(i['ops'][:2]):
                        if i['at'][q] == 'ptr': sites.append((b, i, o, False))
        if 1:
            for b, i, ptr, elem in sites:
                a = fn.addr(ptr)
                r = fn.d(a[0])
                if r is None or not root_kinds(M, fn, a[0]) & {'storage'}: continue
                us = set()
                for v, _ in a[2]: us |= atoms(M, fn, v)
                if r['op'] == 'phi' and not a[2]:
                    elem = False
                    for o in r['ops']:
                        for v, _ in fn.addr(o)[2]: us |= atoms(M, fn, v)
                if not us: continue
                r = fn.d(a[0])
                fld = obj_field(M, fn, r['ops'][0]) if r['op'] == 'load' else None
                if fld is not None and fld.name == 'arData' and any(c2 for c2 in us if fn.d(c2)['op'] == 'load' and fn.d(c2)['b'] != 0 and any(fn.dominates(fn.d(c2)['b'], q) for q in fn.pred[fn.d(c2)['b']])):
                    res.ob('slot-walk', sample=fn.name); continue
                for u in us:
                    k = (u, b, G.ep[i['i']])
                    if k in seen: continue
                    seen.add(k)
                    res.ob('position-use', sample='%s %s' % (fn.name, fn.locstr(i)))
                    if not G.ok(u, 1 if insert else 0, b, G.ep[i['i']]):
                        res.bad('position-unchecked', '%s' % fn.src, fn.locstr(i), 'in %s the position used here is not known to lie between 0 and the number of elements on every path' % fn.name)
                if elem and len(a[2]) == 1 and not ring(fn, a[2][0][0]):
                    key = (a[0], a[2], b, a[1] // 16)
                    if key in seen: continue
                    seen.add(key)
                    var, sc = a[2][0]
                    base, k = G.B.lin(var); k += a[1] // sc
                    res.ob('in-storage')
                    if not G.B.within(a[0], base, k, sc, b):
                        res.bad('outside-storage', '%s' % fn.src, fn.locstr(i), 'in %s this access is not known to lie inside the storage block' % fn.name)
