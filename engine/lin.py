"""Linear forms of integer and address expressions over field loads and other opaque values."""
from ir import *
from flow import const
from model import obj_field

def add(a, b, k=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + k * c
        if r[t] == 0: del r[t]
    return r

def lin(M, fn, op, depth=0):
    """{atom: coefficient}; atom '' is the constant term, 'F:name' a field of the object, otherwise a canonical value"""
    k = const(op)
    if k is not None: return {'': k} if k else {}
    i = fn.d(op)
    if i is None or depth > 24: return {fn.canon(op): 1}
    o = i['op']
    if o in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'): return lin(M, fn, i['ops'][0], depth + 1)
    if o == 'getelementptr' and i['off'] is not None:
        r = add(lin(M, fn, i['ops'][0], depth + 1), {'': i['off']} if i['off'] else {})
        for v, s in i['var']: r = add(r, lin(M, fn, v, depth + 1), s)
        return r
    if o in ('add', 'sub', 'or'):
        a = lin(M, fn, i['ops'][0], depth + 1); b = lin(M, fn, i['ops'][1], depth + 1)
        if o == 'or': return {fn.canon(op): 1}
        kb = const(i['ops'][1])
        if kb is not None and i.get('ty') == 'i32' and kb > 0x7fffffff: b = {'': kb - (1 << 32)}
        return add(a, b, 1 if o == 'add' else -1)
    if o == 'mul' or o == 'shl':
        for x, y in ((0, 1), (1, 0)):
            k = const(i['ops'][y])
            if k is not None and (o == 'mul' or y == 1):
                m = k if o == 'mul' else 1 << k
                return {t: c * m for t, c in lin(M, fn, i['ops'][x], depth + 1).items()}
    if o == 'load':
        f = obj_field(M, fn, i['ops'][0])
        if f is not None: return {'F:' + f.name: 1}
        c = fn.canon(op)
        if c != op: return lin(M, fn, c, depth + 1)
    if o == 'phi':
        c = fn.canon(op)
        if c != op: return lin(M, fn, c, depth + 1)
    return {fn.canon(op): 1}

def induction(M, fn, phi):
    """(start form, step) of a loop counter or pointer, or None"""
    if phi['op'] != 'phi' or len(phi['ops']) != 2: return None
    me = '%%%d' % phi['i']
    for x, y in ((0, 1), (1, 0)):
        if not fn.dominates(phi['b'], phi['in'][y]): continue
        n = lin(M, fn, phi['ops'][y])
        if n.get(me) != 1: continue
        n = {t: c for t, c in n.items() if t != me}
        if set(n) <= {''} and n: return lin(M, fn, phi['ops'][x]), n['']
    return None
