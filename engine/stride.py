"""A block allocated for n elements of some width is only stepped through in steps of at most that width."""
from ir import *
from flow import const
from heap import bases

def factor(fn, op, d=0):
    """constant the value is known to be a multiple of because it is multiplied by it; 0 when not known"""
    c = const(op)
    if c is not None: return 0
    i = fn.d(fn.canon(op))
    if i is None or d > 6: return 1
    if i['op'] in ('zext', 'sext', 'trunc', 'freeze'): return factor(fn, i['ops'][0], d + 1)
    if i['op'] == 'mul':
        for a, b in ((0, 1), (1, 0)):
            k = const(i['ops'][a])
            if k is not None: return k * factor(fn, i['ops'][b], d + 1)
        return 0
    if i['op'] == 'shl':
        k = const(i['ops'][1])
        return 0 if k is None else (factor(fn, i['ops'][0], d + 1) << k)
    if i['op'] in ('load', 'call'): return 1
    if i['op'] in ('add', 'sub') and const(i['ops'][1]) is not None: return 1 if factor(fn, i['ops'][0], d + 1) == 1 else 0
    return 0

def width(fn, i):
    """bytes per element a block was allocated for"""
    n = fn.callee(i); o = i['ops']
    if n in ('_safe_emalloc', '_safe_malloc') and const(o[2]) is not None and const(o[1]): return const(o[1]) * factor(fn, o[0])
    if n == '_ecalloc' and const(o[1]): return const(o[1]) * factor(fn, o[0])
    if n == '_safe_erealloc' and const(o[3]) is not None and const(o[2]): return const(o[2]) * factor(fn, o[1])
    if n == '_emalloc' or n == '_erealloc':
        k = factor(fn, o[0] if n == '_emalloc' else o[1])
        return k if k > 1 else 0
    return 0

def steps(fn):
    W = {}
    for i in fn.I.values():
        if i['op'] == 'call' and i['b'] in fn.rpoidx:
            w = width(fn, i)
            if w: W['%%%d' % i['i']] = (i, w)
    if not W: return
    for i in fn.I.values():
        if i['op'] not in ('load', 'store') or i['b'] not in fn.rpoidx: continue
        a = fn.addr(i['ops'][0] if i['op'] == 'load' else i['ops'][1])
        s = max([abs(k) for v, k in a[2]] or [0])
        j = fn.d(a[0])
        if j is not None and j['op'] == 'phi':
            for o in j['ops']:
                b = fn.addr(o)
                if b[0] == a[0] and not b[2]: s = max(s, abs(b[1]))
        if not s: continue
        for r in bases(fn, a[0]):
            if r in W: yield i, W[r][0], W[r][1], s
