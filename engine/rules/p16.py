"""Data of the wrong shape (serialised payloads, pairs, elements of typed collections) is refused by an exception."""
from ir import *
import forms
from flow import *
from own import root_kinds
from model import obj_field, new_field
from pend import must_pending
from rules.p15 import pending, kind
from rules.p19 import type_addr, FOREIGN
from rules.p09 import Tags, ALL, payload

LEVEL = 'other'
RULE = ('refusal analysis over flattened SSA: at every test of the shape of supplied data (missing entry, type of an entry, string key, odd or wrong number of entries, length that is not a multiple of the element size, '
        'type marker out of range, element of a type the collection cannot hold) no path from the failing outcome reaches a normal return; every restoring function performs the tests its data format calls for')
ASSUMPTIONS = ['P09: data is read as a type only after a test for it', 'P03: positions inside the data are bounds-checked']
FLOORS = {'lookup': 40, 'pair': 15, 'key': 20, 'odd': 8, 'count': 8, 'length': 3, 'marker': 3, 'element': 25}

RESTORE = {'__unserialize', '__set_state', 'fromPairs', 'unserialize'}
STORES = RESTORE | {'__construct', 'push', 'pushFront', 'unshift', 'insert', 'set', 'offsetSet', 'write_dimension', 'add', 'pushInts', 'pushBits', 'setBit', 'setInt'}
FINDS = {'zend_hash_index_find', 'zend_hash_find', 'zend_hash_find_known_hash', '_zend_hash_index_find', 'zend_hash_str_find'}
HELD = {'IntVector': {4}, 'SortedIntVectorSet': {4}, 'ImmutableSortedIntSet': {4}, 'BitVector': {2, 3}, 'ImmutableSortedStringSet': {6}}
IS_REF = 10

def leaks(fn, start, cut, outs):
    """the return a path from start reaches without an exception, if any"""
    seen = {start}; st = [start]
    while st:
        b = st.pop()
        if outs.get(b) is None and fn.blocks[b][-1]['op'] == 'ret': return fn.blocks[b][-1]
        if outs.get(b) is not None: continue
        for s in fn.succ[b]:
            if (b, s) in cut or s in seen: continue
            seen.add(s); st.append(s)
    return None

def of_call(fn, op, names):
    for o in (op, fn.canon(op)):
        d = fn.d(o)
        if d is not None and d['op'] == 'call' and fn.callee(d) in names: return d
    return None

def count_load(fn, op):
    """is operand the number of elements of a supplied array?"""
    for o in (op, fn.canon(op)):
        d = fn.d(o)
        if d is None: continue
        if d['op'] == 'call' and fn.callee(d) == 'zend_hash_num_elements': return True
        if d['op'] == 'load' and any(s == '_zend_array' and fn.addr(d['ops'][0])[1] - o2 == fn.prog.field_off('_zend_array', 'nNumOfElements') for s, o2 in fn.structs_at(d['ops'][0])): return True
    return False

def bases(fn, root, seen):
    """addresses a walking pointer was loaded from"""
    d = fn.d(root)
    if d is None or root in seen: return set()
    seen.add(root)
    if d['op'] in ('phi', 'select'):
        r = set()
        for o in d['ops'][1 if d['op'] == 'select' else 0:]: r |= bases(fn, fn.addr(o)[0], seen)
        return r
    return {fn.addr(d['ops'][0])[0]} if d['op'] == 'load' else set()

def is_key(M, fn, op):
    """is operand the key of an entry of the array that was passed in (not of an array nested in it)?"""
    d = fn.d(op)
    if d is not None and d['op'] == 'phi': return any(is_key(M, fn, o) for o in d['ops'] if o != op and (fn.d(o) or {}).get('op') == 'load')
    if d is None or d['op'] != 'load': return False
    a = fn.addr(d['ops'][0])
    if not any('arg' in root_kinds(M, fn, r) for r in bases(fn, a[0], set())): return False
    return any(s == '_Bucket' and a[1] - o == fn.prog.field_off('_Bucket', 'key') for s, o in fn.structs_at(d['ops'][0]))

def run(ctx, res):
    forms.learn(ctx.M, ctx.fns())
    M = ctx.M
    for fn in ctx.fns(res):
        roles = M.roles.get(fn.name, [])
        rn = {r.split(':', 1)[-1] for c, r in roles}
        cls = {c.split('\\')[-1] for c, r in roles if c}
        if not rn & STORES: continue
        inn, outs = must_pending(fn)
        pe = pending(fn, outs)
        def judge(rule, b, start, cut, what):
            res.ob(rule, sample=fn.name)
            if leaks(fn, start, pe | cut, outs): res.bad(rule, '%s|%s' % (fn.name, what), fn.locstr(fn.blocks[b][-1]), '%s accepts %s' % (fn.name, what))
        tests = {}
        for b in fn.rpo:
            t = test(fn, b)
            if t and t[2] != t[3]:
                a = type_addr(fn, t[0])
                if a is not None and 0 < t[1] < 0x10000 and t[1] & 255 != IS_REF: tests.setdefault(a, []).append((b, t))
        if rn & RESTORE: restore(M, fn, res, rn, cls, roles, tests, judge, pe, outs)
        held = [HELD[c] for c in cls if c in HELD]
        if held and rn & STORES and tests: elements(M, fn, res, held[0], tests, judge)

def restore(M, fn, res, rn, cls, roles, tests, judge, pe, outs):
    def tagtests(a, rule, what):
        L = tests.get(a, [])
        good = {(b, t[2]) for b, t in L}
        for b, t in L: judge(rule, b, t[3], good, what)
    looked = 0
    for i in list(fn.I.values()):
        if i['op'] == 'call' and fn.callee(i) in FINDS and i['b'] in fn.rpoidx:
            n = '%%%d' % i['i']
            looked += 1
            tagtests((n, 0, ()), 'lookup', 'an entry of the wrong type')
            # the array the entry is looked up in: an element that has to be a pair
            d = fn.d(i['ops'][0])
            if d is not None and d['op'] == 'load' and payload(fn, d) and 'fromPairs' in rn: tagtests(payload(fn, d), 'pair', 'an element that is not a pair')
    keys = odd = cnt = 0
    for b in fn.rpo:
        z = zero_edge(fn, b)
        if z and z[1] != z[2]:
            if of_call(fn, z[0], FINDS): judge('lookup', b, z[1], set(), 'a missing entry')
            if is_key(M, fn, z[0]) and '__unserialize' in rn: keys += 1; judge('key', b, z[2], set(), 'a string key')
            d = fn.d(z[0])
            if d is not None and (d['op'] == 'and' and const(d['ops'][1]) == 1 or d['op'] == 'urem' and const(d['ops'][1]) == 2) and count_load(fn, strip(fn, d['ops'][0])):
                odd += 1; judge('odd', b, z[2], set(), 'an odd number of entries')
        t = test(fn, b)
        if t and t[2] != t[3] and t[1] > 0 and count_load(fn, t[0]) and '__unserialize' in rn: cnt += 1; judge('count', b, t[3], set(), 'a wrong number of entries')
    if '__unserialize' not in rn and 'unserialize' not in rn: return
    at = fn.locstr(fn.blocks[0][0])
    if '__unserialize' in rn:
        ks = {kind(M, c) for c, r in roles if c}
        if looked:
            res.ob('count')
            if not cnt: res.bad('count', fn.name + '|none', at, '%s never checks the number of entries it is given' % fn.name)
        elif not ks & {'empty'} and any(copied(fn)):
            res.ob('key')
            if not keys: res.bad('key', fn.name + '|none', at, '%s never checks for string keys' % fn.name)
            if any('Map' in c or 'Iterable' in c for c in cls):
                res.ob('odd')
                if not odd: res.bad('odd', fn.name + '|none', at, '%s never checks for an odd number of entries' % fn.name)
    lengths(M, fn, res, judge)
    markers(M, fn, res, judge)
    countdown(fn, res)
    unused(fn, res)

def strip(fn, op):
    while True:
        j = fn.d(op)
        if j is not None and j['op'] in ('zext', 'sext', 'trunc', 'freeze'): op = j['ops'][0]
        else: return op

def copied(fn):
    """bucket reads"""
    for i in fn.I.values():
        if i['op'] == 'load' and any(s == '_Bucket' for s, o in fn.structs_at(i['ops'][0])): yield i

def strlen(fn, op):
    for o in (strip(fn, op), fn.canon(op)):
        d = fn.d(o)
        if d is not None and d['op'] == 'load' and any(s == '_zend_string' and fn.addr(d['ops'][0])[1] - o2 == fn.prog.field_off('_zend_string', 'len') for s, o2 in fn.structs_at(d['ops'][0])): return fn.canon(o)
    return None

def lengths(M, fn, res, judge):
    """a number of elements obtained by dividing the length of a string: the remainder was refused"""
    divs = {}
    for i in fn.I.values():
        if i['op'] in ('lshr', 'udiv') and i['b'] in fn.rpoidx:
            s = strlen(fn, i['ops'][0])
            if s is not None and not (const(i['ops'][1]) == 3 and i['op'] == 'lshr' and False): divs['%%%d' % i['i']] = (i, s)
    for n, (i, s) in divs.items():
        stored = any(u['op'] == 'store' and strip(fn, u['ops'][0]) == n and (obj_field(M, fn, u['ops'][1]) or new_field(M, fn, u['ops'][1])) is not None for u in all_uses(fn, n))
        if not stored: continue
        found = None
        for b in fn.rpo:
            ce = cond_edges(fn, b)
            if not ce or ce[1] == ce[2]: continue
            op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
            if c is None or c['op'] != 'icmp' or c['pred'] not in ('eq', 'ne'):
                # a remainder used as a truth value
                if c is not None and rem_of(fn, c, s): found = (b, ce[2] if neg else ce[1]); break
                continue
            x, y = c['ops']
            bad = None
            for u, v in ((x, y), (y, x)):
                du = fn.d(strip(fn, u))
                if du is not None and du['op'] in ('shl', 'mul') and n in [strip(fn, o) for o in du['ops']] and strlen(fn, v) == s: bad = True
                if const(v) == 0 and du is not None and rem_of(fn, du, s): bad = True
            if bad:
                t, f = ce[1], ce[2]
                if neg: t, f = f, t
                found = (b, f if c['pred'] == 'eq' else t); break
        if found is None:
            res.ob('length')
            res.bad('length', fn.name + '|none', fn.locstr(i), '%s divides the length of the data without refusing a remainder' % fn.name)
        else: judge('length', found[0], found[1], set(), 'data whose length is not a multiple of the element size')

def rem_of(fn, d, s):
    return d['op'] in ('urem', 'and') and strlen(fn, d['ops'][0]) == s

def all_uses(fn, n):
    out = []; st = [n]; seen = {n}
    while st:
        for u in fn.uses().get(st.pop(), []):
            out.append(u)
            m = '%%%d' % u['i']
            if u['op'] in ('trunc', 'zext', 'freeze') and m not in seen: seen.add(m); st.append(m)
    return out

def markers(M, fn, res, judge):
    """a representation marker taken from the data is compared with a constant before it is stored"""
    for i in fn.I.values():
        if i['op'] != 'store' or i['b'] not in fn.rpoidx: continue
        f = obj_field(M, fn, i['ops'][1]) or new_field(M, fn, i['ops'][1])
        if f is None or f.name != 'type_tag' or const(i['ops'][0]) is not None: continue
        v = strip(fn, i['ops'][0]); d = fn.d(v)
        if d is None or d['op'] != 'load' or not payload(fn, d): continue
        ok = None
        for b in fn.rpo:
            ce = cond_edges(fn, b)
            if not ce or ce[1] == ce[2]: continue
            op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
            if c is None or c['op'] != 'icmp' or c['pred'] not in ('ult', 'ule', 'ugt', 'uge'): continue
            x, y = c['ops']; p = c['pred']
            if const(x) is not None: x, y = y, x; p = p.translate(str.maketrans('lg', 'gl'))
            if fn.canon(strip(fn, x)) != fn.canon(v) or const(y) is None: continue
            t, fl = (ce[2], ce[1]) if neg else (ce[1], ce[2])
            ok = (b, fl if p in ('ult', 'ule') else t)
        if ok is None:
            res.ob('marker'); res.bad('marker', fn.name + '|none', fn.locstr(i), '%s stores a type marker from the data without checking its range' % fn.name)
        else:
            judge('marker', ok[0], ok[1], set(), 'a type marker out of range')
            accepted(M, fn, res, i, v, f)

def accepted(M, fn, res, i, v, f):
    """the marker values that pass the tests before the store all stand for a form of elements (or have a case of their own)"""
    fm = M._forms[1].get(f.struct, {})
    if not fm: return
    v = forms.strip(fn, v)
    def edge(S, b, x):
        e = forms.marker_edge(fn, b, x, {v})
        return S if e is None else (S & e or None)
    inn, outs = forward(fn, forms.MARKS, lambda S, j: S, lambda x, y: x | y, edge)
    S = inn.get(i['b'])
    if S is None: return
    cases = {const(k) for b in fn.rpo for t in fn.blocks[b][-1:] if t['op'] == 'switch' and forms.strip(fn, t['ops'][0]) == v for k, d in t['cases']}
    res.ob('marker values', sample='%s: %s' % (fn.name, sorted(S)))
    bad = S - set(fm) - cases
    if bad: res.bad('marker value', fn.name, fn.locstr(i), '%s accepts the type marker %d, which stands for no form of elements' % (fn.name, min(bad)))

def elements(M, fn, res, held, tests, judge):
    """no path on which a supplied element was found to be of a type the collection cannot hold returns normally"""
    T = Tags(fn)
    refs = set()
    for b in fn.rpo:
        t = test(fn, b)
        if t and type_addr(fn, t[0]) is not None and t[1] & 255 == IS_REF: refs.add(type_addr(fn, t[0]))
        t = fn.blocks[b][-1]
        if t['op'] == 'switch' and type_addr(fn, t['ops'][0]) is not None and any(const(v) & 255 == IS_REF for v, d in t['cases']): refs.add(type_addr(fn, t['ops'][0]))
    st = list(refs)
    while st:
        a = st.pop(); d = fn.d(a[0])
        if d is not None and d['op'] in ('phi', 'select') and a[1:] == (0, ()):
            for o in d['ops'][1 if d['op'] == 'select' else 0:]:
                x = fn.addr(o)
                if x not in refs: refs.add(x); st.append(x)
    for b in fn.rpo:
        st = T.outs.get(b)
        if st is None: continue
        t = test(fn, b)
        if not t or t[2] == t[3]: continue
        a = type_addr(fn, t[0])
        if a is None or not root_kinds(M, fn, a[0]) & (FOREIGN | {'arg', 'frame'}): continue
        if converted(fn, a): continue
        if a[0] == 'a0' or not any(x[1] & 255 in held for _, x in tests.get(a, [])): continue
        for s in (t[2], t[3]):
            e = T.edge(st, b, s)
            if e is None: continue
            left = e.get(a, ALL) - ({IS_REF} if a not in refs else set())
            if left & (held | ({IS_REF} if a in refs else set())): continue
            judge('element', b, s, set(), 'an element of a type it cannot hold')

def converted(fn, a):
    """is the value at a handed to a conversion of the PHP parameter API?"""
    if not hasattr(fn, '_cv'):
        fn._cv = {fn.addr(i['ops'][0]) for i in fn.I.values() if i['op'] == 'call' and (fn.callee(i) or '').startswith('zend_parse_arg') and i['ops'] and i['at'][0] == 'ptr'}
    return a in fn._cv

def countdown(fn, res):
    """a loop that counts down from a constant minus a byte of the data, and tests only after the first round, is entered only with something left to count"""
    for i in fn.I.values():
        if i['op'] != 'phi' or i['ty'] not in ('i8', 'i16', 'i32', 'i64') or i['b'] not in fn.rpoidx: continue
        n = '%%%d' % i['i']
        back = [(o, p) for o, p in zip(i['ops'], i['in']) if fn.dominates(i['b'], p)]
        init = [(o, p) for o, p in zip(i['ops'], i['in']) if not fn.dominates(i['b'], p)]
        if len(back) != 1 or len(init) != 1: continue
        d = fn.d(forms.strip(fn, back[0][0]))
        if d is None or not (d['op'] == 'sub' and const(d['ops'][1]) == 1 or d['op'] == 'add' and const(d['ops'][1]) == -1) or n not in ring(fn, d['ops'][0]): continue
        t = test(fn, i['b'])
        if t and forms.strip(fn, t[0]) in (n, fn.canon(n)): continue          # tested on entry
        v = fn.d(forms.strip(fn, init[0][0]))
        if v is None or v['op'] != 'sub' or const(v['ops'][0]) is None: continue
        K = const(v['ops'][0]); x = forms.strip(fn, v['ops'][1])
        if not 0 < K < 16: continue
        def edge(S, b, y):
            e = forms.marker_edge(fn, b, y, {x})
            return S if e is None else (S & e or None)
        inn, outs = forward(fn, forms.MARKS, lambda S, j: S, lambda a, b: a | b, edge)
        S = outs.get(init[0][1])
        if S is None: continue
        res.ob('countdown', sample=fn.name)
        bad = {k for k in S if k >= K}
        if bad: res.bad('countdown', fn.name, fn.locstr(v), '%s accepts %d unused positions of %d and then counts down from %d' % (fn.name, min(bad), K, K - min(bad)))

def unused(fn, res):
    """a byte of the data taken off a number of whole groups of positions is smaller than a group"""
    for i in fn.I.values():
        if i['op'] != 'sub' or i['b'] not in fn.rpoidx: continue
        x = forms.strip(fn, i['ops'][1]); d = fn.d(x)
        if d is None or d['op'] != 'load' or d['ty'] != 'i8': continue
        y = fn.d(forms.strip(fn, i['ops'][0]))
        if y is None or y['op'] not in ('shl', 'mul') or const(y['ops'][1]) is None: continue
        K = 1 << const(y['ops'][1]) if y['op'] == 'shl' else const(y['ops'][1])
        if not 1 < K < 16: continue
        def edge(S, b, z):
            e = forms.marker_edge(fn, b, z, {x})
            return S if e is None else (S & e or None)
        inn, outs = forward(fn, forms.MARKS, lambda S, j: S, lambda a, b: a | b, edge)
        S = inn.get(i['b'])
        if S is None: continue
        res.ob('unused positions', sample=fn.name)
        bad = {k for k in S if k >= K}
        if bad: res.bad('unused positions', fn.name, fn.locstr(i), '%s accepts %d unused positions in a group of %d' % (fn.name, min(bad), K))

def ring(fn, op):
    """the value and the values it was widened or narrowed from"""
    out = {op, fn.canon(op)}
    while True:
        d = fn.d(op)
        if d is None or d['op'] not in ('zext', 'sext', 'trunc', 'freeze', 'and'): return out
        op = d['ops'][0]; out |= {op, fn.canon(op)}
