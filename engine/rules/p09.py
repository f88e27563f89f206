"""A value is read as a number, string, array, object or reference only where its type is known to be that."""
from ir import *
import forms
from flow import *
from own import root_kinds
from model import obj_field, new_field
from rules.p03 import COUNT
from stale import iter_slot
from rules.p19 import type_addr, flags_addr

LEVEL = 'other'
RULE = ('type-tag dataflow over flattened SSA: on every path to an instruction that interprets the payload of a PHP value as an integer, float, string, array, object, resource, reference or counted value, '
        'the tests of the type tag passed on the way leave only that type; a lookup result or optional node is dereferenced only on paths on which it was found not to be null; the storage of a collection with several element forms is accessed in a form only where tests of its marker leave only marker values of that form (the form of each marker value is learnt from all accesses made under a known marker)')
ASSUMPTIONS = ['$this and the object given to get_iterator are objects', 'calls into the PHP API do not change the type of a value that was tested before']
FLOORS = {'read': 1300, 'null': 120, 'representation': 600}
KINDS = {'int': {4}, 'float': {5}, 'string': {6}, 'array': {7}, 'object': {8}, 'resource': {9}, 'reference': {10}}
STRUCTS = {'_zend_string': 'string', '_zend_array': 'array', '_zend_object': 'object', '_zend_reference': 'reference', '_zend_resource': 'resource', '_zend_refcounted': 'counted', '_zend_refcounted_h': 'counted'}
NAMES = {'int': 'an integer', 'float': 'a float', 'string': 'a string', 'array': 'an array', 'object': 'an object', 'resource': 'a resource', 'reference': 'a reference', 'counted': 'reference-counted'}
TAGS = dict(enumerate('undef null false true int float string array object resource reference constant'.split()))
ALL = frozenset(range(0, 20))
CALLS = {'zend_gc_addref': (0, 'counted'), 'zend_gc_delref': (0, 'counted')}
for _n in ('zend_hash_num_elements', 'zend_hash_get_current_data_ex', 'zend_hash_get_current_key_ex', 'zend_hash_compare', 'teds_strict_hash_array'): CALLS[_n] = (0, 'array')
for _n in ('zend_string_hash_val', 'zend_string_addref', 'zend_string_equals', 'zend_string_copy', 'zend_binary_strcmp'): CALLS[_n] = (0, 'string')

for _n in ('zend_hash_index_find', 'zend_hash_find', 'zend_hash_find_known_hash', '_zend_hash_index_find', 'zend_hash_str_find', 'zend_array_count', 'zend_hash_exists', 'zend_hash_index_exists', 'zend_array_dup', 'zend_hash_minmax'): CALLS[_n] = (0, 'array')
SECOND = {'zend_hash_compare': 'array', 'zend_string_equals': 'string'}

class Tags:
    """possible type tags per address, from the tests on each path"""
    def __init__(s, fn):
        s.fn = fn
        def tr(st, i): return step(fn, st, i)
        def join(a, b):
            if a == b: return a
            return {k: a[k] | b[k] for k in a if k in b}
        s.inn, s.outs = forward(fn, {}, tr, join, s.edge)
    def edge(s, st, b, x):
        fn = s.fn
        t = test(fn, b)
        if t and t[2] != t[3]:
            a = flags_addr(fn, t[0])
            if a is not None and t[1] == 0:
                if x == t[2]: return st
                st = dict(st); st['counted', a] = frozenset(); return st
            a = type_addr(fn, t[0])
            if a is not None and 0 <= t[1] < 0x10000:
                return meet(st, a, {t[1] & 255}, x == t[2])
        k = fn.blocks[b][-1]
        if k['op'] == 'switch':
            a = type_addr(fn, k['ops'][0])
            if a is not None:
                cs = {const(v) & 255 for v, d in k['cases'] if d == x}
                if x == k['def']: return meet(st, a, {const(v) & 255 for v, d in k['cases'] if d != x}, False)
                return meet(st, a, cs, True)
        ce = cond_edges(fn, b)
        if ce and ce[1] != ce[2]:
            op, neg = strip_bool(fn, ce[0]); i = fn.d(op)
            if i is not None and i['op'] == 'icmp' and i['pred'] in ('eq', 'ne'):
                a, c = (type_addr(fn, o) for o in i['ops'])
                if a is not None and c is not None and a != c:
                    if (x == ce[1]) == ((i['pred'] == 'eq') != neg):
                        st = dict(st); st['same', min(a, c, key=str), max(a, c, key=str)] = frozenset()
                        v = st.get(a, ALL) & st.get(c, ALL)
                        if not v: return None
                        st[a] = st[c] = v
                        return st
            op, neg = strip_bool(fn, ce[0]); i = fn.d(op)
            if i is not None and i['op'] == 'icmp' and i['pred'] not in ('eq', 'ne'):
                a = type_addr(fn, i['ops'][0]); k = const(i['ops'][1])
                if a is not None and k is not None and 0 <= k < 20:
                    p = i['pred'][1:]
                    ok = {v for v in ALL if {'lt': v < k, 'le': v <= k, 'gt': v > k, 'ge': v >= k}[p]}
                    return meet(st, a, ok, (x == ce[1]) != neg)
        return st
    def at(s, i):
        st = s.inn.get(i['b'])
        if st is None: return None
        for j in s.fn.blocks[i['b']][:i['p']]: st = step(s.fn, st, j)
        return st

def meet(st, a, ks, keep):
    old = st.get(a, ALL)
    new = frozenset(v for v in old if (v in ks) == keep)
    if not new: return None
    st = dict(st); st[a] = new
    for k in list(st):
        if k[0] == 'same' and a in k:
            o = k[2] if k[1] == a else k[1]
            v = st.get(o, ALL) & new
            if not v: return None
            st[o] = v
    return st

def step(fn, st, i):
    if i['op'] == 'store' and i['sty'] in ('i32', 'i8'):
        a = fn.addr(i['ops'][1])
        k = const(i['ops'][0])
        z = (a[0], a[1] - 8, a[2])
        if k is not None: st = dict(st); st[z] = frozenset([k & 255])
        elif z in st: st = dict(st); del st[z]
        for q in [q for q in st if q[0] == 'counted' and q[1] == z or q[0] == 'same' and z in q]: st = dict(st); del st[q]
    return st

def zvals(fn):
    """addresses known to hold PHP values: their type is read somewhere, or they come out of a lookup"""
    if not hasattr(fn, '_zv'):
        z = set()
        for i in fn.I.values():
            if i['op'] == 'load' and i['ty'] in ('i8', 'i32'):
                a = fn.addr(i['ops'][0])
                ss = fn.structs_at(i['ops'][0])
                if any(s == '_zval_struct' and a[1] - o == 8 for s, o in ss): z.add((a[0], a[1] - 8, a[2]))
            elif i['op'] == 'call' and (fn.callee(i) in FINDS or fn.callee(i) == 'zend_hash_get_current_data_ex' or iter_slot(fn, i) == 'get_current_data'): z.add(('%%%d' % i['i'], 0, ()))
        fn._zv = z
    return fn._zv

def payload(fn, i):
    """address of the PHP value whose payload instruction i loads, if it does"""
    if i['op'] != 'load': return None
    a = fn.addr(i['ops'][0])
    for s, o in fn.structs_at(i['ops'][0])[:2]:
        if s == '_zval_struct' and o == a[1]: return a
    if a in zvals(fn): return a
    d = fn.d(i['ops'][0])
    # element of an array of PHP values
    return a if d is not None and d['op'] == 'getelementptr' and d['src'] == 'struct._zval_struct' and d['var'] and (d['off'] or 0) % 16 == 0 else None

def readings(fn, i):
    """[(use, kind)] of a payload load: how the payload is interpreted, and where"""
    if i['ty'] == 'i64': return [(i, 'int')]
    if i['ty'] == 'double': return [(i, 'float')]
    out = []
    if i['ty'] != 'ptr': return out
    n = '%%%d' % i['i']
    for u in fn.uses().get(n, []):
        if u['op'] == 'getelementptr' and u['ops'][0] == n:
            if u['src'].startswith('struct.'):
                if u['src'][7:] in STRUCTS: out.append((u, STRUCTS[u['src'][7:]]))
            elif u['src'] == 'i8' and (u.get('off') or 0) < 0: out.append((u, 'object'))
        if u['op'] == 'call':
            c = CALLS.get(fn.callee(u))
            if c and c[0] < len(u['ops']) and u['ops'][c[0]] == n: out.append((u, c[1]))
            k2 = SECOND.get(fn.callee(u))
            if k2 and len(u['ops']) > 1 and u['ops'][1] == n: out.append((u, k2))
    return out

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        T = None
        for b in fn.rpo:
            for i in fn.blocks[b]:
                a = payload(fn, i)
                if a is None: continue
                rs = readings(fn, i)
                if not rs: continue
                rk = root_kinds(M, fn, a[0])
                if rk <= {'frame', 'param', 'obj'} and a in (('a0', 32, ()), ('a0', 56, ()), ('a1', 0, ())): rs = [(u, k) for u, k in rs if k != 'object']
                for u, k in rs:
                    T = T or Tags(fn)
                    st = T.at(u)
                    if st is None: continue
                    res.ob('read')
                    got = st.get(a, ALL)
                    if k == 'counted':
                        if ('counted', a) in st or got <= {8, 9, 10} or u['op'] != 'call' and got <= {6, 7, 8, 9, 10, 11}: continue
                    elif got <= KINDS[k] or k in ('int', 'float') and by_marker(M, fn, T, a, u, KINDS[k]): continue
                    res.bad('type', '%s|%s' % (fn.name, k), fn.locstr(i), '%s reads a value as %s that may be %s here' % (fn.name, NAMES[k], 'of any type' if got == ALL else 'of type ' + '/'.join(TAGS.get(t, str(t)) for t in sorted(got))))
        nulls(M, fn, res)
    forms.check(M, ctx.fns(), res)

MARKS = frozenset(range(16))

def marker_of(M, fn, op):
    """load of the collection's representation marker behind operand op"""
    while True:
        d = fn.d(op)
        if d is None: return None
        if d['op'] in ('zext', 'sext', 'trunc', 'freeze'): op = d['ops'][0]; continue
        break
    if d['op'] != 'load': return None
    f = obj_field(M, fn, d['ops'][0]) or new_field(M, fn, d['ops'][0])
    return d['i'] if f is not None and f.name == 'type_tag' else None

def marker_edge(M, fn, b, x, cur):
    """marker values the edge b -> x leaves, from a test of a marker load that is current; None when it is no such test"""
    t = test(fn, b)
    if t and t[2] != t[3] and marker_of(M, fn, t[0]) in cur: return frozenset(v for v in MARKS if (v == t[1]) == (x == t[2]))
    k = fn.blocks[b][-1]
    if k['op'] == 'switch' and marker_of(M, fn, k['ops'][0]) in cur:
        ok = frozenset(const(v) for v, d in k['cases'] if d == x)
        return (MARKS - {const(v) for v, d in k['cases'] if d != x}) | ok if x == k['def'] else ok
    if t is None:
        ce = cond_edges(fn, b)
        if ce and ce[1] != ce[2]:
            op, neg = strip_bool(fn, ce[0]); i = fn.d(op)
            if i is not None and i['op'] == 'icmp' and i['pred'] not in ('eq', 'ne') and marker_of(M, fn, i['ops'][0]) in cur and const(i['ops'][1]) is not None:
                q = const(i['ops'][1]); w = (x == ce[1]) != neg
                return frozenset(v for v in MARKS if {'lt': v < q, 'le': v <= q, 'gt': v > q, 'ge': v >= q}[i['pred'][1:]] == w)
    return None

def full_walks(fn, root, off):
    """{index phi: (bound, header, exit block)} of the loops that visit root[0 .. bound) one by one"""
    out = {}
    for i in fn.I.values():
        if i['op'] != 'phi' or len(i['ops']) != 2 or i['ty'] not in ('i32', 'i64'): continue
        n = '%%%d' % i['i']
        st = [o for o, pb in zip(i['ops'], i['in']) if fn.dominates(i['b'], pb)]
        if len(st) != 1: continue
        d = fn.d(st[0])
        if d is None or d['op'] != 'add' or d['ops'][0] != n or const(d['ops'][1]) != 1: continue
        if any(const(o) != 0 for o in i['ops'] if o != st[0]): continue
        ce = cond_edges(fn, i['b'])
        if not ce or ce[1] == ce[2]: continue
        op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
        if c is None or c['op'] != 'icmp' or c['pred'] != 'ult' or c['ops'][0] != n: continue
        out[n] = (fn.canon(c['ops'][1]), i['b'], ce[1] if neg else ce[2])
    return out

def by_marker(M, fn, T, a, u, need):
    """does the collection's own representation marker, correlated with the type of the value at a, leave only the types in need at instruction u?

    Follows one arbitrary element: a loop that visits every element of the array makes it the current element in exactly one iteration."""
    c = fn.__dict__.setdefault('_bm', {})
    W = full_walks(fn, a[0], a[1]) if len(a[2]) == 1 and a[2][0][1] == 16 else {}
    me = a[2][0][0] if a[2] else None
    W = {k: v for k, v in W.items() if me in W and v[0] == W[me][0]}
    key = (a[0], a[1], tuple(sorted(W))) if W else a
    if key not in c:
        roots = {a[0]} | ({r for r, k in a[2]} if not W else set())
        addr = {(a[0], a[1], ((k, 16),)): k for k in W} if W else {a: None}
        heads = {W[k][1]: k for k in W}
        def tr(st, i):
            ps, cur = st
            n = '%%%d' % i['i']
            if n in roots: ps = frozenset((m, ALL, None, frozenset()) for m, t, w, d in ps); st = ps, cur
            if n in W:
                new = set()
                for m, t, w, d in ps:
                    if w == n: new.add((m, t, None, d | {n}))
                    else:
                        new.add((m, t, w, d))
                        if w is None and n not in d: new.add((m, t, n, d))
                ps = frozenset(new); st = ps, cur
            if i['op'] == 'load' and marker_of(M, fn, n) is not None: return ps, cur | {i['i']}
            if i['op'] == 'store':
                f = obj_field(M, fn, i['ops'][1]) or new_field(M, fn, i['ops'][1])
                if f is not None and f.name == 'type_tag':
                    k = const(i['ops'][0])
                    return frozenset((frozenset([k]) if k is not None else MARKS, t, w, d) for m, t, w, d in ps), frozenset()
            return st
        def edge(st, b, x):
            ps, cur = st
            for q, w0 in addr.items():
                e = T.edge({q: ALL}, b, x)
                keep = e[q] if e is not None else frozenset()
                if keep != ALL: ps = frozenset((m, t & keep if w == w0 else t, w, d) for m, t, w, d in ps if w != w0 or t & keep)
            ok = marker_edge(M, fn, b, x, cur)
            if ok is not None: ps = frozenset((m & ok, t, w, d) for m, t, w, d in ps if m & ok)
            if b in heads:
                k = heads[b]
                if x == W[k][2]: ps = frozenset(p for p in ps if p[2] != k and k in p[3])
            if x in heads and not fn.dominates(x, b):
                k = heads[x]
                ps = frozenset((m, t, None if w == k else w, d - {k}) for m, t, w, d in ps)
            return (ps, cur) if ps else None
        c[key] = forward(fn, (frozenset([(MARKS, ALL, None, frozenset())]), frozenset()), tr, lambda p, q: (p[0] | q[0], p[1] & q[1]), edge)[0]
    st = c[key].get(u['b'])
    return st is None or all(t <= need for m, t, w, d in st[0] if not W or w == me)

FINDS = {'zend_hash_index_find', 'zend_hash_find', 'zend_hash_find_known_hash', '_zend_hash_index_find', 'zend_hash_str_find', 'memchr'}

def nulls(M, fn, res):
    """a pointer that may be null (a lookup result, the current element of an iterator) is not dereferenced before it was tested"""
    may = {}
    for i in fn.I.values():
        n = '%%%d' % i['i']
        if i['op'] == 'call' and (fn.callee(i) in FINDS): may[n] = 'lookup'
        elif i['op'] == 'phi' and i.get('ty') == 'ptr' and 'null' in i['ops'] and not root_kinds(M, fn, n) <= {'frame'}: may[n] = 'phi'
    if not may: return
    def edge(st, b, x):
        z = zero_edge(fn, b)
        if z and z[1] != z[2]:
            for v in {z[0], fn.canon(z[0])}:
                d = fn.d(v)
                f = obj_field(M, fn, d['ops'][0]) if d is not None and d['op'] == 'load' else None
                if f is not None and f.name in COUNT and x == z[2]: st = st | {'#'}
                if f is not None and f.name == 'root' and x == z[1] and '#' in st: return None
                if v in may:
                    if x == z[2]: st = st | {v}
                    elif v in st: return None
        out = st
        for q in fn.blocks[x]:
            if q['op'] != 'phi': break
            n = '%%%d' % q['i']
            if n not in may: continue
            for o, pb in zip(q['ops'], q['in']):
                if pb == b:
                    nn = o != 'null' and (o not in may or o in st)
                    out = out | {n} if nn else out - {n}
        return out
    def tr(st, i):
        n = '%%%d' % i['i']
        return st - {n} if n in st and i['op'] != 'phi' else st
    inn, outs = forward(fn, frozenset(), tr, lambda a, b: a & b, edge)
    for b in fn.rpo:
        st = inn.get(b)
        if st is None: continue
        for i in fn.blocks[b]:
            st = tr(st, i)
            if i['op'] in ('load', 'store'):
                ao = i['ops'][0 if i['op'] == 'load' else 1]
                r = fn.addr(ao)[0]
                if r in may and (may[r] == 'lookup' or any(x[0].endswith(('_node', '_bucket', '_pair', '_zval_struct')) for x in fn.structs_at(ao))):
                    res.ob('null')
                    if r not in st: res.bad('null', fn.name, fn.locstr(i), '%s uses %s before testing that there is one' % (fn.name, 'the result of a lookup' if may[r] == 'lookup' else 'a node or element that may be missing'))
