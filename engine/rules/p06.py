"""The cycle collector sees every value a collection owns, exactly once."""
from ir import *
from flow import *
from model import obj_field, elem_size
from lin import lin, induction, add
from heap import fbases
from store import storage_fields, elem_zvals, keeps_data
from own import loops
from rules import common

LEVEL = 'other'
RULE = ('for every class: each return of the garbage-collection handler has the table and count set; a directly reported table starts at the storage the object holds and its '
        'count is the element count times the values per element; a buffered report runs over the whole index or address range and adds every value offset of each '
        'element, skipping only unused slots; nothing is reported only where the collection was found empty or holds no PHP values; an owned source iterator is reported '
        'while it is open; an iterator over a collection of PHP values reports that collection')
ASSUMPTIONS = ['element counts are consistent with the elements present']
FLOORS = {'gc-handlers': 18, 'value-fields': 12, 'reports': 18, 'iterators': 8}
COUNT = {'size', 'nNumOfElements', 'nNumUsed', 'mask', 'bit_size'}

def value_offsets(M, k, x):
    if 'lowmemory' in k['struct']: return [0], 16
    if any(y.name == 'type_tag' for y in k['layout'].values()): return [], 0
    t = x.type[:-1].strip()
    return elem_zvals(M.P, t), elem_size(M.P, x.type) or 16

def run(ctx, res):
    M = ctx.M; P = ctx.P
    for nm, k in sorted((n, k) for n, k in M.classes.items() if n):
        if not k['layout'] or k['kind'] == 'zend_register_internal_interface': continue
        vf = []
        for x in storage_fields(M, k['struct']):
            if x.type == 'zend_object_iterator*': continue
            o, sz = value_offsets(M, k, x)
            if o: vf.append((x, o, sz))
        h = k['handlers'] or {}
        g = h.get('get_gc')
        res.ob('gc-handlers', sample=nm)
        if 'lowmemory' in k['struct']: vf = vf[:1]
        if not vf and g == 'teds_noop_get_gc': pass
        if not isinstance(g, str) or g not in P._raw:
            if vf: res.bad('no-handler', nm, nm, '%s holds PHP values but registers no garbage-collection handler of its own' % nm)
            continue
        fn = ctx.fn(g, res)
        res.ob('value-fields', len(vf))
        handler(M, fn, res, nm, k, vf)
        it = next((f for f in k['layout'].values() if f.type == 'zend_object_iterator*' and f.name != 'active_iterators'), None)
        if it is not None: source(M, fn, res, nm, it)
        # iterators
        t = k.get('itable')
        if t and vf:
            off = P.field_off('_zend_object_iterator', 'data')
            gi = k['get_iterator']
            if gi in P._raw and keeps_data(ctx.fn(gi, res), off):
                res.ob('iterators', sample=t)
                f = M.itables[t].get('get_gc')
                if f is None or f not in P._raw:
                    res.bad('iterator', t, t, 'the iterator of %s keeps the collection alive but does not report it to the cycle collector' % nm); continue
                d = ctx.fn(f, res)
                ok = any(i['op'] == 'store' and d.addr(i['ops'][1]) == ('a1', 0, ()) and d.addr(i['ops'][0]) == ('a0', off, ()) for i in d.I.values())
                one = all(const(i['ops'][0]) == 1 for i in d.I.values() if i['op'] == 'store' and d.addr(i['ops'][1])[0] == 'a2')
                if not ok or not one: res.bad('iterator', f, d.locstr(d.blocks[0][0]), '%s does not report the collection the iterator keeps alive' % f)

def known_empty(M, fn, b, maxtag):
    """every way into block b passes a test that found a count of zero or a type tag without values"""
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == 0: return False
        for p in fn.pred[x]:
            if p not in fn.rpoidx: continue
            if not empty_edge(M, fn, p, x, maxtag): st.append(p)
    return True

def empty_edge(M, fn, p, x, maxtag):
    z = zero_edge(fn, p)
    if z and z[1] == x and z[2] != x:
        f = load_field(M, fn, z[0])
        if f is not None and (f.name in COUNT or f.type.endswith('*') and f.type != 'zend_object_iterator*'): return True
    ce = cond_edges(fn, p)
    if ce:
        op, neg = strip_bool(fn, ce[0]); i = fn.d(op)
        if i is not None and i['op'] == 'icmp':
            f = load_field(M, fn, i['ops'][0]); k = const(i['ops'][1])
            if f is not None and f.name == 'type_tag' and k is not None:
                t, e = ce[1], ce[2]
                if neg: t, e = e, t
                side = i['pred'] if x == t else {'sle': 'sgt', 'ule': 'ugt', 'sgt': 'sle', 'ugt': 'ule', 'slt': 'sge', 'ult': 'uge', 'sge': 'slt', 'uge': 'ult', 'eq': 'ne', 'ne': 'eq'}[i['pred']]
                return {'sle': maxtag > k, 'ule': maxtag > k, 'slt': maxtag >= k, 'ult': maxtag >= k, 'ne': k == maxtag, 'eq': k != maxtag}.get(side, False)
    # switch on the tag
    return False

def load_field(M, fn, op):
    for o in (op, fn.canon(op)):
        j = fn.d(o)
        while j is not None and j['op'] in ('zext', 'sext', 'trunc', 'freeze'): j = fn.d(j['ops'][0])
        if j is not None and j['op'] == 'load':
            f = obj_field(M, fn, j['ops'][0])
            if f is not None: return f
    return None

def max_tag(M, k):
    """largest type tag the class' code stores: the tag of arbitrary values"""
    if '_mtag' in k: return k['_mtag']
    m = -1
    off = next((f.off for f in k['layout'].values() if f.name == 'type_tag'), None)
    if off is not None:
        for n, own in M.owners.items():
            if k['name'] not in own: continue
            fn = M.P.fn(n)
            for i in fn.I.values():
                if i['op'] == 'store' and i['sty'] == 'i8':
                    f = obj_field(M, fn, i['ops'][1])
                    c = const(i['ops'][0])
                    if f is not None and f.name == 'type_tag' and c is not None: m = max(m, c)
    k['_mtag'] = m
    return m

def choices(fn, op, depth=0):
    """the values a conditional expression chooses between"""
    i = fn.d(op)
    if i is not None and depth < 6:
        if i['op'] in ('zext', 'sext', 'trunc', 'freeze'): return choices(fn, i['ops'][0], depth + 1)
        if i['op'] == 'select': return [a for o in i['ops'][1:] for a in choices(fn, o, depth + 1)]
        if i['op'] == 'phi': return [a for o in i['ops'] for a in choices(fn, o, depth + 1)]
    return [op]

def handler(M, fn, res, nm, k, vf):
    tag = max_tag(M, k)
    # 1. n is set on every path
    N = [i for i in fn.I.values() if i['op'] == 'store' and fn.addr(i['ops'][1])[0] == 'a2' and i['b'] in fn.rpoidx]
    U = [i for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) == 'zend_get_gc_buffer_use' and i['b'] in fn.rpoidx]
    sets = {i['b'] for i in N + U}
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen or b in sets: continue
        seen.add(b)
        if fn.blocks[b][-1]['op'] == 'ret': res.bad('unset', fn.src, fn.locstr(fn.blocks[b][-1]), '%s can return without setting the number of reported values' % fn.name)
        st += fn.succ[b]
    for i in N + U: res.ob('reports', sample='%s %s' % (fn.name, fn.locstr(i)))
    if not vf: return
    for i in N:
        v = i['ops'][0]; k0 = const(v)
        if k0 is not None:
            if k0 == 0:
                if not known_empty(M, fn, i['b'], tag):
                    res.bad('omitted', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s reports no values although the collection was not found to be empty' % fn.name)
                continue
            res.bad('count', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s reports a constant number of values' % fn.name); continue
        tabs = [t for t in fn.I.values() if t['op'] == 'store' and fn.addr(t['ops'][1])[0] == 'a1' and (fn.dominates(t['b'], i['b']) or fn.dominates(i['b'], t['b']))]
        if not tabs:
            res.bad('table', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s sets a count but no table' % fn.name); continue
        L = lin(M, fn, v)
        for t in tabs:
            A = lin(M, fn, t['ops'][0])
            x = next((y for y in vf if A.get('F:' + y[0].name) == 1 or (fbases(M, fn, t['ops'][0]) and 'lowmemory' in k['struct'])), None)
            if x is None:
                res.bad('table', '%s:%s' % (nm, fn.src), fn.locstr(t), '%s reports a table that is not the storage of the collection' % fn.name); continue
            per = x[2] // 16
            for alt in choices(fn, v):
                LA = lin(M, fn, alt)
                if alt is not v and const(alt) is None and all(not a or a.startswith('F:') for a in LA) and LA not in ({'F:size': per}, {'F:nNumUsed': per}):
                    res.bad('count', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s can report %s values, the collection owns %d per element' % (fn.name, show(LA), per))
            if any(a and not a.startswith('F:') for a in L): continue   # not a plain count expression: not decided
            if L not in ({'F:size': per}, {'F:nNumUsed': per}):
                res.bad('count', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s reports %s values, the collection owns %d per element' % (fn.name, show(L), per))
            rest = {a: c for a, c in A.items() if not a.startswith('F:') or a == 'F:offset'}
            if rest.get('', 0) != 0: res.bad('table', '%s:%s' % (nm, fn.src), fn.locstr(t), '%s reports a table that does not start at the first value' % fn.name)
            if 'offset' in {f.name for f in k['layout'].values()}:
                if A.get('F:offset') != 16: res.bad('table', '%s:%s' % (nm, fn.src), fn.locstr(t), '%s reports a table that does not start at the first element of the ring' % fn.name)
                elif not ring_guard(M, fn, t['b']): res.bad('table', '%s:%s' % (nm, fn.src), fn.locstr(t), '%s reports a contiguous range without having checked that the ring does not wrap' % fn.name)
    for u in U:
        buf = fn.addr(u['ops'][0])[0]
        adds = [i for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) == 'zend_get_gc_buffer_add_zval' and fn.addr(i['ops'][0])[0] == buf]
        for x, offs, sz in vf:
            mine = [i for i in adds if belongs(M, fn, i, x)]
            got = {fn.addr(i['ops'][1])[1] % sz for i in mine}
            for o in offs:
                if o not in got and not step16(fn, mine, sz):
                    res.bad('omitted', '%s:%s:%d' % (nm, fn.src, o), fn.locstr(u), '%s does not report the value at offset %d of each element' % (fn.name, o))
            for a in mine:
                for c in mine:
                    if a is not c and fn.addr(a['ops'][1]) == fn.addr(c['ops'][1]) and (a['b'] == c['b'] and a['p'] < c['p'] or a['b'] != c['b'] and fn.dominates(a['b'], c['b'])):
                        res.bad('twice', '%s:%s' % (nm, fn.src), fn.locstr(c), '%s reports the same value twice' % fn.name)
            skipped(M, fn, res, nm, mine, u)
            extent(M, fn, res, nm, k, mine, sz, u)

def show(L): return ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, a.replace('F:', '') or '1') if a else str(c) for a, c in sorted(L.items()))

def belongs(M, fn, i, x):
    if x.type.endswith('_node*'): return True
    return bool(fbases(M, fn, i['ops'][1])) or True

def step16(fn, mine, sz):
    """values of an element walked one by one"""
    for i in mine:
        for v, s in fn.addr(i['ops'][1])[2]:
            if s == 16 and sz > 16: return True
        p = fn.d(fn.addr(i['ops'][1])[0])
        if p is not None and p['op'] == 'phi':
            for o in p['ops']:
                a = fn.addr(o)
                if a[0] == '%%%d' % p['i'] and abs(a[1]) == 16 and sz > 16: return True
    return False

def ring_guard(M, fn, b):
    d = fn.idom(); x = b
    while True:
        ps = fn.pred[x]
        if len(ps) == 1:
            ce = cond_edges(fn, ps[0])
            if ce:
                op, neg = strip_bool(fn, ce[0]); i = fn.d(op)
                if i is not None and i['op'] == 'icmp':
                    A = add(lin(M, fn, i['ops'][0]), lin(M, fn, i['ops'][1]), -1)
                    t, e = ce[1], ce[2]
                    if neg: t, e = e, t
                    p = i['pred']
                    if x == e and t != e: p = {'uge': 'ult', 'ugt': 'ule', 'ult': 'uge', 'ule': 'ugt', 'sge': 'slt', 'sgt': 'sle', 'slt': 'sge', 'sle': 'sgt'}.get(p, p)
                    # A = mask + 1 - offset - size, needed >= 0
                    if {'F:mask', 'F:offset', 'F:size'} <= set(A):
                        sgn = 1 if A['F:mask'] > 0 else -1
                        A = {a: c * sgn for a, c in A.items()}
                        if sgn < 0: p = p.translate(str.maketrans('lg', 'gl'))
                        need = A.get('', 0)
                        if p[1:] == 'ge' and need <= 1 or p[1:] == 'gt' and need <= 2: return True
        if x not in d or d[x] == x or d[x] is None: return False
        x = d[x]

def header_of(fn, b):
    """smallest loop around b: (header, body)"""
    body = loops(fn)[1] if isinstance(loops(fn), tuple) else loops(fn)
    best = None
    for h, L in body.items():
        if b in L and (best is None or len(L) < len(best[1])): best = (h, L)
    return best

def skipped(M, fn, res, nm, mine, u):
    """an iteration may pass by an element only after finding its slot unused"""
    done = set()
    for i in mine:
        hb = header_of(fn, i['b'])
        if hb is None:
            res.bad('omitted', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s reports only one element' % fn.name); continue
        h, L = hb
        tgt = {j['b'] for j in mine if j['b'] in L and fn.addr(j['ops'][1])[1] == fn.addr(i['ops'][1])[1]}
        seen = set(); st = [s for s in fn.succ[h] if s in L]
        while st:
            b = st.pop()
            if b in tgt or b in seen: continue
            if b == h:
                res.bad('omitted', '%s:%s:skip' % (nm, fn.src), fn.locstr(i), '%s can pass over an element in use without reporting it' % fn.name); break
            seen.add(b)
            for s in fn.succ[b]:
                if s in L and not unused_edge(fn, b, s): st.append(s)

def unused_edge(fn, b, s):
    """edge on which an element was found undefined (or not refcounted)"""
    z = zero_edge(fn, b)
    if z and z[1] == s != z[2]:
        j = fn.d(z[0]) if fn.d(z[0]) is not None else None
        while j is not None and j['op'] in ('zext', 'sext', 'trunc', 'freeze'): j = fn.d(j['ops'][0])
        if j is not None and j['op'] == 'load' and j['ty'] in ('i8', 'i32'): return True
    return False

def extent(M, fn, res, nm, k, mine, sz, u):
    """sum over the reporting loops of (end - start) equals the element count"""
    tot = {}; seen = set(); n = 0
    for i in mine:
        hb = header_of(fn, i['b'])
        if hb is None or hb[0] in seen: continue
        h, L = hb; seen.add(h)
        phis = [p for p in fn.blocks[h] if p['op'] == 'phi']
        bound = None
        for b in [h] + [x for x in L if x != h]:
            ce = cond_edges(fn, b)
            if not ce or (ce[1] in L) == (ce[2] in L): continue
            op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
            if c is None or c['op'] != 'icmp': return
            for p in phis:
                ind = induction(M, fn, p)
                if ind is None: continue
                me = '%%%d' % p['i']
                x, y = c['ops']
                lx, ly = lin(M, fn, x), lin(M, fn, y)
                if me in ly and me not in lx: lx, ly = ly, lx
                if lx.get(me) != 1 or me in ly: continue
                if set(lx) - {me, ''}: return
                # continue while me + c < end (top) or, tested at the bottom, one more round first
                pr = c['pred']
                if c['ops'][0] != x or lin(M, fn, c['ops'][0]) != lx: pr = pr.translate(str.maketrans('lg', 'gl'))
                if (ce[1] in L) == neg: pr = {'ult': 'uge', 'ule': 'ugt', 'slt': 'sge', 'sle': 'sgt', 'eq': 'ne', 'ugt': 'ule', 'uge': 'ult', 'sgt': 'sle', 'sge': 'slt', 'ne': 'eq'}[pr]
                e = add(ly, {'': lx.get('', 0)} if lx.get('') else {}, -1)
                if pr in ('ule', 'sle'): e = add(e, {'': 1})
                elif pr not in ('ult', 'slt', 'ne'): return
                if b in [q for q in fn.pred[h] if q in L] and b != h: e = add(e, {'': ind[1]})
                elif b != h: return
                bound = (ind, e)
        if bound is None: return
        (start, step), end = bound
        if step < 0: return
        d = add(end, start, -1)
        if step not in (1, sz, 16): res.bad('extent', '%s:%s' % (nm, fn.src), fn.locstr(i), '%s does not visit every element (step %d)' % (fn.name, step)); return
        if step != 1: d = {a: c * 1.0 / sz for a, c in d.items()}
        tot = add(tot, d); n += 1
    if not n: return
    res.ob('extents', sample='%s: %s' % (fn.name, show(tot)))
    atoms = set(tot)
    if any(a and not a.startswith('F:') for a in atoms): return
    if tot not in ({'F:size': 1}, {'F:nNumUsed': 1}, {'F:nNumUsed': 1, 'F:nFirstUsed': -1}):
        res.bad('extent', '%s:%s' % (nm, fn.src), fn.locstr(u), '%s reports %s elements, not all of them' % (fn.name, show(tot)))

def source(M, fn, res, nm, it):
    """the open source iterator of a lazy collection is reported"""
    res.ob('owned-iterators')
    seen = set(); st = [0]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(i['op'] == 'call' and fn.callee(i) == 'zend_get_gc_buffer_add_obj' and load_root_field(M, fn, i['ops'][1], it) for i in fn.blocks[b]): continue
        if fn.blocks[b][-1]['op'] == 'ret':
            res.bad('omitted', '%s:%s:%s' % (nm, fn.src, it.name), fn.locstr(fn.blocks[b][-1]), '%s does not report the open source iterator' % fn.name)
        z = zero_edge(fn, b)
        for s in fn.succ[b]:
            if z and s == z[1] != z[2]:
                f = load_field(M, fn, z[0])
                if f is not None and f.off == it.off: continue
            st.append(s)

def load_root_field(M, fn, op, it):
    f = load_field(M, fn, fn.addr(op)[0])
    return f is not None and f.off == it.off
