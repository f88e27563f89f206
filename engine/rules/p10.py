"""Conversions and searches take every element into account."""
from fractions import Fraction
from ir import *
from flow import *
from lin import lin, induction, add
from own import loops, root_kinds
from model import obj_field, elem_size
from rules.p06 import show, unused_edge

LEVEL = 'other'
RULE = ('range analysis of the loops of every conversion and search (linear forms over the fields of the collection): a loop that visits the elements starts at the first '
        '(or the ones before it are visited separately), advances by one element and ends exactly after the last; an iteration goes by without producing output only when the slot was found unused; '
        'a branch on the number of elements that by-passes all of them is taken only when there are none')
ASSUMPTIONS = ['searches in sorted, hashed and tree collections by key are not loops over all elements and not covered', 'loops over packed bits are not covered']
FLOORS = {'function': 60, 'loop': 70, 'extent': 65, 'start': 65, 'output': 35}
CONV = {'method:' + x for x in 'toArray values keys toPairs __serialize jsonSerialize map'.split()} | {'handler:get_properties_for'}
SEARCH = {'method:' + x for x in 'contains containsValue containsKey indexOf indexOfKey indexOfValue filter'.split()}
COUNT = ('F:size', 'F:nNumUsed', 'F:nNumOfElements')

def body_of(fn):
    L = loops(fn)
    return L[1] if isinstance(L, tuple) else L

def ptr_fields(M, fn):
    """storage fields of the collections this function works on: {atom: field}"""
    out = {}
    for n in M.owners.get(fn.name, []):
        k = M.classes.get(n)
        if not k or not k['layout']: continue
        for f in k['layout'].values():
            if f.type.endswith('*') and f.name not in ('active_iterators', 'iter', 'root', 'entries_bits') and 'iterator' not in f.type: out['F:' + f.name] = f
    return out

def bounds(M, fn, h, L):
    """[(test block, iterations)] of the tests of a loop counter that leave the loop, and the counters"""
    inds = {}
    for p in fn.blocks[h]:
        if p['op'] != 'phi': continue
        ind = induction(M, fn, p)
        if ind is not None: inds['%%%d' % p['i']] = ind
    out = []
    for b in L:
        if b not in fn.rpoidx: continue
        ce = cond_edges(fn, b)
        if not ce or (ce[1] in L) == (ce[2] in L): continue
        op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
        if c is None or c['op'] != 'icmp': continue
        lx, ly = lin(M, fn, c['ops'][0]), lin(M, fn, c['ops'][1]); pr = c['pred']
        for me, (start, step) in inds.items():
            x, y, q = lx, ly, pr
            if me in y and me not in x: x, y = y, x; q = q.translate(str.maketrans('lg', 'gl'))
            if x.get(me) != 1 or me in y or set(x) & set(inds) - {me} or set(y) & set(inds): continue
            if (ce[1] in L) == neg: q = {'ult': 'uge', 'ule': 'ugt', 'slt': 'sge', 'sle': 'sgt', 'eq': 'ne', 'ugt': 'ule', 'uge': 'ult', 'sgt': 'sle', 'sge': 'slt', 'ne': 'eq'}[q]
            e = add(y, {t: v for t, v in x.items() if t != me}, -1)
            if step > 0:
                if q in ('ule', 'sle'): e = add(e, {'': 1})
                elif q not in ('ult', 'slt', 'ne'): continue
                n = add(e, start, -1)
            else:
                if q in ('uge', 'sge'): e = add(e, {'': 1}, -1)
                elif q not in ('ugt', 'sgt', 'ne'): continue
                n = add(start, e, -1)
            bottom = b in [z for z in fn.pred[h] if z in L] and b != h or len(L) == 1
            if b != h and not bottom and not quiet(fn, h, b, L): continue
            if bottom: n = add(n, {'': abs(step)})
            if any(narrowed(fn, o) for o in c['ops']): n = add(n, {'narrowed': 1})
            out.append((b, {t: Fraction(v, abs(step)) for t, v in n.items() if v}))
            break
    return inds, out

def ring(M, fn, a, inds):
    """positions in a ring buffer: (offset + i) & mask is position i"""
    for t, c in list(a.items()):
        i = fn.d(t)
        if t in inds or i is None or i['op'] != 'and': continue
        for x, y in ((0, 1), (1, 0)):
            if lin(M, fn, i['ops'][y]) != {'F:mask': 1}: continue
            z = lin(M, fn, i['ops'][x])
            if any(z.get(t) == 1 for t in inds): return add(add({u: v for u, v in a.items() if u != t}, z, c), {'F:offset': 1}, -c)
    return a

def alternatives(M, fn, x, depth=0):
    """the forms a linear form can take when its choices are resolved"""
    for t, c in x.items():
        if depth > 6 or t == '' or t.startswith('F:'): continue
        i = fn.d(t)
        if i is None: continue
        rest = {u: v for u, v in x.items() if u != t}
        if i['op'] == 'icmp': opts = [{}, {'': 1}]
        elif i['op'] == 'select': opts = [lin(M, fn, o) for o in i['ops'][1:]]
        elif i['op'] == 'phi' and not any(fn.dominates(i['b'], b) for b in i['in']): opts = [lin(M, fn, o) for o in i['ops']]
        elif i['op'] == 'and' and const(i['ops'][1]) not in (None, -1):
            # a multiple of a power of two below the value, or its low bits
            y = lin(M, fn, i['ops'][0])
            opts = [y, {**y, '': y.get('', 0) - 1} if not const(i['ops'][1]) & 1 else {}]
        elif i['op'] == 'lshr' and const(i['ops'][1]): opts = [{}]
        else: continue
        out = []
        for o in opts: out += alternatives(M, fn, {k: v for k, v in add(rest, o, c).items() if v}, depth + 1)
        return out
    return [x]

def quiet(fn, h, b, L):
    """nothing happens between the head of a loop and the test"""
    if not all(fn.dominates(b, z) for z in fn.pred[h] if z in L): return False
    seen = set(); st = [h]
    while st:
        x = st.pop()
        if x in seen or x == b: continue
        seen.add(x)
        if any(i['op'] in ('store', 'call') for i in fn.blocks[x]): return False
        st += [y for y in fn.succ[x] if y in L]
    return True

def narrowed(fn, op):
    """the value has been cut to 8 or 16 bits"""
    for _ in range(8):
        i = fn.d(op)
        if i is None or not i['ops']: return False
        if i['op'] == 'trunc' and i['ty'] in ('i8', 'i16'): return True
        if i['op'] not in ('zext', 'sext', 'trunc', 'freeze'): return False
        op = i['ops'][0]
    return False

def accesses(M, fn, h, L, inds, F):
    """[(instruction, field atom, offset form at the first iteration, bytes per iteration)]"""
    out = []
    for b in L:
        for i in fn.blocks[b]:
            ops = [i['ops'][0]] if i['op'] == 'load' else [i['ops'][1]] if i['op'] == 'store' else [o for o in i['ops'] if o and o[0] == '%'] if i['op'] == 'call' else []
            for o in ops:
                a = ring(M, fn, lin(M, fn, o), inds)
                ts = [t for t in a if t in inds]
                if len(ts) != 1: continue
                start, step = inds[ts[0]]; c = a[ts[0]]
                lo = add({t: v for t, v in a.items() if t != ts[0]}, start, c)
                bs = [t for t in lo if t in F and lo[t] == 1]
                if len(bs) != 1: continue
                out.append((i, bs[0], {t: v for t, v in lo.items() if t != bs[0]}, c * step))
    return out

def width(M, f, i, d):
    if f.name in ('entries_uint8', 'entries_raw') or 'int8' in f.type:
        ty = i['ty'] if i['op'] == 'load' else i.get('sty')
        return 16 if abs(d) % 16 == 0 else {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8, 'ptr': 16}.get(ty)
    return elem_size(M.P, f.type)

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        roles = {r for c, r in M.roles.get(fn.name, [])}
        if not roles & (CONV | SEARCH): continue
        F = ptr_fields(M, fn)
        if not F and not any('root' in {f.name for f in ((M.classes.get(n) or {}).get('layout') or {}).values()} for n in M.owners.get(fn.name, [])): continue
        res.ob('function', sample=fn.name)
        scan = {}
        for h, L in sorted(body_of(fn).items()):
            if h not in fn.rpoidx: continue
            inner = set().union(*[B for g, B in body_of(fn).items() if g != h and g in L and len(B) < len(L)] or [set()])
            inds, bs = bounds(M, fn, h, L)
            acc = accesses(M, fn, h, L - inner, inds, F) or accesses(M, fn, h, L, inds, F)
            if not acc: continue
            scan[h] = (L, inds, bs, acc)
        for h, (L, inds, bs, acc) in scan.items():
            res.ob('loop', sample=fn.name)
            judge(M, fn, res, h, L, inds, bs, acc, F, scan)
            if roles & CONV and not roles & SEARCH: output(M, fn, res, h, L, acc)
        for h, p in wraps(M, fn, res, F) + tree_walks(M, fn, res, roles):
            L = body_of(fn)[h]
            ld = [(i, None, {}, 0) for b in L for i in fn.blocks[b] if i['op'] == 'load' and fn.addr(i['ops'][0])[0] == '%%%d' % p['i'] or i['op'] == 'call' and any(o[0] == '%' and fn.addr(o)[0] == '%%%d' % p['i'] for o in i['ops'])] or [(p, None, {}, 0)]
            if roles & CONV and not roles & SEARCH: output(M, fn, res, h, L, ld)
            scan[h] = (L, {}, [], [])
        if scan: bypass(M, fn, res, scan)
        blocks(M, fn, res, F)

def judge(M, fn, res, h, L, inds, bs, acc, F, scan):
    i, a, off, d = min(acc, key=lambda x: (x[2].get('', 0), x[0]['i']))
    w = width(M, F[a], i, d)
    if not w: res.ob('undecided'); return
    where = fn.locstr(i); key = '%s:%s' % (fn.src, a)
    if abs(d) % w == 0 and abs(d) != w:
        if len({x[2].get('', 0) // w for x in acc if x[1] == a and x[3] == d}) >= abs(d) // w: res.ob('unrolled', sample=fn.name); return
        res.bad('step', key, where, '%s goes on by %d elements at a time' % (fn.name, abs(d) // w)); return
    if abs(d) != w: res.ob('undecided'); return
    others = [g for g in scan if g != h and any(z[1] == a for z in scan[g][3]) and (g in after(fn, L) or h in after(fn, scan[g][0]))]
    for b, xx in bs:
        if not xx: continue
        res.ob('extent', sample='%s: %s' % (fn.name, show(xx)))
        if 'narrowed' in xx:
            if any(t in xx for t in COUNT): res.bad('extent', key, where, '%s cuts the number of elements to a narrower integer' % fn.name)
            continue
        for x in alternatives(M, fn, xx):
            if not set(x) <= set(COUNT) | {'', 'F:nFirstUsed', 'F:mask', 'F:offset', 'F:capacity', 'F:nTableSize'}: res.ob('undecided', sample='%s: %s' % (fn.name, show(x))); continue
            if others and x != xx: res.ob('in parts', sample=fn.name); continue
            if not any(t in x for t in COUNT) and set(xx) <= {''}: res.ob('undecided', sample='%s: %s' % (fn.name, show(x))); continue
            c = dict(x); k = c.pop('', 0)
            first = off.get('', 0) // w if set(off) <= {''} and d > 0 else 0
            if c == {'F:nNumOfElements': 1} and a == 'F:arData':
                res.bad('extent', key, where, '%s visits as many slots as there are elements, though some slots may be unused' % fn.name)
            elif c in ({'F:size': 1}, {'F:nNumUsed': 1}, {'F:nNumOfElements': 1}):
                if k + first < 0: res.bad('extent', key, where, '%s visits %s elements, not all of them' % (fn.name, show(x)))
                elif k + first > 0: res.bad('extent', key, where, '%s goes on behind the last element (%s)' % (fn.name, show(x)))
            elif c == {'F:nNumUsed': 1, 'F:nFirstUsed': -1}:
                if k: res.bad('extent', key, where, '%s visits %s slots, not all of them' % (fn.name, show(x)))
            elif others: res.ob('in parts', sample=fn.name)
            else: res.bad('extent', key, where, '%s visits %s elements, not all of them' % (fn.name, show(x)))
    if d < 0: res.ob('undecided'); return
    for off in alternatives(M, fn, off):
        if set(off) <= {''}:
            res.ob('start', sample=fn.name)
            k = off.get('', 0)
            if k < 0: res.bad('start', key, where, '%s starts in front of the first element' % fn.name)
            elif k >= w and not others and not peeled(M, fn, L, a, k, w): res.bad('start', key, where, '%s starts at element %d' % (fn.name, k // w))
        elif set(off) - {''} == {'F:nFirstUsed'}:
            res.ob('start', sample=fn.name)
            if off.get('', 0) >= w and not others: res.bad('start', key, where, '%s starts behind the first used slot' % fn.name)
        else: res.ob('undecided')

def after(fn, L):
    """blocks reached when a loop is left"""
    seen = set(); st = [s for b in L for s in fn.succ[b] if s not in L]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b); st += fn.succ[b]
    return seen

def peeled(M, fn, L, a, k, w):
    """the elements in front of the loop are accessed one by one"""
    seen = set()
    for i in fn.I.values():
        if i['b'] in L or i['b'] not in fn.rpoidx: continue
        ops = [i['ops'][0]] if i['op'] == 'load' else [i['ops'][1]] if i['op'] == 'store' else [o for o in i['ops'] if o and o[0] == '%'] if i['op'] == 'call' else []
        for o in ops:
            x = lin(M, fn, o)
            if x.get(a) == 1 and set(x) <= {a, ''} and x.get('', 0) >= 0: seen.add(x.get('', 0) // w)
    return all(j in seen for j in range(k // w))

def writes(M, fn, i):
    if i['op'] == 'store':
        return bool(root_kinds(M, fn, fn.addr(i['ops'][1])[0]) & {'newarr', 'new', 'newobj*', 'nstorage', 'new*', 'ht'}) or fn.addr(i['ops'][1])[0][0] == '%' and ispointerphi(fn, fn.addr(i['ops'][1])[0])
    if i['op'] == 'call':
        n = fn.callee(i) or ''
        return n.startswith(('zend_hash_', '_zend_hash', 'add_next', 'array_set_zval_key', 'teds_array_set', 'smart_str', 'php_var', 'zend_symtable', 'llvm.memcpy')) or 'update' in n or 'insert' in n
    return False

def ispointerphi(fn, r):
    j = fn.d(r)
    return j is not None and j['op'] == 'phi' and j['ty'] == 'ptr'

def output(M, fn, res, h, L, acc):
    tgt = {i['b'] for b in L for i in fn.blocks[b] if writes(M, fn, i)}
    if not tgt: res.ob('undecided'); return
    res.ob('output', sample=fn.name)
    skips(M, fn, res, h, L, tgt, acc, 'omitted', 'can pass over an element in use without converting it')
    rd = {i['b'] for i, *_ in acc if i['op'] != 'load' or flows(fn, i)}
    if rd: skips(M, fn, res, h, L, rd, acc, 'unread', 'can pass over an element in use without taking its value')

def flows(fn, i):
    """the loaded value is used for more than a comparison"""
    seen = set(); st = ['%%%d' % i['i']]
    while st:
        v = st.pop()
        if v in seen: continue
        seen.add(v)
        for u in fn.uses()[v]:
            if u['op'] in ('zext', 'sext', 'trunc', 'phi', 'select', 'freeze', 'and', 'or', 'xor', 'lshr', 'shl', 'add', 'sub', 'mul', 'sitofp'): st.append('%%%d' % u['i'])
            elif u['op'] not in ('icmp', 'fcmp', 'br', 'switch'): return True
    return False

def skips(M, fn, res, h, L, tgt, acc, kind, what):
    if h in tgt: return
    seen = set(); st = [s for s in fn.succ[h] if s in L]
    while st:
        b = st.pop()
        if b in tgt or b in seen: continue
        if b == h:
            res.bad(kind, fn.src, fn.locstr(acc[0][0]), '%s %s' % (fn.name, what)); return
        seen.add(b)
        for s in fn.succ[b]:
            if s in L and not unused_edge(fn, b, s): st.append(s)

def bypass(M, fn, res, scan):
    heads = set(scan)
    # blocks from which a visiting loop can be reached
    can = set(heads); st = list(heads)
    while st:
        b = st.pop()
        for p in fn.pred[b]:
            if p in fn.rpoidx and p not in can: can.add(p); st.append(p)
    for b in fn.rpo:
        if b not in can or any(b in L for L, *_ in scan.values()): continue
        ce = cond_edges(fn, b)
        if not ce or ce[1] == ce[2]: continue
        away = [s for s in (ce[1], ce[2]) if s not in can]
        if len(away) != 1: continue
        op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
        if c is None or c['op'] != 'icmp': continue
        x, y, q = lin(M, fn, c['ops'][0]), lin(M, fn, c['ops'][1]), c['pred']
        if set(x) <= {''}: x, y = y, x; q = q.translate(str.maketrans('lg', 'gl'))
        if set(y) - {''} or len(x) != 1 or next(iter(x)) not in COUNT or x[next(iter(x))] != 1: continue
        if all_throw(fn, away[0]): continue
        k = y.get('', 0)
        if (away[0] == ce[1]) == neg: q = {'ult': 'uge', 'ule': 'ugt', 'slt': 'sge', 'sle': 'sgt', 'eq': 'ne', 'ugt': 'ule', 'uge': 'ult', 'sgt': 'sle', 'sge': 'slt', 'ne': 'eq'}[q]
        res.ob('bypass', sample=fn.name)
        hit = [v for v in range(1, 40) if {'eq': v == k, 'ne': v != k, 'lt': v < k, 'le': v <= k, 'gt': v > k, 'ge': v >= k}[q[-2:]]]
        if hit and not touched(M, fn, away[0], b, scan):
            res.bad('bypass', '%s:%s' % (fn.src, q), fn.locstr(c), '%s takes no element into account when there are %d' % (fn.name, hit[0]))

def all_throw(fn, s):
    seen = set(); st = [s]
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        if any(throws(fn, i) for i in fn.blocks[b]): continue
        if fn.blocks[b][-1]['op'] == 'ret': return False
        st += fn.succ[b]
    return True

def touched(M, fn, s, b, scan):
    """elements are accessed on the way that by-passes the loops"""
    F = {x[1] for L, i, bs, acc in scan.values() for x in acc}
    seen = set(); st = [s]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for i in fn.blocks[x]:
            o = i['ops'][0] if i['op'] == 'load' else None
            if o and set(lin(M, fn, o)) & F: return True
        st += fn.succ[x]
    return False

def leaves(fn, op, L, stop, out, seen, edge=None):
    """the values a phi chain inside a loop can take: [(value, edge)]"""
    i = fn.d(op)
    if i is not None and i['op'] == 'phi' and i['b'] in L and op not in stop and op not in seen:
        seen.add(op)
        for o, b in zip(i['ops'], i['in']): leaves(fn, o, L, stop, out, seen, (b, i['b']))
    elif i is not None and i['op'] == 'select' and op not in seen:
        seen.add(op)
        for o in i['ops'][1:]: leaves(fn, o, L, stop, out, seen, edge)
    else: out.append((op, edge))

def wraps(M, fn, res, F):
    """a pointer that goes round a ring buffer starts at its first element and goes on at the start of the block"""
    done = []
    for h, L in sorted(body_of(fn).items()):
        if h not in fn.rpoidx: continue
        inds, bs = bounds(M, fn, h, L)
        for p in fn.blocks[h]:
            if p['op'] != 'phi' or p['ty'] != 'ptr': continue
            me = '%%%d' % p['i']
            if me in inds: continue
            out = []
            for o, b in zip(p['ops'], p['in']):
                if b in L: leaves(fn, o, L, {me}, out, set())
            fs = [lin(M, fn, o) for o, e in out]
            on = [f for f in fs if f.get(me) == 1]; rest = [f for f in fs if me not in f]
            bs_ = {t for f in rest for t in f if t in F}
            if not on or not rest or len(bs_) != 1: continue
            a = bs_.pop()
            if not any(i['op'] == 'load' and fn.addr(i['ops'][0])[0] == me for b in L for i in fn.blocks[b]): continue
            w = elem_size(M.P, F[a].type); where = fn.locstr(fn.d(out[0][0]) or p)
            res.ob('ring', sample=fn.name); done.append((h, p))
            for f in on:
                if f != {me: 1, '': w}: res.bad('ring', '%s:step' % fn.src, where, '%s goes on by %s in a ring buffer' % (fn.name, show({t: v for t, v in f.items() if t != me})))
            for f in rest:
                if f != {a: 1}: res.bad('ring', '%s:wrap' % fn.src, where, '%s goes on at %s after the end of a ring buffer' % (fn.name, show(f)))
            for o, b in zip(p['ops'], p['in']):
                if b in L: continue
                f = lin(M, fn, o)
                if f.get(a) == 1 and all(t == '' or t[:2] == 'F:' for t in f) and f != {a: 1, 'F:offset': w}: res.bad('ring', '%s:start' % fn.src, where, '%s starts at %s in a ring buffer' % (fn.name, show(f)))
            for b, x in bs:
                if set(x) - {''} and all(t == '' or t[:2] == 'F:' for t in x):
                    res.ob('extent', sample='%s: %s' % (fn.name, show(x)))
                    if x != {'F:size': 1}: res.bad('ring', '%s:extent' % fn.src, where, '%s visits %s elements of a ring buffer' % (fn.name, show(x)))
    return done

def blocks(M, fn, res, F):
    """searches and copies of the whole block at once"""
    for i in fn.I.values():
        if i['op'] != 'call' or i['b'] not in fn.rpoidx or fn.callee(i) not in ('memchr', 'memrchr'): continue
        a = lin(M, fn, i['ops'][0]); n = lin(M, fn, i['ops'][2])
        b = [t for t in a if t in F]
        if len(b) != 1 or a[b[0]] != 1: continue
        res.ob('block search', sample=fn.name)
        for x in alternatives(M, fn, n):
            e = add({t: v for t, v in a.items() if t != b[0]}, x)
            if set(a) - {b[0], ''} or set(e) - {'', 'F:size'}: res.ob('undecided'); continue
            if e != {'F:size': 1} or a.get('', 0): res.bad('extent', '%s:memchr' % fn.src, fn.locstr(i), '%s searches %s bytes from %s on, not all elements' % (fn.name, show(x), show(a)))

# ---- trees
def node_offs(M, fn):
    for n in M.owners.get(fn.name, []):
        for f in ((M.classes.get(n) or {}).get('layout') or {}).values():
            if f.name != 'root': continue
            st = M.P.struct(f.type.replace('struct ', '').rstrip('* '))
            fs = {x[0].split('.')[-1]: x[1] for x in st['fields']} if st else {}
            if 'parent' in fs: return fs
    return None

def edge_test(fn, e):
    """(predicate, x, y) that holds on an edge"""
    if e is None: return None
    b, s = e
    for _ in range(6):
        ce = cond_edges(fn, b)
        if ce and ce[1] != ce[2]: break
        if len(fn.pred[b]) != 1 or len(fn.succ[b]) != 1: return None
        s = b; b = fn.pred[b][0]
    else: return None
    if s not in (ce[1], ce[2]): return None
    op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
    if c is None or c['op'] != 'icmp' or c['pred'] not in ('eq', 'ne'): return None
    return (c['pred'] == 'eq') == ((s == ce[1]) != neg), c['ops'][0], c['ops'][1]

def member(fn, op, offs):
    """(node, 'left' | 'right' | 'parent') that was loaded"""
    i = fn.d(op)
    if i is None or i['op'] != 'load' or i['ty'] != 'ptr': return None
    r, o, v = fn.addr(i['ops'][0])
    if v or o not in offs: return None
    return fn.canon(r), offs[o]

def tree_walks(M, fn, res, roles):
    offs = tree_offs(M, fn); done = []
    if not offs: return done
    LM = body_of(fn)
    for h, L in sorted(LM.items()):
        if h not in fn.rpoidx: continue
        for p in fn.blocks[h]:
            if p['op'] != 'phi' or p['ty'] != 'ptr': continue
            me = '%%%d' % p['i']
            steps = []; heads = {'%%%d' % q['i'] for g in LM if g in L and g != h for q in fn.blocks[g] if q['op'] == 'phi'}
            for o, b in zip(p['ops'], p['in']):
                if b in L: leaves(fn, o, L, {me} | heads, steps, set(), (b, h))
            kinds = [classify(fn, LM, o, e, me, offs) for o, e in steps]
            if not any(k and k[0] in ('up', 'down', 'child') for k in kinds): continue
            if not any((member(fn, '%%%d' % i['i'], offs) or ('', ''))[1] == 'parent' for b in L for i in fn.blocks[b]): continue
            res.ob('tree walk', sample=fn.name); done.append((h, p))
            where = fn.locstr(p)
            for (o, e), k in zip(steps, kinds):
                if k is None: res.ob('undecided', sample='%s: %s' % (fn.name, o)); continue
                if k[0] == 'bad': res.bad('tree', fn.src, fn.locstr(fn.d(o) or p), '%s: %s' % (fn.name, k[1]))
            for o, b in zip(p['ops'], p['in']):
                if b in L: continue
                st = []; leaves(fn, o, set(fn.rpo) - L, heads | {'%%%d' % q['i'] for g in LM for q in fn.blocks[g] if q['op'] == 'phi' and g != h}, st, set(), (b, h))
                for v, e in st:
                    if v == 'null': continue
                    i = fn.d(v); f = lin(M, fn, v)
                    res.ob('tree start', sample=fn.name)
                    if f == {'F:root': 1}: 
                        t = edge_test(fn, e)
                        if not (t and t[0] and 'null' in t[1:] and any((member(fn, x, offs) or ('', ''))[1] == 'left' for x in t[1:])): res.bad('tree', fn.src + ':start', where, '%s starts at the root, not at the first node' % fn.name)
                    elif i is not None and i['op'] == 'phi':
                        x = descent(fn, LM, v, offs)
                        if x and x != 'left': res.bad('tree', fn.src + ':start', where, '%s starts at the last node' % fn.name)
                        elif not x: res.ob('undecided')
    return done

def tree_offs(M, fn):
    fs = node_offs(M, fn)
    if not fs: return None
    return {fs[k]: k for k in ('left', 'right', 'parent') if k in fs}

def descent(fn, LM, v, offs):
    """v is the header phi of a loop that goes down one side: that side"""
    q = fn.d(v)
    if q is None or q['op'] != 'phi' or q['b'] not in LM: return None
    out = set()
    for o, b in zip(q['ops'], q['in']):
        if b in LM[q['b']]:
            m = member(fn, o, offs)
            out.add(m[1] if m and m[0] == fn.canon(v) else None)
    return out.pop() if len(out) == 1 else None

def classify(fn, LM, o, e, me, offs):
    if o == 'null':
        t = edge_test(fn, e)
        if t and t[0] and 'null' in t[1:]:
            m = [member(fn, x, offs) for x in t[1:] if x != 'null'][0]
            if m and m[1] != 'parent': return ('bad', 'ends the walk at a node without %s child' % m[1])
        return ('end',)
    m = member(fn, o, offs)
    t = edge_test(fn, e)
    if m:
        if m[1] == 'parent':
            if t and any(fn.canon(x) == m[0] for x in t[1:]):
                y = [member(fn, x, offs) for x in t[1:] if fn.canon(x) != m[0]]
                if y and y[0] and y[0][0] == fn.canon(o):
                    if (y[0][1] == 'right') == t[0]: return ('bad', 'goes up to a node that has been visited already')
                    return ('up',)
            if t and 'null' in t[1:]:
                z = [member(fn, x, offs) for x in t[1:] if x != 'null']
                if z and z[0] == m and t[0]: return ('end',)
            return None
        # a child: only when it has no left child itself
        if t and t[0] and 'null' in t[1:]:
            z = [member(fn, x, offs) for x in t[1:] if x != 'null'][0]
            if z and z[1] == 'left' and z[0] == fn.canon(o): return ('child',) if m[1] == 'right' else ('bad', 'goes on at a left child')
        return ('bad', 'goes on at the %s child, not at the first node below it' % m[1]) if m[0] == fn.canon(me) else None
    d = descent(fn, LM, o, offs)
    if d:
        q = fn.d(o)
        init = [member(fn, x, offs) for x, b in zip(q['ops'], q['in']) if b not in LM[q['b']]]
        if d == 'parent': return None
        if init and init[0] and init[0][0] == fn.canon(me):
            if (init[0][1], d) != ('right', 'left'): return ('bad', 'goes on %s below the %s child' % (d, init[0][1]))
            return ('down',)
    return None
