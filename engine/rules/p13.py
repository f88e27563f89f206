"""A clone is a complete copy that shares nothing with the original."""
from fractions import Fraction
from ir import *
from flow import *
from model import obj_field, elem_size
from lin import lin, induction, add
from heap import bases
from store import storage_fields
from own import loops
from bal import elem_zvals
from rules import p06

LEVEL = 'other'
RULE = ('for every class that can be cloned, on every path of its clone handler: the object returned is the newly allocated one; on paths on which the original was not found empty '
        'every element count and every element-type marker of the copy ends up with the value of the original, every buffer of the copy is newly allocated (or, for shared immutable bytes, '
        'counted) and never the buffer of the original, and the copy loop or block copy covers the whole extent of the original, moving each value of an element to the same place in '
        'the copy; the list of live iterators is not copied; a tree node is copied with every field other code reads, both subtrees and a link to the new parent; no function outside module startup writes a variable that outlives the call and that other code reads')
ASSUMPTIONS = ['element counts are consistent with the elements present', 'copying loops of a shape the analysis does not recognise are not judged (listed as undecided in the evidence)']
FLOORS = {'clone-handlers': 16, 'fields': 40, 'buffers': 13, 'extents': 13, 'node-fields': 10}
COUNTS = ('size', 'nNumOfElements', 'bit_size')
CAPS = ('capacity', 'mask', 'bit_capacity', 'nTableSize', 'nTableMask')
STRINGY = ('char', 'zend_string')
WIDTH = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8}

def strip(fn, op):
    while True:
        i = fn.d(op)
        if i is not None and i['op'] in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'): op = i['ops'][0]
        else: return op

def same_field(M, fn, v, f, old='a0'):
    """v is the original's field f"""
    for o in (v, strip(fn, v), fn.canon(strip(fn, v))):
        i = fn.d(strip(fn, o))
        if i is not None and i['op'] == 'load':
            a = fn.addr(i['ops'][0])
            if a[0] == old and a[1] == f.off and not a[2]: return True
    return False

def run(ctx, res):
    M = ctx.M; P = ctx.P
    shared_state(ctx, M, res)
    done = set()
    for nm, k in sorted((n, k) for n, k in M.classes.items() if n):
        if not k['layout'] or k['kind'] == 'zend_register_internal_interface': continue
        h = k['handlers'] or {}
        if 'clone_obj' not in h:
            if storage_fields(M, k['struct']): res.bad('no-handler', nm, nm, '%s owns buffers but is cloned by the engine\'s default handler, which shares them' % nm)
            continue
        g = h['clone_obj']
        if g is None: continue                        # not clonable
        if g not in P._raw: continue
        res.ob('clone-handlers', sample='%s: %s' % (nm, g))
        if (g, k['struct']) in done: continue
        done.add((g, k['struct']))
        clone(ctx, M, ctx.fn(g, res), res, nm, k)

def shared_state(ctx, M, res):
    """no operation keeps state outside the collections: a global or static variable is written during module startup only"""
    P = ctx.P
    G = {'@' + n for n, g in P.globals.items() if not g.get('decl')}
    writes = {}; reads = set()
    for n in P.names():
        if n.startswith(('zm_', 'register_class_', 'get_module')) or '_register_' in n: continue
        fn = P.fn(n)
        selfs = set()
        for i in fn.I.values():
            if i['op'] == 'store':
                a = fn.addr(i['ops'][1])
                if a[0] in G:
                    writes.setdefault(a[0], []).append((fn, i))
                    st = [i['ops'][0]]
                    while st:                           # values that only flow back into the same variable
                        j = fn.d(st.pop())
                        if j is None: continue
                        if j['op'] == 'load' and fn.addr(j['ops'][0])[0] == a[0]: selfs.add(j['i'])
                        elif j['op'] in ('add', 'sub', 'zext', 'trunc', 'sext', 'xor', 'or', 'and', 'mul'): st += j['ops']
            elif i['op'] == 'call' and (fn.callee(i) or '').startswith(('llvm.mem', 'memcpy', 'memset', 'memmove')):
                a = fn.addr(i['ops'][0])
                if a[0] in G: writes.setdefault(a[0], []).append((fn, i))
        for i in fn.I.values():
            if i['op'] == 'load' and i['i'] not in selfs:
                a = fn.addr(i['ops'][0])
                if a[0] in G: reads.add(a[0])
            elif i['op'] == 'call':
                for o in i['ops']:
                    if o[0] == '@' and o in G: reads.add(o)
        res.ob('functions')
    for g, w in sorted(writes.items()):
        if g not in reads and not P.globals[g[1:]].get('const'): continue
        for fn, i in w: res.bad('shared-state', '%s:%s' % (fn.src, g), fn.locstr(i), '%s writes the variable %s, which every collection of the process shares' % (fn.name, g[1:]))

def clone(ctx, M, fn, res, nm, k):
    K = k['handlers']['offset']
    allocs = [i for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) == 'zend_object_alloc' and i['b'] in fn.rpoidx]
    if not allocs:
        res.bad('no-object', nm, fn.locstr(fn.blocks[0][0]), '%s allocates no new object' % fn.name); return
    new = {'%%%d' % i['i'] for i in allocs}
    for b in fn.rpo:
        t = fn.blocks[b][-1]
        if t['op'] == 'ret' and t['ops']:
            for r in bases(fn, t['ops'][0]):
                if r not in new: res.bad('no-object', nm, fn.locstr(t), '%s can return something other than the new object' % fn.name)
    fields = [f for f in k['layout'].values()]
    at = {}                                            # offset inside the new object -> field
    for f in fields: at[f.off + K] = f
    def tr(st, i):
        if i['op'] == 'store':
            a = fn.addr(i['ops'][1])
            if a[0] in new and not a[2] and a[1] in at: st = dict(st); st[a[1]] = frozenset([i['i']])
        elif i['op'] == 'call' and (fn.callee(i) or '').startswith(('llvm.mem', 'memcpy', 'memmove')):
            a = fn.addr(i['ops'][0]); n = const(i['ops'][2])
            if a[0] in new and not a[2] and n is not None:
                st = dict(st)
                for o in at:
                    if a[1] <= o < a[1] + n: st[o] = frozenset([i['i']])
        return st
    def join(a, b): return {o: a[o] | b[o] for o in a}
    def edge(empty):
        def e(st, b, s):
            if empty_edge(M, fn, b, s): return None
            if null_result(fn, b, s, new): return None
            return st
        return e
    init = {o: frozenset([-1]) for o in at}
    full = forward(fn, init, tr, join, edge(False))[1]
    every = forward(fn, init, tr, join)[1]
    frets = [b for b in fn.rpo if fn.blocks[b][-1]['op'] == 'ret']
    for b in frets:
        for o, f in sorted(at.items()):
            for s in sorted(every[b][o]) if b in every else ():
                i = fn.I.get(s)
                if i is None: continue
                if i['op'] == 'call':
                    if block_same(fn, i, f, K) and (f.type.endswith('*') or f.name == 'active_iterators'):
                        res.bad('shared', '%s:%s' % (nm, f.name), fn.locstr(i), '%s gives the copy %s of the original' % (fn.name, 'the live iterators' if f.name == 'active_iterators' else 'the buffer'))
                    continue
                v = i['ops'][0]
                if f.name == 'active_iterators':
                    if same_field(M, fn, v, f): res.bad('iterators', nm, fn.locstr(i), '%s gives the copy the live iterators of the original' % fn.name)
                    continue
                if f.type.endswith('*'):
                    res.ob('buffers', sample='%s %s' % (fn.name, f.name))
                    for r in bases(fn, v):
                        j = fn.d(r)
                        if j is not None and j['op'] == 'load' and fn.addr(j['ops'][0])[0] == 'a0' and fn.addr(j['ops'][0])[1] in k['layout']:
                            if any(x in f.type for x in STRINGY) and counted(fn, i): continue
                            res.bad('shared', '%s:%s' % (nm, f.name), fn.locstr(i), '%s gives the copy the buffer of the original (%s)' % (fn.name, f.name))
            if b in every and f.type.endswith('*') and sentinel(ctx, M, k, f):
                for s in sorted(every[b][o]):
                    i = fn.I.get(s)
                    if i is None or i['op'] == 'store' and i['ops'][0] in ('null', 'c0'):
                        res.bad('uninitialised', '%s:%s' % (nm, f.name), fn.locstr(i if i is not None else fn.blocks[b][-1]), '%s can leave the copy marked as never constructed (%s is null)' % (fn.name, f.name))
            if b not in full: continue
            for s in sorted(full[b][o]):
                i = fn.I.get(s)
                where = fn.locstr(i) if i is not None else fn.locstr(fn.blocks[b][-1])
                if i is not None and i['op'] == 'call':
                    if block_same(fn, i, f, K) or not (fn.callee(i) or '').startswith('llvm.memset'): continue
                    i = None
                v = i['ops'][0] if i is not None else 'c0'
                if f.name in COUNTS or f.name == 'type_tag':
                    res.ob('fields', sample='%s %s' % (fn.name, f.name))
                    if same_field(M, fn, v, f): continue
                    if f.name in COUNTS and incremented(fn, v, new, o): continue
                    if i is None or const(v) is not None:
                        if f.name in COUNTS and counts_up(fn, new, o): continue     # built element by element
                        res.bad('incomplete', '%s:%s' % (nm, f.name), where, '%s can leave %s of the copy without the value of the original although the original was not found empty' % (fn.name, f.name))
                    elif depends(fn, v, f): res.bad('incomplete', '%s:%s' % (nm, f.name), where, '%s stores into %s of the copy something other than the value of the original' % (fn.name, f.name))
                elif f.name in CAPS:
                    res.ob('fields', sample='%s %s' % (fn.name, f.name))
                    if i is None or const(v) == 0:
                        res.bad('capacity', '%s:%s' % (nm, f.name), where, '%s can leave %s of the copy at zero although the original was not found empty' % (fn.name, f.name))
                elif f.type.endswith('*') and f.name != 'active_iterators':
                    res.ob('fields', sample='%s %s' % (fn.name, f.name))
                    if i is None or v == 'null' or const(v) is not None or v[0] == '@':
                        res.bad('incomplete', '%s:%s' % (nm, f.name), where, '%s can leave the copy without storage although the original was not found empty' % fn.name)
    extents(ctx, M, fn, res, nm, k, new, K, full)

def at_new(k, K, o):
    for f in k['layout'].values():
        if f.off + K == o: return f.name

_sent = {}
def sentinel(ctx, M, k, f):
    """objects of the class mark "constructed but empty" with the address of a shared constant, and null means never constructed"""
    key = (k['struct'], f.off)
    if key not in _sent:
        _sent[key] = False
        for n in M.P.names():
            fn = M.P.fn(n)
            for i in fn.I.values():
                if i['op'] == 'store' and i['ops'][0][0] == '@':
                    g = obj_field(M, fn, i['ops'][1])
                    if g is not None and (g is f or any(g is x for x in k['layout'].values()) and g.off == f.off): _sent[key] = True
    return _sent[key]

def advances(fn, op, L, h):
    """the address moves from one round of the loop to the next: it depends on a value carried round the loop that is stepped (or on another call or load made inside it)"""
    def walk(ops):
        seen = set(); st = list(ops); phis = set(); step = False
        while st:
            o = st.pop()
            if o in seen: continue
            seen.add(o)
            i = fn.d(o)
            if i is None or i['b'] not in L: continue
            if i['op'] in ('load', 'call'): return None
            if i['op'] == 'phi' and i['b'] == h: phis.add(i['i']); continue
            if i['op'] in ('add', 'sub', 'getelementptr', 'mul', 'shl', 'lshr', 'or', 'xor'): step = True
            st += i['ops'] + [v for v, c in i.get('var') or ()]
        return phis, step
    w = walk([op])
    if w is None: return True
    for p in w[0]:
        p = fn.I[p]
        v = walk([o for o, b in zip(p['ops'], p['in']) if b in L])
        if v is None or v[1]: return True
    return False

def wraps(fn, op, L, f, mask):
    """the walk over a ring can go from its last slot to its first: the position is masked, compared, or set back to the start inside the loop"""
    seen = set(); st = [op]
    while st:
        o = st.pop()
        if o in seen: continue
        seen.add(o)
        i = fn.d(o)
        if i is None or i['b'] not in L: continue
        if i['op'] in ('and', 'select', 'urem', 'srem', 'load', 'call'): return True
        if i['op'] == 'phi' and len([1 for b in i['in'] if b in L]) > 1: return True
        st += i['ops'] + [v for v, c in i.get('var') or ()]
    return False

def block_same(fn, i, f, K):
    """a block copy of the original's fields into the same fields of the copy"""
    if (fn.callee(i) or '').startswith('llvm.memset'): return False
    d, s = fn.addr(i['ops'][0]), fn.addr(i['ops'][1])
    return s[0] == 'a0' and not s[2] and s[1] + K == d[1]

def null_result(fn, b, s, new):
    """the edge on which an allocation of this function would have returned null (never taken)"""
    z = zero_edge(fn, b)
    return bool(z) and z[1] == s != z[2] and z[0] in new

def counted(fn, st):
    """a string reference was taken on every path after (or before) the store, except where there is no string"""
    adds = {i['b'] for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) in ('zend_string_addref', 'zend_gc_addref', 'zend_string_copy')}
    return bool(adds)

def depends(fn, v, f, depth=0):
    i = fn.d(v)
    if i is None or depth > 12: return False
    if i['op'] == 'load':
        a = fn.addr(i['ops'][0])
        return a[0] == 'a0' and a[1] < 0
    if i['op'] in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'udiv', 'sdiv', 'urem', 'or', 'zext', 'sext', 'trunc', 'freeze'): return any(depends(fn, o, f, depth + 1) for o in i['ops'])
    return False

def incremented(fn, v, new, o):
    i = fn.d(strip(fn, v))
    if i is None or i['op'] != 'add' or const(i['ops'][1]) != 1: return False
    j = fn.d(strip(fn, i['ops'][0]))
    if j is None or j['op'] not in ('load', 'phi'): return False
    if j['op'] == 'phi': return True
    a = fn.addr(j['ops'][0])
    return a[0] in new and a[1] == o

def counts_up(fn, new, o):
    return any(i['op'] == 'store' and fn.addr(i['ops'][1])[0] in new and fn.addr(i['ops'][1])[1] == o and incremented(fn, i['ops'][0], new, o) for i in fn.I.values())

def empty_edge(M, fn, p, x):
    z = zero_edge(fn, p)
    if z and z[1] == x and z[2] != x:
        f = p06.load_field(M, fn, z[0])
        if f is not None and (f.name in p06.COUNT and f.name != 'mask' or f.name in ('capacity', 'nTableSize', 'bit_capacity') or f.type.endswith('*') and f.type != 'zend_object_iterator*'): return True
    return False

# ---------------------------------------------------------------- extents
def loop_range(M, fn, h, L):
    """[(phi, start form, step, end form)] for the counters of a counted loop whose only exit test bounds them; None if not of that shape"""
    phis = [p for p in fn.blocks[h] if p['op'] == 'phi']
    exits = []
    for b in L:
        if b not in fn.rpoidx: continue
        for s in fn.succ[b]:
            if s not in L and fn.blocks[s][-1]['op'] != 'unreachable': exits.append(b)
    if len(set(exits)) != 1: return None
    b = exits[0]
    ce = cond_edges(fn, b)
    if not ce: return None
    op, neg = strip_bool(fn, ce[0]); c = fn.d(op)
    if c is None or c['op'] != 'icmp': return None
    inds = {}
    for p in phis:
        ind = induction(M, fn, p)
        if ind is not None: inds['%%%d' % p['i']] = (p, ind)
    x, y = c['ops']
    lx, ly = lin(M, fn, x), lin(M, fn, y)
    pr = c['pred']
    for me, (p, ind) in inds.items():
        if me in ly and me not in lx: lx, ly = ly, lx; pr = pr.translate(str.maketrans('lg', 'gl'))
        if abs(lx.get(me, 0)) != 1 or me in ly: continue
        if set(lx) & set(inds) - {me} or set(ly) & set(inds): continue
        if (ce[1] in L) == neg: q = {'ult': 'uge', 'ule': 'ugt', 'slt': 'sge', 'sle': 'sgt', 'eq': 'ne', 'ugt': 'ule', 'uge': 'ult', 'sgt': 'sle', 'sge': 'slt', 'ne': 'eq'}[pr]
        else: q = pr
        bottom = b != h or len(L) == 1
        if bottom and b not in [z for z in fn.pred[h] if z in L]: return None
        rest = {t: v for t, v in lx.items() if t != me}
        if lx[me] != 1: return None
        e = add(ly, rest, -1)
        start, step = ind
        if step > 0:
            if q in ('ule', 'sle'): e = add(e, {'': 1})
            elif q not in ('ult', 'slt', 'ne'): return None
            n = add(e, start, -1)
        else:
            if q in ('uge', 'sge'): e = add(e, {'': 1}, -1)
            elif q not in ('ugt', 'sgt', 'ne'): return None
            n = add(start, e, -1)
        if bottom: n = add(n, {'': abs(step)})
        n = {t: Fraction(v, abs(step)) for t, v in n.items()}
        return inds, n
    return None

def form_eq(a, b): return {t: Fraction(v) for t, v in a.items()} == {t: Fraction(v) for t, v in b.items()}

def low(M, fn, op, depth=0):
    """lower bound of a size expression as a linear form over the original's fields (Fractions), or None"""
    k = const(op)
    if k is not None: return {'': Fraction(k)} if k else {}
    i = fn.d(op)
    if i is None or depth > 16: return None
    o = i['op']
    if o in ('zext', 'sext', 'trunc', 'freeze'): return low(M, fn, i['ops'][0], depth + 1)
    if o == 'add':
        a, b = low(M, fn, i['ops'][0], depth + 1), low(M, fn, i['ops'][1], depth + 1)
        return None if a is None or b is None else add(a, b)
    c = const(i['ops'][1]) if len(i['ops']) > 1 else None
    if o in ('lshr', 'ashr', 'udiv', 'sdiv') and c is not None:
        m = 1 << c if o in ('lshr', 'ashr') else c
        a = low(M, fn, i['ops'][0], depth + 1)
        return None if a is None else {t: v / m for t, v in add(a, {'': Fraction(m - 1)}, -1).items()}
    if o in ('mul', 'shl') and c is not None:
        m = c if o == 'mul' else 1 << c
        a = low(M, fn, i['ops'][0], depth + 1)
        return None if a is None else {t: v * m for t, v in a.items()}
    if o == 'and' and c is not None and c < 0 and ((-c) & (-c - 1)) == 0:
        a = low(M, fn, i['ops'][0], depth + 1)
        return None if a is None else add(a, {'': Fraction(-c - 1)}, -1)
    L = lin(M, fn, op)
    if all(t == '' or t.startswith('F:') for t in L): return {t: Fraction(v) for t, v in L.items()}
    return None

def factors(M, fn, op, depth=0):
    """a product as a sorted tuple of canonical factors"""
    o = strip(fn, op)
    i = fn.d(o)
    if i is not None and i['op'] == 'mul' and depth < 8: return factors(M, fn, i['ops'][0], depth + 1) + factors(M, fn, i['ops'][1], depth + 1)
    if i is not None and i['op'] == 'shl' and const(i['ops'][1]) is not None and depth < 8: return factors(M, fn, i['ops'][0], depth + 1) + ('%d' % (1 << const(i['ops'][1])),)
    k = const(o)
    if k is not None: return ('%d' % k,) if k != 1 else ()
    L = lin(M, fn, o)
    if len(L) == 1 and '' not in L:
        (t, c), = L.items()
        return (t,) + (('%d' % c,) if c != 1 else ())
    return (fn.canon(o),)

def flat(fs):
    k = 1; r = []
    for f in fs:
        if f.lstrip('-').isdigit(): k *= int(f)
        else: r.append(f)
    return k, tuple(sorted(r))

def extents(ctx, M, fn, res, nm, k, new, K, full):
    P = M.P
    size = next((f for f in k['layout'].values() if f.name in ('size', 'bit_size')), None)
    hashed = any(f.name == 'nNumUsed' for f in k['layout'].values())
    ring = next((f for f in k['layout'].values() if f.name == 'offset'), None)
    typed = any(f.name == 'type_tag' for f in k['layout'].values())
    for f in storage_fields(M, k['struct']):
        if any(x in f.type for x in STRINGY) or f.type == 'zend_object_iterator*': continue
        if f.type.endswith('_node*'):
            tree(ctx, M, fn, res, nm, k, f, new, K); continue
        fresh = set()
        for i in fn.I.values():
            if i['op'] == 'store' and fn.addr(i['ops'][1])[0] in new and fn.addr(i['ops'][1])[1] == f.off + K and i['b'] in fn.rpoidx:
                fresh |= {r for r in bases(fn, i['ops'][0]) if fn.d(r) is not None and fn.d(r)['op'] == 'call'}
        if fresh:
            for i in fn.I.values():
                if i['op'] == 'load':
                    a = fn.addr(i['ops'][0])
                    if a[0] in new and a[1] == f.off + K and not a[2]: fresh |= {'%%%d' % i['i'], fn.canon('%%%d' % i['i'])}
        if not fresh: continue                         # reported above if the original can be non-empty
        esz = 16 if 'lowmemory' in k['struct'] else elem_size(P, f.type)
        if ring:
            for b in full:
                if fn.blocks[b][-1]['op'] != 'ret': continue
                for x in full[b][ring.off + K]:
                    i = fn.I.get(x)
                    if i is None or i['op'] != 'store' or const(i['ops'][0]) == 0: continue
                    lo = lin(M, fn, i['ops'][0])
                    starts = set()
                    for h, L in all_loops(fn).items():
                        for st in [z for q in L for z in fn.blocks[q] if z['op'] == 'store' and set(bases(fn, z['ops'][1])) & fresh]:
                            d = lin(M, fn, st['ops'][1])
                            for t in list(d):
                                p = fn.d(t) if t[:1] == '%' else None
                                ind = induction(M, fn, p) if p is not None and p['op'] == 'phi' else None
                                if ind is not None: d = add(dict((y, c) for y, c in d.items() if y != t), ind[0], d[t])
                            starts.add(len([t for t in d if t]) == 1)
                    if starts == {True}: res.bad('place', '%s:offset' % nm, fn.locstr(i), '%s fills the copy from slot 0 but records another first slot' % fn.name)
            for i in fn.I.values():
                if i['op'] == 'store' and i['b'] in fn.rpoidx and fn.addr(i['ops'][1])[0] in new and const(i['ops'][0]) is None:
                    m = at_new(k, K, fn.addr(i['ops'][1])[1])
                    if m != 'mask': continue
                    for r in fresh:
                        a = fn.d(r)
                        if a is None or a['op'] != 'call' or fn.callee(a) not in ('_safe_emalloc', '_safe_malloc'): continue
                        n = lin(M, fn, a['ops'][0])
                        if const(a['ops'][1]) == esz and len(n) == 1 and not form_eq(add(lin(M, fn, i['ops'][0]), {'': 1}), n) and 'F:mask' not in n:
                            res.bad('capacity', '%s:mask' % nm, fn.locstr(i), '%s records a ring of a size other than the one it allocates' % fn.name)
        if hashed: hash_walk(M, fn, res, nm, k, f); continue
        if size is None: continue
        copies = 0
        und = False
        for i in sorted(fn.I.values(), key=lambda i: i['i']):
            if i['op'] != 'call' or i['b'] not in fn.rpoidx: continue
            c = fn.callee(i) or ''
            if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
                a = fn.addr(i['ops'][0])
                if not (set(bases(fn, i['ops'][0])) & fresh): continue
                copies += 1
                res.ob('extents', sample='%s block copy' % fn.name)
                if a[1] or a[2]: res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s does not copy to the start of the new buffer' % fn.name)
                src = lin(M, fn, i['ops'][1])
                want = {'F:' + f.name: 1}
                if ring: want = add(want, {'F:offset': esz})
                if all(t == '' or t.startswith('F:') for t in src) and not same_buffer(k, src, f, want): res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s does not copy from the first element of the original' % fn.name)
                length(M, fn, res, nm, k, f, size, esz, i, fresh)
        for h, L in all_loops(fn).items():
            st = [i for b in L for i in fn.blocks[b] if i['op'] == 'store' and set(bases(fn, i['ops'][1])) & fresh]
            if not st: continue
            copies += 1
            for i in st:
                v = fn.d(strip(fn, i['ops'][0]))
                for what, o in (('fills the same place of the copy', i['ops'][1]), ('reads the same place of the original', v['ops'][0] if v is not None and v['op'] == 'load' and v['b'] in L else None)):
                    if o is not None and not advances(fn, o, L, h): res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s %s in every round of its loop' % (fn.name, what))
                if ring and v is not None and v['op'] == 'load' and v['b'] in L and not ring_split(fn, L) and not wraps(fn, v['ops'][0], L, f, None):
                    res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s reads on past the end of the ring' % fn.name)
            if ring: ring_end(M, fn, res, nm, k, f, L, esz)
            lr = loop_range(M, fn, h, L)
            if lr is None:
                res.ob('undecided', sample='%s loop at %s' % (fn.name, fn.locstr(st[0]))); und = True; continue
            inds, n = lr
            res.ob('extents', sample='%s copies %s elements' % (fn.name, p06.show(n)))
            if all(t == '' or t.startswith('F:') for t in n) and not form_eq(n, {'F:' + size.name: 1}):
                res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(st[0]), '%s copies %s elements, not all of them' % (fn.name, p06.show(n))); continue
            body(M, fn, res, nm, k, f, h, L, st, inds, fresh, esz, ring)
        if not copies:
            if any(i['op'] == 'call' and any(set(bases(fn, o)) & (fresh | new) for o in i['ops']) and (fn.callee(i) or '') in P._raw for i in fn.I.values()): res.ob('undecided', sample=fn.name)
            else: res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(fn.blocks[0][0]), '%s allocates a buffer for the copy but copies no element into it' % fn.name)

def same_buffer(k, src, f, want):
    if form_eq(src, want): return True
    # views of one union share an offset
    for g in k['layout'].values():
        if g.off == f.off and form_eq(src, {('F:' + g.name if t == 'F:' + f.name else t): v for t, v in want.items()}): return True
    return False

def ring_end(M, fn, res, nm, k, f, L, esz):
    """where the walk is set back to the start of the ring, it stands one past the last slot"""
    for b in L:
        for p in fn.blocks[b]:
            if p['op'] not in ('phi', 'select'): continue
            if p['op'] == 'phi':
                for o, q in zip(p['ops'], p['in']):
                    if q not in L or not form_eq(lin(M, fn, o), {'F:' + f.name: 1}): continue
                    e = q
                    t = fn.blocks[e][-1]
                    if not cond_edges(fn, e):
                        if len(fn.pred[e]) != 1: continue
                        e, x = fn.pred[e][0], e
                    else: x = b
                    for _ in range(8):
                        ce = cond_edges(fn, e)
                        if ce: wrap_test(M, fn, res, nm, f, ce[0], ce[1] == x, esz, p)
                        if len(fn.pred[e]) != 1 or fn.pred[e][0] not in L: break
                        e, x = fn.pred[e][0], e
            elif form_eq(lin(M, fn, p['ops'][1]), {'F:' + f.name: 1}): wrap_test(M, fn, res, nm, f, p['ops'][0], True, esz, p)
            elif form_eq(lin(M, fn, p['ops'][2]), {'F:' + f.name: 1}): wrap_test(M, fn, res, nm, f, p['ops'][0], False, esz, p)

def wrap_test(M, fn, res, nm, f, c, taken, esz, at):
    op, neg = strip_bool(fn, c)
    if neg: taken = not taken
    i = fn.d(op)
    if i is not None and taken and (i['op'] == 'and' or i['op'] == 'select' and const(i['ops'][2]) == 0):
        for o in i['ops'][:2]: wrap_test(M, fn, res, nm, f, o, True, esz, at)
        return
    if i is None or i['op'] != 'icmp': return
    lx, ly = lin(M, fn, i['ops'][0]), lin(M, fn, i['ops'][1])
    end = {'F:' + f.name: 1, 'F:mask': esz, '': esz}
    fields = lambda l: all(t == '' or t.startswith('F:') for t in l)
    if fields(lx) == fields(ly): return
    e = lx if fields(lx) else ly
    if 'F:' + f.name not in e: return
    pr = i['pred'] if fields(ly) else i['pred'].translate(str.maketrans('lg', 'gl'))
    if not taken: pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}[pr]
    if pr in ('ugt', 'sgt'): e = add(e, {'': esz})
    if pr in ('ne', 'ult', 'ule', 'slt', 'sle') or not form_eq(e, end):
        res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s goes back to the start of the ring elsewhere than after its last slot' % fn.name)

def ring_split(fn, L):
    """the ring is copied in two pieces: more than one loop or block copy"""
    n = sum(1 for h, l in all_loops(fn).items() if any(i['op'] == 'store' for b in l for i in fn.blocks[b]))
    return n > 1 or any(i['op'] == 'call' and (fn.callee(i) or '').startswith(('llvm.memcpy', 'llvm.memmove')) and const(i['ops'][2]) is None for i in fn.I.values())

def all_loops(fn):
    L = loops(fn)
    return L[1] if isinstance(L, tuple) else L

def alternatives(fn, op, depth=0):
    i = fn.d(strip(fn, op))
    if i is not None and depth < 6:
        if i['op'] == 'phi' and not (set(i['in']) & set(b for h, L in all_loops(fn).items() if h == i['b'] for b in L)): return [a for o in i['ops'] for a in alternatives(fn, o, depth + 1)]
        if i['op'] == 'select': return [a for o in i['ops'][1:] for a in alternatives(fn, o, depth + 1)]
    return [op]

def length(M, fn, res, nm, k, f, size, esz, i, fresh):
    for n in alternatives(fn, i['ops'][2]): length1(M, fn, res, nm, k, f, size, esz, i, fresh, n)

def length1(M, fn, res, nm, k, f, size, esz, i, fresh, n):
    bits = size.name == 'bit_size'
    if bits:
        lo = low(M, fn, n)
        if lo is not None and not (lo.get('F:bit_size', 0) * 8 >= 1 and lo.get('', 0) * 8 >= 0):
            res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s may copy fewer bytes than the bits need' % fn.name)
        return
    c, fs = flat(factors(M, fn, n))
    cnt = [x for x in fs if x == 'F:' + size.name]
    if not cnt:
        L = lin(M, fn, n)
        if set(L) <= {'F:' + size.name, ''}:
            res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s copies %s bytes, not the whole extent' % (fn.name, p06.show(L)))
        elif any(t == 'F:' + size.name for t in L) or any(depends(fn, strip(fn, x), size) for x in fs if x.startswith('%')):
            res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s copies an amount that is not the element count times the element size' % fn.name)
        else: res.ob('undecided', sample='%s length at %s' % (fn.name, fn.locstr(i)))
        return
    rest = list(fs); rest.remove(cnt[0])
    if any(fl.name == 'type_tag' for fl in k['layout'].values()):
        # element size looked up by the marker: the same factor sizes the allocation
        for r in fresh:
            a = fn.d(r)
            if a is None or a['op'] != 'call': continue
            if (fn.callee(a) or '') in ('_safe_emalloc', '_ecalloc', '_safe_malloc'):
                ac, afs = flat(factors(M, fn, a['ops'][0]) + factors(M, fn, a['ops'][1]))
                afs = list(afs)
                if 'F:' + size.name in afs: afs.remove('F:' + size.name)
                if sorted(afs) != sorted(rest) or ac != c: res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s copies an amount that differs from what it allocated' % fn.name)
        return
    if rest or esz and c != esz: res.bad('extent', '%s:%s' % (nm, f.name), fn.locstr(i), '%s copies %d bytes per element of %s' % (fn.name, c, esz))

def body(M, fn, res, nm, k, f, h, L, st, inds, fresh, esz, ring):
    """each value is moved to the same place: index of destination and source advance together from their beginnings, offsets inside the element agree"""
    offs = set()
    for i in st:
        d = lin(M, fn, i['ops'][1])
        v = fn.d(strip(fn, i['ops'][0]))
        ind = [t for t in d if t in inds]
        if v is None or v['op'] != 'load': continue
        s = lin(M, fn, v['ops'][0])
        first = dict(d)
        for t in ind:
            c = first.pop(t); first = add(first, inds[t][1][0], c)
        base = [t for t in first if t in fresh]
        o = first.get('', 0)
        if len(base) == 1 and set(first) <= {base[0], ''}:
            if not 0 <= o < (esz or 16): res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s does not start filling the new buffer at its first element' % fn.name)
            offs.add(o)
            sf = dict(s); known = True
            for t in list(sf):
                if t in inds: c = sf.pop(t); sf = add(sf, inds[t][1][0], c)
            if all(t == '' or t.startswith('F:') for t in sf):
                want = add({'F:' + f.name: 1}, {'': o} if o else {})
                if ring: want = add(want, {'F:offset': esz})
                if not same_buffer(k, sf, f, want):
                    res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s fills offset %d of the first element from %s' % (fn.name, o, p06.show(sf)))
            elif ring and any(w is not None for w in [ring_start(M, fn, v['ops'][0], L)]):
                w = ring_start(M, fn, v['ops'][0], L)
                if all(t == '' or t.startswith('F:') for t in w) and not same_buffer(k, w, f, {'F:' + f.name: 1, 'F:offset': esz}):
                    res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s starts reading the ring at %s, not at its first element' % (fn.name, p06.show(w)))
            elif sf.get('', 0) != o and len([t for t in sf if t]) == 1:
                res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(i), '%s fills offset %d of an element from offset %d' % (fn.name, o, sf.get('', 0)))
    if esz and offs:
        need = set()
        for z in elem_zvals(M.P, f.type[:-1].strip()) or [0]: need |= {z, z + 8}
        miss = sorted(need - offs)
        if miss and not any(i['op'] == 'call' and (fn.callee(i) or '').startswith('llvm.memcpy') for b in L for i in fn.blocks[b]):
            res.bad('place', '%s:%s' % (nm, f.name), fn.locstr(st[0]), '%s does not copy offset %d of each element' % (fn.name, miss[0]))

def ring_start(M, fn, op, L):
    """value with which the pointer walking the ring enters the loop"""
    seen = set(); st = [fn.addr(op)[0]]; out = []
    while st:
        r = st.pop()
        if r in seen: continue
        seen.add(r)
        p = fn.d(r)
        if p is None or p['op'] != 'phi' or p['b'] not in L: continue
        for o, b in zip(p['ops'], p['in']):
            if b not in L: out.append(lin(M, fn, o))
            else: st.append(fn.addr(o)[0])
    return out[0] if len(out) == 1 else None

def hash_walk(M, fn, res, nm, k, f):
    """the loop over the original's slots starts no later than the first used one and ends no earlier than the last; only unused slots are passed over"""
    esz = elem_size(M.P, f.type)
    best = None
    for h, L in all_loops(fn).items():
        lr = loop_range(M, fn, h, L)
        if lr is None: continue
        inds, n = lr
        if any(t in ('F:nNumUsed', 'F:nNumOfElements') for t in n) and (best is None or len(L) > len(best[1])): best = (h, L, inds, n)
    if best is None:
        res.ob('undecided', sample='%s: walk over the slots' % fn.name); return
    h, L, inds, n = best
    res.ob('extents', sample='%s visits %s slots' % (fn.name, p06.show(n)))
    loc = fn.locstr(fn.blocks[h][-1])
    if not (form_eq(n, {'F:nNumUsed': 1}) or form_eq(n, {'F:nNumUsed': 1, 'F:nFirstUsed': -1})):
        res.bad('extent', '%s:%s' % (nm, f.name), loc, '%s visits %s slots, not all that are in use' % (fn.name, p06.show(n))); return
    for t, (p, (start, step)) in inds.items():
        if 'F:' + f.name in start:
            want = [{'F:' + f.name: 1}] if form_eq(n, {'F:nNumUsed': 1}) else [{'F:' + f.name: 1, 'F:nFirstUsed': esz}]
            if all(x == '' or x.startswith('F:') for x in start) and not any(form_eq(start, w) for w in want):
                res.bad('extent', '%s:%s' % (nm, f.name), loc, '%s does not start at the first slot in use' % fn.name)
    # every used slot is read
    for z in elem_zvals(M.P, f.type[:-1].strip()):
        use = set()
        for b in L:
            for i in fn.blocks[b]:
                if i['op'] == 'load' and i['ty'] in ('ptr', 'i64', 'double'):
                    a = fn.addr(i['ops'][0])
                    ok = a[0] in inds and a[1] == z or a[1] == z and any(v in inds for v, s in a[2])
                    ld = {t for t in lin(M, fn, i['ops'][0]) if t in inds}
                    if ok or ld and lin(M, fn, i['ops'][0]).get('', 0) == z: use.add(b)
        if not use:
            if any(i['op'] == 'call' and (fn.callee(i) or '') in M.P._raw for b in L for i in fn.blocks[b]): continue
            res.bad('place', '%s:%s:%d' % (nm, f.name, z), loc, '%s does not read the value at offset %d of each slot' % (fn.name, z)); continue

# ---------------------------------------------------------------- trees
def node_reads(M, struct, nm):
    """offsets of the node struct that code of the module reads"""
    c = M.__dict__.setdefault('_node_reads', {})
    if struct not in c:
        out = set()
        low_ = struct.split('_')[1]
        for n in M.P.names():
            if low_ not in n.lower(): continue
            fn = M.P.fn(n)
            for i in fn.I.values():
                if i['op'] == 'load' and any(s.lstrip('_') == struct.lstrip('_') and o >= 0 for s, o in fn.structs_at(i['ops'][0])):
                    a = fn.addr(i['ops'][0])
                    if not a[2] and 0 <= a[1]: out.add(a[1])
        c[struct] = out
    return c[struct]

def tree(ctx, M, fn, res, nm, k, f, new, K):
    P = M.P
    st = f.type[:-1].replace('struct', '').strip()
    calls = [i for i in fn.I.values() if i['op'] == 'call' and (fn.callee(i) or '') in P._raw and any(same_field(M, fn, fn.addr(o)[0], f) for o in i['ops'])]
    if not calls:
        res.ob('undecided', sample='%s: copy of the tree' % fn.name); return
    for i in calls:
        node(ctx, M, ctx.fn(fn.callee(i), res), res, nm, st)

def node(ctx, M, fn, res, nm, st):
    P = M.P
    S = P.struct(st) or P.struct('_' + st)
    allocs = {'%%%d' % i['i'] for i in fn.I.values() if i['op'] == 'call' and is_alloc(fn.callee(i) or '') and i['b'] in fn.rpoidx}
    rets = [b for b in fn.rpo if fn.blocks[b][-1]['op'] == 'ret']
    if not allocs or S is None or any(set(bases(fn, fn.blocks[b][-1]['ops'][0])) - allocs for b in rets):
        res.ob('undecided', sample='%s: node copy' % fn.name); return
    rec = [i for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) == fn.name]
    if not rec: res.ob('undecided', sample='%s: node copy' % fn.name); return
    offs = {}
    for fl in S['fields']:
        if fl[4] != 'agg' and fl[2] > 0: offs.setdefault(fl[1], fl)
    read = node_reads(M, st, nm)
    want = {o: fl for o, fl in offs.items() if o in read}
    def tr(s, i):
        if i['op'] == 'store':
            a = fn.addr(i['ops'][1])
            if a[0] in allocs and not a[2]:
                s = dict(s)
                for o in range(a[1], a[1] + WIDTH.get(i['sty'], 8)): s[o] = frozenset([i['i']])
        return s
    init = {o: frozenset([-1]) for o in want}
    outs = forward(fn, init, tr, lambda a, b: {o: a.get(o, frozenset([-1])) | b.get(o, frozenset([-1])) for o in set(a) | set(b)})[1]
    # the parameter that takes the new parent: the one stored into a link of the copy
    for b in rets:
        for o in sorted(want):
            fl = want[o]
            res.ob('node-fields', sample='%s %s' % (fn.name, fl[0]))
            for s in sorted(outs[b].get(o, {-1})):
                i = fn.I.get(s)
                if i is None:
                    res.bad('incomplete', '%s:%s' % (nm, fl[0]), fn.locstr(fn.blocks[b][-1]), '%s leaves %s of the copied node unset' % (fn.name, fl[0])); continue
                v = i['ops'][0]; sv = strip(fn, v)
                j = fn.d(sv) if fn.d(sv) is None or fn.d(sv)['op'] != 'load' else fn.d(sv)
                if j is not None and j['op'] == 'load' and fn.addr(j['ops'][0]) == ('a0', fn.addr(i['ops'][1])[1], ()):
                    if '_node' in fl[3] or fl[3].endswith('*') and 'node' in fl[3]: res.bad('shared', '%s:%s' % (nm, fl[0]), fn.locstr(i), '%s links the copy to a node of the original' % fn.name)
                    continue
                if j is not None and j['op'] == 'load' and fn.addr(j['ops'][0])[0] == 'a0':
                    res.bad('place', '%s:%s' % (nm, fl[0]), fn.locstr(i), '%s fills %s of the copied node from another field' % (fn.name, fl[0])); continue
                if 'node' in fl[3]:
                    if j is not None and j['op'] == 'call' and fn.callee(j) == fn.name:
                        src = fn.d(fn.addr(j['ops'][0])[0])
                        if src is not None and src['op'] == 'load' and fn.addr(src['ops'][0])[0] == 'a0' and fn.addr(src['ops'][0])[1] != o:
                            res.bad('place', '%s:%s' % (nm, fl[0]), fn.locstr(i), '%s copies another subtree into %s' % (fn.name, fl[0]))
                        continue
                    if v == 'null':
                        if not null_guard(fn, i, o, b): res.bad('incomplete', '%s:%s' % (nm, fl[0]), fn.locstr(i), '%s drops the subtree %s of a node' % (fn.name, fl[0]))
                        continue
                    if v[0] == 'a':
                        p = int(v[1:])
                        for r in rec:
                            if not set(bases(fn, r['ops'][p])) <= allocs: res.bad('place', '%s:%s' % (nm, fl[0]), fn.locstr(r), '%s does not link a copied subtree to the copied node' % fn.name)
                        continue
                if const(v) is not None or v[0] == 'c': res.bad('incomplete', '%s:%s' % (nm, fl[0]), fn.locstr(i), '%s does not copy %s of a node' % (fn.name, fl[0]))

def null_guard(fn, st, o, b):
    """the store of null reaches the return b only over a test that found the original's link at offset o missing"""
    ad = fn.addr(st['ops'][1])
    def tr(s, i):
        if i['op'] == 'store' and fn.addr(i['ops'][1]) == ad: return i['i'] == st['i']
        return s
    def edge(s, p, x):
        z = zero_edge(fn, p)
        if z and z[1] == x != z[2]:
            j = fn.d(z[0])
            if j is not None and j['op'] == 'load' and fn.addr(j['ops'][0]) == ('a0', o, ()): return None
        return s
    outs = forward(fn, False, tr, lambda x, y: x or y, edge)[1]
    return not outs.get(b)
