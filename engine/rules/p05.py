"""Iteration visits every element exactly once, in order, and live iterators follow insertions and removals."""
from ir import *
from flow import *
from model import obj_field
from lin import add
from own import loops
from rules.p03 import Guard, vform, COUNT, count_load, atoms

LEVEL = 'other'
RULE = ('iterator discipline over flattened SSA: a new iterator is linked into the list of live iterators of its collection and unlinked, before anything else, when it ends; every path on '
        'which elements move (removal, insertion not at the end, compaction, release of a tree node) either finds that list empty or walks all of it, with no user code in between; in the walk a '
        'position changes by exactly the number of elements inserted or removed, exactly when it lies at or after the place of the change and inside the collection; the iterator handlers '
        'start at the first element, step by one, and are valid exactly below the element count')
ASSUMPTIONS = ['PHP calls rewind before it reads from a new iterator', 'a position one before the first element is represented by the all-ones value']
FLOORS = {'registration': 12, 'unlink': 12, 'moving-change': 30, 'walk': 40, 'position-update': 35, 'handler': 30}

REMOVE = {'pop', 'popFront', 'shift', 'offsetUnset', 'remove', 'unset_dimension'}
INSERT = {'pushFront', 'unshift', 'insert', 'add', 'offsetSet', 'write_dimension'}
FRONT = {'popFront', 'shift', 'pushFront', 'unshift'}
POSN = {'insert', 'offsetUnset', 'unset_dimension'}
BUILD = {'__construct', '__unserialize', '__set_state', 'fromPairs', 'clear', 'setSize', 'create', 'clone_obj', 'free_obj', 'unserializePairs'}

def tracked(M, k):
    return k.get('layout') and any(f.name == 'active_iterators' for f in k['layout'].values())

def head_load(M, fn, op):
    i = fn.d(op)
    if i is None or i['op'] != 'load': i = fn.d(fn.canon(op))
    if i is None or i['op'] != 'load': return False
    f = obj_field(M, fn, i['ops'][0])
    return f is not None and f.name == 'active_iterators'

class Walk: pass

def walks(M, fn):
    """loops over the list of live iterators of an object of the program"""
    out = []
    inner, body = loops(fn)
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i['op'] != 'phi': break
            if i.get('ty') != 'ptr' or b not in body: continue
            me = '%%%d' % i['i']
            nx = [o for o, p in zip(i['ops'], i['in']) if p in body[b]]
            st = [o for o, p in zip(i['ops'], i['in']) if p not in body[b]]
            if not st or not all(head_load(M, fn, o) for o in st): continue
            w = Walk(); w.phi = me; w.i = i; w.header = b; w.body = body[b]; w.start = st; w.next = nx
            out.append(w)
    return out

def is_next(fn, w, op):
    i = fn.d(op)
    return i is not None and i['op'] == 'load' and fn.addr(i['ops'][0])[:3] == (w.phi, 8, ())

def empty_edges(M, fn):
    """edges taken when the list of live iterators was found empty"""
    out = set()
    for b in fn.rpo:
        z = zero_edge(fn, b)
        if z and z[1] != z[2] and head_load(M, fn, z[0]): out.add((b, z[1]))
    return out

def uncovered(fn, cutb, cute, at):
    """a path entry -> block at -> exit that crosses no cut block and no cut edge"""
    def reach(start, nxt, fwd):
        seen = {start}; st = [start]
        while st:
            x = st.pop()
            for y in nxt(x):
                if y in seen or y in cutb or ((x, y) if fwd else (y, x)) in cute: continue
                seen.add(y); st.append(y)
        return seen
    if at in cutb: return False
    back = reach(at, lambda x: [p for p in fn.pred[x] if p in fn.rpoidx], False)
    if 0 not in back: return False
    fw = reach(at, lambda x: fn.succ[x], True)
    return any(not fn.succ[x] and fn.blocks[x][-1]['op'] == 'ret' for x in fw)

def cmp_shift(d):
    return {k: v for k, v in d.items() if v}

def run(ctx, res):
    M = ctx.M; P = ctx.P
    doff = P.field_off('_zend_object_iterator', 'data')
    reg = set()
    for nm, k in sorted((n, k) for n, k in M.classes.items() if n):
        if not tracked(M, k) or k['kind'] == 'zend_register_internal_interface': continue
        g = k.get('get_iterator')
        if not isinstance(g, str) or g not in P._raw: continue
        fn = ctx.fn(g, res)
        t = k.get('itable')
        d = (M.itables.get(t) or {}).get('dtor') if t else None
        if registration(M, fn, res, nm, bool(d in P._raw and links(M, ctx.fn(d)))):
            reg.add(nm)
            if not isinstance(d, str) or d not in P._raw: res.bad('unlink', nm, nm, 'iterators of %s are never taken off the list of live iterators' % nm)
            else: unlink(M, ctx.fn(d, res), res, nm)
    for fn in ctx.fns(res):
        roles = M.roles.get(fn.name, [])
        rn = {r.split(':', 1)[-1] for c, r in roles}
        kinds = {r for c, r in roles}
        if 'get_iterator' in kinds: tree_handler(M, fn, res, kinds)
        if any(r.startswith('iter:') for r in kinds): handlers(M, fn, res, kinds)
        if not roles or not any(c in reg for c, r in roles): continue
        if kinds & {'get_iterator', 'create'} or any(r.startswith('iter:') for r in kinds): continue
        changes(M, fn, res, rn, roles)

def links(M, fn):
    return any(i['op'] == 'store' and (lambda f: f is not None and f.name == 'active_iterators')(obj_field(M, fn, i['ops'][1])) for i in fn.I.values())

def registration(M, fn, res, nm, must):
    heads = [i for i in fn.I.values() if i['op'] == 'store' and (lambda f: f is not None and f.name == 'active_iterators')(obj_field(M, fn, i['ops'][1]))]
    if not heads:
        if must: res.bad('register', nm, fn.locstr(fn.blocks[0][0]), 'a new iterator of %s is not put on the list of live iterators' % nm)
        return must
    res.ob('registration', sample=nm)
    G = Guard(M, fn)
    h = heads[0]
    node = vform(G, h['ops'][0])
    stores = [i for i in fn.I.values() if i['op'] == 'store']
    def at(i): return vform(G, i['ops'][1])
    nxt = [i for i in stores if at(i) == add(node, {'': 8})]
    prv = [i for i in stores if at(i) == node and i is not h]
    first = next((('%%%d' % i['i']) for i in fn.I.values() if i['op'] == 'load' and (lambda f: f is not None and f.name == 'active_iterators')(obj_field(M, fn, i['ops'][0]))), None)
    fv = vform(G, first) if first else None
    if fv is None or not any(vform(G, i['ops'][0]) == fv for i in nxt):
        res.bad('register', nm + '|next', fn.locstr(h), 'a new iterator of %s does not link to the iterators that are already live' % nm)
    if not any(vform(G, i['ops'][0]) == {} for i in prv):
        res.bad('register', nm + '|prev', fn.locstr(h), 'the back link of a new iterator of %s is not cleared' % nm)
    if fv is not None and not any(at(i) == fv and vform(G, i['ops'][0]) == node for i in stores):
        res.bad('register', nm + '|back', fn.locstr(h), 'the iterator that was first in the list of %s does not link back to the new one' % nm)
    al = [i for i in fn.I.values() if i['op'] == 'call' and is_alloc(fn.callee(i) or '')]
    for a in al:
        if uncovered_ret(fn, a['b'], h['b']): res.bad('register', nm + '|path', fn.locstr(h), 'a new iterator of %s is returned without being put on the list of live iterators' % nm)
    return True

def uncovered_ret(fn, frm, cut):
    if frm == cut: return False
    seen = {frm}; st = [frm]
    while st:
        x = st.pop()
        for y in fn.succ[x]:
            if y in seen or y == cut: continue
            seen.add(y); st.append(y)
    return any(not fn.succ[x] and fn.blocks[x][-1]['op'] == 'ret' for x in seen)

def unlink(M, fn, res, nm):
    res.ob('unlink', sample=fn.name)
    G = Guard(M, fn)
    stores = [i for i in fn.I.values() if i['op'] == 'store']
    heads = [i for i in stores if (lambda f: f is not None and f.name == 'active_iterators')(obj_field(M, fn, i['ops'][1]))]
    ok_head = ok_next = ok_prev = False; mine = []
    # candidate node offsets: pairs of loads [a0+o], [a0+o+8]
    lo = {}
    for i in fn.I.values():
        if i['op'] == 'load':
            a = fn.addr(i['ops'][0])
            if a[0] == 'a0' and not a[2]: lo.setdefault(a[1], fn.canon('%%%d' % i['i']))
    for o, pv in lo.items():
        nv = lo.get(o + 8)
        if nv is None: continue
        for s in stores:
            at = vform(G, s['ops'][1]); v = vform(G, s['ops'][0])
            if at == {nv: 1} and v == {pv: 1}: ok_next = True; mine.append(s)
            if at == {pv: 1, '': 8} and v == {nv: 1}: ok_prev = True; mine.append(s)
            if s in heads and v == {nv: 1}:
                mine.append(s)
                fs = G.B.facts(s['b'])
                ne = any(f[0] == 'ne' and f[1] and f[2] and any(head_load(M, fn, x) for x in f[1:3] if x[0] == '%') for f in fs)
                if not ne: ok_head = True
    for ok, what in ((ok_head, 'the head of the list'), (ok_next, 'the next iterator'), (ok_prev, 'the previous iterator')):
        if not ok: res.bad('unlink', '%s|%s' % (fn.name, what), fn.locstr(fn.blocks[0][0]), '%s ends an iterator but %s keeps pointing at it' % (fn.name, what))
    ev = [i for i in fn.I.values() if i['op'] == 'call' and is_event(fn, i)]
    for s in mine:
        for e in ev:
            if reaches(fn, e, s): res.bad('unlink-late', fn.name, fn.locstr(s), '%s releases values before the iterator is off the list of live iterators' % fn.name)
    if not mine: return
    # on every path to the end, unlinking was reached: the test of the back link (or head) is never skipped
    for r in (b for b in fn.rpo if fn.blocks[b][-1]['op'] == 'ret'):
        tests = {s['b'] for s in mine}
        if not any(fn.dominates(x, r) for s in mine for x in [fn.idom().get(s['b'])] if x is not None):
            res.bad('unlink-skipped', fn.name, fn.locstr(fn.blocks[r][-1]), '%s can end an iterator without unlinking it' % fn.name)

def reaches(fn, a, b):
    if a['b'] == b['b'] and a['i'] < b['i']: return True
    seen = set(); st = list(fn.succ[a['b']])
    while st:
        x = st.pop()
        if x == b['b']: return True
        if x in seen: continue
        seen.add(x); st += fn.succ[x]
    return False

def trimmed(fn, v):
    """the value only ever counts down from where it starts: unused slots are dropped at the end, nothing moves"""
    p = fn.d(fn.canon(v))
    if p is None or p['op'] != 'phi': return False
    down = False; seen = set(); st = list(p['ops'])
    while st:
        q = fn.canon(st.pop()); j = fn.d(q)
        if q in seen or j is None: continue
        seen.add(q)
        if j['op'] == 'phi' and j is not p and j['b'] != p['b']: st += j['ops']
        elif j['op'] in ('add', 'sub'):
            k = const(j['ops'][1])
            if fn.canon(j['ops'][0]) != fn.canon(v): continue
            if k is None or (k if j['op'] == 'sub' else -k if k < 1 << 31 else (1 << (32 if k < 1 << 32 else 64)) - k) != 1: return False
            down = True
    return down

def moving(M, fn, G, rn, kinds):
    """stores after which elements have other positions than before, as (instruction, what)"""
    out = []
    hashy = any(i['op'] == 'store' and (lambda f: f is not None and f.name == 'nNumUsed')(obj_field(M, fn, i['ops'][1])) for i in fn.I.values())
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i['op'] != 'store': continue
            f = obj_field(M, fn, i['ops'][1])
            if f is None or f.name not in COUNT: continue
            v = vform(G, i['ops'][0])
            bases = [t for t in v if t and count_load(G, t)]
            k = v.get('', 0)
            if hashy and f.name == 'nNumOfElements':
                if len(v) == 2 and k < 0 and bases: out.append((i, 'removal', f))
                continue
            if f.name == 'nNumUsed':
                if v and not (bases and len(v) == 2 and k) and not (len(v) == 1 and '' in v) and not trimmed(fn, i['ops'][0]): out.append((i, 'compaction', f))
                continue
            if bases and k < 0 and len(v) == 2: out.append((i, 'removal', f))
            elif rn & {'pushFront', 'unshift', 'insert'} and bases: out.append((i, 'insertion', f))
    return out

def changes(M, fn, res, rn, roles):
    ws = walks(M, fn)
    G = None
    stores_count = any(i['op'] == 'store' and (lambda f: f is not None and f.name in COUNT)(obj_field(M, fn, i['ops'][1])) for i in fn.I.values())
    if not ws and not stores_count: return
    G = Guard(M, fn)
    kinds = {r for c, r in roles}
    cut = {w.header for w in ws if any(i['op'] == 'store' and fn.addr(i['ops'][1])[0] == w.phi for b in w.body for i in fn.blocks[b])}
    cute = empty_edges(M, fn)
    # nothing to follow when no slot is unused
    for b in fn.rpo:
        ce = cond_edges(fn, b)
        if not ce or ce[1] == ce[2]: continue
        for t in (ce[1], ce[2]):
            for f in G.B.edge_facts(b, t):
                if f[0] == 'le' and f[1] and f[2] and count_load(G, f[1]) and count_load(G, f[2]) and count_load(G, f[1]).name == 'nNumUsed' and count_load(G, f[2]).name == 'nNumOfElements' and f[3] <= 0:
                    cute.add((b, t))
                    other = ce[1] if t == ce[2] else ce[2]
    ordered = any('Sorted' in c for c, r in roles) and rn & {'add', 'offsetSet', 'write_dimension'}
    mv = moving(M, fn, G, rn | {'insert'} if ordered else rn, kinds)
    build = bool(rn & BUILD) or not any(r.startswith(('method:', 'handler:')) for r in kinds)
    if not build:
        # memory moved inside the storage
        for i in fn.I.values():
            if i['op'] == 'call' and (fn.callee(i) or '').startswith('llvm.memmove') and within_storage(M, fn, i): mv.append((i, 'move', None))
        for i, what, f in mv:
            res.ob('moving-change', sample='%s %s' % (fn.name, fn.locstr(i)))
            if uncovered(fn, cut, cute, i['b']):
                res.bad('not-followed', '%s|%s' % (fn.name, what), fn.locstr(i), '%s moves elements (%s) on a path where live iterators are neither absent nor adjusted' % (fn.name, what))
            else: quiet_between(fn, G, ws, i, res)
        nodes = {w.header for w in ws if any(i['op'] == 'store' and fn.addr(i['ops'][1])[0] == w.phi and i.get('sty') == 'ptr' for b in w.body for i in fn.blocks[b])}
        freed(M, fn, res, nodes, cute)
    if 'clear' in rn and is_table(M, fn):
        for i in fn.I.values():
            if i['op'] == 'store' and vform(G, i['ops'][0]) == {} and (lambda f: f is not None and f.name == 'nNumUsed')(obj_field(M, fn, i['ops'][1])):
                res.ob('moving-change', sample='%s %s' % (fn.name, fn.locstr(i)))
                if uncovered(fn, cut, cute, i['b']): res.bad('not-followed', '%s|clear' % fn.name, fn.locstr(i), '%s empties the table on a path where live iterators are neither absent nor reset' % fn.name)
    for w in ws:
        kinds_ = {i.get('sty') for b in w.body for i in fn.blocks[b] if i['op'] == 'store' and fn.addr(i['ops'][1])[0] == w.phi and fn.addr(i['ops'][1])[1] not in (0, 8)}
        if kinds_ & {'ptr', 'i8'} and kinds_ != {'ptr', 'i8'}:
            res.bad('before-first', fn.name + '|half', fn.locstr(w.i), '%s moves live iterators off a node without recording whether they stand before the first' % fn.name)
        if any(what == 'compaction' for i, what, f in mv) and not build: unmoved(M, fn, G, res, w)
    for w in ws:
        res.ob('walk')
        whole(M, fn, res, w)
        updates(M, fn, G, res, w, rn, mv, build)

def unmoved(M, fn, G, res, w):
    """slots are squeezed out: every iterator gets a new position, except one before the first element"""
    st = [i for b in w.body for i in fn.blocks[b] if i['op'] == 'store' and fn.addr(i['ops'][1])[0] == w.phi]
    if not st: return
    als = aliases(fn, w, fn.addr(st[0]['ops'][1]))
    cut = {i['b'] for i in st}
    if w.header in cut: return
    seen = {w.header}; todo = [w.header]
    while todo:
        x = todo.pop()
        for y in fn.succ[x]:
            if y == w.header:
                res.bad('unmoved', fn.name, fn.locstr(w.i), '%s squeezes out unused slots but leaves some live iterators at their old slot' % fn.name); return
            if y in seen or y in cut or y not in w.body: continue
            if any(f[0] == 'le' and f[1] in als and f[2] is None and any(g[0] == 'le' and g[1] is None and g[2] in als and g[3] == -f[3] for g in G.B.edge_facts(x, y)) for f in G.B.edge_facts(x, y)): continue
            seen.add(y); todo.append(y)

def freed(M, fn, res, cut, cute):
    """release of a tree node"""
    for i in fn.I.values():
        if i['op'] == 'call' and is_free(fn.callee(i) or '') and fn.prog.field_off and i['ops']:
            st = fn.structs_at(i['ops'][0])
            if any('tree' in s[0] and s[0].endswith('_node') for s in st):
                res.ob('moving-change', sample='%s %s' % (fn.name, fn.locstr(i)))
                if uncovered(fn, cut, cute, i['b']):
                    res.bad('not-followed', '%s|node' % fn.name, fn.locstr(i), '%s releases a tree node on a path where live iterators are neither absent nor adjusted' % fn.name)

def within_storage(M, fn, i):
    from own import root_kinds
    a = fn.addr(i['ops'][0]); b = fn.addr(i['ops'][1])
    ka = root_kinds(M, fn, a[0]); kb = root_kinds(M, fn, b[0])
    return 'storage' in ka and 'storage' in kb

def quiet_between(fn, G, ws, i, res):
    """no user code between the adjustment and the change it belongs to"""
    for w in ws:
        ex = [t for b in w.body for t in fn.succ[b] if t not in w.body]
        fw = set(); st = list(ex)
        while st:
            x = st.pop()
            if x in fw or x == i['b']: continue
            fw.add(x); st += fn.succ[x]
        bk = set(); st = [p for p in fn.pred[i['b']]]
        while st:
            x = st.pop()
            if x in bk or x not in fn.rpoidx: continue
            bk.add(x)
            if x in w.body: continue
            st += fn.pred[x]
        blocks = fw & bk
        for b in blocks:
            for j in fn.blocks[b]:
                if j['op'] == 'call' and is_event(fn, j):
                    res.bad('interrupted', '%s|%s' % (fn.name, fn.callee(j)), fn.locstr(j), '%s runs user code between adjusting live iterators and the change they follow' % fn.name); return
        if i['b'] not in w.body:
            for j in fn.blocks[i['b']]:
                if j['i'] >= i['i']: break
                if j['op'] == 'call' and is_event(fn, j) and blocks:
                    res.bad('interrupted', '%s|%s' % (fn.name, fn.callee(j)), fn.locstr(j), '%s runs user code between adjusting live iterators and the change they follow' % fn.name); return

def whole(M, fn, res, w):
    for o in w.next:
        d = fn.d(o)
        ok = is_next(fn, w, o) or d is not None and d['op'] == 'phi' and all(is_next(fn, w, x) for x in d['ops'])
        if not ok:
            res.bad('walk-step', fn.name, fn.locstr(w.i), '%s does not step through the list of live iterators one by one' % fn.name); return
    for b in w.body:
        for t in fn.succ[b]:
            if t in w.body: continue
            if not any(x['op'] == 'ret' for x in fn.blocks[t]) and fn.blocks[t][-1]['op'] == 'unreachable': continue
            z = zero_edge(fn, b)
            if z and z[1] == t and (fn.canon(z[0]) == w.phi or z[0] == w.phi or is_next(fn, w, z[0]) or
                                    fn.d(z[0]) is not None and fn.d(z[0])['op'] == 'phi' and (z[0] in w.next)): continue
            res.bad('walk-left', fn.name, fn.locstr(fn.blocks[b][-1]), '%s leaves the list of live iterators before its end' % fn.name); return

def splits(fn, G, op, loc, body, depth=0):
    """the linear forms an operand can take, split at joins: [(form, block or edge it holds on)]"""
    d = fn.d(op)
    if d is None or depth > 4: return [(vform(G, op), loc)]
    if d['op'] in ('zext', 'trunc', 'freeze', 'sext'): return splits(fn, G, d['ops'][0], loc, body, depth) if any(x['op'] == 'phi' and x['b'] in body for x in chain(fn, d)) else [(vform(G, op), loc)]
    if d['op'] == 'phi' and d['b'] in body and not any(fn.dominates(d['b'], p) for p in d['in']):
        return [y for o, p in zip(d['ops'], d['in']) if p in fn.rpoidx for y in splits(fn, G, o, (p, d['b']), body, depth + 1)]
    if d['op'] in ('add', 'sub') and any(x['op'] == 'phi' and x['b'] in body for x in chain(fn, d)):
        A = splits(fn, G, d['ops'][0], loc, body, depth + 1); B = splits(fn, G, d['ops'][1], loc, body, depth + 1)
        if len(A) == 1 or len(B) == 1:
            sg = 1 if d['op'] == 'add' else -1
            return [(add(x, {k: sg * v for k, v in y.items()}), lx if len(A) > 1 else ly) for x, lx in A for y, ly in B]
    return [(vform(G, op), loc)]

def chain(fn, d, depth=0):
    if depth > 3 or d is None: return []
    out = [d]
    if d['op'] in ('zext', 'sext', 'trunc', 'freeze', 'add', 'sub'):
        for o in d['ops'][:2]: out += chain(fn, fn.d(o), depth + 1)
    return out

def is_bool(fn, t):
    d = fn.d(t)
    return d is not None and (d.get('ty') == 'i1' or d['op'] == 'select' or d['op'] == 'phi' and all(o.isdigit() for o in d['ops'] if not o.startswith('%')) and any(not o.startswith('%') for o in d['ops']) or d['op'] in ('zext', 'sext') and (lambda e: e is not None and e.get('ty') == 'i1')(fn.d(d['ops'][0])))

def self_form(fn, G, i, v=None):
    """value stored as (position before, form of the change) when it is the old content plus something"""
    a = fn.addr(i['ops'][1])
    if v is None: v = vform(G, i['ops'][0])
    for t in v:
        d = fn.d(t) if t else None
        if d is not None and d['op'] == 'load' and fn.addr(d['ops'][0]) == a and v[t] == 1:
            r = dict(v); del r[t]
            return t, cmp_shift(r)
    return None

def back_over(fn, G, res, w, i, h):
    """stepping back to the last used slot happens exactly for iterators on the removed one"""
    a = fn.addr(i['ops'][1]); als = aliases(fn, w, a)
    fs = [f for p in fn.pred[h] if p in fn.rpoidx and not fn.dominates(h, p) for f in G.B.facts((p, h))]
    if not any(f[0] == 'le' and f[1] in als and f[2] and any(g[0] == 'le' and g[2] in als and g[1] == f[2] and g[3] == -f[3] for g in fs) for f in fs):
        res.bad('place', fn.name + '|table', fn.locstr(i), '%s moves back live iterators that are not on the removed element' % fn.name)

def aliases(fn, w, a):
    als = set()
    for b in w.body:
        for j in fn.blocks[b]:
            if j['op'] == 'load' and fn.addr(j['ops'][0]) == a: als |= {'%%%d' % j['i'], fn.canon('%%%d' % j['i'])}
    return als

def other_owner(fn, G, w, i):
    """the update is restricted to iterators of other objects"""
    for f in G.B.facts(i['b']):
        if f[0] == 'ne' and f[1] and f[2]:
            for x in (f[1], f[2]):
                d = fn.d(x)
                if d is not None and d['op'] == 'load' and d['ty'] == 'ptr' and fn.addr(d['ops'][0])[0] == w.phi: return True
    return False

def updates(M, fn, G, res, w, rn, mv, build):
    inner, body = loops(fn)
    table = is_table(M, fn)
    for b in sorted(w.body):
        for i in fn.blocks[b]:
            if i['op'] != 'store' or fn.addr(i['ops'][1])[0] != w.phi: continue
            a = fn.addr(i['ops'][1])
            if a[1] in (0, 8):
                res.bad('walk-write', fn.name, fn.locstr(i), '%s changes the links of the live iterators while walking over them' % fn.name); continue
            if other_owner(fn, G, w, i): res.bad('owner', fn.name, fn.locstr(i), '%s does not adjust the iterators of its own object' % fn.name)
            sf = self_form(fn, G, i)
            if i.get('sty') == 'ptr' or not tree_free(fn, w, i):
                tree_update(fn, G, res, w, i); continue
            if sf is None or not table and any(d['op'] == 'phi' and d['b'] in w.body for d in chain(fn, fn.d(i['ops'][0]))):
                sp = [(self_form(fn, G, i, v), l) for v, l in splits(fn, G, i['ops'][0], i['b'], w.body)]
                if len(sp) > 1 and all(x is not None for x, l in sp):
                    for (cur, dl), l in sp:
                        if not dl: continue
                        res.ob('position-update', sample='%s %s' % (fn.name, fn.locstr(i)))
                        index_update(M, fn, G, res, w, i, cur, dl, rn, mv, build, l)
                    continue
            if sf is None:
                res.ob('position-update')
                if table: hash_update(M, fn, G, res, w, i, mv)
                else: res.bad('amount', fn.name, fn.locstr(i), '%s does not move live iterators by the number of elements inserted or removed' % fn.name)
                continue
            cur, dl = sf
            if not dl or any(t and is_bool(fn, t) for t in dl): continue
            if inner.get(b) != w.header:                # stepping over unused slots
                if table and dl == {'': -1}: back_over(fn, G, res, w, i, inner[b])
                continue
            res.ob('position-update', sample='%s %s' % (fn.name, fn.locstr(i)))
            if table and dl == {'': -1} and not build and not any(j['op'] == 'store' and fn.addr(j['ops'][1]) == a and inner.get(j['b']) != w.header for x in w.body for j in fn.blocks[x]):
                res.bad('onto-unused', fn.name, fn.locstr(i), '%s moves a live iterator to the slot before the removed one although that slot may be unused' % fn.name)
            index_update(M, fn, G, res, w, i, cur, dl, rn, mv, build)

def is_table(M, fn):
    return any(i['op'] in ('load', 'store') and (lambda f: f is not None and f.name == 'nNumUsed')(obj_field(M, fn, i['ops'][0 if i['op'] == 'load' else 1])) for i in fn.I.values())

def tree_free(fn, w, i):
    return i.get('sty') in ('i64', 'i32')

def same(fn, x, y): return x == y or fn.canon(x) == fn.canon(y)

def cur_facts(fn, G, w, i, cur, loc=None):
    """facts about the position, as seen from any load of it in the walk"""
    a = fn.addr(i['ops'][1])
    als = {cur, fn.canon(cur)}
    for b in w.body:
        for j in fn.blocks[b]:
            if j['op'] == 'load' and fn.addr(j['ops'][0]) == a: als.add('%%%d' % j['i']); als.add(fn.canon('%%%d' % j['i']))
    lo, up, ne, eq = [], [], [], []
    fs = G.B.facts(i['b'] if loc is None else loc)
    for f in fs:
        if f[0] == 'le':
            if f[1] in als and f[2] not in als: up.append((f[2], f[3]))
            elif f[2] in als and f[1] not in als: lo.append((f[1], -f[3]))        # X <= C + k : C >= X - k
        elif f[0] == 'ne' and (f[1] in als or f[2] in als): ne.append((f[2] if f[1] in als else f[1], f[3]))
    eq = [x for x in lo if x in up]
    return lo, up, ne, eq

def index_update(M, fn, G, res, w, i, cur, dl, rn, mv, build, loc=None):
    lo, up, ne, eq = cur_facts(fn, G, w, i, cur, loc)
    where = fn.locstr(i)
    removal = dl == {'': -1}
    # the amount
    counts = []
    for j, what, f in mv:
        if f is None or what == 'move': continue
        v = vform(G, j['ops'][0])
        t = next((x for x in v if x and count_load(G, x)), None)
        if t is None: continue
        r = dict(v); del r[t]; counts.append((cmp_shift(r), j))
    if rn & REMOVE and not rn & INSERT:
        if dl != {'': -1}:
            res.bad('amount', fn.name, where, '%s removes one element but does not move live iterators back by one' % fn.name); return
    elif rn & {'insert', 'pushFront', 'unshift'}:
        inner, body = loops(fn)
        want = [c for c, j in counts if not (c == {'': 1} and j['b'] in inner)]
        if want and dl not in want or not want and (dl.get('', 0) != 0 or len(dl) != 1 or set(dl.values()) != {1}):
            res.bad('amount', fn.name, where, '%s does not move live iterators forward by the number of elements it inserts' % fn.name); return
    elif dl not in ({'': 1}, {'': -1}):
        res.bad('amount', fn.name, where, '%s moves live iterators by an amount that is not the number of elements inserted or removed' % fn.name); return
    if eq:
        if rn & REMOVE and not rn & {'pop', 'extract'} and any(x is not None and (count_load(G, x) is not None and k == -1 or k == 0 and is_last(G, x)) for x, k in eq) and len(walks(M, fn)) == 1:
            res.bad('place', fn.name, where, '%s removes an element anywhere but only adjusts the live iterators on the last one' % fn.name)
        return
    # the place
    def is_count(x): return x is not None and count_load(G, x) is not None
    place = [(x, k) for x, k in lo if not (x is None and k <= 0)]
    if rn & FRONT and not rn & POSN:
        if place: res.bad('place', fn.name, where, '%s changes the front but leaves live iterators near the front where they are' % fn.name)
    elif 'pop' in rn:
        if not any(is_count(x) and k == -1 for x, k in place) and not any(x is not None and not is_count(x) and pop_pos(G, x, k) for x, k in place):
            res.bad('place', fn.name, where, '%s removes the last element but the iterators it adjusts are not exactly those on it' % fn.name)
    else:
        if not place: res.bad('place', fn.name, where, '%s adjusts live iterators before the place of the change as well' % fn.name)
        for x, k in place:
            if is_count(x) and k == 0: continue
            if x is None or k != 0 or is_count(x) or is_last(G, x):
                res.bad('place', fn.name, where, '%s does not adjust exactly the live iterators at or after the place of the change' % fn.name)
            elif not is_count(x) and 'insert' in rn and not build and ext_mismatch(M, fn, G, x):
                res.bad('place', fn.name, where, '%s adjusts live iterators relative to another place than that of the change' % fn.name)
    # inside the collection
    if not any(is_count(x) and k in (-1, 0) for x, k in up) and not any(x is None and k == -1 for x, k in ne):
        bad = [(x, k) for x, k in up if x is not None]
        res.bad('inside', fn.name, where, '%s also moves iterators that stand before the first element or past the end' % fn.name)

def is_last(G, x):
    v = vform(G, x)
    return v.get('', 0) == -1 and len(v) == 2 and any(t and v[t] == 1 and count_load(G, t) is not None for t in v)

def pop_pos(G, x, k):
    return vform(G, x).get('', 0) + k == -1

def ext_mismatch(M, fn, G, x):
    """the place is not (computed from) the position given from outside"""
    return not atoms(M, fn, x)

def tree_update(fn, G, res, w, i):
    res.ob('position-update')
    lo, up, ne, eq = [], [], [], []
    a = fn.addr(i['ops'][1])
    v = i['ops'][0]
    if i.get('sty') == 'ptr':
        # null everywhere (all nodes go away) or only for iterators on the removed node
        if const(v) == 0: return
        fs = G.B.facts(i['b'])
        als = set()
        for b in w.body:
            for j in fn.blocks[b]:
                if j['op'] == 'load' and fn.addr(j['ops'][0]) == a: als.add('%%%d' % j['i']); als.add(fn.canon('%%%d' % j['i']))
        if not any(f[0] == 'le' and f[1] in als and any(g[0] == 'le' and g[2] in als and g[1] == f[2] for g in fs) for f in fs):
            res.bad('place', fn.name + '|node', fn.locstr(i), '%s moves live iterators that are not on the removed node' % fn.name)
        return
    if i.get('sty') == 'i8':
        ptr = [j for b in w.body for j in fn.blocks[b] if j['op'] == 'store' and j.get('sty') == 'ptr' and fn.addr(j['ops'][1])[0] == w.phi]
        if not ptr: return
        pv = [fn.canon(j['ops'][0]) for j in ptr]
        c = const(v)
        fl = [const(j['ops'][0]) for b in w.body for j in fn.blocks[b] if j['op'] == 'store' and j.get('sty') == 'i8' and fn.addr(j['ops'][1]) == a]
        if any(const(x) is None for x in pv) and set(fl) == {0}:
            res.bad('before-first', fn.name, fn.locstr(i), '%s moves a live iterator to the node before the removed one, which may not exist, and never marks it as standing before the first' % fn.name)
        if c is not None:
            if not (c == 1 and all(const(x) == 0 for x in pv) or c == 0 and all(const(x) != 0 for x in pv)) and all(const(x) is not None for x in pv):
                res.bad('before-first', fn.name, fn.locstr(i), '%s moves a live iterator off all nodes without marking it as standing before the first' % fn.name)
            return
        op, neg = strip_bool(fn, v)
        d = fn.d(op)
        if d is not None and d['op'] == 'icmp' and d['pred'] in ('eq', 'ne') and const(d['ops'][1]) == 0:
            isnull = (d['pred'] == 'eq') != neg
            if fn.canon(d['ops'][0]) not in pv or not isnull:
                res.bad('before-first', fn.name, fn.locstr(i), '%s marks a live iterator as standing before the first element although it does not' % fn.name)

def cases(fn, op, loc):
    """values of an operand split at phi and select: (value, block or edge they hold on)"""
    d = fn.d(op)
    while d is not None and d['op'] in ('zext', 'trunc', 'freeze'): op = d['ops'][0]; d = fn.d(op)
    if d is not None and d['op'] == 'phi' and not any(fn.dominates(d['b'], p) for p in d['in']):
        return [(o, (p, d['b'])) for o, p in zip(d['ops'], d['in']) if p in fn.rpoidx]
    return [(op, loc)]

def hash_update(M, fn, G, res, w, i, mv):
    """a position set to something else than its old content plus a constant (tables with unused slots)"""
    a = fn.addr(i['ops'][1]); als = aliases(fn, w, a)
    fs0 = G.B.facts(i['b'])
    counted(M, fn, G, res, w, i, als)
    notfirst = any(f[0] == 'ne' and (f[1] in als or f[2] in als) and f[3] in (-1, 0xffffffff) for f in fs0)
    below = any(f[0] == 'le' and f[1] in als and f[2] and count_load(G, f[2]) is not None for f in fs0)
    if not notfirst and not below:
        res.bad('inside', fn.name + '|table', fn.locstr(i), '%s also moves iterators that stand before the first element' % fn.name)
    cs = cases(fn, i['ops'][0], i['b'])
    above = [f for f in fs0 if f[0] == 'le' and f[2] in als and f[1] and any(set(vform(G, o)) - {''} == {f[1]} for o, loc in cs)]
    if above and len(cs) in (1, 2):
        end = {above[0][1]: 1, '': -above[0][3]}
        for o, loc in cs:
            k = cmp_shift(add(vform(G, o), end, -1))
            if set(k) - {''}: continue
            k = k.get('', 0)
            fs = G.B.facts(loc)
            le = [f for f in fs if f[0] == 'le' and f[1] in als and f[2] and count_load(G, f[2]) is None and f[2] != above[0][1]]
            ge = [f for f in fs if f[0] == 'le' and f[2] in als and f[1] and count_load(G, f[1]) is None and f[1] != above[0][1]]
            if k == -1 and not any(f[3] == 0 for f in le) or k == 0 and not any(f[3] == -1 for f in ge):
                res.bad('place', fn.name + '|table', fn.locstr(i), '%s does not move exactly the iterators on the removed element to the one before it' % fn.name)
            if k not in (0, -1): res.bad('place', fn.name + '|table', fn.locstr(i), '%s moves an iterator to a place that is neither the new end nor the last element' % fn.name)

def expand(fn, o, h, seen=None):
    seen = set() if seen is None else seen
    d = fn.d(o)
    if d is not None and d['op'] == 'phi' and d['b'] != h and o not in seen:
        seen.add(o)
        return [x for y in d['ops'] for x in expand(fn, y, h, seen)]
    return [o]

def counted(M, fn, G, res, w, i, als):
    """new position counted as the used slots up to the old one, less one"""
    inner, body = loops(fn)
    v = vform(G, i['ops'][0])
    ph = [t for t in v if t and fn.d(t) is not None and fn.d(t)['op'] == 'phi' and fn.d(t)['b'] in body and fn.d(t)['b'] in w.body and fn.d(t)['b'] != w.header]
    if len(ph) != 1 or v[ph[0]] != 1 or set(v) - {'', ph[0]}: return
    d = fn.d(ph[0]); h = d['b']
    init = [o for o, p in zip(d['ops'], d['in']) if p not in body[h]]
    if len(init) == 1 and const(init[0]) is not None:
        k0 = const(init[0]); k0 = k0 - (1 << 32) if k0 == 0xffffffff else k0
        if k0 + v.get('', 0) != -1: res.bad('place', fn.name + '|count', fn.locstr(i), '%s does not move live iterators to the number of used slots before their element' % fn.name)
    vals = [x for o, p in zip(d['ops'], d['in']) if p in body[h] for x in expand(fn, o, h)]
    forms = [vform(G, x) for x in vals]
    up = [x for x, f in zip(vals, forms) if f == {ph[0]: 1, '': 1}]
    if not up or {ph[0]: 1} not in forms or len(forms) != 2:
        res.bad('place', fn.name + '|count', fn.locstr(i), '%s does not count the used slots before the element of a live iterator' % fn.name)
    else:
        ub = fn.d(up[0])['b'] if fn.d(up[0]) is not None else None
        ps = [p for p in fn.pred[ub]] if ub is not None else []
        if len(ps) == 1:
            z = zero_edge(fn, ps[0])
            if z and z[1] == ub and z[2] != ub: res.bad('place', fn.name + '|count', fn.locstr(i), '%s counts unused instead of used slots' % fn.name)
    for b in body[h]:
        for t in fn.succ[b]:
            if t in body[h]:
                for f in G.B.edge_facts(b, t):
                    if f[0] == 'le' and f[2] in als and f[1] and fn.d(f[1]) is not None and fn.d(f[1])['op'] == 'phi' and fn.d(f[1])['b'] == h and b == h:
                        st = [const(o) for o, p in zip(fn.d(f[1])['ops'], fn.d(f[1])['in']) if p not in body[h]]
                        if st == [0] and f[3] != 0: res.bad('place', fn.name + '|count', fn.locstr(fn.blocks[b][-1]), '%s does not count all used slots up to the one a live iterator is on' % fn.name)

def position_slot(fn):
    """offset of the position kept by an index iterator: integers in the iterator behind its common part"""
    offs = {}
    for i in fn.I.values():
        if i['op'] in ('load', 'store'):
            p = i['ops'][0 if i['op'] == 'load' else 1]
            a = fn.addr(p)
            if a[0] == 'a0' and not a[2] and a[1] >= 88 and (i.get('ty') if i['op'] == 'load' else i.get('sty')) in ('i32', 'i64'): offs[a[1]] = offs.get(a[1], 0) + 1
    return sorted(offs)

def tree_handler(M, fn, res, kinds):
    """iterators over nodes: the mark `before the first element` is set exactly when there is no node, and stepping from there goes to the first"""
    root = 'a0'
    fs = lambda ty, op: [i for i in fn.I.values() if i['op'] == op and (i.get('sty') if op == 'store' else i.get('ty')) == ty and (lambda a: not a[2] and a[1] >= 88 and (a[0] == 'a0' or op == 'store' and alloc_root(fn, a[0])))(fn.addr(i['ops'][1 if op == 'store' else 0]))]
    flags = fs('i8', 'store'); nodes = [i for i in fs('ptr', 'store')]
    if not flags: return
    res.ob('handler', sample=fn.name)
    for i in flags:
        op, neg = strip_bool(fn, i['ops'][0]); d = fn.d(op)
        if d is not None and d['op'] == 'icmp' and d['pred'] in ('eq', 'ne') and const(d['ops'][1]) == 0 and (d['pred'] == 'ne') != neg:
            res.bad('before-first', fn.name, fn.locstr(i), '%s marks an iterator as standing before the first element exactly when it does not' % fn.name)
    if 'iter:move_forward' in kinds:
        for b in fn.rpo:
            z = zero_edge(fn, b)
            if not z or z[1] == z[2]: continue
            d = fn.d(z[0])
            if d is None or d['op'] != 'load' or d['ty'] != 'i8' or fn.addr(d['ops'][0])[0] != 'a0': continue
            reg = [x for x in fn.rpo if fn.dominates(z[2], x)] if len([p for p in fn.pred[z[2]] if p in fn.rpoidx]) == 1 else []
            if not reg: continue
            if not any(i['b'] in reg for i in nodes) or not any(i['b'] in reg and const(i['ops'][0]) == 0 for i in flags):
                res.bad('step', fn.name + '|first', fn.locstr(fn.blocks[b][-1]), '%s does not step from before the first element to the first' % fn.name)

def alloc_root(fn, r):
    d = fn.d(r)
    return d is not None and d['op'] == 'call' and is_alloc(fn.callee(d) or '')

def handlers(M, fn, res, kinds):
    if kinds & {'iter:move_forward', 'iter:rewind', 'get_iterator'}: tree_handler(M, fn, res, kinds)
    if not fn.raw.get('ditypes') or len(fn.raw['ditypes']) < 2 or fn.raw['ditypes'][1] != 'zend_object_iterator*': return
    offs = position_slot(fn)
    if not offs: return
    G = Guard(M, fn)
    inner, body = loops(fn)
    def slot_loads():
        s = set()
        for i in fn.I.values():
            if i['op'] == 'load' and fn.addr(i['ops'][0])[0] == 'a0' and fn.addr(i['ops'][0])[1] in offs and not fn.addr(i['ops'][0])[2]: s |= {'%%%d' % i['i'], fn.canon('%%%d' % i['i'])}
        return s
    cur = slot_loads()
    stores = [i for i in fn.I.values() if i['op'] == 'store' and fn.addr(i['ops'][1])[0] == 'a0' and fn.addr(i['ops'][1])[1] in offs]
    if 'iter:move_forward' in kinds and stores:
        res.ob('handler', sample=fn.name)
        table = is_table(M, fn)
        for i in stores:
            sf = self_form(fn, G, i)
            if sf is not None and sf[1] != {'': 1}: res.bad('step', fn.name, fn.locstr(i), '%s does not step to the next element' % fn.name)
            if sf is None and not table: res.bad('step', fn.name, fn.locstr(i), '%s does not step to the next element' % fn.name)
        if table: table_step(M, fn, G, res, stores, cur)
    if 'iter:rewind' in kinds and stores:
        res.ob('handler', sample=fn.name)
        for i in stores:
            v = vform(G, i['ops'][0])
            ok = v == {} or len(v) == 1 and list(v.values()) == [1] and (lambda d: d is not None and d['op'] == 'load' and (lambda f: f is not None and f.name == 'nFirstUsed')(obj_field(M, fn, d['ops'][0])))(fn.d(next(iter(v))))
            if not ok: res.bad('rewind', fn.name, fn.locstr(i), '%s does not start at the first element' % fn.name)
    if 'iter:valid' in kinds:
        res.ob('handler', sample=fn.name)
        for i in fn.I.values():
            if i['op'] != 'icmp': continue
            x, y = vform(G, i['ops'][0]), vform(G, i['ops'][1])
            cx = [t for t in x if t in cur]; cy = [t for t in y if t in cur]
            if bool(cx) == bool(cy): continue
            other = y if cx else x
            nt = [t for t in other if t and count_load(G, t) is not None]
            if not nt: continue
            k = (y.get('', 0) - x.get('', 0)) if cx else (x.get('', 0) - y.get('', 0))      # cur ? count + k
            if raw_count(M, fn, i['ops'][1 if cx else 0]): k -= other.get('', 0)             # the count itself, just updated
            p = i['pred']
            if p in ('eq', 'ne'): continue
            q = p[1:]
            if not cx: q = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[q]
            thr = {'lt': 0, 'ge': 0, 'le': 1, 'gt': 1}[q] + k
            if thr != 0: res.bad('valid', fn.name, fn.locstr(i), '%s does not accept exactly the positions below the element count' % fn.name)
    if 'iter:get_current_key' in kinds:
        for i in fn.I.values():
            if i['op'] == 'store' and fn.addr(i['ops'][1])[:2] == ('a1', 0) and i.get('sty') == 'i64':
                v = vform(G, i['ops'][0])
                if any(t in cur for t in v):
                    res.ob('handler', sample=fn.name)
                    if set(v) != {t for t in v if t in cur} or list(v.values()) != [1]:
                        res.bad('key', fn.name, fn.locstr(i), '%s gives another key than the position of the element' % fn.name)

def raw_count(M, fn, op):
    d = fn.d(op)
    while d is not None and d['op'] in ('zext', 'sext', 'trunc', 'freeze'): d = fn.d(d['ops'][0])
    f = obj_field(M, fn, d['ops'][0]) if d is not None and d['op'] == 'load' else None
    return f is not None and f.name in COUNT

def loop_step(fn, G, i, cur):
    """the value stored is a loop variable that starts one after the position and goes up by one"""
    ds = [fn.d(i['ops'][0])]
    for _ in range(3):
        ds = [y for d in ds if d is not None for y in ([fn.d(o) for o in d['ops']] if d['op'] == 'phi' and not any(fn.dominates(d['b'], p) for p in d['in']) or d['op'] in ('zext', 'trunc') else [d])]
    for d in ds:
        if d['op'] != 'phi': continue
        me = '%%%d' % d['i']; st = []; ok = True
        for o, p in zip(d['ops'], d['in']):
            v = vform(G, o)
            if fn.dominates(d['b'], p):
                if cmp_shift(v) != {me: 1, '': 1}: ok = False
            else: st.append(v)
        if ok and st and all(v.get('') == 1 and len(v) == 2 and any(t in cur for t in v if t) for v in st): return True
    return False

def table_step(M, fn, G, res, stores, cur):
    """tables with unused slots: the step increments at least once, and an unused slot is stepped over"""
    inner, body = loops(fn)
    incs = [i for i in stores if self_form(fn, G, i) is not None or loop_step(fn, G, i, cur)]
    if not incs: res.bad('step', fn.name, fn.name, '%s does not step to the next element' % fn.name); return
    for i in stores:
        v = vform(G, i['ops'][0])
        if len(v) == 1 and list(v.values()) == [1] and (lambda d: d is not None and d['op'] == 'load' and (lambda f: f is not None and f.name == 'nFirstUsed')(obj_field(M, fn, d['ops'][0])))(fn.d(next(iter(v)))):
            t = next(iter(v))
            rel = [f[3] for f in G.B.facts(i['b']) if f[0] == 'le' and f[1] in cur and f[2] == t]
            if len(rel) == 1 and rel[0] != -1: res.bad('step', fn.name + '|first', fn.locstr(i), '%s does not step from before the first element to the first' % fn.name)
    for i in incs:
        for j in incs:
            if i is not j and i['b'] != j['b'] and reaches(fn, i, j) and not reaches(fn, j, i) and i['b'] in inner:
                res.bad('step', fn.name, fn.locstr(j), '%s steps over unused slots and then past one more element' % fn.name)
