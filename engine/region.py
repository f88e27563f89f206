"""Does a memory access stay inside the block it goes to?  Blocks are element storage of a collection (bounded by the
size and capacity recorded with it) and blocks allocated in the function (bounded by what was asked for)."""
from ir import *
from flow import *
from bounds import Bounds
from model import obj_field, new_field

class Region:
    def __init__(s, M, fn):
        s.M = M; s.fn = fn; s.B = Bounds(M, fn)
        s.kc = {}

    # ---------------------------------------------------------------- which block
    def kinds(s, root, seen=None):
        fn = s.fn
        if root in s.kc: return s.kc[root]
        top = seen is None
        seen = set() if top else seen
        if root in seen: return set()
        seen.add(root)
        i = fn.d(root)
        if i is None: r = {'null'} if root == 'null' else {'other'}
        elif i['op'] == 'call':
            n = fn.callee(i) or ''
            r = {'fresh'} if (is_alloc(n) or n in REALLOCS) and not s.two_part(i, n) else {'other'}
        elif i['op'] == 'load':
            f = s.B.field(i['ops'][0])
            r = {'storage'} if f is not None and f.type.endswith('*') and f.name not in ('arData', 'active_iterators', 'root', 'nInternalPointer') else {'other'}
        elif i['op'] in ('phi', 'select'):
            r = set()
            for o in (i['ops'] if i['op'] == 'phi' else i['ops'][1:]): r |= s.kinds(fn.addr(o)[0], seen)
        else: r = {'other'}
        if top: s.kc[root] = r
        return r

    def two_part(s, i, n):
        """a hash table: slots and index share one block"""
        for o in i['ops'][:3]:
            k = const(o)
            if k is not None and k > 8 and n.startswith('_safe') and k & (k - 1): return True
        return False

    # ---------------------------------------------------------------- proof
    def ok(s, a, w, loc, depth=0, seen=frozenset()):
        """[a, a + w) inside its block at loc?"""
        fn, B = s.fn, s.B
        root, off, vs = a
        if depth > 10: return False
        i = fn.d(root)
        if i is None: return True
        key = (root, off, vs, loc)
        if key in seen: return True
        seen = seen | {key}
        if i['op'] == 'load' and not s.kinds(root) & {'storage'}: return True
        if i['op'] == 'call' and not s.kinds(root) & {'fresh'}: return True
        if i['op'] not in ('phi', 'select', 'call', 'load'): return True
        if len(vs) > 1: return s.many(a, w, loc)
        if len(vs) == 1:
            v, sc = vs[0]
            if sc <= 0: return s.neg(a, w, loc)
            if s.ring(root, v): return True
            x, k = B.lin(v)
            # off may reach into a later element
            k += off // sc if off >= 0 else -((-off + sc - 1) // sc)
            if B.within(root, x, k, sc, loc): return True
            if s.counted(root, x, k, sc, loc): return True
            if i['op'] != 'phi': return False
        if i['op'] in ('call', 'load') and not vs:
            return s.first(root, i, off, w, loc)
        if i['op'] == 'select':
            return all(s.ok(add_off(fn.addr(o), off, vs), w, loc, depth + 1, seen) for o in i['ops'][1:] if o != 'null')
        if i['op'] == 'phi':
            if not vs and s.counted_ptr(i, off, loc): return True
            st = s.step(i)
            if st is not None and not vs: return s.walk(root, i, st, off, w, loc, depth, seen)
            for o, pb in zip(i['ops'], i['in']):
                if pb not in fn.rpoidx or o in ('null', 'undef', 'poison'): continue
                if not vs and s.passed(o, (pb, i['b']), off): continue
                if not s.ok(s.on_edge(add_off(fn.addr(o), off, vs), pb, i['b']), w, (pb, i['b']), depth + 1, seen): return False
            return True
        return False

    def on_edge(s, a, p, b):
        return a

    def first(s, root, i, off, w, loc):
        fn, B = s.fn, s.B
        if i['op'] == 'load':
            return off < 0 or B.within(root, None, off // 16, 16, loc) or B.within(root, None, off // max(w, 1), w, loc)
        n = fn.callee(i) or ''
        for sz in sorted({w, 16, 32, 40, 64, 8, 1}):
            c = B.alloc_count(i, sz)
            if c is None: continue
            need = (off + w + sz - 1) // sz
            if c[0] is None:
                if c[1] >= need: return True
            elif B.prove_le(None, c[0], c[1] - need, loc): return True
        return False

    def step(s, phi):
        """(initial operand, entry block, next operand, latch, step) of a pointer moved by a constant each round"""
        fn = s.fn
        if phi['op'] != 'phi' or phi['ty'] != 'ptr': return None
        me = '%%%d' % phi['i']
        back = [(o, pb) for o, pb in zip(phi['ops'], phi['in']) if pb in fn.rpoidx and fn.dominates(phi['b'], pb)]
        ini = [(o, pb) for o, pb in zip(phi['ops'], phi['in']) if pb in fn.rpoidx and not fn.dominates(phi['b'], pb)]
        if len(ini) != 1 or not back: return None
        ks = set()
        for o, pb in back:
            a = fn.addr(o)
            if a[0] != me or a[2]: return None
            ks.add(a[1])
        if len(ks) != 1 or 0 in ks: return None
        return ini[0][0], ini[0][1], back[0][0], back[0][1], ks.pop()

    def walk(s, root, phi, st, off, w, loc, depth, seen):
        fn, B = s.fn, s.B
        init, eb, nxt, lb, k = st
        a0 = fn.addr(init)
        if not s.kinds(a0[0]) & {'storage', 'fresh'}: return True
        if k < 0: return s.ok(add_off(a0, off, ()), w, (eb, phi['b']), depth + 1, seen)
        if s.guarded(root, a0, k, off, w, loc): return True
        for q in fn.blocks[phi['b']]:
            # moved in step with another pointer that is tested
            if q['op'] != 'phi': break
            sq = s.step(q)
            if q is phi or sq is None or sq[4] <= 0: continue
            if s.guarded('%%%d' % q['i'], fn.addr(sq[0]), sq[4], off, w, loc, (a0, k)): return True
        # moved together with a counter: the pointer is init + k * (counter - start)
        for c in fn.blocks[phi['b']]:
            if c['op'] != 'phi': break
            if c['ty'] not in ('i32', 'i64') or len(c['ops']) != len(phi['ops']): continue
            me = '%%%d' % c['i']
            q = dict(zip(c['in'], c['ops']))
            b, d = B.lin(q[lb])
            if b != me or d not in (1, -1): continue
            sb, sk = B.lin(q[eb])
            if d == 1 and sb is None and a0[2] in ((), ) :
                if B.within(a0[0], me, (a0[1] + off) // k - sk, k, loc): return True
            if d == -1 and B.prove_le(None, me, -1, loc) and not a0[2]:
                # counting down to zero: at most start - 1 rounds before this one
                if B.within(a0[0], sb, sk - 1 + (a0[1] + off) // k, k, loc): return True
            if d == 1 and a0[2] and sb is not None and len(a0[2]) == 1 and B.lin(a0[2][0][0])[0] == sb and a0[2][0][1] == k:
                if B.within(a0[0], me, B.lin(a0[2][0][0])[1] - sk + (a0[1] + off) // k, k, loc): return True
        # bottom-tested loop
        return s.ok(add_off(a0, off, ()), w, (eb, phi['b']), depth + 1, seen) and s.guarded(nxt, a0, k, off, w, (lb, phi['b']))

    def guarded(s, v, a0, k, off, w, loc, mine=None):
        """the pointer v (a0 + multiple of k) is known to be below a limit inside the block"""
        fn, B = s.fn, s.B
        cv = fn.canon(v)
        for f in B.facts(loc):
            ends = []
            if f[0] == 'ne' and f[3] == 0: ends = [f[2]] if f[1] == cv else [f[1]] if f[2] == cv else []
            elif f[0] == 'le' and f[1] == cv and f[3] <= -1: ends = [f[2]]
            for e in ends:
                if e is None: continue
                ae = fn.addr(e)
                if mine is not None:
                    d = sub_addr(ae, a0)
                    if d is None: continue
                    b0, mk = mine
                    if d[0] % k or any(c % k for _, c in d[1]): continue
                    if s.below(add_off(b0, d[0] // k * mk, tuple((q, c // k * mk) for q, c in d[1])), b0, mk, off, loc): return True
                elif s.below(ae, a0, k, off, loc): return True
        return False

    def below(s, ae, a0, k, off, loc):
        """limit ae: the last element before it, plus off, lies inside the block of a0"""
        fn, B = s.fn, s.B
        i = fn.d(ae[0])
        if a0 is not None and ae[0] != a0[0] or a0 is None and not s.kinds(ae[0]) & {'storage', 'fresh'}: return False
        o = ae[1] - k + off
        if not ae[2]: return s.ok((ae[0], o, ()), 1, loc, 8)
        if len(ae[2]) > 1 or ae[2][0][1] % k and k % ae[2][0][1]: return False
        v, sc = ae[2][0]
        x, kk = B.lin(v)
        return B.within(ae[0], x, kk + o // sc, sc, loc) or s.counted(ae[0], x, kk + o // sc, sc, loc)

    # ---------------------------------------------------------------- special shapes
    def ring(s, root, v):
        """index & mask, mask = capacity - 1 of the same object"""
        fn = s.fn
        i = fn.d(fn.canon(v))
        while i is not None and i['op'] in ('zext', 'trunc', 'sext'): i = fn.d(i['ops'][0])
        f = s.B.field(i['ops'][0]) if i is not None and i['op'] == 'load' else None
        if f is not None and f.name == 'offset': return True
        if i is None or i['op'] != 'and': return False
        for o in i['ops']:
            d = fn.d(fn.canon(o))
            f = s.B.field(d['ops'][0]) if d is not None and d['op'] == 'load' else None
            if f is not None and f.name in ('mask', 'offset'): return True
            if d is not None and d['op'] in ('add', 'sub') : return True
        return False

    def many(s, a, w, loc): return False
    def neg(s, a, w, loc): return False
    def counted(s, root, x, k, sz, loc):
        """filling a block made for as many elements as a collection has, one per element visited"""
        fn, B = s.fn, s.B
        i = fn.d(root)
        if i is None or i['op'] != 'call' or x is None: return False
        c = B.alloc_count(i, sz)
        if c is None or c[0] is None: return False
        h = fn.d(x)
        if h is None or h['op'] != 'phi': return False
        div = 1
        n = fn.d(c[0])
        if n is not None and (n['op'] == 'udiv' and const(n['ops'][1]) == 2 or n['op'] == 'lshr' and const(n['ops'][1]) == 1):
            div = 2; c = (B.lin(n['ops'][0])[0], c[1]); n = fn.d(c[0])
        src = s.count_of(n)
        if src is None: return False
        start = None
        for o, pb in zip(h['ops'], h['in']):
            if pb not in fn.rpoidx: continue
            if fn.dominates(h['b'], pb):
                if s.inc(o, x) not in (0, 1): return False
            else:
                b, kk = B.lin(o)
                if b is not None or start is not None and start != kk: return False
                start = kk
        if start is None or start + k > c[1]: return False
        if not s.visits(h['b'], src, loc): return False
        return div == 1 or s.every_other(h, x)

    def inc(s, o, x, seen=frozenset()):
        """by how much at most is o more than x"""
        fn = s.fn
        b, k = s.B.lin(o)
        if b == x: return k
        i = fn.d(b) if b else None
        if i is None or i['op'] not in ('phi', 'select') or b in seen: return None
        r = [s.inc(q, x, seen | {b}) for q in (i['ops'] if i['op'] == 'phi' else i['ops'][1:]) if fn.canon(q) != b]
        return None if None in r or not r else max(r) + k

    def count_of(s, n):
        """the collection n is the number of elements of"""
        fn = s.fn
        if n is None: return None
        if n['op'] == 'call' and fn.callee(n) == 'zend_hash_num_elements': return fn.canon(n['ops'][0])
        if n['op'] == 'load':
            f = s.B.field(n['ops'][0])
            a = fn.addr(n['ops'][0])
            if f is not None and f.name == 'nNumOfElements': return a[0]
            if any(q == '_zend_array' and a[1] - o == 28 for q, o in fn.structs_at(n['ops'][0])): return a[0]
        return None

    def visits(s, head, src, loc):
        """the loop at head visits the elements of src one by one, and loc lies behind the test that the slot is occupied"""
        fn, B = s.fn, s.B
        facts = B.facts(loc)
        def occupied(p):
            for f in facts:
                if f[0] == 'ne' and f[3] == 0 and (f[1] is None or f[2] is None):
                    q = fn.d(f[2] if f[1] is None else f[1])
                    while q is not None and q['op'] in ('and', 'zext', 'trunc'): q = fn.d(q['ops'][0])
                    if q is not None and q['op'] == 'load' and p in s.origins(fn.addr(q['ops'][0])): return True
                if f[0] == 'ne' and p in (f[1], f[2]): return True
            return False
        for i in fn.blocks[head]:
            if i['op'] != 'phi': break
            if i['ty'] != 'ptr': continue
            me = '%%%d' % i['i']
            for o, pb in zip(i['ops'], i['in']):
                if pb in fn.rpoidx and not fn.dominates(head, pb) and s.from_table(fn.addr(o)[0], src) and occupied(me): return True
        # by index
        for i in fn.blocks[head]:
            if i['op'] != 'phi': break
            if i['ty'] not in ('i32', 'i64'): continue
            for f in facts:
                if f[0] == 'ne' and f[3] == 0 and (f[1] is None or f[2] is None):
                    q = fn.d(f[2] if f[1] is None else f[1])
                    while q is not None and q['op'] in ('and', 'zext', 'trunc'): q = fn.d(q['ops'][0])
                    if q is not None and q['op'] == 'load':
                        a = fn.addr(q['ops'][0])
                        if any(fn.canon(v) == '%%%d' % i['i'] for v, _ in a[2]) and s.from_table(a[0], src): return True
        return False

    def origins(s, a):
        """values an address is made from"""
        fn = s.fn
        out = set(); todo = [a[0]] + [fn.canon(v) for v, _ in a[2]]
        while todo:
            r = todo.pop()
            if r in out: continue
            out.add(r)
            i = fn.d(r)
            if i is not None and i['op'] in ('phi', 'select'): todo += [fn.addr(o)[0] for o in (i['ops'] if i['op'] == 'phi' else i['ops'][1:])]
        return out

    def from_table(s, r, src, depth=0):
        fn = s.fn
        i = fn.d(r)
        if i is None or depth > 6: return False
        if i['op'] == 'load':
            a = fn.addr(i['ops'][0])
            if a[0] == src: return True
            return s.from_table(a[0], src, depth + 1)
        if i['op'] in ('phi', 'select'): return any(s.from_table(fn.addr(o)[0], src, depth + 1) for o in i['ops'] if o[0] == '%')
        if i['op'] == 'call': return any(fn.addr(o)[0] == src for o in i['ops'] if o[0] == '%')
        return False

    def every_other(s, h, x):
        """counted up only in every second round: a flag of the loop is tested first and reversed"""
        fn = s.fn
        for i in fn.blocks[h['b']]:
            if i['op'] != 'phi': break
            if i['ty'] not in ('i8', 'i1', 'i32'): continue
            ks = {const(o) for o, pb in zip(i['ops'], i['in'])}
            vals = s.leaves('%%%d' % i['i'])
            if vals <= {0, 1} and len(vals) == 2: return True
        return False

    def leaves(s, v, seen=None):
        fn = s.fn
        seen = set() if seen is None else seen
        if const(v) is not None: return {const(v) & 1}
        c = fn.canon(v)
        if c in seen: return set()
        seen.add(c)
        if const(c) is not None: return {const(c) & 1}
        i = fn.d(c)
        if i is None or i['op'] not in ('phi', 'zext', 'trunc', 'freeze'): return {None}
        out = set()
        for o in i['ops']: out |= s.leaves(o, seen)
        return out
    def counted_ptr(s, phi, off, loc):
        """the same, by a pointer moved on after each element"""
        fn, B = s.fn, s.B
        me = '%%%d' % phi['i']
        a0 = None; ks = set()
        for o, pb in zip(phi['ops'], phi['in']):
            if pb not in fn.rpoidx: continue
            if fn.dominates(phi['b'], pb):
                r = s.moves(o, me)
                if None in r: return False
                ks |= r
            elif a0 is None: a0 = fn.addr(o)
            else: return False
        ks.discard(0)
        if a0 is None or a0[2] or len(ks) != 1: return False
        k, = ks
        i = fn.d(a0[0])
        if i is None or i['op'] != 'call' or k <= 0: return False
        c = B.alloc_count(i, k)
        if c is None or c[0] is None: return False
        src = s.count_of(fn.d(c[0]))
        return src is not None and (a0[1] + off) // k <= c[1] and s.visits(phi['b'], src, loc)

    def moves(s, o, me, seen=frozenset()):
        fn = s.fn
        a = fn.addr(o)
        if a[2]: return {None}
        if a[0] == me: return {a[1]}
        i = fn.d(a[0])
        if i is None or i['op'] != 'phi' or a[1] or a[0] in seen: return {None}
        out = set()
        for q in i['ops']: out |= s.moves(q, me, seen | {a[0]})
        return out

    def passed(s, o, loc, off):
        """the pointer o was just found not to have reached a limit inside its block"""
        fn, B = s.fn, s.B
        a = fn.addr(o)
        if a[2] or a[1] <= 0 or fn.d(a[0]) is None or fn.d(a[0])['op'] != 'phi': return False
        return s.guarded(o, None, a[1], off, 1, loc)

def sub_addr(a, b):
    if a[0] != b[0]: return None
    v = dict(a[2])
    for q, c in b[2]: v[q] = v.get(q, 0) - c
    return a[1] - b[1], tuple((q, c) for q, c in v.items() if c)

def add_off(a, off, vs):
    v = {}
    for q, c in tuple(a[2]) + tuple(vs): v[q] = v.get(q, 0) + c
    return (a[0], a[1] + off, tuple((q, c) for q, c in v.items() if c))
