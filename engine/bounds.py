"""Demand-driven bounds prover (in the style of ABCD) over the flattened SSA.

A storage pointer is tied to a memory version: the region between two points
where the object's storage may change (user code, reallocation, re-assignment).
Size and capacity loads of the same object in the same version bound it."""
from ir import *
from flow import *
from model import obj_field
import heapq

SIZE_FIELDS = {'size': 0, 'capacity': 1, 'nNumUsed': 0, 'nTableSize': 1, 'bit_size': 0, 'bit_capacity': 1, 'mask': 2, 'nNumOfElements': 0}

BUILDING = {'method:__construct', 'method:__unserialize', 'method:__set_state', 'method:fromPairs', 'clone', 'create'}

class Bounds:
    def __init__(s, M, fn):
        s.M = M; s.fn = fn
        s.fc = {}
        s.ver_at = {}      # load id -> version of (object root)
        s.versions()
        s.cond_cache = {}
        s.bl = {}
        s.nuw_seen = 0; s.divs = None; s.busy = False

    def field(s, op):
        if op not in s.fc: s.fc[op] = obj_field(s.M, s.fn, op)
        return s.fc[op]

    # ---------------------------------------------------------------- memory versions
    def versions(s):
        fn = s.fn
        inn = {0: 'entry'}
        heap = [(0, 0)]; inq = {0}
        out = {}
        def step(v, i, rec):
            op = i['op']
            if op == 'load':
                if rec:
                    f = s.field(i['ops'][0])
                    if f is not None: s.ver_at[i['i']] = v
            elif op == 'store':
                f = s.field(i['ops'][1])
                if f is not None and f.type.endswith('*') and f.name != 'active_iterators': return 's%d' % i['i']
            elif op == 'call':
                n = fn.callee(i)
                if is_event(fn, i) and not s.fixed: return 'e%d' % i['i']
            return v
        # an immutable collection does not change once it is built
        own = s.M.owners.get(fn.name, [])
        s.fixed = bool(own) and all(c and c.startswith('Teds\\Immutable') for c in own) and not any(r in BUILDING for _, r in s.M.roles.get(fn.name, []))
        while heap:
            _, b = heapq.heappop(heap); inq.discard(b)
            v = inn[b]
            for i in fn.blocks[b]: v = step(v, i, False)
            out[b] = v
            for t in fn.succ[b]:
                if t not in inn: inn[t] = v
                elif inn[t] != v and inn[t] != 'm%d' % t: inn[t] = 'm%d' % t
                else: continue
                if t not in inq: heapq.heappush(heap, (fn.rpoidx[t], t)); inq.add(t)
        s.verin = inn
        for b in fn.rpo:
            v = inn[b]
            for i in fn.blocks[b]: v = step(v, i, True)

    # ---------------------------------------------------------------- linear forms
    def lin(s, op, depth=0):
        """op = base + k ; base None for constants"""
        fn = s.fn
        k = const(op)
        if k is not None: return (None, k)
        c = fn.canon(op)
        k = const(c)
        if k is not None: return (None, k)
        i = fn.d(c)
        if i is None or depth > 20: return (c, 0)
        if i['op'] in ('add', 'sub'):
            k2 = const(i['ops'][1])
            if k2 is not None:
                if i['ty'] == 'i32' and k2 > 0x7fffffff: k2 -= 1 << 32
                b, k1 = s.lin(i['ops'][0], depth + 1)
                return (b, k1 + (k2 if i['op'] == 'add' else -k2))
            k1 = const(i['ops'][0])
            if i['op'] == 'add' and k1 is not None:
                b, k2 = s.lin(i['ops'][1], depth + 1)
                return (b, k1 + k2)
        if i['op'] == 'or' and False: pass
        return (c, 0)

    # ---------------------------------------------------------------- branch facts
    def facts(s, b):
        """facts (x, y, k, kind): x - y <= k known on entry of block b, x,y bases or None; also ('ne', x, y, k)"""
        if b in s.cond_cache: return s.cond_cache[b]
        fn = s.fn
        if isinstance(b, tuple):
            r = s.facts(b[0]) + s.edge_facts(b[0], b[1])
            s.cond_cache[b] = r
            return r
        out = []
        idom = fn.idom()
        cur = b
        chain = []
        while True:
            chain.append(cur)
            p = idom.get(cur)
            if p is None or p == cur: break
            cur = p
        for x in chain:
            # edge p->x dominates x when x has a single predecessor (or all others are dominated by x)
            preds = [p for p in fn.pred[x] if p in fn.rpoidx]
            outer = [p for p in preds if not fn.dominates(x, p)]
            if len(outer) == 1: out += s.edge_facts(outer[0], x)
        s.cond_cache[b] = out
        return out

    def edge_facts(s, p, t):
        fn = s.fn
        term = fn.blocks[p][-1]
        if term['op'] == 'switch':
            out = []
            vals = [const(c) for c, tt in term['cases'] if tt == t]
            if term['def'] != t and len(vals) == 1:
                out += s.cmp_facts('eq', term['ops'][0], 'c%d' % vals[0], 'i64')
            elif term['def'] == t:
                for c, tt in term['cases']:
                    if tt != t: out += s.cmp_facts('ne', term['ops'][0], c, 'i64')
            return out
        ce = cond_edges(fn, p)
        if not ce or ce[1] == ce[2]: return []
        truth = (t == ce[1])
        return s.cond_facts(ce[0], truth)

    def cond_facts(s, op, truth, depth=0):
        fn = s.fn
        op, neg = strip_bool(fn, op)
        if neg: truth = not truth
        i = fn.d(op)
        if i is None or depth > 6: return []
        if i['op'] == 'icmp':
            p = i['pred']
            if not truth: p = NEG[p]
            return s.cmp_facts(p, i['ops'][0], i['ops'][1], i.get('cty'))
        if i['op'] == 'and' and truth: return s.cond_facts(i['ops'][0], True, depth + 1) + s.cond_facts(i['ops'][1], True, depth + 1)
        if i['op'] == 'or' and not truth: return s.cond_facts(i['ops'][0], False, depth + 1) + s.cond_facts(i['ops'][1], False, depth + 1)
        if i['op'] == 'select':
            # a && b : select a, b, false ; a || b : select a, true, b
            if truth and const(i['ops'][2]) == 0: return s.cond_facts(i['ops'][0], True, depth + 1) + s.cond_facts(i['ops'][1], True, depth + 1)
            if not truth and const(i['ops'][1]) in (1, -1): return s.cond_facts(i['ops'][0], False, depth + 1) + s.cond_facts(i['ops'][2], False, depth + 1)
        if i['op'] == 'phi' and i.get('ty') == 'i1':
            # short circuit: constant on all but one incoming edge
            live = [(o, pb) for o, pb in zip(i['ops'], i['in']) if const(o) is None or bool(const(o)) == truth]
            if len(live) == 1:
                o, pb = live[0]
                out = s.edge_facts_chain(pb, i['b'])
                if const(o) is None: out = out + s.cond_facts(o, truth, depth + 1)
                return out
        if i['op'] in ('load', 'call', 'and', 'sub', 'lshr', 'urem'): return s.cmp_facts('ne' if truth else 'eq', op, 'c0', None)
        return []

    def edge_facts_chain(s, p, t):
        return s.facts(p) + s.edge_facts(p, t)

    def cmp_facts(s, p, x, y, ty):
        bx, kx = s.lin(x); by, ky = s.lin(y)
        out = []
        # x = bx+kx, y = by+ky ; x <= y + d  <=>  bx - by <= ky - kx + d
        def le(a, ka, b, kb, d, u): out.append(('le', a, b, kb - ka + d, u))
        u = p[0] == 'u'
        q = p[1:] if p[0] in 'us' and p not in ('eq', 'ne') else p
        if q == 'lt': le(bx, kx, by, ky, -1, u)
        elif q == 'le': le(bx, kx, by, ky, 0, u)
        elif q == 'gt': le(by, ky, bx, kx, -1, u)
        elif q == 'ge': le(by, ky, bx, kx, 0, u)
        elif q == 'eq': le(bx, kx, by, ky, 0, False); le(by, ky, bx, kx, 0, False)
        elif q == 'ne': out.append(('ne', bx, by, ky - kx, False))
        return out

    # ---------------------------------------------------------------- proving
    def nonneg_base(s, b):
        """quantities that are unsigned by construction: field loads of unsigned type, zext results, string/array lengths"""
        i = s.fn.d(b)
        return i is not None and (i['op'] == 'load' and i['ty'] in ('i32', 'i64', 'i16', 'i8') and s.field(i['ops'][0]) is not None)

    def prove_le(s, x, y, c, b, stack=(), fuel=None):
        """x - y <= c at the end of block b (x, y bases or None)?"""
        if fuel is None: fuel = [400]
        fuel[0] -= 1
        if fuel[0] < 0: return False
        if x == y: return c >= 0
        if (x, y, b) in [(a, bb, d) for a, bb, cc, d in stack]:
            for a, bb, cc, d in stack:
                if (a, bb, d) == (x, y, b): return cc <= c
        if len(stack) > 14: return False
        st = stack + ((x, y, c, b),)
        fn = s.fn
        if x is None and y is not None:
            # k0: 0 - y <= c : holds when y >= -c
            if c >= 0 and s.is_nonneg(y, b): return True
        z = s.cancel(x, y)
        if z is not None:
            nx, ny, k = z           # x - y = nx - ny + k
            if nx is None and ny is None: return k <= c
            if s.prove_le(nx, ny, c - k, b, st, fuel): return True
        facts = s.facts(b)
        # strengthen: x - y <= 0 and x != y  ->  <= -1
        for f in facts:
            if f[0] == 'le' and f[1] == x:
                if f[2] == y and f[3] <= c: return True
        for f in facts:
            if f[0] == 'ne' and c == -1 + 0 * 0:
                pass
            if f[0] == 'ne' and ((f[1] == x and f[2] == y and f[3] == c + 1) or (f[1] == y and f[2] == x and -f[3] == c + 1)):
                # x - y != c+1 and x - y <= c+1
                if s.prove_le(x, y, c + 1, b, st, fuel): return True
        for f in facts:
            if f[0] == 'le' and f[1] == x and f[2] != y and f[2] != x:
                if s.prove_le(f[2], y, c - f[3], b, st, fuel): return True
        for f in facts:
            if f[0] == 'le' and f[2] == y and f[1] is not None and f[1] != x and f[1] != y and y is not None:
                if s.prove_le(x, f[1], c - f[3], b, st, fuel): return True
        # structure of x
        i = fn.d(x) if x else None
        if i is not None:
            op = i['op']
            if op == 'phi':
                yj = fn.d(y) if y else None
                live = s.live_edges(i, b)
                if yj is not None and yj['op'] == 'phi' and yj['b'] == i['b']:
                    # both change together: compare what arrives over each edge
                    other = dict(zip(yj['in'], yj['ops']))
                    if all(s.le_both(o, other.get(pb), c, (pb, i['b']), st, fuel) for o, pb in zip(i['ops'], i['in']) if pb in live): return True
                elif all(s.le_ops(o, y, c, (pb, i['b']), st, fuel) for o, pb in zip(i['ops'], i['in']) if pb in live): return True
            elif op == 'select':
                if s.le_ops(i['ops'][1], y, c, b, st, fuel) and s.le_ops(i['ops'][2], y, c, b, st, fuel): return True
            elif op == 'and':
                for o in i['ops']:
                    if const(o) is not None or s.is_nonneg(s.lin(o)[0], b) or True:
                        if s.le_ops(o, y, c, b, st, fuel): return True
            elif op in ('lshr', 'udiv', 'urem', 'ashr'):
                j = fn.d(fn.canon(i['ops'][0]))
                k = const(i['ops'][1])
                if op in ('lshr', 'udiv', 'ashr') and j is not None and j['op'] == 'add' and k == (1 if op != 'udiv' else 2) and const(j['ops'][1]) is None:
                    la, lb = s.lin(j['ops'][0]), s.lin(j['ops'][1])
                    for (p, kp), (q, kq) in (((la), (lb)), ((lb), (la))):
                        # p < q  ->  avg <= q - 1
                        if s.prove_le(p, q, kq - kp - 1, b, st, fuel) and s.prove_le(q, y, c + 1 - kq, b, st, fuel): return True
                        if s.prove_le(p, q, kq - kp, b, st, fuel) and s.prove_le(q, y, c - kq, b, st, fuel): return True
                if op == 'urem':
                    if s.le_ops(i['ops'][1], y, c + 1, b, st, fuel): return True
                elif s.le_ops(i['ops'][0], y, c, b, st, fuel): return True
            elif op == 'sub':
                # a - b <= a when b >= 0
                if s.is_nonneg(s.lin(i['ops'][1])[0], b) and s.le_ops(i['ops'][0], y, c, b, st, fuel): return True
            elif op == 'call' and (fn.callee(i) or '').startswith(('llvm.umin', 'llvm.smin')):
                if any(s.le_ops(o, y, c, b, st, fuel) for o in i['ops'][:2]): return True
            elif op == 'call' and (fn.callee(i) or '').startswith(('llvm.umax', 'llvm.smax')):
                if all(s.le_ops(o, y, c, b, st, fuel) for o in i['ops'][:2]): return True
            elif op == 'load':
                f = s.field(i['ops'][0])
                if f is not None and f.name in ('size', 'bit_size'):
                    for z in s.sibling_loads(i, 'capacity' if f.name == 'size' else 'bit_capacity'):
                        if y != '%%%d' % z and s.prove_le('%%%d' % z, y, c, b, st, fuel): return True
            elif op == 'add':
                # lo + (hi - lo)/2
                for p, q in ((i['ops'][0], i['ops'][1]), (i['ops'][1], i['ops'][0])):
                    h = fn.d(fn.canon(q))
                    if h is not None and h['op'] in ('lshr', 'udiv', 'ashr') and const(h['ops'][1]) in (1, 2):
                        d = fn.d(fn.canon(h['ops'][0]))
                        if d is not None and d['op'] == 'sub' and fn.canon(d['ops'][1]) == fn.canon(p):
                            (pp, kp), (qq, kq) = s.lin(p), s.lin(d['ops'][0])
                            if s.prove_le(pp, qq, kq - kp - 1, b, st, fuel) and s.prove_le(qq, y, c + 1 - kq, b, st, fuel): return True
        # structure of y
        j = fn.d(y) if y else None
        if j is not None:
            if j['op'] == 'phi' and x is not None:
                # x fixed: need x - y_i <= c on all edges; only sound when x dominates the phi or is not redefined in the cycle
                xi = fn.d(x)
                if (xi is None or fn.dominates(xi['b'], j['b']) and xi['b'] != j['b']) and \
                   all(s.le_ops_r(x, o, c, (pb, j['b']), st, fuel) for o, pb in zip(j['ops'], j['in']) if pb in s.live_edges(j, b)): return True
            elif j['op'] == 'phi' and x is None:
                if all(s.le_ops_r(None, o, c, (pb, j['b']), st, fuel) for o, pb in zip(j['ops'], j['in']) if pb in s.live_edges(j, b)): return True
            elif j['op'] == 'select':
                if s.le_ops_r(x, j['ops'][1], c, b, st, fuel) and s.le_ops_r(x, j['ops'][2], c, b, st, fuel): return True
            elif j['op'] == 'add':
                # y = p + q, q >= 0
                for p, q in ((j['ops'][0], j['ops'][1]), (j['ops'][1], j['ops'][0])):
                    lq = s.lin(q)
                    if (lq[0] is None and lq[1] >= 0 or lq[0] is not None and s.is_nonneg(lq[0], b)) and s.le_ops_r(x, p, c, b, st, fuel): return True
            elif j['op'] == 'or':
                if any(s.le_ops_r(x, o, c, b, st, fuel) for o in j['ops']): return True
            elif j['op'] == 'mul' or j['op'] == 'shl':
                k = const(j['ops'][1])
                if k is not None and k >= 1 and s.le_ops_r(x, j['ops'][0], c, b, st, fuel): return True
                if k is not None and (k >= 2 or j['op'] == 'shl' and k >= 1):
                    p, kp = s.lin(j['ops'][0])
                    # p >= 1: k * p >= p + 1
                    if s.prove_le(None, p, kp - 1, b, st, fuel) and s.le_ops_r(x, j['ops'][0], c + 1, b, st, fuel): return True
            elif j['op'] == 'call' and (fn.callee(j) or '').startswith(('llvm.umax', 'llvm.smax')):
                if any(s.le_ops_r(x, o, c, b, st, fuel) for o in j['ops'][:2]): return True
            elif j['op'] == 'load':
                # size <= capacity of the same object and version
                f = s.field(j['ops'][0])
                if f is not None and f.name in ('capacity', 'bit_capacity'):
                    want = 'size' if f.name == 'capacity' else 'bit_size'
                    for z in s.sibling_loads(j, want):
                        if s.prove_le(x, '%%%d' % z, c, b, st, fuel): return True
        return False

    def full(s, op, depth=0):
        """complete linear form over canonical values"""
        fn = s.fn
        b, k = s.lin(op)
        r = {'': k} if k else {}
        if b is None: return r
        i = fn.d(b)
        if i is not None and i['op'] in ('add', 'sub') and depth < 6:
            for o, sg in zip(i['ops'], (1, 1 if i['op'] == 'add' else -1)):
                for t, c in s.full(o, depth + 1).items():
                    r[t] = r.get(t, 0) + sg * c
                    if r[t] == 0: del r[t]
            return r
        r[b] = r.get(b, 0) + 1
        return r

    def cancel(s, x, y):
        """(x', y', k) with x - y = x' - y' + k after common terms are cancelled; None when nothing cancels"""
        if x is None or y is None: return None
        fn = s.fn
        if not any(fn.d(o) is not None and fn.d(o)['op'] in ('add', 'sub') for o in (x, y)): return None
        fx, fy = s.full(x), s.full(y)
        if not (set(fx) & set(fy)) - {''} and not any(c < 0 for t, c in list(fx.items()) + list(fy.items()) if t): return None
        d = dict(fx)
        for t, c in fy.items():
            d[t] = d.get(t, 0) - c
            if d[t] == 0: del d[t]
        k = d.pop('', 0)
        pos = [t for t, c in d.items() if c == 1]; neg = [t for t, c in d.items() if c == -1]
        if len(pos) + len(neg) != len(d) or len(pos) > 1 or len(neg) > 1: return None
        return (pos[0] if pos else None, neg[0] if neg else None, k)

    def sibling_loads(s, j, want):
        fn = s.fn
        a = fn.addr(j['ops'][0])
        v = s.ver_at.get(j['i'])
        out = []
        for i in fn.I.values():
            if i['op'] == 'load' and s.ver_at.get(i['i']) == v and fn.canon('%%%d' % i['i']) == '%%%d' % i['i']:
                f = s.field(i['ops'][0])
                if f is not None and f.name == want and fn.addr(i['ops'][0])[0] == a[0]: out.append(i['i'])
        return out

    def le_ops(s, o, y, c, b, st, fuel):
        bx, k = s.lin(o)
        if o == 'undef' or o == 'poison': return True
        return s.prove_le(bx, y, c - k, b, st, fuel)
    def live_edges(s, phi, b):
        """edges into the phi's block over which control can have come, given whether a pointer merged there is known to be null"""
        fn = s.fn
        out = {pb for pb in phi['in'] if pb in fn.rpoidx}
        for p in fn.blocks[phi['b']]:
            if p['op'] != 'phi': break
            if p['ty'] != 'ptr': continue
            me = '%%%d' % p['i']
            z = s.nullness(me, b)
            if z is None: continue
            for o, pb in zip(p['ops'], p['in']):
                n = s.is_null(o, set())
                if n is not None and n != z: out.discard(pb)
        return out

    def nullness(s, p, b):
        for f in s.null_facts(b):
            if f[0] == p: return f[1]
        return None

    def null_facts(s, b):
        key = ('null', b)
        if key in s.cond_cache: return s.cond_cache[key]
        fn = s.fn; out = []
        cur = b
        if isinstance(b, tuple):
            out += s.null_edge(b[0], b[1]); cur = b[0]
        idom = fn.idom()
        while True:
            preds = [p for p in fn.pred[cur] if p in fn.rpoidx and not fn.dominates(cur, p)]
            if len(preds) == 1: out += s.null_edge(preds[0], cur)
            p = idom.get(cur)
            if p is None or p == cur: break
            cur = p
        s.cond_cache[key] = out
        return out

    def null_edge(s, p, t):
        fn = s.fn
        z = zero_edge(fn, p)
        if not z or z[1] == z[2]: return []
        d = fn.d(z[0])
        if d is None or d['ty'] != 'ptr': return []
        return [(fn.canon(z[0]), t == z[1])] if t in (z[1], z[2]) else []

    def is_null(s, o, seen):
        """True / False when the pointer is known to be null / not to be, else None"""
        fn = s.fn
        if o == 'null': return True
        a = fn.addr(o)
        i = fn.d(a[0])
        if i is None: return None
        if a[0] in seen: return 'same'
        if i['op'] == 'call': return False if is_alloc(fn.callee(i) or '') or fn.callee(i) in REALLOCS else None
        if i['op'] == 'phi':
            seen = seen | {a[0]}
            r = set()
            for q, pb in zip(i['ops'], i['in']):
                if pb not in fn.rpoidx: continue
                z = s.is_null(q, seen)
                if z is None or z is True:
                    k = s.nullness(fn.addr(q)[0], (pb, i['b']))
                    if k is None: k = s.alive(q, (pb, i['b']))
                    if k is not None: z = k
                r.add(z)
            r.discard('same')
            return r.pop() if len(r) == 1 else None
        return None

    def alive(s, q, edge):
        """a pointer whose paired counter is known to be positive on the edge is not null"""
        i = s.fn.d(s.fn.addr(q)[0])
        if i is None or i['op'] != 'phi' or s.busy: return None
        s.busy = True
        try: return s.alive1(i, edge)
        finally: s.busy = False
    def alive1(s, i, edge):
        for sz in (16, 32, 8):
            for c in s.paired('%%%d' % i['i'], sz):
                if s.prove_le(None, c, -1, edge, (), [60]): return False
        return None

    def le_both(s, o, q, c, b, st, fuel):
        if q is None: return False
        if o in ('undef', 'poison') or q in ('undef', 'poison'): return True
        bx, k = s.lin(o); by, kk = s.lin(q)
        if bx is None and by is None: return k - kk <= c
        return s.prove_le(bx, by, c - k + kk, b, st, fuel)
    def le_ops_r(s, x, o, c, b, st, fuel):
        by, k = s.lin(o)
        if o == 'undef' or o == 'poison': return True
        return s.prove_le(x, by, c + k, b, st, fuel)

    def is_nonneg(s, x, b, depth=0):
        """x >= 0 as a mathematical integer"""
        if x is None: return True
        if depth > 5: return False
        i = s.fn.d(x)
        if i is None: return False
        if s.nonneg_base(x): return True
        if i['ty'] == 'i32' : return True     # sizes and indices in this code base are uint32_t unless sign-extended
        for f in s.facts(b):
            if f[0] == 'le' and f[1] is None and f[2] == x and f[3] <= 0: return True
            if f[0] == 'le' and f[1] == x and f[4]: return True    # unsigned upper bound
        if i['op'] in ('and', 'lshr', 'urem', 'udiv'): return True
        if i['op'] == 'phi':
            return all(s.nn_op(o, (pb, i['b']), x, depth + 1) for o, pb in zip(i['ops'], i['in']) if pb in s.fn.rpoidx)
        if i['op'] == 'load':
            return True if i['ty'] != 'i64' else False
        if i['op'] == 'call':
            return (s.fn.callee(i) or '') in ('zend_hash_num_elements', 'zend_hash_real_size')
        return False
    def nn_op(s, o, b, self_, depth):
        bb, k = s.lin(o)
        if bb is None: return k >= 0
        if bb == self_: return k >= 0
        return k >= 0 and s.is_nonneg(bb, b, depth)

    # ---------------------------------------------------------------- bounds of a storage region
    def bound_loads(s, oroot, ver):
        """raw loads of size-like fields of the object in the given memory version"""
        fn = s.fn
        key = (oroot, ver)
        if key not in s.bl:
            out = []
            for j in fn.I.values():
                if j['op'] == 'load' and s.ver_at.get(j['i']) == ver and fn.canon('%%%d' % j['i']) == '%%%d' % j['i']:
                    g = s.field(j['ops'][0])
                    if g is not None and g.name in SIZE_FIELDS and fn.addr(j['ops'][0])[0] == oroot: out.append((j['i'], g.name))
            out.sort(key=lambda t: (SIZE_FIELDS[t[1]], t[0]))
            s.bl[key] = out
        return s.bl[key]

    def alloc_count(s, i, sz):
        """number of elements of size sz an allocation call provides, as (base, k) or None"""
        fn = s.fn
        n = fn.callee(i) or ''
        ops = i['ops']
        def by_bytes(o):
            k = const(fn.canon(o)) if const(o) is None else const(o)
            if k is not None: return (None, k // sz)
            j = fn.d(fn.canon(o))
            if j is None: return None
            if j['op'] in ('mul', 'shl'):
                k = const(j['ops'][1])
                if k is not None:
                    if j['op'] == 'shl': k = 1 << k
                    if k >= sz: return s.lin(j['ops'][0])
            if j['op'] == 'add' and const(j['ops'][1]) is not None:
                r = by_bytes(j['ops'][0])
                if r: return (r[0], r[1] + const(j['ops'][1]) // sz)
            if j['op'] == 'phi':
                return None
            if sz == 1: return s.lin(o)
            return None
        if n in ('_emalloc', '__zend_malloc', 'emalloc') or n.startswith('_emalloc_'):
            if n.startswith('_emalloc_') and n[9:].isdigit(): return (None, int(n[9:]) // sz)
            return by_bytes(ops[0])
        if n in ('_erealloc', 'erealloc', '_erealloc2'): return by_bytes(ops[1])
        if n in ('_safe_emalloc', '_ecalloc'):
            for a, b in ((0, 1), (1, 0)):
                if const(ops[b]) is not None and const(ops[b]) >= sz: return s.lin(ops[a])
        if n == '_safe_erealloc':
            for a, b in ((1, 2), (2, 1)):
                if const(ops[b]) is not None and const(ops[b]) >= sz: return s.lin(ops[a])
        return None

    def within(s, root, x, k, sz, loc, depth=0, stack=(), scale=1):
        """index x + k (elements of sz bytes) lies inside the block `root` points to, at loc?  scale: index units per element (8 for bits)"""
        fn = s.fn
        r = fn.d(root)
        if r is None or depth > 12: return False
        if (root, x, k, loc) in stack: return True
        st = stack + ((root, x, k, loc),)
        if r['op'] == 'load':
            f = s.field(r['ops'][0])
            if f is None: return False
            oroot = fn.addr(r['ops'][0])[0]
            return s.within_field(oroot, s.ver_at.get(r['i']), r, x, k, sz, loc, st)
        if r['op'] == 'call':
            cnt = s.alloc_count(r, sz)
            if cnt is None: return False
            # x + k <= cnt - 1
            return s.prove_le(x, cnt[0], cnt[1] - 1 - k, loc)
        if r['op'] == 'phi':
            ok = True
            for c in s.paired(root, sz):
                if s.prove_le(x, c, -1 - k, loc): return True
            for o, pb in zip(r['ops'], r['in']):
                if pb not in fn.rpoidx or o in ('undef', 'poison'): continue
                a = fn.addr(o)
                if o == 'null' or a[0] == 'null': continue
                if a[2] or a[1]: return False
                # x as seen on this edge
                if not s.within(a[0], x, k, sz, loc if fn.dominates(pb, loc if not isinstance(loc, tuple) else loc[0]) else loc, depth + 1, st) and \
                   not s.within_edge(a[0], x, k, sz, (pb, r['b']), depth + 1, st): return False
            return True
        return False

    def paired(s, root, sz):
        """counters that always hold the number of elements of sz bytes of the block the pointer phi refers to"""
        fn = s.fn
        key = ('pair', root, sz)
        if key not in s.bl:
            r = fn.d(root)
            s.bl[key] = [] # while looking
            s.bl[key] = ['%%%d' % c['i'] for c in fn.blocks[r['b']] if c['op'] == 'phi' and c['ty'] in ('i32', 'i64') and s.consistent(root, '%%%d' % c['i'], sz, set())]
        return s.bl[key]

    def consistent(s, e, c, sz, seen):
        fn = s.fn
        if (e, c) in seen: return True
        seen.add((e, c))
        i = fn.d(fn.addr(e)[0]) if e[0] == '%' else None
        if e in ('null', 'undef', 'poison') or e[0] == '@': return True
        if i is None or fn.addr(e)[1] or fn.addr(e)[2]: return False
        if i['op'] == 'call':
            n = s.alloc_count(i, sz)
            return n is not None and n == s.lin(c)
        if i['op'] == 'phi':
            j = fn.d(fn.canon(c)) if c[0] == '%' else None
            other = dict(zip(j['in'], j['ops'])) if j is not None and j['op'] == 'phi' and j['b'] == i['b'] else None
            for o, pb in zip(i['ops'], i['in']):
                if pb not in fn.rpoidx: continue
                if not s.consistent(o, other[pb] if other else c, sz, seen): return False
            return True
        return False

    def within_edge(s, root, x, k, sz, edge, depth, st):
        """same, evaluated on a control flow edge: phis of the edge's target are replaced by their incoming value"""
        fn = s.fn
        i = fn.d(x) if x else None
        if i is not None and i['op'] == 'phi' and i['b'] == edge[1]:
            for o, pb in zip(i['ops'], i['in']):
                if pb == edge[0]:
                    b2, k2 = s.lin(o)
                    return s.within(root, b2, k + k2, sz, edge, depth, st)
        if i is not None and i['b'] == edge[1]: return False
        return s.within(root, x, k, sz, edge, depth, st)

    def within_field(s, oroot, ver, r, x, k, sz, loc, st):
        fn = s.fn
        for j, g in s.bound_loads(oroot, ver):
            if g.startswith('bit_'):
                if s.within_bits('%%%d' % j, x, k, sz, loc): return True
                continue
            d = 0 if g == 'mask' else -1
            if s.prove_le(x, '%%%d' % j, d - k, loc): return True
        # the version is created by merging or by a store: look at how the object's capacity came about
        tags = {}
        for ff in s.facts(loc):
            # value of a tag field the access is guarded by
            if ff[0] == 'le' and ff[2] is None and ff[1] is not None and ('le', None, ff[1], -ff[3], False) in s.facts(loc):
                t = fn.d(ff[1])
                if t is not None and t['op'] == 'load':
                    g = s.field(t['ops'][0])
                    if g is not None and not g.type.endswith('*') and g.name not in SIZE_FIELDS and fn.addr(t['ops'][0])[0] == oroot: tags[t['i']] = (g.name, ff[3])
        s.tags = tags
        return s.cap_before(oroot, r['b'], r['p'], x, k, sz, loc, st, 0)

    def within_bits(s, n, x, k, sz, loc, nk=0):
        """element x + k of sz bytes lies in a block of n + nk bits"""
        fn = s.fn
        sh = {1: 3, 2: 4, 4: 5, 8: 6}.get(sz)
        if sh is None: return False
        if s.divs is None:
            s.divs = []
            for i in fn.I.values():
                if i['op'] in ('lshr', 'udiv', 'ashr'):
                    c = const(i['ops'][1])
                    if c is None: continue
                    e = c if i['op'] != 'udiv' else c.bit_length() - 1 if c and not c & (c - 1) else None
                    if e is not None and 3 <= e <= 12: s.divs.append((i, e))
        for i, e in s.divs:
            if e < sh: continue
            v = fn.canon('%%%d' % i['i'])
            wb, wk = s.lin(i['ops'][0])
            # x + k <= W >> e with W <= n - 1, or x + k <= (W >> e) - 1 with W <= n
            if sz == 1 and s.prove_le(wb, n, nk - 1 - wk, loc) and s.prove_le(x, v, -k, loc): return True
            if s.prove_le(wb, n, nk - wk, loc) and s.prove_le(x, v, -1 - k, loc): return True
        return False

    def cap_before(s, oroot, b, p, x, k, sz, loc, st, depth, seen=frozenset(), nxt=None):
        """x + k < capacity of the object just before position p of block b, following the defining stores backwards"""
        fn = s.fn
        if depth > 40: return False
        key = ('cap', oroot, b, p if p < len(fn.blocks[b]) else -1, x, k, seen)
        if key in st: return True
        st = st + (key,)
        for q in range(p - 1, -1, -1):
            i = fn.blocks[b][q]
            if i['op'] == 'store':
                f = s.field(i['ops'][1])
                if f is not None and fn.addr(i['ops'][1])[0] == oroot:
                    if any(f.name == t[0] for t in seen):
                        v = const(i['ops'][0])
                        if v is not None and all(v != t[1] for t in seen if t[0] == f.name): return True     # the guard excludes this path
                        seen = frozenset(t for t in seen if t[0] != f.name)
                    if f.name in ('capacity', 'bit_capacity', 'mask', 'nTableSize') or f.name in ('size', 'bit_size', 'nNumUsed'):
                        cb, ck = s.lin(i['ops'][0])
                        if f.name.startswith('bit_'):
                            if s.within_bits(cb, x, k, sz, loc, ck): return True
                            continue
                        d = 0 if f.name == 'mask' else -1
                        if s.prove_le(x, cb, ck + d - k, loc): return True
                        if f.name not in ('size', 'bit_size', 'nNumUsed') or not s.has_cap(oroot): return False
                    elif f.type.endswith('*') and f.name != 'active_iterators':
                        # storage assigned here: bounded by the allocation it came from
                        root = fn.addr(i['ops'][0])[0]
                        rr = fn.d(root)
                        if rr is not None and rr['op'] in ('call', 'phi') and s.within(root, x, k, sz, loc, depth + 1, st): return True
                        if seen and s.excluded(oroot, b, q, seen): return True
                        if rr is not None and rr['op'] in ('call',) and fn.callee(rr) not in REALLOCS: return False
            elif i['op'] == 'load':
                if i['i'] in s.tags: seen = seen | {s.tags[i['i']]}
                f = s.field(i['ops'][0])
                if f is not None and f.name in SIZE_FIELDS and fn.addr(i['ops'][0])[0] == oroot and fn.canon('%%%d' % i['i']) == '%%%d' % i['i']:
                    d = 0 if f.name == 'mask' else -1
                    if f.name.startswith('bit_'):
                        if s.within_bits('%%%d' % i['i'], x, k, sz, loc): return True
                    elif s.prove_le(x, '%%%d' % i['i'], d - k, loc): return True
            elif i['op'] == 'call' and is_event(fn, i): return False
        preds = [q for q in fn.pred[b] if q in fn.rpoidx]
        if not preds: return False
        dead = s.dead_preds(b, nxt)
        for q in preds:
            if q in dead: continue
            # value of x on the edge
            xx, kk, l2 = x, k, loc
            i = fn.d(x) if x else None
            here = loc[0] if isinstance(loc, tuple) else loc
            if len(preds) > 1 or True:
                if i is not None and i['op'] == 'phi' and i['b'] == b:
                    for o, pb in zip(i['ops'], i['in']):
                        if pb == q: xx, k2 = s.lin(o); kk = k + k2
                    l2 = (q, b)
                elif i is None or i['b'] != b or len(preds) == 1:
                    if len(preds) > 1: l2 = (q, b)
                else:
                    return False
            if not s.cap_before(oroot, q, len(fn.blocks[q]), xx, kk, sz, l2, st, depth + 1, seen, b): return False
        return True

    def dead_preds(s, b, nxt):
        """predecessors of b from which the edge b -> nxt cannot be taken, because the branch tests a flag that is constant there"""
        fn = s.fn
        ce = cond_edges(fn, b)
        if nxt is None or not ce or ce[1] == ce[2]: return ()
        op, neg = strip_bool(fn, ce[0])
        i = fn.d(op)
        if i is None or i['op'] != 'phi' or i['b'] != b: return ()
        want = (nxt == ce[1]) != neg
        return {pb for o, pb in zip(i['ops'], i['in']) if const(o) is not None and bool(const(o)) != want}

    def excluded(s, oroot, b, p, seen):
        """every path to position p of block b set a tag field to a constant the guard of the access rules out"""
        fn = s.fn
        names = {t[0] for t in seen}
        todo = [(b, p)]; done = set()
        while todo:
            b, p = todo.pop()
            for q in range(p - 1, -1, -1):
                i = fn.blocks[b][q]
                if i['op'] == 'call' and is_event(fn, i): return False
                if i['op'] == 'store':
                    f = s.field(i['ops'][1])
                    if f is not None and f.name in names and fn.addr(i['ops'][1])[0] == oroot:
                        v = const(i['ops'][0])
                        if v is None or any(v == t[1] for t in seen if t[0] == f.name): return False
                        break
            else:
                ps = [x for x in fn.pred[b] if x in fn.rpoidx]
                if not ps: return False
                for x in ps:
                    if x not in done: done.add(x); todo.append((x, len(fn.blocks[x])))
        return True

    def has_cap(s, oroot):
        for nm in s.M.owners.get(s.fn.name, []):
            lay = s.M.classes[nm]['layout'] if nm in s.M.classes else None
            if lay and any(f.name in ('capacity', 'bit_capacity', 'mask', 'nTableSize') for f in lay.values()): return True
        return False

NEG = {'eq':'ne','ne':'eq','ult':'uge','uge':'ult','ugt':'ule','ule':'ugt','slt':'sge','sge':'slt','sgt':'sle','sle':'sgt'}
