"""Representation markers: storage of a collection that keeps its elements in one of several forms is read and written only in the
form its marker names on that path.  The form of each marker value is learnt from the accesses made where the marker is known."""
from ir import *
from flow import *
from model import obj_field, new_field


MARKS = frozenset(range(16))

def strip(fn, op):
    while True:
        d = fn.d(op)
        if d is None or d['op'] not in ('zext', 'sext', 'trunc', 'freeze'): break
        op = d['ops'][0]
    return op if op[0] != '%' else strip1(fn, op)
def strip1(fn, op):
    q = fn.canon(op)
    d = fn.d(q) if q != op else None
    return strip(fn, q) if d is not None and d['op'] in ('zext', 'sext', 'trunc', 'freeze') else q

def marker_edge(fn, b, x, cur):
    """marker values the edge b -> x leaves, from a test of a value known to be the marker; None when it is no such test"""
    t = test(fn, b)
    if t and t[2] != t[3] and strip(fn, t[0]) in cur: return frozenset(v for v in MARKS if (v == t[1]) == (x == t[2]))
    k = fn.blocks[b][-1]
    if k['op'] == 'switch' and strip(fn, k['ops'][0]) in cur:
        ok = frozenset(const(v) for v, d in k['cases'] if d == x)
        return (MARKS - {const(v) for v, d in k['cases'] if d != x}) | ok if x == k['def'] else ok
    if t is None:
        ce = cond_edges(fn, b)
        if ce and ce[1] != ce[2]:
            op, neg = strip_bool(fn, ce[0]); i = fn.d(op)
            if i is not None and i['op'] == 'icmp' and i['pred'] not in ('eq', 'ne') and strip(fn, i['ops'][0]) in cur and const(i['ops'][1]) is not None:
                q = const(i['ops'][1]); w = (x == ce[1]) != neg
                return frozenset(v for v in MARKS if {'lt': v < q, 'le': v <= q, 'gt': v > q, 'ge': v >= q}[i['pred'][1:]] == w)
    return None
from collections import Counter

def field(M, fn, op): return obj_field(M, fn, op) or new_field(M, fn, op)

def step(fn, r):
    """constant distance a pointer phi advances by"""
    j = fn.d(r)
    if j is None or j['op'] != 'phi': return None
    out = set()
    for o in j['ops']:
        a = fn.addr(o)
        if a[0] == r and not a[2] and a[1]: out.add(abs(a[1]))
    return next(iter(out)) if len(out) == 1 else None

def form(fn, i, a):
    """'zval', 'i8', 'i16', 'i32', 'i64', 'double' or None (not told apart)"""
    ty = i['ty'] if i['op'] == 'load' else i['sty']
    w = {k for v, k in a[2]}
    if not w:
        s = step(fn, a[0])
        if s: w = {s}
    if len(w) > 1: return None
    if w == {16}: return 'zval'
    size = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'double': 8}.get(ty)
    if w: return ty if size and w == {size} else None
    if ty == 'ptr': return 'zval'
    if a[1] == 0 and size and size < 8: return ty     # eight bytes may be the value part of a zval
    return None

class Repr:
    def __init__(self, M, fn):
        self.M = M; self.fn = fn; self.acc = []
    def run(self):
        M, fn = self.M, self.fn
        objs = {}          # object root -> struct
        for i in fn.I.values():
            if i['b'] not in fn.rpoidx: continue
            op = i['ops'][0] if i['op'] == 'load' else i['ops'][1] if i['op'] == 'store' else None
            if op is None: continue
            f = field(M, fn, op)
            if f is not None and f.name == 'type_tag': objs[fn.addr(op)[0]] = f.struct
        for root, struct in objs.items(): self.one(root, struct)
        return self
    def one(self, root, struct):
        from heap import bases
        M, fn = self.M, self.fn
        mine = lambda op: fn.addr(op)[0] == root
        stor = {}          # loads of the storage pointer
        for i in fn.I.values():
            if i['op'] == 'load' and i['ty'] == 'ptr' and i['b'] in fn.rpoidx and mine(i['ops'][0]):
                f = field(M, fn, i['ops'][0])
                if f is not None and f.struct == struct and f.name.startswith('entries'): stor['%%%d' % i['i']] = i
        if not stor: return
        acc = {}
        for i in fn.I.values():
            if i['op'] not in ('load', 'store') or i['b'] not in fn.rpoidx: continue
            op = i['ops'][0] if i['op'] == 'load' else i['ops'][1]
            bs = bases(fn, op)
            cs = {fn.canon(b) if b[0] == '%' else b for b in bs}
            hit = {b for b in bs if b in stor}
            if not hit or len(bs) != len(hit): continue
            k = form(fn, i, fn.addr(op))
            if k: acc[i['i']] = (k, hit)
        if not acc: return
        # state: set of (markers, loads that are current, storage loads that belong to the current form or 'dirty')
        def tr(S, i):
            op = i['op']
            if op == 'load':
                n = '%%%d' % i['i']
                f = field(M, fn, i['ops'][0]) if mine(i['ops'][0]) else None
                if f is not None and f.name == 'type_tag': return frozenset((ms, cur | {n, strip(fn, n)}, ok, d) for ms, cur, ok, d in S)
                if n in stor: return frozenset((ms, cur, ok if d else ok | {n}, d) for ms, cur, ok, d in S)
                return S
            if op == 'store' and mine(i['ops'][1]):
                f = field(M, fn, i['ops'][1])
                if f is not None and f.name == 'type_tag':
                    k = const(i['ops'][0])
                    return frozenset((frozenset([k]) if k is not None else MARKS, frozenset([strip(fn, i['ops'][0])]) if k is None else frozenset(), frozenset(), True) for ms, cur, ok, d in S)
                if f is not None and f.name.startswith('entries'):
                    return frozenset((ms, cur, frozenset(), False) for ms, cur, ok, d in S)
                return S
            if is_event(fn, i): return frozenset([(MARKS, frozenset(), frozenset(), False)])
            return S
        def edge(S, b, x):
            out = set()
            for ms, cur, ok, d in S:
                e = marker_edge(fn, b, x, cur)
                if e is not None:
                    ms = ms & e
                    if not ms: continue
                out.add((ms, cur, ok, d))
            return frozenset(out) or None
        def join(x, y):
            u = x | y
            if len(u) > 40:
                u = frozenset([(frozenset().union(*[s[0] for s in u]), frozenset.intersection(*[s[1] for s in u]), frozenset.intersection(*[s[2] for s in u]), any(s[3] for s in u))])
            return u
        inn, outs = forward(fn, frozenset([(MARKS, frozenset(), frozenset(), False)]), tr, join, edge)
        for b in fn.rpo:
            if b not in inn: continue
            S = inn[b]
            for i in fn.blocks[b]:
                if i['i'] in acc:
                    k, hit = acc[i['i']]
                    for ms, cur, ok, d in S:
                        if not d and hit <= ok: self.acc.append((struct, i, k, ms))
                S = tr(S, i)

def learn(M, fns):
    """(accesses, {struct: {marker: form}}); a marker value used with no single form (not yet any) has none"""
    if hasattr(M, '_forms'): return M._forms
    accs = []
    for fn in fns:
        for s, i, k, ms in Repr(M, fn).run().acc: accs.append((fn, s, i, k, ms))
    vote = {}
    for fn, s, i, k, ms in accs:
        if len(ms) == 1: vote.setdefault(s, {}).setdefault(next(iter(ms)), {}).setdefault(k, set()).add((fn.name, fn.loc(i)))
    forms = {}
    for s, v in vote.items():
        for m, c in v.items():
            k = max(sorted(c), key=lambda x: len(c[x]))
            if len(c[k]) >= 4 and len(c[k]) >= 3 * (sum(map(len, c.values())) - len(c[k])): forms.setdefault(s, {})[m] = k
    M._forms = (accs, forms)
    return M._forms

def check(M, fns, res):
    accs, forms = learn(M, fns)
    for fn, s, i, k, ms in accs:
        res.ob('representation', sample=fn.name)
        other = {forms.get(s, {}).get(m) for m in ms} - {None, k}
        if other:
            res.bad('representation', '%s:%s' % (fn.src, fn.loc(i)[2]), fn.locstr(i), '%s: elements are accessed as %s on a path on which the collection may hold them as %s' % (fn.name, k, ', '.join(sorted(other))))
