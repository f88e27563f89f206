"""Reference balance: over every path, references taken (addref, callback results, elements removed) equal
references given away (stored, returned, released).  One counter per origin of the value:
  FR  values owned by the caller (arguments, iterators, arrays)      ST  elements of a collection
  RT  the return slot                                               NW  elements of a buffer being built
  ('c', id)  the result of one callback / iterator-key call."""
from ir import *
from flow import *
from model import obj_field, new_field
from stale import iter_slot
from own import root_kinds, copies, CONSUME, COUNTS, DTORS, ADDREFS, all_headers, loops
from own import CC
from forms import marker_edge, strip

def assumption(M, fns, fn):
    """for a function that changes the number of elements of a collection with several element forms: consider it while the elements are PHP values"""
    from forms import learn
    _, forms = learn(M, fns)
    Z = {s: m for s, v in forms.items() for m, k in v.items() if k == 'zval'}
    if not Z: return None
    vals = set(); counts = False
    for i in fn.I.values():
        if i['op'] not in ('load', 'store') or i['b'] not in fn.rpoidx: continue
        op = i['ops'][0] if i['op'] == 'load' else i['ops'][1]
        f = obj_field(M, fn, op)
        if f is None or f.struct not in Z: continue
        if f.name == 'type_tag':
            if i['op'] == 'store': return None
            vals |= {'%%%d' % i['i'], strip(fn, '%%%d' % i['i'])}
        elif i['op'] == 'store' and f.name in COUNTS: counts = True
    return (Z, vals) if counts and vals else None

FR = {'arg', 'arg*', 'frame', 'ht', 'iterdata'}
ST = {'storage', 'node', 'elem*'}
NW = {'new', 'newobj*', 'nstorage', 'new*'}
PM = {'param', 'param*'}

def zvals_per_element(M, fn, f):
    """number of zvals an element of storage field f holds; None when it depends on a type tag"""
    lay = M.layouts.get(f.struct, {})
    if any(x.name == 'type_tag' for x in lay.values()): return None
    n = None
    for x in lay.values():
        t = x.type
        if not t.endswith('*') or x.name == 'active_iterators': continue
        t = t[:-1].strip()
        k = elem_zvals(M.P, t)
        if k: n = len(k)
    return n

def elem_zvals(P, t):
    """offsets of the zvals inside an element type"""
    for pre in ('const ', 'struct '):
        if t.startswith(pre): t = t[len(pre):]
    if t in ('zval', '_zval_struct'): return [0]
    s = P.struct(t)
    if not s or s['file'].startswith('/') and t not in ('zval_pair',): return []
    return sorted({f[1] for f in s['fields'] if f[3] in ('zval', '_zval_struct') and f[4] == 'agg'})

def norm(s):
    o = set()
    for x in s:
        o.add(max(-3, min(3, x)) if isinstance(x, int) else x)
    return frozenset(o)

class Bal:
    def __init__(self, M, fn, assume=None):
        self.M = M; self.fn = fn; self.P = fn.prog; self.find = {}; self.assume = assume   # ({struct: marker}, values that are the marker)
        self.cc = {}; self.calls = {}; self.orig = {}
        for c in copies(fn):
            x = CC(); x.id = c.j['i']; x.i = c.j; x.dst = c.dst; x.src = c.src; x.val = c.val; x.ty = c.ty
            self.cc[x.id] = x
        self.vals = {x.val for x in self.cc.values()}
        self.retoff = self.P.field_off('_zend_fcall_info', 'retval')
        self.dtored = {fn.addr(i['ops'][0]) for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) in DTORS}

    def klass(self, root):
        k = root_kinds(self.M, self.fn, root)
        if not k: return 'TOP'
        if k <= {'local'}: return 'LOCAL'
        if k <= FR: return 'FR'
        if k <= ST: return 'ST'
        if k <= NW: return 'NW'
        if k <= PM: return 'PM'
        if k <= {'ret'}: return 'RT'
        if k <= {'newarr'}: return 'NA'
        return 'TOP'

    def slot(self, a):
        if a[2]: return None
        c = self.klass(a[0])
        return (a[0], a[1]) if c in ('LOCAL', 'PM') else None

    def token(self, S, a):
        """what the zval at address a may be: a set of origins ('E' = nothing that needs releasing)"""
        s = self.slot(a)
        if s is not None: return S.get(s, frozenset())
        c = self.klass(a[0])
        return frozenset([c]) if c in ('FR', 'ST', 'NW', 'RT') else frozenset(['TOP'])

    def origin(self, S, a, b, p=None):
        """as token, but an element of a new buffer that was assigned just before stands for what it was assigned from"""
        t = self.token(S, a)
        if self.klass(a[0]) != 'LOCAL':
            fn = self.fn
            if a not in self.orig: self.orig[a] = [x for x in self.cc.values() if a in (x.dst, x.src)]
            xs = [x for x in self.orig[a] if x.i['b'] == b and (p is None or x.i['p'] < p) or x.i['b'] != b and fn.dominates(x.i['b'], b)]
            if xs:
                x = max(xs, key=lambda x: (sum(fn.dominates(y.i['b'], x.i['b']) for y in xs), x.i['p']))
                if x.dst == a and x.src != a: return self.token(S, x.src)
        return t

    # --- state: (bal: tuple of (token, frozenset)), (slots), taken frozenset
    def run(self):
        fn = self.fn
        self.tests = {}
        for b in fn.rpo: self.tests[b] = self.nonref(b)
        self.inn, self.outs = forward(fn, ((), (), frozenset()), self.tr, self.join, self.edge)
        for b in fn.rpo:
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and b in self.outs: self.exit(self.outs[b], t)
        return self

    def join(self, x, y):
        if x == y: return x
        B = dict(x[0]); C = dict(y[0])
        for k in set(B) | set(C): B[k] = B.get(k, frozenset([0])) | C.get(k, frozenset([0]))
        S = dict(x[1]); T = dict(y[1])
        for k in set(S) | set(T): S[k] = S.get(k, frozenset()) | T.get(k, frozenset())
        return self.pack(B, S, x[2] & y[2])

    def pack(self, B, S, tk):
        B = {k: norm(v) for k, v in B.items() if v != frozenset([0])}
        return (tuple(sorted(B.items(), key=str)), tuple(sorted(S.items(), key=str)), tk)

    def nonref(self, b):
        """(address, successor on which it is not refcounted, is it the 'else' of an addref?)"""
        fn = self.fn
        t = test(fn, b)
        if t is None: return None
        x, k, eq, ne = t
        j = fn.d(x)
        if j is None: return None
        ld = None
        if j['op'] == 'and' and const(j['ops'][1]) in (65280, 0xff00) and k == 0: ld = fn.d(j['ops'][0]); kind = 'flag'
        elif j['op'] == 'and' and const(j['ops'][1]) == 255 and 0 <= k < 6: ld = fn.d(j['ops'][0]); kind = 'type'
        elif j['op'] == 'load' and j['ty'] == 'i8':
            a = fn.addr(j['ops'][0])
            if a[1] % 8 == 1 and k == 0: return ((a[0], a[1] - 9, a[2]), eq, self.pattern(b, eq, ne))
            if a[1] % 8 == 0 and 0 <= k < 6: return ((a[0], a[1] - 8, a[2]), eq, False)
            return None
        elif j['op'] == 'load' and j['ty'] == 'i32' and 0 <= k < 6: ld = j; kind = 'type'
        if ld is None or ld['op'] != 'load': return None
        a = fn.addr(ld['ops'][0])
        return ((a[0], a[1] - 8, a[2]), eq, kind == 'flag' and self.pattern(b, eq, ne))

    def pattern(self, b, eq, ne):
        """the refcounted side performs an addref before the two sides meet again"""
        fn = self.fn
        pd = fn.ipdom().get(b)
        seen = set(); st = [ne]
        while st:
            x = st.pop()
            if x in seen or x == pd or x == eq: continue
            seen.add(x)
            if len(seen) > 12: return False
            for i in fn.blocks[x]:
                if i['op'] == 'call' and fn.callee(i) in ADDREFS: return True
            st.extend(fn.succ[x])
        return False

    def edge(self, st, b, s):
        fn = self.fn
        if self.assume:
            ok = marker_edge(fn, b, s, self.assume[1])
            if ok is not None and not ok & set(self.assume[0].values()): return None
        B, S, tk = dict(st[0]), dict(st[1]), st[2]
        e = self.tests.get(b)
        if e and e[1] == s and fn.succ[b].count(s) == 1:
            t = self.origin(S, e[0], b)
            for q in t:
                if isinstance(q, tuple): B[q] = frozenset('N' if x == 1 else x for x in B.get(q, ())) or frozenset([0])
            if e[2] and not (t == {'NW'} and self.block_filled(e[0][0])): self.add(B, t, 1)
        if s in pending_edges(fn, b):
            for t in list(B):
                if isinstance(t, tuple): B[t] = frozenset('N' if x == 1 else x for x in B[t])
        ph = {'%%%d' % i['i'] for i in fn.blocks[s] if i['op'] == 'phi'}
        if ph: tk = frozenset(a for a in tk if a[0] not in ph and not any(v in ph for v, _ in a[2]))
        return self.pack(B, S, tk)

    def add(self, B, t, n):
        coarse = [q for q in t if isinstance(q, str) and q not in ('E', 'M')]
        if 'TOP' in coarse: 
            for q in coarse:
                if q != 'TOP': B[q] = frozenset(['N'])
            for q in t:
                if isinstance(q, tuple): B[q] = frozenset(['N'])
            return
        if len(t) == 1:
            q = next(iter(t))
            if q in ('E', 'M'): return
            B[q] = frozenset(x + n if isinstance(x, int) else x for x in B.get(q, frozenset([0])))
            return
        for q in t:
            if isinstance(q, tuple): B[q] = frozenset((x + n if x == 1 or n > 0 else x) if isinstance(x, int) else x for x in B.get(q, frozenset([0])))
        for q in coarse: B[q] = frozenset(['N'])
        return
        B[t] = frozenset(x + n if isinstance(x, int) else x for x in B.get(t, frozenset([0])))

    def bad(self, rule, i, msg): self.find.setdefault((rule, i['i']), (i, msg))

    def loopy(self, i, a):
        """is address a re-formed on every iteration of a loop around i?"""
        fn = self.fn
        hs = all_headers(fn, i['b'])
        if a[2]: hs = list(loops(fn)[1])
        if not hs: return False
        def varies(op, d=0):
            j = fn.d(op)
            if j is None or d > 8: return False
            if j['op'] == 'phi' and any(j['b'] == h for h in hs): return True
            return any(varies(o, d + 1) for o in j['ops'] if o and o[0] == '%') if j['op'] in ('add', 'sub', 'and', 'getelementptr', 'phi', 'select', 'zext', 'sext', 'trunc', 'load') else False
        return varies(a[0]) or any(varies(v) for v, _ in a[2])

    def tr(self, st, i):
        fn = self.fn; op = i['op']
        if op == 'store': return self.store(st, i)
        if op != 'call': return st
        n = fn.callee(i)
        if n == 'zend_string_addref': return st
        if n in ADDREFS:
            B, S, tk = dict(st[0]), dict(st[1]), st[2]
            if ADDREFS[n] == 'ptr':
                d = fn.d(fn.addr(i['ops'][0])[0])
                a = fn.addr(d['ops'][0]) if d is not None and d['op'] == 'load' and fn.addr(i['ops'][0])[0] in self.vals else None
            else: a = fn.addr(i['ops'][0])
            if a is not None:
                t = self.origin(S, a, i['b'], i['p'])
                if not (t == {'NW'} and self.block_filled(a[0])): self.add(B, t, 1)
            return self.pack(B, S, tk)
        if n in DTORS:
            B, S, tk = dict(st[0]), dict(st[1]), st[2]
            a = fn.addr(i['ops'][0]); s = self.slot(a)
            t = self.token(S, a)
            if not (t <= {'ST', 'NW'} and t and s is None and self.loopy(i, a)):
                self.add(B, t, -1)
                if s is not None: S[s] = frozenset(['M'])
                else: tk = tk | {a}
            return self.pack(B, S, tk)
        if n in CONSUME:
            B, S, tk = dict(st[0]), dict(st[1]), st[2]
            for q in CONSUME[n]:
                a = fn.addr(i['ops'][q]); self.add(B, self.token(S, a), -1)
                s = self.slot(a)
                if s in S: S[s] = frozenset(['M'])
            return self.pack(B, S, tk)
        if n == 'zend_call_function':
            r = fn.addr(i['ops'][0])[0]
            B, S, tk = dict(st[0]), dict(st[1]), st[2]
            for u in fn.I.values():
                if u['op'] == 'store':
                    a = fn.addr(u['ops'][1])
                    if a[0] == r and a[1] == self.retoff: self.fresh(B, S, i, fn.addr(u['ops'][0]))
            return self.pack(B, S, tk)
        if n is None and iter_slot(fn, i) == 'get_current_key':
            B, S, tk = dict(st[0]), dict(st[1]), st[2]
            self.fresh(B, S, i, fn.addr(i['ops'][1]))
            return self.pack(B, S, tk)
        if n and is_free(n):
            if self.klass(fn.addr(i['ops'][0])[0]) == 'ST': return self.vacate(st)
        if n and n.startswith('llvm.mem'):
            r = fn.addr(i['ops'][1])[0]
            if self.klass(r) == 'ST' and self.klass(fn.addr(i['ops'][0])[0]) in ('NW',): return self.vacate(st)
        return st

    def realloced(self, op, seen=()):
        fn = self.fn; r = fn.addr(op)[0]; j = fn.d(r)
        if j is None or r in seen: return False
        if j['op'] == 'call': return fn.callee(j) in REALLOCS
        if j['op'] in ('phi', 'select'): return any(self.realloced(o, seen + (r,)) for o in j['ops'] if o[0] == '%')
        return False

    def block_filled(self, root):
        """the elements of this new buffer were copied into it as a block: taking references to them afterwards is what completes the copy"""
        from heap import bases
        fn = self.fn
        def all_bases(op):
            rs = set(bases(fn, op))
            for r in list(rs):
                j = fn.d(r)
                if j is not None and j['op'] == 'load':
                    at = fn.addr(j['ops'][0])
                    for u in fn.I.values():
                        if u['op'] == 'store' and fn.addr(u['ops'][1]) == at: rs |= set(bases(fn, u['ops'][0]))
            return rs
        rs = all_bases(root)
        return any(j['op'] == 'call' and (fn.callee(j) or '').startswith(('llvm.memcpy', 'llvm.memmove')) and const(j['ops'][2]) is None and all_bases(j['ops'][0]) & rs for j in fn.I.values())

    def vacate(self, st):
        B = dict(st[0])
        if 'ST' in B: B['ST'] = frozenset(max(0, x) if isinstance(x, int) else x for x in B['ST'])
        return self.pack(B, dict(st[1]), st[2])

    def fresh(self, B, S, i, a):
        s = self.slot(a)
        if s is None: return
        t = ('c', i['i'])
        if any(x == 1 for x in B.get(t, ())): self.bad('overwritten', i, 'the result of the previous call is overwritten without being released')
        B[t] = frozenset([1]); S[s] = frozenset([t])

    def store(self, st, i):
        fn = self.fn
        x = self.cc.get(i['i'])
        if x is not None:
            B, S, tk = dict(st[0]), dict(st[1]), st[2]
            t = self.token(S, x.src)
            d = self.slot(x.dst)
            if d is not None and not (self.klass(d[0]) == 'PM' and x.dst not in self.dtored):
                S[d] = t or frozenset(['TOP'])
                if self.slot(x.src) is None: tk = tk | {x.src}
                return self.pack(B, S, tk)
            c = self.klass(x.dst[0])
            if c == 'PM': c = 'NA'
            ss = self.slot(x.src)
            if x.dst in tk and c in ('ST', 'RT') and t != {c}: 
                self.add(B, frozenset([c]), 1)
            if c in ('ST', 'NW', 'RT', 'NA'):
                if t == {c} and c in ('ST', 'NW'): pass            # a move inside the same storage
                elif t == {'NW'} and c in ('ST', 'NA'): pass
                else: self.add(B, t, -1)
                if ss is not None: S[ss] = frozenset(['M'])
            else:
                for q in t:
                    if q not in ('E', 'M', 'TOP'): B[q] = frozenset(['N'])
            tk = (tk | {x.src}) - {x.dst}
            return self.pack(B, S, tk)
        a = fn.addr(i['ops'][1])
        if i['sty'] in ('i32', 'i8'):
            base = (a[0], a[1] - 8, a[2])
            s = self.slot(base)
            if base in st[2] and self.klass(a[0]) == 'RT':
                B, S, tk = dict(st[0]), dict(st[1]), st[2]
                self.add(B, frozenset(['RT']), 1)
                return self.pack(B, S, tk - {base})
            if s is not None:
                B, S, tk = dict(st[0]), dict(st[1]), st[2]
                S[s] = frozenset(['E'])
                return self.pack(B, S, tk)
        f = obj_field(self.M, fn, i['ops'][1])
        if f is not None:
            if f.name in COUNTS and f.name != 'nNumUsed':
                v = fn.d(strip(fn, i['ops'][0]))
                dec = v is not None and (v['op'] == 'sub' and const(v['ops'][1]) == 1 or v['op'] == 'add' and const(v['ops'][1]) == -1)
                if dec:
                    k = 1 if self.assume and f.struct in self.assume[0] else zvals_per_element(self.M, fn, f)
                    B, S, tk = dict(st[0]), dict(st[1]), st[2]
                    if k: self.add(B, frozenset(['ST']), k)
                    else: B['ST'] = frozenset(['N'])
                    return self.pack(B, S, tk)
            elif f.type.endswith('*') and f.name != 'active_iterators' and not self.realloced(i['ops'][0]) and root_kinds(self.M, fn, fn.addr(i['ops'][0])[0]) <= NW | {'global', 'newarr'}: return self.vacate(st)
        return st

    def exit(self, st, t):
        fn = self.fn
        B, S = dict(st[0]), dict(st[1])
        for tok, v in B.items():
            v = {x for x in v if isinstance(x, int)}
            if not v or v == {0}: continue
            if tok == 'NW': 
                if max(v) <= 0: continue
            name = {'FR': "a value owned by the caller", 'ST': 'an element of a collection', 'RT': 'the previous return value', 'NW': 'an element of a buffer being built'}.get(tok, 'a callback result')
            if min(v) >= 0: self.bad('extra-reference', t, 'on some path a reference to %s is taken or freed up but neither stored nor released (balance %s)' % (name, sorted(v)))
            elif max(v) <= 0: self.bad('missing-reference', t, 'on some path more references to %s are given away than were taken (balance %s)' % (name, sorted(v)))
