"""Ownership of PHP values: which zval copies take a reference, which move one, which borrow one."""
from ir import *
from flow import *
from model import obj_field, new_field
from stale import iter_slot

PARSE_Z = ('zend_parse_arg_zval_deref', 'zend_parse_arg_zval')
DTORS = {'zval_ptr_dtor', 'zval_ptr_dtor_nogc', 'i_zval_ptr_dtor', 'zval_dtor', 'zval_ptr_dtor_str'}
ADDREFS = {'zend_gc_addref': 'ptr', 'zval_addref_p': 'zv', 'zend_string_addref': 'ptr', 'zend_gc_try_addref': 'ptr', 'zval_add_ref': 'zv'}

def root_kinds(M, fn, root, depth=0, seen=None):
    """kinds of memory an address root may denote"""
    c = fn.__dict__.setdefault('_rk', {})
    if root in c: return c[root]
    seen = seen or set()
    if root in seen or depth > 12: return set()
    seen = seen | {root}
    r = _rk(M, fn, root, depth, seen)
    if depth == 0: c[root] = r
    return r

def _rk(M, fn, root, depth, seen):
    if root[0] == '@': return {'global'}
    if root == 'null' or root == 'undef': return set()
    if root[0] == 'L':
        return {'obj'} if root.startswith('L(a0,32') else {'frame'}
    if root[0] == 'a':
        if fn.is_method: return {'frame'} if root == 'a0' else {'ret'}
        ty = (fn.raw.get('ditypes') or [None] * 9)
        k = int(root[1:]) + 1
        t = ty[k] if k < len(ty) else ''
        if t == 'zend_object*': return {'obj'}
        return {'param'}
    i = fn.d(root)
    if i is None: return {'?'}
    op = i['op']
    if op == 'alloca': return {'local'}
    if op == 'phi':
        r = set()
        for o in i['ops']:
            a = fn.addr(o)
            if a[0] == root: continue
            r |= root_kinds(M, fn, a[0], depth + 1, seen)
        return r
    if op == 'select':
        r = set()
        for o in i['ops'][1:]:
            r |= root_kinds(M, fn, fn.addr(o)[0], depth + 1, seen)
        return r
    if op == 'call':
        n = fn.callee(i)
        if n is None:
            return {'iterdata'} if iter_slot(fn, i) == 'get_current_data' else {'call'}
        if is_alloc(n) or n in ALLOCS: return {'new'}
        if n in REALLOCS: return root_kinds(M, fn, fn.addr(i['ops'][0])[0], depth + 1, seen) | {'new'}
        if n == 'zend_object_alloc': return {'newobj'}
        if n.startswith('_zend_new_array') or n == 'zend_new_pair': return {'newarr'}
        if n in ('zend_hash_index_find', 'zend_hash_get_current_data_ex', 'zend_hash_find'): return {'ht'}
        return {'call'}
    if op == 'load':
        a = fn.addr(i['ops'][0])
        f = obj_field(M, fn, i['ops'][0])
        if f is not None and f.type.endswith('*') and f.name != 'active_iterators' and f.type != 'zend_object_iterator*': 
            k = root_kinds(M, fn, a[0], depth + 1, seen)
            return {'nstorage'} if k == {'newobj'} else {'storage'}
        if is_local(fn, a[0]):
            for u in fn.uses().get(a[0], []):
                if u['op'] == 'call' and fn.callee(u) in PARSE_Z and fn.addr(u['ops'][1])[0] == a[0]: return {'arg'}
                if u['op'] == 'call' and fn.callee(u) == 'zend_parse_parameters': return {'arg'}
                if u['op'] == 'call' and fn.callee(u) in ('zend_parse_arg_array_ht', 'zend_parse_arg_iterable', 'zend_parse_arg_str'): return {'arg'}
            return {'localptr'}
        ks = root_kinds(M, fn, a[0], depth + 1, seen)
        out = set()
        for k in ks:
            if k in ('storage', 'node'): out.add('node' if any(s[0].endswith('_node') for s in fn.structs_at(i['ops'][0])) else 'elem*')
            elif k in ('frame', 'arg', 'ht', 'iterdata', 'arg*'): out.add('arg*')
            elif k in ('newarr',): out.add('newarr')
            elif k == 'new': out.add('new*')
            elif k == 'obj': out.add('obj*')
            elif k == 'newobj': out.add('newobj*')
            else: out.add(k if k.endswith('*') else k + '*')
        return out
    if op in ('add', 'sub', 'and', 'or'):
        return root_kinds(M, fn, fn.addr(i['ops'][0])[0], depth + 1, seen)
    return {'?' + op}

class Copy:
    __slots__ = ('i', 'j', 'dst', 'src', 'val', 'ty', 'addref', 'fn')

def addref_points(fn):
    """value operand (canonical) -> [call]; address tuple -> [call]"""
    if hasattr(fn, '_adr'): return fn._adr
    v = {}; a = {}
    for i in fn.I.values():
        if i['op'] != 'call': continue
        n = fn.callee(i)
        k = ADDREFS.get(n)
        if k == 'ptr': v.setdefault(fn.canon(i['ops'][0]), []).append(i)
        elif k == 'zv': a.setdefault(fn.addr(i['ops'][0]), []).append(i)
    fn._adr = (v, a)
    return fn._adr

def copies(fn):
    """all (value, type) pair copies in a function"""
    if hasattr(fn, '_copies'): return fn._copies
    out = []
    for b in fn.rpo:
        L = fn.blocks[b]
        for x in L:
            if x['op'] != 'store' or x['sty'] not in ('ptr', 'i64'): continue
            v = fn.d(x['ops'][0])
            if v is None or v['op'] != 'load': continue
            s = fn.addr(v['ops'][0])
            d = fn.addr(x['ops'][1])
            # the matching type store
            for y in L[x['p'] + 1: x['p'] + 12]:
                if y['op'] == 'store' and y['sty'] == 'i32':
                    d2 = fn.addr(y['ops'][1])
                    t = fn.d(y['ops'][0])
                    if d2[0] == d[0] and d2[2] == d[2] and d2[1] == d[1] + 8 and t is not None and t['op'] == 'load':
                        s2 = fn.addr(t['ops'][0])
                        if s2[0] == s[0] and s2[2] == s[2] and s2[1] == s[1] + 8:
                            c = Copy(); c.fn = fn; c.i = x; c.j = y; c.dst = d; c.src = s; c.val = fn.canon(x['ops'][0]); c.ty = fn.canon(y['ops'][0]); c.addref = None
                            out.append(c)
                        break
    V, A = addref_points(fn)
    for c in out:
        hits = list(V.get(c.val, [])) + list(V.get('%%%d' % fn.d(c.i['ops'][0])['i'], [])) + A.get(c.dst, []) + A.get(c.src, [])
        c.addref = hits
    fn._copies = out
    return out

CONSUME = {'zend_new_pair': (0, 1), 'zend_hash_next_index_insert': (1,), 'zend_hash_next_index_insert_new': (1,), 'zend_hash_add_new': (2,), 'zend_hash_add': (2,),
           'zend_hash_update': (2,), 'zend_hash_index_update': (2,), 'zend_hash_index_add_new': (2,), 'zend_hash_str_add': (3,), 'add_next_index_zval': (1,), 'zend_symtable_update': (2,)}
COUNTS = {'size', 'nNumOfElements', 'bit_size', 'nNumUsed'}

class CC:
    """a consuming read: from address src into an owner"""
    __slots__ = ('id', 'i', 'dst', 'src', 'val', 'ty', 'dk', 'sk')

def loops(fn):
    """block -> innermost loop header; header -> set of blocks"""
    if hasattr(fn, '_loops'): return fn._loops
    body = {}
    for b in fn.rpo:
        for s in fn.succ[b]:
            if fn.dominates(s, b):
                L = body.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in L: continue
                    L.add(x); st.extend(p for p in fn.pred[x] if p in fn.rpoidx)
    inner = {}
    for h, L in sorted(body.items(), key=lambda x: -len(x[1])):
        for b in L: inner[b] = h
    fn._loops = (inner, body)
    return fn._loops

def all_headers(fn, b):
    inner, body = loops(fn)
    return [h for h, L in body.items() if b in L]

def helper_releases(P, n, seen=None):
    """does a repo helper kept as a call destroy values?"""
    if n not in P.cg: return False
    seen = seen or set()
    if n in seen: return False
    seen.add(n)
    return any(c in DTORS or helper_releases(P, c, seen) for c in P.cg[n]['calls'])

class Own:
    OWN_DST = {'ret', 'storage', 'new', 'newobj*', 'nstorage', 'newarr', 'node', 'param', 'elem*', 'new*'}
    FOREIGN = {'arg', 'arg*', 'frame', 'ht', 'iterdata', 'param', 'param*'}

    def __init__(self, M, fn):
        self.M = M; self.fn = fn; self.P = fn.prog
        self.find = {}
        self.ncopies = 0; self.nslots = 0
        self.cc = {}
        for c in copies(fn):
            x = CC(); x.id = c.j['i']; x.i = c.j; x.dst = c.dst; x.src = c.src; x.val = c.val; x.ty = c.ty
            x.dk = root_kinds(M, fn, c.dst[0]); x.sk = root_kinds(M, fn, c.src[0])
            self.cc[x.id] = x
        for i in fn.I.values():
            if i['op'] == 'call' and fn.callee(i) in CONSUME:
                for q in CONSUME[fn.callee(i)]:
                    a = fn.addr(i['ops'][q])
                    x = CC(); x.id = (i['i'], q); x.i = i; x.dst = ('newarr', 0, ()); x.src = a; x.val = x.ty = None
                    x.dk = {'newarr'}; x.sk = root_kinds(M, fn, a[0])
                    self.cc.setdefault(('call', i['i']), []).append(x)
        self.retoff = self.P.field_off('_zend_fcall_info', 'retval')
        self.vals = {}
        for x in self.cc.values():
            if not isinstance(x, list): self.vals.setdefault(x.val, []).append(x)

    def zero_edge(self, b):
        """(type operand or address whose zval is not refcounted, successor)"""
        fn = self.fn
        t = test(fn, b)
        if t is None: return None
        x, k, eq_t, eq_f = t
        j = fn.d(x)
        if j is None: return None
        ld = None
        if j['op'] == 'and' and const(j['ops'][1]) in (65280, 0xff00): 
            ld = fn.d(j['ops'][0]); nonref = eq_t if k == 0 else None
        elif j['op'] == 'lshr': 
            ld = None; nonref = None
        elif j['op'] == 'load' and j['ty'] == 'i8':
            a = fn.addr(j['ops'][0])
            if a[1] % 8 == 1: ld = j; nonref = eq_t if k == 0 else None; return (('A', (a[0], a[1] - 9, a[2])), nonref) if nonref is not None else None
            if k < 6: return (('A', (a[0], a[1] - 8, a[2])), eq_t)
            return None
        elif j['op'] == 'and' and const(j['ops'][1]) == 255 and k < 6:
            ld = fn.d(j['ops'][0]); nonref = eq_t
        elif j['op'] == 'load' and j['ty'] == 'i32':
            ld = j; nonref = eq_t if 0 <= k < 6 else None
        if ld is None or ld['op'] != 'load' or nonref is None: return None
        a = fn.addr(ld['ops'][0])
        return (('L', (a[0], a[1] - 8, a[2]), fn.canon('%%%d' % ld['i'])), nonref)

    # ---- state: (okA must, pend may, loc may {(slot): states}, flags may set, taken must)
    def run(self):
        fn = self.fn; M = self.M
        self.edges = {}
        for b in fn.rpo: self.edges[b] = self.zero_edge(b)
        init = (frozenset(), frozenset(), (), frozenset([(False, False, False)]), frozenset())
        def join(x, y):
            if x == y: return x
            L = dict(x[2])
            for k, v in y[2]: L[k] = L.get(k, frozenset(['E'])) | v
            dx = dict(x[2]); dy = dict(y[2])
            for k in dx:
                if k not in dy: L[k] = L[k] | {'E'}
            return (x[0] & y[0], x[1] | y[1], tuple(sorted(L.items(), key=str)), x[3] | y[3], x[4] & y[4])
        # loops that release: entering their header counts as the release
        self.relhead = {}
        for i in fn.I.values():
            if i['op'] == 'call' and (fn.callee(i) in DTORS or helper_releases(self.P, fn.callee(i) or '')):
                for h in all_headers(fn, i['b']): self.relhead.setdefault(h, []).append(i)
        self.inn, self.outs = forward(fn, init, self.tr, join, self.edge)
        for b in fn.rpo:
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and b in self.outs: self.exit(self.outs[b], t)
        return self

    def edge(self, st, b, s):
        fn = self.fn
        ok, pend, loc, fl, tk = st
        e = self.edges.get(b)
        if e and e[1] == s and fn.succ[b].count(s) == 1:
            what = e[0]
            ok = ok | {what[1]}
            if what[0] == 'L':
                pend = frozenset(p for p in pend if p in self.cc and not isinstance(self.cc[p], list) and self.cc[p].ty != what[2] or isinstance(p, tuple))
            pend = self.unpend(pend, lambda y: y is not None and y.dst == what[1])
            k = (what[1][0], what[1][1])
            if not what[1][2]:
                L = dict(loc)
                if k in L: L[k] = frozenset(['E']); loc = tuple(sorted(L.items(), key=str))
        if s in pending_edges(fn, b):
            L = dict(loc); ch = False
            for k, v in L.items():
                if 'C' in v: L[k] = (v - {'C'}) | {'E'}; ch = True
            if ch: loc = tuple(sorted(L.items(), key=str))
        # phis: accounted addresses
        add = set()
        for i in fn.blocks[s]:
            if i['op'] != 'phi': break
            if i['ty'] != 'ptr': continue
            for o, pb in zip(i['ops'], i['in']):
                if pb == b and fn.addr(o) in ok: add.add(('%%%d' % i['i'], 0, ()))
        kill = {'%%%d' % i['i'] for i in fn.blocks[s] if i['op'] == 'phi'}
        if kill:
            ok = frozenset(a for a in ok if a[0] not in kill and not any(v in kill for v, _ in a[2]))
            tk = frozenset(a for a in tk if a[0] not in kill and not any(v in kill for v, _ in a[2]))
        if add: ok = ok | frozenset(add)
        if s in self.relhead: fl = frozenset((d, True, c) for d, r, c in fl)
        return (ok, pend, loc, fl, tk)

    def bad(self, rule, i, msg):
        self.find.setdefault((rule, i['i']), (i, msg))

    def slot(self, a):
        return (a[0], a[1]) if not a[2] and is_local(self.fn, a[0]) else None

    def res(self, L, s):
        """a plain copy of one local into another is an alias of the same reference"""
        for _ in range(8):
            v = L.get(s)
            if v and len(v) == 1 and next(iter(v))[0] == '=': s = next(iter(v))[1]
            else: break
        return s

    def settle(self, L, s):
        """slot s is about to be overwritten: an alias of it inherits the reference"""
        for k, v in list(L.items()):
            if k != s and ('=', s) in v and s in L: L[k] = (v - {('=', s)}) | L[s]

    def consume(self, st, x):
        """a value is copied (without its own addref) from x.src to x.dst"""
        fn = self.fn
        ok, pend, loc, fl, tk = st
        L = dict(loc)
        acc = x.src in ok
        if acc: ok = ok - {x.src}
        s = self.slot(x.src); d = self.slot(x.dst) if x.dst[0] != 'newarr' else None
        if not acc:
            if s is not None:
                s = self.res(L, s)
                if L.get(s, frozenset()) and d is None:
                    if L[s] == frozenset(['M']): self.bad('double-use', x.i, 'a value that was already released or moved is stored again')
                    L[s] = frozenset(['M'])
                elif d is not None and s in L and s != d:
                    self.settle(L, d); L[d] = frozenset([('=', s)])
            elif ('COUNT', 0, ()) not in tk or not x.sk & {'storage', 'node', 'nstorage', 'newobj*', 'elem*'}:
                pend = pend | {x.id}
        if d is not None and acc: self.settle(L, d); L[d] = frozenset([('O', x.id)])
        elif d is not None and s is None:
            self.settle(L, d); L[d] = frozenset([('B', x.id)])
        tk = tk | {x.src}
        return (ok, pend, tuple(sorted(L.items(), key=str)), fl, tk)

    def unpend(self, pend, pred):
        return frozenset(p for p in pend if not pred(self.byid(p)))
    def rel(self, fl, before, after):
        return frozenset((d, True, c) for d, r, c in fl) if len(after) < len(before) else fl
    def byid(self, p):
        x = self.cc.get(p)
        if x is None and isinstance(p, tuple):
            for y in self.cc[('call', p[0])]:
                if y.id == p: return y
        return x

    def tr(self, st, i):
        fn = self.fn; op = i['op']
        if op == 'load' or op == 'call' and i['ty'] == 'ptr':
            me = '%%%d' % i['i']
            if any(a[0] == me for a in st[0]): st = (frozenset(a for a in st[0] if a[0] != me),) + st[1:]
        if op == 'store': return self.store(st, i)
        if op == 'call': return self.call(st, i)
        return st

    def store(self, st, i):
        fn = self.fn
        ok, pend, loc, fl, tk = st
        a = fn.addr(i['ops'][1])
        x = self.cc.get(i['i'])
        if x is not None:
            # overwritten slot: earlier moves out of it are now complete
            pend = self.unpend(pend, lambda y: y is not None and y.src == x.dst)
            st = self.consume((ok - {x.dst}, pend, loc, fl, tk), x)
            ok, pend, loc, fl, tk = st
            # addref of the destination may come after the copy
            return st
        # type-only store
        if i['sty'] in ('i32', 'i8'):
            base = (a[0], a[1] - 8, a[2])
            pend = self.unpend(pend, lambda y: y is not None and y.src == base)
            s = self.slot(base)
            if s is not None:
                L = dict(loc)
                k = const(i['ops'][0])
                if s in L: self.settle(L, s)
                if k is not None and (k & 0xff) < 6: L[s] = frozenset(['E']); loc = tuple(sorted(L.items(), key=str))
                elif s in L: del L[s]; loc = tuple(sorted(L.items(), key=str))
        f = obj_field(self.M, fn, i['ops'][1]) or new_field(self.M, fn, i['ops'][1])
        if f is not None:
            if f.name in COUNTS:
                v = fn.d(i['ops'][0])
                dec = v is not None and (v['op'] == 'sub' or v['op'] == 'add' and (const(v['ops'][1]) or 0) < 0)
                inc = v is not None and not dec
                if const(i['ops'][0]) == 0: dec = True
                pend = self.unpend(pend, lambda y: y is not None and y.sk & {'storage', 'node', 'elem*', 'nstorage', 'newobj*', 'new'})
                fl = frozenset((d or dec, r, c or inc) for d, r, c in fl)
                fl = self.rel(fl, st[1], pend)
                tk = tk | {('COUNT', 0, ())}
            elif f.type.endswith('*') and f.name != 'active_iterators':
                pend = self.unpend(pend, lambda y: y is not None and y.sk & {'storage', 'node', 'elem*', 'nstorage', 'newobj*', 'new'})
        if any(s0[0].endswith('_node') for s0 in fn.structs_at(i['ops'][1])) and i['sty'] == 'ptr':
            pass
        return (ok, pend, loc, fl, tk)

    def call(self, st, i):
        fn = self.fn
        ok, pend, loc, fl, tk = st
        n = fn.callee(i)
        if n in ADDREFS:
            if ADDREFS[n] == 'ptr':
                v = fn.addr(i['ops'][0])[0]
                hit = [y for y in self.vals.get(v, []) if y.id in pend]
                pend = pend - {y.id for y in hit}
                L = dict(loc)
                for y in hit:
                    s = self.slot(y.dst)
                    if s is not None: L[s] = frozenset([('O', y.id)])
                loc = tuple(sorted(L.items(), key=str))
                d = fn.d(v)
                if d is not None and d['op'] == 'load' and not hit: ok = ok | {fn.addr(d['ops'][0])}
            else:
                a = fn.addr(i['ops'][0])
                hit = [p for p in pend if self.byid(p) is not None and (self.byid(p).dst == a or self.byid(p).src == a)]
                if hit:
                    L = dict(loc)
                    for p in hit:
                        s = self.slot(self.byid(p).dst)
                        if s is not None: L[s] = frozenset([('O', p)])
                    loc = tuple(sorted(L.items(), key=str))
                    pend = pend - set(hit)
                else: ok = ok | {a}
            return (ok, pend, loc, fl, tk)
        if ('call', i['i']) in self.cc:
            for x in self.cc[('call', i['i'])]: st = self.consume(st, x)
            return st
        if n in DTORS:
            a = fn.addr(i['ops'][0])
            fl = frozenset((d, True, c) for d, r, c in fl)
            s = self.slot(a)
            if s is not None:
                L = dict(loc)
                s = self.res(L, s)
                v = L.get(s)
                if v and v <= {'M'}: self.bad('double-release', i, 'releases a value whose reference was already released or handed over')
                for q in v or ():
                    if isinstance(q, tuple) and q[0] == 'B' and q[1] in pend:
                        x = self.byid(q[1])
                        if x.sk & self.FOREIGN and not x.sk & {'storage', 'node'}: self.bad('release-borrowed', i, 'releases a reference that belongs to the caller (copied at %s without adding one)' % fn.locstr(x.i))
                        # a move out of storage: the slot must be vacated; mark as owned move
                        pend = pend - {q[1]} | {('M', q[1])} if False else pend
                L[s] = frozenset(['M']); 
                loc = tuple(sorted(L.items(), key=str))
                self.released = getattr(self, 'released', set()) | {q[1] for q in (v or ()) if isinstance(q, tuple)}
            else:
                L = dict(loc)
                for k, v in L.items():
                    if any(q[0] == 'O' and self.byid(q[1]).src == a for q in v): L[k] = frozenset(['M'])
                loc = tuple(sorted(L.items(), key=str))
            return (ok, pend, loc, fl, tk | {a})
        if n and n.startswith(('llvm.memmove', 'llvm.memcpy')):
            r = fn.addr(i['ops'][0])[0]; r2 = fn.addr(i['ops'][1])[0]
            pend = self.unpend(pend, lambda y: y is not None and y.src[0] in (r,))
            k2 = root_kinds(self.M, fn, r2)
            if k2 & {'storage', 'node'} and not root_kinds(self.M, fn, r) & {'storage'}: fl = frozenset((d, True, c) for d, rr, c in fl)
            return (ok, pend, loc, fl, tk)
        if n and (is_free(n) or n in REALLOCS):
            r = fn.addr(i['ops'][0])[0]
            pend = self.unpend(pend, lambda y: y is not None and y.src[0] == r)
            return (ok, pend, loc, fl, tk)
        if n == 'zend_call_function':
            r = fn.addr(i['ops'][0])[0]
            L = dict(loc)
            for u in fn.I.values():
                if u['op'] == 'store':
                    a = fn.addr(u['ops'][1])
                    if a[0] == r and a[1] == self.retoff:
                        s = self.slot(fn.addr(u['ops'][0]))
                        if s is not None:
                            if any(q == 'C' or q[0] == 'O' for q in L.get(s, ())) and not any(('=', s) in v for v in L.values()): self.bad('overwritten', i, 'a callback result overwrites a value that was not released')
                            self.settle(L, s); L[s] = frozenset(['C'])
            return (ok, pend, tuple(sorted(L.items(), key=str)), fl, tk)
        if n is None and iter_slot(fn, i) == 'get_current_key':
            s = self.slot(fn.addr(i['ops'][1]))
            if s is not None:
                L = dict(loc)
                if any(q == 'C' or q[0] == 'O' for q in L.get(s, ())) and not any(('=', s) in v for v in L.values()): self.bad('overwritten', i, 'an iterator key overwrites a value that was not released')
                self.settle(L, s); L[s] = frozenset(['C']); loc = tuple(sorted(L.items(), key=str))
            return (ok, pend, loc, fl, tk)
        if n and helper_releases(self.P, n):
            fl = frozenset((d, True, c) for d, r, c in fl)
        return (ok, pend, loc, fl, tk)

    def exit(self, st, t):
        fn = self.fn
        ok, pend, loc, fl, tk = st
        for k, v in loc:
            if any(q == 'C' or q[0] == 'O' for q in v):
                self.bad('leak', t, 'the value held by a local (%s) is neither released nor handed over' % (fn.I[int(k[0][1:])].get('name') or '?'))
        for p in pend:
            x = self.byid(p)
            if x is None: continue
            if x.dk & self.OWN_DST and 'local' not in x.dk:
                if x.sk & self.FOREIGN and not x.sk & {'storage', 'new', 'node', 'newobj*', 'newarr'}:
                    self.bad('missing-addref', x.i, 'stores a value owned by the caller (%s) without taking a reference' % '/'.join(sorted(x.sk)))
                elif x.sk & {'storage', 'node', 'nstorage', 'newobj*', 'elem*'} and x.src[0] != x.dst[0]:
                    self.bad('shared-reference', x.i, 'copies an element out of a collection without taking a reference or removing it')
            elif 'local' in x.dk and p in getattr(self, 'released', ()):
                if x.sk & {'storage', 'node'}: self.bad('released-in-place', x.i, 'releases an element that stays in the collection')
