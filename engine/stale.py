"""Storage-pointer typestate: Attached / Detached / Stale / Freed.

A pointer loaded out of an object's storage field is Attached to that field.
A call that may run user code turns every Attached pointer Stale (user code may
have resized, cleared or freed the storage).  Overwriting the field first
detaches the old storage: it is then privately owned and survives user code."""
from ir import *
from model import obj_field

F, D, S, X = 'attached', 'detached', 'stale', 'freed'
RANK = {D: 0, F: 1, S: 2, X: 3}

class Stale:
    def __init__(self, M, fn, free_ctx=False):
        self.M = M; self.fcache = {}
        self.fn = fn; self.reports = {}; self.inplace = {}
        self.nuse = 0; self.nevents = 0
        self.free_ctx = free_ctx
        self.itoff = fn.prog.field_off('_zend_object_iterator_funcs', 'get_current_data')

    def root_of(self, op): return self.fn.addr(op)[0]

    def field(self, op):
        if op not in self.fcache: self.fcache[op] = obj_field(self.M, self.fn, op)
        return self.fcache[op]

    def storage_field(self, op):
        f = self.field(op)
        if f is None or f.name == 'active_iterators' or not f.type.endswith('*') or f.type == 'zend_object_iterator*': return None
        return f

    def run(self):
        fn = self.fn
        inn = {0: {}}
        work = [0]
        seen = set()
        it = 0
        pend = {b: fn.rpoidx[b] for b in fn.rpo}
        import heapq
        heap = [(0, 0)]
        inq = {0}
        while heap:
            it += 1
            if it > 200000: raise AnalysisBroken('no fixpoint in ' + fn.name)
            _, b = heapq.heappop(heap); inq.discard(b)
            st = dict(inn[b])
            st = self.block(b, st)
            seen.add(b)
            for s in fn.succ[b]:
                ns = dict(st)
                # phis
                add = {}
                for i in fn.blocks[s]:
                    if i['op'] != 'phi': break
                    if i['ty'] != 'ptr': continue
                    for o, pb in zip(i['ops'], i['in']):
                        if pb == b:
                            r = self.root_of(o)
                            me = '%%%d' % i['i']
                            if r in st: add[me] = st[r]
                            elif me in ns: del ns[me]
                ns.update(add)
                if s not in inn:
                    inn[s] = ns; ch = True
                else:
                    cur = inn[s]; ch = False
                    for k, v in ns.items():
                        if k not in cur: cur[k] = v; ch = True
                        elif RANK[v[1]] > RANK[cur[k][1]]:
                            cur[k] = v; ch = True
                if ch and s not in inq:
                    heapq.heappush(heap, (fn.rpoidx[s], s)); inq.add(s)
        return self

    def use(self, st, i, op, what):
        r = self.root_of(op)
        t = st.get(r)
        if t is None: return
        self.nuse += 1
        if t[1] in (S, X):
            k = (i['i'],)
            if k not in self.reports:
                self.reports[k] = (i, what, t)

    def releases_duplicate(self, i):
        """zval_ptr_dtor of an element that a dominating stable comparison found equal to an element
        which is kept: equal means identical (same object / same string bytes / arrays of such), so the
        kept copy holds every object alive and no destructor can run"""
        fn = self.fn
        if fn.callee(i) not in ('zval_ptr_dtor', 'i_zval_ptr_dtor', 'zval_ptr_dtor_nogc'): return False
        a = fn.addr(i['ops'][0])
        for j in fn.I.values():
            if j['op'] == 'call' and fn.callee(j) == 'teds_stable_compare' and fn.dominates(j['b'], i['b']):
                if a in (fn.addr(j['ops'][0]), fn.addr(j['ops'][1])):
                    # the release must be control dependent on the comparison
                    if not fn.postdominates(i['b'], j['b']): return True
        return False

    def is_node_addr(self, op):
        return any(x[0].endswith('_node') and 'dllist' not in x[0] for x in self.fn.structs_at(op))

    def block(self, b, st):
        fn = self.fn
        for i in fn.blocks[b]:
            op = i['op']
            me = '%%%d' % i['i']
            if op == 'load':
                self.use(st, i, i['ops'][0], 'read through')
                if i['ty'] != 'ptr': continue
                a = fn.addr(i['ops'][0])
                r = fn.canon(me)
                if r != me: continue      # same value as an earlier definition
                st.pop(me, None)
                f = self.storage_field(i['ops'][0])
                if f is not None:
                    st[me] = ((a[0], a[1]), F, f.name, i, None, f.type.endswith('_node*'))
                elif a[0] in st and self.is_node_addr(i['ops'][0]):
                    t = st[a[0]]
                    st[me] = (t[0], t[1], 'node', i, t[4], True)
            elif op == 'store':
                self.use(st, i, i['ops'][1], 'write through')
                f = self.field(i['ops'][1])
                if f is None: continue
                a = fn.addr(i['ops'][1])
                if self.storage_field(i['ops'][1]) is not None:
                    vr = self.root_of(i['ops'][0])
                    for k, t in list(st.items()):
                        if t[0] == (a[0], a[1]) and k != vr and t[1] == F: st[k] = (t[0], D) + t[2:]
                    if vr[0] == '%': st[vr] = ((a[0], a[1]), F, f.name, i, None, f.type.endswith('_node*'))
                elif f.name in COUNT_FIELDS:
                    j = fn.d(i['ops'][0])
                    if j is not None and (j['op'] == 'sub' and j['ops'][1] == 'c1' or j['op'] == 'add' and j['ops'][1] == 'c-1'):
                        for k, t in list(st.items()):
                            if t[0] and t[0][0] == a[0] and t[5] and t[1] == F: st[k] = (t[0], D) + t[2:]
            elif op == 'call':
                n = fn.callee(i)
                for q, o in enumerate(i['ops']):
                    if i['at'][q] == 'ptr' and o[0] == '%':
                        if n and n.startswith('llvm.mem') and q > 1: continue
                        self.use(st, i, o, 'passed to ' + (n or 'indirect call'))
                if n and (is_free(n) or n in REALLOCS):
                    r = self.root_of(i['ops'][0])
                    t = st.get(r)
                    if t and t[0] and t[1] in (F, D) and not t[5]:
                        # other pointers into the same block go with it
                        for k, u in list(st.items()):
                            if k != r and u[0] == t[0] and u[1] == t[1] and not u[5]: st[k] = (u[0], X, u[2], u[3], i, False)
                    if r[0] == '%': st[r] = (t[0] if t else None, X, t[2] if t else 'block', i, i, False)
                if i['ty'] == 'ptr': st.pop(me, None)
                if is_event(fn, i) and not self.releases_duplicate(i):
                    self.nevents += 1
                    kind = iter_slot(fn, i)
                    if not self.free_ctx:
                        if n and i['ops'] and i['at'][0] == 'ptr':
                            r = self.root_of(i['ops'][0])
                            t = st.get(r)
                            if t and t[1] == F and 'dtor' in n: self.inplace[i['i']] = (i, t)
                        for k, t in list(st.items()):
                            if t[1] == F and not (t[2] == 'iterator element' and kind in ('get_current_key', 'valid')):
                                st[k] = (t[0], S, t[2], t[3], i, t[5])
                    if kind == 'get_current_data':
                        st[me] = (None, F, 'iterator element', i, None, False)
        return st

def iter_slot(fn, i):
    """which zend_object_iterator_funcs slot an indirect call goes through"""
    if i['op'] != 'call' or i['callee'][0] != '%': return None
    c = fn.d(i['callee'])
    if c is None or c['op'] != 'load': return None
    st = fn.structs_at(c['ops'][0])
    for s, o in st:
        if s == '_zend_object_iterator_funcs':
            off = fn.addr(c['ops'][0])[1] - o
            for f in fn.prog.struct(s)['fields']:
                if f[1] == off: return f[0]
    return None

COUNT_FIELDS = {'size', 'nNumOfElements', 'bit_size', 'nNumUsed'}
