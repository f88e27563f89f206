"""Life cycle of the buffers an object keeps in its fields: when a field is overwritten the old buffer has been freed,
moved elsewhere or is known to be empty; when the object is destroyed every buffer is freed, every element released and
the object itself torn down."""
from ir import *
from flow import *
from model import obj_field, new_field
from heap import fbases, bases, counter, RELEASES
from own import DTORS, helper_releases, root_kinds
from bal import elem_zvals

CAP = ('capacity', 'nTableSize', 'mask', 'bit_capacity')

def storage_fields(M, struct):
    return [f for f in M.layouts.get(struct, {}).values() if f.type.endswith('*') and f.name != 'active_iterators']

def shrinks(M, struct):
    """can a collection of this kind lose elements while keeping its buffer?"""
    c = M.__dict__.setdefault('_shrinks', {})
    if struct not in c:
        c[struct] = False
        for nm, k in M.classes.items():
            if k.get('struct') != struct: continue
            for f, ow in M.owners.items():
                if nm not in ow: continue
                fn = M.P.fn(f)
                for i in fn.I.values():
                    if i['op'] != 'store': continue
                    v = fn.d(i['ops'][0])
                    if v is None or not (v['op'] == 'sub' or v['op'] == 'add' and (const(v['ops'][1]) or 0) < 0): continue
                    x = obj_field(M, fn, i['ops'][1])
                    if x is not None and x.name in ('size', 'nNumOfElements', 'bit_size'): c[struct] = True
    return c[struct]

def cap_fields(M, struct):
    lay = M.layouts.get(struct, {})
    c = [f for f in lay.values() if f.name in CAP]
    if c and not shrinks(M, struct): c = c + [f for f in lay.values() if f.name in ('size', 'nNumOfElements', 'bit_size')]
    return c or [f for f in lay.values() if f.name in ('size', 'nNumOfElements', 'bit_size')]

class Store:
    """state: (gone: must-set of fields that hold no buffer of their own, owed: may-set of fields whose old buffer is still to be freed)"""
    def __init__(self, M, fn, teardown=False):
        self.M = M; self.fn = fn; self.find = {}; self.teardown = teardown; self.n = 0

    def fid(self, op):
        f = obj_field(self.M, self.fn, op)
        if f is None or not f.type.endswith('*') or f.type.endswith('_node*') or f.name == 'active_iterators': return None
        a = self.fn.addr(op)
        if root_kinds(self.M, self.fn, a[0]) <= {'newobj'}: return None
        return 'F%s:%d' % (a[0], a[1])

    def run(self):
        fn = self.fn
        def join(x, y): return x if x == y else (x[0] & y[0], x[1] | y[1])
        self.inn, self.outs = forward(fn, (frozenset(), frozenset()), self.tr, join, self.edge)
        for b in fn.rpo:
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and b in self.outs:
                G, O = self.outs[b]
                for k in O:
                    self.bad('storage-leak', t, 'a buffer replaced in %s is not freed on every path' % k[1:], k)
        return self

    def bad(self, rule, i, msg, k=None): self.find.setdefault((rule, i['i'], k), (i, msg))

    def edge(self, st, b, s):
        fn = self.fn; G, O = st
        z = zero_edge(fn, b)
        if z and z[1] == s and z[2] != s:
            for op in {z[0], fn.canon(z[0])}:
                j = fn.d(op)
                if j is not None and j['op'] == 'load':
                    if j['ty'] == 'ptr':
                        k = self.fid(j['ops'][0])
                        if k:      # an uninitialised object has no buffers at all
                            ks = {k} if (obj_field(self.M, fn, j['ops'][0])).type == 'zend_object_iterator*' else self.all(k)
                            G = G | ks; O = O - ks
                    else:
                        f = obj_field(self.M, fn, j['ops'][0])
                        if f is not None and (any(f.name == c.name for c in cap_fields(self.M, f.struct)) or self.full(b, j, f)):
                            a = fn.addr(j['ops'][0])
                            ks = {'F%s:%d' % (a[0], x.off) for x in storage_fields(self.M, f.struct) if x.type != 'zend_object_iterator*'}
                            G = G | ks; O = O - ks
        # field compared with another address (the shared empty list)
        t = cond_edges(fn, b)
        if t and t[1] != t[2]:
            op, neg = strip_bool(fn, t[0]); i = fn.d(op)
            if i is not None and i['op'] == 'icmp' and i['pred'] in ('eq', 'ne'):
                x, y = i['ops']
                if x[0] == '@': x, y = y, x
                if y[0] == '@':
                    j = fn.d(fn.addr(x)[0])
                    k = self.fid(j['ops'][0]) if j is not None and j['op'] == 'load' else None
                    eq = t[1] if (i['pred'] == 'eq') != neg else t[2]
                    if k and s == eq: G = G | {k}; O = O - {k}
        return (G, O)

    def tr(self, st, i):
        fn = self.fn; G, O = st; op = i['op']
        if op == 'store':
            if i['sty'] != 'ptr': return st
            v = i['ops'][0]
            rs = fbases(self.M, fn, v)
            k = self.fid(i['ops'][1])
            mv = {r for r in rs if r[0] == 'F' and r != k}
            if mv: O = O - mv; G = G | mv if k is None else G | mv
            if k:
                self.n += 1
                if k in rs: return (G - {k}, O)
                if k not in G and k not in O: O = O | {k}
                G = G | {k} if v == 'null' or v[0] == '@' or self.static(v) else G - {k}
            return (G, O)
        if op != 'call': return st
        n = fn.callee(i)
        if n and (is_free(n) or n in REALLOCS or n in RELEASES) or n in fn.prog.cg and helper_frees(fn.prog, n):
            ks = {r for q, o in enumerate(i['ops']) if i['at'][q] == 'ptr' and o[0] in '%a' for r in fbases(self.M, fn, o) if r[0] == 'F'}
            ks |= {k for q, o in enumerate(i['ops']) if i['at'][q] == 'ptr' and o[0] in '%a' for r in bases(fn, o) for k in self.kept(r)}
            # the free may go through a derived node pointer
            if not ks and n in fn.prog.cg:
                for q, o in enumerate(i['ops']):
                    if i['at'][q] == 'ptr' and o[0] in '%a':
                        for r in bases(fn, o):
                            j = fn.d(r)
                            if j is not None and j['op'] == 'load':
                                k = self.fid(j['ops'][0])
                                if k: ks.add(k)
            if ks: return (G | ks, O - ks)
        return st

    def all(self, k):
        root = k[1:].rsplit(':', 1)[0]
        return {k} | {x for x in self.fids() if x.startswith('F%s:' % root)}

    def fids(self):
        if not hasattr(self, '_fids'):
            self._fids = set()
            for i in self.fn.I.values():
                if i['op'] in ('load', 'store') and (i.get('ty') == 'ptr' or i.get('sty') == 'ptr'):
                    k = self.fid(i['ops'][-1])
                    if k: self._fids.add(k)
        return self._fids

    def static(self, v):
        j = self.fn.d(self.fn.addr(v)[0])
        return j is not None and j['op'] == 'load' and j['ops'][0][0] == '@'

    def full(self, b, j, f):
        """the size is also known to have reached the capacity here"""
        fn = self.fn
        if f.name not in ('size', 'nNumOfElements', 'bit_size'): return False
        def cap(op):
            x = fn.d(fn.canon(op))
            g = obj_field(self.M, fn, x['ops'][0]) if x is not None and x['op'] == 'load' else None
            return g is not None and g.name in CAP
        for p in fn.rpo:
            ce = cond_edges(fn, p)
            if ce and fn.dominates(p, b):
                i = fn.d(strip_bool(fn, ce[0])[0])
                if i is not None and i['op'] == 'icmp' and any(cap(o) for o in i['ops']): return True
        return False

    def kept(self, r):
        """fields a pointer value was stored to"""
        if not hasattr(self, '_kept'):
            self._kept = {}
            for i in self.fn.I.values():
                if i['op'] == 'store' and i['sty'] == 'ptr':
                    k = self.fid(i['ops'][1])
                    if k:
                        for q in bases(self.fn, i['ops'][0]): self._kept.setdefault(q, set()).add(k)
        return self._kept.get(r, set())

def helper_frees(P, n, seen=None):
    if n not in P.cg: return False
    seen = seen or set()
    if n in seen: return False
    seen.add(n)
    return any(is_free(c) or helper_frees(P, c, seen) for c in P.cg[n]['calls'])

OBJREL = {'zend_object_release', 'zend_objects_store_del', 'rc_dtor_func'}
def held(fn, op, off):
    """the object pointer held in the value at this offset of the first argument"""
    d = fn.d(fn.canon(op)) or fn.d(op)
    return d is not None and d['op'] == 'load' and fn.addr(d['ops'][0]) == ('a0', off, ())

def must_call(fn, names, arg=None):
    """blocks ending in ret that can be reached without one of the calls"""
    hit = set()
    for i in fn.I.values():
        if i['op'] == 'call' and fn.callee(i) in names and (arg is None or arg(i)): hit.add(i['b'])
    seen = set(); st = [0]; bad = []
    while st:
        b = st.pop()
        if b in seen or b in hit: continue
        seen.add(b)
        if fn.blocks[b][-1]['op'] == 'ret': bad.append(fn.blocks[b][-1])
        st.extend(fn.succ[b])
    return bad

def step16(fn, root):
    """does the loop walk the buffer value by value?"""
    i = fn.d(root)
    return i is not None and i['op'] == 'phi' and any(fn.addr(o) == (root, 16, ()) for o in i['ops'])

def released_offsets(M, fn, fid, size):
    """offsets inside one element at which values of this field are released or moved out"""
    out = set()
    from own import copies, CONSUME
    def at(op_addr, op):
        if fid in fbases(M, fn, op):
            out.add(op_addr[1] % size)
            if size > 16 and step16(fn, op_addr[0]): out.update(range(0, size, 16))
    for i in fn.I.values():
        if i['op'] == 'call' and fn.callee(i) in DTORS: at(fn.addr(i['ops'][0]), i['ops'][0])
        if i['op'] == 'call' and fn.callee(i) in CONSUME:
            for q in CONSUME[fn.callee(i)]: at(fn.addr(i['ops'][q]), i['ops'][q])
    for c in copies(fn):
        if fid in fbases(M, fn, c.src[0]): out.add(c.src[1] % size)
    return out

def teardown(ctx, res):
    M = ctx.M; P = ctx.P
    for nm, k in sorted((n, k) for n, k in M.classes.items() if n):
        if not k['layout'] or k['kind'] == 'zend_register_internal_interface': continue
        st = storage_fields(M, k['struct'])
        f = (k['handlers'] or {}).get('free_obj')
        res.ob('teardown')
        if not st: continue
        if not isinstance(f, str) or f not in P._raw:
            res.bad('teardown', nm, nm, '%s keeps buffers but has no destruction handler' % nm); continue
        fn = ctx.fn(f, res)
        for t in must_call(fn, {'zend_object_std_dtor'}):
            res.bad('teardown', f + ':std', fn.locstr(t), '%s: a path through the destruction handler does not tear down the object itself' % nm)
        s = Store(M, fn).run()
        rets = [s.outs[b][0] for b in fn.rpo if fn.blocks[b][-1]['op'] == 'ret' and b in s.outs]
        for x in st:
            res.ob('teardown-field')
            esz = x.type[:-1].strip()
            if x.type.endswith('_node*'):
                offs = elem_zvals(P, esz)
                got = node_release(ctx, fn, res)
                if not set(offs) <= got: res.bad('teardown', '%s:%s' % (f, x.name), fn.locstr(fn.blocks[0][0]), '%s: destroying the object does not release every value of its nodes' % nm)
                continue
            key = 'Fa0:%d' % x.off
            if not rets or not all(key in g for g in rets):
                res.bad('teardown', '%s:%s' % (f, x.name), fn.locstr(fn.blocks[0][0]), '%s: on some path the destruction handler does not free %s' % (nm, x.name))
            offs = elem_zvals(P, esz)
            lay = k['layout']
            if any(y.name == 'type_tag' for y in lay.values()): offs = [0] if esz in ('zval', '_zval_struct') or k['struct'].find('lowmemory') >= 0 else []
            if offs:
                from model import elem_size
                size = elem_size(P, x.type) or 16
                if k['struct'].find('lowmemory') >= 0: size = 16
                got = released_offsets(M, fn, key, size)
                if not set(offs) <= got: res.bad('teardown', '%s:%s:values' % (f, x.name), fn.locstr(fn.blocks[0][0]), '%s: destroying the object does not release every value kept in %s' % (nm, x.name))
    for t, tab in M.itables.items():
        d = tab.get('dtor')
        if d not in P._raw: continue
        fn = ctx.fn(d, res)
        off = P.field_off('_zend_object_iterator', 'data')
        gi = {k['get_iterator'] for k in M.classes.values() if k.get('itable') == t and k['get_iterator'] in P._raw}
        if gi and not any(keeps_data(ctx.fn(g, res), off) for g in gi): continue
        res.ob('iterator-teardown')
        for r in must_call(fn, DTORS | OBJREL, lambda i: fn.addr(i['ops'][0]) == ('a0', off, ()) or fn.callee(i) in OBJREL and held(fn, i['ops'][0], off)):
            res.bad('teardown', d, fn.locstr(r), 'destroying the iterator does not release the collection it iterates over')

def keeps_data(fn, off):
    return any(i['op'] == 'store' and fn.addr(i['ops'][1])[1] == off and i['sty'] == 'ptr' and is_alloc(fn.callee(fn.d(fn.addr(i['ops'][1])[0]) or {}) or '') for i in fn.I.values() if i['op'] == 'store' and (fn.d(fn.addr(i['ops'][1])[0]) or {}).get('op') == 'call')

def node_release(ctx, fn, res):
    """element offsets released by a function and the helpers it keeps as calls (recursive tree walks)"""
    out = set(); seen = set(); work = [fn]
    while work:
        f = work.pop()
        if f.name in seen: continue
        seen.add(f.name)
        for i in f.I.values():
            if i['op'] != 'call': continue
            n = f.callee(i)
            if n in DTORS: out.add(f.addr(i['ops'][0])[1])
            elif n in ctx.P.cg and n in ctx.P._raw: work.append(ctx.fn(n, res))
    return out

def bulk(ctx, fn, res, struct_of):
    """a function that gives up a buffer of multi-value elements releases or moves every value of the element"""
    from model import elem_size
    M = ctx.M
    out = []
    seen = set()
    for i in fn.I.values():
        if i['op'] != 'call' or not is_free(fn.callee(i) or ''): continue
        for r in fbases(M, fn, i['ops'][0]):
            if r[0] != 'F' or r in seen: continue
            seen.add(r)
            f = struct_of(fn, r)
            if f is None: continue
            offs = elem_zvals(M.P, f.type[:-1].strip())
            if len(offs) < 2: continue
            got = released_offsets(M, fn, r, elem_size(M.P, f.type))
            res.ob('bulk-release')
            if got and not set(offs) <= got: out.append((i, 'frees %s after releasing only some of the values of each element' % f.name))
    return out

def field_of(M):
    def g(fn, r):
        root, off = r[1:].rsplit(':', 1)
        for i in fn.I.values():
            if i['op'] == 'load' and fn.addr(i['ops'][0])[:2] == (root, int(off)): return obj_field(M, fn, i['ops'][0])
    return g
