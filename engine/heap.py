"""Owned heap blocks (buffers, arrays, strings, iterators): every block a function acquires is stored, returned or
released on every path; a buffer is not freed while it still holds references."""
from ir import *
from flow import *
from model import obj_field, new_field
from stale import iter_slot
from own import root_kinds, copies, CONSUME, DTORS, loops, all_headers
from bal import elem_zvals, ST, NW

ARRAYS = ('_zend_new_array', 'zend_array_dup', 'zend_new_pair', 'zend_array_to_list')
STRINGS = {'zend_string_alloc', 'zend_string_init', 'zend_string_safe_alloc', 'zval_get_string', 'zval_get_string_func', 'zend_long_to_str', 'smart_str_extract', 'zend_string_concat2', 'zend_string_concat3', 'zend_strpprintf', 'zend_string_realloc', 'zend_string_extend', 'zend_string_init_fast'}
RELEASES = {'zend_array_destroy', 'zend_array_release', 'zend_string_release', 'zend_string_release_ex', 'zend_string_free', 'zend_string_efree', 'zend_iterator_dtor', 'zend_object_release', 'zend_hash_destroy', 'rc_dtor_func', 'zend_release_properties', 'zend_tmp_string_release'}

def is_get_iterator(fn, i):
    """an indirect call through class_entry->get_iterator"""
    if i['op'] != 'call' or i['callee'][0] != '%': return False
    j = fn.d(i['callee'])
    if j is None or j['op'] != 'load': return False
    return fn.addr(j['ops'][0])[1] == fn.prog.field_off('_zend_class_entry', 'get_iterator') and len(i['ops']) == 3

def acquire(fn, i):
    if i['op'] != 'call': return None
    n = fn.callee(i)
    if n is None: return 'iterator' if is_get_iterator(fn, i) else None
    if is_alloc(n) or n in ALLOCS or n in ('_safe_malloc', '_ecalloc', '_safe_emalloc'): return 'buffer'
    if n in REALLOCS: return 'buffer'
    if n.startswith(ARRAYS): return 'array'
    if n in STRINGS: return 'string'
    return None

def bases(fn, op, seen=None):
    """non-phi roots an address may derive from"""
    c = fn.__dict__.setdefault('_bases', {})
    top = seen is None
    if top and op in c: return c[op]
    seen = seen if seen is not None else set()
    r = fn.addr(op)[0]
    out = set()
    if r not in seen:
        seen.add(r)
        j = fn.d(r)
        if j is not None and j['op'] == 'phi':
            for o in j['ops']: out |= bases(fn, o, seen)
        elif j is not None and j['op'] == 'select':
            for o in j['ops'][1:]: out |= bases(fn, o, seen)
        elif r not in ('null', 'undef', 'poison'): out = {r}
    if top: c[op] = frozenset(out)
    return out

class NOF: type = '_node*'
def fbases(M, fn, op):
    """bases, with a storage pointer named by the field it is kept in (it is reloaded again and again)"""
    c = fn.__dict__.setdefault('_fbases', {})
    if op in c: return c[op]
    out = set()
    for r in bases(fn, op):
        j = fn.d(r)
        if j is not None and j['op'] == 'load' and not (obj_field(M, fn, j['ops'][0]) or NOF).type.endswith('_node*'):
            a = fn.addr(j['ops'][0]); out.add('F%s:%d' % (a[0], a[1]))
        else: out.add(r)
    c[op] = frozenset(out)
    return c[op]

COUNT = {'size', 'nNumOfElements', 'bit_size', 'nNumUsed', 'capacity', 'nTableSize', 'bit_capacity'}
def counter(M, fn, op, d=0, seen=None):
    """is this an element count: a size or capacity field, an array's element count, or a local counter?"""
    seen = seen if seen is not None else set()
    if op in seen or d > 8: return False
    seen.add(op)
    j = fn.d(op)
    if j is None: return False
    if j['op'] in ('zext', 'sext', 'trunc', 'freeze'): return counter(M, fn, j['ops'][0], d + 1, seen)
    if j['op'] == 'load':
        if j['ty'] == 'ptr': return False
        f = obj_field(M, fn, j['ops'][0]) or new_field(M, fn, j['ops'][0])
        if f is not None: return f.name in COUNT
        return any(s == '_zend_array' for s, o in fn.structs_at(j['ops'][0]))
    if j['op'] == 'phi': return j['ty'] in ('i32', 'i64') and any(const(o) == 0 or counter(M, fn, o, d + 1, seen) for o in j['ops'])
    if j['op'] in ('add', 'sub'): return counter(M, fn, j['ops'][0], d + 1, seen)
    return False

def zero_guarded(M, fn, b):
    """block b is only reached when some element count is zero"""
    for p in fn.rpo:
        t = zero_edge(fn, p)
        if t and t[1] != t[2] and fn.dominates(t[1], b) and len(fn.pred[t[1]]) == 1 and counter(M, fn, t[0]): return True
    return False

class Heap:
    def __init__(self, M, fn):
        self.M = M; self.fn = fn; self.find = {}
        self.acq = {}
        for i in fn.I.values():
            k = acquire(fn, i)
            if k: self.acq['%%%d' % i['i']] = k
        self.nfree = 0
        # element bookkeeping: blocks whose element loops touch a base
        self.relhead = {}
        for i in fn.I.values():
            if i['op'] == 'call' and fn.callee(i) in DTORS:
                for r in fbases(self.M, fn, i['ops'][0]):
                    for h in all_headers(fn, i['b']): self.relhead.setdefault(h, set()).add(r)
        self.dtorhead = {h: set(v) for h, v in self.relhead.items()}
        for v in self.dtorhead.values():
            for r in list(v):
                j = fn.d(r) if r[0] == '%' else None
                if j is not None and j['op'] == 'load': v |= set(bases(fn, j['ops'][0]))
        self.cp = {}
        for x in copies(fn):
            self.cp[x.j['i']] = x
            for r in fbases(self.M, fn, x.src[0]):
                for h in all_headers(fn, x.j['b']): self.relhead.setdefault(h, set()).add(r)
        for i in fn.I.values():
            if i['op'] == 'call' and fn.callee(i) in CONSUME:
                for q in CONSUME[fn.callee(i)]:
                    for r in fbases(self.M, fn, i['ops'][q]):
                        for h in all_headers(fn, i['b']): self.relhead.setdefault(h, set()).add(r)

        self.lazy = set()
        self.fids = set()
        for i in fn.I.values():
            if i['op'] == 'call' and (is_free(fn.callee(i) or '')): self.fids |= {r for r in fbases(self.M, fn, i['ops'][0]) if r[0] == 'F'}
        for i in fn.I.values():
            if i['op'] == 'phi' and i['ty'] == 'ptr' and any(o == 'null' or o[0] == '@' for o in i['ops']): self.lazy |= {r for r in bases(fn, '%%%d' % i['i']) if self.acq.get(r) == 'buffer'}

    def last_event(self, b):
        """the call the exception test ending block b looks at, when there is only one"""
        fn = self.fn; n = 0
        i = len(fn.blocks[b]) - 1
        while n < 8:
            for x in reversed(fn.blocks[b][:i + 1]):
                if is_event(fn, x): return x if is_get_iterator(fn, x) else None
            if len(fn.pred[b]) != 1: return None
            b = fn.pred[b][0]; i = len(fn.blocks[b]) - 1; n += 1
        return None

    def countdown(self, b, s, v):
        """roots whose elements a loop that counts the tested value down releases, where this edge leaves it:
        how many there were is not known"""
        fn = self.fn
        for h in all_headers(fn, b):
            L = loops(fn); L = L[1] if isinstance(L, tuple) else L
            if s in L[h]: continue
            seen = set(); st = [v]
            while st:
                q = fn.canon(st.pop()); j = fn.d(q)
                if j is None or q in seen: continue
                seen.add(q)
                if j['op'] == 'phi' and j['b'] == h:
                    return self.dtorhead.get(h, set())
                if j['op'] in ('add', 'sub', 'phi', 'zext', 'trunc'): st += [o for o in j['ops'] if o[0] == '%']
        return set()

    # state: (owned: may-set of roots, filled: may-set of roots, cleared: must-set of roots)
    def run(self):
        fn = self.fn
        def join(x, y): return x if x == y else (x[0] | y[0], x[1] | y[1], x[2] & y[2])
        self.inn, self.outs = forward(fn, (frozenset(), frozenset(), frozenset()), self.tr, join, self.edge)
        for b in fn.rpo:
            t = fn.blocks[b][-1]
            if t['op'] == 'ret' and b in self.outs:
                O = self.outs[b][0]
                if t['ops']: O = O - bases(fn, t['ops'][0])
                for r in O:
                    i = fn.d(r)
                    self.bad('%s-leak' % self.acq[r], i, 'the %s obtained here is not stored, returned or released on every path' % self.acq[r])
        return self

    def bad(self, rule, i, msg): self.find.setdefault((rule, i['i']), (i, msg))

    def edge(self, st, b, s):
        fn = self.fn
        O, F, C = st
        t = test(fn, b)
        if t and t[1] == 0 and t[2] == s and t[3] != s:
            rs = bases(fn, t[0])
            if rs and t[0][0] == '%' and (fn.d(t[0]) or {}).get('ty') == 'ptr': O = O - rs
        z = zero_edge(fn, b)
        if z and z[1] == s and z[2] != s and counter(self.M, fn, z[0]):
            # nothing was put into it: a buffer allocated together with its first element does not exist
            O = O - (self.lazy - self.countdown(b, s, z[0]))
            j = fn.d(fn.canon(z[0]))
            if j is not None and j['op'] == 'add' and 0 < (const(j['ops'][1]) or 0) < 1 << 16: O = O - O   # one more than a count is not zero
            if j is not None and j['op'] == 'load':
                a = fn.addr(j['ops'][0])[0]
                C = C | {k for k in self.fids if k.startswith('F%s:' % a)}
        e = exception_edge(fn, b)
        if e and e[0] == s and e[1] != s:
            k = self.last_event(b)
            if k is not None: O = O - {'%%%d' % k['i']}
        if s in self.relhead:
            F = F - self.relhead[s]; C = C | self.relhead[s]
        return (O, F, C)

    def tr(self, st, i):
        fn = self.fn; op = i['op']
        O, F, C = st
        me = '%%%d' % i['i']
        if op == 'load':
            if me in C or me in F: return (O, F - {me}, C - {me})
            return st
        if op == 'store':
            v = i['ops'][0]
            if i['sty'] == 'ptr' and v[0] in '%a':
                rs = bases(fn, v)
                # where a callback puts its result says nothing about who owns the buffer
                if not any(t == '_zend_fcall_info' for t, o in fn.structs_at(i['ops'][1])): O = O - rs
                if obj_field(self.M, fn, i['ops'][1]) is not None:
                    a = fn.addr(i['ops'][1]); k = 'F%s:%d' % (a[0], a[1])
                    F = F - {k}; C = C - {k}
                if obj_field(self.M, fn, i['ops'][1]) or new_field(self.M, fn, i['ops'][1]): F = F - rs
            x = self.cp.get(i['i'])
            if x is not None:
                sb = fbases(self.M, fn, x.src[0]); db = fbases(self.M, fn, x.dst[0])
                if sb != db: F = F - sb; C = C | sb
                if root_kinds(self.M, fn, x.dst[0]) <= {'new'}: F = F | db
            return (O, F, C)
        if op == 'insertvalue':
            return (O - {r for o in i['ops'] if o[0] == '%' for r in bases(fn, o)}, F, C)
        if op != 'call': return st
        n = fn.callee(i)
        if n in DTORS:
            rs = fbases(self.M, fn, i['ops'][0])
            return (O, F - rs, C | rs)
        if n in CONSUME:
            for q in CONSUME[n]:
                rs = fbases(self.M, fn, i['ops'][q]); F = F - rs; C = C | rs
                O = O - rs
            st = (O, F, C)
        if n and is_free(n):
            rs = fbases(self.M, fn, i['ops'][0])
            self.nfree += 1
            for r in rs:
                if zero_guarded(self.M, fn, i['b']): continue
                k = ST if r[0] == 'F' else root_kinds(self.M, fn, r)
                if k & {'new'} and r in F:
                    self.bad('freed-with-elements', i, 'frees a buffer that still holds references to values')
                elif k <= ST and k and r not in C and self.holds_zvals(r):
                    self.bad('freed-with-elements', i, "frees a collection's storage without releasing or moving its elements")
            return (O - rs, F - rs, C)
        if n in ('zend_string_extend', 'zend_string_realloc'): return ((O - fbases(self.M, fn, i['ops'][0])) | {me}, F, C)
        if n and n in REALLOCS:
            rs = fbases(self.M, fn, i['ops'][0])
            o2 = {me}
            f2 = {me} if rs & F else set()
            return ((O - rs) | o2, (F - rs) | f2, C | {me} if rs & C else C)
        if n in RELEASES:
            rs = fbases(self.M, fn, i['ops'][0])
            return (O - rs, F - rs, C)
        if n and n.startswith(('llvm.memcpy', 'llvm.memmove')):
            d = fbases(self.M, fn, i['ops'][0]); s = fbases(self.M, fn, i['ops'][1])
            if d != s: F = (F - s); C = C | s
            return (O, F, C)
        k = self.acq.get(me)
        if k: return (O | {me}, F - {me}, C - {me})
        if n and n in fn.prog.cg:
            # helpers kept as calls (recursive): they may take over a node or array
            rs = {r for q, o in enumerate(i['ops']) if i['at'][q] == 'ptr' and o[0] == '%' for r in bases(fn, o)}
            return (O - rs, F - rs, C | rs)
        return st

    def holds_zvals(self, r):
        fn = self.fn
        if r[0] == 'F':
            root, off = r[1:].rsplit(':', 1)
            j = next(i for i in fn.I.values() if i['op'] == 'load' and fn.addr(i['ops'][0])[:2] == (root, int(off)))
        else: j = fn.d(r)
        while j is not None and j['op'] == 'load':
            f = obj_field(self.M, fn, j['ops'][0]) or new_field(self.M, fn, j['ops'][0])
            if f is not None:
                if any(x.name == 'type_tag' for x in self.M.layouts.get(f.struct, {}).values()): return False
                t = f.type
                return bool(elem_zvals(self.M.P, t[:-1].strip())) if t.endswith('*') else False
            j = fn.d(fn.addr(j['ops'][0])[0])
        return False
