"""Program model: loads the flattened SSA dump and offers CFG, dominance,
address normal forms and memory value numbering to the rule modules."""
import json, os, sys, functools, collections

# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        self.structs = {}; self.typedefs = {}; self.enums = {}; self.globals = {}
        self.cg = {}; self._raw = {}; self._fn = {}
        with open(path) as f:
            for line in f:
                k = line[:40]
                if '"kind":"function"' in line[-2000:] or '"kind":"function"' in line[:400]:
                    pass
                d = json.loads(line)
                kind = d['kind']
                if kind == 'struct': self.structs[d['name']] = d
                elif kind == 'typedefs': self.typedefs = d['map']
                elif kind == 'enum': self.enums[d['name']] = dict(d['v'])
                elif kind == 'global': self.globals[d['name']] = d
                elif kind == 'cg': self.cg[d['name']] = d
                elif kind == 'function': self._raw[d['name']] = d
        self.layout = {}
        for n, s in self.structs.items():
            self.layout[n] = s
        self._user = None

    def names(self): return list(self._raw)

    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = Fn(self, self._raw[name])
        return self._fn[name]

    def drop(self, name): self._fn.pop(name, None)

    def struct(self, name):
        n = name
        for _ in range(5):
            for c in (n, '_' + n, n.replace('struct.', '')):
                if c in self.structs: return self.structs[c]
            if n in self.typedefs and self.typedefs[n] != n: n = self.typedefs[n]
            else: break
        return None

    def field_off(self, struct, field):
        s = self.struct(struct)
        if not s: raise AnalysisBroken('no layout for %s' % struct)
        for f in s['fields']:
            if f[0] == field: return f[1]
        raise AnalysisBroken('no field %s.%s' % (struct, field))

    # ---- transitive "may run user code" over repo functions kept as calls
    def may_run_user(self, callee):
        if callee in self.cg:
            if self._user is None:
                self._user = {}
                def go(n, seen):
                    if n in self._user: return self._user[n]
                    if n in seen: return False
                    seen = seen | {n}
                    c = self.cg[n]
                    r = c['indirect']
                    for m in c['calls']:
                        if m in self.cg: r = r or go(m, seen)
                        else: r = r or ext_user(m)
                        if r: break
                    self._user[n] = r
                    return r
                for n in self.cg: go(n, frozenset())
            return self._user[callee]
        return ext_user(callee)

class AnalysisBroken(Exception): pass

# externals ------------------------------------------------------------
USER = {
 'zval_ptr_dtor','zval_ptr_dtor_nogc','i_zval_ptr_dtor','rc_dtor_func','zend_array_destroy','zend_array_release',
 'zend_call_function','zend_hash_clean','zend_hash_destroy','zend_hash_graceful_destroy','zend_hash_graceful_reverse_destroy','zend_iterator_dtor',
 'zend_object_release','zend_objects_store_del','zend_error','zend_compare','compare_function','zend_compare_arrays',
 'zval_get_long','zval_get_long_func','zval_get_string','zval_get_string_func','zval_get_double','array_set_zval_key','zend_hash_update','zend_hash_index_update',
 'zend_hash_index_del','zend_hash_del','spl_iterator_apply','zend_parse_arg_long','zend_parse_arg_bool','zend_parse_arg_str',
 'zend_parse_arg_func','zend_parse_parameters','zend_dval_to_lval_safe','zend_object_std_dtor','php_error_docref',
 'zend_incompatible_double_to_long_error','zend_call_known_function','zend_call_known_fcc','zend_call_method','zend_user_exception_handler',
 'zend_parse_arg_double','zend_parse_arg_number','zend_std_compare_objects','zend_call_known_instance_method','zend_fcall_info_call','call_user_function',
 'zend_symtable_update','zend_ptr_stack_clean','zval_dtor','zend_release_properties','gc_possible_root','zend_gc_collect_cycles','convert_to_long','convert_to_string','zend_class_init_statics','zend_lookup_class','zend_create_internal_iterator_iter',
 'zval_try_get_string','zval_try_get_string_func','zend_std_get_property','zend_read_property','zend_update_property','zend_llist_destroy','zval_update_constant_ex',
}
USER_PAT = ('dtor','destroy','_clean','_call_','call_function','convert_to','_update','_del')
NOUSER = {'zend_get_gc_buffer_use','zend_hash_index_find','zend_object_properties_init','object_properties_init','zend_string_release','zend_string_release_ex','zend_string_free','_efree','zend_release_fcall_info_cache','free','smart_str_free','zend_is_callable','zend_hash_add_new','zend_hash_compare','zend_new_array','zend_gc_delref','zval_delref_p','zend_class_implements','zend_hash_packed_del_val'}
def ext_user(n):
    if n in USER: return True
    if n in NOUSER or n.startswith('llvm.') or n.startswith('_efree'): return False
    return any(p in n for p in USER_PAT)

NORETURN = {'zend_error_noreturn','zend_bailout','_zend_bailout','abort','exit','zend_mm_panic'}

ALLOCS = {'_emalloc':0,'_safe_emalloc':None,'_ecalloc':None,'__zend_malloc':0,'_emalloc_large':0,'_emalloc_huge':0,'emalloc':0}
REALLOCS = {'_erealloc','_erealloc2','_safe_erealloc','_safe_realloc','erealloc'}
def is_alloc(n): return n in ALLOCS or n.startswith('_emalloc')
def is_free(n): return n == 'free' or n.startswith('_efree')

# ---------------------------------------------------------------- function
def assignments(ins, nx):
    """assignments of whole zvals and pairs of zvals, member by member"""
    out = []
    for i in ins:
        if not (i['op'] == 'call' and i['ops'][2:3] in (['c16'], ['c32']) and (i.get('callee') or '').startswith(('@llvm.memcpy', '@llvm.memmove'))): out.append(i); continue
        def new(**k):
            nonlocal nx
            d = dict(i=nx, loc=i['loc'], **k); nx += 1; out.append(d); return '%%%d' % d['i']
        def at(op, o): return new(op='getelementptr', off=o, ops=[op], src='i8', ty='ptr', var=[], n='') if o else op
        n = int(i['ops'][2][1:]); vs = []
        for o in range(0, n, 16):
            vs.append((o, new(op='load', ops=[at(i['ops'][1], o)], ty='ptr'), new(op='load', ops=[at(i['ops'][1], o + 8)], ty='i32')))
        for o, v, t in vs:
            new(op='store', ops=[v, at(i['ops'][0], o)], sty='ptr', ty='void'); new(op='store', ops=[t, at(i['ops'][0], o + 8)], sty='i32', ty='void')
    return out, nx

class Fn:
    def __init__(self, prog, raw):
        self.prog = prog; self.raw = raw
        self.name = raw['name']; self.src = raw['src']; self.file = raw['file']; self.line = raw['line']
        self.args = raw['args']
        self.blocks = []; self.I = {}
        nx = None
        for bi, ins in enumerate(raw['blocks']):
            L = []
            if any(i['op'] == 'call' and i['ops'][2:3] in (['c16'], ['c32']) and (i.get('callee') or '').startswith(('@llvm.memcpy', '@llvm.memmove')) for i in ins):
                if nx is None: nx = max(i['i'] for x in raw['blocks'] for i in x) + 1
                ins, nx = assignments(ins, nx)
            for p, i in enumerate(ins):
                i['b'] = bi; i['p'] = p
                self.I[i['i']] = i
                L.append(i)
            self.blocks.append(L)
        n = len(self.blocks)
        self.succ = []
        self.pred = [[] for _ in range(n)]
        for bi, L in enumerate(self.blocks):
            t = L[-1]
            s = list(dict.fromkeys(t.get('succ', [])))
            self.succ.append(s)
            for x in s: self.pred[x].append(bi)
        # rpo
        seen = set(); order = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); stack.pop()
        self.rpo = order[::-1]
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        self._addr = {}; self._num = {}
        self.ldvn = {}      # load id -> canonical operand
        self._idom = None; self._ipdom = None
        self._uses = None
        self.is_method = self.name.startswith(('zim_', 'zif_')) and len(self.args) == 2
        self.vnctx = None

    # --- classification
    @property
    def cls(self):
        """PHP class the method belongs to"""
        if self.name.startswith('zim_Teds_'):
            return self.name[len('zim_Teds_'):].split('_')[0]
        return None

    def loc(self, i):
        l = i.get('loc')
        if not l: return (self.file, self.line, self.src)
        return tuple(l[0])

    def locstr(self, i):
        l = i.get('loc')
        if not l: return '%s:%d' % (self.file, self.line)
        for f, n, s in l:
            if not f.startswith('/'):
                return '%s:%d (%s)' % (f, n, s)
        return '%s:%d' % (l[0][0], l[0][1])

    def d(self, op):
        """defining instruction of an operand or None"""
        if op and op[0] == '%': return self.I[int(op[1:])]
        return None

    def callee(self, i):
        c = i.get('callee')
        return c[1:] if c and c[0] == '@' else None

    def uses(self):
        if self._uses is None:
            u = collections.defaultdict(list)
            for i in self.I.values():
                for o in i['ops']:
                    if o[0] in '%a': u[o].append(i)
                if i['op'] == 'getelementptr':
                    for v, _ in i['var']:
                        if v[0] in '%a': u[v].append(i)
                c = i.get('callee')
                if c and c[0] in '%a': u[c].append(i)
            self._uses = u
        return self._uses

    # --- dominators
    def idom(self):
        if self._idom is None:
            self._idom = _dom(self.rpo, self.pred, 0)
        return self._idom

    def dominates(self, a, b):
        d = self.idom()
        while True:
            if a == b: return True
            if b not in d or d[b] is None or d[b] == b: return False
            b = d[b]

    def ipdom(self):
        """immediate postdominators, virtual exit = -1"""
        if self._ipdom is None:
            n = len(self.blocks)
            exits = [b for b in self.rpo if not self.succ[b]]
            # reverse graph
            rs = {b: list(self.pred[b]) for b in self.rpo}
            rs[-1] = exits
            rp = {b: list(self.succ[b]) for b in self.rpo}
            for e in exits: rp[e] = [-1]
            rp[-1] = []
            seen = {-1}; order = []; st = [(-1, iter(rs[-1]))]
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen and s in rs:
                        seen.add(s); st.append((s, iter(rs[s]))); break
                else:
                    order.append(b); st.pop()
            rpo = order[::-1]
            self._ipdom = _dom(rpo, rp, -1)
        return self._ipdom

    def postdominates(self, a, b):
        d = self.ipdom()
        while True:
            if a == b: return True
            if b not in d or d[b] is None or d[b] == b: return False
            b = d[b]

    # --- address normal form: (root, off, ((op, scale), ...))
    def addr(self, op):
        if op in self._addr: return self._addr[op]
        r = self._addr_raw(op)
        self._addr[op] = r
        return r

    def num(self, op):
        """one name for equal arithmetic on equal operands"""
        i = self.d(op)
        if i is None or i['op'] not in ('add', 'sub', 'mul', 'shl', 'and', 'lshr'): return op
        k = (i['op'], i['ty'], tuple(self.num(self.canon(o)) for o in i['ops']))
        if k not in self._num: self._num[k] = op
        return self._num[k]

    def _addr_raw(self, op):
        i = self.d(op)
        if i is None:
            if op[0] == '@' and '+' in op:
                g, o = op.rsplit('+', 1)
                return (g, int(o), ())
            return (op, 0, ())
        if i['op'] == 'getelementptr' and i['off'] is not None:
            root, off, var = self.addr(i['ops'][0])
            nv = tuple((self.num(self.canon(v)), s) for v, s in i['var'])
            # merge equal
            m = {}
            for v, s in var + nv: m[v] = m.get(v, 0) + s
            vs = []
            o2 = off + i['off']
            for v, s in m.items():
                if s == 0: continue
                if v[0] == 'c' and v[1:].lstrip('-').isdigit(): o2 += int(v[1:]) * s
                else: vs.append((v, s))
            return (root, o2, tuple(sorted(vs)))
        if i['op'] in ('bitcast', 'addrspacecast', 'freeze'):
            return self.addr(i['ops'][0])
        if i['op'] == 'inttoptr':
            j = self.d(i['ops'][0])
            if j and j['op'] == 'ptrtoint': return self.addr(j['ops'][0])
        return (self.canon(op), 0, ())

    # --- struct types seen while forming an address: [(struct, offset of the struct within root)]
    def structs_at(self, op):
        out = []
        for _ in range(40):
            i = self.d(op)
            if i is None: break
            if i['op'] == 'getelementptr':
                if i['src'].startswith('struct.'):
                    r, o, v = self.addr(i['ops'][0])
                    out.append((i['src'][7:], o))
                op = i['ops'][0]; continue
            if i['op'] in ('bitcast', 'freeze'): op = i['ops'][0]; continue
            break
        return out

    # --- canonical value name (through load value numbers and casts)
    def canon(self, op):
        for _ in range(64):
            i = self.d(op)
            if i is None: return op
            if i['op'] == 'load':
                v = self.ldvn.get(i['i'])
                if v is None or v == op: return op
                op = v; continue
            if i['op'] in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
                if i['op'] in ('ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
                    op = i['ops'][0]; continue
                # keep width casts but look through: callers treat as the same quantity
                op = i['ops'][0]; continue
            if i['op'] == 'phi':
                s = {o for o in i['ops'] if o != op}
                if len(s) == 1: op = s.pop(); continue
            return op
        return op

    def exits(self): return [b for b in self.rpo if not self.succ[b]]

def _dom(rpo, pred, entry):
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == entry: continue
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]: a = idom[a]
                            while idx[c] > idx[a]: c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new; ch = True
    return idom

# ---------------------------------------------------------------- memory value numbering
def is_event(fn, i):
    if i['op'] != 'call': return False
    c = i['callee']
    if c[0] == '@':
        if c == '@zval_ptr_dtor' and string_slot(fn, i['ops'][0]): return False
        return fn.prog.may_run_user(c[1:])
    return not indirect_is_quiet(fn, i)

def string_slot(fn, op):
    """a temporary of an iterator's own struct that this function refills with a string: releasing a string runs no user code"""
    if fn.is_method or not (fn.raw.get('ditypes') and len(fn.raw['ditypes']) > 1 and fn.raw['ditypes'][1] == 'zend_object_iterator*'): return False
    c = fn.__dict__.setdefault('_strslot', {})
    if op in c: return c[op]
    c[op] = False
    a = fn.addr(op)
    if a[0] != 'a0' or a[2]: return False
    def strty(o):
        if o in ('c6', 'c262'): return True
        j = fn.d(o)
        return j is not None and j['op'] in ('select', 'phi') and all(strty(x) for x in j['ops'][1 if j['op'] == 'select' else 0:])
    st = [i for i in fn.I.values() if i['op'] == 'store' and fn.addr(i['ops'][1]) == ('a0', a[1] + 8, ())]
    c[op] = bool(st) and all(strty(i['ops'][0]) for i in st)
    return c[op]

def indirect_is_quiet(fn, i):
    return False

def number_memory(fn):
    """Forward dataflow: which SSA value does each load return?  Loads from the
    call frame (execute_data) and from an iterator's pinned object are stable."""
    prog = fn.prog
    stable_roots = set()
    if fn.is_method: stable_roots.add('a0')
    OFF_DATA = prog.field_off('_zend_object_iterator', 'data')
    it_fn = (not fn.is_method and fn.raw.get('ditypes') and len(fn.raw['ditypes']) > 1
             and fn.raw['ditypes'][1] == 'zend_object_iterator*')
    esc_cache = {}
    def stable(a):
        if a[0] in stable_roots: return True
        if it_fn and a[0] == 'a0' and a[1] in (OFF_DATA,) : return True
        return False
    once = settled_locals(fn)
    def symname(a):
        return 'L(%s,%d%s)' % (a[0], a[1], ''.join(',%s*%d' % v for v in a[2]))
    for it in range(12):
        fn._addr = {}
        out = {}
        newvn = {}
        changed = False
        work = fn.rpo
        for _pass in range(2 if it else 1):
            for b in work:
                preds = [p for p in fn.pred[b] if p in out]
                if b == 0 or not preds: st = {}
                else:
                    st = dict(out[preds[0]])
                    for p in preds[1:]:
                        o = out[p]
                        for k in list(st):
                            if k not in o: del st[k]
                            elif o[k] != st[k]: del st[k]
                    if any(p not in out for p in fn.pred[b]):
                        # back edge not yet seen in the very first pass: be pessimistic
                        st = {}
                for i in fn.blocks[b]:
                    op = i['op']
                    if op == 'load':
                        a = fn.addr(i['ops'][0])
                        if stable(a):
                            newvn[i['i']] = symname(a)
                            continue
                        if a[0] in once and not a[2]:
                            newvn[i['i']] = '%%%d' % once[a[0]].setdefault((a[1], i['ty']), i['i'])
                            continue
                        k = (a, i['ty'])
                        v = st.get(k)
                        if v is not None: newvn[i['i']] = v[0]
                        else:
                            newvn[i['i']] = '%%%d' % i['i']
                            st[k] = ('%%%d' % i['i'], None)
                    elif op == 'store':
                        a = fn.addr(i['ops'][1])
                        kill_store(fn, st, a)
                        st[(a, i['sty'])] = (fn.canon(i['ops'][0]), None)
                    elif op == 'call':
                        kill_call(fn, st, i)
                out[b] = st
        if newvn == fn.ldvn: break
        fn.ldvn = newvn
    fn._addr = {}
    return fn

def settled_locals(fn):
    """locals of a scalar type that are only written (by stores or by an argument parser) before every load of them: all loads agree"""
    out = {}
    uses = fn.uses()
    for i in fn.I.values():
        if i['op'] != 'alloca' or 'i' not in i: continue
        me = '%%%d' % i['i']
        loads = []; writes = []; ok = True
        for u in uses.get(me, []):
            if u['op'] == 'load': loads.append(u)
            elif u['op'] == 'store' and u['ops'][1] == me and u['ops'][0] != me: writes.append(u)
            elif u['op'] == 'call' and (fn.callee(u) or '').startswith(('zend_parse_arg_', 'llvm.lifetime')):
                if not (fn.callee(u) or '').startswith('llvm.'): writes.append(u)
            else: ok = False
        if not ok or not loads or len(writes) != 1 or not writes: continue
        w = writes[0]
        # no load reaches the write
        seen = set(); st = []
        bad = False
        for l in loads:
            if l['b'] == w['b'] and l['p'] < w['p']: bad = True
            st += list(fn.succ[l['b']])
        while st and not bad:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            if b == w['b']: bad = True
            st += fn.succ[b]
        if not bad and all(l['b'] in fn.rpoidx and (l['b'] != w['b'] and fn.dominates(w['b'], l['b']) or l['b'] == w['b']) for l in loads): out[me] = {}
    return out

def is_local(fn, root):
    i = fn.d(root)
    return i is not None and i['op'] == 'alloca'

def kill_store(fn, st, a):
    loc = is_local(fn, a[0])
    for k in list(st):
        ka = k[0]
        if ka == a: del st[k]; continue
        kl = is_local(fn, ka[0])
        if loc or kl:
            if ka[0] == a[0] and (a[2] or ka[2] or abs(ka[1] - a[1]) < 8): del st[k]
            continue
        fa = a[1] < 0 and not a[2]; fk = ka[1] < 0 and not ka[2]
        if fa != fk: continue
        if fa:
            if ka[1] == a[1]: del st[k]
            continue
        if a[0][0] == '@' or ka[0][0] == '@':
            if a[0] == ka[0] and (a[2] or ka[2] or abs(a[1] - ka[1]) < 8): del st[k]
            continue
        if a[2] or ka[2]:
            if a[0] == ka[0] and a[2] == ka[2]:
                if abs(a[1] - ka[1]) < 8: del st[k]
            else: del st[k]
            continue
        if a[0] == ka[0]:
            if abs(a[1] - ka[1]) < 8: del st[k]
        elif abs(a[1] - ka[1]) < 8: del st[k]

READONLY_CALLS = ('zend_gc_addref','zval_addref_p','zend_string_equals','teds_stable_compare','teds_strict_hash','zend_hash_num_elements','zend_string_hash_val','zend_zval_type_name','memcmp','memchr','zend_string_addref','zend_is_true','fast_is_identical_function','zend_hash_compare')
def kill_call(fn, st, i):
    n = fn.callee(i)
    if n in READONLY_CALLS or n == 'zval_ptr_dtor' and string_slot(fn, i['ops'][0]): return
    ev = is_event(fn, i)
    mem = n and (n.startswith('llvm.mem'))
    if ev:
        for k in list(st):
            if not is_local(fn, k[0][0]): del st[k]
    # anything reachable from pointer arguments
    for q, o in enumerate(i['ops']):
        if i['at'][q] != 'ptr': continue
        a = fn.addr(o)
        if mem and q == 1: continue
        if a[0] in ('null', 'undef') : continue
        if mem:
            # whole-range write at destination
            for k in list(st):
                if k[0][0] == a[0] or (not is_local(fn, a[0]) and not is_local(fn, k[0][0]) and k[0][1] >= 0 and a[1] >= 0): del st[k]
            continue
        if n and (is_free(n) or is_alloc(n) or n in REALLOCS): continue
        for k in list(st):
            if k[0][0] == a[0] and (is_local(fn, a[0]) or a[1] >= 0 and k[0][1] >= 0): del st[k]
