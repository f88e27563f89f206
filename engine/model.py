"""Extracts the PHP-level class model (methods, signatures, object handlers,
iterator tables) from the module's data and from MINIT's IR."""
import re
from ir import *

T_NULL=1<<1; T_FALSE=1<<2; T_TRUE=1<<3; T_LONG=1<<4; T_DOUBLE=1<<5; T_STRING=1<<6; T_ARRAY=1<<7; T_OBJECT=1<<8
T_RESOURCE=1<<9; T_VOID=1<<14; T_STATIC=1<<15; T_NEVER=1<<17; T_CALLABLE=1<<12; T_ITERABLE=1<<13
T_BOOL=T_FALSE|T_TRUE
T_ANY=0x3fe

class Sig:
    pass

class Model:
    def __init__(self, P):
        self.P = P
        self.classes = {}      # php class -> dict
        self.functions = {}    # php function -> (fn, sig)
        self.handlers = {}     # handler global -> {slot: fn or None}
        self._tables(); self._minit(); build_layouts(self)

    def _str(self, ref):
        if ref and ref[0] == '@':
            g = self.P.globals.get(ref[1:])
            if g and isinstance(g.get('init'), dict): return g['init']['s']
        return None

    def sig(self, ref):
        g = self.P.globals.get(ref[1:])
        if not g: return None
        init = g['init']
        s = Sig()
        h = init[0]
        if isinstance(h, str): h = ['c0', ['null', 'c0'], 'null']
        s.required = int(h[0][1:]) if h[0].startswith('c') else 0
        ty = h[1] if not isinstance(h[1], str) else ['null', 'c0']
        s.ret_mask = int(ty[1][1:]) if ty[1].startswith('c') else 0
        s.ret_ptr = self._str(ty[0])
        s.args = []
        for a in init[1:]:
            if isinstance(a, str): a = ['null', ['null', 'c0'], 'null']
            t = a[1] if not isinstance(a[1], str) else ['null', 'c0']
            s.args.append((self._str(a[0]), int(t[1][1:]), self._str(t[0]), self._str(a[2])))
        s.ref = ref
        return s

    def _entries(self, init):
        for e in init:
            if isinstance(e, str): continue
            if e[0] == 'null' or not e[0].startswith('@'): continue
            yield self._str(e[0]), e[1][1:] if e[1].startswith('@') else None, self.sig(e[2]) if e[2].startswith('@') else None, int(e[3][1:]), int(e[4][1:])

    def _tables(self):
        self.tables = {}
        for n, g in self.P.globals.items():
            if 'init' not in g or not isinstance(g['init'], list): continue
            if 'struct._zend_function_entry' in g['ty']:
                self.tables[n] = list(self._entries(g['init']))

    def _minit(self):
        P = self.P
        cands = [n for n in P.names() if n.startswith('zm_startup_')]
        if 'zm_startup_teds' not in cands: raise AnalysisBroken('module startup function not found')
        fn = P.fn('zm_startup_teds'); number_memory(fn)
        hl = P.struct('_zend_object_handlers')
        hoff = {f[1]: f[0] for f in hl['fields']}
        cl = P.struct('_zend_class_entry')
        coff = {}
        for f in cl['fields']: coff.setdefault(f[1], f[0])
        coff_ga = P.field_off('_zend_class_entry', 'get_iterator')
        info_off = P.field_off('_zend_class_entry', 'info.internal.builtin_functions')
        off_create = P.field_off('_zend_class_entry', 'create_object')
        off_flags = P.field_off('_zend_class_entry', 'ce_flags')
        off_name = P.field_off('_zend_class_entry', 'name')
        byce = {}   # canonical value of ce -> class
        last_funcs = {}; last_name = {}
        cname = {}
        H = self.handlers
        # walk in rpo order (MINIT is straight line modulo error paths)
        allocaname = {}; allocafn = {}
        zs = {}
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i['op'] == 'call':
                    c = fn.callee(i)
                    if c in ('zend_string_init_interned', 'zend_string_init') or (c is None):
                        s = self._str(i['ops'][0]) if i['ops'] and i['ops'][0][0] == '@' else None
                        if s: zs['%%%d' % i['i']] = s
                    if c and c.startswith('llvm.memcpy'):
                        d = i['ops'][0]
                        if d.startswith('@teds_handler_'):
                            srcg = i['ops'][1]
                            H.setdefault(d[1:], {})
                            if srcg[1:] in H: H[d[1:]] = dict(H[srcg[1:]])
                    if c in ('zend_register_internal_class_ex', 'zend_register_internal_class', 'zend_register_internal_interface', 'zend_register_internal_enum'):
                        if c == 'zend_register_internal_enum':
                            nm = self._str(i['ops'][0]); tb = i['ops'][2] if len(i['ops'])>2 else None
                        else:
                            r = fn.addr(i['ops'][0])[0]
                            nm = last_name.get(r); tb = last_funcs.get(r)
                        k = {'name': nm, 'table': tb[1:] if tb and tb[0]=='@' else None, 'parent': i['ops'][1] if len(i['ops'])>1 else None,
                             'create': None, 'get_iterator': None, 'handlers': None, 'flags': 0, 'kind': c, 'ifaces': []}
                        byce['%%%d' % i['i']] = k
                        if nm: self.classes[nm] = k
                elif i['op'] == 'store':
                    a = fn.addr(i['ops'][1]); v = i['ops'][0]
                    if a[0].startswith('@teds_handler_') and v[0] in '@n' :
                        H.setdefault(a[0][1:], {})[hoff.get(a[1], a[1])] = v[1:] if v[0] == '@' else None
                    elif a[0].startswith('@teds_handler_') and v[0] == 'c':
                        H.setdefault(a[0][1:], {})[hoff.get(a[1], a[1])] = int(v[1:])
                    elif is_local(fn, a[0]):
                        if a[1] == info_off: last_funcs[a[0]] = v
                        if a[1] == off_name: last_name[a[0]] = zs.get(v) or zs.get(fn.canon(v))
                    else:
                        r = fn.canon(a[0])
                        k = byce.get(r)
                        if k is None:
                            j = fn.d(a[0])
                            if j is not None and j['op'] == 'load' and j['ops'][0].startswith('@teds_ce_'):
                                k = next((c for c in byce.values() if c.get('ce') == j['ops'][0][1:]), None)
                        if k is not None:
                            if a[1] == off_create and v[0] == '@': k['create'] = v[1:]
                            elif a[1] == coff_ga and v[0] == '@': k['get_iterator'] = v[1:]
                            elif a[1] == off_flags: k['flagstores'] = k.get('flagstores', 0) + 1
                        if a[0].startswith('@teds_ce_') and fn.canon(v) in byce:
                            byce[fn.canon(v)]['ce'] = a[0][1:]
        # methods
        for nm, k in self.classes.items():
            k['methods'] = {}
            for t in ([k['table']] if k['table'] else []):
                for (pn, f, sig, nargs, fl) in self.tables.get(t, []):
                    k['methods'][pn] = (f, sig, nargs, fl)
            short = nm.split('\\')[-1] if nm else None
            hg = 'teds_handler_' + short if short else None
            if hg in H: k['handlers'] = H[hg]
        for t, es in self.tables.items():
            if 'ext_functions' in t:
                for (pn, f, sig, nargs, fl) in es: self.functions[pn] = (f, sig, nargs, fl)
        # iterator tables
        self.itables = {}
        il = P.struct('_zend_object_iterator_funcs')
        names = [f[0] for f in il['fields']]
        for n, g in P.globals.items():
            if 'struct._zend_object_iterator_funcs' == g['ty'] and isinstance(g.get('init'), list):
                self.itables[n] = {a: (v[1:] if isinstance(v, str) and v[0] == '@' else None) for a, v in zip(names, g['init'])}

    def struct_of_file(self): pass

class ObjField:
    __slots__ = ('name', 'off', 'size', 'type', 'struct')
    def __init__(s, name, off, size, type, struct): s.name=name; s.off=off; s.size=size; s.type=type; s.struct=struct
    def __repr__(s): return '%s@%d' % (s.name, s.off)

def elem_size(P, t):
    t = t[:-1].strip() if t.endswith('*') else t
    for pre in ('const ', 'struct '):
        if t.startswith(pre): t = t[len(pre):]
    if t in ('zval', '_zval_struct'): return 16
    s = P.struct(t)
    return s['size'] if s else None

def stride_vote(P, M, fs, cands):
    """structurally equal structs share one IR type: pick the one whose element size matches the strides the code uses"""
    votes = {}
    for f in fs:
        if f not in P._raw: continue
        fn = P.fn(f)
        for i in fn.I.values():
            if i['op'] not in ('load', 'store'): continue
            a = fn.addr(i['ops'][0] if i['op'] == 'load' else i['ops'][1])
            d = fn.d(a[0])
            if d is None or d['op'] != 'load' or not a[2]: continue
            b = fn.addr(d['ops'][0])
            if b[1] >= 0 or b[2]: continue
            for c in cands:
                x = M.layouts[c].get(b[1])
                if x is not None and x.type.endswith('*') and a[2][0][1] == elem_size(P, x.type): votes[c] = votes.get(c, 0) + 1
        fn._addr = {}
    if not votes: return None
    return max(sorted(votes), key=votes.get)

def build_layouts(M):
    """object layouts relative to the zend_object pointer; owners of each entry point"""
    P = M.P
    M.layouts = {}      # struct name -> {off: ObjField}
    M.by_k = {}
    for n, s in P.structs.items():
        if s['file'].startswith('/'): continue
        std = [f for f in s['fields'] if f[3] == 'zend_object' and f[4] == 'agg']
        if not std or std[0][1] == 0 and len(s['fields']) < 2: continue
        if any(f[3] == 'zend_object_iterator' for f in s['fields']): continue
        K = std[0][1]
        lay = {}
        for f in s['fields']:
            if f[1] >= K or f[4] == 'agg': continue
            o = f[1] - K
            if o in lay and lay[o].size >= f[2]: continue
            lay[o] = ObjField(f[0].split('.')[-1] if 'active_iterators' not in f[0] else 'active_iterators', o, f[2], f[3], n)
        M.layouts[n] = lay
        M.by_k.setdefault((K, s['size']), []).append(n)
    # class -> layout
    for nm, k in M.classes.items():
        k['layout'] = None; k['struct'] = None
        h = k['handlers']
        if not h or not k['create'] or not h.get('offset'): continue
        K = h['offset']
        size = None
        if k['create'] in P._raw:
            f = P.fn(k['create'])
            for i in f.I.values():
                if i['op'] == 'call' and f.callee(i) == 'zend_object_alloc' and i['ops'][0][0] == 'c': size = int(i['ops'][0][1:])
        cands = M.by_k.get((K, size), []) if size else []
        if not cands: cands = [n for (kk, sz), ns in M.by_k.items() if kk == K for n in ns]
        if cands:
            # prefer the struct named most in the class' own code
            votes = {}
            fs = {k['create']} | {f for f in h.values() if isinstance(f, str)} | {m[0] for m in k['methods'].values()}
            for f in fs:
                if f not in P._raw: continue
                for L in P._raw[f]['blocks']:
                    for i in L:
                        if i['op'] == 'getelementptr' and i['src'][7:] in cands:
                            votes[i['src'][7:]] = votes.get(i['src'][7:], 0) + 1
            best = max(sorted(votes), key=votes.get) if votes else None
            # structurally equal types are merged by the linker: the debug-info name of the class' own struct decides
            low = nm.split('\\')[-1].lower()
            named = [c for c in cands if c.strip('_') in ('teds_' + low, 'teds_' + low.replace('strictmin', 'strict').replace('strictmax', 'strict'))]
            if named: best = named[0]
            elif len(cands) > 1 and stride_vote(P, M, fs, cands): best = stride_vote(P, M, fs, cands)
            elif 'heap' in low and '_teds_vector' in cands: best = '_teds_vector'
            k['struct'] = best or cands[0]
            k['layout'] = M.layouts[k['struct']]
    # owners
    M.owners = {}
    M.roles = {}
    def own(f, nm, role):
        if f and f in P._raw:
            M.owners.setdefault(f, [])
            if nm not in M.owners[f]: M.owners[f].append(nm)
            M.roles.setdefault(f, []).append((nm, role))
    for nm, k in M.classes.items():
        for pn, (f, sig, na, fl) in k['methods'].items(): own(f, nm, 'method:' + pn)
        for slot, f in (k['handlers'] or {}).items():
            if isinstance(f, str): own(f, nm, 'handler:' + slot)
        own(k['create'], nm, 'create'); own(k['get_iterator'], nm, 'get_iterator')
        k['itable'] = None
        gi = k['get_iterator']
        if gi in P._raw:
            f = P.fn(gi)
            for i in f.I.values():
                for o in i['ops']:
                    if o[0] == '@' and o[1:] in M.itables:
                        k['itable'] = o[1:]
                        for slot, g in M.itables[o[1:]].items(): own(g, nm, 'iter:' + slot)
    for pn, (f, sig, na, fl) in M.functions.items(): own(f, None, 'function:' + pn)
    for nm, k in M.classes.items():
        muts = set()
        k['immutable'] = bool(nm) and ('\\Immutable' in nm or '\\Empty' in nm)

def obj_field(M, fn, op):
    """ObjField for a field address (root is a zend_object), or None"""
    a = fn.addr(op)
    if a[1] >= 0 or a[2]: return None
    if any(s.startswith('_teds') and s.endswith('_it') for s, o in fn.structs_at(op)): return None     # reached from an iterator's list node
    for nm in M.owners.get(fn.name, []):
        k = M.classes.get(nm)
        if k and k['layout'] and a[1] in k['layout']: return k['layout'][a[1]]
    for s, o in fn.structs_at(op):
        if s in M.layouts:
            st = M.P.structs[s]
            K = next(f[1] for f in st['fields'] if f[3] == 'zend_object' and f[4] == 'agg')
            if o == -K and a[1] in M.layouts[s]: return M.layouts[s][a[1]]
    for nm in M.owners.get(fn.name, []):
        k = M.classes.get(nm)
        if k and k['layout'] and a[1] in k['layout']: return k['layout'][a[1]]
    return None

def new_field(M, fn, op):
    """ObjField for a field address inside a freshly allocated object (root is zend_object_alloc)"""
    a = fn.addr(op)
    i = fn.d(a[0])
    if a[2] or a[1] < 0 or i is None or i['op'] != 'call' or fn.callee(i) != 'zend_object_alloc' or i['ops'][0][0] != 'c': return None
    size = int(i['ops'][0][1:])
    names = [n for (kk, sz), ns in M.by_k.items() if sz == size for n in ns]
    seen = {s for s, o in fn.structs_at(op) if o == 0}
    cands = [n for n in names if n in seen] or names
    own = [M.classes[c]['struct'] for c in M.owners.get(fn.name, []) if c in M.classes]
    cands.sort(key=lambda n: n not in own)
    for n in cands:
        K = next(f[1] for f in M.P.structs[n]['fields'] if f[3] == 'zend_object' and f[4] == 'agg')
        if a[1] - K in M.layouts[n]: return M.layouts[n][a[1] - K]
    return None
