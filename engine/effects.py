"""What an entry point writes: fields of an existing collection, its element storage, its tree nodes.
Writes to a freshly created object or block, to locals and to the return slot are not effects."""
from ir import *
from flow import *
from model import obj_field
from own import root_kinds
from heap import fbases

BULK = ('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memmove', 'memset', 'qsort', 'zend_sort', 'zend_insert_sort')
ITER_FIELDS = {'active_iterators'}

class Effect:
    __slots__ = ('i', 'kind', 'what', 'root')
    def __init__(s, i, kind, what, root): s.i = i; s.kind = kind; s.what = what; s.root = root

def helper_writes(P, M, n, seen=None):
    """parameter positions through which a recursive helper writes existing memory"""
    c = M.__dict__.setdefault('_hwrites', {})
    if n in c: return c[n]
    if n not in P._raw: return set()
    c[n] = set()
    fn = P.fn(n)
    if not fn.vnctx: number_memory(fn); fn.vnctx = True
    def params(op, seen):
        if op in seen: return set()
        seen = seen | {op}
        r = fn.addr(op)[0]
        if r[0] == 'a': return {int(r[1:])}
        i = fn.d(r)
        if i is None: return set()
        if i['op'] == 'load': return params(i['ops'][0], seen)
        if i['op'] == 'phi': return set().union(*[params(o, seen) for o in i['ops']])
        if i['op'] == 'select': return set().union(*[params(o, seen) for o in i['ops'][1:]])
        return set()
    out = set()
    for _ in range(3):
        for i in fn.I.values():
            if i['op'] == 'store': out |= params(i['ops'][1], frozenset())
            elif i['op'] == 'call':
                m = fn.callee(i)
                if m in P.cg:
                    for q in helper_writes(P, M, m): 
                        if q < len(i['ops']): out |= params(i['ops'][q], frozenset())
                elif m and (m.startswith(BULK) or is_free(m) or m in REALLOCS): out |= params(i['ops'][0], frozenset())
        c[n] = set(out)
    return c[n]

STORE_KINDS = {'storage', 'node'}

def direct_root(M, fn, root): return root_kinds(M, fn, root)

def written_kinds(M, fn, op):
    return root_kinds(M, fn, fn.addr(op)[0])

def effects(M, fn):
    """[Effect] for every write this entry point may make to a collection that existed before the call"""
    if hasattr(fn, '_eff'): return fn._eff
    out = []; P = fn.prog
    def target(i, op, what):
        a = fn.addr(op)
        f = obj_field(M, fn, op)
        ks = root_kinds(M, fn, a[0])
        if f is not None:
            if ks and ks <= {'newobj', 'new'}: return
            out.append(Effect(i, 'field', f.name, a[0]))
        elif ks & STORE_KINDS:
            out.append(Effect(i, 'storage', what, a[0]))
    for b in fn.rpo:
        for i in fn.blocks[b]:
            if i['op'] == 'store': target(i, i['ops'][1], 'element')
            elif i['op'] == 'call':
                n = fn.callee(i)
                if not n: continue
                if n.startswith(BULK): target(i, i['ops'][0], 'range')
                elif is_free(n) or n in REALLOCS:
                    if written_kinds(M, fn, i['ops'][0]) & STORE_KINDS: out.append(Effect(i, 'storage', 'free' if is_free(n) else 'realloc', fn.addr(i['ops'][0])[0]))
                elif n in P.cg:
                    for q in helper_writes(P, M, n):
                        if q < len(i['ops']) and i['at'][q] == 'ptr': target(i, i['ops'][q], 'via ' + n)
                elif n in ('zval_ptr_dtor', 'zval_ptr_dtor_nogc', 'i_zval_ptr_dtor', 'zval_ptr_dtor_str', 'rc_dtor_func'):
                    if written_kinds(M, fn, i['ops'][0]) & STORE_KINDS: out.append(Effect(i, 'storage', 'release', fn.addr(i['ops'][0])[0]))
    fn._eff = out
    return out
