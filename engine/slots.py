"""Slots and nodes that are given up: an unused slot of a table is marked, a node's values are released or moved out first."""
from ir import *
from flow import *
from model import obj_field
from own import DTORS, CONSUME, copies
from heap import bases
from bal import elem_zvals

def node_types(P):
    """tree node structs of the code under analysis: size -> offsets of the values in them"""
    out = {}
    for n in ('teds_stricttreeset_node', 'teds_stricttreemap_node', '_teds_stricttreeset_node', '_teds_stricttreemap_node'):
        s = P.struct(n)
        if s: out[s['size']] = elem_zvals(P, n)
    return out

def nodes(M, fn, res):
    """a node is given back although nothing in the function takes its values out or releases them"""
    T = node_types(fn.prog)
    for i in fn.I.values():
        if i['op'] != 'call' or i['b'] not in fn.rpoidx: continue
        n = fn.callee(i) or ''
        if not n.startswith('_efree_'): continue
        try: sz = int(n[7:])
        except ValueError: continue
        if n != '_efree_large' and sz in T:
            r = fn.addr(i['ops'][0])[0]
            def names(x):
                out = set(bases(fn, x)) | {x}
                for y in list(out):
                    j = fn.d(y)
                    if j is not None and j['op'] == 'load': out.add(fn.addr(j['ops'][0]))
                return out
            bs = names(r)
            got = set()
            for j in fn.I.values():
                ps = []
                if j['op'] == 'call' and fn.callee(j) in DTORS: ps = [j['ops'][0]]
                elif j['op'] == 'call' and fn.callee(j) in CONSUME: ps = [j['ops'][q] for q in CONSUME[fn.callee(j)]]
                elif j['op'] == 'load' and (fn.dominates(j['b'], i['b']) or j['b'] in fn.rpoidx): ps = [j['ops'][0]]
                elif j['op'] == 'call' and (fn.callee(j) or '').startswith('llvm.mem'): ps = [j['ops'][1]]
                for p in ps:
                    a = fn.addr(p)
                    if a[2]: continue
                    if a[0] == r or bs & names(a[0]): got.add(a[1])
            res.ob('node given back')
            for o in T[sz]:
                if o not in got: yield i, 'gives a tree node back without releasing or moving out the value in it (offset %d)' % o

def removals(M, fn, res):
    """a table counts one element less, but its slot is neither marked as unused nor cut off"""
    from rules.p05 import uncovered
    hot = []; cut = set(); table = False
    for i in fn.I.values():
        if i['op'] != 'store' or i['b'] not in fn.rpoidx: continue
        f = obj_field(M, fn, i['ops'][1])
        if f is not None and f.name in ('nNumUsed', 'nFirstUsed', 'arData'):
            table = True; cut.add(i['b'])
        elif f is not None and f.name == 'nNumOfElements':
            j = fn.d(i['ops'][0])
            if const(i['ops'][0]) is not None: cut.add(i['b'])
            if j is not None and (j['op'] == 'add' and const(j['ops'][1]) in (-1, 0xffffffff) or j['op'] == 'sub' and const(j['ops'][1]) == 1): hot.append(i)
        elif i.get('sty') in ('i32', 'i8') and const(i['ops'][0]) == 0 and f is None:
            b = bases(fn, i['ops'][1])
            if any((lambda j: j is not None and j['op'] == 'load' and (lambda g: g is not None and g.name == 'arData')(obj_field(M, fn, j['ops'][0])))(fn.d(x)) for x in b): cut.add(i['b'])
    if not table: return
    for i in hot:
        res.ob('table removal', sample=fn.name)
        if uncovered(fn, cut, set(), i['b']): yield i, 'counts one element less on a path where its slot is neither marked unused nor cut off'

def exp(fn, op, seen=None):
    seen = set() if seen is None else seen
    a = fn.addr(op); j = fn.d(a[0])
    if j is not None and j['op'] == 'phi' and not a[1] and not a[2]:
        if a[0] in seen: return []
        seen.add(a[0])
        return [x for o in j['ops'] for x in exp(fn, o, seen)]
    return [a]

def backing(M, fn, res):
    """a string the collection keeps (found from the bytes in it) is handed out without a reference of its own"""
    tags = [fn.addr(k['ops'][1]) for k in fn.I.values() if k['op'] == 'store' and k.get('sty') == 'i32']
    def kept(op):
        out = set()
        for a in exp(fn, op):
            j = fn.d(a[0])
            if a[2] or a[1] >= 0 or j is None or j['op'] != 'load': continue
            f = obj_field(M, fn, j['ops'][0])
            if f is not None: out.add((fn.addr(j['ops'][0])[:2], a[1], f.name))
        return out
    for i in fn.I.values():
        if i['op'] != 'store' or i.get('sty') != 'ptr' or i['b'] not in fn.rpoidx or obj_field(M, fn, i['ops'][1]) is not None: continue
        d = fn.addr(i['ops'][1])
        if (d[0], d[1] + 8, d[2]) not in tags: continue
        v = kept(i['ops'][0])
        if not v: continue
        res.ob('string handed out', sample='%s %s' % (fn.name, fn.locstr(i)))
        ok = any(k['op'] == 'call' and (fn.callee(k) or '') in ('zend_gc_addref', 'zend_string_addref') and v & kept(k['ops'][0]) for k in fn.I.values())
        ok = ok or any(k['op'] == 'store' and k.get('sty') == 'i32' and v & kept(k['ops'][1]) for k in fn.I.values())
        if not ok: yield i, 'hands out the string behind %s without taking a reference' % sorted(v)[0][2]
