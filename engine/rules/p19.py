"""No PHP reference is ever stored as an element."""
from ir import *
from flow import *
from own import copies, root_kinds
RULE = ('Every copy of a value read from a PHP array, from a source iterator or from a callback result into collection storage must come from the '
        'dereferenced value: each path to the copy either followed the reference, unwrapped the callback result in place, or tested that the value is not a reference.')
LEVEL = 'other'
ASSUMPTIONS = ['by-value arguments of PHP methods are never references (the engine dereferences them when sending)', 'the value inside a reference is not itself a reference']
FLOORS = {'stored-copy': 60, 'callback-result': 4}
IS_REF = 10
SINK = {'storage', 'new', 'node', 'nstorage', 'new*', 'elem*', 'newobj*', 'ret'}
FOREIGN = {'ht', 'iterdata', 'arg*'}

def type_addr(fn, op):
    """address of the value whose type byte (or type word) is operand op"""
    j = fn.d(op)
    for _ in range(6):
        if j is None: return None
        if j['op'] in ('zext', 'sext', 'trunc', 'freeze'): j = fn.d(j['ops'][0]); continue
        if j['op'] == 'and' and const(j['ops'][1]) == 255: j = fn.d(j['ops'][0]); continue
        break
    if j is None or j['op'] != 'load' or j['ty'] not in ('i8', 'i32'): return None
    a = fn.addr(j['ops'][0])
    ss = fn.structs_at(j['ops'][0])
    if ss and ss[0][0] != '_zval_struct' and not any(s == '_zval_struct' and a[1] - o == 8 for s, o in ss): return None     # a field of something else
    if any(s == '_zval_struct' and a[1] - o != 8 for s, o in ss[:1]): return None
    return (a[0], a[1] - 8, a[2])

def flags_addr(fn, op):
    """address of the value whose refcounted/collectable flags are operand op"""
    j = fn.d(op)
    if j is None: return None
    if j['op'] == 'and' and (const(j['ops'][1]) or 0) & 255 == 0 and (const(j['ops'][1]) or 0) & 0x100 and (const(j['ops'][1]) or 0) >> 16 == 0 :
        k = fn.d(j['ops'][0])
        if k is not None and k['op'] == 'load' and k['ty'] == 'i32':
            a = fn.addr(k['ops'][0]); return (a[0], a[1] - 8, a[2])
    if j['op'] == 'load' and j['ty'] == 'i8':
        a = fn.addr(j['ops'][0])
        return (a[0], a[1] - 9, a[2])
    return None

class NonRef:
    def __init__(s, M, fn):
        s.M = M; s.fn = fn
        s.offset_arg = any(r in DIMS for _, r in M.roles.get(fn.name, []))   # the VM does not dereference the offset
        s.retoff = fn.prog.field_off('_zend_fcall_info', 'retval')
        def tr(st, i):
            if i['op'] == 'call' and fn.callee(i) == 'zend_unwrap_reference': return st | {fn.addr(i['ops'][0])}
            return st
        def edge(st, b, x):
            t = test(fn, b)
            if t:
                a = type_addr(fn, t[0])
                fl = flags_addr(fn, t[0])
                if fl is not None and t[1] == 0 and x == t[2] and t[2] != t[3]: st = st | {fl}
                if a is not None:
                    if t[1] in (IS_REF, 0x10a, 0x0a | 0x100):
                        if x == t[3] and t[2] != t[3]: st = st | {a}
                    elif 0 <= t[1] and x == t[2] and t[2] != t[3]: st = st | {a}
            k = fn.blocks[b][-1]
            if k['op'] == 'switch':
                a = type_addr(fn, k['ops'][0])
                if a is not None:
                    cs = [const(v) for v, d in k['cases'] if d == x]
                    if cs and x != k['def'] and all(c != IS_REF for c in cs): st = st | {a}
                    if x == k['def'] and x not in [d for v, d in k['cases']] and any(const(v) == IS_REF for v, d in k['cases']): st = st | {a}
            return st
        s.inn, s.outs = forward(fn, frozenset(), tr, lambda a, b: a & b, lambda st, b, x: edge(st, b, x))
        s.edge = edge

    def at(s, i):
        st = s.inn.get(i['b'], frozenset())
        fn = s.fn
        for j in fn.blocks[i['b']][:i['p']]:
            if j['op'] == 'call' and fn.callee(j) == 'zend_unwrap_reference': st = st | {fn.addr(j['ops'][0])}
        return st

    def ok(s, a, facts, seen=frozenset()):
        """may the value at address a be a reference?  facts: addresses known not to be"""
        fn = s.fn
        if a in facts: return True
        if a[0] in seen: return True
        d = fn.d(a[0])
        if d is None: return not (a[0] == 'a1' and s.offset_arg)
        if d['op'] == 'alloca': return None
        if d['op'] == 'phi':
            for o, pb in zip(d['ops'], d['in']):
                x = fn.addr(o)
                x = (x[0], x[1] + a[1], tuple(sorted(x[2] + a[2])))
                if x[0] == a[0]: continue
                if pb not in s.outs: continue
                f = s.edge(s.outs[pb], pb, d['b'])
                if not s.ok(x, f, seen | {a[0]}): return False
            return s.loopy(a, d, facts)
        if d['op'] == 'select':
            return all(s.ok((fn.addr(o)[0], fn.addr(o)[1] + a[1], fn.addr(o)[2]), facts, seen | {a[0]}) for o in d['ops'][1:])
        if not (root_kinds(s.M, fn, a[0]) & FOREIGN): return True
        # following a reference: the counted value a zval points at, plus the header
        if d['op'] == 'load' and a[1] == 8 and not a[2]: return True
        return False

    def loopy(s, a, d, facts):
        """a walking pointer over a table: the element itself is unchecked"""
        fn = s.fn
        for o in d['ops']:
            x = fn.addr(o)
            if x[0] == a[0] and (x[1] or x[2]): return not (root_kinds(s.M, fn, a[0]) & FOREIGN)
        return True

def resolved_later(N, fn, i, dst):
    """is the value just stored at dst unwrapped (or found not to be a reference) on every path that leaves the function?"""
    seen = set(); st = [(i['b'], i['p'] + 1)]
    while st:
        b, p = st.pop()
        done = False
        for j in fn.blocks[b][p:]:
            if j['op'] == 'call' and fn.callee(j) == 'zend_unwrap_reference' and fn.addr(j['ops'][0]) == dst: done = True; break
            if j['op'] == 'ret': return False
        if done: continue
        for s in fn.succ[b]:
            if s in seen or dst in N.edge(frozenset(), b, s): continue
            seen.add(s); st.append((s, 0))
    return True

def result_slots(fn):
    """[(zend_call_function call, address of its result)]"""
    off = fn.prog.field_off('_zend_fcall_info', 'retval')
    out = []
    for i in fn.I.values():
        if i['op'] != 'call' or fn.callee(i) != 'zend_call_function': continue
        r = fn.addr(i['ops'][0])
        for j in fn.I.values():
            if j['op'] == 'store' and fn.addr(j['ops'][1]) == (r[0], r[1] + off, r[2]) and j['ops'][0] != 'null': out.append((i, fn.addr(j['ops'][0])))
    return out

def run(ctx, res):
    M = ctx.M
    for fn in ctx.fns(res):
        cs = copies(fn)
        N = None
        slots = {a for _, a in result_slots(fn)}
        for c in cs:
            dk = root_kinds(M, fn, c.dst[0])
            if not dk & SINK: continue
            res.ob('stored-copy')
            N = N or NonRef(M, fn)
            facts = N.at(c.i)
            r = N.ok(c.src, facts)
            if r is None:
                # a local: what was put there?
                r = True
                if c.src in slots and c.src not in facts: r = False
                for e in cs:
                    if e.dst == c.src and not N.ok(e.src, N.at(e.i)) and N.ok(e.src, N.at(e.i)) is not None and c.src not in facts: r = False
            if not r and resolved_later(N, fn, c.j, c.dst): r = True
            if not r:
                res.bad('reference-stored', fn.src, fn.locstr(c.i), '%s may store a PHP reference as an element: the value copied here was not dereferenced' % fn.name)
        for call, a in result_slots(fn):
            if is_local(fn, a[0]) or not root_kinds(M, fn, a[0]) & (SINK | {'ret'}): continue
            res.ob('callback-result', sample=fn.name)
            N = N or NonRef(M, fn)
            if not any(i['op'] == 'call' and fn.callee(i) == 'zend_unwrap_reference' and fn.addr(i['ops'][0])[0] == a[0] for i in fn.I.values()):
                if root_kinds(M, fn, a[0]) & SINK:
                    res.bad('result-stored', fn.src, fn.locstr(call), '%s stores a callback result that may be a PHP reference' % fn.name)
        offset_rule(M, fn, res)
        typed_rule(M, fn, res)

DIMS = {'handler:read_dimension', 'handler:write_dimension', 'handler:has_dimension', 'handler:unset_dimension'}
def offset_rule(M, fn, res):
    """$c[$k] with $k bound by reference uses the referenced value"""
    if not any(r in DIMS for _, r in M.roles.get(fn.name, [])): return
    N = NonRef(M, fn)
    res.ob('offset', sample=fn.name)
    def deref_only(i):
        return all(u['op'] == 'getelementptr' and u['off'] == 8 or u['op'] == 'phi' for u in fn.uses().get('%%%d' % i['i'], []))
    for i in fn.I.values():
        if i['b'] not in N.inn: continue
        if i['op'] == 'load' and i['ty'] in ('i64', 'ptr', 'double'):
            a = fn.addr(i['ops'][0])
            if a[1] or a[2]: continue
            bad = a[0] == 'a1' and a not in N.at(i)
            d = fn.d(a[0])
            if d is not None and d['op'] == 'phi' and any(fn.addr(o) == ('a1', 0, ()) for o in d['ops']): bad = not N.ok(a, N.at(i)) and a not in N.at(i)
            if bad and not deref_only(i):
                res.bad('offset-reference', fn.src, fn.locstr(i), '%s uses an offset that may be a PHP reference without dereferencing it' % fn.name)
        elif i['op'] == 'call' and fn.callee(i) in fn.prog.cg:
            for o in i['ops']:
                if fn.addr(o) == ('a1', 0, ()) and ('a1', 0, ()) not in N.at(i):
                    res.bad('offset-reference', fn.src, fn.locstr(i), '%s passes on an offset that may be a PHP reference without dereferencing it' % fn.name)

def tests_ref(fn, b, a):
    t = test(fn, b)
    if t and t[1] in (IS_REF, 0x10a) and type_addr(fn, t[0]) == a: return True
    k = fn.blocks[b][-1]
    return k['op'] == 'switch' and type_addr(fn, k['ops'][0]) == a and any(const(v) == IS_REF for v, d in k['cases'])

def typed_rule(M, fn, res):
    """a source element of the required type is accepted when it is held in a reference"""
    N = None
    if fn.name.endswith('___unserialize'): return      # only forged input holds references there
    for b in fn.rpo:
        t = test(fn, b)
        if not t or t[1] in (IS_REF, 0x10a) or not 1 <= t[1] & 255 <= 8 or t[2] == t[3]: continue
        a = type_addr(fn, t[0])
        if a is None: continue
        d = fn.d(a[0])
        if d is None or d['op'] not in ('phi', 'load', 'call', 'select') or not root_kinds(M, fn, a[0]) & FOREIGN: continue
        N = N or NonRef(M, fn)
        res.ob('typed-element')
        if N.ok(a, N.at(fn.blocks[b][-1])): continue
        seen = set(); st = [t[3]]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            hit = next((i for i in fn.blocks[x] if throws(fn, i)), None)
            if hit is not None:
                res.bad('reference-refused', fn.src, fn.locstr(fn.blocks[b][-1]), '%s refuses a value of the right type because it is held in a PHP reference' % fn.name); break
            if tests_ref(fn, x, a): continue
            st += fn.succ[x]
