"""Small forward dataflow framework plus branch facts shared by the rules."""
import heapq
from ir import *

THROWS = {'zend_throw_exception','zend_throw_exception_ex','zend_throw_error','zend_type_error','zend_value_error','zend_argument_error',
          'zend_argument_type_error','zend_argument_value_error','zend_argument_count_error','zend_wrong_parameters_none_error',
          'zend_wrong_parameters_count_error','zend_wrong_parameter_error','zend_wrong_parameter_class_error','zend_wrong_parameter_type_error',
          'zend_throw_exception_object','zend_throw_error_exception','zend_argument_error_variadic','zend_bad_constructor_call','zend_readonly_property_modification_error','zend_illegal_container_offset','zend_throw_unwind_exit'}
def throws(fn, i):
    return i['op'] == 'call' and fn.callee(i) in THROWS

def exc_off(P):
    if not hasattr(P, '_excoff'): P._excoff = int(P.globals['teds_probe_eg_exception']['init'][1:])
    return P._excoff

def const(op):
    if op and op[0] == 'c':
        try: return int(op[1:])
        except ValueError: return None
    return 0 if op == 'null' else None

def is_exception_load(fn, op):
    i = fn.d(op)
    if i is not None and i['op'] == 'phi': return all((lambda d: d is not None and d['op'] == 'load')(fn.d(o)) and is_exception_load(fn, o) for o in i['ops'])
    if i is None or i['op'] != 'load': return False
    a = fn.addr(i['ops'][0])
    return a[0] == '@executor_globals' and a[1] == exc_off(fn.prog)

def cond_edges(fn, b):
    """for a conditional branch block: (condition operand, true succ, false succ) or None"""
    t = fn.blocks[b][-1]
    if t['op'] == 'br' and len(t.get('succ', [])) == 2 and t['ops']:
        return t['ops'][0], t['succ'][0], t['succ'][1]
    return None

def strip_bool(fn, op):
    """look through zext/trunc/icmp ne 0 wrappers and llvm.expect; returns (op, negated)"""
    neg = False
    for _ in range(32):
        i = fn.d(op)
        if i is None: break
        if i['op'] in ('zext', 'sext', 'trunc', 'freeze'): op = i['ops'][0]; continue
        if i['op'] == 'call' and (fn.callee(i) or '').startswith('llvm.expect'): op = i['ops'][0]; continue
        if i['op'] == 'icmp' and i['pred'] in ('ne', 'eq'):
            j = fn.d(i['ops'][0])
            if const(i['ops'][1]) == 0 and j is not None and (j['op'] in ('zext', 'icmp', 'xor', 'freeze', 'phi') and (j['op'] != 'phi' or j.get('ty') == 'i1') or j['op'] == 'call' and (fn.callee(j) or '').startswith('llvm.expect') or j['op'] == 'trunc'):
                if j['op'] == 'xor' and j.get('ty') != 'i1' and not (const(j['ops'][1]) == 1): break
                if i['pred'] == 'eq': neg = not neg
                op = i['ops'][0]; continue
            break
        if i['op'] == 'xor' and const(i['ops'][1]) in (1, -1):
            neg = not neg; op = i['ops'][0]; continue
        break
    return op, neg

def test(fn, b):
    """branch of block b as (value operand stripped of width casts, eq|ne, constant, succ when equal, succ when different)"""
    ce = cond_edges(fn, b)
    if not ce: return None
    op, neg = strip_bool(fn, ce[0])
    t, f = ce[1], ce[2]
    if neg: t, f = f, t
    i = fn.d(op)
    if i is not None and i['op'] == 'icmp':
        if i['pred'] not in ('eq', 'ne'): return None
        x, y = i['ops']; k = const(y)
        if k is None: x, y = y, x; k = const(y)
        if k is None: return None
        if i['pred'] == 'ne': t, f = f, t
    else: x = op; k = 0; t, f = f, t
    while True:
        j = fn.d(x)
        if j is not None and j['op'] in ('zext', 'sext', 'trunc', 'freeze'): x = j['ops'][0]
        else: break
    return x, k, t, f

def zero_edge(fn, b):
    """(operand, successor on which it is zero, successor on which it is not) for a branch that compares an unsigned quantity with zero"""
    t = test(fn, b)
    if t is not None: return (t[0], t[2], t[3]) if t[1] == 0 else None
    ce = cond_edges(fn, b)
    if not ce: return None
    op, neg = strip_bool(fn, ce[0])
    i = fn.d(op)
    if i is None or i['op'] != 'icmp': return None
    x, y = i['ops']; p = i['pred']
    if const(x) is not None: x, y = y, x; p = p.translate(str.maketrans('lg', 'gl'))
    k = const(y)
    z = {('sgt', 0): False, ('ugt', 0): False, ('slt', 1): True, ('ult', 1): True, ('sge', 1): False, ('uge', 1): False, ('sle', 0): True, ('ule', 0): True}.get((p, k))
    if z is None: return None
    z = z != neg
    while True:
        j = fn.d(x)
        if j is not None and j['op'] in ('zext', 'sext', 'trunc', 'freeze'): x = j['ops'][0]
        else: break
    return (x, ce[1], ce[2]) if z else (x, ce[2], ce[1])

def exception_edge(fn, b):
    """the successor taken when EG(exception) is set, if block b tests it; (pending succ, clear succ)"""
    ce = cond_edges(fn, b)
    if not ce: return None
    op, neg = strip_bool(fn, ce[0])
    i = fn.d(op)
    if i is None or i['op'] != 'icmp' or i['pred'] not in ('ne', 'eq'): return None
    x, y = i['ops']
    if x == 'null': x, y = y, x
    if y != 'null' or not is_exception_load(fn, x): return None
    t, f = ce[1], ce[2]
    if (i['pred'] == 'eq') != neg: t, f = f, t
    return t, f

FAILS_WITH_EXCEPTION = {'zend_call_function', 'zend_parse_parameters', 'object_init_ex', 'spl_iterator_apply', 'zend_parse_arg_number', 'zend_parse_method_parameters'}
def pending_edges(fn, b):
    """successors of b on which an exception is certainly pending"""
    e = exception_edge(fn, b)
    if e: return {e[0]} - {e[1]}
    ce = cond_edges(fn, b)
    if not ce: return set()
    op, neg = strip_bool(fn, ce[0])
    i = fn.d(op)
    if i is None or i['op'] != 'icmp': return set()
    x, y = i['ops']; c = fn.d(x); k = const(y)
    if c is None or k is None: return set()
    if c['op'] == 'load':
        # a status word in the block handed to spl_iterator_apply: callbacks set FAILURE only with an exception pending
        r = fn.addr(c['ops'][0])[0]
        if not (is_local(fn, r) and any(u['op'] == 'call' and fn.callee(u) == 'spl_iterator_apply' for u in fn.uses().get(r, []))): return set()
    elif c['op'] != 'call' or fn.callee(c) not in FAILS_WITH_EXCEPTION: return set()
    # truth of the comparison for SUCCESS (0) and FAILURE (-1)
    def ev(v):
        p = i['pred']
        return {'eq': v == k, 'ne': v != k, 'slt': v < k, 'sgt': v > k, 'sle': v <= k, 'sge': v >= k}.get(p)
    s0, f0 = ev(0), ev(-1)
    if s0 is None or s0 == f0: return set()
    t = ce[1] if (f0 != neg) else ce[2]
    o = ce[2] if t == ce[1] else ce[1]
    return {t} - {o}

def forward(fn, init, transfer, join, edge=None, limit=400000):
    """transfer(state, inst)->state ; edge(state, b, s)->state or None (infeasible); join(a,b)->state. Returns IN states"""
    inn = {0: init}
    heap = [(0, 0)]; inq = {0}; n = 0
    outs = {}
    while heap:
        n += 1
        if n > limit: raise AnalysisBroken('no fixpoint in ' + fn.name)
        _, b = heapq.heappop(heap); inq.discard(b)
        st = inn[b]
        for i in fn.blocks[b]: st = transfer(st, i)
        outs[b] = st
        for s in fn.succ[b]:
            ns = edge(st, b, s) if edge else st
            if ns is None: continue
            if s in inn:
                j = join(inn[s], ns)
                if j == inn[s]: continue
                inn[s] = j
            else: inn[s] = ns
            if s not in inq: heapq.heappush(heap, (fn.rpoidx[s], s)); inq.add(s)
    return inn, outs
