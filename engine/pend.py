"""Must-analysis: is an exception certainly pending?"""
from ir import *
from flow import *

def ce_name(fn, op):
    """name of the exception class global an operand was loaded from"""
    i = fn.d(op)
    for _ in range(4):
        if i is None: break
        if i['op'] == 'load':
            a = fn.addr(i['ops'][0])
            if a[0][0] == '@': return a[0][1:]
            return None
        if i['op'] in ('freeze', 'bitcast'): i = fn.d(i['ops'][0]); continue
        break
    return op[1:] if op[0] == '@' else None

def must_pending(fn):
    """block -> out state; a state is None (nothing certain) or a frozenset of exception class globals of which one was certainly thrown ('' when the class is not known)"""
    if hasattr(fn, '_mp'): return fn._mp
    def tr(st, i):
        if i['op'] == 'call':
            n = fn.callee(i)
            if n in THROWS:
                if st is not None: return st
                return frozenset([ce_name(fn, i['ops'][0]) or '' if n.startswith('zend_throw_exception') and i['ops'] else '#' + n])
            if n == 'zend_clear_exception': return None
        return st
    def edge(st, b, s):
        e = exception_edge(fn, b)
        if e and e[0] != e[1]:
            if s == e[0]: return st if st is not None else frozenset([''])
        if s in pending_edges(fn, b) and st is None: return frozenset([''])
        return st
    def edge2(st, b, s):
        e = exception_edge(fn, b)
        if e and e[0] != e[1] and s == e[1] and st is not None: return False
        return True
    def join(x, y):
        if x is None or y is None: return None
        return x | y
    # run with infeasible edges removed
    def edge3(st, b, s):
        st = st[0]
        if not edge2(st, b, s): return None
        return (edge(st, b, s),)
    inn, outs = forward(fn, (None,), lambda st, i: (tr(st[0], i),), lambda x, y: (join(x[0], y[0]),), edge3)
    fn._mp = ({b: s[0] for b, s in inn.items()}, {b: s[0] for b, s in outs.items()})
    return fn._mp

def exits_pending(fn):
    """[(ret instruction, state)] for every reachable return"""
    inn, outs = must_pending(fn)
    return [(fn.blocks[b][-1], outs[b]) for b in fn.rpo if b in outs and fn.blocks[b][-1]['op'] == 'ret']
