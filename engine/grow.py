"""Growth discipline: linear inequalities between size, capacity and the allocated block, tracked along the paths of a
flattened function (a disjunctive linear-inequality domain with inductive loop invariants chosen from a fixed template)."""
from fractions import Fraction as Fr
from ir import *
from flow import *
from model import obj_field, new_field, elem_size
from lin import add
from bounds import BUILDING
import re

SIZE = {'size', 'bit_size', 'nNumUsed'}
CAP = {'capacity', 'bit_capacity', 'mask', 'nTableSize'}
MAXD = 400

def form(k=0, **kw): return {'': k} if k else {}

def key(d): return tuple(sorted(d.items()))

def scale(d, k): return {t: c * k for t, c in d.items()} if k else {}

class State:
    __slots__ = ('regs', 'objs', 'facts', 'note')
    def __init__(s, regs=None, objs=None, facts=None, note=()):
        s.regs = regs or {}; s.objs = objs or {}; s.facts = facts or frozenset(); s.note = note
    def copy(s): return State(dict(s.regs), {r: dict(o) for r, o in s.objs.items()}, s.facts, s.note)
    def key(s):
        return (frozenset((r, key(v) if isinstance(v, dict) else v) for r, v in s.regs.items()),
                frozenset((r, frozenset((f, key(v) if isinstance(v, dict) else v) for f, v in o.items())) for r, o in s.objs.items()), s.facts, s.note)

def prove(t, facts, nonneg=True, depth=6, seen=None):
    """t <= 0 follows from facts (each <= 0) and atoms being non-negative"""
    pos = [a for a, c in t.items() if c > 0 and a != '']
    if not pos:
        if t.get('', 0) <= 0: return True
        # positive constant: needs a lower bound on a subtracted atom
        neg = [a for a, c in t.items() if c < 0 and a != '']
        if depth <= 0: return False
        seen = set() if seen is None else seen
        k = (key(t), 'neg')
        if k in seen: return False
        seen.add(k)
        for a in neg:
            for f in facts:
                fd = dict(f)
                if fd.get(a, 0) < 0 and all(c > 0 or x in ('', a) or t.get(x, 0) < 0 for x, c in fd.items()):
                    t2 = add(t, fd, -Fr(t[a]) / fd[a])
                    if any(c > 0 for x, c in t2.items() if x): continue
                    if prove(t2, facts, nonneg, depth - 1, seen): return True
        return False
    if depth <= 0: return False
    seen = set() if seen is None else seen
    k = (key(t), depth)
    if k in seen: return False
    seen.add(k)
    a = min(pos, key=lambda x: (sum(1 for f in facts if dict(f).get(x, 0) > 0), x))
    for f in facts:
        fd = dict(f)
        if fd.get(a, 0) > 0:
            if prove(add(t, fd, -Fr(t[a]) / fd[a]), facts, nonneg, depth - 1, seen): return True
    # another atom may be easier to remove first
    return False

OBJ = re.compile(r'^o\d+\.(size|cap|block)@')
def isobj(a, k=None):
    m = OBJ.match(a)
    return m is not None and (k is None or m.group(1) == k)

def atoms(d): return {a for a in d if a}

class Grow:
    def __init__(s, M, fn):
        s.M = M; s.fn = fn
        s.fld = {}
        s.sites = []        # findings
        s.stats = {'store': 0, 'proved': 0, 'undecided': 0, 'check': 0}
        s.overflow = False; s.forced = None
        s.scan()

    # ------------------------------------------------------------ what is tracked
    def field(s, op):
        if op not in s.fld:
            f = obj_field(s.M, s.fn, op) or new_field(s.M, s.fn, op)
            if f is not None:
                # structurally equal structs share one IR type: the class' own layout decides
                for nm in s.M.owners.get(s.fn.name, []):
                    k = s.M.classes.get(nm)
                    if k and k['layout'] and k['struct'] != f.struct and s.same(k['struct'], f.struct) and f.off in k['layout']: f = k['layout'][f.off]; break
            s.fld[op] = f
        return s.fld[op]

    def same(s, a, b):
        x, y = s.M.layouts.get(a), s.M.layouts.get(b)
        return x is not None and y is not None and {(f.off, f.size) for f in x.values()} == {(f.off, f.size) for f in y.values()}

    def root(s, op): return s.fn.addr(op)[0]

    def scan(s):
        fn = s.fn
        s.roots = {}
        s.stores = []
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i['op'] != 'store': continue
                f = s.field(i['ops'][1])
                if f is None: continue
                k = s.kind(f)
                if k is None: continue
                r = s.root(i['ops'][1])
                s.roots.setdefault(r, {})[k] = f.name
                s.stores.append(i)
        # which loads matter
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i['op'] != 'load': continue
                f = s.field(i['ops'][0])
                if f is None or s.kind(f) is None: continue
                r = s.root(i['ops'][0])
                if r in s.roots: s.roots[r].setdefault(s.kind(f), f.name)
        if not s.roots: return
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i['op'] != 'load': continue
                f = s.field(i['ops'][0])
                if f is None or s.kind(f) is None: continue
                r = s.root(i['ops'][0])
                if s.exposed(r): s.roots.setdefault(r, {}).setdefault(s.kind(f), f.name)
        # backward slice of the values that matter
        rel = set(); todo = []
        def want(o):
            d = fn.d(o)
            if d is not None and o not in rel: rel.add(o); todo.append(o)
        for i in s.stores: want(i['ops'][0])
        for b in fn.rpo:
            ce = cond_edges(fn, b)
            if ce: s.cond_ops(ce[0], want)
        while todo:
            o = todo.pop(); d = fn.d(o)
            if d['op'] == 'load': continue
            if d['op'] == 'call':
                n = fn.callee(d) or ''
                if is_alloc(n) or n in REALLOCS or n.startswith('llvm.'):
                    for x in d['ops']: want(x)
                continue
            for x in d['ops']: want(x)
        s.rel = rel
        s.liveness()

    def liveness(s):
        """blocks from which a tracked value is still used"""
        fn = s.fn
        reach = {}
        for b in reversed(fn.rpo):
            r = {b}
            for t in fn.succ[b]: r |= reach.get(t, {t})
            reach[b] = r
        for _ in range(6):
            ch = False
            for b in reversed(fn.rpo):
                r = set(reach[b])
                for t in fn.succ[b]: r |= reach.get(t, set())
                if len(r) != len(reach[b]): reach[b] = r; ch = True
            if not ch: break
        s.reachb = reach
        s.usecache = {}

    def use_blocks(s, op):
        if op in s.usecache: return s.usecache[op]
        fn = s.fn; U = fn.uses()
        out = set(); seen = {op}; todo = [op]
        while todo:
            o = todo.pop()
            d0 = fn.d(o)
            for u in U.get(o, ()):
                i = fn.I[u] if not isinstance(u, dict) else u
                if i['op'] == 'phi':
                    out |= {p for x, p in zip(i['ops'], i['in']) if x == o}
                    if i.get('ty') == 'i1':
                        q = '%%%d' % i['i']
                        if q not in seen: seen.add(q); todo.append(q)
                    elif len({x for x in i['ops']}) == 1:
                        q = '%%%d' % i['i']
                        if q not in seen: seen.add(q); todo.append(q)
                    continue
                out.add(i['b'])
                if i['op'] in ('load', 'store', 'br', 'switch', 'ret'): continue
                q = '%%%d' % i['i']
                if q not in seen: seen.add(q); todo.append(q)
        s.usecache[op] = out
        return out

    def prune(s, st, t):
        live = s.reachb.get(t, set())
        for k in list(st.regs):
            op = k[1] if isinstance(k, tuple) else k
            if not (s.use_blocks(op) & live):
                # pointers may be reached through another phi
                if isinstance(k, tuple) and any(isinstance(v, tuple) and v[0] == 'ptr' and v[1] == op for v in st.regs.values()): continue
                del st.regs[k]
        want = set()
        for v in st.regs.values():
            if isinstance(v, dict): want |= atoms(v)
        for o in st.objs.values():
            for k in ('size', 'cap', 'block'):
                if o[k]: want |= atoms(o[k])
        fs = [(f, {a for a, c in f if a}) for f in st.facts]
        for f, aa in fs:
            for a in aa:
                if a[0] == '%' and a not in want and s.use_blocks(a) & live: want.add(a)
                elif a[0] == '(' and any(x[0] == '%' and s.use_blocks(x) & live for x in s.reach(a)): want.add(a)
        keep = set(); n = -1
        while n != len(keep):
            n = len(keep)
            for f, a in fs:
                if f not in keep and a & want: keep.add(f); want |= a
        st.facts = frozenset(keep)

    def cond_ops(s, op, want, depth=0):
        fn = s.fn
        op, _ = strip_bool(fn, op)
        i = fn.d(op)
        if i is None or depth > 6: return
        if i['op'] in ('and', 'or', 'select'):
            for x in i['ops']: s.cond_ops(x, want, depth + 1)
        elif i['op'] == 'phi':
            want(op)
            for x in i['ops']: s.cond_ops(x, want, depth + 1)
        elif i['op'] == 'icmp' and s.counts(i): 
            for x in i['ops']: want(x)

    def counts(s, i):
        """a comparison of quantities (not of types, pointers or characters)"""
        fn = s.fn
        if s.isptr(i['ops'][0]): return s.heap_phi(i['ops'][0])
        for x in i['ops']:
            if s.touches(x, set()): return True
        return False

    def touches(s, o, seen):
        fn = s.fn
        d = fn.d(o)
        if d is None or o in seen or len(seen) > 60: return False
        seen.add(o)
        if d['op'] == 'load':
            f = s.field(d['ops'][0])
            return f is not None and s.kind(f) in ('size', 'cap')
        if d['op'] == 'call': return False
        return any(s.touches(x, seen) for x in d['ops'])

    def kind(s, f):
        if f.name in SIZE: return 'size'
        if f.name in CAP: return 'cap'
        if f.type.endswith('*') and f.name not in ('active_iterators', 'iter', 'root', 'raw_bytes'): return 'block'
        return None

    # ------------------------------------------------------------ forms
    def val(s, st, op, depth=0):
        fn = s.fn
        k = const(op)
        if k is not None: return {'': k} if k else {}
        if op in st.regs:
            v = st.regs[op]
            return dict(v) if isinstance(v, dict) else {op: 1}
        i = fn.d(op)
        if i is None or depth > 20: return {fn.canon(op): 1}
        o = i['op']
        if o in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
            return s.val(st, i['ops'][0], depth + 1)
        if o in ('add', 'sub'):
            a = s.val(st, i['ops'][0], depth + 1); kb = const(i['ops'][1])
            if kb is not None and i.get('ty') == 'i32' and kb > 0x7fffffff: b = {'': kb - (1 << 32)}
            else: b = s.val(st, i['ops'][1], depth + 1)
            return add(a, b, 1 if o == 'add' else -1)
        if o in ('mul', 'shl'):
            for x, y in ((0, 1), (1, 0)):
                k = const(i['ops'][y])
                if k is not None and (o == 'mul' or y == 1):
                    return scale(s.val(st, i['ops'][x], depth + 1), k if o == 'mul' else 1 << k)
        if o in ('lshr', 'ashr', 'udiv', 'sdiv') and const(i['ops'][1]) not in (None, 0):
            k = const(i['ops'][1]); k = k if 'div' in o else 1 << k
            x = s.val(st, i['ops'][0], depth + 1)
            if all(c % k == 0 for c in x.values() if c == int(c)) and all(c == int(c) for c in x.values()): return {t: c // k for t, c in x.items()}
            a = '(%s/%d)' % (show(x), k)
            s.quot[a] = (x, k)
            if s.divisible(x, k):
                s.define(st, a, [add(scale({a: 1}, k), x, -1), add(x, {a: -k})], x)
                return {a: 1}
            s.define(st, a, [add(scale({a: 1}, k), x, -1), add(add(x, {'': -(k - 1)} if k > 1 else {}), {a: -k})], x)
            return {a: 1}
        if o in ('and', 'or'):
            k = const(i['ops'][1]); w = 1 << (32 if i.get('ty') == 'i32' else 64)
            if k is not None:
                ku = k % w
                x = s.val(st, i['ops'][0], depth + 1)
                if o == 'and':
                    m = w - 1 - ku       # clears the low bits
                    if m & (m + 1) == 0:
                        a = '(%s&~%d)' % (show(x), m)
                        s.define(st, a, [add({a: 1}, x, -1), add(add(x, {'': -m} if m else {}), {a: -1})], x)
                        return {a: 1}
                    a = '(%s&%d)' % (show(x), ku)
                    s.define(st, a, [add({a: 1}, x, -1), {a: 1, '': -ku}], x)
                    return {a: 1}
                if ku & (ku + 1) == 0:
                    a = '(%s|%d)' % (show(x), ku)
                    s.define(st, a, [add(x, {a: -1}), add({a: 1, '': -ku}, x, -1)], x)
                    return {a: 1}
        if o == 'select':
            c = s.truth(st, i['ops'][0])
            if c is not None: return s.val(st, i['ops'][1 if c else 2], depth + 1)
            x = s.val(st, i['ops'][1], depth + 1); y = s.val(st, i['ops'][2], depth + 1)
            if key(x) == key(y): return x
            a = 'sel' + op
            fs = []
            d = add(x, y, -1)
            s.define(st, a, [], dict(add(x, y)))
            return {a: 1}
        if o == 'shl' or o == 'lshr':
            x = s.ctlz(i)
            if x is not None and const(i['ops'][0]) == 2:
                v = s.val(st, x, depth + 1)
                a = '(pow2>%s)' % show(v)
                s.define(st, a, [add(add(v, {'': 1}), {a: -1})], v)
                return {a: 1}
        if o == 'load':
            c = fn.canon(op)
            if c != op and fn.d(c) is not None and (c in st.regs or fn.d(c)['op'] != 'load'): return s.val(st, c, depth + 1)
            return {c: 1}
        if o == 'phi':
            c = fn.canon(op)
            if c != op: return s.val(st, c, depth + 1)
        if o == 'call' and (fn.callee(i) or '').startswith('llvm.expect'): return s.val(st, i['ops'][0], depth + 1)
        c = fn.canon(op)
        a = c
        if o not in ('phi', 'call', 'load'):
            d = {}
            for x in i['ops']:
                if x[0] in '%c': d = add(d, {t: 1 for t in s.val(st, x, depth + 1) if t})
            s.define(st, a, [], {t: 1 for t in d})
        elif o == 'call':
            d = {}
            for x in i['ops']:
                if x[0] == '%' and (fn.d(x) or {}).get('ty') != 'ptr': d = add(d, {t: 1 for t in s.val(st, x, depth + 1) if t})
            if d: s.define(st, a, [], {t: 1 for t in d})
        return {a: 1}

    def divisible(s, x, k):
        r = 0
        for t, c in x.items():
            if c != int(c): return False
            m, v = s.residue(t)
            if int(c) * m % k: return False
            r += int(c) * v
        return r % k == 0

    def residue(s, t):
        """(modulus, residue) known of an atom; the constant term is its own residue"""
        if t == '': return 0, 1
        if t.startswith('(') and t.endswith(')'):
            for mark, one in (('&~', 0), ('|', 1)):
                tail = t[t.rindex(mark) + len(mark):-1] if mark in t else ''
                if tail.isdigit(): return int(tail) + 1, int(tail) * one
        if isobj(t, 'cap') and s.bits: return 64, 0
        return 1, 0

    def ctlz(s, i):
        """X of a shift amount computed from the leading zeros of X"""
        fn = s.fn
        todo = [i['ops'][1]]; seen = set()
        while todo:
            o = todo.pop()
            if o in seen or len(seen) > 12: continue
            seen.add(o)
            d = fn.d(o)
            if d is None: continue
            if d['op'] == 'call' and (fn.callee(d) or '').startswith('llvm.ctlz'): return d['ops'][0]
            if d['op'] in ('xor', 'sub', 'zext', 'trunc', 'sext', 'and', 'add'): todo += d['ops']
        return None

    def define(s, st, a, facts, deps):
        s.deps[a] = {t for t in deps if t}
        s.axioms[a] = frozenset(key(f) for f in facts)

    # ------------------------------------------------------------ conditions
    def truth(s, st, op, depth=0):
        """True / False when the condition is decided in this state"""
        fn = s.fn
        op, neg = strip_bool(fn, op)
        r = s.truth1(st, op, depth)
        return None if r is None else r != neg

    def truth1(s, st, op, depth):
        fn = s.fn
        k = const(op)
        if k is not None: return k != 0
        if op in st.regs and isinstance(st.regs[op], tuple) and depth < 6: return s.truth(st, st.regs[op][1], depth + 1)
        i = fn.d(op)
        if i is None or i['op'] != 'icmp': return None
        if i['ops'][0] not in s.rel and i['ops'][1] not in s.rel: return None
        if 'ptr' in (i.get('sty') or '') : return None
        D = s.diff(st, i)
        p = i['pred']
        if not atoms(D):
            d = D.get('', 0)
            return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p[-2:] if p not in ('eq', 'ne') else p]
        return None

    def cond_facts(s, st, op, truth, depth=0):
        """list of forms <= 0 implied by the condition"""
        fn = s.fn
        op, neg = strip_bool(fn, op)
        if neg: truth = not truth
        if op in st.regs and isinstance(st.regs[op], tuple) and depth < 6: return s.cond_facts(st, st.regs[op][1], truth, depth + 1)
        i = fn.d(op)
        if i is None or depth > 6: return []
        if i['op'] == 'and' and truth or i['op'] == 'or' and not truth:
            return s.cond_facts(st, i['ops'][0], truth, depth + 1) + s.cond_facts(st, i['ops'][1], truth, depth + 1)
        if i['op'] == 'select':
            c, x, y = i['ops']
            if const(y) == 0 and truth: return s.cond_facts(st, c, True, depth + 1) + s.cond_facts(st, x, True, depth + 1)
            if const(x) is not None and const(x) != 0 and not truth: return s.cond_facts(st, c, False, depth + 1) + s.cond_facts(st, y, False, depth + 1)
            return []
        if i['op'] != 'icmp':
            if op in s.rel or i['op'] == 'load':
                # a number used as a condition
                v = s.val(st, op)
                if op in st.regs or i['op'] != 'phi':
                    if truth: return [('ne', v)]
                    return [v]
            return []
        if i['pred'] in ('eq', 'ne'):
            for x, y in ((0, 1), (1, 0)):
                if i['ops'][y][0] == '@' or const(i['ops'][y]) == 0 and s.isptr(i['ops'][x]) or i['ops'][y] in ('null', 'cnull'):
                    same = truth == (i['pred'] == 'eq')
                    p = s.ptr(st, i['ops'][x])
                    lim = st.regs.get(('C', p)) or st.regs.get(('C', s.fn.canon(p)))
                    bv = s.raw_bytes(st, i['ops'][x])
                    if same and lim is not None: return [dict(lim)] + ([bv] if bv is not None else [])
                    if bv is None: return []
                    return [bv] if same else ([{'': 1}] if not bv and s.known_empty(st, i['ops'][x], i['ops'][y]) else [])
        if i['ops'][0] not in s.rel and i['ops'][1] not in s.rel: return []
        D = s.diff(st, i)
        p = i['pred']
        if not truth: p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}[p]
        if p == 'eq': return [D, scale(D, -1)]
        if p == 'ne': return [('ne', D)]
        p = p[-2:]
        if p == 'lt': return [add(D, {'': 1})]
        if p == 'le': return [D]
        if p == 'gt': return [add(scale(D, -1), {'': 1})]
        return [scale(D, -1)]

    def diff(s, st, i):
        """left operand minus right operand; a negative constant in an unsigned comparison is a huge number"""
        r = []
        for o in i['ops']:
            k = const(o)
            if k is not None and k < 0 and i['pred'][0] == 'u': r.append({'': 1 << 62})
            else: r.append(s.val(st, o))
        return add(r[0], r[1], -1)

    def isptr(s, o):
        d = s.fn.d(o)
        return d is not None and d.get('ty') == 'ptr'

    def known_empty(s, st, o, y):
        p = s.ptr(st, o)
        return p == y or const(p) == 0 and const(y) == 0 or p == 'null'

    def assume(s, st, fs):
        facts = set(st.facts)
        for f in fs:
            if isinstance(f, tuple):
                D = f[1]
                if s.proves(st, D): f = add(D, {'': 1})
                elif s.proves(st, scale(D, -1)): f = add(scale(D, -1), {'': 1})
                else: continue
            if not atoms(f):
                if f.get('', 0) > 0: return None        # contradiction
                continue
            facts.add(key(f))
        st.facts = frozenset(facts)
        # a contradiction makes the path impossible
        for f in fs:
            if isinstance(f, tuple): continue
            neg = add(scale(dict(f), -1), {'': 1})      # f >= 1
            if s.proves(st, neg): return None
        return st

    def all_facts(s, st, t):
        fs = set(st.facts); todo = list(atoms(t)); seen = set()
        for f in st.facts: todo += [a for a, c in f if a]
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            for f in s.axioms.get(a, ()):
                if f not in fs:
                    fs.add(f); todo += [x for x, c in f if x]
        for a in seen:
            if a in s.quot:
                x, k = s.quot[a]
                lo = s.lower(x, fs, 3)
                if lo is not None and lo // k > 0: fs.add(key({a: -1, '': lo // k}))
        return fs

    def lower(s, x, fs, depth):
        """an integer lower bound of a form"""
        r = x.get('', 0)
        for a, c in x.items():
            if not a: continue
            if c < 0: return None
            best = 0
            if depth:
                for f in fs:
                    fd = dict(f)
                    if fd.get(a, 0) < 0:
                        lo = s.lower({t: v for t, v in fd.items() if t != a}, fs, depth - 1)
                        if lo is not None: best = max(best, -(-lo // -fd[a]) if False else lo / -fd[a])
            r += c * best
        import math
        return math.ceil(r)

    def proves(s, st, t):
        t = {a: c for a, c in t.items() if c}
        if not any(c > 0 for c in t.values()): return True
        k = (key(t), st.facts)
        r = s.pc.get(k)
        if r is None: r = s.pc[k] = prove(t, s.all_facts(st, t))
        return r

    # ------------------------------------------------------------ objects
    def fresh(s, tag, st, r):
        """an object in an unknown consistent condition"""
        nm = s.names.get(r) or s.names.setdefault(r, 'o%d' % len(s.names))
        S, C, N = '%s.size@%s' % (nm, tag), '%s.cap@%s' % (nm, tag), '%s.block@%s' % (nm, tag)
        o = {'size': {S: 1}, 'cap': {C: 1}, 'block': {N: 1}, 'site': None}
        has = s.roots[r]
        facts = set(st.facts)
        if s.hascap(r):
            facts.add(key({S: 1, C: -1})); facts.add(key({C: 1, N: -1}))
        else:
            o['cap'] = None
            facts.add(key({S: 1, N: -1}))
        if not s.sized(r): o['block'] = None
        st.facts = frozenset(facts)
        st.objs[r] = o

    def hascap(s, r):
        if 'cap' in s.roots[r]: return True
        for nm in s.M.owners.get(s.fn.name, []):
            k = s.M.classes.get(nm)
            if k and k['layout'] and any(f.name in CAP for f in k['layout'].values()): return True
        return False

    def sized(s, r):
        """the class's storage has elements of one width"""
        for nm in s.M.owners.get(s.fn.name, []):
            k = s.M.classes.get(nm)
            if k and k['layout']:
                for f in k['layout'].values():
                    if s.kind(f) == 'block': return s.unit(r, f) is not None
        return True

    def unit(s, r, f):
        """storage units per allocated byte: (numerator, denominator)"""
        if f.name == 'entries_bits': return Fr(8)
        if f.name in ('entries_uint8', 'entries_raw', 'arData'): return None       # element width varies
        e = elem_size(s.M.P, f.type)
        return Fr(1, e) if e else None

    def bytes(s, st, i):
        fn = s.fn; n = fn.callee(i) or ''; ops = i['ops']
        if n.startswith('_emalloc_') and n[9:].isdigit(): return {'': int(n[9:])}
        if n in ('_emalloc', '__zend_malloc', 'emalloc', '_emalloc_large', '_emalloc_huge'): return s.val(st, ops[0])
        if n in ('_erealloc', 'erealloc', '_erealloc2'): return s.val(st, ops[1])
        k = 1 if n in ('_safe_erealloc', '_safe_realloc') else 0
        if n in ('_safe_emalloc', '_ecalloc', '_safe_erealloc', '_safe_realloc'):
            a, b = s.val(st, ops[k]), s.val(st, ops[k + 1])
            off = s.val(st, ops[k + 2]) if n != '_ecalloc' else {}
            if not atoms(b): return add(scale(a, b.get('', 0)), off)
            if not atoms(a): return add(scale(b, a.get('', 0)), off)
        return None

    def elements(s, st, i):
        """number of elements a block of unspecified element width is allocated for"""
        fn = s.fn; n = fn.callee(i) or ''; ops = i['ops']
        k = 1 if n in ('_safe_erealloc', '_safe_realloc') else 0
        if n not in ('_safe_emalloc', '_safe_erealloc', '_safe_realloc', '_ecalloc'): return None
        def width(op):
            if const(op) in (1, 2, 4, 8, 16): return True
            d = fn.d(op)
            while d is not None and d['op'] in ('zext', 'sext', 'trunc'): d = fn.d(d['ops'][0])
            return d is not None and d['op'] == 'load' and fn.addr(d['ops'][0])[0][0] == '@'
        a, b = ops[k], ops[k + 1]
        if width(b) and const(a) is None: return s.val(st, a)
        if width(a) and const(b) is None: return s.val(st, b)
        return None

    def block_value(s, st, op, f):
        """number of units the pointer's block can hold, or None"""
        fn = s.fn
        u = s.unit(None, f)
        if u is None:
            c = fn.canon(op)
            v = st.regs.get(('E', op)) or st.regs.get(('E', c))
            return dict(v) if v and f.name != 'arData' else None
        for _ in range(16):
            if op in st.regs and isinstance(st.regs[op], tuple) and st.regs[op][0] == 'ptr': op = st.regs[op][1]; continue
            i = fn.d(op)
            if i is None: break
            if i['op'] in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'): op = i['ops'][0]; continue
            c = fn.canon(op)
            if c != op: op = c; continue
            break
        if const(op) == 0 or op in ('null', 'cnull'): return {}
        if op[0] == '@': return {}
        i = fn.d(op)
        if i is None: return None
        if ('B', op) in st.regs: return scale(dict(st.regs['B', op]), u)
        if i['op'] == 'phi' and op in s.blocknames: return scale({s.blocknames[op]: 1}, u)
        return None

    # ------------------------------------------------------------ run
    def run(s):
        if not s.roots: return
        fn = s.fn
        s.names = {}; s.deps = {}; s.axioms = {}; s.pc = {}; s.blocknames = {}; s.quot = {}
        s.bits = any(v == 'bit_capacity' for r in s.roots.values() for v in r.values())
        s.backs = {}
        for b in fn.rpo:
            for t in fn.succ[b]:
                if t in fn.rpoidx and fn.dominates(t, b): s.backs.setdefault(t, set()).add(b)
        s.loops = {}
        for h, bs in s.backs.items():
            body = {h}; todo = list(bs)
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x); todo += [p for p in fn.pred[x] if p in fn.rpoidx]
            s.loops[h] = body
        s.loopmod = {}
        for h, body in s.loops.items():
            m = set()
            for b in body:
                for i in fn.blocks[b]:
                    if i['op'] == 'store':
                        f = s.field(i['ops'][1])
                        if f is not None and s.kind(f): m.add((s.root(i['ops'][1]), s.kind(f)))
                    elif i['op'] == 'call' and is_event(fn, i):
                        for r in s.roots:
                            if s.exposed(r) and not s.fixed: m |= {(r, k) for k in ('size', 'cap', 'block')}
            s.loopmod[h] = m
        # loop templates: integer and block phis of a header
        s.inv = {}
        for h in s.loops:
            ints, blks = [], []
            for i in fn.blocks[h]:
                if i['op'] != 'phi': break
                op = '%%%d' % i['i']
                if op not in s.rel or fn.canon(op) != op: continue
                if i.get('ty') == 'ptr':
                    if s.heap_phi(op): blks.append(op); s.blocknames[op] = 'bytes' + op
                elif i.get('ty') in ('i32', 'i64'): ints.append(op)
            c = {}
            for x in ints:
                for y in ints:
                    if x != y: c[x, y] = None
            s.inv[h] = dict(ints=ints, blks=blks, le=c, bounds=None)
        s.dropped = set()
        for rnd in range(8):
            s.changed = False; s.grew = set(); s.short = set(); s.used = set(); s.allowed = None
            s.sites = []; s.stats = {'store': 0, 'proved': 0, 'undecided': 0, 'check': 0}; s.seen_chk = {}
            s.sweep()
            if s.overflow or not s.changed: break
        # a loop relation counts as broken only when it does not even follow from itself
        if s.sites and s.used:
            ok = set()
            for c in set(s.used):
                s.forced = c; s.grew = set(); s.short = set()
                s.sites = []; s.sweep()
                if c in s.grew: ok.add(c)
            s.forced = None; s.allowed = ok; s.grew = set(); s.short = set(); s.sites = []
            s.stats = {'store': 0, 'proved': 0, 'undecided': 0, 'check': 0}
            s.sweep()

    def heap_phi(s, op):
        fn = s.fn; seen = set(); todo = [op]; hit = False
        while todo:
            o = todo.pop()
            if o in seen: continue
            seen.add(o)
            d = fn.d(o)
            if d is None: continue
            if d['op'] == 'phi' or d['op'] in ('bitcast', 'freeze'): todo += d['ops']
            elif d['op'] == 'call':
                n = fn.callee(d) or ''
                if is_alloc(n) or n in REALLOCS: hit = True
        return hit

    def exposed(s, r):
        if not hasattr(s, 'fixed'):
            own = s.M.owners.get(s.fn.name, [])
            s.fixed = bool(own) and all(c and c.startswith('Teds\\Immutable') for c in own) and not any(x in BUILDING for _, x in s.M.roles.get(s.fn.name, []))
        d = s.fn.d(r)
        return not (d is not None and d['op'] == 'call' and s.fn.callee(d) == 'zend_object_alloc')

    def sweep(s):
        fn = s.fn
        st = State()
        for r in s.roots:
            if s.exposed(r): s.fresh('entry', st, r)
        states = {fn.rpo[0]: {}}
        states[fn.rpo[0]][st.key()] = st
        done = {}
        for b in fn.rpo:
            ss = states.get(b)
            if not ss: continue
            if b in s.loops: ss = s.enter_loop(b, ss)
            if len(ss) > MAXD:
                ss = s.merge(b, ss)
            outs = []
            for st in ss.values():
                st = st.copy()
                ok = s.block(b, st)
                if ok: outs.append(st)
            for st in outs: s.leave(b, st, states)

    def merge(s, b, ss):
        """too many cases: keep one unknown case per object condition"""
        s.overflow = True
        out = {}
        for st in list(ss.values())[:MAXD]: out[st.key()] = st
        return out

    def leave(s, b, st, states):
        fn = s.fn
        term = fn.blocks[b][-1]
        ce = cond_edges(fn, b)
        succ = [t for t in dict.fromkeys(fn.succ[b]) if t in fn.rpoidx]
        if not succ:
            if term['op'] == 'ret': s.endpoint(st, term)
            return
        for t in succ:
            n = st.copy()
            if ce and ce[1] != ce[2]:
                tr = t == ce[1]
                d = s.truth(n, ce[0])
                if d is not None and d != tr: continue
                if s.interesting(n, ce[0]):
                    n = s.assume(n, s.cond_facts(n, ce[0], tr))
                    if n is None: continue
            elif term['op'] == 'switch' and term['ops'][0] in s.rel:
                vals = [const(c) for c, tt in term['cases'] if tt == t]
                if len(vals) == 1 and term['def'] != t:
                    v = add(s.val(n, term['ops'][0]), {'': vals[0]} if vals[0] else {}, -1)
                    n = s.assume(n, [v, scale(v, -1)])
                    if n is None: continue
            n = s.phis(b, t, n)
            s.prune(n, t)
            if t in s.loops and fn.dominates(t, b):
                s.back_edge(t, n)
                continue
            d = states.setdefault(t, {})
            k = n.key()
            if k not in d: d[k] = n

    def interesting(s, st, op):
        return True

    def phis(s, b, t, st):
        fn = s.fn
        new = {}
        for i in fn.blocks[t]:
            if i['op'] != 'phi': break
            op = '%%%d' % i['i']
            if op not in s.rel or fn.canon(op) != op: continue
            x = next((o for o, p in zip(i['ops'], i['in']) if p == b), None)
            if x is None: continue
            if i.get('ty') == 'ptr': new[op] = ('ptr', s.ptr(st, x))
            elif i.get('ty') == 'i1': new[op] = ('alias', s.alias(st, x))
            else: new[op] = s.val(st, x)
        st.regs.update(new)
        return st

    def ptr(s, st, x):
        for _ in range(8):
            v = st.regs.get(x)
            if isinstance(v, tuple) and v[0] == 'ptr' and v[1] != x: x = v[1]
            else: break
        return x

    def alias(s, st, x):
        v = st.regs.get(x)
        if isinstance(v, tuple) and v[0] == 'alias': return v[1]
        # a comparison that is decided where it is computed
        t = s.truth(st, x)
        if t is not None: return 'c1' if t else 'c0'
        return x

    # ------------------------------------------------------------ loops
    def enter_loop(s, h, ss):
        fn = s.fn
        inv = s.inv[h]
        mod = s.loopmod[h]
        out = {}
        for st in ss.values():
            # which template relations hold on entry
            for (x, y) in list(inv['le']):
                if x in st.regs and y in st.regs and isinstance(st.regs[x], dict) and isinstance(st.regs[y], dict):
                    if not s.proves(st, add(st.regs[x], st.regs[y], -1)): s.drop(h, ('le', x, y))
                else: s.drop(h, ('le', x, y))
            for q in inv['blks']:
                v = st.regs.get(q)
                for x in inv['ints']:
                    for u in (1, 8, 16, 32):
                        if (h, ('blk', x, q, u)) in s.dropped: continue
                        bv = s.raw_bytes(st, v[1]) if isinstance(v, tuple) else None
                        if bv is None or not isinstance(st.regs.get(x), dict) or not s.proves(st, add(scale(st.regs[x], u), bv, -1)): s.drop(h, ('blk', x, q, u))
            for r in list(st.objs):
                if any((r, k) in mod for k in ('size', 'cap', 'block')): s.check(st, r, fn.blocks[h][0])
            n = st.copy()
            facts = set()
            phis = {'%%%d' % i['i'] for i in fn.blocks[h] if i['op'] == 'phi'}
            # values that change in the loop become opaque
            kill = set(inv['ints']) | {s.blocknames[q] for q in inv['blks']}
            gone = set()
            for x in phis:
                v = n.regs.pop(x, None)
            body = s.loops[h]
            for k in [k for k in n.regs if isinstance(k, str) and fn.d(k) is not None and fn.d(k)['b'] in body or isinstance(k, tuple) and fn.d(k[1])['b'] in body]: del n.regs[k]
            for r in list(n.objs):
                ks = {k for rr, k in mod if rr == r}
                if ks:
                    old = n.objs[r]
                    slack = s.slack(n, r)
                    keep = {k: old[k] for k in ('size', 'cap', 'block') if k not in ks}
                    s.fresh('L%d' % h, n, r)
                    n.objs[r].update(keep)
                    n.objs[r]['unk'] = old.get('unk') or slack
                    # relate the kept parts to the new ones
                    o = n.objs[r]
                    fs = set(n.facts)
                    lo, hi = o['size'], o['cap']
                    if hi is not None: fs.add(key(add(lo, hi, -1)))
                    if o['block'] is not None:
                        fs.add(key(add(hi if hi is not None else lo, o['block'], -1)))
                    n.facts = frozenset(f for f in fs if any(a for a, c in f))
            n.facts = frozenset(f for f in n.facts if not any(a in kill for a, c in f))
            fs = set(n.facts)
            for (x, y) in inv['le']:
                if (h, ('le', x, y)) not in s.dropped or s.forced == (h, x, y): fs.add(key({x: 1, y: -1}))
            for q in inv['blks']:
                n.regs['B', q] = {s.blocknames[q]: 1}
                for x in inv['ints']:
                    for u in (1, 8, 16, 32):
                        if (h, ('blk', x, q, u)) not in s.dropped: fs.add(key({x: u, s.blocknames[q]: -1}))
            n.facts = frozenset(fs)
            out[n.key()] = n
        return out

    def slack(s, st, r):
        """room was made before the loop: what the loop may use up is not decided"""
        o = st.objs[r]
        if o['cap'] is None: return bool(o['block'] is None or atoms(o['block']) and not all(isobj(a) for a in atoms(o['block'])))
        return any(not isobj(a) for a in atoms(o['cap'])) or o['cap'].get('', 0) > 0 or \
            any(any(a in atoms(o['cap']) for a, c in f) and any(a and not isobj(a) for a, c in f) for f in st.facts)

    def drop(s, h, c):
        if (h, c) not in s.dropped: s.dropped.add((h, c)); s.changed = True

    def raw_bytes(s, st, p):
        fn = s.fn
        p = s.ptr(st, p)
        for _ in range(8):
            c = fn.canon(p)
            if c == p: break
            p = s.ptr(st, c)
        if const(p) == 0 or p in ('null', 'cnull') or p[0] == '@': return {}
        if ('B', p) in st.regs: return dict(st.regs['B', p])
        return None

    def back_edge(s, h, st):
        inv = s.inv[h]
        for (x, y) in inv['le']:
            a, b = st.regs.get(x), st.regs.get(y)
            if not isinstance(a, dict) or not isinstance(b, dict): s.drop(h, ('le', x, y)); continue
            if not s.proves(st, add(a, b, -1)):
                s.drop(h, ('le', x, y))
                if s.grown(x, y, a, b) or s.outdated(st, add(a, b, -1)): s.grew.add((h, x, y))
        for q in inv['blks']:
            v = st.regs.get(q)
            for x in inv['ints']:
                for u in (1, 8, 16, 32):
                    bv = s.raw_bytes(st, v[1]) if isinstance(v, tuple) else {s.blocknames[q]: 1}
                    a = st.regs.get(x)
                    if bv is None or not isinstance(a, dict): s.drop(h, ('blk', x, q, u)); continue
                    t = add(scale(a, u), bv, -1)
                    if not s.proves(st, t):
                        s.drop(h, ('blk', x, q, u))
                        # the block is smaller than the capacity by a definite amount
                        if a != {x: 1} and t and all(c > 0 for c in t.values()): s.short.add((h, x, q, u))
        for r in list(st.objs):
            if any((r, k) in s.loopmod[h] for k in ('size', 'cap', 'block')): s.check(st, r, s.fn.blocks[h][0])

    def grown(s, x, y, a, b):
        """x grew by a constant and y stayed: the path has no adequate test"""
        return set(a) <= {x, ''} and a.get(x) == 1 and a.get('', 0) > 0 and b == {y: 1}

    # ------------------------------------------------------------ statements
    def block(s, b, st):
        fn = s.fn
        for i in fn.blocks[b]:
            o = i['op']; op = '%%%d' % i['i']
            if o == 'load':
                f = s.field(i['ops'][0])
                if f is None: continue
                k = s.kind(f); r = s.root(i['ops'][0])
                if k is None or r not in st.objs: continue
                ob = st.objs[r]
                if k == 'size': st.regs[op] = dict(ob['size'])
                elif k == 'cap': 
                    if ob['cap'] is not None: st.regs[op] = add(ob['cap'], {'': -1}) if f.name == 'mask' else dict(ob['cap'])
                else:
                    u = s.unit(r, f)
                    st.regs['C', op] = dict(ob['cap'] if ob['cap'] is not None else ob['size'])
                    if u is not None and ob['block'] is not None: st.regs['B', op] = scale(ob['block'], 1 / u)
                    elif ('B', op) in st.regs: del st.regs['B', op]
            elif o == 'store':
                f = s.field(i['ops'][1])
                if f is None: continue
                k = s.kind(f); r = s.root(i['ops'][1])
                if k is None: continue
                if r not in st.objs:
                    st.objs[r] = {'size': {}, 'cap': {} if s.hascap(r) else None, 'block': {} if s.sized(r) else None, 'site': None}
                ob = st.objs[r]
                if k == 'size':
                    ob['size'] = s.val(st, i['ops'][0]); ob['site'] = i['i']
                elif k == 'cap':
                    ob['cap'] = s.mask(st, i['ops'][0]) if f.name == 'mask' else s.val(st, i['ops'][0]); ob['csite'] = i['i']
                else:
                    ob['block'] = s.block_value(st, i['ops'][0], f); ob['bsite'] = i['i']
            elif o == 'call':
                n = fn.callee(i) or ''
                if is_alloc(n) or n in REALLOCS:
                    v = s.bytes(st, i); e = s.elements(st, i)
                    if e is not None: st.regs['E', op] = e
                    else: st.regs.pop(('E', op), None)
                    if v is not None: st.regs['B', op] = v
                    elif ('B', op) in st.regs: del st.regs['B', op]
                    continue
                if n == 'zend_object_alloc':
                    for r in s.roots:
                        if r == op: st.objs.pop(r, None)
                    continue
                if n in NORETURN: return False
                if is_event(fn, i):
                    for r in list(st.objs):
                        if s.exposed(r) and not s.fixed:
                            s.check(st, r, i)
                            s.fresh('e%d' % i['i'], st, r)
        return True

    def mask(s, st, op):
        """capacity of a ring buffer whose mask is set to op"""
        fn = s.fn
        if const(op) == 0: return {}
        d = fn.d(op)
        while d is not None and d['op'] in ('zext', 'trunc', 'freeze'): op = d['ops'][0]; d = fn.d(op)
        if d is not None and d['op'] == 'select' and s.truth(st, d['ops'][0]) is None:
            for x, y in ((1, 2), (2, 1)):
                if const(d['ops'][y]) == 0: return add(s.val(st, d['ops'][x]), {'': 1})
        v = s.val(st, op)
        if not v: return {}
        return add(v, {'': 1})

    def endpoint(s, st, i):
        for r in list(st.objs): s.check(st, r, i)

    # ------------------------------------------------------------ the rule
    def check(s, st, r, at):
        o = st.objs[r]
        if o.get('unk'): s.stats['undecided'] += 1; return
        want = []
        if o['cap'] is not None:
            want.append(('size', o['size'], o['cap'], o.get('site')))
            if o['block'] is not None: want.append(('cap', o['cap'], o['block'], o.get('csite') or o.get('bsite')))
        elif o['block'] is not None:
            want.append(('size', o['size'], o['block'], o.get('site') or o.get('bsite')))
        for what, x, y, site in want:
            s.stats['check'] += 1
            t = add(x, y, -1)
            if s.proves(st, t): s.stats['proved'] += 1; continue
            v = s.judge(st, t, x, y)
            if v is None: s.stats['undecided'] += 1; s.und = getattr(s, 'und', []) + [(site, what, show(x), show(y))]; continue
            s.sites.append((site if site is not None else at['i'], at['i'], what, show(x), show(y), [show(dict(f)) for f in st.facts]))

    def judge(s, st, t, x, y):
        """'bad' when every quantity involved is understood, None when it is not decided"""
        left = {a for a in atoms(x)}
        for h, inv in s.inv.items():
            for a in left & set(inv['ints']):
                for z in inv['ints']:
                    if (h, a, z) in s.grew and (s.allowed is None or (h, a, z) in s.allowed) and s.proves(st, add({z: 1}, y, -1)):
                        s.used.add((h, a, z)); return 'bad'
                for q in inv['blks']:
                    for hh, xx, qq, u in s.short:
                        if hh != h or qq != q or s.blocknames[q] not in atoms(y) or y[s.blocknames[q]] != Fr(1, u): continue
                        if xx == a: return 'bad'
                        # ... and the count is only known to stay within that capacity
                        if any(dict(f).get(a) == 1 and dict(f).get(xx) == -1 for f in st.facts) or ('le', a, xx) in [('le',) + p for p in inv['le']]: return 'bad'
        opaque = lambda a: not isobj(a) and not s.axioms.get(a)
        # a comparison that is off by a constant
        for f in st.facts:
            d = add(t, dict(f), -1)
            if not atoms(d) and d.get('', 0) > 0 and any(a and not isobj(a) for a, c in f) and any(a and c > 0 for a, c in f) and any(a and c < 0 for a, c in f): return 'bad'
        # a bound that was checked against what the field was before code outside ran
        if s.outdated(st, t): return 'bad'
        # the limit is computed from what it has to cover, in a way that is not understood
        for a in atoms(y):
            if opaque(a) and s.reach(a) & (left | {b for l in left for b in s.reach(l)}) : return None
            if opaque(a) and not s.deps.get(a) : return None
        # a test on the path relates them through a quantity that is not understood
        for f in st.facts:
            fa = {a for a, c in f if a}
            if not fa & atoms(y): continue
            for a in fa - atoms(y) - left:
                if opaque(a): return None
        for f in st.facts:
            fa = {a for a, c in f if a}
            if fa & {a for a in left if isobj(a, 'size')} and any(opaque(a) and s.otherfield(a) for b in fa for a in s.reach(b)): return None
        grows = any(isobj(a, 'size') and c >= 1 for a, c in x.items())
        if not grows and any(opaque(b) for a in left for b in s.reach(a)): return None
        return 'bad'

    def outdated(s, st, t):
        pos = [a for a, c in t.items() if a and c > 0]; neg = [a for a, c in t.items() if a and c < 0]
        if not neg or not all(isobj(a) for a in neg) or not any(not isobj(a) for a in pos): return False
        def stale(p):
            for f in st.facts:
                fd = dict(f)
                if fd.get(p, 0) <= 0: continue
                for q, c in fd.items():
                    if q and c < 0 and isobj(q) and any(q.split('@')[0] == n.split('@')[0] and q != n for n in neg): return True
            return False
        return all(stale(p) for p in pos)

    def otherfield(s, a):
        d = s.fn.d(a)
        if d is None or d['op'] != 'load': return False
        f = s.field(d['ops'][0])
        return f is not None and s.kind(f) is None

    def reach(s, a):
        seen = set(); todo = [a]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x); todo += s.deps.get(x, ())
        return seen

def show(d):
    r = []
    for t, c in sorted(d.items(), key=lambda x: str(x[0])):
        c = int(c) if c == int(c) else c
        r.append(str(c) if t == '' else ('%s' if c == 1 else '%s*' % c + '%s') % t)
    return '+'.join(r) if r else '0'
