"""Methods accept and return what their declared signatures say."""
from flow import *
from model import *
from rules import common

LEVEL = 'other'
RULE = ('for every PHP-visible function: (arity) the accepted argument counts equal the declared ones; (param) each parsed parameter type is '
        'the declared one; (return) on every path that ends without a pending exception the return slot holds a type the signature declares; '
        '(class) every object a constructor hook, factory or clone builds carries the class it is declared to have and that class\' own handlers')
ASSUMPTIONS = ['a failed zend_call_function, parameter parse or object_init_ex leaves an exception pending',
               'ZEND_UNREACHABLE() marks unreachable code']
FLOORS = {'class': 60, 'arity': 500, 'return': 500, 'param': 150}
T_ANYMASK = 0x3fe
SPEC = {'l': T_LONG, 'z': T_ANYMASK, 's': T_STRING, 'S': T_STRING, 'b': T_BOOL, 'd': T_DOUBLE, 'a': T_ARRAY, 'h': T_ARRAY, 'H': T_ARRAY | T_OBJECT, 'O': T_OBJECT, 'o': T_OBJECT, 'f': T_CALLABLE}
PARSE = {'zend_parse_arg_long': T_LONG, 'zend_parse_arg_bool': T_BOOL, 'zend_parse_arg_str': T_STRING, 'zend_parse_arg_string': T_STRING,
         'zend_parse_arg_array_ht': T_ARRAY, 'zend_parse_arg_array': T_ARRAY, 'zend_parse_arg_iterable': T_ARRAY | T_OBJECT, 'zend_parse_arg_func': T_CALLABLE,
         'zend_parse_arg_zval_deref': T_ANYMASK, 'zend_parse_arg_zval': T_ANYMASK, 'zend_parse_arg_object': T_OBJECT, 'zend_parse_arg_double': T_DOUBLE, 'zend_parse_arg_obj': T_OBJECT}
ARG0 = 80   # first call argument in execute_data
ZSZ = 16

def typeset(fn, op, depth=0):
    k = const(op)
    if k is None: k = const(fn.canon(op))
    if k is not None: return frozenset([k & 0xff])
    i = fn.d(fn.canon(op))
    if i is not None and depth < 8:
        if i['op'] == 'phi':
            r = frozenset()
            for o in i['ops']: r |= typeset(fn, o, depth + 1)
            return r
        if i['op'] == 'select': return typeset(fn, i['ops'][1], depth + 1) | typeset(fn, i['ops'][2], depth + 1)
    return frozenset(['mixed'])

def writers(P):
    """functions kept as calls (recursive helpers) that fill the zval they are given: derive the type they store"""
    return {}

def fills(ctx, name):
    """types a kept (recursive) helper stores into its first parameter on every path, or None"""
    c = ctx.__dict__.setdefault('_fills', {})
    if name in c: return c[name]
    c[name] = None
    if name in ctx.P._raw:
        fn = ctx.fn(name)
        t = run_ret(ctx, fn, 'a0', frozenset(['unset']))
        if t and 'unset' not in t: c[name] = frozenset(t)
    return c[name]

def run_ret(ctx, fn, slot='a1', init=frozenset([1])):
    def tr1(st, i):
        ty, p = st
        if i['op'] == 'store':
            a = fn.addr(i['ops'][1])
            if a[0] == slot and a[1] == 8 and not a[2]: return (typeset(fn, i['ops'][0]), p)
        elif i['op'] == 'call':
            n = fn.callee(i)
            if n and n.startswith('llvm.memcpy') and fn.addr(i['ops'][0])[0] == slot: return (frozenset(['mixed']), p)
            if n == 'zend_create_internal_iterator_zval': return (frozenset([8]), p)
            if throws(fn, i): return (ty, 'pend')
            if n and i['ops'] and i['at'][0] == 'ptr' and fn.addr(i['ops'][0]) == (slot, 0, ()):
                if n == 'zend_new_array' or n == '_array_init': return (frozenset([7]), p)
                if n in ctx.P._raw:
                    t = fills(ctx, n)
                    if t: return (t, p)
                if n in ctx.P.cg or n == 'object_init_ex': return (frozenset([8] if n == 'object_init_ex' else ['mixed']), p)
        return st
    def tr(S, i):
        if i['op'] not in ('store', 'call'): return S
        return frozenset(tr1(s, i) for s in S)
    def ed(S, b, s):
        if s in pending_edges(fn, b): return frozenset((t, 'pend') for t, _ in S)
        return S
    inn, outs = forward(fn, frozenset([(init, 'no')]), tr, lambda a, b: a | b, ed)
    res = set()
    for b in fn.rpo:
        if b in outs and fn.blocks[b][-1]['op'] == 'ret':
            for ty, p in outs[b]:
                if p == 'no': res |= ty
    return res

def tname(t): return {1:'null',2:'false',3:'true',4:'int',5:'float',6:'string',7:'array',8:'object',9:'resource'}.get(t, str(t))

def arity(ctx, fn):
    """[(min, max or -1)] parsed, plus parameter types when recoverable"""
    out = []
    for i in fn.I.values():
        if i['op'] != 'call': continue
        n = fn.callee(i)
        if n == 'zend_wrong_parameters_none_error': out.append((0, 0))
        elif n == 'zend_wrong_parameters_count_error':
            lo, hi = const(i['ops'][0]), const(i['ops'][1])
            out.append((lo, -1 if hi in (-1, 4294967295) else hi))
        elif n in ('zend_parse_parameters', 'zend_parse_parameters_ex'):
            sp = ctx.M._str(i['ops'][1 if n == 'zend_parse_parameters' else 2])
            if sp is None: continue
            lo = hi = 0; opt = False; var = False
            for ch in sp:
                if ch == '|': opt = True
                elif ch in '!/': pass
                elif ch == '*': var = True
                elif ch == '+': var = True; lo += 1
                else:
                    hi += 1
                    if not opt: lo += 1
            out.append((lo, -1 if var else hi))
    return out

def check_params(ctx, res, fn, who, sig):
    for i in fn.I.values():
        if i['op'] != 'call': continue
        n = fn.callee(i)
        if n in PARSE:
            a = fn.addr(i['ops'][0])
            if a[0] != 'a0' or a[2] or (a[1] - ARG0) % ZSZ: continue
            idx = (a[1] - ARG0) // ZSZ
            res.ob('param', 1, '%s arg %d via %s' % (who, idx + 1, n))
            variadic = False
            if idx >= len(sig.args): continue
            nm, mask, cls, dflt = sig.args[idx]
            want = PARSE[n]
            m = mask & 0x3fff
            if want == T_CALLABLE: ok = bool(mask & T_CALLABLE) or cls == 'Closure'
            elif want == T_ANYMASK: ok = True if (m & T_ANYMASK) == T_ANYMASK else None
            elif n == 'zend_parse_arg_iterable': ok = bool(mask & T_ARRAY) and cls is not None or bool(mask & T_ITERABLE)
            elif want == T_OBJECT: ok = cls is not None or bool(mask & T_OBJECT)
            else: ok = (m & ~T_NULL) == want
            if ok is False:
                res.bad('param', '%s:%d' % (who, idx), fn.locstr(i), '%s parses argument %d ($%s) with %s, which is not its declared type (mask %#x)' % (who, idx + 1, nm, n, mask))
        elif n == 'zend_parse_parameters':
            sp = ctx.M._str(i['ops'][1])
            if not sp: continue
            idx = 0
            for ch in sp:
                if ch in '|!/*+': continue
                res.ob('param')
                if idx < len(sig.args):
                    nm, mask, cls, dflt = sig.args[idx]
                    want = SPEC.get(ch)
                    if want is not None and want != T_ANYMASK:
                        ok = (cls is not None) if want == T_OBJECT else bool(mask & T_CALLABLE) if want == T_CALLABLE else (mask & 0x3ffe & ~T_NULL) == want
                        if not ok: res.bad('param', '%s:%d' % (who, idx), fn.locstr(i), '%s parses argument %d ($%s) as "%s", which is not its declared type' % (who, idx + 1, nm, ch))
                idx += 1

def run(ctx, res):
    M = ctx.M
    class_rule(ctx, res)
    items = []
    for nm, k in M.classes.items():
        for pn, (f, sig, na, fl) in k['methods'].items(): items.append(('%s::%s' % (nm, pn), f, sig))
    for pn, (f, sig, na, fl) in M.functions.items(): items.append((pn, f, sig))
    VAR = 1 << 26
    for who, f, sig in items:
        if f not in ctx.P._raw or sig is None: continue
        fn = ctx.fn(f, res)
        variadic = bool(sig.args) and bool(sig.args[-1][1] & VARIADIC)
        want = (sig.required, -1 if variadic else len(sig.args))
        got = arity(ctx, fn)
        if got:
            res.ob('arity', 1, '%s: %s' % (who, want))
            for g in got:
                if g != want:
                    res.bad('arity', who, fn.locstr(fn.blocks[0][-1]), '%s declares %s arguments but its implementation %s accepts %s' % (who, want, f, g))
        else:
            res.ob('arity-unparsed', 1, who)
            if sig.args: pass
        check_params(ctx, res, fn, who, sig)
        r = run_ret(ctx, fn)
        res.ob('return', 1, '%s: %s' % (who, sorted(map(tname, r))))
        m = sig.ret_mask; obj = sig.ret_ptr is not None
        if m == 0 and not obj: continue
        for t in sorted(r, key=str):
            if t == 'mixed': ok = (m & T_ANYMASK) == T_ANYMASK or (m & T_ANYMASK) == 0 and False
            elif m & T_VOID: ok = t == 1
            elif t == 8: ok = obj or bool(m & (T_STATIC | T_OBJECT))
            else: ok = bool(m >> t & 1)
            if not ok:
                res.bad('return', '%s:%s' % (who, tname(t)), '%s:%d (%s)' % (fn.file, fn.line, f),
                        '%s can return %s without throwing, which its declared return type (mask %#x%s) does not allow' % (who, tname(t), m, ' ' + sig.ret_ptr if obj else ''))

VARIADIC = 1 << 27

def resolve(fn, op, depth=0):
    op = fn.canon(op)
    i = fn.d(op)
    if i is not None and depth < 6:
        if i['op'] == 'phi': return set().union(*[resolve(fn, o, depth + 1) for o in i['ops'] if o != op])
        if i['op'] == 'select': return resolve(fn, i['ops'][1], depth + 1) | resolve(fn, i['ops'][2], depth + 1)
        if i['op'] == 'load':
            a = fn.addr(i['ops'][0])
            return {'*' + a[0]} if not a[2] else {op}
    return {op}

def class_rule(ctx, res):
    M = ctx.M; P = ctx.P
    HOFF = P.field_off('_zend_object', 'handlers'); CEOFF = P.field_off('_zend_object', 'ce')
    short = {k: k.split('\\')[-1] for k in M.classes if k}
    for fn in ctx.fns(res):
        if fn.name.startswith('zm_'): continue
        inits = [i for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) == 'zend_object_std_init']
        if not inits: continue
        for i in inits:
            o = fn.addr(i['ops'][0])
            hs = set()
            for j in fn.I.values():
                if j['op'] == 'store':
                    a = fn.addr(j['ops'][1])
                    if a[0] == o[0] and not a[2] and a[1] == o[1] + HOFF: hs |= resolve(fn, j['ops'][0])
            hs = {h[len('@teds_handler_'):] for h in hs if h.startswith('@teds_handler_')}
            ces = resolve(fn, i['ops'][1])
            res.ob('class', 1, '%s: %s handlers %s' % (fn.name, sorted(ces), sorted(hs)))
            named = {c[len('*@teds_ce_'):] for c in ces if c.startswith('*@teds_ce_')}
            if not hs:
                res.bad('class', fn.src + ':nohandlers', fn.locstr(i), '%s creates an object without installing its class handlers' % fn.name); continue
            for c in named:
                if c not in hs:
                    res.bad('class', '%s:%s' % (fn.src, c), fn.locstr(i), '%s creates a %s but installs handlers of %s' % (fn.name, c, sorted(hs)))
            for nm, role in M.roles.get(fn.name, []):
                if nm is None: continue
                own = short[nm]
                if role in ('create', 'handler:clone_obj'):
                    if own not in hs: res.bad('class', '%s:%s' % (fn.src, own), fn.locstr(i), '%s (%s of %s) installs handlers of %s' % (fn.name, role, nm, sorted(hs)))
                elif role.startswith('method:'):
                    sig = M.classes[nm]['methods'][role[7:]][1]
                    want = own if role == 'method:__set_state' or sig.ret_ptr in ('self', 'static') else (sig.ret_ptr or '').split('\\')[-1]
                    if want in short.values() and named and want not in named:
                        res.bad('class', '%s:%s' % (fn.src, want), fn.locstr(i), '%s::%s must return a %s but builds a %s' % (nm, role[7:], want, sorted(named)))
                    if want == own and not named and ces:
                        if not any(c == '*a0' or c.startswith('*L(a0,32') for c in ces):
                            res.bad('class', '%s:%s:ce' % (fn.src, want), fn.locstr(i), '%s::%s builds an object of an unrelated class' % (nm, role[7:]))
