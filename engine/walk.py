"""Loops that release the elements of a block before the block is freed: do they cover all of it?"""
from fractions import Fraction
from ir import *
from flow import *
from model import obj_field, elem_size
from lin import lin, induction, add
from own import DTORS, loops
from heap import bases

def loop_map(fn):
    L = loops(fn)
    return L[1] if isinstance(L, tuple) else L

def release_walks(ctx, fn, res):
    """[(instruction, message)]: a walk that releases elements of a block given up afterwards starts after the first element, or ends before the last"""
    from rules.p13 import loop_range, form_eq
    from rules.p06 import show
    M = ctx.M; out = []
    ds = [i for i in fn.I.values() if i['op'] == 'call' and fn.callee(i) in DTORS and i['b'] in fn.rpoidx]
    if not ds: return out
    frees = [i for i in fn.I.values() if i['op'] == 'call' and is_free(fn.callee(i) or '')]
    if not frees: return out
    given = set()
    for i in frees:
        for t in lin(M, fn, i['ops'][0]): given.add(t)
        given |= set(bases(fn, i['ops'][0]))
    LM = loop_map(fn)
    walks = {}
    for i in ds:
        hs = [h for h, L in LM.items() if i['b'] in L]
        if not hs: continue
        h = min(hs, key=lambda h: len(LM[h])); L = LM[h]
        lr = loop_range(M, fn, h, L)
        if lr is None: continue
        inds, n = lr
        a = lin(M, fn, i['ops'][0])
        ts = [t for t in a if t in inds]
        if len(ts) != 1: continue
        c = a[ts[0]]; start, step = inds[ts[0]][1]
        lo = add({t: v for t, v in a.items() if t != ts[0]}, start, c)
        d = c * step
        span = {t: Fraction(v) * d for t, v in n.items()}
        if d < 0:
            lo = {t: v for t, v in add(lo, add(span, {'': -d})).items() if v}
            span = {t: -v for t, v in span.items()}
        base = [t for t in lo if t in given and lo[t] == 1]
        if len(base) != 1: continue
        B = base[0]
        walks.setdefault((h, B), []).append((i, lo, d, span, L))
    for (h, B), ws in sorted(walks.items(), key=str):
        # the same block may be walked by several loops (one per part): judge only a single one
        if len({x[0] for x in walks if x[1] == B}) > 1: continue
        i, lo, d, span, L = min(ws, key=lambda w: w[1].get('', 0))
        off = {t: v for t, v in lo.items() if t != B}
        off = {t: v for t, v in off.items() if v}
        res.ob('release-walk', sample='%s: from %s, %s bytes' % (fn.name, show(off), show(span)))
        if set(off) <= {''} and off.get('', 0) >= abs(d): out.append((i, 'gives up a block after releasing its elements from the second one on only'))
        elif set(off) <= {''} and off.get('', 0) < 0: out.append((i, 'releases something in front of the first element of a block'))
        elif all(t == '' or t.startswith('F:') for t in off) and set(off) - {'', 'F:nFirstUsed'}: out.append((i, 'gives up a block after releasing its elements from %s on only' % show(off)))
        # the end
        end = add(off, span)
        f = B.startswith('F:')
        if f and all(t == '' or t.startswith('F:') for t in end):
            cnt = [t for t in end if t in ('F:size', 'F:nNumUsed', 'F:bit_size')]
            if len(cnt) == 1 and set(end) <= {cnt[0], ''}:
                k = end.get('', 0)
                if -k >= abs(d) or end[cnt[0]] * 1 < abs(d): out.append((i, 'gives up a block after releasing only part of its elements (%s bytes)' % show(end)))
        elif not f:
            # fresh block: up to where it has been filled
            fills = set()
            for s in fn.I.values():
                if s['op'] == 'store' and s['b'] not in L:
                    ad = lin(M, fn, s['ops'][1])
                    if B in ad or any(B in bases(fn, t) for t in ad if t[:1] == '%'):
                        if B in bases(fn, s['ops'][1]): fills |= {t for t in ad if t != B and t != '' }
            full = dict(end); full[B] = full.get(B, 0) + 1
            vs = [t for t in full if t in fills and t != '']
            if len(vs) == 1 and full.get('', 0) <= -abs(d) and abs(full[vs[0]]) in (1, abs(d)): out.append((i, 'gives up a block it was filling without releasing the last elements put into it'))
    return out
