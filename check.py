#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property statically on /repo's current tree."""
import sys, os, json, time, importlib, argparse, traceback
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.setrecursionlimit(20000)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true'); ap.add_argument('--evidence', default=os.path.join(V, 'evidence'))
    a = ap.parse_args()
    t0 = time.time()
    import frontend, ir, core
    mod = importlib.import_module('rules.' + a.prop.lower())
    try:
        res = core.run(mod, a.prop, a.tier, a.v)
    except (ir.AnalysisBroken, frontend.FrontendError) as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (a.prop, e)); return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % a.prop); return 3
    known = json.load(open(os.path.join(V, 'known_findings.json')))
    kf = {(k['property'], k['key']): k for k in known['findings']}
    viol = []; knownhit = []
    for f in res.findings:
        k = kf.get((a.prop, f.key))
        if k: knownhit.append((f, k))
        else: viol.append(f)
    for f, k in knownhit: print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': mod.LEVEL, 'coverage': res.coverage(mod), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol), 'assumptions': mod.ASSUMPTIONS,
          'known_findings': [k['key'] for _, k in knownhit]}
    os.makedirs(a.evidence, exist_ok=True)
    rep = os.path.join(a.evidence, a.prop + '.report.txt')
    with open(rep, 'w') as fh:
        fh.write('property %s, rule(s): %s\n' % (a.prop, mod.RULE))
        for f in viol: fh.write('VIOLATION %s\n  where: %s\n  %s\n' % (f.key, f.where, f.msg))
        for f, k in knownhit: fh.write('KNOWN %s\n  where: %s\n  %s\n' % (f.key, f.where, f.msg))
    with open(os.path.join(a.evidence, a.prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('property %s: %s; %.1fs' % (a.prop, res.summary(), time.time() - t0))
    for f in viol[:40]: print('  %s: %s [%s]' % (f.where, f.msg, f.key))
    if viol:
        print('VIOLATION property=%s replay=%s' % (a.prop, rep))
        return 1
    return 0
sys.exit(main())
