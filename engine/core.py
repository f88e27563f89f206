"""Shared driver pieces: findings, results with instance floors, program loading."""
import os, sys, collections
import frontend, ir, model
from ir import AnalysisBroken

class Finding:
    def __init__(s, key, where, msg): s.key = key; s.where = where; s.msg = msg

class Result:
    def __init__(s):
        s.findings = []; s.keys = set()
        s.n = collections.Counter()     # obligations per rule
        s.samples = {}
        s.functions = set()
    def ob(s, rule, k=1, sample=None):
        s.n[rule] += k
        if sample is not None:
            L = s.samples.setdefault(rule, [])
            if len(L) < 8: L.append(sample)
    def bad(s, rule, ident, where, msg):
        key = '%s|%s' % (rule, ident)
        if key in s.keys: return
        s.keys.add(key)
        s.findings.append(Finding(key, where, msg))
    def floor(s, rule, k):
        if s.n[rule] < k:
            raise AnalysisBroken('rule %s matched %d instances, at least %d expected' % (rule, s.n[rule], k))
    def summary(s):
        return '%d functions analysed, obligations %s, %d finding(s)' % (len(s.functions), dict(s.n), len(s.findings))
    def coverage(s, mod):
        tot = sum(s.n.values())
        return {'explanation': mod.RULE, 'functions_analysed': len(s.functions), 'obligations': tot, 'discharged': tot - len(s.findings),
                'per_rule': dict(s.n), 'samples': s.samples, 'unit_count': len(frontend.sources()),
                'checker_cmd': 'python3 /verif/check.py', 'trusted_base': ['clang-18 front end', 'engine/tedsdump.cpp flattening', 'engine/*.py rule implementation', 'tables of PHP API effects in engine/ir.py']}

class Ctx:
    def __init__(s, dump):
        s.P = ir.Program(dump); s.M = model.Model(s.P)
    def fns(s, res=None):
        for n in s.P.names():
            f = s.P.fn(n)
            if not f.vnctx: ir.number_memory(f); f.vnctx = True
            if res is not None: res.functions.add(n)
            yield f
    def fn(s, n, res=None):
        if n not in s.P._raw: raise AnalysisBroken('function %s not found' % n)
        f = s.P.fn(n)
        if not f.vnctx: ir.number_memory(f); f.vnctx = True
        if res is not None: res.functions.add(n)
        return f

def run(mod, prop, tier, verbose):
    dump = frontend.build_ir(tier)
    c = Ctx(dump)
    c.tier = tier
    r = Result()
    mod.run(c, r)
    for rule, k in mod.FLOORS.items(): r.floor(rule, k)
    return r
