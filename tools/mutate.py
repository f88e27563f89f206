#!/usr/bin/env python3
"""Mutation workbench: mutate.py LIST.json OUT.jsonl [-p P01,P04] [-j 8]
LIST.json: [{"id":..., "file":..., "line":N, "old":..., "new":...}, ...] single-line edits of /repo's sources.
For each mutant: compiles it to IR, runs the rule modules in-process; for mutants no rule reports, builds the
extension in a scratch copy and runs the existing tests.  Development aid only: no check uses it."""
import sys, os, json, subprocess, shutil, importlib, argparse, glob, tempfile, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine'); sys.setrecursionlimit(20000)
SCR = '/tmp/w/mut'
def base():
    import frontend
    frontend.build_ir()
    b = SCR + '/base'
    if not os.path.exists(b + '/.done') or os.path.getmtime(b + '/.done') < max(os.path.getmtime(f) for f in glob.glob('/repo/*.[ch]')):
        shutil.rmtree(b, ignore_errors=True); os.makedirs(b)
        compile_(frontend, '/repo', sorted(glob.glob('/repo/*.c')) + [frontend.HERE + '/include/probe.c'], b)
        open(b + '/.done', 'w').close()
    return b
def compile_(frontend, repo, cs, out):
    inc = subprocess.run(['php-config8.3', '--includes'], stdout=subprocess.PIPE, text=True).stdout.split()
    flags = ['-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-w', '-DHAVE_CONFIG_H', '-DCOMPILE_DL_TEDS=1', '-DZEND_COMPILE_DL_EXT=1',
             '-ffile-prefix-map=%s/=/repo/' % repo, '-I' + repo, '-I' + os.path.join(frontend.HERE, 'include')] + inc
    for c in cs:
        o = os.path.join(out, os.path.basename(c) + '.ll')
        if os.path.exists(o): os.remove(o)
        r = subprocess.run(['clang-18'] + flags + ['-S', '-emit-llvm', c, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return r.stdout
def work(a):
    m, props, tests, slot = a
    import frontend, core, ir
    d = '%s/w%d' % (SCR, slot)
    src = d + '/src'
    os.makedirs(src, exist_ok=True)
    for f in glob.glob('/repo/*.[ch]'): shutil.copy(f, src)
    p = src + '/' + m['file']
    L = open(p).read().split('\n')
    n = m['line'] - 1
    if 'text' in m:
        s = open(p).read().replace(m['old'], m['new'], 1); open(p, 'w').write(s)
    else:
        if m['old'] not in L[n]: return dict(m, res='BADEDIT')
        L[n] = L[n].replace(m['old'], m['new'], 1); open(p, 'w').write('\n'.join(L))
    ll = d + '/ll'; shutil.rmtree(ll, ignore_errors=True); os.makedirs(ll)
    b = SCR + '/base'
    cs = [p] if p.endswith('.c') else sorted(glob.glob(src + '/*.c'))
    names = [os.path.basename(c) for c in sorted(glob.glob('/repo/*.c'))] + ['probe.c']
    for x in names: os.symlink(b + '/' + x + '.ll', ll + '/' + x + '.ll')
    for c in cs: os.remove(ll + '/' + os.path.basename(c) + '.ll')
    e = compile_(frontend, src, cs, ll)
    if e: return dict(m, res='NOCOMPILE', out=e[:300])
    out = d + '/out.jsonl'
    r = subprocess.run([frontend.TOOL, '/repo', out] + [ll + '/' + x + '.ll' for x in names], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return dict(m, res='NODUMP', out=r.stdout[:300])
    hit = []; msg = ''
    try: c = core.Ctx(out); c.tier = 'quick'
    except Exception as ex: return dict(m, res='BROKEN', out=repr(ex))
    for pr in props:
        mod = importlib.import_module('rules.' + pr.lower())
        res = core.Result()
        try:
            mod.run(c, res)
            for rule, k in mod.FLOORS.items(): res.floor(rule, k)
        except Exception as ex:
            hit.append(pr + '!BROKEN'); msg += repr(ex)[:200]; continue
        if res.findings: hit.append(pr); msg += ' %s: %s %s' % (res.findings[0].key, res.findings[0].where, res.findings[0].msg[:150])
    if tests == 'no': return dict(m, res='CAUGHT' if hit else 'SURVIVED', hit=hit, out=msg)
    if hit and not tests == 'all': return dict(m, res='CAUGHT', hit=hit, out=msg)
    t = test(m, d, p)
    return dict(m, res=('CAUGHT' if hit else 'SURVIVED') if t is None else 'TESTS', hit=hit, out=msg + ('' if t is None else str(t)))
def test(m, d, p):
    """builds the mutated extension and runs the tests: None when the stable tests pass"""
    bd = d + '/build'
    if not os.path.exists(bd + '/Makefile'):
        shutil.rmtree(bd, ignore_errors=True); subprocess.run(['cp', '-a', '/repo', bd]); shutil.rmtree(bd + '/.git', ignore_errors=True)
        mk = open(bd + '/Makefile').read().replace('/repo', bd); open(bd + '/Makefile', 'w').write(mk)
        lt = open(bd + '/libtool').read().replace('/repo', bd); open(bd + '/libtool', 'w').write(lt)
        for f in glob.glob(bd + '/*.dep'): os.remove(f)
        prev = []
    st = bd + '/.mutated'
    ch = set([m['file']]) | (set(open(st).read().split()) if os.path.exists(st) else set())
    for f in glob.glob('/repo/*.[ch]'):
        t = bd + '/' + os.path.basename(f)
        if open(f, 'rb').read() != open(t, 'rb').read(): shutil.copyfile(f, t)
    shutil.copyfile(p, bd + '/' + m['file'])
    open(st, 'w').write(m['file'])
    cs = set()
    for f in ch:
        if f.endswith('.h'): cs |= {os.path.basename(x) for x in glob.glob(bd + '/*.c')}
        else: cs.add(f)
    for f in cs:
        for e in ('.lo', '.o', '.dep'):
            for q in (bd + '/' + f[:-2] + e, bd + '/.libs/' + f[:-2] + e):
                if os.path.exists(q): os.remove(q)
    r = subprocess.run(['make', '-j2'], cwd=bd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return 'build: ' + r.stdout[-300:]
    res = bd + '/res.txt'
    if os.path.exists(res): os.remove(res)
    env = dict(os.environ, NO_INTERACTION='1', NO_COLOR='1', TEST_PHP_EXECUTABLE='/usr/bin/php8.3', TEST_PHP_SRCDIR=bd)
    try: subprocess.run(['php8.3', '-n', 'run-tests.php', '-n', '-q', '-j3', '-W', res, '-d', 'extension_dir=%s/modules' % bd, '-d', 'extension=teds.so', 'tests'], cwd=bd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
    except subprocess.TimeoutExpired: return 'timeout'
    bl = json.load(open('/opt/vp/BASELINE.json')); stable = set(bl.get('stable') or bl.get('passed') or bl)
    ok = set()
    if os.path.exists(res):
        for l in open(res, errors='replace'):
            f = l.rstrip('\n').split('\t')
            if len(f) > 1 and f[0] == 'PASSED': ok.add(f[1].replace(bd + '/', '').split(' ')[0])
    miss = stable - ok
    return None if not miss else '%d tests: %s' % (len(miss), sorted(miss)[:2])
def run1(a):
    import multiprocessing as mp
    slot = int(mp.current_process().name.split('-')[-1])
    try: return work(a[:3] + (slot,))
    except Exception: return dict(a[0], res='ERR', out=traceback.format_exc()[-400:])
if __name__ == '__main__':
    ap = argparse.ArgumentParser(); ap.add_argument('list'); ap.add_argument('out'); ap.add_argument('-p', default=''); ap.add_argument('-j', type=int, default=7); ap.add_argument('--tests', default='missed')
    a = ap.parse_args()
    base()
    L = json.load(open(a.list))
    props = a.p.split(',') if a.p else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    import multiprocessing as mp, collections
    cnt = collections.Counter()
    with mp.Pool(a.j) as pool, open(a.out, 'w') as fh:
        for r in pool.imap_unordered(run1, [(m, props, a.tests, 0) for m in L]):
            cnt[r['res']] += 1; fh.write(json.dumps(r) + '\n'); fh.flush()
    print(dict(cnt))
