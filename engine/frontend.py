"""Compiles /repo's current C sources to LLVM IR and flattens them with tedsdump.

The dump is cached under /verif/build/cache, keyed by the content of every
source file, of PHP's flags and of the dumper itself."""
import os, sys, glob, hashlib, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TEDS_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'tedsdump')

class FrontendError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def sources():
    cs = sorted(glob.glob(os.path.join(REPO, '*.c')))
    if len(cs) < 10: raise FrontendError('only %d C files found in %s' % (len(cs), REPO))
    return cs

def build_ir(tier='quick', extra=()):
    """returns the path of the JSONL dump"""
    rc, out = sh(['bash', os.path.join(HERE, 'build_tool.sh')])
    if rc or not os.path.exists(TOOL): raise FrontendError('cannot build tedsdump:\n' + out)
    rc, inc = sh(['php-config8.3', '--includes'])
    if rc: raise FrontendError('php-config8.3 failed')
    h = hashlib.sha256()
    files = sources() + sorted(glob.glob(os.path.join(REPO, '*.h')) + glob.glob(os.path.join(REPO, '*', '*.h')))
    for f in files:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(open(TOOL, 'rb').read()); h.update(open(os.path.join(HERE, 'include', 'probe.c'), 'rb').read()); h.update(inc.encode()); h.update(repr(extra).encode())
    cache = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(cache, exist_ok=True)
    dst = os.path.join(cache, h.hexdigest()[:24] + '.jsonl')
    if os.path.exists(dst):
        os.utime(dst)
        return dst
    tmp = tempfile.mkdtemp(prefix='teds-ir.', dir=os.path.join(VERIF, 'build'))
    try:
        flags = ['-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-w',
                 '-DHAVE_CONFIG_H', '-DCOMPILE_DL_TEDS=1', '-DZEND_COMPILE_DL_EXT=1', '-I' + REPO,
                 '-I' + os.path.join(HERE, 'include')] + inc.split() + list(extra)
        procs = []
        lls = []
        for c in sources() + [os.path.join(HERE, 'include', 'probe.c')]:
            o = os.path.join(tmp, os.path.basename(c) + '.ll')
            lls.append(o)
            procs.append((c, subprocess.Popen(['clang-18'] + flags + ['-S', '-emit-llvm', c, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for c, p in procs:
            out, _ = p.communicate()
            if p.returncode: raise FrontendError('%s does not compile:\n%s' % (c, out[:4000]))
        part = os.path.join(tmp, 'out.jsonl')
        rc, out = sh([TOOL, REPO, part] + lls)
        if rc: raise FrontendError('tedsdump failed:\n' + out[:4000])
        for old in sorted(glob.glob(os.path.join(cache, '*.jsonl')), key=os.path.getmtime)[:-5]: os.remove(old)
        os.replace(part, dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst
