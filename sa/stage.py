"""Stage /repo's current tree as its configure script does, and compile every translation unit of the
library and of the command-line programs to textual LLVM IR with clang (debug info, OpenMP on, -O0 + mem2reg)."""
import os, sys, subprocess, shutil, tempfile, glob, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('APOP_REPO', '/repo')
CLANG = next((p for p in ('/usr/lib/llvm-18/bin/clang', shutil.which('clang') or '') if p and os.path.exists(p)), 'clang')
OPT = next((p for p in ('/usr/lib/llvm-18/bin/opt', shutil.which('opt') or '') if p and os.path.exists(p)), 'opt')

class AnalysisError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return r

def stage(dest, repo=REPO):
    """-> list of (kind, relative .c path) translation units"""
    os.makedirs(dest, exist_ok=True)
    for d in ('cmd', 'model', 'transform'):
        shutil.copytree(os.path.join(repo, d), os.path.join(dest, d))
    names = sorted(os.listdir(repo))
    included = set()
    for n in names:
        if n.endswith('.m4.c') or n == 'apop.m4.h':
            out = 'apop.h' if n == 'apop.m4.h' else n[:-5] + '.c'
            r = _run(['m4', '-P', 'install/prep_variadics.m4', n], cwd=repo)
            if r.returncode:
                raise AnalysisError('m4 failed on %s: %s' % (n, r.stderr.decode()[:500]))
            txt = r.stdout.decode('utf8', 'replace')
            if out == 'apop.h':
                txt = txt.replace('@Autoconf_no_atomics@', '0')
            open(os.path.join(dest, out), 'w').write(txt)
        elif n.endswith('.c') or n.endswith('.h'):
            shutil.copy(os.path.join(repo, n), os.path.join(dest, n))
    shutil.copy(os.path.join(HERE, 'include', 'config.h'), os.path.join(dest, 'config.h'))
    os.makedirs(os.path.join(dest, 'omp'), exist_ok=True)
    shutil.copy(os.path.join(HERE, 'include', 'omp.h'), os.path.join(dest, 'omp', 'omp.h'))
    # files that are textually included by others are not units of their own
    import re
    cfiles = []
    for pat in ('*.c', 'model/*.c', 'transform/*.c', 'cmd/*.c'):
        cfiles += sorted(os.path.relpath(p, dest) for p in glob.glob(os.path.join(dest, pat)))
    for c in cfiles + [os.path.relpath(p, dest) for p in glob.glob(os.path.join(dest, '*.h'))]:
        for m in re.finditer(r'^\s*#\s*include\s*"([^"]+\.c)"', open(os.path.join(dest, c), errors='replace').read(), re.M):
            included.add(os.path.normpath(os.path.join(os.path.dirname(c), m.group(1))))
    units = [c for c in cfiles if c not in included]
    return units

CFLAGS = ['-std=gnu17', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-w', '-fno-discard-value-names',
          '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
          '-Wno-error=incompatible-function-pointer-types', '-DHAVE_CONFIG_H']

def compile_unit(dest, unit, omp=False):
    src = os.path.join(dest, unit)
    ll0 = os.path.join(dest, unit.replace('/', '__')[:-2] + '.O0.ll')
    ll = ll0[:-6] + '.ll'
    inc = ['-I' + dest, '-I' + os.path.join(dest, 'omp')]
    for d in ('/usr/include/mariadb', '/usr/include/mariadb/mysql'):
        if os.path.isdir(d):
            inc.append('-I' + d)
    r = _run([CLANG] + CFLAGS + (['-fopenmp'] if omp else ['-D_OPENMP=201511']) + inc + ['-S', '-emit-llvm', '-o', ll0, src], cwd=os.path.dirname(src))
    if r.returncode:
        return unit, None, r.stderr.decode('utf8', 'replace')[:2000]
    r = _run([OPT, '-S', '-passes=mem2reg', '-o', ll, ll0])
    if r.returncode:
        return unit, None, r.stderr.decode('utf8', 'replace')[:2000]
    os.unlink(ll0)
    return unit, ll, None

def build(repo=REPO, keep=None, omp=False):
    """-> (tempdir, [(unit, ll path)])"""
    d = keep or tempfile.mkdtemp(prefix='apopsa.')
    try:
        units = stage(os.path.join(d, 's'), repo)
        dest = os.path.join(d, 's')
        out = []
        with cf.ThreadPoolExecutor(8) as ex:
            for unit, ll, err in ex.map(lambda u: compile_unit(dest, u, omp), units):
                if err:
                    raise AnalysisError('cannot compile %s: %s' % (unit, err))
                out.append((unit, ll))
        return d, out
    except BaseException:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
        raise

if __name__ == '__main__':
    d, out = build(keep=sys.argv[1])
    print(d, len(out))
