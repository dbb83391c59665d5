"""native build of /repo's library with the run-time contract monitors (replay harnesses)"""
import os, subprocess, hashlib, glob, sys
from concurrent.futures import ThreadPoolExecutor
import ir

SKIP = ('IpStdJInterface.cpp', 'IpStdFInterface.c')
FLAGS = ['-std=c++17', '-O0', '-w', '-fno-access-control', '-fsanitize=address', '-fno-omit-frame-pointer', '-DHAVE_CONFIG_H', '-DIPOPTLIB_BUILD']
EXTRA = ['-I/usr/include/mumps_seq']
LIBS = ['-ldmumps_seq', '-llapack', '-lblas', '-lm', '-ldl']


class BuildError(Exception):
    pass


class HarnessError(BuildError):
    """only the monitor does not compile: it names something that the sources do not declare any more"""


def lib_sources():
    """the files built into the library here, plus files newly listed in src/Makefile.am"""
    import re
    cfg = os.path.join(ir.VERIF, 'config')
    out = [l.strip() for l in open(os.path.join(cfg, 'libsources.txt')) if l.strip()]
    listed = {l.strip() for l in open(os.path.join(cfg, 'makefile_listed.txt'))}
    t = open(os.path.join(ir.SRC, 'Makefile.am')).read()
    for m in re.findall(r'[\w/]+\.(?:cpp|c)\b', t):
        if m not in listed and m not in out:
            out.append(m)
    return [m for m in out if os.path.exists(os.path.join(ir.SRC, m))]


def build(harness):
    """compile library + harness, return path of the executable"""
    od = os.path.join(ir.BUILD, 'obj')
    os.makedirs(od, exist_ok=True)
    h = hashlib.sha256()
    for p in sorted(glob.glob(ir.SRC + '/**/*.h*', recursive=True)) + sorted(glob.glob(ir.VERIF + '/config/*.h')) + sorted(glob.glob(ir.SRC + '/**/*.inc', recursive=True)):
        h.update(p[len(ir.SRC):].encode())
        h.update(open(p, 'rb').read())
    hh = h.hexdigest()
    skip = ('Ma27', 'Ma57', 'Ma77', 'Ma86', 'Ma97', 'Ma28', 'Mc19', 'Pardiso', 'Wsmp', 'Spral', 'HSL')
    srcs = lib_sources()

    def comp(s, extra=()):
        path = s if os.path.isabs(s) else os.path.join(ir.SRC, s)
        data = open(path, 'rb').read()
        fl = FLAGS + list(extra) + ['v2']
        k = hashlib.sha256((hh + ' '.join(fl)).encode() + data).hexdigest()[:20]
        if os.path.isabs(s):
            k = hashlib.sha256(k.encode() + b''.join(open(x, 'rb').read() for x in sorted(glob.glob(ir.VERIF + '/replay/*.hpp')))).hexdigest()[:20]
        o = os.path.join(od, os.path.basename(s) + '.' + k + '.o')
        if os.path.exists(o):
            return o, None
        cc = ['g++'] + fl[:-1] if s.endswith('.cpp') else ['gcc', '-O0', '-w', '-DHAVE_CONFIG_H', '-DIPOPTLIB_BUILD', '-fsanitize=address']
        cmd = cc + ir.incs() + EXTRA + ['-c', path, '-o', o + '.tmp%d' % os.getpid()]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return None, s + ': ' + r.stderr[-3000:]
        os.rename(o + '.tmp%d' % os.getpid(), o)
        return o, None
    hp = os.path.join(ir.VERIF, 'replay', harness)
    with ThreadPoolExecutor(8) as ex:
        hr = ex.submit(comp, hp)
        res = list(ex.map(comp, srcs))
        res.append(hr.result())
    for o, e in res[:-1]:
        if e:
            raise BuildError(e)
    if res[-1][1]:
        raise HarnessError(res[-1][1])
    exe = os.path.join(ir.BUILD, harness.replace('.cpp', '') + '.%d.exe' % os.getpid())
    r = subprocess.run(['g++', '-fsanitize=address', '-o', exe] + [o for o, _ in res] + LIBS, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('link: ' + r.stderr[-3000:])
    # keep the object cache small
    keep = {o for o, _ in res}
    for f in glob.glob(od + '/*.o'):
        if f not in keep and os.path.basename(f).split('.')[0] in {os.path.basename(o).split('.')[0] for o in keep}:
            try:
                os.unlink(f)
            except OSError:
                pass
    return exe


def run(exe, seed, tier, timeout=300):
    """-> (status, text): status ok | fail | crash | hang"""
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1', OMP_NUM_THREADS='1')
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='run', dir=ir.BUILD)
    try:
        r = subprocess.run([exe], capture_output=True, text=True, env=env, timeout=timeout, cwd=d, errors='replace')
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ''
        if isinstance(out, bytes):
            out = out.decode(errors='replace')
        return 'hang', out[-4000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    txt = r.stdout[-20000:] + '\n' + r.stderr[-8000:]
    if r.returncode == 0:
        # a monitor that was ended by the code under test (STOP, exit) has not finished
        return ('ok' if '\nEVALS ' in '\n' + r.stdout else 'crash'), txt
    return ('fail' if r.returncode == 1 and 'FAIL' in r.stdout else 'crash'), txt
