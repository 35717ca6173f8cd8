"""Compiles the current sources of /repo (and a driver) into a scratch directory."""
import os, subprocess, glob, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['pcu', 'pcu/reel', 'pcu/noto', 'agi', 'interfaces', 'support', 'partition', 'partition/Diffusive', 'partition/Diffusive/src',
       'partition/Multilevel', 'partition/Multilevel/src', 'partition/Coloring', 'partition/Metrics']
DEFS = ['-DENGPAR_HAS_MALLINFO2', '-DHAS_PARMETIS', '-DHAS_ZOLTAN', '-DLOCAL_ID_FTYPE=C_INT32_T', '-DLOCAL_ID_TYPE=int32_t']
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']


def sources():
    out = []
    for d in ('pcu', 'pcu/noto', 'pcu/reel'):
        out += sorted(glob.glob('%s/%s/*.c' % (REPO, d)))
    for d in ('support', 'agi', 'partition', 'partition/Metrics', 'partition/Diffusive', 'partition/Diffusive/src',
              'partition/Multilevel', 'partition/Multilevel/src', 'partition/Coloring', 'interfaces'):
        out += sorted(glob.glob('%s/%s/*.cpp' % (REPO, d)))
    skip = ('apfGraph.cpp', 'dofGraph.cpp', 'engpar_version.cpp')
    return [s for s in out if os.path.basename(s) not in skip]


def flags(src, san=True):
    f = ['-O1', '-g1', '-w'] + (SAN if san else []) + DEFS + ['-I%s/%s' % (REPO, i) for i in INC] + ['-I' + VERIF + '/drv', '-I/usr/include/trilinos']
    if not src.endswith('.c'):
        f.append('-std=gnu++11')
    return f


def one(job):
    src, obj, san, extra = job
    cc = 'mpicc' if src.endswith('.c') else 'mpicxx'
    p = subprocess.run([cc] + flags(src, san) + list(extra) + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return src, p.returncode, p.stdout.decode(errors='replace')


def build(tmp, drivers, san=True, extra=()):
    """returns ({driver: exe}, error text or None)"""
    os.makedirs(tmp + '/o', exist_ok=True)
    jobs, objs = [], []
    for s in sources() + [VERIF + '/drv/version_stub.cpp']:
        o = '%s/o/%s.o' % (tmp, os.path.relpath(s, '/').replace('/', '_'))
        objs.append(o)
        jobs.append((s, o, san, extra))
    for d in drivers:
        jobs.append((VERIF + '/drv/' + d + '.cpp', '%s/o/drv_%s.o' % (tmp, d), san, extra))
    big = ('agiMigrate', 'agiConstruct', 'drv', 'agiTag', 'engpar', 'agiIO')
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, out in ex.map(one, jobs):
            if rc:
                return {}, 'compile %s:\n%s' % (src, out[-3000:])
    exes = {}

    def link(d):
        exe = '%s/%s' % (tmp, d)
        p = subprocess.run(['mpicxx'] + (SAN if san else []) + ['%s/o/drv_%s.o' % (tmp, d)] + objs + ['-o', exe, '-lparmetis', '-lmetis', '-ltrilinos_zoltan', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return d, exe, p.returncode, p.stdout.decode(errors='replace')
    with cf.ThreadPoolExecutor(8) as ex:
        for d, exe, rc, out in ex.map(link, drivers):
            if rc:
                return {}, 'link %s:\n%s' % (d, out[-3000:])
            exes[d] = exe
    return exes, None


ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_plm='isolated',
           OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_mpi_yield_when_idle='1',
           OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_rmaps_base_mapping_policy=':oversubscribe',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:alloc_dealloc_mismatch=0:allocator_may_return_null=1')


def run(exe, n, args, timeout, cwd):
    env = dict(os.environ)
    env.update(ENV)
    env['TMPDIR'] = cwd
    env['HOME'] = env.get('HOME', '/root')
    cmd = ['mpirun', '--oversubscribe', '-np', str(n), exe] + [str(a) for a in args]
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGTERM)
        try:
            out, _ = p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
        subprocess.run(['pkill', '-9', '-f', exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return 'timeout', out.decode(errors='replace')
