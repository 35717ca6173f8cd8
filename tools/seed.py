"""Makes and confirms planted bugs in /verif/seeded.
usage: seed.py make SPEC.py      (SPEC defines BUGS: list of dict(id, property, edits=[(file, old, new)], demo, ranks, needs, breaks))
       seed.py confirm ID...     (scratch copy of /repo bind-mounted over /repo in a private namespace: build, tests, demo with and without)
       seed.py check ID [PROP]   (runs the property's check on the patched scratch copy)
"""
import sys, os, subprocess, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_plm=isolated
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none
export TMPDIR=$w
R=$PWD
inc=""
for i in pcu pcu/reel pcu/noto agi interfaces support partition partition/Diffusive partition/Diffusive/src partition/Multilevel partition/Multilevel/src partition/Coloring partition/Metrics; do inc="$inc -I$R/$i"; done
libs=$(find "$R/_build" -name 'lib*.a' ! -name '*ftn*')
mpicxx -std=gnu++11 -O1 -g -w -DHAS_PARMETIS -DHAS_ZOLTAN -DLOCAL_ID_TYPE=int32_t $inc -I/usr/include/trilinos -I"$d" "$d/demo.cpp" -o "$w/demo" -Wl,--start-group $libs -Wl,--end-group -lparmetis -lmetis -ltrilinos_zoltan -lm || exit 3
cd "$w"
for n in %RANKS%; do
  timeout 60 mpirun --oversubscribe -np $n ./demo %ARGS% || exit 1
done
exit 0
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(path):
    sp = importlib.util.spec_from_file_location('bugs', path)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for b in m.BUGS:
        d = V + '/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
        try:
            for f, old, new in b['edits']:
                s = open('/repo/' + f).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open('/repo/' + f, 'w').write(s.replace(old, new))
            open(d + '/patch.diff', 'wb').write(sh('git -C /repo diff').stdout)
        finally:
            sh('git -C /repo checkout -- .')
        open(d + '/demo.cpp', 'w').write(b['demo'])
        if '"common.h"' in b['demo']:
            shutil.copy(V + '/drv/common.h', d + '/common.h')
        open(d + '/demo.sh', 'w').write(DEMO.replace('%RANKS%', b['ranks']).replace('%ARGS%', b.get('args', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('made', b['id'])


def wt():
    if not os.path.exists(WT):
        sh('cp -a /repo ' + WT)
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q /repo && git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)' % (WT, WT, WT))


def ns(script):
    return sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && %s'" % (WT, script))


def confirm(i):
    d = V + '/seeded/' + i
    wt()
    r = ns('git apply %s/patch.diff && bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1' % d)
    if r.returncode:
        return print(i, 'BUILD FAILS', r.stdout.decode()[-1500:], open('/tmp/seed_b.log').read()[-1500:])
    ns('bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = sorted(base - set(json.load(open('/tmp/seed_t.json'))['passed']))
    r1 = ns('bash %s/demo.sh' % d)
    wt()
    ns('bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1')
    r0 = ns('bash %s/demo.sh' % d)
    ok = not miss and r1.returncode and not r0.returncode
    print(i, 'OK' if ok else 'NOT OK', 'tests missing %d %s' % (len(miss), miss[:3]), 'demo with', r1.returncode, 'without', r0.returncode)
    if not ok or os.environ.get('V'):
        print(' with:', r1.stdout.decode()[-700:], '\n without:', r0.stdout.decode()[-700:])


def check(i, prop=None):
    d = V + '/seeded/' + i
    prop = prop or json.load(open(d + '/meta.json'))['property']
    wt()
    r = ns('git apply %s/patch.diff && python3-vt %s/dv/check.py %s' % (d, V, prop))
    out = r.stdout.decode()
    v = [l[:300] for l in out.splitlines() if l.startswith(('VIOLATION', 'KNOWN'))]
    print(i, prop, 'exit', r.returncode, v)
    wt()
    return out


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    elif sys.argv[1] == 'confirm':
        for x in sys.argv[2:]:
            confirm(x)
    else:
        out = check(*sys.argv[2:4])
        if os.environ.get('V'):
            print(out[-4000:])
