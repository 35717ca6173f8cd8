import sys, time, importlib
sys.path.insert(0,'/verif/dv')
sys.setrecursionlimit(100000)
import verify, solve, spec
m = importlib.import_module("props."+sys.argv[1].split(",")[0]); import props.catalog as cat
pat = sys.argv[2] if len(sys.argv)>2 else ''
S = cat._all()[0]; M0=[s for s in S if s.module==sys.argv[1]]
files = getattr(m,'FILES',None) or sorted({s.file for s in S})
sol = solve.Solver()
for s in M0:
    if pat and pat not in s.name: continue
    if s.assumed: continue
    sol.time=0; c0=sol.calls
    reg = spec.Registry(S, cat._all()[2], root=s, inline=cat._all()[3])
    r = verify.verify(s, reg, files, sol)
    print('%-34s ob %d/%d wall %.1f solver %.1f q%d vac=%s %s' % (s.name, r.discharged, r.obligations, r.wall, r.solver_time, sol.calls-c0, r.vacuity, 'ERR '+r.error if r.error else ''))
    for f in r.failed: print('   FAIL', f[0], f[1], (f[2] or '')[:1500] if len(sys.argv)>3 else '')
    for l in r.loops:
        if isinstance(l,str): print('   ',l)
        elif len(sys.argv)>3: print('   ', l)
        elif l['dropped_spec'] and len(sys.argv)>3: print('   ', l['dropped_spec'])
