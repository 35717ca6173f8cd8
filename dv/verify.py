"""Verifies one function of /repo against its contract: builds the symbolic entry state, executes the body,
and discharges postconditions, callee preconditions, safety obligations and the frame."""
import time, os, traceback
from z3 import *
import sym, front, lib
from sym import *
from ctypes_ import T, INT
import solve

_TUS = {}


def tu(path):
    if path not in _TUS:
        _TUS[path] = front.TU(path)
    return _TUS[path]


class Result:
    def __init__(self, name):
        self.name = name
        self.q = ''
        self.file = ''
        self.obligations = 0
        self.discharged = 0
        self.backends = {}
        self.solver_time = 0.0
        self.failed = []       # (name, status, model/reason)
        self.error = None
        self.inlined, self.contracted, self.models, self.assump = [], [], [], []
        self.loops = []
        self.inductive = 0
        self.wall = 0.0
        self.vacuity = None
        self.covered = 0

    def asdict(self):
        return dict(self.__dict__)


def entry_state(ex, f, spec):
    st = State()
    ps = front.params(f)
    argv, ids = [], []
    is_method = f['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl') and f.get('storageClass') != 'static'
    st_alloc = ex.getmem(st, 'alloc')
    ex.gfact(st_alloc >= 1)
    this = None
    objs, bases = [], []
    if is_method:
        this = Const('this', I)
        ex.gfact(And(this >= 1, this < st_alloc))
        st.env['this'] = P(this, IntVal(0))
        objs.append(this)
    vals = []
    for i, p in enumerate(ps):
        t = ex.nt(p)
        nm = p.get('name') or 'arg%d' % i
        key = (ex.tu.path, p['id'])
        st.types[key] = (nm, t.a if t.k == 'ref' else t)
        if t.k == 'ref' or (t.k == 'rec' and not t.a.endswith('iterator') and t.a not in ('pair',)):
            u = t.a if t.k == 'ref' else t
            if u.k == 'rec':
                o = Const('arg%d' % i, I)
                ex.gfact(And(o >= 1, o < st_alloc))
                objs.append(o)
                v = Obj(o, u)
                st.env[key] = v
                vals.append(v)
                argv.append(LObj(v))
                continue
            rk = ('refarg', i)
            v = ex.fresh_value(st, u, 'arg%d' % i)
            st.env[rk] = v
            st.env[key] = LVar(rk, u)
            vals.append(v)
            argv.append(LVar(rk, u))
            continue
        if t.k == 'arr':
            t = T('ptr', t.a)
        v = ex.fresh_value(st, t, 'arg%d' % i, i in getattr(ex.spec, 'interior', ()))
        if t.k == 'ptr' and isinstance(v, P) and not is_int_value(v.b):
            bases.append(v.b)
        st.env[key] = v
        vals.append(v)
        argv.append(v)
    if len(objs) > 1:
        ex.gfact(Distinct(*objs))
    for b in bases:
        for o in objs:
            ex.gfact(b != o)
    return st, vals, argv, this


def verify(spec, reg, files, solver, timeout_quick=False):
    R_ = Result(spec.name)
    R_.file = spec.file
    t0 = time.time()
    try:
        t = tu(spec.file)
        if spec.table:
            return table(spec, t, R_, t0)
        cands = t.find(spec.q, spec.sig, spec.nparams)
        seen = {}
        for c in cands:
            seen.setdefault(c.get('mangledName', c['id']), c)
        cands = list(seen.values())
        if len(cands) != 1:
            R_.error = 'function %s not found in %s (%d candidates)' % (spec.q, spec.file, len(cands))
            return R_
        f = cands[0]
        tus = [tu(x) for x in files]
        reg.root = spec
        ex = Exec(tus, reg, spec, solver, f, t)
        ex.lemmas = set()
        st, vals, argv, this = entry_state(ex, f, spec)
        if spec.decomp:
            pass
        entry = st.copy()
        ev = View(ex, entry)
        ex.entry_view = ev
        ctx = Ctx(ex, vals, this, ev, ev)
        ctx.argl = argv
        ex.ctx0 = ctx
        reqs = spec.requires(ctx)
        for nm, g in reqs:
            ex.gfact(g)
        if spec.decomp:
            ex.decomp = tuple(spec.decomp(ctx))
        # entry views may have created memory names: share them with the running state
        for k, v in entry.mem.items():
            st.mem.setdefault(k, v)
        nreq = len(ex.facts)
        if f['kind'] == 'CXXConstructorDecl':
            ex.ctor_inits(st, f, Obj(this, T('rec', f.get('_rec', '').split('::')[-1])))
        outs = ex.stmt(st, front.body(f))
        ends = [(s, v) for k, s, v in outs if k in ('n', 'r')]
        final, ret = None, None
        if ends:
            final, ret = ends[0]
            for s2, v2 in ends[1:]:
                n0 = 0
                while n0 < len(final.pc) and n0 < len(s2.pc) and final.pc[n0].eq(s2.pc[n0]):
                    n0 += 1
                ra = final.pc[n0:]
                c = And(*ra) if len(ra) > 1 else (ra[0] if ra else BoolVal(True))
                ret = ex.vmerge(c, ret, v2)
                final = ex.merge2(final, s2)
        if final is None:
            R_.error = 'no normal exit from %s' % spec.q
            return R_
        if isinstance(ret, (LVar, LMem, LField, LFieldArr, LMap, LObj, LVal, LPair)):
            ctxret = ret
            if isinstance(ret, (LObj,)):
                ret = ret.obj
        c2 = Ctx(ex, vals, this, ev, View(ex, final), ret)
        newvals = []
        for a, v in zip(argv, vals):
            if isinstance(a, LVar):
                newvals.append(ex.read(final, a, facts=False))
            else:
                newvals.append(v)
        c2.argn = newvals
        c2.argl = argv
        posts = spec.ensures(c2)
        fs = list(ex.facts)
        for nm, g in posts:
            ex.obs.append(Ob('postcondition: ' + nm, fs + final.pc, g, 'post'))
        frame(ex, spec, ctx, entry, final)
        # obligations: later facts are added monotonically, so give each its own prefix
        items = [(o.facts, o.goal) for o in ex.obs]
        rs = solver.many(items, 'full')
        for o, r in zip(ex.obs, rs):
            o.status, o.backend, o.time, o.model = r
            R_.obligations += 1
            R_.backends[o.backend] = R_.backends.get(o.backend, 0) + 1
            if o.status == 'unsat':
                R_.discharged += 1
            else:
                R_.failed.append((o.name, o.status, o.model))
                if os.environ.get('DV_DUMP'):
                    open('/tmp/dv_fail_%d.smt2' % len(R_.failed), 'w').write(solve.to_smt2(o.facts, o.goal))
        # vacuity: the end of the function must not be unreachable under the preconditions
        vr = solver.many([(fs + final.pc, BoolVal(False))], 'cover')[0]
        R_.vacuity = vr[0]
        if vr[0] == 'unsat':
            R_.failed.append(('vacuity: end of function reachable under the precondition', 'unreachable', None))
        # ... and every loop must be reachable and its body able to complete: contradictory facts prove anything
        for (nm, _), r in zip(ex.covers, solver.many([(fs_, BoolVal(False)) for _, fs_ in ex.covers], 'cover')):
            R_.covered += 1
            if r[0] == 'unsat' and nm not in spec.dead:
                R_.failed.append(('vacuity: ' + nm, 'unreachable', None))
        R_.inlined = sorted(ex.inlined)
        R_.contracted = sorted(ex.contracted)
        R_.models = sorted(ex.models)
        R_.assump = sorted(ex.assump)
        R_.loops = ex.loopinfo
        R_.inductive = getattr(ex, 'inductive', 0)
        R_.lemmas = sorted(ex.lemmas)
        R_.obligations += R_.inductive
        R_.discharged += R_.inductive
        if R_.inductive:
            R_.backends['z3/e-matching'] = R_.backends.get('z3/e-matching', 0) + R_.inductive
    except (Unsupported, front.ExtractError, PathEnd) as e:
        R_.error = 'unsupported: %s' % e if not isinstance(e, front.ExtractError) else 'extraction: %s' % e
        if os.environ.get('DV_TRACE'):
            traceback.print_exc()
    except (Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError, AssertionError) as e:
        R_.error = 'internal: %s: %s' % (type(e).__name__, e)
        if os.environ.get('DV_TRACE'):
            traceback.print_exc()
    finally:
        R_.solver_time = solver.time
        R_.wall = time.time() - t0
    return R_


def table(spec, t, R_, t0):
    """the static initialiser of a record of function pointers names the given functions"""
    ds = [d for d in t.decl.values() if d.get('kind') == 'VarDecl' and d.get('name') == spec.q and d.get('_global')]
    il = [x for d in ds for x in d.get('inner', []) if x.get('kind') == 'InitListExpr']
    if len(il) != 1:
        R_.error = 'extraction: initialiser of %s not found' % spec.q
        return R_
    ty = il[0].get('type', {}).get('qualType', '')
    rec = t.records.get(ty)
    if rec is None:
        R_.error = 'extraction: record %s not found' % ty
        return R_
    fields = [c['name'] for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
    assigned = {}
    for fn_, x in zip(fields, il[0].get('inner', [])):
        while x.get('inner') and x.get('kind') != 'DeclRefExpr':
            x = x['inner'][0]
        assigned[fn_] = (x.get('referencedDecl') or {}).get('name')
    for m, want in spec.table.items():
        R_.obligations += 1
        if assigned.get(m) == want:
            R_.discharged += 1
            R_.backends['initialiser'] = R_.backends.get('initialiser', 0) + 1
        else:
            R_.failed.append(('initialiser: %s.%s is %s' % (spec.q, m, want), 'is %s' % assigned.get(m), None))
    R_.vacuity = 'sat'
    R_.wall = time.time() - t0
    return R_


def frame(ex, spec, ctx, entry, final):
    allowed = {}
    for ent in spec.modifies(ctx):
        if ent[0] == 'alloc':
            continue
        for nm in ex.entry_names(ent):
            base = ent[2] if len(ent) > 2 else None
            idx = ent[3] if len(ent) > 3 else None
            allowed.setdefault(nm, []).append((base, idx))
    a0 = ex.getmem(entry, 'alloc')
    par = Function('sub_parent', I, I)
    for nm in sorted(final.mem):
        if nm in ('alloc', 'len', 'G:ncoll'):
            continue
        m0, m1 = ex.getmem(entry, nm), ex.getmem(final, nm)
        if m0.eq(m1):
            continue
        al = allowed.get(nm, [])
        if any(b is None for b, _ in al):
            continue
        if m0.sort().kind() != Z3_ARRAY_SORT:
            ex.obs.append(Ob('frame: %s unchanged' % nm, list(ex.facts) + final.pc, m0 == m1, 'frame'))
            continue
        x = Const('x!fr', I)
        hyp = [x < a0, Not(And(x < 0, par(x) >= a0))]
        hyp += [Not(b(x)) if callable(b) else x != b for b, i in al if i is None]
        part = [(b, i) for b, i in al if i is not None]
        if part:
            y = Const('y!fr', I)
            g = Implies(And(*hyp, *[Not(And(x == b, y == i)) for b, i in part]), m1[x][y] == m0[x][y])
        else:
            g = Implies(And(*hyp), m1[x] == m0[x])
        ex.obs.append(Ob('frame: %s of every other object unchanged' % nm, list(ex.facts) + final.pc, g, 'frame'))


def prove_lemma(lem, solver):
    R_ = Result('lemma ' + lem.name)
    t0 = time.time()
    r = solver.many([(lem.facts, lem.goal)], 'full')[0]
    R_.obligations = 1
    R_.backends[r[1]] = 1
    if r[0] == 'unsat':
        R_.discharged = 1
    else:
        R_.failed.append(('lemma', r[0], r[3]))
    R_.wall = time.time() - t0
    R_.solver_time = r[2]
    return R_
