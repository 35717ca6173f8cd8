"""Discharging obligations: z3 (E-matching only, then full), then cvc5.  Obligations are SMT-LIB text so
that they can be run in parallel and by an independent back end."""
import os, subprocess, tempfile, time, multiprocessing as mp, re
import z3

SLOTS = None    # limits the queries that run at once over all the workers of a check
SCALE = 1       # second attempts run with larger limits


def to_smt2(facts, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _run_z3(txt, mbqi, rlimit, timeout, want_model=False, pre=False):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx) if mbqi or pre else z3.SimpleSolver(ctx=ctx)
    s.set('rlimit', rlimit)
    s.set('timeout', timeout)
    s.set('random_seed', 0)
    if not mbqi:
        s.set('auto_config', False)
        s.set('mbqi', False)
    s.from_string(txt)
    r = s.check()
    m = None
    if r == z3.sat and want_model:
        try:
            m = str(s.model())[:6000]
        except z3.Z3Exception:
            pass
    return str(r), m


def _bound(x, cache={}):
    """does the term mention a bound variable"""
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_var(y) or z3.is_quantifier(y):
            return True
        if z3.is_app(y):
            todo += y.children()
    return False


def _store_keys(t, sort):
    """ground indices at which the term updates an array"""
    out, todo, seen = {}, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_STORE and x.num_args() == 3 and x.arg(1).sort() == sort and not _bound(x.arg(1)):
                if not z3.is_int_value(x.arg(1)):
                    out[x.arg(1).get_id()] = x.arg(1)
            todo += x.children()
    return sorted(out.values(), key=lambda x: -len(x.sexpr()))


def _leaves(g, assume, out, depth=0):
    """a goal as separate cases: conjuncts, and for a quantified goal whether its variable is one of the updated keys"""
    k = g.decl().kind() if z3.is_app(g) else None
    if k == z3.Z3_OP_AND and depth < 6:
        for x in g.children():
            _leaves(x, assume, out, depth + 1)
    elif k == z3.Z3_OP_IMPLIES and depth < 6:
        _leaves(g.arg(1), assume + [g.arg(0)], out, depth + 1)
    elif z3.is_quantifier(g) and g.is_forall() and depth < 6:
        vs = [z3.FreshConst(g.var_sort(i)) for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        keys = _store_keys(g.body(), vs[-1].sort())[:3] if len(vs) == 1 else []
        if not keys:
            _leaves(body, assume, out, depth + 1)
        else:
            for i, e in enumerate(keys):
                out.append((assume + [vs[0] != d for d in keys[:i]] + [vs[0] == e], body))
            out.append((assume + [vs[0] != e for e in keys], body))
    else:
        out.append((assume, g))


def _run_split(txt, rlimit, timeout):
    ctx = z3.main_ctx()
    A = list(z3.parse_smt2_string(txt, ctx=ctx))
    if not A or not z3.is_not(A[-1]):
        return 'unknown'
    out = []
    _leaves(A[-1].arg(0), [], out)
    if len(out) < 2 or len(out) > 12:
        return 'unknown'
    for assume, g in out:
        for full in (False, True):
            s = z3.Solver(ctx=ctx) if full else z3.SimpleSolver(ctx=ctx)
            s.set('rlimit', rlimit)
            s.set('timeout', timeout)
            s.set('random_seed', 0)
            if not full:
                s.set('auto_config', False)
                s.set('mbqi', False)
            s.add(A[:-1])
            s.add(assume)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                break
        else:
            return 'unknown'
    return 'unsat'


def _run_cvc5(txt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + re.sub(r'\(set-info[^\n]*\n', '', txt))
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, nm], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout / 1000 + 5)
        return p.stdout.decode().strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(nm)


def work(job):
    if SLOTS is None:
        return work1(job)
    with SLOTS:
        return work1(job)


def work1(job):
    txt, mode, k = job
    t = time.time()
    try:
        if mode == 'cand':
            r, m = _run_z3(txt, False, 4000000 * k, 12000 * k)
            return ('unsat' if r == 'unsat' else r), 'z3/e-matching', time.time() - t, None
        if mode == 'cand2':
            for pre, rl, tm in ((True, 8000000 * k, 8000 * k), (False, 25000000 * k, 40000 * k)):
                r, m = _run_z3(txt, False, rl, tm, pre=pre)
                if r == 'unsat':
                    return r, 'z3/e-matching', time.time() - t, None
            r2, m = _run_z3(txt, True, 8000000 * k, 6000 * k)
            return r2, 'z3', time.time() - t, None
        if mode == 'cover':
            r, m = _run_z3(txt, False, 3000000, 6000)
            return r, 'z3/e-matching', time.time() - t, None
        for pre, rl, tm in ((False, 4000000 * k, 8000 * k), (True, 8000000 * k, 10000 * k), (False, 30000000 * k, 45000 * k)):
            r, m = _run_z3(txt, False, rl, tm, pre=pre)
            if r == 'unsat':
                return r, 'z3/e-matching', time.time() - t, None
        if _run_split(txt, 15000000 * k, 20000 * k) == 'unsat':
            return 'unsat', 'z3/e-matching', time.time() - t, None
        r2, m = _run_z3(txt, True, 30000000, 20000 * k, True)
        if r2 == 'unsat':
            return r2, 'z3', time.time() - t, None
        if r2 == 'sat':
            return 'sat', 'z3', time.time() - t, m
        r3 = _run_cvc5(txt, 15000 * k)
        if r3 == 'unsat':
            return r3, 'cvc5', time.time() - t, None
        return ('sat' if r3 == 'sat' else 'unknown'), 'z3+cvc5', time.time() - t, m
    except Exception as e:                       # a crash of a back end is an undischarged obligation
        return 'error: %s' % e, '-', time.time() - t, None


class Solver:
    def __init__(self, procs=None):
        self.procs = procs or int(os.environ.get('DV_PROCS', '8'))
        self.pool = None
        self.calls = 0
        self.time = 0.0
        self.cache = {}

    def start(self):
        if self.pool is None:
            self.pool = mp.get_context('fork').Pool(self.procs, maxtasksperchild=200)
        return self.pool

    def many(self, items, mode):
        """items: list of (facts, goal); returns list of (status, backend, time, model)"""
        out = [None] * len(items)
        todo = []
        for i, (facts, goal) in enumerate(items):
            if z3.is_true(goal):
                out[i] = ('unsat', 'trivial', 0.0, None)
                continue
            g = z3.simplify(goal)
            if z3.is_true(g):
                out[i] = ('unsat', 'simplifier', 0.0, None)
                continue
            todo.append((i, to_smt2(facts, goal)))
        uniq = {}
        for i, t in todo:
            uniq.setdefault(t, []).append(i)
        txts = [t for t in uniq if (t, mode) not in self.cache]
        if txts:
            self.calls += len(txts)
            rs = self.start().map(work, [(t, mode, SCALE) for t in txts], chunksize=1)
            for t, r in zip(txts, rs):
                self.cache[(t, mode)] = r
                self.time += r[2]
        for t, ids in uniq.items():
            for i in ids:
                out[i] = self.cache[(t, mode)]
        return out

    def close(self):
        if self.pool:
            self.pool.terminate()
            self.pool = None
