"""Loop handling: cut at the head, infer an inductive subset of candidate invariants (Houdini)."""
from z3 import *
from util import FA
from sym import *
import sym
import front, os, re

UNROLL = 8


def try_unroll(ex, st, cond, inc, bodyn):
    """complete unrolling when the trip count is a literal <= UNROLL"""
    probe = st.copy()
    sv = snapshot(ex)
    ex.quiet += 1
    ok = False
    try:
        if cond is not None:
            c = simplify(ex.cond(probe, cond))
            ok = is_true(c) or is_false(c)
    except (Unsupported, PathEnd):
        ok = False
    finally:
        ex.quiet -= 1
        restore(ex, sv)
    if not ok:
        return None
    sv = snapshot(ex)
    cur = st.copy()
    exits, rets = [], []
    for it in range(UNROLL + 1):
        s0 = cur.copy()
        sv1 = snapshot(ex)
        ex.quiet += 1
        try:
            c = simplify(ex.cond(s0, cond))
        except PathEnd:
            return None
        finally:
            ex.quiet -= 1
            restore(ex, sv1)
        if not (is_true(c) or is_false(c)):
            restore(ex, sv)
            return None
        e, b, r = ex.iterate_once(cur, cond, inc, bodyn)
        exits += e
        rets += r
        cur = ex.merge(b)
        if cur is None or is_false(c):
            m = ex.merge(exits)
            out = list(rets)
            if m is not None:
                out.append(('n', m, None))
            return out
    restore(ex, sv)
    return None


def snapshot(ex):
    return (list(ex.facts), dict(ex.subterms), len(ex.obs), dict(ex.castcache))


def restore(ex, s):
    ex.facts = list(s[0])
    ex.subterms = dict(s[1])
    del ex.obs[s[2]:]
    ex.castcache = dict(s[3])


def same(a, b):
    if a is b:
        return True
    if isinstance(a, ExprRef) and isinstance(b, ExprRef):
        return a.eq(b)
    if isinstance(a, P) and isinstance(b, P):
        return a.b.eq(b.b) and a.o.eq(b.o)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.id.eq(b.id)
    if isinstance(a, It) and isinstance(b, It):
        return a.pos.eq(b.pos) and (a.cid.eq(b.cid)) and ((a.A is None and b.A is None) or (a.A is not None and b.A is not None and a.A.eq(b.A))) and (a.key is None) == (b.key is None)
    if isinstance(a, Pair) and isinstance(b, Pair):
        return same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Str) and isinstance(b, Str):
        return True
    if isinstance(a, PL) and isinstance(b, PL):
        return isinstance(a.lv, LVar) and isinstance(b.lv, LVar) and a.lv.key == b.lv.key
    if isinstance(a, PF) and isinstance(b, PF):
        return a.name == b.name and a.obj.eq(b.obj) and a.idx.eq(b.idx)
    if isinstance(a, FuncRef) and isinstance(b, FuncRef):
        return a.node is b.node
    if type(a) is type(b) and isinstance(a, (LMem, LField, LFieldArr, LMap, LVar)):
        return lvsame(a, b)
    return False


def lvsame(a, b):
    if isinstance(a, LMem):
        return a.p.b.eq(b.p.b) and a.p.o.eq(b.p.o)
    if isinstance(a, LField):
        return a.name == b.name and a.obj.eq(b.obj)
    if isinstance(a, LFieldArr):
        return a.name == b.name and a.obj.eq(b.obj) and a.idx.eq(b.idx)
    if isinstance(a, LMap):
        return a.mapid.eq(b.mapid) and a.key.eq(b.key)
    return a.key == b.key


def freshlike(ex, st, v, hint, t=None):
    if isinstance(v, ExprRef):
        n = ex.fresh(hint, v.sort())
        if v.sort() == I and t is not None and t.k == 'int' and not ex.bv:
            ex.gfact(ex.rng(t, n))
        return n
    if isinstance(v, P):
        if is_int_value(v.b) and v.b.as_long() == 0:
            o = ex.fresh(hint)
            if t is not None and opaque(t):
                ex.gfact(o >= 0)
                return P(IntVal(0), o)
            b = ex.fresh(hint + '.b')
            ex.fact(st, b >= 0)
            return P(b, o)
        b, o = ex.fresh(hint + '.b'), ex.fresh(hint + '.o')
        ex.fact(st, b >= 0)
        return P(b, o)
    if isinstance(v, Obj):
        return Obj(ex.fresh(hint), v.ty)
    if isinstance(v, It):
        return It(v.kind, ex.fresh(hint + '.c') if False else v.cid, v.ty, ex.fresh(hint + '.pos'), v.A, None)
    if isinstance(v, Pair):
        return Pair(freshlike(ex, st, v.a, hint), freshlike(ex, st, v.b, hint))
    if isinstance(v, FuncRef):
        return P(ex.fresh(hint), IntVal(0))
    if v is None or isinstance(v, (Str, tuple)):
        return v
    raise Unsupported('havoc of %r' % (v,))


class Slot:
    """an integer-valued location that the loop changes"""

    def __init__(self, name, get, key=None, kind='var'):
        self.name, self.get, self.key, self.kind = name, get, key, kind


def vname(st, k):
    return st.types[k][0], repr(st.types[k][1])


def items(st):
    """locals of a state; of several variables of one name and type (their scopes ended) the one declared last"""
    last = {}
    for k in sorted((k for k in st.env if isinstance(k, tuple)), key=lambda k: DECLNO.get(k, -1)):
        if k in st.types:
            last[vname(st, k)] = k
    return sorted(((k, v) for k, v in st.env.items() if isinstance(k, tuple) and (k not in st.types or last[vname(st, k)] == k)), key=lambda kv: str(kv[0]))


class LV:
    """what contract-provided loop templates see"""

    def __init__(self, ex, c, st, init, entry, slots, extra):
        self.ex, self.c = ex, c
        self.st, self.ist = st, init
        self.cur, self.init, self.old = View(ex, st), View(ex, init), entry
        self.slots = slots
        self.extra = extra

    def ints(self):
        """(name, current, initial) of every changed integer location"""
        return [(s.name, s.get(self.st), s.get(self.ist)) for s in self.slots]

    def locals(self):
        """(name, value) of every int-valued local in scope, changed or not"""
        out = []
        for k, v in items(self.st):
            if k == 'this' or not isinstance(k, tuple):
                continue
            nm, t = self.st.types.get(k, (None, None))
            if nm is None:
                continue
            if isinstance(v, ArithRef) and v.is_int():
                out.append((nm, v))
        return out

    def reals(self):
        """(name, value) of every real-valued local in scope"""
        return [(self.st.types[k][0], v) for k, v in items(self.st) if isinstance(v, ArithRef) and v.is_real() and isinstance(k, tuple) and k in self.st.types and self.st.types[k][0]]

    def bools(self):
        return [(self.st.types[k][0], v) for k, v in items(self.st) if isinstance(v, BoolRef) and k in self.st.types]

    def ptrs(self):
        out = []
        for k, v in items(self.st):
            if k == 'this' or not isinstance(k, tuple):
                continue
            nm, t = self.st.types.get(k, (None, None))
            if nm is None:
                continue
            if isinstance(v, P) and t.k == 'ptr' and not opaque(t) and not is_int_value(v.b):
                out.append((nm, t, v))
        return out

    def handles(self):
        out = []
        for k, v in items(self.st):
            nm, t = self.st.types.get(k, (None, None))
            if nm and isinstance(v, P) and t is not None and opaque(t):
                out.append((nm, t, v.o))
        return out

    def its(self):
        return [(self.st.types.get(k, ('?', None))[0], v) for k, v in items(self.st) if isinstance(v, It)]

    def objs(self):
        """(name, type, id) of record-valued locals (containers...)"""
        return [(self.st.types[k][0], v.ty, v.id) for k, v in items(self.st) if isinstance(v, Obj) and k in self.st.types]


def run_loop(ex, st, n, cond, inc, bodyn):
    u = try_unroll(ex, st, cond, inc, bodyn)
    if u is not None:
        return u
    ex.loopno += 1
    entry_facts = list(ex.facts)
    init = st.copy()
    # ---------------- 1. what the loop modifies (fixpoint)
    envmod = set()
    memmod = {}     # name -> dict(all=bool, bases=[terms], fresh=bool)
    wlog = []
    for rnd in range(12):
        sv = snapshot(ex)
        c0 = next(ex.n)
        head = havoc(ex, init, envmod, memmod)
        log = {}
        svw, svl = ex.writes, ex.wlog
        ex.writes = [log]
        wlog = []
        ex.wlog = [wlog]
        ex.quiet += 1
        ex.dry = getattr(ex, 'dry', 0) + 1
        try:
            work = head.copy()
            e, b, r = ex.iterate_once(work, cond, inc, bodyn)
        finally:
            ex.dry -= 1
            ex.quiet -= 1
            ex.writes, ex.wlog = svw, svl
        new = False
        ends = b + e + [s for _, s, _ in r]
        for s in ends:
            for k, v in head.env.items():
                if k in envmod:
                    continue
                if k in s.env and not same(v, s.env[k]):
                    if isinstance(v, (LMem, LField, LFieldArr, LMap)):
                        continue
                    envmod.add(k)
                    new = True
        for nm, idxs in log.items():
            d = memmod.setdefault(nm, {'all': False, 'bases': [], 'fresh': False})
            for ix in idxs:
                if ix is None:
                    if nm == 'alloc':
                        if not d['all']:
                            d['all'] = True
                            new = True
                    elif not d['all']:
                        d['all'] = True
                        new = True
                    continue
                ix = simplify(ix)
                cs = consts_of(ix)
                late = [x for x in cs if '!' in x and _num(x) > c0]
                if not late:
                    if not any(ix.eq(y) for y in d['bases']):
                        d['bases'].append(ix)
                        new = True
                elif is_const(ix) and ix.decl().name().startswith('new!'):
                    if not d['fresh']:
                        d['fresh'] = True
                        new = True
                elif not d['all']:
                    d['all'] = True
                    new = True
        if not new:
            restore(ex, sv)
            break
        restore(ex, sv)
    else:
        raise Unsupported('loop modification analysis did not converge')
    # keep write log of outer analysis
    if ex.writes is not None:
        for w in ex.writes:
            for nm, d in memmod.items():
                l = w.setdefault(nm, [])
                l += d['bases']
                if d['all']:
                    l.append(None)
                if d['fresh']:
                    l.append(Const('new!%d' % next(ex.n), I))
    if getattr(ex, 'dry', 0):
        # inside the modification analysis of an outer loop: havoc is enough
        head = havoc(ex, init, envmod, memmod)
        e, b, r = ex.iterate_once(head.copy(), cond, inc, bodyn)
        m = ex.merge(e)
        return list(r) + ([('n', m, None)] if m is not None else [])
    # ---------------- 2. candidates
    sv = snapshot(ex)
    head = havoc(ex, init, envmod, memmod)
    slots = make_slots(ex, head, init, envmod, memmod)
    # one dry pass on this head to read the body's effects
    body_log, relops = [], []
    sv2 = snapshot(ex)
    svl, svw = ex.wlog, ex.writes
    ex.wlog, ex.writes = [body_log], None
    ex.quiet += 1
    ex.dry = getattr(ex, 'dry', 0) + 1
    backs = []
    try:
        _, backs, _ = ex.iterate_once(head.copy(), cond, inc, bodyn)
    except Unsupported:
        raise
    finally:
        ex.dry -= 1
        ex.quiet -= 1
        ex.wlog, ex.writes = svl, svw
        restore(ex, sv2)
    cands = auto_cands(ex, head, init, slots, cond, body_log, memmod, envmod, backs)
    if ex.spec.auto is not None:
        cands = [x for x in cands if re.search(ex.spec.auto, x[0])]
    extra = {'memmod': memmod, 'log': body_log}
    c = ex.ctx0
    for tmpl in ex.spec.loops:
        def mk(tmpl):
            key = object()

            def f(s):
                # evaluated once per state (the candidates of one template share the evaluation)
                sig = (tuple(sorted((str(k), id(v)) for k, v in s.env.items())), tuple(sorted((k, v.get_id()) for k, v in s.mem.items())))
                got = s.tc.get(key)
                if got is None or got[0] != sig:
                    r = tmpl(LV(ex, c, s, init, ex.entry_view, slots, extra))
                    sig = (tuple(sorted((str(k), id(v)) for k, v in s.env.items())), tuple(sorted((k, v.get_id()) for k, v in s.mem.items())))
                    got = s.tc[key] = (sig, r, list(s.env.values()) + list(s.mem.values()))
                return got[1]
            return f
        g = mk(tmpl)
        try:
            names = [x[0] for x in g(head)]
        except (Unsupported, KeyError, IndexError, Z3Exception) as exn:
            ex.loopinfo.append('template skipped: %s' % exn)
            continue
        for nm in sorted(set(names)):
            # a candidate is identified by its name; a state without the named location does not satisfy it
            cands.append(('spec:' + nm, (lambda s, g=g, nm=nm: next((x[1] for x in g(s) if x[0] == nm), BoolVal(False)))))
    restore(ex, sv)
    # ---------------- 3. initiation
    items = []
    s0 = init.copy()
    for nm, f in cands:
        s = s0 if nm.startswith('spec:') else init.copy()
        items.append((ex.facts, f(s), s))
    base = [(list(ex.facts) + init.pc, g) for _, g, _ in items]
    # facts may have been added while evaluating candidates
    rs = ex.solver.many([(list(ex.facts) + init.pc, g) for (_, g, _) in items], 'cand')
    retry = [i for i, x in enumerate(rs) if x[0] == 'unknown' and cands[i][0].startswith('spec:')]
    if retry:
        r2 = ex.solver.many([(list(ex.facts) + init.pc, items[i][1]) for i in retry], 'cand2')
        for i, x in zip(retry, r2):
            rs[i] = x
    dropped = []
    alive = []
    if os.environ.get('DV_DUMP'):
        open('/tmp/dv_%d_entry.smt2' % ex.loopno, 'w').write(__import__('solve').to_smt2(list(ex.facts) + init.pc, BoolVal(False)))
    for (nm, f), r in zip(cands, rs):
        if r[0] == 'unsat':
            alive.append((nm, f))
        elif nm.startswith('spec:'):
            dropped.append((nm, 'initially'))
            if os.environ.get('DV_DUMP'):
                open('/tmp/dv_%d_init_%s.smt2' % (ex.loopno, nm.replace('/', '_').replace(' ', '_')), 'w').write(__import__('solve').to_smt2(list(ex.facts) + init.pc, f(init.copy())))
    # ---------------- 4. consecution
    rounds = 0
    while True:
        rounds += 1
        sv = snapshot(ex)
        head = havoc(ex, init, envmod, memmod)
        for nm, f in alive:
            ex.fact(head, f(head))
        svq = ex.quiet
        ex.quiet += 1
        try:
            e, b, r = ex.iterate_once(head.copy(), cond, inc, bodyn)
        finally:
            ex.quiet = svq
        bk = ex.merge(b)
        bad = []
        if bk is not None:
            goals = [f(bk) for _, f in alive]
            fs = list(ex.facts) + bk.pc
            rs = ex.solver.many([(fs, g) for g in goals], 'cand')
            if os.environ.get('DV_VAC'):
                open('/tmp/vac_%d_%d.smt2' % (ex.loopno, rounds), 'w').write(__import__('solve').to_smt2(fs, BoolVal(False)))
            retry = [i for i, x in enumerate(rs) if x[0] != 'unsat' and alive[i][0].startswith(('spec:', 'wr', 'old-'))]
            if retry:
                r2 = ex.solver.many([(fs, goals[i]) for i in retry], 'cand2')
                for i, x in zip(retry, r2):
                    rs[i] = x
            bad = [i for i, x in enumerate(rs) if x[0] != 'unsat']
        if bad and os.environ.get('DV_TRACE'):
            print('      loop %d round %d drops %s' % (ex.loopno, rounds, [(alive[i][0], rs[i][0]) for i in bad]), flush=True)
        if not bad:
            break
        restore(ex, sv)
        for i in bad:
            if alive[i][0].startswith('spec:'):
                dropped.append((alive[i][0], 'preservation'))
                if os.environ.get('DV_DUMP'):
                    open('/tmp/dv_%d_%d_%s.smt2' % (ex.loopno, rounds, alive[i][0].replace('/', '_').replace(' ', '_')), 'w').write(__import__('solve').to_smt2(fs, goals[i]))
        alive = [x for i, x in enumerate(alive) if i not in bad]
        if rounds > 40:
            raise Unsupported('invariant inference did not converge')
    restore(ex, sv)
    # ---------------- 5. final pass, with obligations
    head = havoc(ex, init, envmod, memmod)
    for nm, f in alive:
        ex.fact(head, f(head))
    fhead = len(ex.facts)
    e, b, r = ex.iterate_once(head.copy(), cond, inc, bodyn)
    bk = ex.merge(b)
    if not ex.quiet and not getattr(ex, 'dry', 0):
        ex.covers.append(('loop %d is reachable' % ex.loopno, list(ex.facts) + init.pc))
    if bk is not None and not ex.quiet:
        ex.covers.append(('the body of loop %d is reachable' % ex.loopno, list(ex.facts) + bk.pc))
        # record the inductive invariants as discharged obligations of this function
        fs = list(ex.facts) + bk.pc
        ex.inductive = getattr(ex, 'inductive', 0) + 2 * len(alive)
        ranks(ex, slots, head, bk, cond, fs)
    ex.loopinfo.append({'loop': ex.loopno, 'rounds': rounds, 'kept': [x[0] for x in alive], 'dropped_spec': dropped})
    m = ex.merge(e)
    out = list(r)
    if m is not None:
        out.append(('n', m, None))
    return out


def ranks(ex, slots, head, bk, cond, fs):
    """termination measure: some difference of integer locations strictly decreases and is bounded"""
    ex.terminating = getattr(ex, 'terminating', [])
    pass


def _num(nm):
    try:
        return int(nm.rsplit('!', 1)[1])
    except (ValueError, IndexError):
        return -1


def havoc(ex, init, envmod, memmod):
    h = init.copy()
    for k in sorted(envmod, key=str):
        nm, t = init.types.get(k, (str(k)[-6:], None))
        h.env[k] = freshlike(ex, h, init.env.get(k), nm or 'v', t)
        v = h.env[k]
        if isinstance(v, P) and not is_int_value(v.b):
            pass
    a0 = ex.getmem(init, 'alloc')
    for nm in sorted(memmod):
        d = memmod[nm]
        m = ex.getmem(init, nm)
        if nm == 'alloc':
            f = ex.fresh('alloc')
            ex.gfact(f >= m)
            h.mem[nm] = f
            continue
        if d['all']:
            h.mem[nm] = ex.fresh(nm, m.sort())
            continue
        if d['fresh']:
            f = ex.fresh(nm, m.sort())
            x = Int('x!q')
            ex.gfact(FA([x], Implies(x < a0, f[x] == m[x]), patterns=[f[x]]))
            m = f
        for b in d['bases']:
            v = ex.fresh(nm, m.sort().range())
            m = Store(m, b, v)
        h.mem[nm] = m
    for k in sorted(envmod, key=str):
        v = h.env[k]
        if isinstance(v, P) and not is_int_value(v.b):
            ex.fact(h, v.b < ex.getmem(h, 'alloc'))
    return h


def make_slots(ex, head, init, envmod, memmod):
    slots = []
    for k in sorted(envmod, key=str):
        v = head.env.get(k)
        nm = init.types.get(k, (str(k), None))[0] or str(k)
        if isinstance(v, ArithRef) and v.is_int():
            slots.append(Slot(nm, (lambda s, k=k: s.env[k]), k))
        elif isinstance(v, P):
            t = init.types.get(k, (None, None))[1]
            slots.append(Slot(nm + '.off', (lambda s, k=k: s.env[k].o if isinstance(s.env[k], P) else IntVal(0)), k, 'off'))
        elif isinstance(v, It):
            slots.append(Slot(nm + '.pos', (lambda s, k=k: s.env[k].pos), k, 'it'))
    for nm, d in sorted(memmod.items()):
        if d['all'] or nm == 'alloc':
            continue
        m = ex.getmem(head, nm)
        rs = m.sort().range()
        if rs == I and nm != 'len':
            for i, b in enumerate(d['bases']):
                slots.append(Slot('%s[%s]' % (nm, str(b)[:20]), (lambda s, nm=nm, b=b: Select(ex.getmem(s, nm), b)), None, 'mem'))
    return slots


def relational(ex, n, out):
    if n is None:
        return
    k = n.get('kind')
    if k == 'BinaryOperator' and n.get('opcode') in ('<', '<=', '>', '>=', '!=', '=='):
        out.append(n)
    elif k == 'CXXOperatorCallExpr':
        out.append(n)
    for c in n.get('inner', []):
        if isinstance(c, dict) and k in ('BinaryOperator', 'ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'UnaryOperator'):
            relational(ex, c, out)


def subst(e, pairs):
    return substitute(e, *pairs) if pairs else e


def auto_cands(ex, head, init, slots, cond, log, memmod, envmod, backs):
    cands = []

    def add(nm, f):
        cands.append((nm, f))
    iv = {}
    for s in slots:
        v0 = s.get(init)
        iv[s.name] = v0
        add('%s>=init' % s.name, lambda st, s=s, v0=v0: s.get(st) >= v0)
        add('%s<=init' % s.name, lambda st, s=s, v0=v0: s.get(st) <= v0)
        if s.kind in ('var', 'mem', 'it'):
            add('%s>=0' % s.name, lambda st, s=s: s.get(st) >= 0)
    # pointer bases, unchanged
    for k in envmod:
        v = head.env.get(k)
        if isinstance(v, P) and isinstance(init.env.get(k), P):
            b0 = init.env[k].b
            o0 = init.env[k].o
            nm = init.types.get(k, (str(k), None))[0]
            if not is_int_value(v.b):
                add('%s.base' % nm, lambda st, k=k, b0=b0: st.env[k].b == b0)
        elif isinstance(v, ExprRef) and (v.sort() == B or v.sort() == R):
            v0 = init.env.get(k)
            if isinstance(v0, ExprRef):
                nm = init.types.get(k, (str(k), None))[0]
                add('%s==init' % nm, lambda st, k=k, v0=v0: st.env[k] == v0)
                if v.sort() == R:
                    add('%s>=init' % nm, lambda st, k=k, v0=v0: st.env[k] >= v0)
    # lock-step pairs and orderings
    for i, s in enumerate(slots):
        for t in slots[i + 1:]:
            a0, b0 = iv[s.name], iv[t.name]
            add('%s~%s' % (s.name, t.name), lambda st, s=s, t=t, a0=a0, b0=b0: s.get(st) - a0 == t.get(st) - b0)
            if len(slots) <= 6:
                add('%s<=%s' % (s.name, t.name), lambda st, s=s, t=t: s.get(st) <= t.get(st))
                add('%s>=%s' % (s.name, t.name), lambda st, s=s, t=t: s.get(st) >= t.get(st))
                add('%s<%s' % (s.name, t.name), lambda st, s=s, t=t: s.get(st) < t.get(st))
                add('%s-d<=%s' % (s.name, t.name), lambda st, s=s, t=t, a0=a0, b0=b0: s.get(st) - a0 <= t.get(st) - b0)
                add('%s-d>=%s' % (s.name, t.name), lambda st, s=s, t=t, a0=a0, b0=b0: s.get(st) - a0 >= t.get(st) - b0)
    # bounds read off the loop condition
    rel = []
    relational(ex, cond, rel)
    for j, r in enumerate(rel):
        def sides(st, r=r):
            s2 = st.copy()
            ex.quiet += 1
            sv = ex.writes, ex.wlog
            ex.writes = ex.wlog = None
            try:
                if r['kind'] == 'BinaryOperator':
                    a, b = [ex.ev(s2, x) for x in ex.inner(r)]
                else:
                    a, b = [ex.unlv(s2, ex.lv(s2, x)) for x in ex.inner(r)[1:3]]
            finally:
                ex.quiet -= 1
                ex.writes, ex.wlog = sv
            if isinstance(a, It) and isinstance(b, It):
                a, b = a.pos, b.pos
            if isinstance(a, P) and isinstance(b, P):
                a, b = a.o, b.o
            if not (isinstance(a, ArithRef) and isinstance(b, ArithRef)):
                raise Unsupported('relop')
            return a, b
        try:
            if r['kind'] == 'BinaryOperator' and ex.effects(r):
                continue
            if r['kind'] == 'CXXOperatorCallExpr' and len(ex.inner(r)) != 3:
                continue
            sides(head)
        except (Unsupported, PathEnd, KeyError, ValueError):
            continue
        add('cond%d:a<=b' % j, lambda st, f=sides: f(st)[0] <= f(st)[1])
        add('cond%d:a>=b' % j, lambda st, f=sides: f(st)[0] >= f(st)[1])
        add('cond%d:a<=b+1' % j, lambda st, f=sides: f(st)[0] <= f(st)[1] + 1)
        add('cond%d:a>=b-1' % j, lambda st, f=sides: f(st)[0] >= f(st)[1] - 1)
    # unchanged-locals comparison: changed ints against unchanged int locals / fields in the condition
    unch = []
    for k, v in init.env.items():
        if isinstance(k, tuple) and k not in envmod and isinstance(v, ArithRef) and v.is_int() and init.types.get(k, (None,))[0]:
            unch.append((init.types[k][0], v))
    if len(unch) <= 6:
        for s in slots:
            if s.kind not in ('var',):
                continue
            for nm, v in unch:
                add('%s<=%s' % (s.name, nm), lambda st, s=s, v=v: s.get(st) <= v)
                add('%s<%s' % (s.name, nm), lambda st, s=s, v=v: s.get(st) < v)
    # effects of the body, generalised over the iterations done so far
    hv = {}
    for s in slots:
        t = s.get(head)
        if is_const(t):
            hv[t.decl().name()] = (s, t)
    counters = []
    for s in slots:
        t = s.get(head)
        ok = bool(backs)
        for bst in backs:
            try:
                d = simplify(s.get(bst) - t)
            except (KeyError, AttributeError):
                ok = False
                break
            if not is_int_value(d) or d.as_long() == 0:
                ok = False
        if ok and s.kind in ('var', 'off', 'it', 'mem'):
            step = simplify(s.get(backs[0]) - t).as_long()
            counters.append((s, step))
    k = Int('k!w')
    done = set()
    if os.environ.get('DV_LOG'):
        print('LOG', [(x[0], str(x[1]), str(x[2]), str(x[3])[:200]) for x in log], 'counters', [(s.name, st) for s, st in counters])
    for (nm, base, off, val, pc) in log:
        base, off = simplify(base), simplify(off)
        if not isinstance(val, ExprRef):
            continue
        bc = consts_of(base)
        if any(x in hv or _late(x, head, init) for x in bc):
            continue
        lpc = [unwrap(x) for x in pc[len(head.pc):]]
        off, val = unwrap(off), unwrap(val)
        for s, step in counters:
            if abs(step) != 1:
                continue
            cterm = s.get(head)
            pairs0 = [(cterm, k)]
            for s2, st2 in counters:
                if s2 is s:
                    continue
                t2 = s2.get(head)
                pairs0.append((t2, iv[s2.name] + st2 * step * (k - iv[s.name])))
            hcs = consts_of(off) | consts_of(val)
            sig = (nm, base.get_id(), off.get_id(), val.get_id(), s.name)
            if sig in done:
                continue
            done.add(sig)
            offk = subst(off, pairs0)
            valk = subst(val, pairs0)
            conds = [subst(x, pairs0) for x in lpc]
            allk = [offk, valk] + conds
            # changed memories: evaluate in the current or the initial state
            mems = []
            for mn in memmod:
                hm, im = ex.getmem(head, mn), ex.getmem(init, mn)
                mems.append((mn, hm, im))
            lo, hi_of = iv[s.name], s.get

            def formula(st, which, neg=False, s=s, lo=lo, nm=nm, base=base, offk=offk, valk=valk, conds=conds, mems=mems, step=step):
                ps = []
                for mn, hm, im in mems:
                    tgt = ex.getmem(st, mn) if which == 'cur' else im
                    ps += mempairs(hm, tgt, memmod[mn])
                o, v = subst(offk, ps), subst(valk, ps)
                cs = [subst(x, ps) for x in conds]
                cur = s.get(st)
                rng = And(k >= lo, k < cur) if step > 0 else And(k <= lo, k > cur)
                m = ex.getmem(st, nm)
                lhs = Select(Select(m, base), o)
                g = Implies(And(rng, *cs), lhs == v)
                return FA([k], g)
            left = set()
            for e in allk:
                for xn in consts_of(e):
                    if _late(xn, head, init) and not any(xn in consts_of(hm) for _, hm, _ in mems):
                        left.add(xn)
            if left:
                # value/offset depend on other per-iteration unknowns; keep only if they are not in off
                continue
            for which in ('cur', 'init'):
                add('wr:%s[%s]:%s:%s' % (nm, str(base)[:16], s.name, which), lambda st, which=which, f=formula: f(st, which))
            # frame of this array: untouched outside the written window when off = counter + const
            d = simplify(off - cterm)
            if not consts_of(d) & set(x for x in consts_of(d) if _late(x, head, init)):
                x = Int('x!w')

                def frame(st, s=s, nm=nm, base=base, d=d, lo=lo, step=step, x=x):
                    m, m0 = ex.getmem(st, nm), ex.getmem(init, nm)
                    cur = s.get(st)
                    out = Or(x < lo + d, x >= cur + d) if step > 0 else Or(x > lo + d, x <= cur + d)
                    a = Select(Select(m, base), x)
                    return FA([x], Implies(out, a == Select(Select(m0, base), x)), patterns=[a])
                add('frame:%s[%s]:%s' % (nm, str(base)[:16], s.name), frame)
    # whole-object frames for memories havocked completely
    for nm, d in memmod.items():
        if nm in ('alloc',):
            continue
        m0 = ex.getmem(init, nm)
        if d['all'] and m0.sort().kind() == Z3_ARRAY_SORT:
            a0 = ex.getmem(init, 'alloc')
            x = Int('x!f')

            def fr(st, nm=nm, m0=m0, a0=a0):
                m = ex.getmem(st, nm)
                return FA([x], Implies(And(x >= 0, x < a0), m[x] == m0[x]), patterns=[m[x]])
            add('old-objects-unchanged:' + nm, fr)

            def fr2(st, nm=nm, m0=m0, a0=a0):
                m = ex.getmem(st, nm)
                return FA([x], Implies(x < a0, m[x] == m0[x]), patterns=[m[x]])
            add('old-and-sub-objects-unchanged:' + nm, fr2)
            # the same relative to the entry of the function (objects allocated before the loop may change)
            est = ex.entry_view.st
            e0, ea = ex.getmem(est, nm), ex.getmem(est, 'alloc')
            if not ea.eq(a0):
                def fr3(st, nm=nm, e0=e0, ea=ea):
                    m = ex.getmem(st, nm)
                    return FA([x], Implies(And(x >= 0, x < ea), m[x] == e0[x]), patterns=[m[x]])
                add('old-entry-objects-unchanged:' + nm, fr3)

                def fr4(st, nm=nm, e0=e0, ea=ea):
                    m = ex.getmem(st, nm)
                    return FA([x], Implies(x < ea, m[x] == e0[x]), patterns=[m[x]])
                add('old-entry-and-sub-objects-unchanged:' + nm, fr4)
    return cands


_uw = {}


def unwrap(e):
    """If(x in range, x, wrap!n) -> x: candidates assume conversions preserve values (they are checked anyway)"""
    k = e.get_id()
    if k in _uw:
        return _uw[k][1]
    if not is_app(e) or e.num_args() == 0:
        r = e
    elif e.decl().kind() == Z3_OP_ITE and is_const(e.arg(2)) and e.arg(2).decl().name().startswith('wrap!'):
        r = unwrap(e.arg(1))
    else:
        ch = [unwrap(c) for c in e.children()]
        r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
    _uw[k] = (e, r)
    return r


def mempairs(hm, tgt, d):
    """replace the havocked pieces of memory hm by tgt's"""
    out = []
    if hm.eq(tgt):
        return out
    out.append((hm, tgt))
    m = hm
    while m.decl().kind() == Z3_OP_STORE:
        if is_const(m.arg(2)):
            out.append((m.arg(2), Select(tgt, m.arg(1))))
        m = m.arg(0)
    return out


def _late(x, head, init):
    return '!' in x and x in _headnew(head, init)


def _headnew(head, init):
    """constants that occur in head's values but not in init's"""
    key = (id(head), len(head.env), len(head.mem))
    c = getattr(_headnew, 'c', None)
    if c is not None and c[0] == key:
        return c[1]
    a, b = set(), set()
    for st, acc in ((head, a), (init, b)):
        for v in list(st.env.values()) + list(st.mem.values()):
            for e in exprs(v):
                acc |= consts_of(e)
    class Late(set):
        pass
    r = a - b
    mx = max([_num(x) for x in b] + [-1])
    class L:
        def __contains__(self, x):
            return x in r or _num(x) > max(mx, min([_num(y) for y in r] + [1 << 60]) - 1)
    _headnew.c = (key, L(), head, init)
    return _headnew.c[1]


def exprs(v):
    if isinstance(v, ExprRef):
        return [v]
    if isinstance(v, P):
        return [v.b, v.o]
    if isinstance(v, Obj):
        return [v.id]
    if isinstance(v, It):
        return [v.pos]
    if isinstance(v, Pair):
        return exprs(v.a) + exprs(v.b)
    return []
