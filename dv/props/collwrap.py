"""The public collectives of PCU.h: which combination of which data they return."""
from z3 import *
from spec import Spec, Lemma
from util import FA

C = 'pcu/pcu.c'
FILES = [C]
I_, R_ = IntSort(), RealSort()
GHOSTS = {'G:ncollop': I_}
# value of element i combined over all ranks by the named operation in the k-th collective of the run
ALLR = Function('combine_all_real', I_, I_, R_, I_, R_)
ALLI = Function('combine_all_int', I_, I_, I_, I_, I_)
SCANI = Function('combine_scan_int', I_, I_, I_, I_, I_)
ET = {'doubles': ('real', 8), 'ints': ('int', 4), 'longs': ('long', 8), 'sizets': ('ulong', 8)}
FN = {}


def fid(name):
    from sym import Exec
    return -1000 - Exec.FIDS.setdefault(name, len(Exec.FIDS) + 1)


NAMES = ['pcu_%s_%s' % (o, t) for o in ('add', 'min', 'max') for t in ET]


def k(v):
    return v.ghost('G:ncollop')


def combined(c, old, new, p, n, el, F, op, kk):
    i = Int('i!p')
    A1, A0 = new.arr(el, p.b), old.arr(el, p.b)
    return [('every element is the combination over the ranks', FA([i], Implies(And(p.o <= i, i < p.o + n), A1[i] == F(op, kk, A0[i], i - p.o)), patterns=[A1[i]])),
            ('nothing else changes', FA([i], Implies(Or(i < p.o, i >= p.o + n), A1[i] == A0[i]), patterns=[A1[i]]))]


def specs():
    out = []
    st = lambda c: c.old.f(IntVal(0), '::global.global_state', None)

    def els(c):
        for nm in NAMES:
            if z3_eq(c.args[1].b, fid(nm)):
                return ET[nm.split('_')[2]]
        return None

    def z3_eq(a, n):
        a = simplify(a)
        return is_int_value(a) and a.as_long() == n

    def areq(c):
        e = els(c)
        return [('a merge function of PCU', BoolVal(e is not None))] + ([('data', And(c.args[2].b >= 1, c.args[2].o >= 0, c.args[2].o + c.args[3] / e[1] <= c.old.len(c.args[2].b), c.args[3] >= 0))] if e else [])

    def amod(c):
        e = els(c)
        return [('ghost', 'G:ncollop')] + ([('mem', e[0], c.args[2].b)] if e else [])

    def aens(fr, fi):
        def post(c):
            e = els(c)
            if e is None:
                return []
            F = fr if e[0] == 'real' else fi
            return [('count', k(c.new) == k(c.old) + 1)] + combined(c, c.old, c.new, c.args[2], c.args[3] / e[1], e[0], F, c.args[1].b, k(c.old))
        return post
    # justified by the step contracts, the pattern lemmas and the merge contracts (see DESIGN.md, C17)
    out.append(Spec('wrap:pcu_allreduce', C, 'pcu_allreduce', assumed=True, requires=areq, modifies=amod, ensures=aens(ALLR, ALLI)))
    out.append(Spec('wrap:pcu_scan', C, 'pcu_scan', assumed=True, requires=areq, modifies=amod, ensures=aens(ALLR, SCANI)))
    out.append(Spec('wrap:pcu_barrier', C, 'pcu_barrier', assumed=True, modifies=lambda c: [('ghost', 'G:ncollop')], ensures=lambda c: [('count', k(c.new) == k(c.old) + 1)]))

    def A(nm, **kw):
        out.append(Spec('wrap:' + nm, C, nm, allow_throw=True, **kw))

    def arr(nm, fn, el, es, F):
        def req(c):
            p = c.args[0]
            return [('array', And(p.b >= 1, p.o >= 0, c.args[1] >= 0, c.args[1] < 2 ** 40, p.o + c.args[1] <= c.old.len(p.b)))]

        def post(c):
            return [('one collective', k(c.new) == k(c.old) + 1)] + combined(c, c.old, c.new, c.args[0], c.args[1], el, F, IntVal(fid(fn)), k(c.old))
        A(nm, requires=req, ensures=post, modifies=lambda c: [('mem', el, c.args[0].b), ('ghost', 'G:ncollop')])

    def scalar(nm, fn, F):
        A(nm, ensures=lambda c: [('combination over the ranks', c.ret == F(IntVal(fid(fn)), k(c.old), c.args[0], IntVal(0))), ('one collective', k(c.new) == k(c.old) + 1)],
          modifies=lambda c: [('ghost', 'G:ncollop')])
    for op, cap in (('add', 'Add'), ('min', 'Min'), ('max', 'Max')):
        for t, one in (('doubles', 'Double'), ('ints', 'Int'), ('longs', 'Long'), ('sizets', 'SizeT')):
            if t == 'longs' and op != 'add':
                continue
            el, es = ET[t]
            F = ALLR if el == 'real' else ALLI
            many = {'doubles': 'Doubles', 'ints': 'Ints', 'longs': 'Longs', 'sizets': 'SizeTs'}[t]
            arr('PCU_%s_%s' % (cap, many), 'pcu_%s_%s' % (op, t), el, es, F)
            scalar('PCU_%s_%s' % (cap, one), 'pcu_%s_%s' % (op, t), F)

    def ex(nm, fn, el):
        def req(c):
            p = c.args[0]
            return [('array', And(p.b >= 1, p.o >= 0, c.args[1] >= 0, c.args[1] < 2 ** 40, p.o + c.args[1] <= c.old.len(p.b)))]

        def val(A0, i, p, kk):
            return SCANI(IntVal(fid(fn)), kk, A0[i], i - p.o) - A0[i]

        def post(c):
            p, n = c.args[0], c.args[1]
            i = Int('i!p')
            A1, A0 = c.new.arr(el, p.b), c.old.arr(el, p.b)
            return [('one collective', k(c.new) == k(c.old) + 1),
                    ('inclusive scan minus the own contribution', FA([i], Implies(And(p.o <= i, i < p.o + n), A1[i] == val(A0, i, p, k(c.old))), patterns=[A1[i]])),
                    ('nothing else changes', FA([i], Implies(Or(i < p.o, i >= p.o + n), A1[i] == A0[i]), patterns=[A1[i]]))]

        def copy_loop(L):
            out = []
            p, n = L.c.args[0], L.c.args[1]
            A0 = L.old.arr(el, p.b)
            i = Int('i!l')
            for key, t, o in L.ptrs():
                for nm, x in L.locals():
                    B = L.cur.arr(el, o.b)
                    out.append(('copied below %s into %s' % (nm, key), And(0 <= x, x <= n, o.o == 0, o.b != p.b, FA([i], Implies(And(0 <= i, i < x), B[i] == A0[p.o + i]), patterns=[B[i]]))))
            return out

        def sub_loop(L):
            out = []
            p, n = L.c.args[0], L.c.args[1]
            A0, A1 = L.old.arr(el, p.b), L.cur.arr(el, p.b)
            Ai = L.init.arr(el, p.b)
            i = Int('i!l')
            for nm, x in L.locals():
                out.append(('shifted below ' + nm, And(0 <= x, x <= n, FA([i], Implies(And(p.o <= i, i < p.o + x), A1[i] == val(A0, i, p, k(L.old))), patterns=[A1[i]]),
                            FA([i], Implies(Or(i < p.o, i >= p.o + x), A1[i] == Ai[i]), patterns=[A1[i]]))))
            return out
        A(nm, requires=req, ensures=post, modifies=lambda c: [('mem', el, c.args[0].b), ('ghost', 'G:ncollop')], loops=[copy_loop, sub_loop])
        one = nm[:-1]
        A(one, ensures=lambda c: [('exclusive scan', c.ret == SCANI(IntVal(fid(fn)), k(c.old), c.args[0], IntVal(0)) - c.args[0])], modifies=lambda c: [('ghost', 'G:ncollop')])
    ex('PCU_Exscan_Ints', 'pcu_add_ints', 'int')
    ex('PCU_Exscan_Longs', 'pcu_add_longs', 'long')
    scalar('PCU_Or', 'pcu_max_ints', ALLI)
    scalar('PCU_And', 'pcu_min_ints', ALLI)
    A('PCU_Barrier', modifies=lambda c: [('ghost', 'G:ncollop')], ensures=lambda c: [('one barrier', k(c.new) == k(c.old) + 1)])
    for s in out:
        s.interior = range(8)      # messages, buffers and counters are members of larger records
    return out
