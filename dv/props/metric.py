"""Contracts of the reported metrics (engpar_sd.cpp, engpar_metrics.cpp, agiMigrationTimers.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.access import EI, ei_is, eghost, is_heit
USES = ['access', 'tag']
SD, MT, TM = 'partition/Diffusive/src/engpar_sd.cpp', 'partition/Metrics/engpar_metrics.cpp', 'agi/agiMigrationTimers.cpp'
FILES = [SD, MT, TM, 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp', 'agi/agiTag.cpp']
D = 'SDSlope.'
I, R = IntSort(), RealSort()


class Sd:
    """the window of the last three values: logical entry i (0 oldest ... n-1 newest)"""

    def __init__(self, v, o):
        self.max, self.cur, self.pos, self.vals = [v.f(o, D + n) for n in ('max_len', 'cur_len', 'pos', 'vals')]
        self.v = v

    def at(self, k):
        return self.v.at('real', self.vals, k)

    def inv(self):
        return [('window size', And(self.max == 3, self.cur >= 0, self.cur <= 3, self.pos >= 0, self.pos < 3)),
                ('fills from the start', Implies(self.cur < 3, self.pos == self.cur)),
                ('storage', And(self.vals.b >= 1, self.vals.o == 0, self.v.len(self.vals.b) >= 3))]

    def slot(self, i):
        """array slot get(i) reads when the window is full"""
        p = self.pos - i
        return If(p < 0, p + 3, p)


def sd(c):
    return Sd(c.old, c.this)


def partial(terms):
    def f(L):
        s = Sd(L.old, L.c.this)
        ts = [s.at(s.slot(k)) * w for k, w in enumerate(terms)]
        out = []
        ints = L.locals()
        for ni, i in ints:
            out.append(('counter %s' % ni, And(i >= 0, i <= 3)))
        for nr, r in L.reals():
            for ni, i in ints:
                out.append(('partial sum %s %s' % (nr, ni), r == Sum([If(i > k, t, RealVal(0)) for k, t in enumerate(ts)])))
                out.append(('partial sum down %s %s' % (nr, ni), r == Sum([If(i < 3 - k, t, RealVal(0)) for k, t in enumerate(ts)])))
        return out
    return f


W = [RealVal('-3/2'), RealVal(2), RealVal('-1/2')]
ONE = [RealVal(1)] * 3


def total_weight(ex, v, o, dim, ghosts):
    """the total of a criterion: vertex weights (with ghosts if asked) or the edge weights of a type"""
    g = Gv(v, o)
    lw, ew = g.ptr('local_weights'), g.ptr('edge_weights', dim)
    gw = gw_ptr(v, o)
    own = sumr(ex, v.arr('real', lw.b), lw.o, g.nlv)
    gh = sumr(ex, v.arr('real', gw.b), gw.o, g.ngv)
    ed = sumr(ex, v.arr('real', ew.b), ew.o, g.nle(dim))
    return If(dim == -1, own + If(ghosts, gh, RealVal(0)), ed)


def weight_loops(L):
    c, ex = L.c, L.ex
    g = Gv(L.old, c.args[0].b)
    lw, ew = g.ptr('local_weights'), g.ptr('edge_weights', c.args[1])
    gw = gw_ptr(L.old, c.args[0].b)
    t = c.args[1]
    out = []
    for nm, ty, p in L.ptrs():
        if ty.a.k == 'rec' and ty.a.a.endswith('EdgeIterator'):
            o = p.b
            et, k, n = eghost(L.cur, o)
            out.append(('edge iterator %s' % nm, And(p.o == 0, o >= 1, o >= L.old.ghost('alloc'), et == t, n == g.nle(t), 0 <= k, k <= n, ei_is(c, L.cur, o, t, k, n, g.nt), is_heit(c, L.cur, o) == g.hyper)))
            for nr, r in L.reals():
                out.append(('edges so far %s' % nr, r == sumr(ex, L.old.arr('real', ew.b), ew.o, k)))
    for nm, ty, p in L.handles():
        own = lambda k: sumr(ex, L.old.arr('real', lw.b), lw.o, k)
        if ty.a.a.endswith('Iterator'):
            k = p - 1
            out.append(('vertex position %s' % nm, And(0 <= k, k <= g.nlv)))
            out.append(('ghost position %s' % nm, And(g.nlv <= k, k <= g.nlv + g.ngv)))
            for nr, r in L.reals():
                out.append(('vertices so far %s %s' % (nm, nr), r == own(k)))
                out.append(('ghosts so far %s %s' % (nm, nr), r == own(g.nlv) + sumr(ex, L.old.arr('real', gw.b), gw.o, k - g.nlv)))
    return out


def weights_ok(g, t):
    return [('vertex weights', owned(g, g.ptr('local_weights'), g.nlv)), ('edge weights', Implies(t >= 0, owned(g, g.ptr('edge_weights', t), g.nle(t))))]


def specs():
    out = []
    A = out.append
    S = Spec
    A(S('SDSlope::SDSlope', SD, 'engpar::SDSlope::SDSlope', modwrap=True,
        modifies=lambda c: [('alloc',)] + [('field', D + n, c.this) for n in ('max_len', 'cur_len', 'pos', 'vals')],
        ensures=lambda c: Sd(c.new, c.this).inv() + [('empty', Sd(c.new, c.this).cur == 0)]))
    A(S('SDSlope::isFull', SD, 'engpar::SDSlope::isFull', requires=lambda c: sd(c).inv(), ensures=lambda c: [('full means three values', c.ret == (sd(c).cur == 3))]))
    A(S('SDSlope::get', SD, 'engpar::SDSlope::get', modwrap=True,
        requires=lambda c: sd(c).inv() + [('full', sd(c).cur == 3), ('index', And(c.args[0] >= 0, c.args[0] < 3))],
        ensures=lambda c: [('entry', c.ret == sd(c).at(sd(c).slot(c.args[0])))]))

    def push_post(c):
        o, n = Sd(c.old, c.this), Sd(c.new, c.this)
        k = Int('k!p')
        return n.inv() + [('one more value, at most three', n.cur == If(o.cur == 3, 3, o.cur + 1)),
                          ('next slot', n.pos == If(o.pos == 2, 0, o.pos + 1)),
                          ('value recorded', n.at(o.pos) == c.args[0]),
                          ('other values kept', FA([k], Implies(And(0 <= k, k < 3, k != o.pos), n.at(k) == o.at(k))))]
    A(S('SDSlope::push', SD, 'engpar::SDSlope::push', modwrap=True, requires=lambda c: sd(c).inv(), ensures=push_post,
        modifies=lambda c: [('field', D + 'cur_len', c.this), ('field', D + 'pos', c.this), ('mem', 'real', sd(c).vals.b)]))

    def full(c):
        return sd(c).inv() + [('full', sd(c).cur == 3)]

    def comb(c, w):
        s = sd(c)
        return Sum([s.at(s.slot(k)) * x for k, x in enumerate(w)])
    A(S('SDSlope::slope', SD, 'engpar::SDSlope::slope', modwrap=True, requires=full, loops=[partial(W)],
        ensures=lambda c: [('three-point slope of the recorded values', c.ret == comb(c, W))]))
    A(S('SDSlope::average', SD, 'engpar::SDSlope::average', modwrap=True, requires=full, loops=[partial(ONE)],
        ensures=lambda c: [('mean of the recorded values', c.ret * 3 == comb(c, ONE))]))
    # ---- imbalance
    def gw_req(c):
        g = Gv(c.old, c.args[0].b)
        t = c.args[1]
        return [('graph', And(c.args[0].b >= 1, c.args[0].o == 0))] + sizes(g) + [(n, Implies(t != -1, f)) for n, f in wf_type(g, t)] + weights_ok(g, t) + [('ghost weights', Implies(And(t == -1, c.args[2]), gw_ok(c.old, c.args[0].b)))]
    A(S('getWeight', MT, 'engpar::getWeight', requires=gw_req, modifies=lambda c: [('alloc',)], loops=[weight_loops],
        ensures=lambda c: [('total of the criterion', c.ret == total_weight(c.ex, c.old, c.args[0].b, c.args[1], c.args[2]))]))
    ar = lambda op: Function('allreduce:' + op, I, R, R)

    def imb_post(c):
        n = c.old.ghost('G:ncoll')
        m, t = ar('MPI_MAX')(n, c.args[0]), ar('MPI_SUM')(n + 1, c.args[0])
        return [('largest over average', Implies(t != 0, c.ret == m / (t / ToReal(Int('G_peers')))))]
    A(S('EnGPar_Get_Imbalance', MT, 'engpar::EnGPar_Get_Imbalance', requires=lambda c: [('ranks', Int('G_peers') >= 1)],
        modifies=lambda c: [('ghost', 'G:ncoll')], ensures=imb_post))
    # ---- timers
    X = 'MigrationTimers.'

    def tm(v, o):
        m = v.sub(o, X + 'nameToIdx')
        return v.has(m), v.val(m, 'int'), v.sub(o, X + 'times'), v.sub(o, X + 'counts')

    def kn(c):
        H, V, ts, cs = tm(c.old, c.this)
        return c.ex.key(c.args[0])

    def tinv(c, v):
        H, V, ts, cs = tm(v, c.this)
        k, j = Ints('k!t j!t')
        return [('indices', FA([k], Implies(H[k], And(V[k] >= 0, V[k] < v.size(ts))), patterns=[V[k]])),
                ('one count per timer', And(v.size(cs) == v.size(ts), v.size(ts) >= 0, v.size(ts) < 2 ** 31 - 2)),
                ('timers do not share entries', FA([k, j], Implies(And(H[k], H[j], k != j), V[k] != V[j]), patterns=[MultiPattern(V[k], V[j])]))]

    def T(v, c, k=None):
        H, V, ts, cs = tm(v, c.this)
        i = V[kn(c) if k is None else k]
        return v.arr('real', ts)[i], v.arr('int', cs)[i]

    def reg(c):
        return tinv(c, c.old) + [('registered timer', tm(c.old, c.this)[0][kn(c)])]
    Q = 'agi::MigrationTimers::'
    A(S('MigrationTimers::getTimerIdx', TM, Q + 'getTimerIdx', requires=reg, ensures=lambda c: [('entry of this timer', c.ret == tm(c.old, c.this)[1][kn(c)])]))
    A(S('MigrationTimers::getTime', TM, Q + 'getTime', requires=reg, ensures=lambda c: [('accumulated time', c.ret == T(c.old, c)[0])]))
    A(S('MigrationTimers::getCount', TM, Q + 'getCount', requires=reg, ensures=lambda c: [('number of updates', c.ret == T(c.old, c)[1])]))

    def others(c):
        k = Int('k!o')
        H = tm(c.old, c.this)[0]
        H1 = tm(c.new, c.this)[0]
        return FA([k], Implies(And(H[k], k != kn(c)), And(H1[k], *[a == b for a, b in zip(T(c.new, c, k), T(c.old, c, k))])))

    def tmod(c):
        H, V, ts, cs = tm(c.old, c.this)
        return [('mem', 'real', ts), ('mem', 'int', cs)]
    A(S('MigrationTimers::update', TM, Q + 'update', requires=reg, modifies=tmod,
        ensures=lambda c: tinv(c, c.new) + [('time added', T(c.new, c)[0] == T(c.old, c)[0] + c.args[1]), ('update counted', T(c.new, c)[1] == T(c.old, c)[1] + 1), ('other timers unchanged', others(c))]))

    def amod(c):
        o = c.old
        m, ts, cs, nm = [o.sub(c.this, X + n) for n in ('nameToIdx', 'times', 'counts', 'names')]
        return tmod(c) + [('alloc',), ('size', '', ts), ('size', '', cs), ('size', '', nm), ('has', '', m), ('val', 'int', m)]
    A(S('MigrationTimers::addTimer', TM, Q + 'addTimer', requires=lambda c: tinv(c, c.old) + [('room', c.old.size(tm(c.old, c.this)[2]) < 2 ** 31 - 3)], modifies=amod,
        ensures=lambda c: tinv(c, c.new) + [('registered', tm(c.new, c.this)[0][kn(c)]), ('starts at zero', And(*[x == 0 for x in T(c.new, c)])), ('other timers unchanged', others(c))]))
    cf = lambda op: Function('coll:' + op, I, R, R)
    g = lambda c: c.old.ghost('G:ncoll')
    M = dict(requires=reg, modifies=lambda c: [('ghost', 'G:ncoll')])
    np = ToReal(Int('G_peers'))
    avg = lambda c: T(c.old, c)[0] / ToReal(T(c.old, c)[1])
    A(S('MigrationTimers::processMax', TM, Q + 'processMax', ensures=lambda c: [('largest time of any rank', c.ret == cf('PCU_Max_Double')(g(c), T(c.old, c)[0]))], **M))
    A(S('MigrationTimers::processAvg', TM, Q + 'processAvg', ensures=lambda c: [('mean time per rank', c.ret == cf('PCU_Add_Double')(g(c), T(c.old, c)[0]) / np)], **M))
    A(S('MigrationTimers::perCallProcessMax', TM, Q + 'perCallProcessMax', ensures=lambda c: [('largest time per call', c.ret == cf('PCU_Max_Double')(g(c), avg(c)))], **M))
    A(S('MigrationTimers::perCallProcessAvg', TM, Q + 'perCallProcessAvg', ensures=lambda c: [('mean time per call', c.ret == cf('PCU_Add_Double')(g(c), avg(c)) / np)], **M))
    return out
