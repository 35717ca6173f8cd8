"""Contracts of migration plans (agiMigration.cpp, agiWeightMigration.cpp)."""
from z3 import *
import sym
from util import FA
from spec import Spec
from props.graph import *
USES = ['access', 'tag']
MG, WM = 'agi/agiMigration.cpp', 'agi/agiWeightMigration.cpp'
FILES = [MG, WM, 'agi/agiTag.cpp', 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp']
INTMAX = 2 ** 31 - 1
sym.INTERIOR.add('WMIterator.plan')


class Mv:
    """the state of a plan: the destination tag and the list of planned vertices"""

    def __init__(self, v, o):
        self.v = v
        self.gp, self.dest = v.f(o, 'Migration.g'), v.f(o, 'Migration.dest')
        self.g = Gv(v, self.gp.b)
        self.d = v.f(self.dest.b, 'Info.data')
        self.snd = v.sub(o, 'Migration.sending')
        self.n = v.size(self.snd)
        self.S = v.arr('h', self.snd)
        self.D = v.arr('long', self.d.b)

    def planned(self, h):
        """vertex handle h is planned"""
        return And(h - 1 < self.g.nlv, self.D[h - 1] != -1)

    def ok(self):
        g, i, j = self.g, Int('i!m'), Int('j!m')
        S_, D, n = self.S, self.D, self.n
        return sizes(g) + [('graph', And(self.gp.b >= 1, self.gp.o == 0)),
                ('destination tag', Implies(g.nlv > 0, And(self.dest.b >= 1, self.dest.o == 0, self.d.b >= 1, self.d.o == 0, 8 * g.nlv <= self.v.len(self.d.b)))),
                ('size', And(n >= 0, n < LIM)),
                ('listed vertices are local and planned', FA([i], Implies(And(0 <= i, i < n), And(S_[i] >= 1, S_[i] <= g.nlv, D[S_[i] - 1] != -1)), patterns=[S_[i]])),
                ('each vertex is listed once', FA([i, j], Implies(And(0 <= i, i < j, j < n), S_[i] != S_[j]), patterns=[MultiPattern(S_[i], S_[j])])),
                ('every planned vertex is listed', FA([j], Implies(And(0 <= j, j < g.nlv, D[j] != -1), Exists([i], And(0 <= i, i < n, S_[i] == j + 1))), patterns=[D[j]])),
                ('destinations are parts', FA([j], Implies(And(0 <= j, j < g.nlv), And(D[j] >= -1, D[j] <= INTMAX)), patterns=[D[j]]))]


def keep(c):
    a, b = Mv(c.old, c.this), Mv(c.new, c.this)
    return [('same graph and tag', And(a.gp.b == b.gp.b, a.gp.o == b.gp.o, a.dest.b == b.dest.b, a.dest.o == b.dest.o))]


def card(A):
    return Function('card', ArraySort(IntSort(), BoolSort()), IntSort())(A)


def enum(A, i):
    return Function('enum', IntSort(), ArraySort(IntSort(), BoolSort()), IntSort(), IntSort())(IntVal(1), A, i)


class Wi:
    """an iterator over a weight plan: the i-th source vertex and its j-th target"""

    def __init__(self, v, o):
        self.v, self.plan = v, v.f(o, 'WMIterator.plan')
        out, inn = v.f(o, 'WMIterator.outer_itr'), v.f(o, 'WMIterator.inner_itr')
        self.cid, self.i, self.j, self.OA, self.IA, self.icid = out.cid, out.pos, inn.pos, out.A, inn.A, inn.cid
        self.H = v.has(self.cid)
        self.key = enum(self.H, self.i)
        self.inner = Function('mapobj', IntSort(), IntSort(), IntSort())(self.cid, self.key)
        self.IH = v.has(self.inner)

    def more(self):
        return self.i < card(self.H)

    def ok(self):
        return [('over a plan', And(self.plan.b == self.cid, self.plan.o == 0, self.OA == self.H, 0 <= self.i, self.i <= card(self.H))),
                ('inside the targets of its vertex', Implies(self.more(), And(self.icid == self.inner, self.IA == self.IH, 0 <= self.j, self.j <= card(self.IH))))]

    def valid(self):
        return And(self.more(), self.j < card(self.IH))

    def u(self):
        return self.key

    def v_(self):
        return enum(self.IH, self.j)

    def weight(self):
        return self.v.val(self.inner, 'real')[enum(self.IH, self.j)]

    def at(self, o):
        return And(self.i == o.i, Implies(self.more(), self.j == o.j))

    def same(self, o):
        return And(self.cid == o.cid, self.at(o))


def specs():
    out = []
    A = out.append
    S = Spec
    mv = lambda c: Mv(c.old, c.this)

    def ctor_loop(L):
        c = L.c
        m = Mv(L.cur, c.this)
        g = Gv(L.old, c.args[0].b)
        k = Int('k!l')
        out = []
        d0 = L.init.f(L.init.f(c.this, 'Migration.dest').b, 'Info.data')
        for nm, ty, h in L.handles():
            out.append(('set before %s' % nm, And(h >= 1, h <= g.nlv + 1, FA([k], Implies(And(0 <= k, k < h - 1), m.D[k] == -1), patterns=[m.D[k]]))))
        return out
    A(S('Migration::Migration', MG, 'agi::Migration::Migration', nparams=1,
        requires=lambda c: sizes(Gv(c.old, c.args[0].b)) + [('graph', And(c.args[0].b >= 1, c.args[0].o == 0)), ('room', 8 * Gv(c.old, c.args[0].b).nlv < LIM)],
        modifies=lambda c: [('alloc',), ('field', 'Migration.g', c.this), ('field', 'Migration.dest', c.this), ('size', '', c.old.sub(c.this, 'Migration.sending'))],
        loops=[ctor_loop],
        ensures=lambda c: Mv(c.new, c.this).ok() + [('for the given graph', And(Mv(c.new, c.this).gp.b == c.args[0].b)), ('the plan is empty', Mv(c.new, c.this).n == 0),
                ('the tag is new', Implies(Mv(c.new, c.this).g.nlv > 0, And(Mv(c.new, c.this).dest.b >= c.old.ghost('alloc'), Mv(c.new, c.this).d.b >= c.old.ghost('alloc'))))]))
    A(S('Migration::size', MG, 'agi::Migration::size', requires=lambda c: mv(c).ok(), ensures=lambda c: [('number of planned vertices', c.ret == mv(c).n)]))
    vreq = lambda c: [('argument is a vertex', And(c.args[0].o >= 1, c.args[0].o <= mv(c).g.nlv + mv(c).g.ngv))]
    A(S('Migration::has', MG, 'agi::Migration::has', requires=lambda c: mv(c).ok() + vreq(c),
        ensures=lambda c: [('planned or not', c.ret == mv(c).planned(c.args[0].o))]))
    A(S('Migration::get', MG, 'agi::Migration::get', requires=lambda c: mv(c).ok() + [('planned', And(c.args[0].o >= 1, mv(c).planned(c.args[0].o)))],
        ensures=lambda c: [('its destination', c.ret == mv(c).D[c.args[0].o - 1])]))

    def ins(c):
        a, b = Mv(c.old, c.this), Mv(c.new, c.this)
        h, p = c.args[0].a.o, c.args[0].b
        k, i = Ints('k!p i!p')
        had = a.planned(h)
        return keep(c) + b.ok() + [('newly planned or not', c.ret == Not(had)), ('last destination wins', b.D[h - 1] == p),
                ('other vertices keep theirs', FA([k], Implies(And(0 <= k, k < a.g.nlv, k != h - 1), b.D[k] == a.D[k]), patterns=[b.D[k]])),
                ('size grows by new vertices', b.n == a.n + If(had, 0, 1)),
                ('new vertices are listed last', And(Implies(Not(had), b.S[a.n] == h), FA([i], Implies(And(0 <= i, i < a.n), b.S[i] == a.S[i]), patterns=[b.S[i]])))]
    A(S('Migration::insert', MG, 'agi::Migration::insert', requires=lambda c: mv(c).ok() + [('local vertex', And(c.args[0].a.o >= 1, c.args[0].a.o <= mv(c).g.nlv)), ('part', And(c.args[0].b >= 0, c.args[0].b <= INTMAX)), ('room', mv(c).n + 1 < LIM)],
        modifies=lambda c: [('mem', 'long', mv(c).d.b), ('mem', 'h', mv(c).snd), ('size', '', mv(c).snd)], ensures=ins))

    def clear_loop(L):
        m0, m = Mv(L.old, L.c.this), Mv(L.cur, L.c.this)
        k, i = Ints('k!l i!l')
        out = [('values kept or cleared', FA([k], Implies(And(0 <= k, k < m0.g.nlv), Or(m.D[k] == -1, m.D[k] == m0.D[k])), patterns=[m.D[k], m0.D[k]])),
               ('list kept', And(m.n == m0.n, FA([i], Implies(And(0 <= i, i < m0.n), m.S[i] == m0.S[i]), patterns=[m.S[i], m0.S[i]])))]
        for nm, a in L.locals():
            out.append(('cleared before %s' % nm, And(0 <= a, a <= m0.n, FA([i], Implies(And(0 <= i, i < a), m.D[m0.S[i] - 1] == -1), patterns=[m0.S[i]]))))
        return out
    A(S('Migration::clear', MG, 'agi::Migration::clear', requires=lambda c: mv(c).ok(), loops=[clear_loop],
        modifies=lambda c: [('mem', 'long', mv(c).d.b), ('size', '', mv(c).snd), ('mem', 'h', mv(c).snd)],
        ensures=lambda c: keep(c) + Mv(c.new, c.this).ok() + [('empty', Mv(c.new, c.this).n == 0), ('no vertex is planned', FA([Int('k!p')], Implies(And(0 <= Int('k!p'), Int('k!p') < mv(c).g.nlv), Mv(c.new, c.this).D[Int('k!p')] == -1)))]))
    # ---------------- weight plans: sending[v][u] = weight
    W = 'WeightMigration.'

    def outer(c, v):
        return v.sub(c.this, W + 'sending')

    def inner(c, h):
        return Function('mapobj', IntSort(), IntSort(), IntSort())(outer(c, c.old), h)
    A(S('WeightMigration::WeightMigration', WM, 'agi::WeightMigration::WeightMigration', nparams=1,
        modifies=lambda c: [('field', W + 'g', c.this), ('field', W + 's', c.this), ('has', '', outer(c, c.old))],
        ensures=lambda c: [('nothing planned', FA([Int('k!p')], Not(c.new.has(outer(c, c.new))[Int('k!p')]))), ('total', c.new.f(c.this, W + 's') == 0)]))
    A(S('WeightMigration::has(v)', WM, 'agi::WeightMigration::has', nparams=1, ensures=lambda c: [('some weight is planned for it', c.ret == c.old.has(outer(c, c.old))[c.args[0].o])]))
    pair = lambda c, v, a, b: And(v.has(outer(c, v))[a], v.has(inner(c, a))[b])
    A(S('WeightMigration::has(v,u)', WM, 'agi::WeightMigration::has', nparams=2, ensures=lambda c: [('the pair is planned', c.ret == pair(c, c.old, c.args[0].o, c.args[1].o))]))
    A(S('WeightMigration::get', WM, 'agi::WeightMigration::get', requires=lambda c: [('planned', pair(c, c.old, c.args[0].o, c.args[1].o))],
        ensures=lambda c: [('the weight of the pair', c.ret == c.old.val(inner(c, c.args[0].o), 'real')[c.args[1].o])]))

    def wins(c):
        a, b, w = c.args[0].o, c.args[1].o, c.args[2]
        x, y = Ints('x!p y!p')
        V = lambda v, p, q: v.val(inner(c, p), 'real')[q]
        return [('the pair is planned', pair(c, c.new, a, b)), ('weights add up', V(c.new, a, b) == If(pair(c, c.old, a, b), V(c.old, a, b), RealVal(0)) + w),
                ('other pairs stay planned or not', FA([x, y], Implies(Or(x != a, y != b), pair(c, c.new, x, y) == pair(c, c.old, x, y)))),
                ('other pairs keep their weight', FA([x, y], Implies(And(Or(x != a, y != b), pair(c, c.old, x, y)), V(c.new, x, y) == V(c.old, x, y)))),
                ('total', c.new.f(c.this, W + 's') == c.old.f(c.this, W + 's') + w)]
    A(S('WeightMigration::insert', WM, 'agi::WeightMigration::insert', ensures=wins,
        modifies=lambda c: [('has', '', outer(c, c.old)), ('has', '', inner(c, c.args[0].o)), ('val', 'real', inner(c, c.args[0].o)), ('field', W + 's', c.this)]))
    A(S('WeightMigration::clear', WM, 'agi::WeightMigration::clear', modifies=lambda c: [('has', '', outer(c, c.old)), ('field', W + 's', c.this)],
        ensures=lambda c: [('nothing planned', FA([Int('k!p')], Not(c.new.has(outer(c, c.new))[Int('k!p')]))), ('total', c.new.f(c.this, W + 's') == 0)]))
    A(S('WeightMigration::size', WM, 'agi::WeightMigration::size', requires=lambda c: [('range', And(c.old.f(c.this, W + 's') >= 0, c.old.f(c.this, W + 's') < LIM))],
        ensures=lambda c: [('whole part of the total', c.ret == ToInt(c.old.f(c.this, W + 's')))]))
    # ---------------- iterating over a plan
    A(S('Migration::begin', MG, 'agi::Migration::begin', ensures=lambda c: [('first vertex of the list', And(c.ret.cid == mv(c).snd, c.ret.pos == 0))]))
    A(S('Migration::end', MG, 'agi::Migration::end', ensures=lambda c: [('past the last vertex of the list', And(c.ret.cid == mv(c).snd, c.ret.pos == mv(c).n))]))
    it = lambda c, v, o=None: Wi(v, c.this if o is None else o)
    fields = lambda *fs: (lambda c: [('field', 'WMIterator.' + f, c.this) for f in fs])
    A(S('WMIterator::WMIterator', WM, 'agi::WMIterator::WMIterator', nparams=2, interior=(0,),
        requires=lambda c: [('plan', And(c.args[0].b != 0, c.args[0].o == 0, c.args[1].cid == c.args[0].b, c.args[1].A == c.old.has(c.args[0].b), 0 <= c.args[1].pos, c.args[1].pos <= card(c.args[1].A)))],
        modifies=fields('plan', 'outer_itr', 'inner_itr'),
        ensures=lambda c: it(c, c.new).ok() + [('at the given vertex', And(it(c, c.new).cid == c.args[0].b, it(c, c.new).i == c.args[1].pos)), ('at its first target', Implies(it(c, c.new).more(), it(c, c.new).j == 0))]))
    for f, nm in (('u', 'source vertex'), ('v', 'target vertex'), ('weight', 'planned weight')):
        A(S('WMIterator::' + f, WM, 'agi::WMIterator::' + f, requires=lambda c: it(c, c.old).ok() + [('not at the end', it(c, c.old).valid())],
            ensures=lambda c, f=f, nm=nm: [(nm, (c.ret if f == 'weight' else c.ret.o) == getattr(it(c, c.old), {'v': 'v_'}.get(f, f))())]))

    def step(c):
        a, b = it(c, c.old), it(c, c.new)
        last = a.j + 1 == card(a.IH)
        return b.ok() + [('next target of the vertex, or first target of the next vertex', And(b.cid == a.cid, b.i == If(last, a.i + 1, a.i), Implies(b.more(), b.j == If(last, 0, a.j + 1))))]
    A(S('WMIterator::operator++', WM, 'agi::WMIterator::operator++', nparams=0, requires=lambda c: it(c, c.old).ok() + [('not at the end', it(c, c.old).valid())],
        modifies=fields('outer_itr', 'inner_itr'), ensures=step))
    A(S('WMIterator::operator++(int)', WM, 'agi::WMIterator::operator++', nparams=1, requires=lambda c: it(c, c.old).ok() + [('not at the end', it(c, c.old).valid())],
        modifies=lambda c: [('alloc',)] + fields('outer_itr', 'inner_itr')(c),
        ensures=lambda c: step(c) + [('the former position is returned', it(c, c.new, c.ret.id).same(it(c, c.old)))]))
    A(S('WMIterator::operator==', WM, 'agi::WMIterator::operator==', requires=lambda c: it(c, c.old).ok() + it(c, c.old, c.args[0].id).ok() + [('iterators of one plan', it(c, c.old).cid == it(c, c.old, c.args[0].id).cid)],
        ensures=lambda c: [('equal exactly at the same pair', c.ret == it(c, c.old).at(it(c, c.old, c.args[0].id)))]))
    plan = lambda c, v: outer(c, v)
    for f in ('begin', 'end'):
        A(S('WeightMigration::' + f, WM, 'agi::WeightMigration::' + f, requires=lambda c: [],
            modifies=lambda c: [('alloc',)],
            ensures=lambda c, f=f: it(c, c.new, c.ret.id).ok() + [('over this plan', it(c, c.new, c.ret.id).cid == plan(c, c.old)),
                ('position', it(c, c.new, c.ret.id).i == (IntVal(0) if f == 'begin' else card(c.old.has(plan(c, c.old))))), ('at its first target', Implies(it(c, c.new, c.ret.id).more(), it(c, c.new, c.ret.id).j == 0))]))
    return out
