"""Contracts of vertex adjacency and of the second-adjacency tables (agiIterate.cpp, agiVertex.cpp, agiEdge.cpp, agiConstruct.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.access import E, V, IT, TC, PI, EI, GI, ei_is, eghost, is_heit
USES = ['access', 'residence', 'tag']
CO = 'agi/agiConstruct.cpp'
FILES = [IT, V, E, TC, CO, 'agi/agiTag.cpp']
I_, B_ = IntSort(), BoolSort()
AI = ArraySort(I_, I_)


class Gi:
    """a vertex adjacency iterator: next slot k of n of the vertex's edge list, cnt pins of the current edge are done"""

    def __init__(self, v, o, g):
        self.v, self.o, self.g = v, o, g
        f = lambda n: v.f(o, GI + n)
        self.isH, self.cnt, self.eitr, self.pitr, self.edge = f('isH'), f('count'), f('eitr'), f('pitr'), f('edge').o
        self.t, self.k, self.n = eghost(v, self.eitr.b)
        self.none = self.edge == 0

    def deg(self):
        return self.degof(self.cur())

    def degof(self, e):
        return self.g.pdl(self.t, e + 1) - self.g.pdl(self.t, e)

    def cur(self):
        return self.g.el(self.t, self.k - 1)

    def more(self):
        return And(Not(self.none), self.cnt < self.deg())

    def ok(self, c):
        g, t, k, n = self.g, self.t, self.k, self.n
        loc, end = self.v.f(self.pitr.b, PI + 'loc'), self.v.f(self.pitr.b, PI + 'end')
        pl = g.ptr('pin_list', t)
        P0, P1 = pl.o + g.pdl(t, self.cur()), pl.o + g.pdl(t, self.cur() + 1)
        pnull = And(self.pitr.b == 0, self.pitr.o == 0)
        pat = And(self.pitr.b >= 1, self.pitr.o == 0, loc.b == pl.b, end.b == pl.b, loc.o == P0 + self.cnt, end.o == P1)
        return [('kind of graph', self.isH == g.hyper),
                ('type', And(0 <= t, t < g.nt)),
                ('edge positions', And(self.eitr.b >= 1, self.eitr.o == 0, ei_is(c, self.v, self.eitr.b, t, k, n, g.nt), Not(is_heit(c, self.v, self.eitr.b)), 0 <= k, k <= n, n <= g.dl(t, g.nlv))),
                ('before the first hyperedge', Implies(And(g.hyper, self.none), And(self.cnt == 0, pnull))),
                ('inside a hyperedge', Implies(And(g.hyper, Not(self.none)), And(k >= 1, self.edge == handle(g, self.cur(), t), 0 <= self.cnt, self.cnt <= self.deg(), Or(And(pnull, self.cnt == self.deg()), pat))))]


def pinned(g, t):
    """every hyperedge has a pin"""
    e = Int('e!pn')
    A = g.v.arr('int', g.ptr('pin_degree_list', t).b)
    return [('hyperedges have pins', Implies(g.hyper, FA([e], Implies(And(0 <= e, e < g.nle(t)), g.pdl(t, e) < g.pdl(t, e + 1)), patterns=[g.pdl(t, e)])))]


def gi_step(a, b, ret):
    """effect of one step on the iterator state; ret is the returned handle"""
    g, t = a.g, a.t
    H = g.hyper
    first = g.el(t, a.k)
    return [('same walk', And(b.t == t, b.n == a.n, b.eitr.b == a.eitr.b, b.isH == a.isH)),
            ('traditional: target of the next edge', Implies(And(Not(H), a.k < a.n), And(ret == g.el(t, a.k) + 1, b.k == a.k + 1, b.edge == handle(g, a.k, t)))),
            ('traditional: null exactly at the end', Implies(Not(H), And((ret == 0) == (a.k >= a.n), Implies(a.k >= a.n, b.k == a.k)))),
            ('hyper: next pin of the edge', Implies(And(H, a.more()), And(ret == g.pl(t, g.pdl(t, a.cur()) + a.cnt) + 1, b.k == a.k, b.cnt == a.cnt + 1, b.edge == a.edge))),
            ('hyper: first pin of the next edge', Implies(And(H, Not(a.more()), a.k < a.n), And(ret == g.pl(t, g.pdl(t, first)) + 1, b.k == a.k + 1, b.cnt == 1, b.edge == handle(g, first, t)))),
            ('hyper: a vertex while the edge has pins', Implies(And(H, a.more()), ret != 0)),
            ('hyper: a vertex while there are edges', Implies(And(H, Not(a.more()), a.k < a.n), ret != 0)),
            ('hyper: null at the end', Implies(And(H, Not(a.more()), a.k >= a.n), And(ret == 0, b.k == a.k, b.cnt == a.cnt, b.edge == a.edge)))]


def specs():
    out = []
    A = out.append
    S = Spec
    gv = lambda c: Gv(c.old, c.this)
    mk = lambda p: (lambda c: [('field', GI + x, c.args[0].b) for x in p])

    def adj_req(c):
        return vtx_req(c, local=True) + wf_type(gv(c), c.args[1])

    def adj_post(c):
        g, t = gv(c), c.args[1]
        x = c.args[0].o - 1
        b = Gi(c.new, c.ret.b, g)
        if not c.callsite:
            return [('kind of graph', b.isH == g.hyper), ('nothing walked yet', And(b.none, b.cnt == 0, b.pitr.b == 0, b.pitr.o == 0)),
                    ('all edges of the vertex', And(b.eitr.o == 0, ei_is(c, c.new, b.eitr.b, t, g.dl(t, x), g.dl(t, x + 1), g.nt), Not(is_heit(c, c.new, b.eitr.b)))),
                    ('fresh', And(c.ret.o == 0, c.ret.b >= c.old.ghost('alloc'), b.eitr.b >= c.old.ghost('alloc')))]
        return b.ok(c) + [('from the first edge of the vertex', And(c.ret.o == 0, c.ret.b >= c.old.ghost('alloc'), b.eitr.b >= c.old.ghost('alloc'), b.t == t, b.k == g.dl(t, x), b.n == g.dl(t, x + 1), b.none, b.cnt == 0))]
    A(S('Ngraph::adjacent', V, 'agi::Ngraph::adjacent', requires=adj_req, modifies=lambda c: [('alloc',)], ensures=adj_post, ret_fresh_obj=True, rawptr=True))

    def it_req(c):
        g = gv(c)
        a = Gi(c.old, c.args[0].b, g)
        return sizes(g) + wf_type(g, a.t) + pinned(g, a.t) + [('iterator', And(c.args[0].b >= 1, c.args[0].o == 0))] + a.ok(c)

    def it_post(c):
        g = gv(c)
        a, b = Gi(c.old, c.args[0].b, g), Gi(c.new, c.args[0].b, g)
        return gi_step(a, b, c.ret.o) + b.ok(c) + [('same iterator', And(c.argn[0].b == c.args[0].b, c.argn[0].o == 0))]
    A(S('Ngraph::iterate(adjacent)', IT, 'agi::Ngraph::iterate', sig='(GraphIterator', requires=it_req, ensures=it_post, outs=(0,), rawptr=True,
        modifies=lambda c: [('alloc',)] + [('field', GI + x, c.args[0].b) for x in ('count', 'pitr', 'edge')] + [('field', EI + x, Gi(c.old, c.args[0].b, gv(c)).eitr.b) for x in ('loc', 'ghk')] +
            [('field', PI + x, c.old.f(c.args[0].b, GI + 'pitr').b) for x in ('loc', 'end')]))
    # ---------------- walks over the tables: positions are 1 + t + nt*k like edge handles
    for nm, F, per in (('vev', V, 'vertex'), ('eve', E, 'edge')):
        off = lambda c, t, i, nm=nm: c.old.at('int', gv(c).ptr(nm + '_offsets', t), i)

        def table(c, t, n, nm=nm):
            g = gv(c)
            o, l = g.ptr(nm + '_offsets', t), g.ptr(nm + '_lists', t)
            i = Int('i!t')
            A_ = c.old.arr('int', o.b)
            tot = c.old.at('int', o, n)
            lim = g.nlv + g.ngv if nm == 'vev' else g.nle(t)
            L_ = c.old.arr('int', l.b)
            return [('table exists', And(owned(g, o, n + 1), owned(g, l, tot), A_[0] == 0)),
                    ('offsets in order', And(tot >= 0, g.nt * tot + 2 * g.nt + 8 < LIM, FA([i], Implies(And(0 <= i, i <= n), And(A_[i] >= 0, A_[i] <= tot)), patterns=[A_[i]]))),
                    ('entries are elements', FA([i], Implies(And(0 <= i, i < tot), And(L_[i] >= 0, L_[i] < lim)), patterns=[L_[i]]))]
        if nm == 'vev':
            req = lambda c, table=table: vtx_req(c, local=True) + [('type', And(c.args[1] >= 0, c.args[1] < gv(c).nt))] + table(c, c.args[1], gv(c).nlv)
            for f, d, txt in (('begin', 0, 'first entry of the vertex'), ('end', 1, 'one past the first entry of the next vertex')):
                A(S('Ngraph::vev_' + f, V, 'agi::Ngraph::vev_' + f, requires=req,
                    ensures=lambda c, d=d, txt=txt, off=off: [(txt, c.ret.o == handle(gv(c), off(c, c.args[1], c.args[0].o - 1 + d) + d, c.args[1]))]))
        else:
            def ereq(c, table=table):
                g = gv(c)
                l, t = lt(c)
                return sizes(g) + [('argument is the handle of an edge', And(0 <= l, l < g.nle(t), 0 <= t, t < g.nt, g.nt * g.nle(t) + g.nt < LIM, c.args[0].o == handle(g, l, t)))] + table(c, t, g.nle(t))
            for f, d, txt in (('begin', 0, 'first entry of the edge'), ('end', 1, 'one past the first entry of the next edge')):
                A(S('Ngraph::eve_' + f, E, 'agi::Ngraph::eve_' + f, requires=ereq, decomp=decomp,
                    ensures=lambda c, d=d, txt=txt, off=off: [(txt, c.ret.o == handle(gv(c), off(c, lt(c)[1], lt(c)[0] + d) + d, lt(c)[1]))]))

        def wreq(c, table=table, nm=nm):
            g = gv(c)
            k, t = lt(c)
            n = g.nlv if nm == 'vev' else g.nle(t)
            tot = c.old.at('int', g.ptr(nm + '_offsets', t), n)
            return sizes(g) + [('type', And(0 <= t, t < g.nt)), ('edges', And(g.nle(t) >= 0, g.nt * g.nle(t) + g.nt < LIM))] + table(c, t, n) + [('argument is a position of the table', And(0 <= k, k <= tot + 1, c.args[0].o == handle(g, k, t)))]

        def wpost(c, nm=nm):
            g = gv(c)
            k, t = lt(c)
            n = g.nlv if nm == 'vev' else g.nle(t)
            tot = c.old.at('int', g.ptr(nm + '_offsets', t), n)
            ent = c.old.at('int', g.ptr(nm + '_lists', t), k)
            return [('the entry at the position', Implies(k < tot, c.ret.o == (ent + 1 if nm == 'vev' else handle(g, ent, t)))),
                    ('null past the last entry', Implies(k >= tot, c.ret.o == 0)), ('advances by one', c.argn[0].o == handle(g, k + 1, t))]
        A(S('Ngraph::iterate(%s)' % nm, IT, 'agi::Ngraph::iterate', sig='(%sIterator' % nm.upper(), requires=wreq, ensures=wpost, outs=(0,), decomp=decomp))
    return out
