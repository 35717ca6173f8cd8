"""Contracts of the edge queues (partition/Diffusive/src/engpar_queue.h, engpar_queue.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.access import PI, EI, ei_is, eghost, is_heit
from props.residence import own_req, src_ok, srcf, ownv
USES = ['access', 'residence', 'tag']
QU = 'partition/Diffusive/src/engpar_queue.cpp'
FILES = [QU, 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp', 'agi/agiTag.cpp']
I_, B_ = IntSort(), BoolSort()
AI = ArraySort(I_, I_)
Q = 'ShrinkingArray.'
KEY = [B_, AI, AI, AI, AI, AI, I_]
FOR = Function('foreign_pin', *(KEY + [I_, B_]))
HN = Function('edge_handle', I_, I_, I_)
CQ = Function('cut_edges_before', *(KEY + [I_, I_]))


class Qv:
    def __init__(self, v, o):
        f = lambda n: v.f(o, Q + n)
        self.v = v
        self.s, self.n, self.cur, self.nxt = f('s'), f('next_size'), f('current'), f('next')
        self.C, self.N = v.arr('h', self.cur.b), v.arr('h', self.nxt.b)

    def ok(self):
        room = self.v.len(self.cur.b)
        return And(self.cur.b >= 1, self.nxt.b >= 1, self.cur.b != self.nxt.b, self.cur.o == 0, self.nxt.o == 0, self.v.len(self.nxt.b) == room, 0 <= self.s, self.s <= room, 0 <= self.n, self.n <= room, room < LIM)


class Cut:
    """edges of a type with a pin owned by another part, and how many of them come before an edge"""

    def __init__(self, ex, v, o, t):
        g = self.g = Gv(v, o)
        A = lambda n, *t: v.arr('int', g.ptr(n, *t).b)
        self.t, self.ex = t, ex
        self.key = [g.hyper, A('owners'), A('pin_list', t), A('pin_degree_list', t), A('edge_list', t), A('degree_list', t), g.nlv]

    def cut(self, l):
        return FOR(*(self.key + [l]))

    def cnt(self, l):
        return CQ(*(self.key + [l]))

    def hnd(self, l):
        return HN(self.g.nt, l)

    def foreign(self, l, upto=None):
        g, t = self.g, self.t
        k = Int('k!f')
        P = g.ptr('pin_list', t)
        A = g.v.arr('int', P.b)
        n = g.pdl(t, l + 1) - g.pdl(t, l) if upto is None else upto
        m = IntVal(2) if upto is None else upto
        me = Int('G_self')
        h = Exists([k], And(P.o + g.pdl(t, l) <= k, k < P.o + g.pdl(t, l) + n, ownv(g, A[k] + 1) != me), patterns=[A[k]])
        tr = Or(And(0 < m, ownv(g, srcf(g, l, t) + 1) != me), And(1 < m, ownv(g, g.el(t, l) + 1) != me))
        return Or(And(g.hyper, h), And(Not(g.hyper), tr))

    def defs(self, l):
        """the defining equations at edge l"""
        n = simplify(l + 1)
        ok = And(0 <= l, l < self.g.nle(self.t))
        self.ex.gfact(self.cnt(IntVal(0)) == 0)
        self.ex.gfact(self.hnd(l) == handle(self.g, l, self.t))
        self.ex.gfact(Implies(ok, And(self.cut(l) == self.foreign(l), self.cnt(n) == self.cnt(l) + If(self.cut(l), 1, 0))))


def pin_walk(L, g, l, t):
    """the pin iterator tracks the pin counter while edge (l, t) is walked"""
    s = srcf(g, l, t)
    out = []
    v = L.cur
    k = Int('k!w')
    me = Int('G_self')
    for nm, ty, p in L.ptrs():
        if ty.a.k != 'rec' or not ty.a.a.endswith('PinIterator'):
            continue
        o = p.b
        loc, end = v.f(o, PI + 'loc'), v.f(o, PI + 'end')
        pl = g.ptr('pin_list', t)
        P0, P1 = pl.o + g.pdl(t, l), pl.o + g.pdl(t, l + 1)
        A = g.v.arr('int', pl.b)
        out.append(('hyper iterator range %s' % nm, Implies(g.hyper, And(loc.b == pl.b, end.b == pl.b, end.o == P1, P0 <= loc.o, loc.o <= P1))))
        out.append(('iterator object %s' % nm, And(p.o == 0, o >= 1, o >= L.old.ghost('alloc'))))
        sh, dh = s + 1, g.el(t, l) + 1
        st0, st1, st2 = And(loc.o == sh, end.o == dh), And(loc.o == dh, end.o == dh), And(loc.o == 0, end.o == 0)
        out.append(('trad iterator %s' % nm, Implies(Not(g.hyper), And(loc.b == 0, end.b == 0, Or(st0, st1, st2)))))
        for n2, cur, ini in L.ints():
            out.append(('hyper position %s %s' % (nm, n2), Implies(g.hyper, loc.o == P0 + cur)))
            out.append(('trad position %s %s' % (nm, n2), Implies(Not(g.hyper), And(cur >= 0, Implies(cur == 0, st0), Implies(And(cur == 1, sh != dh), st1), Implies(And(cur == 1, sh == dh), st2)))))
            out.append(('own so far %s' % n2, FA([k], Implies(And(g.hyper, P0 <= k, k < P0 + cur), ownv(g, A[k] + 1) == me), patterns=[A[k]])))
            out.append(('own so far trad %s' % n2, Implies(Not(g.hyper), And(Implies(cur > 0, ownv(g, sh) == me), Implies(cur > 1, ownv(g, dh) == me)))))
    return out


def ciq_loops(L):
    c = L.c
    go = c.args[0].b
    C = Cut(L.ex, L.old, go, IntVal(0))
    g, t = C.g, IntVal(0)
    nle = g.nle(t)
    l = Int('l!l')
    out = []
    inner = any(ty.a.k == 'rec' and ty.a.a.endswith('PinIterator') and nm in [x[0] for x in L.ptrs()] for nm, ty, p in L.ptrs())
    qs = [(nm, p) for nm, ty, p in L.ptrs() if ty.a.k == 'rec' and ty.a.a.endswith('ShrinkingArray')]
    for nm, ty, p in L.ptrs():
        if ty.a.k != 'rec' or not ty.a.a.endswith('EdgeIterator'):
            continue
        o = p.b
        et, k, n = eghost(L.cur, o)
        e = simplify(k - 1)
        C.defs(k)
        C.defs(e)
        out.append(('edge iterator %s' % nm, And(p.o == 0, o >= 1, o >= L.old.ghost('alloc'), et == t, n == nle, 0 <= k, k <= n, ei_is(c, L.cur, o, t, k, n, g.nt), is_heit(c, L.cur, o) == g.hyper)))
        out.append(('at an edge %s' % nm, And(k >= 1, *[True])))
        for hn, hty, h in L.handles():
            out.append(('edge %s of %s' % (hn, nm), And(k >= 1, h == C.hnd(e))))
        out += pin_walk(L, g, e, t)
        for tag, m in (('after', k), ('before', e)):
            out.append(('counts grow %s %s' % (tag, nm), And(C.cnt(m) >= 0, C.cnt(m) <= m, FA([l], Implies(And(0 <= l, l < m), And(C.cnt(l) >= 0, C.cnt(l) <= C.cnt(m), Implies(C.cut(l), C.cnt(l) < C.cnt(m)))), patterns=[C.cnt(l)]))))
            for n2, a in L.locals():
                out.append(('%s counts %s %s' % (n2, tag, nm), a == C.cnt(m)))
            for n2, q in qs:
                V = Qv(L.cur, q.b)
                out.append(('queue %s' % n2, And(q.o == 0, q.b >= L.old.ghost('alloc'), V.ok(), V.cur.b >= L.old.ghost('alloc'), V.nxt.b >= L.old.ghost('alloc'), L.cur.len(V.nxt.b) == C.cnt(nle))))
                out.append(('%s holds the cut edges %s %s' % (n2, tag, nm), And(V.n == C.cnt(m), V.s == 0, FA([l], Implies(And(0 <= l, l < m, C.cut(l)), V.N[C.cnt(l)] == C.hnd(l)), patterns=[C.cnt(l)]))))
    return out


def specs():
    out = []
    A = out.append
    S = lambda *a, **k: Spec(*a, **k)
    q0, q1 = (lambda c: Qv(c.old, c.this)), (lambda c: Qv(c.new, c.this))
    N = 'ShrinkingArray::'
    B = 'engpar::ShrinkingArray::'
    ok = lambda c: [('queue', q0(c).ok())]
    fields = lambda *n: (lambda c: [('field', Q + x, c.this) for x in n])
    A(S(N + 'ShrinkingArray', QU, B + 'ShrinkingArray', nparams=1, requires=lambda c: [('room', And(c.args[0] >= 0, c.args[0] < LIM))],
        modifies=lambda c: [('alloc',)] + fields('s', 'current', 'next', 'next_size')(c),
        ensures=lambda c: [('empty, with the given room', And(q1(c).ok(), q1(c).s == 0, q1(c).n == 0, c.new.len(q1(c).nxt.b) == c.args[0])), ('fresh arrays', And(q1(c).cur.b >= c.old.ghost('alloc'), q1(c).nxt.b >= c.old.ghost('alloc')))]))
    k = Int('k!p')
    A(S(N + 'size', QU, B + 'size', ensures=lambda c: [('number of elements of this iteration', c.ret == q0(c).s)]))
    A(S(N + 'begin', QU, B + 'begin', ensures=lambda c: [('first position', c.ret == 0)]))
    A(S(N + 'end', QU, B + 'end', ensures=lambda c: [('past the last element', c.ret == q0(c).s)]))
    for f in ('get', 'operator[]'):
        A(S(N + f, QU, B + f, requires=lambda c: ok(c) + [('position', And(0 <= c.args[0], c.args[0] < q0(c).s))], ensures=lambda c: [('the element at the position', c.ret.o == q0(c).C[c.args[0]])]))
    A(S(N + 'addElement', QU, B + 'addElement', requires=lambda c: ok(c) + [('room', q0(c).n < c.old.len(q0(c).nxt.b))],
        modifies=lambda c: [('mem', 'h', q0(c).nxt.b), ('field', Q + 'next_size', c.this)],
        ensures=lambda c: [('one more element', And(q1(c).ok(), q1(c).n == q0(c).n + 1)), ('added last', q1(c).N == Store(q0(c).N, q0(c).n, c.args[0].o))]))
    A(S(N + 'startIteration', QU, B + 'startIteration', requires=ok, modifies=fields('s', 'current', 'next', 'next_size'),
        ensures=lambda c: [('the added elements are the new iteration', And(q1(c).ok(), q1(c).s == q0(c).n, q1(c).n == 0, FA([k], Implies(And(0 <= k, k < q0(c).n), q1(c).C[k] == q0(c).N[k])))),
                            ('the arrays change roles', And(q1(c).cur.b == q0(c).nxt.b, q1(c).nxt.b == q0(c).cur.b))]))

    def req(c):
        g = Gv(c.old, c.args[0].b)
        return sizes(g) + [('graph', And(c.args[0].b >= 1, c.args[0].o == 0))] + wf_type(g, IntVal(0)) + own_req(g) + src_ok(g, IntVal(0))

    def post(c):
        C = Cut(c.ex, c.old, c.args[0].b, IntVal(0))
        V = Qv(c.new, c.ret.b)
        l = Int('l!p')
        nle = C.g.nle(IntVal(0))
        return [('a fresh queue', And(c.ret.o == 0, c.ret.b >= c.old.ghost('alloc'), V.ok(), V.s == 0)),
                ('as many elements as cut edges', V.n == C.cnt(nle)),
                ('every cut edge is at its place', FA([l], Implies(And(0 <= l, l < nle, C.cut(l)), And(0 <= C.cnt(l), C.cnt(l) < V.n, V.N[C.cnt(l)] == C.hnd(l)))))]
    A(S('createIterationQueue', QU, 'engpar::createIterationQueue', requires=req, ensures=post, loops=[ciq_loops], modifies=lambda c: [('alloc',)], rawptr=True, ret_fresh_obj=True, auto=r'^(old-obj|old-entry-obj|cond)|(>=init|>=0|\.base|==init)$'))
    return out
