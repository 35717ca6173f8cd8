"""Contracts of vertex selection (engpar_selector.cpp, engpar_weightSelector.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.access import PI, EI, ei_is, eghost, is_heit
from props.queue import Qv
from props.diff import Cn, subax
from props.plan import Mv
from props.residence import own_req, src_req, srcv, ownv, it_loop, has_pin_on, srcf, src_ok
USES = ['access', 'residence', 'tag', 'queue', 'diff', 'metric', 'plan']
SE = 'partition/Diffusive/src/engpar_selector.cpp'
WS = 'partition/Diffusive/src/engpar_weightSelector.cpp'
FILES = [SE, WS, 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp', 'agi/agiTag.cpp']
I_, B_, R_ = IntSort(), BoolSort(), RealSort()


class As:
    """the context of a function seen as a member of its first argument, the graph"""

    def __init__(self, c, this, args):
        self._c, self.this, self.args = c, this, args

    def __getattr__(self, n):
        return getattr(self._c, n)


class AsL(As):
    def __init__(self, L, c):
        self._c, self.c = L, c


def onedge(c):
    return As(c, c.args[0].b, c.args[1:])


def ghosts_elsewhere(g):
    i = Int('i!g')
    P_ = g.ptr('owners')
    A = g.v.arr('int', P_.b)
    return [('ghosts are owned elsewhere', FA([i], Implies(And(P_.o <= i, i < P_.o + g.ngv), A[i] != Int('G_self')), patterns=[A[i]]))]


def kS(g, h):
    return ownv(g, h) != Int('G_self')


def fine(o):
    return And(o.b >= 1, o.o == 0)


def cav_spec(mine, cav):
    """collects the pins of an edge owned by this part (mine) or by others"""
    keep = lambda o: (o == Int('G_self')) if mine else (o != Int('G_self'))

    def req(c):
        e = onedge(c)
        g = Gv(c.old, e.this)
        return [('graph', fine(c.args[0]))] + edge_req(e) + own_req(g) + src_req(g, *lt(e), e)

    def pinset(c, e, view, h, n=None):
        g = Gv(c.old, e.this)
        l, t = lt(e)
        s = srcv(g, l, t, e)
        k = Int('k!s')
        P_ = g.ptr('pin_list', t)
        A = g.v.arr('int', P_.b)
        m = g.pdl(t, l + 1) - g.pdl(t, l) if n is None else n
        tn = 2 if n is None else n
        return Or(And(g.hyper, Exists([k], And(P_.o + g.pdl(t, l) <= k, k < P_.o + g.pdl(t, l) + m, A[k] + 1 == h, keep(ownv(g, h))), patterns=[A[k]])),
                  And(Not(g.hyper), keep(ownv(g, h)), Or(And(0 < tn, h == s + 1), And(1 < tn, h == g.el(t, l) + 1))))

    def post(c):
        e = onedge(c)
        g = Gv(c.old, e.this)
        l, t = lt(e)
        s = srcv(g, l, t, e)
        H, H0 = c.new.has(c.args[2].id), c.old.has(c.args[2].id)
        h, k = Ints('h!p k!p')
        P_ = g.ptr('pin_list', t)
        A = g.v.arr('int', P_.b)
        w = 'owned here' if mine else 'owned elsewhere'
        out = [('every pin %s is a member (hypergraph)' % w, FA([k], Implies(And(g.hyper, P_.o + g.pdl(t, l) <= k, k < P_.o + g.pdl(t, l + 1), keep(ownv(g, A[k] + 1))), H[A[k] + 1]), patterns=[A[k]])),
               ('every end %s is a member (traditional)' % w, Implies(Not(g.hyper), And(Implies(keep(ownv(g, s + 1)), H[s + 1]), Implies(keep(ownv(g, g.el(t, l) + 1)), H[g.el(t, l) + 1])))),
               ('every new member is a pin %s' % w, FA([h], Implies(H[h], Or(H0[h], pinset(c, e, c.old, h))), patterns=[H[h]])),
               ('earlier members are kept', FA([h], Implies(H0[h], H[h]), patterns=[H0[h]]))]
        return out

    def loops(L):
        c = L.c
        e = onedge(c)
        out = it_loop(AsL(L, e))
        g = Gv(L.old, e.this)
        l, t = lt(e)
        s = srcv(g, l, t)
        cid = c.args[2].id
        H, H0 = L.cur.has(cid), L.old.has(cid)
        P_ = g.ptr('pin_list', t)
        A = g.v.arr('int', P_.b)
        k, h = Ints('k!r h!r')
        out.append(('kept', FA([h], Implies(H0[h], H[h]), patterns=[H[h], H0[h]])))
        for nm, ty, p in L.ptrs():
            if ty.a.k != 'rec' or not ty.a.a.endswith('PinIterator'):
                continue
            loc, end = L.cur.f(p.b, PI + 'loc'), L.cur.f(p.b, PI + 'end')
            sh, dh = s + 1, g.el(t, l) + 1
            started, over = Or(loc.o != sh, sh == dh), loc.o == 0
            out.append(('collected %s' % nm, FA([k], Implies(And(g.hyper, P_.o + g.pdl(t, l) <= k, k < loc.o, keep(ownv(g, A[k] + 1))), H[A[k] + 1]), patterns=[A[k]])))
            out.append(('members are pins %s' % nm, FA([h], Implies(And(g.hyper, H[h]), Or(H0[h], pinset(c, e, L.old, h, loc.o - P_.o - g.pdl(t, l)))), patterns=[H[h]])))
            st0, st1, st2 = And(loc.o == sh, end.o == dh), And(loc.o == dh, end.o == dh), And(loc.o == 0, end.o == 0)
            ks, kd = keep(ownv(g, sh)), keep(ownv(g, dh))
            hs = FA([h], Implies(H[h], Or(H0[h], And(h == sh, ks))), patterns=[H[h]])
            hd = FA([h], Implies(H[h], Or(H0[h], And(h == sh, ks), And(h == dh, kd))), patterns=[H[h]])
            h0 = FA([h], H[h] == H0[h], patterns=[H[h]])
            out.append(('trad members %s' % nm, Implies(Not(g.hyper), Or(And(st0, h0), And(st1, sh != dh, hs, Implies(ks, H[sh])), And(st2, hd, Implies(ks, H[sh]), Implies(kd, H[dh]))))))
            if not mine:
                for hn, hty, x in L.handles():
                    if hty.a.k == 'rec' and hty.a.a.endswith('GraphVertex'):
                        ins = And(g.hyper, Exists([k], And(P_.o + g.pdl(t, l) <= k, k < loc.o, A[k] + 1 == x, ownv(g, x) == Int('G_self')), patterns=[A[k]]))
                        out.append(('own pin %s %s' % (hn, nm), Or(x == 0, ins, And(Not(g.hyper), ownv(g, x) == Int('G_self'), Or(x == sh, x == dh)))))
                        none = FA([k], Implies(And(g.hyper, P_.o + g.pdl(t, l) <= k, k < loc.o), ownv(g, A[k] + 1) != Int('G_self')), patterns=[A[k]])
                        out.append(('own pin found %s %s' % (hn, nm), Implies(x == 0, And(none, Implies(Not(g.hyper), Or(st0, And(st1, sh != dh, kS(g, sh)), And(st2, kS(g, sh), kS(g, dh))))))))
        return out
    return req, post, loops, pinset, keep


def specs():
    out = []
    A = out.append
    S = Spec
    req, post, loops, pinset, keep = cav_spec(True, 2)

    A(S('getCavity', SE, 'engpar::getCavity', requires=req, decomp=decomp, loops=[loops], ensures=post, rawptr=True,
        modifies=lambda c: [('alloc',), ('has', '', c.args[2].id), ('size', '', c.args[2].id)]))
    req, post, loops, pinset, keep = cav_spec(False, 2)

    def gwc_post(c, post=post):
        e = onedge(c)
        g = Gv(c.old, e.this)
        l, t = lt(e)
        s = srcv(g, l, t, e)
        P_ = g.ptr('pin_list', t)
        A_ = g.v.arr('int', P_.b)
        k = Int('k!p')
        x = c.ret.o
        me = Int('G_self')
        return post(c) + [
            ('a pin owned here or nothing', Or(x == 0, And(x >= 1, x <= g.nlv, ownv(g, x) == me))),
            ('nothing only if no pin is owned here', Implies(x == 0, And(FA([k], Implies(And(g.hyper, P_.o + g.pdl(t, l) <= k, k < P_.o + g.pdl(t, l + 1)), ownv(g, A_[k] + 1) != me), patterns=[A_[k]]),
                                                                        Implies(Not(g.hyper), And(kS(g, s + 1), kS(g, g.el(t, l) + 1))))))]
    A(S('getWeightCavity', WS, 'engpar::getWeightCavity', requires=lambda c: req(c) + ghosts_elsewhere(Gv(c.old, c.args[0].b)), decomp=decomp, loops=[loops], ensures=gwc_post, rawptr=True,
        modifies=lambda c: [('alloc',), ('has', '', c.args[2].id), ('size', '', c.args[2].id)]))
    A(S('WeightSelector::select', WS, 'engpar::WeightSelector::select', **wselect()))
    A(S('addCavity', SE, 'engpar::addCavity', **add_cavity()))
    A(S('edgeCutGrowth', SE, 'engpar::edgeCutGrowth', requires=lambda c: [('graph', fine(c.args[0]))] + graph_ok(c, Gv(c.old, c.args[0].b), IntVal(0)) + cav_ok(c, 1, Gv(c.old, c.args[0].b)),
        modifies=lambda c: [('alloc',)], loops=[cav_loops(0, lambda L: (L.c.args[1].id, L.c.args[0].b))], rawptr=True))
    return out


def is_edge(g, h):
    """h is the handle of an edge of type 0"""
    q, r = Function('quot', I_, I_, I_)(h - 1, g.nt), Function('rmnd', I_, I_, I_)(h - 1, g.nt)
    return And(q >= 0, q < g.nle(IntVal(0)), r == 0, h == handle(g, q, r)), q


class Ws:
    def __init__(self, c, v):
        f = lambda n: v.f(c.this, 'WeightSelector.' + n)
        self.inp, self.q = f('in'), f('q')
        self.gp = v.f(self.inp.b, 'Input.g')
        self.g = Gv(v, self.gp.b)
        self.Q = Qv(v, self.q.b)
        self.T = Cn(v, c.args[0].b, 'real')
        self.snd, self.vs = v.sub(c.this, 'WeightSelector.sending'), v.sub(c.this, 'WeightSelector.vSending')
        self.SH, self.SV = v.has(self.snd), v.val(self.snd, 'real')
        self.tot = v.f(c.args[1].b, 'WeightMigration.s')

    def sent(self, p):
        return If(self.SH[p], self.SV[p], RealVal(0))


def wselect():
    def req(c):
        w = Ws(c, c.old)
        g, Q = w.g, w.Q
        i, k = Ints('i!r k!r')
        h = Q.N[i]
        ok, l = is_edge(g, h)
        for n in ('WeightSelector.sending', 'WeightSelector.vSending', 'Container<double>.d', 'WeightMigration.sending'):
            subax(c.ex, n)
        from types import SimpleNamespace
        c.ex.mapobj(SimpleNamespace(mapid=c.old.sub(c.args[1].b, 'WeightMigration.sending'), key=IntVal(0)))
        P_ = g.ptr('pin_list', IntVal(0))
        A_ = g.v.arr('int', P_.b)
        me = Int('G_self')
        t = IntVal(0)
        own = Or(And(g.hyper, Exists([k], And(P_.o + g.pdl(t, l) <= k, k < P_.o + g.pdl(t, l + 1), ownv(g, A_[k] + 1) == me), patterns=[A_[k]])),
                 And(Not(g.hyper), Or(ownv(g, srcv_(g, l) + 1) == me, ownv(g, g.el(t, l) + 1) == me)))
        return [('objects', And(*[fine(x) for x in (w.inp, w.q, w.gp, c.args[0], c.args[1])])), ('queue', Q.ok())] + sizes(g) + wf_type(g, t) + own_req(g) + src_ok(g, t) + ghosts_elsewhere(g) + [
            ('weights', owned(g, g.ptr('local_weights'), g.nlv)),
            ('queued edges', FA([i], Implies(And(0 <= i, i < Q.n), ok), patterns=[h])),
            ('queued edges touch this part', FA([i], Implies(And(0 <= i, i < Q.n), own), patterns=[h]))]

    def bounds(w0, w):
        p = Int('p!b')
        return [('no target is overrun', FA([p], Implies(w0.T.H[p], Or(w.sent(p) <= w0.sent(p), w.sent(p) <= w0.T.V[p])), patterns=[w.SH[p], w0.SH[p]])),
                ('nothing is sent to parts without a target', FA([p], Implies(Not(w0.T.H[p]), w.sent(p) == w0.sent(p)), patterns=[w.SH[p], w0.SH[p]]))]

    def post(c):
        w0, w = Ws(c, c.old), Ws(c, c.new)
        p = Int('p!p')
        return bounds(w0, w) + [('the planned weight is reported', c.ret - c.args[2] == w.tot - w0.tot),
                                ('targets are kept', And(FA([p], w.T.H[p] == w0.T.H[p]), FA([p], Implies(w0.T.H[p], w.T.V[p] == w0.T.V[p]))))]

    def ins(cs, c):
        w = Ws(c, cs.old)
        u, x, amount = cs.args[0].o, cs.args[1].o, cs.args[2]
        o = ownv(w.g, x)
        return [('weight leaves an own vertex', And(u >= 1, u <= w.g.nlv)), ('for a ghost', And(x > w.g.nlv, x <= w.g.nlv + w.g.ngv)),
                ('whose part has a target', w.T.H[o]), ('that is not met', w.sent(o) < w.T.V[o]), ('and not beyond it', w.sent(o) + amount <= w.T.V[o])]

    def loops(L):
        c = L.c
        w0, w, wi = Ws(c, L.old), Ws(c, L.cur), Ws(c, L.init)
        v, vi, v0 = L.cur, L.init, L.old
        i, x, p = Ints('i!l x!l p!l')
        Q, Q0 = w.Q, w0.Q
        out = bounds(w0, w)
        out.append(('local sets kept', FA([x], Implies(x > 0, v.has(x) == vi.has(x)), patterns=[v.has(x)])))
        outer = v0.sub(c.args[1].b, 'WeightMigration.sending')
        other = And(x < v0.ghost('alloc'), x != w.snd, x != w.vs, x != w.T.d, x != outer, Not(is_inner(outer, x)))
        out.append(('other tables kept', And(FA([x], Implies(other, v.has(x) == v0.has(x)), patterns=[v.has(x)]), FA([x], Implies(Or(other, x == outer), v.val(x, 'real') == v0.val(x, 'real')), patterns=[v.val(x, 'real')]))))
        out.append(('targets kept', And(w.T.H == w0.T.H, w.T.V == w0.T.V)))
        out.append(('queue', And(Q.ok(), Q.cur.b == Q0.nxt.b, Q.nxt.b == Q0.cur.b, Q.s == Q0.n)))
        out.append(('queue elements', v.arr('h', Q0.nxt.b) == v0.arr('h', Q0.nxt.b)))
        for nm, a in L.locals():
            out.append(('queued so far %s' % nm, And(Q.n == a, a >= 0, a <= Q.s)))
            out.append(('inside %s' % nm, And(Q.n == a, a >= 0, a < Q.s)))
        for nm, r in L.reals():
            out.append(('planned so far %s' % nm, r - c.args[2] == w.tot - w0.tot))
        for nm, it in L.its():
            out.append(('position %s' % nm, And(it.pos >= 0, it.pos <= Function('card', ArraySort(I_, B_), I_)(it.A), it.A == vi.has(it.cid))))
        return out

    def mod(c):
        w = Ws(c, c.old)
        g = w.g
        outer = c.old.sub(c.args[1].b, 'WeightMigration.sending')
        inner = lambda x: And(x < 0, Function('mapobj_parent', I_, I_)(x) == outer)
        Z = [('alloc',), ('field', 'WeightMigration.s', c.args[1].b)]
        for f in ('s', 'n', 'current', 'next', 'next_size'):
            if f != 'n':
                Z.append(('field', 'ShrinkingArray.' + f, w.q.b))
        Z += [('mem', 'h', w.Q.cur.b), ('has', '', w.snd), ('val', 'real', w.snd), ('has', '', w.vs), ('val', 'real', w.vs), ('has', '', w.T.d), ('val', 'real', w.T.d)]
        Z += [('has', '', outer), ('has', '', lambda x: is_inner(outer, x)), ('val', 'real', lambda x: is_inner(outer, x))]
        return Z
    return dict(requires=req, ensures=post, loops=[loops], modifies=mod, at_call={'WeightMigration::insert': ins}, rawptr=True)


def is_inner(outer, x):
    """x is the inner map of some vertex of the plan"""
    return And(x < 0, Function('sub_parent', I_, I_)(x) == outer)


def srcv_(g, l):
    return srcf(g, l, IntVal(0))


def graph_ok(c, g, t):
    return sizes(g) + wf_type(g, t) + own_req(g) + src_ok(g, t)


def cav_ok(c, i, g):
    """a cavity holds local vertices"""
    H = c.old.has(c.args[i].id)
    h = Int('h!c')
    return [('cavity of own vertices', FA([h], Implies(H[h], And(h >= 1, h <= g.nlv)), patterns=[H[h]]))]


def is_edge_t(g, h, t):
    q, r = Function('quot', I_, I_, I_)(h - 1, g.nt), Function('rmnd', I_, I_, I_)(h - 1, g.nt)
    return And(q >= 0, q < g.nle(t), r == t, h == handle(g, q, r))


def div_facts(ex, g, h, l, t):
    """quotient and remainder of the handle of edge (l, t): an instance of lemma DIV-UNIQUE"""
    a, b = h - 1, g.nt
    q, r = Function('quot', I_, I_, I_)(a, b), Function('rmnd', I_, I_, I_)(a, b)
    ex.gfact(Implies(And(b > 0, a == b * l + t, t >= 0, t < b, l >= 0), And(q == l, r == t)))


def card(A):
    return Function('card', ArraySort(I_, B_), I_)(A)


def edge_walk(L, g, t, out):
    """an edge iterator stays inside the edges of a local vertex"""
    for nm, ty, p in L.ptrs():
        if ty.a.k != 'rec' or not ty.a.a.endswith('EdgeIterator'):
            continue
        o = p.b
        et, k, n = eghost(L.cur, o)
        out.append(('edge iterator %s' % nm, And(p.o == 0, o >= 1, o >= L.old.ghost('alloc'), et == t, 0 <= k, k <= n, n <= g.dl(t, g.nlv), ei_is(L.c, L.cur, o, t, k, n, g.nt), Not(is_heit(L.c, L.cur, o)))))
        yield nm, o, k, n


def cav_loops(t, f):
    def loops(L):
        cid, go = f(L)
        g = Gv(L.old, go)
        out = []
        tt = IntVal(t) if isinstance(t, int) else t(L)
        for nm, o, k, n in edge_walk(L, g, tt, out):
            pass
        H = L.init.has(cid)
        for nm, it in L.its():
            out.append(('position %s' % nm, And(it.pos >= 0, it.pos <= card(it.A), it.A == H)))
        return out
    return loops


def add_cavity():
    def P(c):
        return Gv(c.old, c.args[0].b), c.args[1].id, c.args[2], c.args[3].b, c.args[4]

    def req(c):
        g, cav, peer, plan, dim = P(c)
        m = Mv(c.old, plan)
        subax(c.ex, 'Migration.sending')
        return [('graph', fine(c.args[0])), ('plan', And(fine(c.args[3]), m.gp.b == c.args[0].b))] + m.ok() + [('room', m.n + card(c.old.has(cav)) < LIM)] + sizes(g) + cav_ok(c, 1, g) + \
            [('part', And(peer >= 0, peer < 2 ** 31)), ('vertex weights', owned(g, g.ptr('local_weights'), g.nlv)), ('cavity is no part of the plan', cav != m.snd)] + \
            [('type', dim >= -1)] + [(n, Implies(dim != -1, f)) for n, f in wf_type(g, dim) + own_req(g) + src_ok(g, dim) + [('edge weights', owned(g, g.ptr('edge_weights', dim), g.nle(dim)))]]

    def post(c):
        g, cav, peer, plan, dim = P(c)
        a, b = Mv(c.old, plan), Mv(c.new, plan)
        H = c.old.has(cav)
        h = Int('h!p')
        return b.ok() + [('same graph and tag', And(a.gp.b == b.gp.b, a.gp.o == b.gp.o, a.dest.b == b.dest.b, a.dest.o == b.dest.o)),
                         ('the cavity goes to the part', FA([h], Implies(H[h], b.D[h - 1] == peer), patterns=[H[h]])),
                         ('other vertices keep theirs', FA([h], Implies(And(0 <= h, h < g.nlv, Not(H[h + 1])), b.D[h] == a.D[h]), patterns=[b.D[h]])),
                         ('size', And(b.n >= a.n, b.n <= a.n + card(H))),
                         ('weight of the newly planned vertices', Implies(dim == -1, c.ret == neww(c, card(H))))]

    def neww(c, n, ex=None):
        g, cav, peer, plan, dim = P(c)
        H = c.old.has(cav)
        D = Mv(c.old, plan).D
        W = c.old.arr('real', g.ptr('local_weights').b)
        f = Function('new_weight', H.sort(), D.sort(), W.sort(), I_, R_)
        en = lambda i: Function('enum', I_, ArraySort(I_, B_), I_, I_)(IntVal(1), H, i)
        if ex is not None:
            for i in (simplify(n - 1), n):
                e = en(i)
                ex.gfact(Implies(i >= 0, f(H, D, W, simplify(i + 1)) == f(H, D, W, i) + If(D[e - 1] == -1, W[e - 1], RealVal(0))))
            ex.gfact(f(H, D, W, IntVal(0)) == 0)
        return f(H, D, W, n)

    def loops(L):
        c = L.c
        g, cav, peer, plan, dim = P(c)
        a, b = Mv(L.old, plan), Mv(L.cur, plan)
        H = L.old.has(cav)
        h = Int('h!l')
        out = list(b.ok())
        out.append(('plan', And(a.gp.b == b.gp.b, a.gp.o == b.gp.o, a.dest.b == b.dest.b, a.dest.o == b.dest.o)))
        for nm, o, k, n in edge_walk(L, g, dim, out):
            e = If(g.hyper, g.el(dim, simplify(k - 1)), simplify(k - 1))
            for hn, hty, x in L.handles():
                if hty.a.k == 'rec' and hty.a.a.endswith('GraphEdge'):
                    out.append(('edge %s' % hn, And(k >= 1, x == handle(g, e, dim))))
                    div_facts(L.ex, g, x, g.el(dim, simplify(k - 1)), dim)
                    div_facts(L.ex, g, x, simplify(k - 1), dim)
        for nm, ty, oid in L.objs():
            if ty.k == 'rec' and 'set' in str(ty.a):
                X = L.cur.has(oid)
                out.append(('collected edges %s' % nm, FA([h], Implies(X[h], is_edge_t(g, h, dim)), patterns=[X[h]])))
                out.append(('no edges for vertex weights %s' % nm, Implies(dim == -1, X == K(I_, BoolVal(False)))))
        ix = lambda x: Function('enumidx', I_, ArraySort(I_, B_), I_, I_)(IntVal(1), H, x)
        for nm, it in L.its():
            out.append(('position %s' % nm, And(it.pos >= 0, it.pos <= card(it.A), it.A == L.init.has(it.cid))))
            for tag, n in (('', it.pos), (' and this', it.pos + 1)):
                dn = lambda x: And(H[x], ix(x) < n)
                out.append(('planned so far%s %s' % (tag, nm), And(FA([h], Implies(dn(h), b.D[h - 1] == peer), patterns=[ix(h)]), FA([h], Implies(And(0 <= h, h < g.nlv, Not(dn(h + 1))), b.D[h] == a.D[h]), patterns=[b.D[h]]))))
                out.append(('size%s %s' % (tag, nm), And(b.n >= a.n, b.n <= a.n + n)))
            for nr, r in L.reals():
                out.append(('weight so far %s %s' % (nr, nm), Implies(dim == -1, r == neww(c, it.pos, L.ex))))
        out.append(('cavity kept', L.cur.has(cav) == H))
        return out
    return dict(requires=req, ensures=post, loops=[loops], rawptr=True,
                auto=r'^(old-entry-and-sub-objects-unchanged:F:EdgeIterator.(ghk|loc.[bo])$|cond)|(>=init|>=0|\.base|==init)$', modifies=lambda c: [('alloc',), ('mem', 'long', Mv(c.old, P(c)[3]).d.b), ('mem', 'h', Mv(c.old, P(c)[3]).snd), ('size', '', Mv(c.old, P(c)[3]).snd)])
