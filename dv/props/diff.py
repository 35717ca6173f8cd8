"""Contracts of the diffusion tables: containers, sides, weights and targets (partition/Diffusive/src)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.msg import *
from props.access import EI, ei_is, eghost, is_heit
from props.residence import own_req, src_ok, res_set, srcf
from props.metric import total_weight, weights_ok
USES = ['access', 'residence', 'metric', 'tag']
MK = 'partition/Diffusive/src/engpar_make.cpp'
SE = 'partition/Diffusive/src/engpar_selector.cpp'
FILES = [MK, SE, 'partition/Metrics/engpar_metrics.cpp', 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp', 'agi/agiTag.cpp']
I_, B_, R_ = IntSort(), BoolSort(), RealSort()


class Cn:
    """a container: map from part to value, and a total"""

    def __init__(self, v, o, ty):
        e, C = ('int', 'Container<int>.') if ty == 'int' else ('real', 'Container<double>.')
        self.total = v.f(o, C + 'my_total')
        self.d = v.sub(o, C + 'd')
        self.H, self.V = v.has(self.d), v.val(self.d, e)

    def get(self, k):
        return If(self.H[k], self.V[k], 0)


def cont(ty):
    out = []
    q = 'engpar::Container<%s>::' % ty
    C = 'Container<%s>.' % ty
    e = 'int' if ty == 'int' else 'real'
    k = Int('k!c')
    cn = lambda c: Cn(c.old, c.this, ty)
    cnn = lambda c: Cn(c.new, c.this, ty)
    mod = lambda c, tot=True: [('has', '', cn(c).d), ('val', e, cn(c).d)] + ([('field', C + 'my_total', c.this)] if tot else [])
    others = lambda c: [('other keys', FA([k], Implies(k != c.args[0], And(cnn(c).H[k] == cn(c).H[k], Implies(cn(c).H[k], cnn(c).V[k] == cn(c).V[k])))))]
    N = 'Container<%s>::' % ty
    A = out.append
    if ty != 'int':
        A(Spec(N + 'set', MK, q + 'set', modifies=mod, ensures=lambda c: others(c) + [('value set', And(cnn(c).H[c.args[0]], cnn(c).V[c.args[0]] == c.args[1])), ('total follows', cnn(c).total == cn(c).total - cn(c).get(c.args[0]) + c.args[1])]))
    A(Spec(N + 'get', MK, q + 'get', modifies=lambda c: mod(c, False), ensures=lambda c: others(c) + [('the value, zero if unset', c.ret == cn(c).get(c.args[0])), ('key present', And(cnn(c).H[c.args[0]], cnn(c).V[c.args[0]] == c.ret)),
        ('nothing changes when the key is present', Implies(cn(c).H[c.args[0]], And(cnn(c).H == cn(c).H, cnn(c).V == cn(c).V)))]))
    if ty != 'int':
        A(Spec(N + 'has', SE, q + 'has', ensures=lambda c: [('key present or not', c.ret == cn(c).H[c.args[0]])]))
    A(Spec(N + 'total', MK if ty == 'int' else SE, q + 'total', ensures=lambda c: [('the total', c.ret == cn(c).total)]))
    return out


def card(A):
    return Function('card', ArraySort(I_, B_), I_)(A)


def idx_of(A, tag=1):
    """position of a key in the enumeration of an unordered map (tag 1) or of a set (tag 2)"""
    return lambda x: Function('enumidx', I_, ArraySort(I_, B_), I_, I_)(IntVal(tag), A, x)


def subax(ex, name):
    """members of different objects are different"""
    ex.subobj(name, IntVal(0))
    f = Function('sub:' + name, I_, I_)
    o = Int('o!sx')
    ex.gfact(FA([o], And(f(o) < 0, Function('sub_parent', I_, I_)(f(o)) == o), patterns=[f(o)]))


def fine(o):
    return And(o.b >= 1, o.o == 0)


def targets_spec(ov=None):
    def P(c):
        hyper, step, s, tw, tol, cw, ct = c.args
        v = c.old
        side, T_ = Cn(v, s.b, 'int'), Cn(v, tw.b, 'real')
        n = v.size(ct.id)
        return hyper, step, side, T_, tol, cw, ct, n

    def allowed(c, p, view=None):
        hyper, step, side, T_, tol, cw, ct, n = P(c)
        i = Int('i!a')
        tols = c.old.arr('real', ct.id)
        W = lambda i: Cn(c.old, c.old.arr('p.b', cw.b)[i], 'real')
        return And(Or(Not(hyper), side.get(p) <= tol, Int('G_peers') == 2), FA([i], Implies(And(0 <= i, i < n), W(i).get(p) < tols[i]), patterns=[tols[i]]))

    def planned(c, p):
        hyper, step, side, T_, tol, cw, ct, n = P(c)
        myw = c.old.f(c.args[3].b, 'Weights.my_weight')
        return And(side.H[p], allowed(c, p), myw > T_.get(p)), (myw - T_.get(p)) * (ToReal(side.V[p]) / ToReal(side.total)) * step

    def req(c):
        hyper, step, side, T_, tol, cw, ct, n = P(c)
        i, j, p = Ints('i!r j!r p!r')
        cb = c.old.arr('p.b', cw.b)
        co = c.old.arr('p.o', cw.b)
        subax(c.ex, 'Container<double>.d')
        return [('objects', And(c.this >= 1, c.this != c.args[3].b, FA([i], Implies(And(0 <= i, i < n), c.this != cb[i]), patterns=[cb[i]]))),
                ('arguments', And(fine(c.args[2]), fine(c.args[3]))), ('criteria', And(n >= 0, n < 100)),
                ('tables of completed criteria', Implies(n > 0, And(cw.b >= 1, cw.o == 0, c.old.len(cw.b) >= n))),
                ('each a table', FA([i], Implies(And(0 <= i, i < n), And(cb[i] >= 1, co[i] == 0)), patterns=[cb[i]])),
                ('boundary', FA([p], Implies(side.H[p], side.total > 0), patterns=[side.H[p]])),
                ('weights of all neighbours known', FA([p], Implies(side.H[p], T_.H[p]), patterns=[side.H[p]])),
                ('completed weights of all neighbours known', FA([p, i], Implies(And(side.H[p], 0 <= i, i < n), Cn(c.old, cb[i], 'real').H[p]), patterns=[MultiPattern(side.H[p], cb[i])]))]

    def post(c):
        p = Int('p!p')
        n = Cn(c.new, c.this, 'real')
        pl, val = planned(c, p)
        return [('a target exactly for the lighter neighbours that may receive', FA([p], n.H[p] == pl)),
                ('of the documented size', FA([p], Implies(pl, n.V[p] == val)))]
    def loops(L):
        c = L.c
        hyper, step, side, T_, tol, cw, ct, n = P(c)
        v, v0 = L.cur, L.old
        me = Cn(v, c.this, 'real')
        p, x, i, j = Ints('p!l x!l i!l j!l')
        tols = c.old.arr('real', ct.id)
        cb = c.old.arr('p.b', cw.b)
        W = lambda i: Cn(c.old, cb[i], 'real')
        out = [('tables kept', FA([x], Implies(x != me.d, v.has(x) == v0.has(x)), patterns=[v.has(x)])),
               ('counts kept', FA([x], v.val(x, 'int') == v0.val(x, 'int'), patterns=[v.val(x, 'int')])),
               ('values kept', FA([x], Implies(x != me.d, v.val(x, 'real') == v0.val(x, 'real')), patterns=[v.val(x, 'real')]))]
        ix = idx_of(side.H)
        for nm, it in L.its():
            out.append(('position %s' % nm, And(it.pos >= 0, it.pos <= card(side.H), it.A == side.H)))
            pl, val = planned(c, p)
            out.append(('targets so far %s' % nm, FA([p], me.H[p] == And(pl, ix(p) < it.pos), patterns=[me.H[p], ix(p)])))
            out.append(('values so far %s' % nm, FA([p], Implies(me.H[p], me.V[p] == val), patterns=[me.V[p]])))
        for nb, b in L.bools():
            for n1, q in L.locals():
                base = Or(Not(hyper), side.get(q) <= tol, Int('G_peers') == 2)
                for n2, k in L.locals():
                    if n1 != n2:
                        rest = FA([j], Implies(And(0 <= j, j < k), W(j).get(q) < tols[j]), patterns=[tols[j]])
                        out.append(('may send %s %s %s' % (nb, n1, n2), And(0 <= k, k <= n, b == And(base, rest))))
        return out
    return dict(requires=req, ensures=post, loops=[loops],
                modifies=lambda c: [('field', 'Container<double>.my_total', c.this), ('has', '', Cn(c.old, c.this, 'real').d), ('val', 'real', Cn(c.old, c.this, 'real').d)])


# ---- sides: per neighbour the weights of the shared edges, by recursion over the edges of the type
AI, AR = ArraySort(I_, I_), ArraySort(I_, R_)
ST = [B_, AI, AI, AI, AI, AI, I_, AR]
SIDE = Function('side_weight', *(ST + [I_, I_, I_]))
SHARED = Function('shares_edge', *(ST + [I_, I_, B_]))
CUTW = Function('cut_weight', *(ST + [I_, I_]))


class Sd:
    def __init__(self, ex, v, o, t):
        g = self.g = Gv(v, o)
        A = lambda n, *t: v.arr('int', g.ptr(n, *t).b)
        self.t, self.ex = t, ex
        self.W = v.arr('real', g.ptr('edge_weights', t).b)
        self.key = [g.hyper, A('owners'), A('pin_list', t), A('pin_degree_list', t), A('edge_list', t), A('degree_list', t), g.nlv, self.W]

    def side(self, p, n):
        return SIDE(*(self.key + [p, n]))

    def shared(self, p, n):
        return SHARED(*(self.key + [p, n]))

    def cut(self, n):
        return CUTW(*(self.key + [n]))

    def res(self, l):
        return res_set(self.g, l, self.t)

    def counted(self, p, l):
        r = self.res(l)
        return And(card(r) > 1, r[p], p != Int('G_self'))

    def defs(self, l):
        """the defining equations at edge l"""
        p = Int('p!sd')
        n = simplify(l + 1)
        add = lambda a: ToInt(ToReal(a) + self.W[l])
        ok = And(0 <= l, l < self.g.nle(self.t))
        self.ex.gfact(And(self.cut(IntVal(0)) == 0, FA([p], And(self.side(p, IntVal(0)) == 0, Not(self.shared(p, IntVal(0)))), patterns=[self.side(p, IntVal(0)), self.shared(p, IntVal(0))])))
        self.ex.gfact(Implies(ok, self.cut(n) == If(card(self.res(l)) > 1, add(self.cut(l)), self.cut(l))))
        self.ex.gfact(FA([p], Implies(ok, And(self.side(p, n) == If(self.counted(p, l), add(self.side(p, l)), self.side(p, l)),
                                              self.shared(p, n) == Or(self.shared(p, l), self.counted(p, l)))), patterns=[self.side(p, n), self.shared(p, n), self.side(p, l), self.shared(p, l)]))


def sides_spec(garg=0, targ=1, obj=lambda c: c.this):
    def S_(c, v=None):
        return Sd(c.ex, v or c.old, c.args[garg].b, c.args[targ])

    def req(c):
        s = S_(c)
        g, t = s.g, s.t
        p, n = Ints('p!r n!r')
        nle = g.nle(t)
        return sizes(g) + [('graph', fine(c.args[garg]))] + wf_rest(g, t) + own_req(g) + src_ok(g, t) + [
            ('weights', And(owned(g, g.ptr('edge_weights', t), nle), FA([n], Implies(And(0 <= n, n < nle), s.W[n] >= 0), patterns=[s.W[n]]))),
            ('sums fit', And(FA([n], Implies(And(0 <= n, n <= nle), And(s.cut(n) >= 0, s.cut(n) < LIM)), patterns=[s.cut(n)]),
                             FA([p, n], Implies(And(0 <= n, n <= nle), And(s.side(p, n) >= 0, s.side(p, n) < LIM)), patterns=[s.side(p, n)])))]

    def post(c):
        s = S_(c)
        p = Int('p!p')
        n = Cn(c.new, obj(c), 'int')
        nle = s.g.nle(s.t)
        return [('exactly the parts sharing an edge have a side', FA([p], n.H[p] == s.shared(p, nle))),
                ('a side is the weight of the shared edges', FA([p], Implies(n.H[p], n.V[p] == s.side(p, nle)))),
                ('the total counts every cut edge once', n.total == s.cut(nle))]

    def loops(L):
        c = L.c
        s = S_(c, L.old)
        g, t = s.g, s.t
        me = Cn(L.cur, c.this, 'int')
        p, x = Ints('p!l x!l')
        v, v0 = L.cur, L.old
        out = [('tables kept', FA([x], Implies(And(x != me.d, x < 0), v.has(x) == v0.has(x)), patterns=[v.has(x)]))]
        for nm, ty, q in L.ptrs():
            if ty.a.k != 'rec' or not ty.a.a.endswith('EdgeIterator'):
                continue
            o = q.b
            et, k, n = eghost(L.cur, o)
            its = L.its()
            s.defs(simplify(k - 1)) if its else s.defs(k)
            e = simplify(k - 1)
            out.append(('edge iterator %s' % nm, And(q.o == 0, o >= 1, o >= L.old.ghost('alloc'), et == t, n == g.nle(t), 0 <= k, k <= n, ei_is(c, L.cur, o, t, k, n, g.nt), is_heit(c, L.cur, o) == g.hyper)))
            out.append(('sides so far %s' % nm, And(FA([p], me.H[p] == s.shared(p, k), patterns=[me.H[p]]), FA([p], Implies(me.H[p], me.V[p] == s.side(p, k)), patterns=[me.V[p]]), me.total == s.cut(k))))
            zero = lambda m: FA([p], Implies(Not(s.shared(p, m)), s.side(p, m) == 0), patterns=[s.side(p, m)])
            out.append(('no side without a shared edge %s' % nm, zero(k)))
            for n2, it in its:
                r = s.res(e)
                ix = idx_of(r, 2)
                sm = lambda p: ToReal(s.side(p, e)) + s.W[e]
                out.append(('one addition fits %s' % n2, FA([p], Implies(s.counted(p, e), And(s.side(p, e) >= 0, sm(p) >= 0, ToInt(sm(p)) < LIM, ToInt(sm(p)) == s.side(p, k))), patterns=[s.side(p, e), ix(p)])))
                done = lambda p: And(s.counted(p, e), ix(p) < it.pos)
                out.append(('inside an edge %s' % n2, And(k >= 1, it.A == r, card(r) > 1, it.pos >= 0, it.pos <= card(r), me.total == s.cut(e), zero(e))))
                out.append(('parts so far %s' % n2, FA([p], me.H[p] == Or(s.shared(p, e), done(p)), patterns=[me.H[p]])))
                out.append(('new weights so far %s' % n2, FA([p], Implies(done(p), me.V[p] == s.side(p, k)), patterns=[me.V[p], ix(p)])))
                out.append(('old weights so far %s' % n2, FA([p], Implies(And(s.shared(p, e), Not(done(p))), me.V[p] == s.side(p, e)), patterns=[me.V[p]])))
        return out
    C = 'Container<int>.'
    return dict(requires=req, ensures=post, loops=[loops], decomp=None,
                modifies=lambda c: [('alloc',), ('field', C + 'my_total', c.this), ('has', '', Cn(c.old, c.this, 'int').d), ('val', 'int', Cn(c.old, c.this, 'int').d)])


def wf_rest(g, t):
    return wf_type(g, t)


def weights_spec():
    W = 'Weights.my_weight'

    def P(c):
        g, ghosts, s, dim = c.args
        return Gv(c.old, g.b), g, ghosts, Cn(c.old, s.b, 'int'), dim

    def req(c):
        g, go, ghosts, side, dim = P(c)
        l = Log(c.old)
        k, j, p = Ints('k!r j!r p!r')
        ph = l.ph + 1
        peers = Int('G_peers')
        subax(c.ex, 'Container<double>.d')
        return sizes(g) + [('objects', And(fine(go), fine(c.args[2]), c.this >= 1))] + [(n, Implies(dim != -1, f)) for n, f in wf_type(g, dim)] + weights_ok(g, dim) + [('ghost weights', Implies(And(dim == -1, ghosts), gw_ok(c.old, go.b)))] + pcu_idle(c) + [
            ('neighbours are parts', FA([p], Implies(side.H[p], And(p >= 0, p < peers)), patterns=[side.H[p]])),
            ('senders', senders(ph)),
            ('one weight per message', FA([k], Implies(And(0 <= k, k < RN(ph)), RZ(ph, k) == 8), patterns=[RS(ph, k)])),
            ('one message per sender', FA([k, j], Implies(And(0 <= k, k < j, j < RN(ph)), RS(ph, k) != RS(ph, j)), patterns=[MultiPattern(RS(ph, k), RS(ph, j))]))]

    def post(c):
        g, go, ghosts, side, dim = P(c)
        l, o = Log(c.new), Log(c.old)
        ph = o.ph + 1
        k, p = Ints('k!p p!p')
        n = Cn(c.new, c.this, 'real')
        mine = c.new.f(c.this, W)
        ix = idx_of(side.H)
        return pcu_done(c, 1) + [
            ('own weight', mine == total_weight(c.ex, c.old, go.b, dim, ghosts)),
            ('every neighbour is sent the own weight', FA([p], Implies(side.H[p], And(0 <= ix(p), ix(p) < card(side.H), l.item(o.n + ix(p), p, mine, 8, True))))),
            ('nothing else is sent', l.n == o.n + card(side.H)),
            ('a neighbour has the weight it sent', FA([k], Implies(And(0 <= k, k < RN(ph)), And(n.H[RS(ph, k)], n.V[RS(ph, k)] == RR(ph, k))))),
            ('only senders are recorded', FA([p], Implies(n.H[p], Exists([k], And(0 <= k, k < RN(ph), RS(ph, k) == p)))))]

    def loops(L):
        c = L.c
        g, go, ghosts, side, dim = P(c)
        l, o, i0 = Log(L.cur), Log(L.old), Log(L.init)
        ph = o.ph + 1
        v, v0 = L.cur, L.old
        me = Cn(v, c.this, 'real')
        mine = v.f(c.this, W)
        k, p, x = Ints('k!l p!l x!l')
        out = []
        ix = idx_of(side.H)
        out.append(('items kept', log_kept(l, i0, i0.n)))
        for nm, it in L.its():
            out.append(('sending %s' % nm, And(l.st == 1, l.ph == ph, it.A == side.H, it.pos >= 0, it.pos <= card(side.H), l.n == o.n + it.pos)))
            out.append(('sent so far %s' % nm, FA([p], Implies(And(side.H[p], ix(p) < it.pos), l.item(o.n + ix(p), p, mine, 8, True)), patterns=[ix(p)])))
        out.append(('receiving', And(l.st == 2, l.ph == ph, l.cur >= 0, l.cur <= RN(ph))))
        out.append(('received so far', FA([k], Implies(And(0 <= k, k < l.cur), And(me.H[RS(ph, k)], me.V[RS(ph, k)] == RR(ph, k))), patterns=[RS(ph, k)])))
        out.append(('senders so far', FA([p], Implies(me.H[p], Exists([k], And(0 <= k, k < l.cur, RS(ph, k) == p), patterns=[RS(ph, k)])), patterns=[me.H[p]])))
        return out
    return dict(requires=req, ensures=post, loops=[loops],
                modifies=lambda c: [('alloc',), ('field', W, c.this), ('field', 'Container<double>.my_total', c.this), ('has', '', Cn(c.old, c.this, 'real').d), ('val', 'real', Cn(c.old, c.this, 'real').d)] + pcu_mod())


def specs():
    out = cont('int') + cont('double')
    out.append(Spec('Targets::Targets', MK, 'engpar::Targets::Targets', sig='Weights *, int', **targets_spec()))
    out.append(Spec('Sides::Sides', MK, 'engpar::Sides::Sides', nparams=2, **sides_spec()))
    out.append(Spec('Weights::Weights', MK, 'engpar::Weights::Weights', nparams=4, **weights_spec()))
    return out
