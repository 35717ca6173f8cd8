"""Contract of weight migration (agiWeightMigrate.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.msg import *
from props.plan import Wi, card, enum
USES = ['access', 'tag', 'plan']
WG = 'agi/agiWeightMigrate.cpp'
FILES = [WG, 'agi/agiMigration.cpp', 'agi/agiWeightMigration.cpp', 'agi/agiTag.cpp', 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp']
I, R = IntSort(), RealSort()
# weight vertex l sends with the pairs before (i, j); number of pairs before (i, j); weight received by l with the first k items
OUT, CNT, INC = Function('WM_out', I, I, I, R), Function('WM_cnt', I, I, I), Function('WM_in', I, I, R)


def mapobj(m, k):
    return Function('mapobj', I, I, I)(m, k)


def vmap(v, o):
    return v.sub(o, G + 'vtx_mapping')


class Pl:
    """a weight plan: source vertex i, its j-th target and weight"""

    def __init__(self, v, o):
        self.v = v
        self.cid = v.sub(o, 'WeightMigration.sending')
        self.H = v.has(self.cid)
        self.n = card(self.H)

    def src(self, i):
        return enum(self.H, i)

    def inner(self, i):
        return mapobj(self.cid, self.src(i))

    def IH(self, i):
        return self.v.has(self.inner(i))

    def m(self, i):
        return card(self.IH(i))

    def dst(self, i, j):
        return enum(self.IH(i), j)

    def w(self, i, j):
        return self.v.val(self.inner(i), 'real')[self.dst(i, j)]


def specs():
    g = lambda c: Gv(c.old, c.this)
    pl = lambda c: Pl(c.old, c.args[0].b)
    gid = lambda g_, h: If(h - 1 < g_.nlv, g_.lu(h - 1), g_.gu(h - 1 - g_.nlv))
    own = lambda g_, h: If(h - 1 < g_.nlv, Int('G_self'), g_.ow(h - 1 - g_.nlv))
    part = lambda x, wp: Or(x == wp, And(Function('sub_tag', I, I)(x) == 0, Function('sub_parent', I, I)(x) == wp))

    def base(ex):
        """OUT, CNT and INC start at zero"""
        l = Int('l!d')
        ex.gfact(And(FA([l], And(OUT(l, 0, 0) == 0), patterns=[OUT(l, 0, 0)]), FA([l], INC(l, 0) == 0, patterns=[INC(l, 0)]), CNT(0, 0) == 0))

    def step_out(ex, p, i, j):
        """defining recursion of OUT and CNT at the pair (i, j)"""
        l = Int('l!d')
        ok = And(0 <= i, i < p.n, 0 <= j, j < p.m(i))
        nxt = OUT(l, i, j) + If(p.src(i) - 1 == l, p.w(i, j), RealVal(0))
        ex.gfact(Implies(ok, And(CNT(i, j + 1) == CNT(i, j) + 1, CNT(i + 1, 0) == CNT(i, p.m(i)),
                                 FA([l], And(OUT(l, i, j + 1) == nxt, OUT(l, i + 1, 0) == OUT(l, i, p.m(i))), patterns=[OUT(l, i, j)]))))

    def step_in(ex, ph, W, k):
        l = Int('l!d')
        ex.gfact(FA([l], INC(l, k + 3) == INC(l, k) + If(W[RV(ph, k + 1)] == l, RR(ph, k + 2), RealVal(0)), patterns=[INC(l, k)]))

    def req(c):
        gg, l, p = g(c), Log(c.old), pl(c)
        i, j, k = Ints('i!r j!r k!r')
        H, W = c.old.has(vmap(c.old, c.this)), c.old.val(vmap(c.old, c.this), 'int')
        ph = l.ph + 1
        return sizes(gg) + pcu_idle(c) + [
            ('plan', And(c.args[0].b >= 1, c.args[0].o == 0)),
            ('ids', And(owned(gg, gg.ptr('local_unmap'), gg.nlv), owned(gg, gg.ptr('ghost_unmap'), gg.ngv))),
            ('weights', owned(gg, gg.ptr('local_weights'), gg.nlv)),
            ('size', 8 * gg.nlv < LIM),
            ('owners', And(owned(gg, gg.ptr('owners'), gg.ngv), FA([k], Implies(And(0 <= k, k < gg.ngv), And(gg.ow(k) >= 0, gg.ow(k) < Int('G_peers'))), patterns=[gg.ow(k)]))),
            ('sources are local vertices', FA([i], Implies(And(0 <= i, i < p.n), And(p.src(i) >= 1, p.src(i) <= gg.nlv, p.m(i) >= 1)), patterns=[p.src(i)])),
            ('targets are vertices', FA([i, j], Implies(And(0 <= i, i < p.n, 0 <= j, j < p.m(i)), And(p.dst(i, j) >= 1, p.dst(i, j) <= gg.nlv + gg.ngv)), patterns=[p.dst(i, j)])),
            ('received weight is addressed to local vertices', And(RN(ph) % 3 == 0, FA([k], Implies(And(0 <= k, k < RN(ph), k % 3 == 0),
                 And(RZ(ph, k) == 8, RZ(ph, k + 1) == 8, RZ(ph, k + 2) == 8, RS(ph, k + 1) == RS(ph, k), RS(ph, k + 2) == RS(ph, k), H[RV(ph, k + 1)], W[RV(ph, k + 1)] >= 0, W[RV(ph, k + 1)] < gg.nlv)), patterns=[RV(ph, k), RZ(ph, k), RS(ph, k)]))),
            ('senders', senders(ph))]

    def items(l, n0, gg, p, i, j):
        k = n0 + 3 * CNT(i, j)
        to = own(gg, p.dst(i, j))
        return And(l.item(k, to, gid(gg, p.src(i)), 8), l.item(k + 1, to, gid(gg, p.dst(i, j)), 8), l.item(k + 2, to, p.w(i, j), 8, True))

    def post(c):
        gg, l, o, p = g(c), Log(c.new), Log(c.old), pl(c)
        ph = o.ph + 1
        k, i, j = Ints('k!p i!p j!p')
        lw = c.new.f(c.this, G + 'local_weights')
        n0 = o.n
        N = CNT(p.n, 0)
        return pcu_done(c, 1) + [
            ('a vertex loses what it sends and gains what it is sent', FA([k], Implies(And(0 <= k, k < gg.nlv), c.new.at('real', lw, k) == gg.lw(k) - OUT(k, p.n, 0) + INC(k, RN(ph))))),
            ('nothing else is sent', l.n == n0 + 3 * N),
            ('each pair is sent to the owner of its target', FA([i, j], Implies(And(0 <= i, i < p.n, 0 <= j, j < p.m(i)),
                items(l, n0, gg, p, i, j))))]

    def loops(L):
        c = L.c
        gg, l, o, p = Gv(L.old, c.this), Log(L.cur), Log(L.old), pl(c)
        ph = o.ph + 1
        k, i, j = Ints('k!l i!l j!l')
        out = [('phase', l.ph == o.ph), ('phase one', l.ph == ph), ('idle', l.st == 0), ('packing', l.st == 1), ('receiving', l.st == 2), ('items kept', log_kept(l, Log(L.init), Log(L.init).n)),
               ('nothing sent', l.n == o.n)]
        W = L.old.val(vmap(L.old, c.this), 'int')
        base(L.ex)
        step_in(L.ex, ph, W, l.cur)
        wp = L.cur.sub(c.this, 'Ngraph.wp_map')
        x = Int('x!l')
        H0, H1, V0, V1 = [v.ex.getmem(v.st, nm) for nm in ('H:has', 'H:val:real') for v in (L.old, L.cur)]
        out.append(('only the weight partition changes', And(FA([x], Implies(Not(part(x, wp)), H1[x] == H0[x]), patterns=[H1[x]]), FA([x], Implies(Not(part(x, wp)), V1[x] == V0[x]), patterns=[V1[x]]))))
        weights = [(nm, q) for nm, ty, q in L.ptrs() if ty.a.k == 'real']
        for nm, q in weights:
            out.append(('array %s' % nm, And(q.o == 0, q.b >= L.old.ghost('alloc'), L.cur.len(q.b) == 8 * gg.nlv) if False else And(q.o == 0, q.b >= L.old.ghost('alloc'))))
            V = L.cur.arr('real', q.b)
            for ni, ty, h in L.handles():
                out.append(('weights %s before %s' % (nm, ni), And(h >= 1, h <= gg.nlv + 1, FA([k], Implies(And(0 <= k, k < h - 1), V[k] == gg.lw(k)), patterns=[V[k]]))))
                for nj, a in L.locals():
                    out.append(('%s counts %s' % (nj, ni), a == h - 1))
            for ni, ty, b in L.objs():
                if ty.a.endswith('WMIterator'):
                    it = Wi(L.cur, b)
                    jj = If(it.more(), it.j, 0)
                    step_out(L.ex, p, it.i, jj)
                    before = lambda i, j: And(0 <= i, 0 <= j, Or(i < it.i, And(i == it.i, j < jj)), i < p.n, j < p.m(i))
                    out.append(('pairs before %s' % ni, And(CNT(it.i, jj) >= 0, FA([i, j], Implies(before(i, j), And(CNT(i, j) >= 0, CNT(i, j) < CNT(it.i, jj), items(l, o.n, gg, p, i, j))), patterns=[CNT(i, j)]))))
                    out.append(('iterator %s' % ni, And(it.cid == p.cid, *[f for _, f in it.ok()])))
                    out.append(('%s is at a pair' % ni, Implies(it.i < p.n, And(it.more(), it.j < p.m(it.i), it.IH == p.IH(it.i), it.IA == p.IH(it.i)))))
                    out.append(('sent up to %s' % ni, l.n == o.n + 3 * CNT(it.i, jj)))
                    out.append(('weights %s less sent %s' % (nm, ni), FA([k], Implies(And(0 <= k, k < gg.nlv), V[k] == gg.lw(k) - OUT(k, it.i, jj)), patterns=[V[k]])))
            out.append(('weights %s after sending plus received' % nm, And(l.cur % 3 == 0, l.cur >= 0, l.cur <= RN(ph), FA([k], Implies(And(0 <= k, k < gg.nlv), V[k] == gg.lw(k) - OUT(k, p.n, 0) + INC(k, l.cur)), patterns=[V[k]]))))
        out.append(('all pairs', FA([i, j], Implies(And(0 <= i, 0 <= j, i < p.n, j < p.m(i)), items(l, o.n, gg, p, i, j)), patterns=[CNT(i, j)])))
        out.append(('all sent', l.n == o.n + 3 * CNT(p.n, 0)))
        return out

    def modifies(c):
        wp = c.old.sub(c.this, 'Ngraph.wp_map')
        return [('alloc',), ('has', '', lambda x: part(x, wp)), ('val', 'real', lambda x: part(x, wp)), ('field', G + 'local_weights', c.this), ('mem', 'real', g(c).ptr('local_weights').b)] + pcu_mod()
    return [Spec('Ngraph::migrate(weight)', WG, 'agi::Ngraph::migrate', requires=req, ensures=post, loops=[loops], modifies=modifies, modwrap=True)]
