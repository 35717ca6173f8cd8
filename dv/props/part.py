"""Contracts of the partition map, of ghost owners during a migration and of repartition (agiMigrate.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.msg import *
from props.plan import Mv
from props.diff import subax
USES = ['access', 'plan', 'tag']
MG = 'agi/agiMigrate.cpp'
FILES = [MG, 'agi/agiMigration.cpp', 'agi/agiVertex.cpp', 'agi/agiIterate.cpp', 'agi/agi_typeconvert.cpp', 'agi/agiTag.cpp']
I = IntSort()


def gv(c):
    return Gv(c.old, c.this)


def oo(c, i):
    return c.old.at('int', gv(c).ptr('original_owners'), i)


def distinct_ids(ph):
    k, j = Ints('k!d j!d')
    return FA([k, j], Implies(And(0 <= k, k < j, j < RN(ph)), RV(ph, k) != RV(ph, j)), patterns=[MultiPattern(RV(ph, k), RV(ph, j))])


def get_partition():
    def req(c):
        g, l = gv(c), Log(c.old)
        ph = l.ph + 1
        k = Int('k!r')
        return sizes(g) + pcu_idle(c) + [
            ('ids', And(owned(g, g.ptr('local_unmap'), g.nlv), owned(g, g.ptr('ghost_unmap'), g.ngv))),
            ('original owners', And(owned(g, g.ptr('original_owners'), g.nlv), FA([k], Implies(And(0 <= k, k < g.nlv), And(oo(c, k) >= 0, oo(c, k) < Int('G_peers'))), patterns=[oo(c, k)]))),
            ('senders', senders(ph)),
            ('ids are received', FA([k], Implies(And(0 <= k, k < RN(ph)), RZ(ph, k) == 8), patterns=[RV(ph, k)])),
            ('every vertex is reported once', distinct_ids(ph))]

    def post(c):
        g, l, o = gv(c), Log(c.new), Log(c.old)
        ph = o.ph + 1
        k, x = Ints('k!p x!p')
        H, V = c.new.has(c.ret.b), c.new.val(c.ret.b, 'int')
        return [('every phase is completed', l.st == 0), ('one phase', l.ph == ph),
                ('every vertex is reported to its original owner', FA([k], Implies(And(0 <= k, k < g.nlv), l.item(o.n + k, oo(c, k), g.lu(k), 8)))),
                ('nothing else is sent', l.n == o.n + g.nlv),
                ('a new map', And(c.ret.b >= c.old.ghost('alloc'), c.ret.o == 0)),
                ('every reported vertex is mapped to the part that reports it', FA([k], Implies(And(0 <= k, k < RN(ph)), And(H[RV(ph, k)], V[RV(ph, k)] == RS(ph, k))))),
                ('no other vertex is in the map', FA([x], Implies(H[x], Exists([k], And(0 <= k, k < RN(ph), RV(ph, k) == x), patterns=[RV(ph, k)]))))]

    def loops(L):
        c = L.c
        g, l, o, i0 = gv(c), Log(L.cur), Log(L.old), Log(L.init)
        ph = o.ph + 1
        k, x = Ints('k!l x!l')
        out = [('items kept', log_kept(l, i0, i0.n))]
        for nm, hty, p in L.handles():
            if hty.a.k == 'rec' and hty.a.a.endswith('VertexIterator'):
                n = simplify(p - 1)
                out.append(('sending %s' % nm, And(l.st == 1, l.ph == ph, p >= 1, p <= g.nlv + 1, l.n == o.n + n)))
                out.append(('sent so far %s' % nm, FA([k], Implies(And(0 <= k, k < n), l.item(o.n + k, oo(c, k), g.lu(k), 8)), patterns=[oo(c, k), g.lu(k)])))
        out.append(('receiving', And(l.st == 2, l.ph == ph, l.cur >= 0, l.cur <= RN(ph))))
        for nm, ty, p in L.ptrs():
            if 'map' in str(ty) or 'Map' in str(ty):
                H, V = L.cur.has(p.b), L.cur.val(p.b, 'int')
                out.append(('map %s' % nm, And(p.o == 0, p.b >= L.old.ghost('alloc'))))
                out.append(('received so far %s' % nm, FA([k], Implies(And(0 <= k, k < l.cur), And(H[RV(ph, k)], V[RV(ph, k)] == RS(ph, k))), patterns=[RV(ph, k)])))
                out.append(('nothing else %s' % nm, FA([x], Implies(H[x], Exists([k], And(0 <= k, k < l.cur, RV(ph, k) == x), patterns=[RV(ph, k)])), patterns=[H[x]])))
        return out
    return dict(requires=req, ensures=post, loops=[loops], modifies=lambda c: [('alloc',)] + pcu_mod())


def update_owners():
    plan = lambda c, v=None: Mv(v or c.old, c.args[0].b)

    def vm(c):
        return c.old.sub(c.this, G + 'vtx_mapping')

    def W(c, x):
        return c.old.val(vm(c), 'int')[x]

    def cnt(c, k, ex=None):
        """number of requests among the first k that ask for a vertex of the plan"""
        D, Wm, ph = plan(c).D, c.old.val(vm(c), 'int'), Log(c.old).ph + 1
        f = Function('moving_requests', D.sort(), Wm.sort(), I, I, I)
        if ex is not None:
            ex.gfact(f(D, Wm, ph, IntVal(0)) == 0)
            for j in (simplify(k - 1), k):
                ex.gfact(Implies(j >= 0, f(D, Wm, ph, simplify(j + 1)) == f(D, Wm, ph, j) + If(planned(c, j), 1, 0)))
        return f(D, Wm, ph, k)

    def planned(c, k):
        return plan(c).D[W(c, RV(Log(c.old).ph + 1, k))] != -1

    def req(c):
        g, l, m = gv(c), Log(c.old), plan(c)
        p1, p2 = l.ph + 1, l.ph + 2
        k, j = Ints('k!r j!r')
        H = c.old.has(vm(c))
        peers = Int('G_peers')
        return sizes(g) + pcu_idle(c) + [
            ('plan', And(c.args[0].b >= 1, c.args[0].o == 0, m.gp.b == c.this, m.gp.o == 0))] + m.ok() + [
            ('ids', And(owned(g, g.ptr('local_unmap'), g.nlv), owned(g, g.ptr('ghost_unmap'), g.ngv))),
            ('owners', And(owned(g, g.ptr('owners'), g.ngv), FA([k], Implies(And(0 <= k, k < g.ngv), And(g.ow(k) >= 0, g.ow(k) < peers)), patterns=[g.ow(k)]))),
            ('requests received name local vertices', FA([k], Implies(And(0 <= k, k < RN(p1)), And(RZ(p1, k) == 8, H[RV(p1, k)], W(c, RV(p1, k)) >= 0, W(c, RV(p1, k)) < g.nlv)), patterns=[RV(p1, k)])),
            ('senders', And(senders(p1), senders(p2))),
            ('answers received name vertices', And(Int('gh_answers') >= 0, RN(p2) == 2 * Int('gh_answers'),
                 FA([k], Implies(And(0 <= k, k < RN(p2), k % 2 == 0), And(RZ(p2, k) == 8, RZ(p2, k + 1) == 4, RV(p2, k + 1) >= -2 ** 31, RV(p2, k + 1) < 2 ** 31, H[RV(p2, k)], W(c, RV(p2, k)) >= 0, W(c, RV(p2, k)) < g.nlv + g.ngv)), patterns=[RV(p2, k)]))),
            ('one answer per vertex', FA([k, j], Implies(And(0 <= k, k < j, j < RN(p2), k % 2 == 0, j % 2 == 0), W(c, RV(p2, k)) != W(c, RV(p2, j))), patterns=[MultiPattern(RV(p2, k), RV(p2, j))]))]

    def answers(c, v, n, ph, tp):
        g, g1 = gv(c), Gv(v, c.this)
        k, i = Ints('k!a i!a')
        w = lambda k: W(c, RV(ph, k))
        return [('an answer about a ghost sets its owner', FA([k], Implies(And(0 <= k, k < n, k % 2 == 0, w(k) >= g.nlv), g1.ow(w(k) - g.nlv) == RV(ph, k + 1)), patterns=[RV(ph, k)])),
                ('owners of other ghosts are kept', FA([i], Implies(And(0 <= i, i < g.ngv), Or(g1.ow(i) == g.ow(i), Exists([k], And(0 <= k, k < n, k % 2 == 0, w(k) == i + g.nlv), patterns=[RV(ph, k)]))), patterns=[g1.ow(i)]))]

    def post(c):
        g, l, o, m = gv(c), Log(c.new), Log(c.old), plan(c)
        p1, p2 = o.ph + 1, o.ph + 2
        k = Int('k!p')
        lid = lambda k: W(c, RV(p1, k))
        base = o.n + g.ngv
        return pcu_done(c, 2) + [
            ('one request per ghost, to its owner', FA([k], Implies(And(0 <= k, k < g.ngv), l.item(o.n + k, g.ow(k), g.gu(k), 8)))),
            ('a request for a vertex that moves is answered with its destination', FA([k], Implies(And(0 <= k, k < RN(p1), planned(c, k)),
                And(l.item(base + 2 * cnt(c, k), RS(p1, k), g.lu(lid(k)), 8), l.item(base + 2 * cnt(c, k) + 1, RS(p1, k), m.D[lid(k)], 4))))),
            ('nothing else is sent', l.n == base + 2 * cnt(c, RN(p1)))] + answers(c, c.new, RN(p2), p2, 'p')

    def loops(L):
        c = L.c
        g, l, o, i0, m = gv(c), Log(L.cur), Log(L.old), Log(L.init), plan(c)
        p1, p2 = o.ph + 1, o.ph + 2
        k = Int('k!l')
        lid = lambda k: W(c, RV(p1, k))
        base = o.n + g.ngv
        out = [('items kept', log_kept(l, i0, i0.n))]
        for nm, hty, p in L.handles():
            if not hty.a.a.endswith('Iterator'):
                continue
            n = p - 1 - g.nlv
            out.append(('requests %s' % nm, And(0 <= n, n <= g.ngv, l.n == o.n + n)))
            out.append(('request items %s' % nm, FA([k], Implies(And(o.n <= k, k < o.n + n), l.item(k, g.ow(k - o.n), g.gu(k - o.n), 8)), patterns=[l.to[k], l.val[k], l.sz[k]])))
        for nm, ty, vid in L.objs():
            if ty.a != 'vector':
                continue
            n = L.cur.size(vid)
            a, b = L.cur.arr('int.1', vid), L.cur.arr('h.2', vid)
            e = lambda k: cnt(c, k)
            out.append(('requests read %s' % nm, And(l.cur >= 0, l.cur <= RN(p1), n == cnt(c, l.cur, L.ex), n >= 0)))
            out.append(('list of moving vertices %s' % nm, FA([k], Implies(And(0 <= k, k < l.cur, planned(c, k)), And(e(k) >= 0, e(k) < n, a[e(k)] == RS(p1, k), b[e(k)] == lid(k) + 1)), patterns=[RV(p1, k)])))
            out.append(('they are planned %s' % nm, FA([k], Implies(And(0 <= k, k < n), And(a[k] >= 0, a[k] < Int('G_peers'), b[k] >= 1, b[k] <= g.nlv, m.D[b[k] - 1] != -1)), patterns=[a[k], b[k]])))
            out.append(('vector below', And(vid < L.cur.ghost('alloc'), vid >= 1)))
            for ni, i in L.locals():
                out.append(('answers sent %s' % ni, And(0 <= i, i <= n, l.n == base + 2 * i)))
                out.append(('answer items %s' % ni, FA([k], Implies(And(0 <= k, k < i), And(l.item(base + 2 * k, a[k], g.lu(b[k] - 1), 8), l.item(base + 2 * k + 1, a[k], m.D[b[k] - 1], 4))), patterns=[a[k], b[k]])))
        out.append(('answers read', And(l.cur % 2 == 0, l.cur >= 0, l.cur <= RN(p2))))
        out += answers(c, L.cur, l.cur, p2, 'l')
        H0, H1, W0, W1 = L.old.has(vm(c)), L.cur.has(vm(c)), L.old.val(vm(c), 'int'), L.cur.val(vm(c), 'int')
        out.append(('ids kept', FA([k], And(H1[k] == H0[k], Implies(H0[k], W1[k] == W0[k])), patterns=[H1[k], W1[k]])))
        out.append(('phase one', And(l.ph == p1)))
        out.append(('phase two', And(l.ph == p2)))
        out.append(('packing', l.st == 1))
        out.append(('receiving', l.st == 2))
        return out
    return dict(requires=req, ensures=post, loops=[loops], modwrap=True,
                modifies=lambda c: [('alloc',), ('has', '', vm(c)), ('val', 'int', vm(c)), ('mem', 'int', gv(c).ptr('owners').b)] + pcu_mod())


def repart():
    def req(c):
        g = gv(c)
        j = Int('j!r')
        p = c.args[0]
        return sizes(g) + [('graph', c.this >= 1), ('room', 8 * g.nlv < LIM), ('a part for every vertex', And(p.b >= 1, p.o >= 0, p.o + g.nlv <= c.old.len(p.b))),
                           ('parts', FA([j], Implies(And(p.o <= j, j < p.o + g.nlv), c.old.arr('int', p.b)[j] >= 0), patterns=[c.old.arr('int', p.b)[j]]))]

    def at_migrate(cs, c):
        g, m, p = gv(c), Mv(cs.old, cs.args[0].b), c.args[0]
        A_ = c.old.arr('int', p.b)
        j = Int('j!m')
        oo_ = cs.old.f(c.this, G + 'original_owners')
        return m.ok() + [('the plan is for this graph', And(m.gp.b == c.this, m.gp.o == 0, cs.this == c.this)),
                         ('every vertex is sent to the part given for it', FA([j], Implies(And(p.o <= j, j < p.o + g.nlv), m.D[j - p.o] == A_[j]), patterns=[A_[j]])),
                         ('original owners are recorded before', Or(oo_.b != 0, oo_.o != 0))]

    def loops(L):
        c = L.c
        g, p = gv(c), c.args[0]
        A_ = L.old.arr('int', p.b)
        j = Int('j!l')
        out = []
        for nm, ty, q in L.ptrs():
            if ty.a.k != 'rec' or not ty.a.a.endswith('Migration'):
                continue
            m = Mv(L.cur, q.b)
            m0 = Mv(L.init, q.b)
            subax(L.ex, 'Migration.sending')
            out += m.ok()
            out.append(('plan %s' % nm, And(q.o == 0, q.b >= L.old.ghost('alloc'), m.gp.b == c.this, m.gp.o == 0, m.dest.b == m0.dest.b, m.dest.o == m0.dest.o, m.d.b == m0.d.b, m.d.o == m0.d.o)))
            if 'M:long' in L.extra['memmod']:
                x = Int('x!l')
                m1, m2 = L.ex.getmem(L.cur.st, 'M:long'), L.ex.getmem(L.old.st, 'M:long')
                a0 = L.old.ghost('alloc')
                out.append(('the tag is new %s' % nm, Implies(g.nlv > 0, And(m.dest.b >= a0, m.d.b >= a0))))
                out.append(('other tags kept', FA([x], Implies(x < a0, m1[x] == m2[x]), patterns=[m1[x]])))
            for ni, i in L.locals():
                for hn, hty, h in L.handles():
                    if hty.a.k == 'rec' and hty.a.a.endswith('VertexIterator'):
                        out.append(('position %s %s' % (ni, hn), And(h == i + 1, i >= 0, i <= g.nlv, m.n <= i)))
                out.append(('planned so far %s' % ni, And(FA([j], Implies(And(p.o <= j, j < p.o + i), m.D[j - p.o] == A_[j]), patterns=[A_[j]]), FA([j], Implies(And(i <= j, j < g.nlv), m.D[j] == -1), patterns=[m.D[j]]))))
        return out
    return dict(requires=req, loops=[loops], ctors=('Migration::Migration',), at_call={'Ngraph::migrate(plan)': at_migrate}, modifies=lambda c: [('alloc',), ('field', G + 'original_owners', c.this)])


def specs():
    out = []
    A = out.append
    A(Spec('Ngraph::updateGhostOwners', MG, 'agi::Ngraph::updateGhostOwners', **update_owners()))
    A(Spec('Ngraph::migrate(plan)', MG, 'agi::Ngraph::migrate', sig='(Migration', assumed=True))
    A(Spec('Ngraph::repartition', MG, 'agi::Ngraph::repartition', **repart()))
    A(Spec('Ngraph::getPartition', MG, 'agi::Ngraph::getPartition', **get_partition()))
    return out
