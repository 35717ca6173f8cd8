"""Contracts of the graph access functions (agiEdge, agiVertex, agiIterate, agi_typeconvert)."""
from z3 import *
from util import FA
from spec import Spec, Lemma, Registry
from props.graph import *

E, V, IT, TC = 'agi/agiEdge.cpp', 'agi/agiVertex.cpp', 'agi/agiIterate.cpp', 'agi/agi_typeconvert.cpp'
FILES = [E, V, IT, TC, 'agi/agiTag.cpp']
EI = 'EdgeIterator.'
PI = 'PinIterator.'
GI = 'GraphIterator.'


def S(*a, **k):
    return Spec(*a, **k)


def gv(c):
    return Gv(c.old, c.this)


USES = ['tag']


# ---- edge iterators: abstract state (type t, position k, end n)
def ei(v, o):
    return v.f(o, EI + 'loc'), v.f(o, EI + 'end'), v.f(o, EI + 'num_types')


def dyn(c, v, o):
    return v.f(o, '__obj.__dyn')


HYP = None


def is_heit(c, v, o):
    return dyn(c, v, o) == c.ex.dynkey(T_('HyperEdgeIterator'))


def T_(n):
    from ctypes_ import T
    return T('rec', n)


def ei_is(c, v, o, t, k, n, nt):
    """iterator object o is at position k of n for edge type t (positions count CSR slots or edges)"""
    loc, end, m = ei(v, o)
    return And(loc.b == 0, end.b == 0, loc.o == 1 + t + nt * k, end.o == 1 + t + nt * n, m == nt)


from ctypes_ import INT
GI_ = INT(32)


def eghost(v, o):
    """ghost fields of an edge iterator object: edge type, position, end"""
    for n in ('ght', 'ghk', 'ghn'):
        v.ex.ftypes.setdefault(EI + n, GI_)
    return tuple(v.f(o, EI + n, GI_) for n in ('ght', 'ghk', 'ghn'))


def ghset(c, o, t, k, n):
    if not c.callsite:
        return []
    a, b, d = eghost(c.new, o)
    return [('ghost position', And(a == t, b == k, d == n))]


def ret_obj(c):
    return c.ret.b


def specs():
    out = []
    A = out.append
    # ---------- handles
    A(S('agi::toPtr', TC, 'agi::toPtr', requires=lambda c: [('non-negative', c.args[0] >= 0)],
        ensures=lambda c: [('value of the pointer', And(c.ret.b == 0, c.ret.o == c.args[0]))]))
    A(S('agi::fromPtr', TC, 'agi::fromPtr', requires=lambda c: [('handle', And(c.args[0].o >= 0, c.args[0].o < 2 ** 31))],
        ensures=lambda c: [('inverse of toPtr', c.ret == c.args[0].o - 1)]))
    A(S('PNgraph::getVertex', V, 'agi::PNgraph::getVertex', requires=lambda c: [('id', And(c.args[0] >= 0, c.args[0] < LIM))],
        ensures=lambda c: [('handle of vertex lid', c.ret.o == c.args[0] + 1)]))
    A(S('PNgraph::getEdge', E, 'agi::PNgraph::getEdge',
        requires=lambda c: sizes(gv(c)) + [('id', And(c.args[0] >= 0, c.args[1] >= 0, c.args[1] < gv(c).nt, gv(c).nt * c.args[0] + gv(c).nt < LIM))],
        ensures=lambda c: [('handle of edge (lid,type)', c.ret.o == handle(gv(c), c.args[0], c.args[1]))]))
    A(S('Ngraph::localID(vertex)', V, 'agi::Ngraph::localID', sig='GraphVertex', requires=lambda c: vtx_req(c),
        ensures=lambda c: [('local id', c.ret == c.args[0].o - 1)]))
    A(S('Ngraph::globalID(vertex)', V, 'agi::Ngraph::globalID', sig='GraphVertex',
        requires=lambda c: vtx_req(c) + [('maps', And(owned(gv(c), gv(c).ptr('local_unmap'), gv(c).nlv), owned(gv(c), gv(c).ptr('ghost_unmap'), gv(c).ngv)))],
        ensures=lambda c: [('global id of local vertex', Implies(c.args[0].o - 1 < gv(c).nlv, c.ret == gv(c).lu(c.args[0].o - 1))),
                           ('global id of ghost vertex', Implies(c.args[0].o - 1 >= gv(c).nlv, c.ret == gv(c).gu(c.args[0].o - 1 - gv(c).nlv)))]))

    def vm(c):
        return c.old.sub(c.this, G + 'vtx_mapping')
    A(S('Ngraph::findGID', IT, 'agi::Ngraph::findGID',
        requires=lambda c: sizes(gv(c)) + [('known id', And(c.old.has(vm(c))[c.args[0]], c.old.val(vm(c), 'int')[c.args[0]] >= 0,
                                                           c.old.val(vm(c), 'int')[c.args[0]] < gv(c).nlv + gv(c).ngv))],
        ensures=lambda c: [('handle of the vertex with this global id', c.ret.o == c.old.val(vm(c), 'int')[c.args[0]] + 1)]))

    def bij(c):
        g = gv(c)
        i = Int('i!b')
        H, W = c.old.has(vm(c)), c.old.val(vm(c), 'int')
        return [('maps', And(owned(g, g.ptr('local_unmap'), g.nlv), owned(g, g.ptr('ghost_unmap'), g.ngv))),
                ('local ids map back', FA([i], Implies(And(0 <= i, i < g.nlv), And(H[g.lu(i)], W[g.lu(i)] == i)), patterns=[g.lu(i)])),
                ('ghost ids map back', FA([i], Implies(And(0 <= i, i < g.ngv), And(H[g.gu(i)], W[g.gu(i)] == i + g.nlv)), patterns=[g.gu(i)]))]
    A(S('Ngraph::find', V, 'agi::Ngraph::find', requires=lambda c: vtx_req(c) + bij(c),
        ensures=lambda c: [('finds the vertex itself', c.ret.o == c.args[0].o)]))
    A(S('Ngraph::isEqual(vertex)', V, 'agi::Ngraph::isEqual', sig='GraphVertex', ensures=lambda c: [('same handle', c.ret == (c.args[0].o == c.args[1].o))]))
    # ---------- vertex data
    A(S('Ngraph::degree(vertex)', V, 'agi::Ngraph::degree', sig='GraphVertex',
        requires=lambda c: vtx_req(c, local=True) + wf_type(gv(c), c.args[1]),
        ensures=lambda c: [('CSR range length', c.ret == gv(c).dl(c.args[1], c.args[0].o) - gv(c).dl(c.args[1], c.args[0].o - 1))]))

    def owner_val(c, h):
        g = gv(c)
        return If(h - 1 < g.nlv, Int('G_self'), g.ow(h - 1 - g.nlv))
    A(S('Ngraph::owner', V, 'agi::Ngraph::owner',
        requires=lambda c: vtx_req(c, null=True) + [('owners', Implies(gv(c).ngv > 0, owned(gv(c), gv(c).ptr('owners'), gv(c).ngv)))],
        ensures=lambda c: [('self for local, recorded owner for ghost', c.ret == owner_val(c, c.args[0].o))]))
    A(S('Ngraph::weight(vertex)', V, 'agi::Ngraph::weight', sig='GraphVertex',
        requires=lambda c: vtx_req(c) + [('weights', owned(gv(c), gv(c).ptr('local_weights'), gv(c).nlv)), ('ghost weights', Implies(c.args[0].o > gv(c).nlv, gw_ok(c.old, c.this)))],
        ensures=lambda c: [('own weight', Implies(c.args[0].o <= gv(c).nlv, c.ret == gv(c).lw(c.args[0].o - 1))),
                           ('ghost weight tag', Implies(c.args[0].o > gv(c).nlv, c.ret == gw_at(c.old, c.this, c.args[0].o - 1 - gv(c).nlv)))]))
    A(S('Ngraph::originalOwner', V, 'agi::Ngraph::originalOwner',
        requires=lambda c: vtx_req(c, local=True) + [('recorded', owned(gv(c), gv(c).ptr('original_owners'), gv(c).nlv))],
        ensures=lambda c: [('recorded original owner', c.ret == c.old.at('int', gv(c).ptr('original_owners'), c.args[0].o - 1))]))

    def oo_post(val):
        def f(c):
            i = Int('i!p')
            p = c.new.f(c.this, G + 'original_owners')
            po = gv(c).ptr('original_owners')
            unset = And(po.b == 0, po.o == 0)
            return [('every vertex recorded', Implies(unset, And(p.b >= 1, p.o == 0, c.new.len(p.b) == gv(c).nlv,
                                              FA([i], Implies(And(0 <= i, i < gv(c).nlv), c.new.at('int', p, i) == val(c, i)))))),
                    ('already recorded values are kept', Implies(Not(unset), And(p.b == po.b, p.o == po.o)))]
        return f
    A(S('Ngraph::setOriginalOwners()', V, 'agi::Ngraph::setOriginalOwners', nparams=0, requires=lambda c: sizes(gv(c)),
        modifies=lambda c: [('alloc',), ('field', G + 'original_owners', c.this)], ensures=oo_post(lambda c, i: Int('G_self'))))
    A(S('Ngraph::setOriginalOwners(v)', V, 'agi::Ngraph::setOriginalOwners', nparams=1,
        requires=lambda c: sizes(gv(c)) + [('unset', And(gv(c).ptr('original_owners').b == 0, gv(c).ptr('original_owners').o == 0)), ('one per vertex', c.old.size(c.args[0].id) >= gv(c).nlv)],
        modifies=lambda c: [('alloc',), ('field', G + 'original_owners', c.this)], ensures=oo_post(lambda c, i: c.old.arr('int', c.args[0].id)[i])))
    # resetOwnership / resetPartition
    def reset_post(c):
        i = Int('i!p')
        p = c.new.f(c.this, G + 'original_owners')
        return [('every vertex is again originally owned here', And(p.b >= 1, p.o == 0, FA([i], Implies(And(0 <= i, i < gv(c).nlv), c.new.at('int', p, i) == Int('G_self')))))]
    A(S('Ngraph::resetOwnership', V, 'agi::Ngraph::resetOwnership', requires=lambda c: sizes(gv(c)),
        modifies=lambda c: [('alloc',), ('field', G + 'original_owners', c.this)], ensures=reset_post))
    # coordinates / weights set
    A(S('Ngraph::setCoords', V, 'agi::Ngraph::setCoords',
        requires=lambda c: sizes(gv(c)) + [('input', And(c.args[0].b >= 1, c.args[0].o == 0, c.old.len(c.args[0].b) >= 3 * gv(c).nlv))],
        modifies=lambda c: [('alloc',), ('field', G + 'local_coords', c.this)], loops=[coord_loop],
        ensures=lambda c: [('coordinates of every vertex', coords_eq(c.new, c.new.f(c.this, G + 'local_coords'), c.old, c.args[0], gv(c).nlv))]))
    A(S('Ngraph::coord', V, 'agi::Ngraph::coord',
        requires=lambda c: vtx_req(c, local=True) + [('coords', owned(gv(c), gv(c).ptr('local_coords'), 3 * gv(c).nlv))],
        ensures=lambda c: [('the vertex\'s own coordinates', And(c.retp().b == gv(c).ptr('local_coords').b, c.retp().o == 3 * (c.args[0].o - 1)))]))
    A(S('Ngraph::hasCoords', V, 'agi::Ngraph::hasCoords', ensures=lambda c: [('coords set', c.ret == Or(gv(c).ptr('local_coords').b != 0, gv(c).ptr('local_coords').o != 0))]))

    def sw_post(c):
        i = Int('i!p')
        p = c.new.f(c.this, G + 'local_weights')
        return [('weights of every vertex', FA([i], Implies(And(0 <= i, i < gv(c).nlv), c.new.at('real', p, i) == c.old.at('real', c.args[0], i))))]
    A(S('Ngraph::setWeights', V, 'agi::Ngraph::setWeights',
        requires=lambda c: sizes(gv(c)) + [('input', And(c.args[0].b >= 1, c.args[0].o == 0, c.old.len(c.args[0].b) >= gv(c).nlv)),
                                          ('own array', Or(And(gv(c).ptr('local_weights').b == 0, gv(c).ptr('local_weights').o == 0), And(owned(gv(c), gv(c).ptr('local_weights'), gv(c).nlv), gv(c).ptr('local_weights').b != c.args[0].b)))],
        modifies=lambda c: [('alloc',), ('field', G + 'local_weights', c.this), ('mem', 'real', gv(c).ptr('local_weights').b)], ensures=sw_post))

    def co_post(c):
        i = Int('i!p')
        g = gv(c)
        p = g.ptr('owners')
        return [('every ghost owner renamed', FA([i], Implies(And(0 <= i, i < g.ngv), c.new.at('int', p, i) == c.old.at('int', c.args[0], g.ow(i)))))]

    def co_req(c):
        i = Int('i!p')
        g = gv(c)
        return sizes(g) + [('owners', Implies(g.ngv > 0, owned(g, g.ptr('owners'), g.ngv))), ('distinct arrays', g.ptr('owners').b != c.args[0].b),
                           ('renaming covers all owners', And(c.args[0].b >= 1, c.args[0].o == 0, FA([i], Implies(And(0 <= i, i < g.ngv), And(g.ow(i) >= 0, g.ow(i) < c.old.len(c.args[0].b))))))]
    A(S('Ngraph::changeOwners', V, 'agi::Ngraph::changeOwners', requires=co_req, modifies=lambda c: [('mem', 'int', gv(c).ptr('owners').b)], ensures=co_post))
    # ---------- edges
    A(S('Ngraph::localID(edge)', E, 'agi::Ngraph::localID', sig='GraphEdge', requires=edge_req, decomp=decomp,
        ensures=lambda c: [('edge index', c.ret == lt(c)[0])]))
    A(S('Ngraph::globalID(edge)', E, 'agi::Ngraph::globalID', sig='GraphEdge',
        requires=lambda c: edge_req(c) + [('ids', Implies(gv(c).hyper, owned(gv(c), gv(c).ptr('edge_unmap', lt(c)[1]), gv(c).nle(lt(c)[1]))))],
        decomp=decomp, ensures=lambda c: [('hyperedge global id', Implies(gv(c).hyper, c.ret == gv(c).eu(lt(c)[1], lt(c)[0]))),
                                          ('traditional edges are identified locally', Implies(Not(gv(c).hyper), c.ret == lt(c)[0]))]))
    A(S('Ngraph::weight(edge)', E, 'agi::Ngraph::weight', sig='GraphEdge',
        requires=lambda c: edge_req(c) + [('weights', owned(gv(c), gv(c).ptr('edge_weights', lt(c)[1]), gv(c).nle(lt(c)[1])))],
        decomp=decomp, ensures=lambda c: [('weight of this edge of this type', c.ret == gv(c).ew(lt(c)[1], lt(c)[0]))]))

    def deg(c, l, t):
        g = gv(c)
        return If(g.hyper, g.pdl(t, l + 1) - g.pdl(t, l), IntVal(2))
    A(S('Ngraph::degree(edge)', E, 'agi::Ngraph::degree', sig='GraphEdge', decomp=decomp,
        requires=lambda c: [(n, Or(c.args[0].o == 0, f)) if not n.startswith(('vertex', 'edge types')) else (n, f) for n, f in edge_req(c)],
        ensures=lambda c: [('pin count', Implies(c.args[0].o != 0, c.ret == deg(c, *lt(c)))),
                           ('null hyperedge has no pins', Implies(And(c.args[0].o == 0, gv(c).hyper), c.ret == 0))]))

    def u_req(c):
        g = gv(c)
        e, t = c.args[0], c.args[1]
        return sizes(g) + wf_type(g, t) + [('edge index', And(0 <= e, e < g.dl(t, g.nlv)))]

    def u_loops(L):
        g = Gv(L.old, L.c.this)
        e, t = L.c.args[0], L.c.args[1]
        out = []
        for nm, a in L.locals():
            for nm2, b in L.locals():
                if nm != nm2:
                    out.append(('bracket %s %s' % (nm, nm2), And(0 <= a, a < b, b <= g.nlv, g.dl(t, a) <= e, e < g.dl(t, b))))
                    out.append(('below %s %s' % (nm, nm2), And(0 <= a, a <= b, b < g.nlv, g.dl(t, a) <= e, e < g.dl(t, b + 1))))
            rng = And(0 <= a, a < g.nlv, g.dl(t, a) <= e, e < g.dl(t, a + 1))
            out.append(('index %s' % (nm,), And(0 <= a, a < g.nlv)))
            for bn, b in L.bools():
                out.append(('found %s %s' % (nm, bn), Implies(b, rng)))
                out.append(('found %s !%s' % (nm, bn), Implies(Not(b), rng)))
        return out

    def src(c, e, t, x):
        g = gv(c)
        return And(0 <= x, x < g.nlv, g.dl(t, x) <= e, e < g.dl(t, x + 1))
    A(S('Ngraph::u(lid)', E, 'agi::Ngraph::u', nparams=2, requires=u_req, loops=[u_loops],
        ensures=lambda c: [('source vertex owns the CSR range containing the edge', src(c, c.args[0], c.args[1], c.ret))]))

    def trad_edge(c):
        return edge_req(c) + [('traditional graph', Not(gv(c).hyper))]
    A(S('Ngraph::u(edge)', E, 'agi::Ngraph::u', nparams=1, requires=trad_edge, decomp=decomp,
        ensures=lambda c: [('handle of the source vertex', src(c, lt(c)[0], lt(c)[1], c.ret.o - 1))]))
    A(S('Ngraph::v(edge)', E, 'agi::Ngraph::v', nparams=1, decomp=decomp,
        requires=lambda c: [(n, Or(c.args[0].o == 0, f)) if not n.startswith(('vertex', 'edge types')) else (n, f) for n, f in trad_edge(c)],
        ensures=lambda c: [('handle of the target vertex', Implies(c.args[0].o != 0, c.ret.o == gv(c).el(lt(c)[1], lt(c)[0]) + 1)),
                           ('null for null', Implies(c.args[0].o == 0, c.ret.o == 0))]))

    def pins_post(c):
        g = gv(c)
        l, t = lt(c)
        o = c.ret.b
        loc, end = c.new.f(o, PI + 'loc'), c.new.f(o, PI + 'end')
        pl = g.ptr('pin_list', t)
        return [('hyperedge pins', Implies(g.hyper, And(loc.b == pl.b, end.b == pl.b, loc.o == pl.o + g.pdl(t, l), end.o == pl.o + g.pdl(t, l + 1)))),
                ('traditional pins are source and target', Implies(Not(g.hyper), And(loc.b == 0, end.b == 0, src(c, l, t, loc.o - 1), end.o == g.el(t, l) + 1))),
                ('fresh iterator', And(o >= 1, o >= c.old.ghost('alloc')))]
    A(S('Ngraph::pins', E, 'agi::Ngraph::pins', requires=edge_req, decomp=decomp, ret_fresh_obj=True, rawptr=True,
        modifies=lambda c: [('alloc',)] + fresh_fields(c, PI, ('loc', 'end')), ensures=pins_post))
    # ---------- edge weights set
    def sew_req(c, t):
        g = gv(c)
        return sizes(g) + [('type', And(t >= 0, t < 7)), ('edges', And(g.nle(t) >= 0, g.nle(t) < LIM))]

    def sew1_post(c):
        i = Int('i!p')
        g, t = gv(c), c.args[1]
        return [('every edge of the type', FA([i], Implies(And(0 <= i, i < g.nle(t)), c.new.at('real', g.ptr('edge_weights', t), i) == c.args[0])))]
    A(S('Ngraph::setEdgeWeights(w)', E, 'agi::Ngraph::setEdgeWeights', sig='(wgt_t',
        requires=lambda c: sew_req(c, c.args[1]) + [('array', owned(gv(c), gv(c).ptr('edge_weights', c.args[1]), gv(c).nle(c.args[1])))],
        modifies=lambda c: [('mem', 'real', gv(c).ptr('edge_weights', c.args[1]).b)], ensures=sew1_post))

    def sew2_post(c):
        i = Int('i!p')
        g, t = gv(c), c.args[1]
        p = c.new.fi(c.this, G + 'edge_weights', t)
        return [('every edge gets its weight', FA([i], Implies(And(0 <= i, i < g.nle(t)),
                 c.new.at('real', p, i) == If(c.old.size(c.args[0].id) == 0, RealVal(1), c.old.arr('real', c.args[0].id)[i]))))]
    A(S('Ngraph::setEdgeWeights(v)', E, 'agi::Ngraph::setEdgeWeights', sig='vector',
        requires=lambda c: sew_req(c, c.args[1]) + [('unset', And(gv(c).ptr('edge_weights', c.args[1]).b == 0, gv(c).ptr('edge_weights', c.args[1]).o == 0)),
                            ('one per edge or none', Or(c.old.size(c.args[0].id) == 0, c.old.size(c.args[0].id) == gv(c).nle(c.args[1])))],
        modifies=lambda c: [('alloc',), ('field', G + 'edge_weights', c.this, c.args[1])], ensures=sew2_post))
    # ---------- iterators
    A(S('Ngraph::begin()', IT, 'agi::Ngraph::begin', nparams=0, ensures=lambda c: [('first vertex position', c.ret.o == 1)]))
    A(S('Ngraph::beginGhosts', IT, 'agi::Ngraph::beginGhosts', requires=lambda c: sizes(gv(c)), ensures=lambda c: [('first ghost position', c.ret.o == gv(c).nlv + 1)]))

    def viter(lo, hi):
        def req(c):
            g = gv(c)
            return sizes(g) + [('position', And(c.args[0].o >= lo(g) + 1, c.args[0].o <= hi(g) + 1))]

        def post(c):
            g = gv(c)
            k = c.args[0].o
            return [('returns the element at the position', Implies(k <= hi(g), And(c.ret.o == k, c.argn[0].o == k + 1))),
                    ('null exactly at the end', Implies(k == hi(g) + 1, And(c.ret.o == 0, c.argn[0].o == 0)))]
        return dict(requires=req, ensures=post, outs=(0,))
    A(S('Ngraph::iterate(vertex)', IT, 'agi::Ngraph::iterate', sig='(VertexIterator', **viter(lambda g: 0, lambda g: g.nlv)))
    A(S('Ngraph::iterate(ghost)', IT, 'agi::Ngraph::iterate', sig='(GhostIterator', **viter(lambda g: g.nlv, lambda g: g.nlv + g.ngv)))

    def begint_post(c):
        g = gv(c)
        t = c.args[0]
        o = c.ret.b
        return [('all edges of the type, from the first', ei_is(c, c.new, o, t, IntVal(0), g.nle(t), g.nt)),
                ('kind of iterator', is_heit(c, c.new, o) == g.hyper), ('fresh', And(o >= 1, o >= c.old.ghost('alloc')))] + ghset(c, o, t, IntVal(0), g.nle(t))
    A(S('Ngraph::begin(type)', IT, 'agi::Ngraph::begin', nparams=1, ret_fresh_obj=True,
        requires=lambda c: sizes(gv(c)) + wf_type(gv(c), c.args[0]), rawptr=True,
        modifies=lambda c: [('alloc',)] + fresh_fields(c, EI, ('loc', 'end', 'num_types')), ensures=begint_post))

    def edges_post(c):
        g = gv(c)
        t = c.args[1]
        o, x = c.ret.b, c.args[0].o - 1
        return [('exactly the vertex\'s CSR range', ei_is(c, c.new, o, t, g.dl(t, x), g.dl(t, x + 1), g.nt)),
                ('kind of iterator', Not(is_heit(c, c.new, o))), ('fresh', And(o >= 1, o >= c.old.ghost('alloc')))] + ghset(c, o, t, g.dl(t, x), g.dl(t, x + 1))
    A(S('Ngraph::edges', V, 'agi::Ngraph::edges', ret_fresh_obj=True, requires=lambda c: vtx_req(c, local=True) + wf_type(gv(c), c.args[1]), rawptr=True,
        modifies=lambda c: [('alloc',)] + fresh_fields(c, EI, ('loc', 'end', 'num_types')), ensures=edges_post))

    def eit_gh(c, v=None):
        """type, position and end: universally quantified when the function itself is verified; at call sites ghost
        fields of the iterator, set when it is created and advanced by iterate"""
        if not c.callsite:
            return Int('gh_t'), Int('gh_k'), Int('gh_n')
        return eghost(v or c.old, c.args[0].b)

    def eit_req(c):
        g = gv(c)
        t, k, n = eit_gh(c)
        o = c.args[0].b
        heit = is_heit(c, c.old, o)
        return sizes(g) + wf_type(g, t) + [
            ('iterator state', And(c.args[0].o == 0, o >= 1, ei_is(c, c.old, o, t, k, n, g.nt))),
            ('position', And(0 <= k, k <= n, Or(And(heit, g.hyper, n <= g.nle(t)), And(Not(heit), n <= g.dl(t, g.nlv)))))]

    def eit_post(c):
        g = gv(c)
        t, k, n = eit_gh(c)
        o = c.args[0].b
        heit = is_heit(c, c.old, o)
        e = If(And(g.hyper, Not(heit)), g.el(t, k), k)
        return [('null exactly at the end', (c.ret.o == 0) == (k >= n)),
                ('handle of the edge at the position', Implies(k < n, c.ret.o == handle(g, e, t))),
                ('advances by one', ei_is(c, c.new, o, t, If(k < n, k + 1, k), n, g.nt)),
                ('same iterator', And(c.argn[0].b == o, c.argn[0].o == 0))] + ghset(c, o, t, If(k < n, k + 1, k), n)
    A(S('Ngraph::iterate(edge)', IT, 'agi::Ngraph::iterate', sig='(EdgeIterator', requires=eit_req, ensures=eit_post, outs=(0,),
        decomp=lambda c: [(Int('gh_k'), Int('gh_t'))],
        modifies=lambda c: [('field', EI + 'loc', c.args[0].b)] + ([('field', EI + 'ghk', c.args[0].b)] if c.callsite and eghost(c.old, c.args[0].b) else [])))

    # pins: hyper: position pointer walk; traditional: source, then target, then null
    def pit_req(c):
        g = gv(c)
        o = c.args[0].b
        loc, end = c.old.f(o, PI + 'loc'), c.old.f(o, PI + 'end')
        i = Int('i!q')
        return sizes(g) + [('iterator', And(c.args[0].o == 0, o >= 1)),
                           ('hyperedge position', Implies(g.hyper, And(loc.b >= 1, loc.b == end.b, 0 <= loc.o, loc.o <= end.o, end.o <= c.old.len(loc.b),
                                                          FA([i], Implies(And(loc.o <= i, i < end.o), And(c.old.arr('int', loc.b)[i] >= 0, c.old.arr('int', loc.b)[i] < g.nlv + g.ngv)))))),
                           ('traditional position', Implies(Not(g.hyper), And(loc.b == 0, end.b == 0, loc.o >= 0, end.o >= 0)))]

    def pit_post(c):
        g = gv(c)
        o = c.args[0].b
        loc, end = c.old.f(o, PI + 'loc'), c.old.f(o, PI + 'end')
        nl, ne = c.new.f(o, PI + 'loc'), c.new.f(o, PI + 'end')
        done = loc.o == end.o
        return [('hyper: null exactly at the end', Implies(g.hyper, (c.ret.o == 0) == done)),
                ('hyper: the pin at the position', Implies(And(g.hyper, Not(done)), And(c.ret.o == c.old.arr('int', loc.b)[loc.o] + 1, nl.b == loc.b, nl.o == loc.o + 1, ne.b == end.b, ne.o == end.o))),
                ('hyper: stays at the end', Implies(And(g.hyper, done), And(nl.b == loc.b, nl.o == loc.o, ne.o == end.o))),
                ('traditional: source then target then null', Implies(Not(g.hyper), And(c.ret.o == loc.o, Implies(Not(done), And(nl.o == end.o, ne.o == end.o)),
                                                                     Implies(done, And(nl.o == 0, ne.o == 0)), nl.b == 0, ne.b == 0))),
                ('same iterator', And(c.argn[0].b == o, c.argn[0].o == 0))]
    A(S('Ngraph::iterate(pin)', IT, 'agi::Ngraph::iterate', sig='(PinIterator', requires=pit_req, ensures=pit_post, outs=(0,), rawptr=True,
        modifies=lambda c: [('field', PI + 'loc', c.args[0].b), ('field', PI + 'end', c.args[0].b)]))
    A(S('Ngraph::edge(itr)', IT, 'agi::Ngraph::edge', nparams=1, requires=lambda c: [('iterator', And(c.args[0].b >= 1, c.args[0].o == 0))],
        ensures=lambda c: [('current edge', c.ret.o == c.old.f(c.args[0].b, GI + 'edge').o)]))
    return out


def fresh_fields(c, pre, names):
    return []


def coord_loop(L):
    return []


def coords_eq(v1, p1, v0, p0, n):
    i = Int('i!p')
    return And(p1.b >= 1, p1.o == 0, FA([i], Implies(And(0 <= i, i < n), And(*[v1.at('real', p1, 3 * i + d) == v0.at('real', p0, 3 * i + d) for d in range(3)]))))


I_, R_ = IntSort(), RealSort()


def LEMMAS():
    return [div_unique()]
