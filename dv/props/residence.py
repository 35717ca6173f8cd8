"""Contracts of the residence and cut queries (agiEdge.cpp)."""
USES = ['access']
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.access import E, V, IT, TC, PI, is_heit

FILES = [E, V, IT, TC]


def pinh(g, l, t, k, src):
    """handle of the k-th pin of edge (l, t)"""
    return If(g.hyper, g.pl(t, g.pdl(t, l) + k) + 1, If(k == 0, src + 1, g.el(t, l) + 1))


def ownv(g, h):
    return If(h - 1 < g.nlv, Int('G_self'), g.ow(h - 1 - g.nlv))


def npins(g, l, t):
    return If(g.hyper, g.pdl(t, l + 1) - g.pdl(t, l), IntVal(2))


def own_req(g):
    return [('owners', Implies(g.ngv > 0, owned(g, g.ptr('owners'), g.ngv)))]


def has_pin_on(g, l, t, src, p, n=None):
    """some pin among the first n is owned by part p"""
    k = Int('k!e')
    if n is None:
        n = g.pdl(t, l + 1) - g.pdl(t, l)
        tn = 2
    else:
        tn = n
    P = g.ptr('pin_list', t)
    A = g.v.arr('int', P.b)
    h = Exists([k], And(P.o + g.pdl(t, l) <= k, k < P.o + g.pdl(t, l) + n, ownv(g, A[k] + 1) == p), patterns=[A[k]])
    tr = Or(And(0 < tn, ownv(g, src + 1) == p), And(1 < tn, ownv(g, g.el(t, l) + 1) == p))
    return Or(And(g.hyper, h), And(Not(g.hyper), tr))


AI = ArraySort(IntSort(), IntSort())
SRC = Function('src_of', AI, IntSort(), IntSort())
RES = Function('residence', BoolSort(), AI, AI, AI, AI, IntSort(), IntSort(), IntSort(), ArraySort(IntSort(), BoolSort()))


def srcf(g, l, t):
    return SRC(g.v.arr('int', g.ptr('degree_list', t).b), l)


def res_set(g, l, t):
    """the residence of edge (l, t) as a function of everything it depends on"""
    A = lambda n, *t: g.v.arr('int', g.ptr(n, *t).b)
    return RES(g.hyper, A('owners'), A('pin_list', t), A('pin_degree_list', t), A('edge_list', t), g.nlv, l, srcf(g, l, t))


def src_ok(g, t):
    """src_of names the unique vertex whose CSR range contains a traditional edge; it exists in every well-formed edge type"""
    l = Int('l!so')
    s = srcf(g, l, t)
    return [('sources', FA([l], Implies(And(Not(g.hyper), 0 <= l, l < g.nle(t)), And(0 <= s, s < g.nlv, g.dl(t, s) <= l, l < g.dl(t, s + 1))), patterns=[s]))]


def srcv(g, l, t, c=None):
    """source of a traditional edge: the vertex whose CSR range contains it (unique by monotonicity).  A universally
    quantified name inside a function; at call sites a function of the edge"""
    return srcf(g, l, t) if c is not None and c.callsite else Int('gh_src')


def src_req(g, l, t, c=None):
    s = srcv(g, l, t, c)
    # gh_src is a name for the unique vertex whose range contains l; existence is a consequence of wf_type
    return [('source of the edge', Implies(Not(g.hyper), And(0 <= s, s < g.nlv, g.dl(t, s) <= l, l < g.dl(t, s + 1))))]


def req(c):
    g = Gv(c.old, c.this)
    l, t = lt(c)
    return edge_req(c) + own_req(g) + src_req(g, l, t, c)


def it_loop(L):
    """the pin iterator tracks the loop counter"""
    g = Gv(L.old, L.c.this)
    l, t = lt(L.c)
    s = srcv(g, l, t)
    out = []
    v = L.cur
    for nm, ty, p in L.ptrs():
        if ty.a.k != 'rec' or not ty.a.a.endswith('PinIterator'):
            continue
        o = p.b
        loc, end = v.f(o, PI + 'loc'), v.f(o, PI + 'end')
        P0, P1 = g.ptr('pin_list', t).o + g.pdl(t, l), g.ptr('pin_list', t).o + g.pdl(t, l + 1)
        base = g.ptr('pin_list', t).b
        out.append(('hyper iterator range %s' % nm, Implies(g.hyper, And(loc.b == base, end.b == base, end.o == P1, P0 <= loc.o, loc.o <= P1))))
        out.append(('iterator object %s' % nm, And(p.o == 0, o >= 1, o >= L.old.ghost('alloc'))))
        sh, dh = s + 1, g.el(t, l) + 1
        # traditional iterator is in one of three states
        st0 = And(loc.o == sh, end.o == dh)
        st1 = And(loc.o == dh, end.o == dh)
        st2 = And(loc.o == 0, end.o == 0)
        out.append(('trad iterator %s' % nm, Implies(Not(g.hyper), And(loc.b == 0, end.b == 0, Or(st0, st1, And(st2))))))
        for n2, cur, ini in L.ints():
            out.append(('hyper position %s %s' % (nm, n2), Implies(g.hyper, loc.o == P0 + cur)))
            out.append(('trad position %s %s' % (nm, n2), Implies(Not(g.hyper), And(cur >= 0, Implies(cur == 0, st0), Implies(And(cur == 1, sh != dh), st1), Implies(And(cur == 1, sh == dh), st2)))))
    return out


def res_loops(L):
    out = it_loop(L)
    g = Gv(L.old, L.c.this)
    l, t = lt(L.c)
    s = srcv(g, l, t)
    cid = L.c.args[1].id
    H, H0 = L.cur.has(cid), L.old.has(cid)
    P = g.ptr('pin_list', t)
    A = g.v.arr('int', P.b)
    k, p = Ints('k!r p!r')
    for nm, cur, ini in L.ints():
        out.append(('collected %s' % nm, FA([k], Implies(And(g.hyper, P.o + g.pdl(t, l) <= k, k < P.o + g.pdl(t, l) + cur), H[ownv(g, A[k] + 1)]), patterns=[A[k]])))
        out.append(('collected trad %s' % nm, Implies(Not(g.hyper), And(Implies(cur > 0, H[ownv(g, s + 1)]), Implies(And(cur > 1, s != g.el(t, l)), H[ownv(g, g.el(t, l) + 1)])))))
        out.append(('only owners %s' % nm, FA([p], Implies(H[p], Or(H0[p], has_pin_on(g, l, t, s, p, cur), And(Not(g.hyper), s == g.el(t, l), p == Int('G_self')))), patterns=[H[p]])))
    out.append(('kept', FA([p], Implies(H0[p], H[p]), patterns=[H[p]])))
    return out


def res_post(c):
    g = Gv(c.old, c.this)
    l, t = lt(c)
    s = srcv(g, l, t, c)
    cid = c.args[1].id
    H, H0 = c.new.has(cid), c.old.has(cid)
    k, p = Ints('k!r p!r')
    return [('owner of every pin is a member (hypergraph)', FA([k], Implies(And(g.hyper, g.pdl(t, l) <= k, k < g.pdl(t, l + 1)), H[ownv(g, g.pl(t, k) + 1)]))),
            ('owners of both ends are members (traditional)', Implies(Not(g.hyper), And(H[ownv(g, s + 1)], H[ownv(g, g.el(t, l) + 1)]))),
            ('every new member owns a pin', FA([p], Implies(H[p], Or(H0[p], has_pin_on(g, l, t, s, p))))),
            ('earlier members are kept', FA([p], Implies(H0[p], H[p])))] + \
        ([('the set is named', Implies(H0 == K(IntSort(), BoolVal(False)), H == res_set(g, l, t)))] if c.callsite else [])


def irq_loops(L):
    out = it_loop(L)
    g = Gv(L.old, L.c.this)
    l, t = lt(L.c)
    s = srcv(g, l, t)
    k = Int('k!r')
    peer = L.c.args[1]
    P = g.ptr('pin_list', t)
    A = g.v.arr('int', P.b)
    for nm, cur, ini in L.ints():
        out.append(('none so far %s' % nm, FA([k], Implies(And(g.hyper, P.o + g.pdl(t, l) <= k, k < P.o + g.pdl(t, l) + cur), ownv(g, A[k] + 1) != peer), patterns=[A[k]])))
        out.append(('none so far trad %s' % nm, Implies(Not(g.hyper), And(Implies(cur > 0, ownv(g, s + 1) != peer), Implies(And(cur > 1), ownv(g, g.el(t, l) + 1) != peer)))))
    return out


def cut_loops(L):
    out = it_loop(L)
    g = Gv(L.old, L.c.this)
    l, t = lt(L.c)
    s = srcv(g, l, t)
    k = Int('k!r')
    P0 = g.pdl(t, l)
    PP = g.ptr('pin_list', t)
    A = g.v.arr('int', PP.b)
    first = If(g.hyper, ownv(g, g.pl(t, P0) + 1), ownv(g, s + 1))
    for nm, ty, p in L.ptrs():
        if ty.a.k != 'rec' or not ty.a.a.endswith('PinIterator'):
            continue
        loc, end = L.cur.f(p.b, PI + 'loc'), L.cur.f(p.b, PI + 'end')
        sh, dh = s + 1, g.el(t, l) + 1
        done = loc.o - g.ptr('pin_list', t).o
        st0 = And(loc.o == sh, end.o == dh)
        for n2, cur in L.locals():
            out.append(('part so far %s' % n2, Implies(g.hyper, If(done == P0, cur == -1, cur == first))))
            out.append(('part so far b %s' % n2, Implies(Not(g.hyper), Or(And(cur == -1, st0), And(cur == first, Or(And(loc.o == dh, end.o == dh, sh != dh), And(loc.o == 0, end.o == 0)))))))
        out.append(('same so far %s' % nm, FA([k], Implies(And(g.hyper, PP.o + P0 <= k, k < loc.o), ownv(g, A[k] + 1) == first), patterns=[A[k]])))
        out.append(('same so far trad %s' % nm, Implies(And(Not(g.hyper), loc.o == 0), ownv(g, dh) == ownv(g, sh))))
    return out


def cut_post(c):
    g = Gv(c.old, c.this)
    l, t = lt(c)
    s = srcv(g, l, t, c)
    j, k = Ints('j!r k!r')
    P = g.ptr('pin_list', t)
    A = g.v.arr('int', P.b)
    P0, P1 = P.o + g.pdl(t, l), P.o + g.pdl(t, l + 1)
    O = lambda x: ownv(g, A[x] + 1)
    return [('cut: two pins on different parts (hypergraph)', Implies(And(g.hyper, c.ret), Exists([k], And(P0 <= k, k < P1, O(k) != O(P0)), patterns=[A[k]]))),
            ('not cut: all pins on one part (hypergraph)', Implies(And(g.hyper, Not(c.ret)), FA([k], Implies(And(P0 <= k, k < P1), O(k) == O(P0))))),
            ('cut iff the ends differ (traditional)', Implies(Not(g.hyper), c.ret == (ownv(g, s + 1) != ownv(g, g.el(t, l) + 1))))]


def nonneg_owner(c):
    """parts are non-negative"""
    g = Gv(c.old, c.this)
    i = Int('i!o')
    P = g.ptr('owners')
    A = g.v.arr('int', P.b)
    return [('parts are non-negative', And(Int('G_self') >= 0, FA([i], Implies(And(P.o <= i, i < P.o + g.ngv), A[i] >= 0), patterns=[A[i]])))]


def specs():
    return [
        Spec('Ngraph::getResidence', E, 'agi::Ngraph::getResidence', requires=req, decomp=decomp, loops=[res_loops], ensures=res_post, rawptr=True,
             modifies=lambda c: [('alloc',), ('has', '', c.args[1].id), ('size', '', c.args[1].id)]),
        Spec('Ngraph::isResidentOn', E, 'agi::Ngraph::isResidentOn', requires=req, decomp=decomp, loops=[irq_loops], rawptr=True,
             modifies=lambda c: [('alloc',)],
             ensures=lambda c: [('resident iff the part owns a pin', c.ret == has_pin_on(Gv(c.old, c.this), lt(c)[0], lt(c)[1], srcv(Gv(c.old, c.this), *lt(c), c), c.args[1]))]),
        Spec('Ngraph::isCut', E, 'agi::Ngraph::isCut', requires=lambda c: req(c) + nonneg_owner(c), decomp=decomp, loops=[cut_loops], rawptr=True,
             modifies=lambda c: [('alloc',)], ensures=cut_post),
        Spec('Ngraph::destroy(pins)', IT, 'agi::Ngraph::destroy', sig='(PinIterator', requires=lambda c: [], ensures=lambda c: []),
        Spec('Ngraph::destroy(edges)', IT, 'agi::Ngraph::destroy', sig='(EdgeIterator', requires=lambda c: [], ensures=lambda c: []),
    ]
