"""Abstract view of the N-graph data structure shared by the graph contracts."""
from z3 import *
from util import FA
from spec import Spec, Lemma

G = 'PNgraph.'


class Gv:
    """the fields of graph object `o` in state view `v`"""

    def __init__(self, v, o):
        self.v, self.o = v, o
        f = lambda n: v.f(o, G + n)
        self.hyper = f('isHyperGraph')
        self.nlv, self.ngv, self.nt = f('num_local_verts'), f('num_ghost_verts'), f('num_types')

    def nle(self, t):
        return self.v.fi(self.o, G + 'num_local_edges', t)

    def nlp(self, t):
        return self.v.fi(self.o, G + 'num_local_pins', t)

    def ptr(self, n, t=None):
        return self.v.f(self.o, G + n) if t is None else self.v.fi(self.o, G + n, t)

    def dl(self, t, k):
        return self.v.at('int', self.ptr('degree_list', t), k)

    def el(self, t, k):
        return self.v.at('int', self.ptr('edge_list', t), k)

    def pdl(self, t, k):
        return self.v.at('int', self.ptr('pin_degree_list', t), k)

    def pl(self, t, k):
        return self.v.at('int', self.ptr('pin_list', t), k)

    def ew(self, t, k):
        return self.v.at('real', self.ptr('edge_weights', t), k)

    def eu(self, t, k):
        return self.v.at('long', self.ptr('edge_unmap', t), k)

    def lw(self, k):
        return self.v.at('real', self.ptr('local_weights'), k)

    def lu(self, k):
        return self.v.at('long', self.ptr('local_unmap'), k)

    def gu(self, k):
        return self.v.at('long', self.ptr('ghost_unmap'), k)

    def ow(self, k):
        return self.v.at('int', self.ptr('owners'), k)

    def length(self, p):
        return self.v.len(p.b)


LIM = 2 ** 31 - 64


def sizes(g):
    return [('vertex counts', And(g.nlv >= 0, g.ngv >= 0, g.nlv + g.ngv < LIM)),
            ('edge types', And(g.nt >= 0, g.nt <= 7))]


def owned(g, p, n):
    return And(p.b >= 1, p.o == 0, g.length(p) >= n)


def wf_type(g, t):
    """CSR invariant of edge type t"""
    i, j = Ints('i!w j!w')
    dl, el, pdl, pl = [g.ptr(x, t) for x in ('degree_list', 'edge_list', 'pin_degree_list', 'pin_list')]
    D = lambda k: g.dl(t, k)
    # quantified facts range over absolute array positions so that they apply to every way of addressing the array
    A = lambda p: g.v.arr('int', p.b)
    n = D(g.nlv)
    np_ = g.pdl(t, g.nle(t))
    out = [('type in range', And(t >= 0, t < g.nt)),
           ('edge count', And(g.nle(t) >= 0, g.nt * g.nle(t) + g.nt < LIM)),
           ('degree list', And(owned(g, dl, g.nlv + 1), D(IntVal(0)) == 0)),
           ('degree list monotone', FA([i, j], Implies(And(dl.o <= i, i <= j, j <= dl.o + g.nlv), A(dl)[i] <= A(dl)[j]), patterns=[MultiPattern(A(dl)[i], A(dl)[j])])),
           ('edge list', owned(g, el, n)),
           ('edge list size', And(n >= 0, g.nt * n + g.nt < LIM)),
           ('traditional edges are CSR positions', Implies(Not(g.hyper), g.nle(t) == n)),
           ('traditional targets are vertices', FA([i], Implies(And(Not(g.hyper), el.o <= i, i < el.o + n), And(A(el)[i] >= 0, A(el)[i] < g.nlv + g.ngv)), patterns=[A(el)[i]])),
           ('hyperedge ids are edges', FA([i], Implies(And(g.hyper, el.o <= i, i < el.o + n), And(A(el)[i] >= 0, A(el)[i] < g.nle(t))), patterns=[A(el)[i]])),
           ('pin degree list', Implies(g.hyper, And(owned(g, pdl, g.nle(t) + 1), g.pdl(t, IntVal(0)) == 0))),
           ('pin degree list monotone', FA([i, j], Implies(And(g.hyper, pdl.o <= i, i <= j, j <= pdl.o + g.nle(t)), A(pdl)[i] <= A(pdl)[j]), patterns=[MultiPattern(A(pdl)[i], A(pdl)[j])])),
           ('pin list', Implies(g.hyper, owned(g, pl, np_))),
           ('pins are vertices', FA([i], Implies(And(g.hyper, pl.o <= i, i < pl.o + np_), And(A(pl)[i] >= 0, A(pl)[i] < g.nlv + g.ngv)), patterns=[A(pl)[i]])),
           ]
    return out


def handle(g, l, t):
    """the public value of the handle of edge l of type t"""
    return 1 + t + g.nt * l



def lt(c, h=None, i=0):
    """edge index and type denoted by handle h.  When the function itself is verified these are universally
    quantified constants l, t with h = handle(l, t); at a call site they are quotient and remainder of h-1."""
    g = Gv(c.old, c.this)
    if h is None:
        h = c.args[i].o
    if not c.callsite:
        return Int('gh_l%d' % i), Int('gh_t%d' % i)
    q, r = c.ex.idiv(c.st, h - 1, g.nt, c.ex.INT64)
    return q, r


def decomp(c):
    return [(Int('gh_l0'), Int('gh_t0'))]


def edge_req(c, i=0):
    g = Gv(c.old, c.this)
    l, t = lt(c, None, i)
    return sizes(g) + wf_type(g, t) + [('argument is the handle of an edge', And(0 <= l, l < g.nle(t), c.args[i].o == handle(g, l, t)))]


def vtx_req(c, i=0, local=False, null=False):
    g = Gv(c.old, c.this)
    h = c.args[i].o
    return sizes(g) + [('argument is the handle of a %svertex' % ('local ' if local else ''), And(h >= (0 if null else 1), h <= (g.nlv if local else g.nlv + g.ngv)))]


def div_unique():
    a, b, q, r, l, t = Ints('a b q r l t')
    return Lemma('DIV-UNIQUE (quotient and remainder are unique)',
                 Implies(And(b > 0, a == b * q + r, r >= 0, r < b, a == b * l + t, t >= 0, t < b), And(q == l, r == t)))


# ---- finite sums: sum of n entries of an array from position o (defined by the two equations below)
SUMR = Function('sumr', ArraySort(IntSort(), RealSort()), IntSort(), IntSort(), RealSort())


def sumr(ex, A, o, n):
    """the sum, with the instances of its defining equations around n"""
    s = SUMR(A, o, n)
    ex.gfact(SUMR(A, o, IntVal(0)) == 0)
    ex.gfact(Implies(n > 0, s == SUMR(A, o, simplify(n - 1)) + A[simplify(o + n - 1)]))
    ex.gfact(Implies(n >= 0, SUMR(A, o, simplify(n + 1)) == s + A[simplify(o + n)]))
    return s


def gw_ptr(v, o):
    """data of the ghost weight tag (one entry per ghost vertex)"""
    return v.f(v.f(o, 'Ngraph.ghost_weights').b, 'Info.data')


def gw_at(v, o, k):
    return v.at('real', gw_ptr(v, o), k)


def gw_ok(v, o):
    t, d = v.f(o, 'Ngraph.ghost_weights'), gw_ptr(v, o)
    return And(t.b >= 1, t.o == 0, d.b >= 1, d.o == 0, 8 * v.f(o, G + 'num_ghost_verts') <= v.len(d.b))
