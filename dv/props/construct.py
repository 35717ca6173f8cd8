"""Contracts of graph construction (agiConstruct.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
USES = ['access', 'tag']
CO = 'agi/agiConstruct.cpp'
FILES = [CO, 'agi/agiTag.cpp', 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp']
PT = ('edge_unmap', 'edge_weights', 'degree_list', 'edge_list', 'pin_degree_list', 'pin_list', 'vev_offsets', 'vev_lists', 'eve_offsets', 'eve_lists')
P1 = ('local_weights', 'local_coords', 'local_unmap', 'ghost_unmap', 'owners', 'original_owners')


def S(*a, **k):
    return Spec(*a, **k)


def null(p):
    return And(p.b == 0, p.o == 0)


def vmap(c, v):
    return v.sub(c.this, G + 'vtx_mapping')


def nulls(c, v):
    g = Gv(v, c.this)
    return [('no %s' % n, null(g.ptr(n))) for n in P1] + [('no %s of any type' % n, And(*[null(g.ptr(n, IntVal(t))) for t in range(7)])) for n in PT] + \
        [('no ghost weights', null(v.f(c.this, 'Ngraph.ghost_weights')))]


def maps_mod(c, wp=True):
    return [('has', '', c.old.sub(c.this, G + 'vtx_mapping'))] + [('has', '', c.old.sub(c.this, G + 'edge_mapping', IntVal(t))) for t in range(7)] + ([('has', '', c.old.sub(c.this, 'Ngraph.wp_map'))] if wp else [])


def maps_empty(c):
    k = Int('k!e')
    return [('no known vertices', FA([k], Not(c.new.has(vmap(c, c.new))[k]))),
            ('no known edges', FA([k], And(*[Not(c.new.has(c.new.sub(c.this, G + 'edge_mapping', IntVal(t)))[k]) for t in range(7)])))]


def null_mod(c):
    return maps_mod(c) + [('field', G + n, c.this) for n in P1 + PT] + [('field', 'Ngraph.ghost_weights', c.this)]


def coll(c, f, x):
    return Function('coll:' + f, IntSort(), IntSort(), IntSort())(c.old.ghost('G:ncoll'), x)


def known(v, o, arr, off, n, base=0):
    """the id map knows exactly the first n entries of arr, each under its own position"""
    x, k = Ints('x!k k!k')
    H, W = v.has(v.sub(o, G + 'vtx_mapping')), v.val(v.sub(o, G + 'vtx_mapping'), 'int')
    return [('known ids map to their position', FA([x], Implies(H[x], And(0 <= W[x], W[x] < n, arr[off + W[x]] == x)), patterns=[H[x]])),
            ('every id so far is known', FA([k], Implies(And(off <= k, k < off + n), H[arr[k]]), patterns=[arr[k]]))]


def verts_loop(ids):
    def f(L):
        c = L.c
        a, off = ids(c, L.old)
        g = Gv(L.cur, c.this)
        out = []
        for nm, i in L.locals():
            out.append(('counter %s' % nm, And(i >= 0, i <= g.nlv)))
            out += [(n + ' ' + nm, f) for n, f in known(L.cur, c.this, a, off, i)]
        return out
    return f


def verts_spec(ids, n, w, extra):
    """ids(c, view) -> (array, offset); n(c); w(c, i): given weight"""
    def post(c):
        g = Gv(c.new, c.this)
        a, off = ids(c, c.old)
        k = Int('k!p')
        x = Int('x!p')
        H, W = c.new.has(vmap(c, c.new)), c.new.val(vmap(c, c.new), 'int')
        return [('mode', g.hyper == c.args[0]), ('number of vertices', And(g.nlv == n(c), g.ngv == 0, g.nt == 0)),
                ('every vertex has its id', And(owned(g, g.ptr('local_unmap'), g.nlv), FA([k], Implies(And(0 <= k, k < g.nlv), g.lu(k) == a[off + k])))),
                ('every vertex has its weight', And(owned(g, g.ptr('local_weights'), g.nlv), FA([k], Implies(And(0 <= k, k < g.nlv), g.lw(k) == w(c, k))))),
                ('every id maps to its vertex', FA([k], Implies(And(off <= k, k < off + g.nlv), And(H[a[k]], W[a[k]] == k - off)))),
                ('no other id is known', FA([x], Implies(H[x], And(0 <= W[x], W[x] < g.nlv, a[off + W[x]] == x)))),
                ('global count', c.new.f(c.this, G + 'num_global_verts') == coll(c, 'PCU_Add_Long', g.nlv))] + \
            [(nm, f) for nm, f in nulls(c, c.new) if 'local_unmap' not in nm and 'local_weights' not in nm]

    def req(c):
        a, off = ids(c, c.old)
        i, j = Ints('i!r j!r')
        return extra(c) + [('ids differ', FA([i, j], Implies(And(off <= i, i < j, j < off + n(c)), a[i] != a[j]), patterns=[MultiPattern(a[i], a[j])]))]
    return dict(requires=req, ensures=post, loops=[verts_loop(ids)],
                modifies=lambda c: null_mod(c) + [('alloc',), ('val', 'int', vmap(c, c.old))] + [('field', G + x, c.this) for x in ('isHyperGraph', 'num_types', 'num_local_verts', 'num_ghost_verts', 'num_global_verts')])


# ---------------- edges.  The input is described by functions of its position:
# OFF(i) offset of edge i's first pin, EIX(j) the edge of pin j, CNT(u,j) how many of the first j listed connections start at
# local vertex u, DEG(u) how many start at a vertex before u.  Their defining equations and the consequences used
# (each proved by induction from them, steps in LEMMAS) are stated as facts of the precondition.
I_ = IntSort()
OFF, EIX = Function('pin_offset', I_, I_), Function('edge_of_pin', I_, I_)
CNT, DEG = Function('count', I_, I_, I_), Function('offset_of', I_, I_)


class In:
    """inputs of constructEdges: identifiers, degrees, pins, weights"""

    def __init__(self, c):
        v = c.old
        if len(c.args) == 4:
            ids, degs, pins, w = [x.id for x in c.args]
            self.ids, self.degs, self.pins, self.w = v.arr('long', ids), v.arr('int', degs), v.arr('long', pins), v.arr('real', w)
            self.n, self.weighted = v.size(ids), v.size(w) > 0
            self.ok = [('inputs', And(self.n >= 0, v.size(degs) == self.n, v.size(pins) == OFF(self.n), Or(v.size(w) == 0, v.size(w) == self.n)))]
        else:
            n, ids, degs, pins, w = c.args
            self.ids, self.degs, self.pins, self.w = v.arr('long', ids.b), v.arr('int', degs.b), v.arr('long', pins.b), v.arr('real', w.b)
            self.n, self.weighted = n, Not(null(w))
            ln = lambda p, m: And(p.b >= 1, p.o == 0, v.len(p.b) >= m)
            self.ok = [('inputs', And(n >= 0, ln(ids, n), ln(degs, n), ln(pins, OFF(n)), Or(null(w), ln(w, n))))]
        self.np = OFF(self.n)
        self.hyper = v.f(c.this, G + 'isHyperGraph')
        self.g = Gv(v, c.this)
        self.t = self.g.nt

    def counted(self, j):
        return Or(self.hyper, j % 2 == 0)

    def starts(self, u, j):
        """pin j is counted for local vertex u"""
        return And(self.counted(j), self.pins[j] == self.g.lu(u))

    def facts(self):
        i, j, u, w = Ints('i!d j!d u!d w!d')
        n, np, nlv = self.n, self.np, self.g.nlv
        return [('offsets', And(OFF(IntVal(0)) == 0, np >= 0, np < LIM, n < LIM)),
                ('offsets are prefix sums', FA([i], Implies(And(0 <= i, i < n), And(self.degs[i] >= 0, OFF(i + 1) == OFF(i) + self.degs[i], OFF(i) >= 0, OFF(i + 1) <= np)), patterns=[self.degs[i]])),
                ('pairs', Implies(Not(self.hyper), And(FA([i], Implies(And(0 <= i, i < n), self.degs[i] == 2), patterns=[self.degs[i]]), FA([i], Implies(And(0 <= i, i <= n), OFF(i) == 2 * i), patterns=[OFF(i)])))),
                ('edge of a pin', FA([i, j], Implies(And(0 <= i, i < n, OFF(i) <= j, j < OFF(i) + self.degs[i]), EIX(j) == i), patterns=[MultiPattern(OFF(i), EIX(j))])),
                ('counts', FA([u], And(CNT(u, IntVal(0)) == 0, CNT(u, np) >= 0), patterns=[CNT(u, IntVal(0))])),
                ('counts do not decrease', FA([u, j], Implies(And(0 <= j, j <= np), And(CNT(u, j) >= 0, CNT(u, j) <= CNT(u, np))), patterns=[CNT(u, j)])),
                ('counts grow at a start', FA([u, j, w], Implies(And(0 <= u, u < nlv, 0 <= j, j < w, w <= np, self.starts(u, j)), CNT(u, j) + 1 <= CNT(u, w)), patterns=[MultiPattern(CNT(u, j), CNT(u, w))])),
                ('positions', And(DEG(IntVal(0)) == 0, DEG(nlv) >= 0, DEG(nlv) <= np)),
                ('positions are prefix sums', FA([u], Implies(And(0 <= u, u < nlv), And(DEG(u + 1) == DEG(u) + CNT(u, np), DEG(u) >= 0, DEG(u + 1) <= DEG(nlv))), patterns=[CNT(u, np)])),
                ('positions do not decrease', FA([u, w], Implies(And(0 <= u, u < w, w <= nlv), DEG(u) + CNT(u, np) <= DEG(w)), patterns=[MultiPattern(DEG(u), DEG(w))])),
                ('at most one start per traditional edge', Implies(Not(self.hyper), DEG(nlv) <= n))]

    def step(self, ex, j):
        """the defining equation of CNT at position j"""
        u = Int('u!s')
        e = FA([u], Implies(And(0 <= u, u < self.g.nlv, 0 <= j, j < self.np), CNT(u, simplify(j + 1)) == CNT(u, j) + If(self.starts(u, j), IntVal(1), IntVal(0))), patterns=[CNT(u, j), CNT(u, simplify(j + 1))])
        ex.gfact(e)


def maps_inv(v, o, known0=None, nlv0=None):
    """the identifier map of the vertices: local vertices, then ghosts, one identifier each"""
    g = Gv(v, o)
    vm = v.sub(o, G + 'vtx_mapping')
    H, W = v.has(vm), v.val(vm, 'int')
    x, y, k = Ints('x!m y!m k!m')
    lu = g.ptr('local_unmap')
    la = v.arr('long', lu.b)
    return [('known ids are numbered', FA([x], Implies(H[x], And(0 <= W[x], W[x] < g.nlv + g.ngv)), patterns=[W[x]])),
            ('local numbers', FA([x], Implies(And(H[x], W[x] < g.nlv), g.lu(W[x]) == x), patterns=[W[x]])),
            ('one id per number', FA([x, y], Implies(And(H[x], H[y], W[x] == W[y]), x == y), patterns=[MultiPattern(W[x], W[y])])),
            ('local ids', FA([k], Implies(And(lu.o <= k, k < lu.o + g.nlv), And(H[la[k]], W[la[k]] == k - lu.o)), patterns=[la[k]]))]


def edge_loops(L):
    c, ex = L.c, L.ex
    q = In(c)
    v0, v, vi = L.old, L.cur, L.init
    g0, g, gi = q.g, Gv(v, c.this), Gv(vi, c.this)
    t, nlv = q.t, q.g.nlv
    vm = v.sub(c.this, G + 'vtx_mapping')
    H, W, H0, W0, INV = v.has(vm), v.val(vm, 'int'), v0.has(vm), v0.val(vm, 'int'), v.ghost('G:inv')[vm]
    changed = lambda x, y: not simplify(x).eq(simplify(y))
    dl, pl, el, ew, pdl = [g.ptr(n, t) for n in ('degree_list', 'pin_list', 'edge_list', 'edge_weights', 'pin_degree_list')]
    gu, gu0 = g.ptr('ghost_unmap'), g0.ptr('ghost_unmap')
    A = lambda e, p: v.arr(e, p.b)
    D, PL, EL, EW, PD, GU = A('int', dl), A('int', pl), A('int', el), A('real', ew), A('int', pdl), A('long', gu)
    GU0 = v0.arr('long', gu0.b)
    x, k, j, u = Ints('x!l k!l j!l u!l')
    out = []
    # which part of the function a loop belongs to is read off the arrays it can see
    has_edges = changed(g.ptr('edge_weights', t).b, g0.ptr('edge_weights', t).b)
    has_pins = changed(pl.b, g0.ptr('pin_list', t).b)
    mod = L.extra['memmod']
    maps = 'H:val:int' in mod
    # what the loop leaves alone
    for nm, e, p in [('D', 'int', dl), ('PL', 'int', pl), ('PD', 'int', pdl), ('EL', 'int', el), ('EW', 'real', ew), ('GU', 'long', gu)]:
        if 'M:' + e in mod:
            out.append(('array kept %s' % nm, A(e, p) == vi.arr(e, p.b)))
    cnt = []     # (name, value, counts edges from a constant)
    for nm, a, a0 in L.ints():
        if nm not in ('new_ghosts',) and any(n2 == nm for n2, _ in L.locals()):
            cnt.append((nm, a, is_int_value(simplify(a0))))
    if maps:
        out += list(maps_inv(v, c.this))
        out += [('old ids kept', FA([x], Implies(H0[x], And(H[x], W[x] == W0[x])), patterns=[W[x], H[x]])),
                ('new ids are ghosts', FA([x], Implies(And(H[x], Not(H0[x])), W[x] >= nlv + g0.ngv), patterns=[W[x], H[x]])),
                ('ghosts only grow', And(g.ngv >= g0.ngv, g.nlv == nlv)),
                ('new numbers have an id', FA([k], Implies(And(nlv + g0.ngv <= k, k < nlv + g.ngv), And(H[INV[k]], W[INV[k]] == k, Not(H0[INV[k]]))), patterns=[INV[k]]))]
        for nm, a in L.locals():
            if nm == 'new_ghosts':
                out.append(('new ghosts %s' % nm, a == g.ngv - g0.ngv))
    whole = has_pins and (has_edges or maps)
    for nm, a, const in cnt:
        if not whole:
            out.append(('range %s' % nm, And(a >= 0, a <= q.n)))
            out.append(('vertices %s' % nm, And(a >= 0, a <= nlv + 1)))
            out.append(('nghosts %s' % nm, And(a >= 0, a <= g0.ngv)))
            if has_pins and not has_edges:
                out.append(('summed up to %s' % nm, And(1 <= a, a <= nlv + 1, FA([k], Implies(And(0 <= k, k < a), D[k] == DEG(k)), patterns=[D[k]]), FA([k], Implies(And(a <= k, k <= nlv), D[k] == CNT(k - 1, q.np)), patterns=[D[k]]))))
            if not has_pins:
                out.append(('pins counted up to %s' % nm, g.nlp(t) == OFF(a)))
            continue
        if const:
            out.append(('edge %s' % nm, And(0 <= a, a <= q.n, OFF(a) <= q.np, OFF(a) >= 0)))
            if maps:
                out.append(('offsets up to %s' % nm, FA([k], Implies(And(0 <= k, k <= a), PD[k] == OFF(k)), patterns=[PD[k]])))
                em = v.sub(c.this, G + 'edge_mapping', t)
                EU = A('long', g.ptr('edge_unmap', t))
                out.append(('edge ids up to %s' % nm, FA([k], Implies(And(0 <= k, k < a), And(EU[k] == q.ids[k], v.has(em)[q.ids[k]], v.val(em, 'int')[q.ids[k]] == k)), patterns=[EU[k], q.ids[k]])))
            if has_edges:
                out.append(('unit weights up to %s' % nm, FA([k], Implies(And(0 <= k, k < a), EW[k] == 1), patterns=[EW[k]])))
                out.append(('given weights up to %s' % nm, FA([k], Implies(And(0 <= k, k < a), EW[k] == q.w[k]), patterns=[EW[k]])))
        else:
            for nm2, b in L.locals():
                if nm2 != nm and nm2 not in ('new_ghosts', 't'):
                    out.append(('pin %s of edge %s' % (nm, nm2), And(0 <= b, b < q.n, OFF(b) <= a, a <= OFF(b) + q.degs[b], a <= q.np)))
                    out.append(('even pin %s of edge %s' % (nm, nm2), Implies(Not(q.hyper), Or(a == OFF(b), a == OFF(b) + 2))))
        p = OFF(a) if const else a
        q.step(ex, p)
        q.step(ex, simplify(p - 1))
        if maps:
            out.append(('degrees of the pins before %s' % nm, And(D[0] == 0, FA([k], Implies(And(1 <= k, k <= nlv), D[k] == CNT(k - 1, p)), patterns=[D[k]]))))
            out.append(('pins before %s' % nm, FA([j], Implies(And(0 <= j, j < p), And(PL[j] == W[q.pins[j]], H[q.pins[j]])), patterns=[PL[j], q.pins[j]])))
            out.append(('new ids come from pins before %s' % nm, FA([x], Implies(And(H[x], Not(H0[x])), Exists([j], And(0 <= j, j < p, q.pins[j] == x))), patterns=[W[x], H[x]])))
        elif has_edges:
            out.append(('ghost ids before %s' % nm, FA([j], Implies(And(0 <= j, j < p, PL[j] >= nlv), GU[PL[j] - nlv] == q.pins[j]), patterns=[PL[j], q.pins[j]])))
            out.append(('old ghost ids kept %s' % nm, FA([k], Implies(And(0 <= k, k < g0.ngv), GU[k] == GU0[k]), patterns=[GU[k]])))
            for nm2, ty, tc in L.ptrs():
                if repr(ty) == 'ptr(int)':
                    T_ = A('int', tc)
                    out.append(('next positions %s %s' % (nm2, nm), And(tc.o == 0, FA([u], Implies(And(0 <= u, u < nlv), T_[u] == DEG(u) + CNT(u, p)), patterns=[T_[u]]))))
            out.append(('edge list before %s' % nm, FA([u, j], Implies(And(0 <= u, u < nlv, 0 <= j, j < p, q.starts(u, j)), EL[DEG(u) + CNT(u, j)] == If(q.hyper, EIX(j), PL[j + 1])), patterns=[CNT(u, j)])))
            out.append(('edge weights before %s' % nm, Implies(And(Not(q.hyper), q.weighted), FA([u, j], Implies(And(0 <= u, u < nlv, 0 <= j, j < p, q.starts(u, j)), EW[DEG(u) + CNT(u, j)] == q.w[EIX(j)]), patterns=[CNT(u, j)]))))
    if not whole and has_pins and changed(gu.b, gu0.b) is False:
        for nm, a, const in cnt:
            for nm2, ty, p in L.ptrs():
                if repr(ty) == 'ptr(long)':
                    T_ = v.arr('long', p.b)
                    out.append(('old ghost ids copied %s %s' % (nm2, nm), FA([k], Implies(And(0 <= k, k < a), T_[k] == GU0[k]), patterns=[T_[k]])))
    return out


def edges_spec():
    def req(c):
        q = In(c)
        g = q.g
        i, j = Ints('i!r j!r')
        gu = g.ptr('ghost_unmap')
        vm = vmap(c, c.old)
        return sizes(g) + [('room for a type', g.nt < 7)] + q.ok + q.facts() + maps_inv(c.old, c.this) + [
            ('ids', owned(g, g.ptr('local_unmap'), g.nlv)), ('ghost ids', Or(And(null(gu), g.ngv == 0), owned(g, gu, g.ngv))),
            ('total', g.nlv + g.ngv + q.np < LIM),
            ('ghost ids are known', FA([i], Implies(And(0 <= i, i < g.ngv), And(c.old.has(vm)[g.gu(i)], c.old.val(vm, 'int')[g.gu(i)] == g.nlv + i)), patterns=[g.gu(i)])),
            ('edge ids differ', FA([i, j], Implies(And(0 <= i, i < j, j < q.n), q.ids[i] != q.ids[j]), patterns=[MultiPattern(q.ids[i], q.ids[j])])),
            ('known edges', FA([i], Not(c.old.has(c.old.sub(c.this, G + 'edge_mapping', q.t))[i])))]

    def post(c):
        q = In(c)
        v, v0 = c.new, c.old
        g0, g = q.g, Gv(c.new, c.this)
        t = q.t
        x, k, j, u = Ints('x!p k!p j!p u!p')
        vm = vmap(c, v)
        H, W, H0, W0 = v.has(vm), v.val(vm, 'int'), v0.has(vm), v0.val(vm, 'int')
        em = v.sub(c.this, G + 'edge_mapping', t)
        return [('type', And(c.ret == t, g.nt == t + 1)), ('edge and pin counts', And(g.nle(t) == If(q.hyper, q.n, q.np / 2), g.nlp(t) == q.np)),
                ('edge ids', And(owned(g, g.ptr('edge_unmap', t), q.n), FA([k], Implies(And(0 <= k, k < q.n), And(g.eu(t, k) == q.ids[k], v.has(em)[q.ids[k]], v.val(em, 'int')[q.ids[k]] == k))))),
                ('pin offsets', And(owned(g, g.ptr('pin_degree_list', t), q.n + 1), FA([k], Implies(And(0 <= k, k <= q.n), g.pdl(t, k) == OFF(k))))),
                ('every pin is the vertex it was given', And(owned(g, g.ptr('pin_list', t), q.np), FA([j], Implies(And(0 <= j, j < q.np), And(H[q.pins[j]], g.pl(t, j) == W[q.pins[j]]))))),
                ('vertex ranges', And(owned(g, g.ptr('degree_list', t), g.nlv + 1), FA([k], Implies(And(0 <= k, k <= g.nlv), g.dl(t, k) == DEG(k))))),
                ('every vertex lists the edges that start at it', FA([u, j], Implies(And(0 <= u, u < g.nlv, 0 <= j, j < q.np, q.starts(u, j)), g.el(t, DEG(u) + CNT(u, j)) == If(q.hyper, EIX(j), g.pl(t, j + 1))))),
                ('weights of hyperedges', Implies(q.hyper, FA([k], Implies(And(0 <= k, k < q.n), g.ew(t, k) == If(q.weighted, q.w[k], RealVal(1)))))),
                ('weights of traditional edges', Implies(And(Not(q.hyper), q.weighted), FA([u, j], Implies(And(0 <= u, u < g.nlv, 0 <= j, j < q.np, q.starts(u, j)), g.ew(t, DEG(u) + CNT(u, j)) == q.w[EIX(j)])))),
                ('unit weights', Implies(And(Not(q.hyper), Not(q.weighted)), FA([k], Implies(And(0 <= k, k < q.n), g.ew(t, k) == 1)))),
                ('known ids kept', FA([x], Implies(H0[x], And(H[x], W[x] == W0[x])))),
                ('new ids occur in the edges', FA([x], Implies(And(H[x], Not(H0[x])), Exists([j], And(0 <= j, j < q.np, q.pins[j] == x))))),
                ('ghost ids', And(Implies(g.ngv > 0, owned(g, g.ptr('ghost_unmap'), g.ngv)), FA([k], Implies(And(0 <= k, k < g0.ngv), g.gu(k) == g0.gu(k))),
                                  FA([k], Implies(And(g0.ngv <= k, k < g.ngv), And(H[g.gu(k)], W[g.gu(k)] == g.nlv + k, Not(H0[g.gu(k)])))))),
                ('vertices kept', And(g.nlv == g0.nlv, g.ngv >= g0.ngv))] + maps_inv(v, c.this)
    return dict(auto=r'^(old-|cond)|(>=init|>=0|\.base|==init)$', requires=req, ensures=post, loops=[edge_loops], mapinv=True,
                modifies=lambda c: [('alloc',), ('ghost', 'G:inv'), ('mem', 'long', Gv(c.old, c.this).ptr('ghost_unmap').b), ('has', '', vmap(c, c.old)), ('val', 'int', vmap(c, c.old)), ('has', '', c.old.sub(c.this, G + 'edge_mapping', In(c).t)), ('val', 'int', c.old.sub(c.this, G + 'edge_mapping', In(c).t)),
                                    ('field', G + 'num_types', c.this), ('field', G + 'num_ghost_verts', c.this), ('field', G + 'ghost_unmap', c.this)] +
                [('field', G + x, c.this, In(c).t) for x in ('degree_list', 'num_local_edges', 'num_local_pins', 'edge_unmap', 'pin_degree_list', 'pin_list', 'edge_list', 'edge_weights')])


def specs():
    out = []
    A = out.append
    A(S('Ngraph::constructEdges(v)', CO, 'agi::Ngraph::constructEdges', sig='vector', **edges_spec()))
    A(S('Ngraph::constructEdges(a)', CO, 'agi::Ngraph::constructEdges', nparams=5, **edges_spec()))
    A(S('Ngraph::Ngraph', CO, 'agi::Ngraph::Ngraph', nparams=0,
        modifies=lambda c: null_mod(c) + [('alloc',)] + [('field', G + n, c.this) for n in ('isHyperGraph', 'num_types', 'num_global_verts', 'num_local_verts', 'num_ghost_verts', 'num_global_edges', 'num_local_edges', 'num_global_pins', 'num_local_pins')],
        ensures=lambda c: nulls(c, c.new) + maps_empty(c) + [('empty', And(Gv(c.new, c.this).nlv == 0, Gv(c.new, c.this).ngv == 0, Gv(c.new, c.this).nt == 0, c.new.f(c.this, G + 'num_global_verts') == 0))] +
        [('no edges of any type', And(*[c.new.fi(c.this, G + n, IntVal(t)) == 0 for n in ('num_global_edges', 'num_local_edges', 'num_global_pins', 'num_local_pins') for t in range(7)]))]))
    A(S('Ngraph::destroyTag', 'agi/agiTag.cpp', 'agi::Ngraph::destroyTag'))
    A(S('Ngraph::destroyData', CO, 'agi::Ngraph::destroyData',
        modifies=lambda c: null_mod(c),
        ensures=lambda c: nulls(c, c.new) + maps_empty(c)))
    vec = lambda c, i: c.old.size(c.args[i].id)
    A(S('Ngraph::constructVerts(v)', CO, 'agi::Ngraph::constructVerts', sig='vector',
        **verts_spec(lambda c, v: (v.arr('long', c.args[1].id), IntVal(0)), lambda c: vec(c, 1),
                     lambda c, i: If(i < vec(c, 2), c.old.arr('real', c.args[2].id)[i], RealVal(1)),
                     lambda c: [('count', And(vec(c, 1) >= 0, vec(c, 1) < LIM, vec(c, 2) >= 0, vec(c, 2) < LIM))])))
    A(S('Ngraph::constructVerts(a)', CO, 'agi::Ngraph::constructVerts', sig='lid_t',
        **verts_spec(lambda c, v: (v.arr('long', c.args[2].b), c.args[2].o), lambda c: c.args[1],
                     lambda c, i: If(null(c.args[3]), RealVal(1), c.old.at('real', c.args[3], i)),
                     lambda c: [('count', And(c.args[1] >= 0, c.args[1] < LIM)), ('ids', And(c.args[2].b >= 1, c.args[2].o == 0, c.old.len(c.args[2].b) >= c.args[1])),
                                ('weights', Or(null(c.args[3]), And(c.args[3].b >= 1, c.args[3].o == 0, c.old.len(c.args[3].b) >= c.args[1])))])))
    return out
