"""Contracts of tag data (agiInfo.h, agiTag.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from props.msg import *
from ctypes_ import T, INT
USES = ['access']
TG = 'agi/agiTag.cpp'
FILES = [TG, 'agi/agiIterate.cpp', 'agi/agiVertex.cpp', 'agi/agiEdge.cpp', 'agi/agi_typeconvert.cpp']
KIND = {'Int': ('int', 4), 'Double': ('real', 8), 'Long': ('long', 8)}
D = 'Info.data'


def dat(v, o):
    return v.f(o, D)


def room(v, d, i, by):
    """the tag has storage for entry i"""
    return And(d.b >= 1, d.o == 0, i >= 0, by * (i + 1) <= v.len(d.b))


def specs():
    out = []
    S = Spec
    A = out.append
    for K_, (e, by) in KIND.items():
        A(S('Info::get' + K_, TG, 'agi::Info::get' + K_, requires=lambda c, by=by: [('entry', room(c.old, dat(c.old, c.this), c.args[0], by))],
            ensures=lambda c, e=e: [('the stored value', c.ret == c.old.at(e, dat(c.old, c.this), c.args[0]))]))

        def set_post(c, e=e, i=0):
            k = Int('k!s')
            d = dat(c.old, c.this)
            a, b = c.new.arr(e, d.b), c.old.arr(e, d.b)
            return [('value stored', a[c.args[0]] == c.args[1]), ('other entries kept', FA([k], Implies(k != c.args[0], a[k] == b[k]), patterns=[a[k]]))]
        A(S('Info::set' + K_, TG, 'agi::Info::set' + K_, requires=lambda c, by=by: [('entry', room(c.old, dat(c.old, c.this), c.args[0], by))],
            modifies=lambda c, e=e: [('mem', e, dat(c.old, c.this).b)], ensures=set_post))
    A(S('Info::Info', TG, 'agi::Info::Info', nparams=2, requires=lambda c: [('size', And(c.args[0] >= 0, c.args[1] >= 1, c.args[0] * c.args[1] < LIM))],
        modifies=lambda c: [('alloc',), ('field', D, c.this), ('field', '__obj.__dyn', c.this)],
        ensures=lambda c: [('storage of the size', And(dat(c.new, c.this).b >= 1, dat(c.new, c.this).o == 0, dat(c.new, c.this).b >= c.old.ghost('alloc'), c.new.len(dat(c.new, c.this).b) == c.args[0] * c.args[1]))]))

    def tagobj(c):
        return [('tag', And(c.args[0].b >= 1, c.args[0].o == 0))]

    for K_, (e, by) in KIND.items():
        def vreq(c, by=by, ghosts=True):
            g = gv(c)
            h = c.args[1].o
            i = If(h - 1 >= g.nlv, h - 1 - g.nlv, h - 1) if ghosts else h - 1
            return tagobj(c) + vtx_req(c, 1, local=not ghosts) + [('entry', room(c.old, dat(c.old, c.args[0].b), i, by))]

        def vget(c, e=e):
            g = gv(c)
            h = c.args[1].o
            return [('value of this vertex', c.ret == c.old.at(e, dat(c.old, c.args[0].b), If(h - 1 >= g.nlv, h - 1 - g.nlv, h - 1)))]

        def ereq(c, by=by):
            l, t = lt(c, None, 1)
            return tagobj(c) + edge_req(c, 1) + [('entry', room(c.old, dat(c.old, c.args[0].b), l, by))]

        def store(idx):
            def post(c, e=e):
                k = Int('k!s')
                d = dat(c.old, c.args[0].b)
                a, b = c.new.arr(e, d.b), c.old.arr(e, d.b)
                i = idx(c)
                return [('value stored for this element', a[i] == c.args[2]), ('values of other elements kept', FA([k], Implies(k != i, a[k] == b[k]), patterns=[a[k]]))]
            return post
        dec = lambda c: [(Int('gh_l1'), Int('gh_t1'))]
        A(S('Ngraph::get%sTag(vertex)' % K_, TG, 'agi::Ngraph::get%sTag' % K_, sig='GraphVertex', modwrap=True, requires=vreq, ensures=vget))
        A(S('Ngraph::get%sTag(edge)' % K_, TG, 'agi::Ngraph::get%sTag' % K_, sig='GraphEdge', modwrap=True, decomp=dec, requires=ereq,
            ensures=lambda c, e=e: [('value of this edge', c.ret == c.old.at(e, dat(c.old, c.args[0].b), lt(c, None, 1)[0]))]))
        A(S('Ngraph::set%sTag(vertex)' % K_, TG, 'agi::Ngraph::set%sTag' % K_, sig='GraphVertex', modwrap=True, requires=lambda c, f=vreq: f(c, ghosts=False),
            modifies=lambda c, e=e: [('mem', e, dat(c.old, c.args[0].b).b)], ensures=store(lambda c: c.args[1].o - 1)))
        A(S('Ngraph::set%sTag(edge)' % K_, TG, 'agi::Ngraph::set%sTag' % K_, sig='GraphEdge', modwrap=True, decomp=dec, requires=ereq,
            modifies=lambda c, e=e: [('mem', e, dat(c.old, c.args[0].b).b)], ensures=store(lambda c: lt(c, None, 1)[0])))

        def cnt(c):
            g = gv(c)
            return If(c.args[0] == -1, g.nlv, g.nle(c.args[0]))
        A(S('Ngraph::create%sTag' % K_, TG, 'agi::Ngraph::create%sTag' % K_,
            requires=lambda c, by=by: sizes(gv(c)) + [('type', Or(c.args[0] == -1, And(c.args[0] >= 0, c.args[0] < gv(c).nt, gv(c).nle(c.args[0]) >= 0))), ('size', by * cnt(c) < LIM)],
            modifies=lambda c: [('alloc',)],
            ensures=lambda c, by=by: [('a new tag', And(c.ret.b >= c.old.ghost('alloc'), c.ret.o == 0)),
                                      ('one entry per element of the type', And(dat(c.new, c.ret.b).b >= c.old.ghost('alloc'), dat(c.new, c.ret.b).o == 0, c.new.len(dat(c.new, c.ret.b).b) == by * cnt(c)))]))
        out.append(ghost_tag(K_, e, by))
    return out


def gv(c):
    return Gv(c.old, c.this)


CBI, CBR = Function('callback', IntSort(), IntSort()), Function('callback:real', IntSort(), RealSort())


def ghost_tag(K_, e, by):
    real = e == 'real'
    cb = CBR if real else CBI
    RX = RR if real else RV

    def vm(c):
        return c.old.sub(c.this, G + 'vtx_mapping')

    def W(c, gid):
        return c.old.val(vm(c), 'int')[gid]

    def M(c):
        return Int('gh_answers')

    def req(c):
        g, l = gv(c), Log(c.old)
        p1, p2 = l.ph + 1, l.ph + 2
        k = Int('k!r')
        H = c.old.has(vm(c))
        peers = Int('G_peers')
        return sizes(g) + pcu_idle(c) + [
            ('ids', And(owned(g, g.ptr('local_unmap'), g.nlv), owned(g, g.ptr('ghost_unmap'), g.ngv))),
            ('size', by * g.ngv < LIM),
            ('owners', And(owned(g, g.ptr('owners'), g.ngv), FA([k], Implies(And(0 <= k, k < g.ngv), And(g.ow(k) >= 0, g.ow(k) < peers)), patterns=[g.ow(k)]))),
            ('requests received name local vertices', FA([k], Implies(And(0 <= k, k < RN(p1)), And(RS(p1, k) >= 0, RZ(p1, k) == 8, H[RV(p1, k)], W(c, RV(p1, k)) >= 0, W(c, RV(p1, k)) < g.nlv)), patterns=[RS(p1, k)])),
            ('senders', And(senders(p1), senders(p2))),
            ('answers received name ghosts', And(M(c) >= 0, RN(p2) == 2 * M(c),
                 FA([k], Implies(And(0 <= k, k < RN(p2), k % 2 == 0), And(RS(p2, k) >= 0, RZ(p2, k) == 8, RZ(p2, k + 1) == by, H[RV(p2, k)], W(c, RV(p2, k)) >= g.nlv, W(c, RV(p2, k)) < g.nlv + g.ngv)), patterns=[RS(p2, k)]))),
            ('one answer per ghost', FA([k, Int('j!r')], Implies(And(0 <= k, k < Int('j!r'), Int('j!r') < RN(p2), k % 2 == 0, Int('j!r') % 2 == 0), W(c, RV(p2, k)) != W(c, RV(p2, Int('j!r')))), patterns=[MultiPattern(RV(p2, k), RV(p2, Int('j!r')))]))]

    def post(c):
        g, l, o = gv(c), Log(c.new), Log(c.old)
        p1, p2 = o.ph + 1, o.ph + 2
        k = Int('k!p')
        d = dat(c.new, c.ret.b)
        return pcu_done(c, 2) + [
            ('one request per ghost, to its owner', FA([k], Implies(And(0 <= k, k < g.ngv), l.item(o.n + k, g.ow(k), g.gu(k), 8)))),
            ('each request is answered to its sender with the value of the requested vertex',
                FA([k], Implies(And(0 <= k, k < RN(p1), RS(p1, k) >= 0), And(l.item(o.n + g.ngv + 2 * k, RS(p1, k), RV(p1, k), 8), l.item(o.n + g.ngv + 2 * k + 1, RS(p1, k), cb(W(c, RV(p1, k)) + 1), by, real))))),
            ('nothing else is sent', l.n == o.n + g.ngv + 2 * RN(p1)),
            ('one entry per ghost', And(c.ret.b >= c.old.ghost('alloc'), c.ret.o == 0, d.b >= c.old.ghost('alloc'), d.o == 0, c.new.len(d.b) == by * g.ngv)),
            ('the answer for a ghost is its tag value', FA([k], Implies(And(0 <= k, k < RN(p2), k % 2 == 0), c.new.at(e, d, W(c, RV(p2, k)) - g.nlv) == RX(p2, k + 1))))]

    def loops(L):
        g, l, o = Gv(L.old, L.c.this), Log(L.cur), Log(L.old)
        i0 = Log(L.init)
        p1, p2 = o.ph + 1, o.ph + 2
        k = Int('k!l')
        out = []
        for nm, ty, h in L.handles():
            if not ty.a.a.endswith('Iterator'):
                continue
            q = h - 1 - g.nlv
            out.append(('requests %s' % nm, And(0 <= q, q <= g.ngv, l.n == o.n + q)))
            out.append(('request items %s' % nm, FA([k], Implies(And(o.n <= k, k < o.n + q), l.item(k, g.ow(k - o.n), g.gu(k - o.n), 8)), patterns=[l.to[k], l.val[k], l.sz[k]])))
        for nm, ty, vid in L.objs():
            if ty.a != 'vector':
                continue
            n = L.cur.size(vid)
            a, b, v = L.cur.arr('int.1', vid), L.cur.arr('long.21', vid), L.cur.arr(e + '.22', vid)
            rec = lambda k: And(a[k] == RS(p1, k), b[k] == RV(p1, k), v[k] == cb(W(L.c, RV(p1, k)) + 1))
            out.append(('requests recorded %s' % nm, And(n == l.cur, l.cur <= RN(p1), l.cur >= 0, FA([k], Implies(And(0 <= k, k < n), rec(k)), patterns=[a[k], b[k], v[k], RS(p1, k)]))))
            out.append(('vector below', And(vid < L.cur.ghost('alloc'), vid >= 1)))
            for ni, i in L.locals():
                base = o.n + g.ngv
                out.append(('answers sent %s' % ni, And(0 <= i, i <= n, l.n == base + 2 * i)))
                out.append(('answer items %s' % ni, FA([k], Implies(And(0 <= k, k < i, RS(p1, k) >= 0), And(l.item(base + 2 * k, RS(p1, k), RV(p1, k), 8), l.item(base + 2 * k + 1, RS(p1, k), cb(W(L.c, RV(p1, k)) + 1), by, real))), patterns=[RS(p1, k)])))
        for nm, ty, p in L.ptrs():
            if ty.a.k != 'rec' or not ty.a.a.endswith('Info'):
                continue
            d = dat(L.cur, p.b)
            out.append(('tag object %s' % nm, And(p.o == 0, p.b >= L.old.ghost('alloc'), d.o == 0, d.b >= L.old.ghost('alloc'), L.cur.len(d.b) == by * g.ngv)))
            out.append(('answers stored %s' % nm, And(l.cur % 2 == 0, l.cur >= 0, l.cur <= RN(p2), FA([k], Implies(And(0 <= k, k < l.cur, k % 2 == 0), L.cur.at(e, d, W(L.c, RV(p2, k)) - g.nlv) == RX(p2, k + 1)), patterns=[RV(p2, k)]))))
        H0, H1, W0, W1 = L.old.has(vm(L.c)), L.cur.has(vm(L.c)), L.old.val(vm(L.c), 'int'), L.cur.val(vm(L.c), 'int')
        out.append(('ids kept', FA([k], And(H1[k] == H0[k], Implies(H0[k], W1[k] == W0[k])), patterns=[H1[k], W1[k]])))
        out.append(('phase one', And(l.ph == p1)))
        out.append(('phase two', And(l.ph == p2)))
        out.append(('packing', l.st == 1))
        out.append(('receiving', l.st == 2))
        out.append(('items kept', log_kept(l, i0, i0.n)))
        return out

    def indirect(ex, st, fv, argv, rt):
        h = argv[1]
        return cb(h.o if isinstance(h, P_) else ex.toint(h))
    return Spec('Ngraph::create%sGhostTag' % K_, TG, 'agi::Ngraph::create%sGhostTag' % K_, modwrap=True, requires=req, ensures=post, loops=[loops], indirect=indirect,
                modifies=lambda c: [('alloc',), ('has', '', vm(c)), ('val', 'int', vm(c))] + pcu_mod())


from sym import P as P_
