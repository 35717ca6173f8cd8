"""The steps of a collective (pcu_coll.c): what one step sends, receives and merges, for any pattern and merge function."""
from z3 import *
import sym
from spec import Spec, Lemma
from util import FA
from sym import P

C = 'pcu/pcu_coll.c'
FILES = [C, 'pcu/pcu_mpi.c', 'pcu/pcu_buffer.c']
I_ = IntSort()
sym.INTERIOR.add('pcu_coll.pattern')      # points at one of the static pattern records
GHOSTS = {'G:nsend': I_, 'G:speer': I_, 'G:sstart': I_, 'G:ssize': I_, 'G:nrecv': I_, 'G:rpeer': I_, 'G:nmerge': I_, 'G:mfn': I_, 'G:mlocal': I_,
          'G:mlocalo': I_, 'G:minc': I_, 'G:msize': I_, 'G:nstep': I_, 'G:rstart': I_, 'G:rsize': I_}
SEND, RECV, IDLE = 0, 1, 2
APP = Function('pattern_int', I_, I_, I_)       # value of a pattern function (identified by its pointer) at a bit
APPB = Function('pattern_bool', I_, I_, BoolSort())
APP0 = Function('pattern_begin', I_, I_)


def indirect(ex, st, fv, argv, rt):
    """call through one of the pattern's function pointers, or through the merge pointer"""
    if len(argv) == 0:
        return APP0(fv.b)
    if len(argv) == 1:
        r = APPB(fv.b, argv[0]) if rt.k == 'bool' else APP(fv.b, argv[0])
        return r
    # merge(local, incoming, size): record the event
    n = ex.getmem(st, 'G:nmerge')
    ex.setmem(st, 'G:nmerge', n + 1)
    for g, v in (('G:mfn', fv.b), ('G:mlocal', argv[0].b), ('G:mlocalo', argv[0].o), ('G:minc', argv[1].b), ('G:msize', argv[2])):
        ex.setmem(st, g, v)
    return None


class Coll:
    def __init__(self, v, c):
        self.v = v
        self.o = c
        self.pat = v.f(c, 'pcu_coll.pattern')
        self.bit = v.f(c, 'pcu_coll.bit')
        self.merge = v.f(c, 'pcu_coll.merge')
        self.msg = v.sub(c, 'pcu_coll.message')
        self.buf = v.sub(self.msg, 'pcu_message.buffer')
        self.start = v.f(self.buf, 'pcu_buffer.start')
        self.size = v.f(self.buf, 'pcu_buffer.size')

    def fn(self, n):
        return self.v.f(self.pat.b, 'pcu_pattern.' + n).b

    def action(self, bit=None):
        return APP(self.fn('action'), self.bit if bit is None else bit)

    def peer(self, bit=None):
        return APP(self.fn('peer'), self.bit if bit is None else bit)

    def end(self, bit=None):
        return APPB(self.fn('end_bit'), self.bit if bit is None else bit)

    def shift(self):
        return APP(self.fn('shift'), self.bit)


def g(v, n):
    return v.ghost('G:' + n)


def req(c):
    k = Coll(c.old, c.args[0].b)
    return [('object', And(c.args[0].b >= 1, c.args[0].o == 0, k.pat.o == 0, Or(k.pat.b >= 1, k.pat.b < 0), k.pat.b != c.args[0].b))]


def begin_post(c, bit=None, k=None):
    """a step at `bit` has begun: the message was sent to the partner iff the action is send"""
    k = k or Coll(c.old, c.args[0].b)
    n = Coll(c.new, c.args[0].b)
    a = k.action(bit)
    snd = a == SEND
    return [('sends exactly in a sending step', g(c.new, 'nsend') == g(c.old, 'nsend') + If(snd, 1, 0)),
            ('to the partner of the step, the local data', Implies(snd, And(g(c.new, 'speer') == k.peer(bit), g(c.new, 'sstart') == n.start.b, g(c.new, 'ssize') == n.size))),
            ]


def specs():
    out = []

    def A(nm, q=None, **kw):
        out.append(Spec('step:' + nm, C, q or nm, indirect=indirect, **kw))
    MSGF = lambda c: [('field', 'pcu_message.peer', Coll(c.old, c.args[0].b).msg)]
    # dependencies
    out.append(Spec('step:pcu_mpi_send', C, 'pcu_mpi_send', assumed=True, requires=lambda c: [('message', c.args[0].b != 0)],
                    modifies=lambda c: [('ghost', x) for x in ('G:nsend', 'G:speer', 'G:sstart', 'G:ssize')],
                    ensures=lambda c: [('event', And(g(c.new, 'nsend') == g(c.old, 'nsend') + 1, g(c.new, 'speer') == c.old.f(c.args[0].b, 'pcu_message.peer'),
                                        g(c.new, 'sstart') == c.old.f(c.old.sub(c.args[0].b, 'pcu_message.buffer'), 'pcu_buffer.start').b,
                                        g(c.new, 'ssize') == c.old.f(c.old.sub(c.args[0].b, 'pcu_message.buffer'), 'pcu_buffer.size')))]))
    out.append(Spec('step:pcu_mpi_done', C, 'pcu_mpi_done', assumed=True, requires=lambda c: [('message', c.args[0].b != 0)]))
    rb = lambda c: c.old.sub(c.args[0].b, 'pcu_message.buffer')
    out.append(Spec('step:pcu_mpi_receive', C, 'pcu_mpi_receive', assumed=True, requires=lambda c: [('message', c.args[0].b != 0)],
                    modifies=lambda c: [('ghost', x) for x in ('G:nrecv', 'G:rpeer', 'G:rstart', 'G:rsize')] + [('field', 'pcu_buffer.start', rb(c)), ('field', 'pcu_buffer.size', rb(c)), ('field', 'pcu_buffer.capacity', rb(c))],
                    ensures=lambda c: [('event', g(c.new, 'nrecv') == g(c.old, 'nrecv') + If(c.ret, 1, 0)), ('source', Implies(c.ret, g(c.new, 'rpeer') == c.old.f(c.args[0].b, 'pcu_message.peer'))),
                                       ('data', Implies(c.ret, And(g(c.new, 'rstart') == c.new.f(rb(c), 'pcu_buffer.start').b, g(c.new, 'rsize') == c.new.f(rb(c), 'pcu_buffer.size'))))]))
    out.append(Spec('step:pcu_make_message', 'pcu/pcu_mpi.c', 'pcu_make_message', requires=lambda c: [('message', And(c.args[0].b != 0, c.args[0].o == 0))],
                    modifies=lambda c: [('field', 'pcu_buffer.start', rb(c)), ('field', 'pcu_buffer.size', rb(c)), ('field', 'pcu_buffer.capacity', rb(c))]))
    out.append(Spec('step:pcu_free_message', 'pcu/pcu_mpi.c', 'pcu_free_message', requires=lambda c: [('message', And(c.args[0].b != 0, c.args[0].o == 0))],
                    modifies=lambda c: [('field', 'pcu_buffer.start', rb(c)), ('field', 'pcu_buffer.size', rb(c)), ('field', 'pcu_buffer.capacity', rb(c))]))
    sends = [('ghost', x) for x in ('G:nsend', 'G:speer', 'G:sstart', 'G:ssize')]
    A('begin_coll_step', requires=req, modifies=lambda c: MSGF(c) + sends, ensures=begin_post)
    MERGE = [('ghost', x) for x in ('G:nmerge', 'G:mfn', 'G:mlocal', 'G:mlocalo', 'G:minc', 'G:msize')] + [('ghost', x) for x in ('G:nrecv', 'G:rpeer', 'G:rstart', 'G:rsize')]
    allbuf = [('alloc',)]

    def end_post(c):
        k = Coll(c.old, c.args[0].b)
        a = k.action()
        o, n = c.old, c.new
        got = And(a == RECV, c.ret)
        rcv = And(a != IDLE, a != SEND)
        return [('an idle step is over at once', Implies(a == IDLE, c.ret)),
                ('receives only in a receiving step', Implies(Not(rcv), And(g(n, 'nrecv') == g(o, 'nrecv'), g(n, 'nmerge') == g(o, 'nmerge')))),
                ('a receiving step is over exactly when the message has come', Implies(rcv, g(n, 'nrecv') == g(o, 'nrecv') + If(c.ret, 1, 0))),
                ('merges each received message exactly once', Implies(rcv, g(n, 'nmerge') == g(o, 'nmerge') + If(c.ret, 1, 0))),
                ('receives from the partner of the step', Implies(And(rcv, c.ret), g(n, 'rpeer') == k.peer())),
                ('merges the received data into the local data with the merge function', Implies(And(rcv, c.ret), And(g(n, 'mfn') == k.merge.b, g(n, 'mlocal') == k.start.b, g(n, 'mlocalo') == k.start.o,
                 g(n, 'minc') == g(n, 'rstart'), g(n, 'msize') == k.size, g(n, 'rsize') == k.size)))]
    A('end_coll_step', allow_throw=True, requires=req, modifies=lambda c: MERGE, ensures=end_post)
    BITF = lambda c: [('field', 'pcu_coll.bit', c.args[0].b)]
    BUFF = lambda c: [('field', 'pcu_buffer.' + x, Coll(c.old, c.args[0].b).buf) for x in ('start', 'size', 'capacity')]

    def make_post(c):
        n = Coll(c.new, c.args[0].b)
        return [('pattern and merge function', And(n.pat.b == c.args[1].b, n.pat.o == c.args[1].o, n.merge.b == c.args[2].b))]
    A('pcu_make_coll', requires=lambda c: [('object', And(c.args[0].b >= 1, c.args[0].o == 0))],
      modifies=lambda c: [('field', 'pcu_coll.pattern', c.args[0].b), ('field', 'pcu_coll.merge', c.args[0].b)], ensures=make_post)
    out.append(Spec('step:pcu_set_buffer', 'pcu/pcu_buffer.c', 'pcu_set_buffer', requires=lambda c: [('object', And(c.args[0].b != 0, c.args[0].o == 0))],
      modifies=lambda c: [('field', 'pcu_buffer.' + x, c.args[0].b) for x in ('start', 'size', 'capacity')],
      ensures=lambda c: [('fields', And(c.new.f(c.args[0].b, 'pcu_buffer.start').b == c.args[1].b, c.new.f(c.args[0].b, 'pcu_buffer.start').o == c.args[1].o, c.new.f(c.args[0].b, 'pcu_buffer.size') == c.args[2]))]))

    def begincoll_post(c):
        n = Coll(c.new, c.args[0].b)
        k = Coll(c.old, c.args[0].b)
        b0 = APP0(k.fn('begin_bit'))
        bp = begin_post(c, b0, k)
        return [('starts at the first bit', n.bit == b0), ('works on the given data', And(n.start.b == c.args[1].b, n.start.o == c.args[1].o, n.size == c.args[2]))] + \
               [('first step: ' + nm, Implies(Not(k.end(b0)), f)) for nm, f in bp] + \
               [('no message when there is no step', Implies(k.end(b0), g(c.new, 'nsend') == g(c.old, 'nsend')))]
    A('pcu_begin_coll', requires=req, modifies=lambda c: BITF(c) + BUFF(c) + MSGF(c) + sends, ensures=begincoll_post)

    def prog_post(c):
        k, n = Coll(c.old, c.args[0].b), Coll(c.new, c.args[0].b)
        o, w = c.old, c.new
        a = k.action()
        e0 = k.end()
        moved = n.bit == k.shift()
        adv = Or(a == IDLE, And(a != SEND, g(w, 'nrecv') == g(o, 'nrecv') + 1))
        same = And(g(w, 'nsend') == g(o, 'nsend'))
        bp = begin_post(c, k.shift(), k)
        return [('finished exactly when the pattern has ended', c.ret == Not(n.end())),
                ('does nothing after the end', Implies(e0, And(n.bit == k.bit, same, g(w, 'nrecv') == g(o, 'nrecv'), g(w, 'nmerge') == g(o, 'nmerge')))),
                ('moves to the next bit or stays', Or(n.bit == k.bit, moved)),
                ('a step that is over leads to the next bit', Implies(And(Not(e0), adv), moved)),
                ('a receiving step is not left before its message has come', Implies(And(Not(e0), a != IDLE, a != SEND, Not(adv)), And(n.bit == k.bit, same, g(w, 'nrecv') == g(o, 'nrecv')))),
                ('at most one message is received and it is merged', And(Or(g(w, 'nrecv') == g(o, 'nrecv'), g(w, 'nrecv') == g(o, 'nrecv') + 1), g(w, 'nmerge') - g(o, 'nmerge') == g(w, 'nrecv') - g(o, 'nrecv'))),
                ('the received message is from the partner of the step', Implies(g(w, 'nrecv') != g(o, 'nrecv'), And(g(w, 'rpeer') == k.peer(), g(w, 'mfn') == k.merge.b, g(w, 'mlocal') == k.start.b, g(w, 'mlocalo') == k.start.o, g(w, 'msize') == k.size, g(w, 'minc') == g(w, 'rstart'))))] + \
               [('next step: ' + nm, Implies(And(Not(e0), adv, Not(k.end(k.shift()))), f)) for nm, f in bp] + \
               [('no step after the last', Implies(And(Not(e0), adv, k.end(k.shift())), same))]
    A('pcu_progress_coll', requires=req, modifies=lambda c: BITF(c) + MSGF(c) + sends + MERGE, ensures=prog_post)

    # whole collectives: run the pattern to its end
    ALLF = lambda c: [('field', 'pcu_coll.pattern', c.args[0].b), ('field', 'pcu_coll.merge', c.args[0].b)] + BITF(c) + BUFF(c) + MSGF(c) + sends + MERGE

    def glob(c, name):
        return c.new.sub(IntVal(0), '::global.' + name)

    def fid(name):
        from sym import Exec
        return -1000 - Exec.FIDS.setdefault(name, len(Exec.FIDS) + 1)

    def runs(pattern, merge):
        def post(c):
            n = Coll(c.new, c.args[0].b)
            di = 2 if merge == 2 else 1
            m = c.args[1].b if merge == 2 else IntVal(fid(merge))
            return [('runs the pattern to its end', And(n.pat.b == glob(c, pattern), n.pat.o == 0, n.end())), ('with the merge function', n.merge.b == m),
                    ('on the given data', And(n.start.b == c.args[di].b, n.start.o == c.args[di].o, n.size == c.args[di + 1]))]
        return post

    def wreq(c):
        return [('object', And(c.args[0].b >= 1, c.args[0].o == 0)), ('data is not the object', And(*[a.b != c.args[0].b for a in c.args[1:] if isinstance(a, P)]))]

    def wloop(L):
        k = Coll(L.cur, L.c.args[0].b)
        glob = lambda L, nm: L.cur.sub(IntVal(0), '::global.' + nm)
        out = []
        for nm in ('reduce', 'bcast', 'scan_up', 'scan_down'):
            out.append(('pattern ' + nm, And(k.pat.b == glob(L, nm), k.pat.o == 0)))
        out.append(('pattern is reduce or bcast', And(Or(k.pat.b == glob(L, 'reduce'), k.pat.b == glob(L, 'bcast')), k.pat.o == 0)))
        return out
    for nm, pat, m in (('pcu_reduce', 'reduce', 2), ('pcu_bcast', 'bcast', 'pcu_merge_assign'), ('pcu_allreduce', 'bcast', 'pcu_merge_assign'), ('pcu_scan', 'scan_down', 2)):
        post = runs(pat, m)
        if nm == 'pcu_allreduce':
            def post(c):
                n = Coll(c.new, c.args[0].b)
                return [('the last phase is the broadcast', And(n.pat.b == glob(c, 'bcast'), n.end(), n.merge.b == fid('pcu_merge_assign'))),
                        ('on the given data', And(n.start.b == c.args[2].b, n.start.o == c.args[2].o, n.size == c.args[3]))]
        # the phases run one after the other: the first one to its end, with the merge function, on the same data
        def first(cs, c, pattern):
            k = Coll(cs.old, cs.args[0].b)
            return And(k.pat.b == glob(cs, pattern), k.pat.o == 0, k.end(), k.merge.b == c.args[1].b, k.start.b == c.args[2].b, k.start.o == c.args[2].o, k.size == c.args[3])
        at = {}
        if nm == 'pcu_allreduce':
            at = {'step:pcu_bcast': lambda cs, c: [('the reduction has ended', first(cs, c, 'reduce'))]}
        if nm == 'pcu_scan':
            at = {'step:pcu_make_coll': lambda cs, c: [('up first, then down', And(cs.args[1].o == 0, Or(cs.args[1].b == glob(cs, 'scan_up'), And(cs.args[1].b == glob(cs, 'scan_down'), first(cs, c, 'scan_up')))))]}
        A(nm, requires=wreq, modifies=ALLF, ensures=post, loops=[wloop, wloop], at_call=at)

    def bdone_post(c):
        k, n = Coll(c.old, c.args[0].b), Coll(c.new, c.args[0].b)
        return [('done only after the broadcast has ended', Implies(c.ret, And(n.pat.b == glob(c, 'bcast'), n.pat.o == 0, n.end()))),
                ('the broadcast is entered only from the ended reduction', Implies(And(k.pat.b == glob(c, 'reduce'), n.pat.b != k.pat.b), n.pat.b == glob(c, 'bcast'))),
                ('an ended reduction is left', Implies(And(k.pat.b == glob(c, 'reduce'), k.pat.o == 0, n.pat.b == glob(c, 'reduce')), Not(n.end()))),
                ('the pattern is the same or the broadcast', And(Or(n.pat.b == k.pat.b, n.pat.b == glob(c, 'bcast')), n.pat.o == 0))]
    A('pcu_barrier_done', requires=req, modifies=ALLF, ensures=bdone_post, at_call={'step:pcu_make_coll': lambda cs, c: [('the reduction is followed by the broadcast', And(cs.args[1].b == glob(cs, 'bcast'), cs.args[1].o == 0))],
        'step:pcu_progress_coll': lambda cs, c: [('the broadcast is begun before it is run', Implies(And(Coll(c.old, c.args[0].b).pat.b == glob(c, 'reduce'), Coll(cs.old, c.args[0].b).pat.b == glob(c, 'bcast')),
            Coll(cs.old, c.args[0].b).bit == APP0(Coll(cs.old, c.args[0].b).fn('begin_bit'))))]})
    A('pcu_begin_barrier', requires=lambda c: [('object', And(c.args[0].b >= 1, c.args[0].o == 0))], modifies=ALLF, ensures=lambda c: [('starts the reduction', And(Coll(c.new, c.args[0].b).pat.b == glob(c, 'reduce'), Coll(c.new, c.args[0].b).pat.o == 0, Coll(c.new, c.args[0].b).merge.b == fid('pcu_merge_assign'), Coll(c.new, c.args[0].b).size == 0))])
    A('pcu_barrier', requires=lambda c: [('object', And(c.args[0].b >= 1, c.args[0].o == 0))], modifies=ALLF, loops=[wloop], ensures=lambda c: [('ends with the broadcast', And(Coll(c.new, c.args[0].b).pat.b == glob(c, 'bcast'), Coll(c.new, c.args[0].b).end()))])

    for nm in ('reduce', 'bcast', 'scan_up', 'scan_down'):
        out.append(Spec('table:' + nm, C, nm, table={f: nm + '_' + f for f in ('begin_bit', 'end_bit', 'action', 'peer', 'shift')}))
    # merge functions
    for op, f in (('add', lambda a, b: a + b), ('min', lambda a, b: If(b < a, b, a)), ('max', lambda a, b: If(b > a, b, a))):
        for tn, el, es in (('doubles', 'real', 8), ('ints', 'int', 4), ('longs', 'long', 8), ('sizets', 'ulong', 8)):
            if tn == 'longs' and op != 'add':
                continue
            def mreq(c, es=es, el=el):
                n = c.args[2] / es
                a, b = c.args[0], c.args[1]
                return [('arrays', And(c.args[2] >= 0, a.b >= 1, b.b >= 1, a.b != b.b, a.o >= 0, b.o >= 0, a.o + n <= c.old.len(a.b), b.o + n <= c.old.len(b.b)))] + \
                    ([('values are size_t', And(*[FA([Int('i!p')], And(0 <= c.old.arr(el, p.b)[Int('i!p')], c.old.arr(el, p.b)[Int('i!p')] < 2 ** 64), patterns=[c.old.arr(el, p.b)[Int('i!p')]]) for p in (a, b)]))] if el == 'ulong' else [])

            def mpost(c, es=es, el=el, f=f, op=op):
                n = c.args[2] / es
                a, b = c.args[0], c.args[1]
                i = Int('i!p')
                A1, A0, B0 = c.new.arr(el, a.b), c.old.arr(el, a.b), c.old.arr(el, b.b)
                v = f(A0[i], B0[b.o + (i - a.o)])
                eq = A1[i] == v
                if el == 'ulong' and op == 'add':
                    eq = Or(A1[i] == v, A1[i] == v - 2 ** 64, A1[i] == v + 2 ** 64)
                return [('every element is combined', FA([i], Implies(And(a.o <= i, i < a.o + n), eq))),
                        ('nothing else of the array changes', FA([i], Implies(Or(i < a.o, i >= a.o + n), A1[i] == A0[i])))]

            def mloop(L, es=es, el=el, f=f, op=op):
                out = []
                n = L.c.args[2] / es
                a, b = L.c.args[0], L.c.args[1]
                A1, A0, B0 = L.cur.arr(el, a.b), L.old.arr(el, a.b), L.old.arr(el, b.b)
                i = Int('i!l')
                v = f(A0[i], B0[b.o + (i - a.o)])
                eq = A1[i] == v
                if el == 'ulong' and op == 'add':
                    eq = Or(A1[i] == v, A1[i] == v - 2 ** 64, A1[i] == v + 2 ** 64)
                for key, x in L.st.env.items():
                    if isinstance(x, ArithRef) and x.sort() == IntSort() and isinstance(key, tuple):
                        nm = str(L.st.types.get(key, ('?',))[0])
                        out.append(('combined below ' + nm, And(0 <= x, x <= n, FA([i], Implies(And(a.o <= i, i < a.o + x), eq), patterns=[A1[i]]), FA([i], Implies(Or(i < a.o, i >= a.o + x), A1[i] == A0[i]), patterns=[A1[i]]))))
                return out
            A('pcu_%s_%s' % (op, tn), modwrap=True, requires=mreq, ensures=mpost, loops=[mloop], modifies=lambda c, el=el: [('mem', el, c.args[0].b)])
    for s in out:
        s.interior = range(8)      # messages, buffers and counters are members of larger records
    return out
