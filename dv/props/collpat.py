"""Communication patterns of pcu_coll.c as bit-vector contracts, and the lemmas that make them collectives."""
from z3 import *
from spec import Spec, Lemma

C = 'pcu/pcu_coll.c'
FILES = [C]
B = lambda n: BitVecVal(n, 32)
RANK, SIZE = BitVec('G_self32', 32), BitVec('G_peers32', 32)
SEND, RECV, IDLE = 0, 1, 2      # the enum of pcu_coll.h; its values are checked by the posts below (the code uses the names)
MAXSZ = 1 << 30


def pow2(b):
    return And(b != 0, b & (b - 1) == 0, b > 0)


# ---------------------------------------------------------------- the patterns, as functions of (rank, size, bit)
def red_end(r, n, b):
    return If(r == 0, b >= n, ((b >> 1) & r) != 0)


def xpeer(r, n, b):
    return r ^ b


def red_act(r, n, b):
    return If((r ^ b) >= n, B(IDLE), If(b & r != 0, B(SEND), B(RECV)))


def bc_end(r, n, b):
    return b == 0


def bc_act(r, n, b):
    return If((r ^ b) >= n, B(IDLE), If(b & r != 0, B(RECV), B(SEND)))


def up_recv(r, b):
    m = (b << 1) - 1
    return (r & m) == m


def up_act(r, n, b):
    return If(And(up_recv(r, b), 0 <= r - b), B(RECV), If(And(r + b < n, up_recv(r + b, b)), B(SEND), B(IDLE)))


def up_peer(r, n, b):
    return If(And(up_recv(r, b), 0 <= r - b), r - b, If(And(r + b < n, up_recv(r + b, b)), r + b, B(-1)))


def dn_send(r, b):
    return (r & (b - 1)) == (b - 1)


def dn_act(r, n, b):
    h = b >> 1
    return If(And(dn_send(r, b), r + h < n), B(SEND), If(And(0 <= r - h, dn_send(r - h, b)), B(RECV), B(IDLE)))


def dn_peer(r, n, b):
    h = b >> 1
    return If(And(dn_send(r, b), r + h < n), r + h, If(And(0 <= r - h, dn_send(r - h, b)), r - h, B(-1)))


def fl2(n, r):
    """r is the floor of the binary logarithm of n"""
    return And(r >= 0, r <= 30, (B(1) << r) <= n, LShR(n, r) == 1)


def sz(c):
    return [('size fits', And(RANK >= 0, RANK < SIZE, SIZE <= MAXSZ))]


def bitreq(c):
    return sz(c) + [('bit is a power of two in range', And(pow2(c.args[0]), c.args[0] <= MAXSZ))]


def log_loop(L):
    out = []
    n0 = L.c.args[0]
    ns = [(k, v) for k, v in L.st.env.items() if isinstance(v, BitVecRef) and isinstance(k, tuple)]
    for k1, v1 in ns:
        for k2, v2 in ns:
            if k1 == k2:
                continue
            nm = '%s %s' % (L.st.types.get(k1, ('?',))[0], L.st.types.get(k2, ('?',))[0])
            out.append(('n = n0 >> r %s' % nm, And(v1 == (n0 >> v2), v1 > 0, v2 >= 0, v2 <= 30)))
    return out


def low_loop(L):
    """bits below the current one are clear in the rank"""
    out = []
    for k, v in L.st.env.items():
        if isinstance(v, BitVecRef) and isinstance(k, tuple):
            nm = L.st.types.get(k, ('?',))[0]
            out.append(('lowest candidate %s' % nm, And(pow2(v), RANK & (v - 1) == 0, RANK > 0, RANK < SIZE)))
    return out


def specs():
    out = []

    def A(nm, **kw):
        out.append(Spec('coll:' + nm, C, nm, bv=True, **kw))
    A('floor_log2', requires=lambda c: [('argument', And(c.args[0] >= 1))], loops=[log_loop], ensures=lambda c: [('floor of the logarithm', fl2(c.args[0], c.ret))])
    A('ceil_log2', requires=lambda c: [('argument', And(c.args[0] >= 1, c.args[0] <= MAXSZ))],
      ensures=lambda c: [('ceiling of the logarithm', And(c.ret >= 0, c.ret <= 30, (B(1) << c.ret) >= c.args[0], Or(c.ret == 0, (B(1) << (c.ret - 1)) < c.args[0])))])

    def act(nm, f):
        A(nm, requires=bitreq, ensures=lambda c: [('action of the pattern', c.ret == f(RANK, SIZE, c.args[0]))])

    def peer(nm, f):
        A(nm, requires=bitreq, ensures=lambda c: [('partner of the pattern', c.ret == f(RANK, SIZE, c.args[0]))])
    A('reduce_begin_bit', requires=sz, ensures=lambda c: [('starts at bit 1', c.ret == 1)])
    A('reduce_end_bit', requires=bitreq, ensures=lambda c: [('end of the pattern', c.ret == red_end(RANK, SIZE, c.args[0]))])
    act('reduce_action', red_act)
    peer('reduce_peer', xpeer)
    A('reduce_shift', requires=bitreq, ensures=lambda c: [('next bit', c.ret == c.args[0] << 1)])
    A('bcast_begin_bit', requires=sz, loops=[low_loop],
      ensures=lambda c: [('root: power of two not below the size', Implies(RANK == 0, And(c.ret >= SIZE, pow2(c.ret), Or(c.ret == 1, LShR(c.ret, 1) < SIZE)))),
                         ('others: lowest set bit of the rank', Implies(RANK != 0, And(c.ret == RANK & -RANK, pow2(c.ret))))])
    A('bcast_end_bit', requires=sz, ensures=lambda c: [('end of the pattern', c.ret == bc_end(RANK, SIZE, c.args[0]))])
    act('bcast_action', bc_act)
    peer('bcast_peer', xpeer)
    A('bcast_shift', requires=bitreq, ensures=lambda c: [('next bit', c.ret == c.args[0] >> 1)])
    A('scan_up_begin_bit', requires=sz, ensures=lambda c: [('starts at bit 1', c.ret == 1)])
    A('scan_up_end_bit', requires=bitreq, ensures=lambda c: [('ends at the largest power of two within the size', c.ret == And(c.args[0] <= SIZE, LShR(SIZE, 1) < c.args[0]))])
    upreq = lambda c: sz(c) + [('bit is a power of two in range', And(pow2(c.args[0]), c.args[0] < MAXSZ))]
    A('scan_up_action', requires=upreq, ensures=lambda c: [('action of the pattern', c.ret == up_act(RANK, SIZE, c.args[0]))])
    A('scan_up_peer', requires=upreq, ensures=lambda c: [('partner of the pattern', c.ret == up_peer(RANK, SIZE, c.args[0]))])
    A('scan_up_could_receive', requires=lambda c: sz(c) + [('bit', And(pow2(c.args[1]), c.args[1] < MAXSZ, c.args[0] >= 0))], ensures=lambda c: [('receiver', c.ret == up_recv(c.args[0], c.args[1]))])
    A('scan_up_shift', requires=bitreq, ensures=lambda c: [('next bit', c.ret == c.args[0] << 1)])
    A('scan_down_begin_bit', requires=sz, ensures=lambda c: [('largest power of two within the size', And(pow2(c.ret), c.ret <= SIZE, LShR(SIZE, 1) < c.ret))])
    A('scan_down_end_bit', requires=bitreq, ensures=lambda c: [('ends at bit 1', c.ret == (c.args[0] == 1))])
    act('scan_down_action', dn_act)
    peer('scan_down_peer', dn_peer)
    A('scan_down_could_send', requires=lambda c: sz(c) + [('bit', And(pow2(c.args[1]), c.args[1] <= MAXSZ, c.args[0] >= 0))], ensures=lambda c: [('sender', c.ret == dn_send(c.args[0], c.args[1]))])
    A('scan_down_shift', requires=bitreq, ensures=lambda c: [('next bit', c.ret == c.args[0] >> 1)])
    return out


def LEMMAS():
    r, q, n, b, x = BitVecs('r q n b x', 32)
    H = And(0 <= r, r < n, n <= MAXSZ, pow2(b), b <= MAXSZ)
    out = []

    def L(nm, g):
        out.append(Lemma(nm, g))
    # ---- reduce: step b is executed by the ranks with r & (b-1) == 0 (with bit < size on rank 0)
    act_r = lambda r: And(r & (b - 1) == 0, Or(r != 0, b < n))
    L('COLL reduce: every rank is in step b iff its lower bits are clear', Implies(And(H, b > 1, b < MAXSZ, act_r(r), Not(red_end(r, n, b << 1))), And(r & ((b << 1) - 1) == 0)))
    L('COLL reduce: a rank leaves only after it has sent', Implies(And(H, b < MAXSZ, act_r(r), red_end(r, n, b << 1), r != 0), red_act(r, n, b) == SEND))
    L('COLL reduce: send and receive match', Implies(And(H, act_r(r), red_act(r, n, b) != IDLE),
      And(0 <= r ^ b, (r ^ b) < n, act_r(r ^ b), (red_act(r, n, b) == SEND) == (red_act(r ^ b, n, b) == RECV), (red_act(r, n, b) == RECV) == (red_act(r ^ b, n, b) == SEND), (r ^ b) ^ b == r)))
    # coverage: before step b an active rank r holds the inputs of exactly [r, min(r+b, n))
    top = lambda r, b: If(ULT(r + b, n), r + b, n)
    Hb = And(H, b <= MAXSZ // 2, act_r(r), r & b == 0)
    L('COLL reduce: merging the partner extends the covered interval', Implies(Hb, And(Implies(red_act(r, n, b) == RECV, And((r ^ b) == top(r, b), top(r ^ b, b) == top(r, b << 1))),
      Implies(red_act(r, n, b) == IDLE, top(r, b) == top(r, b << 1)))))
    L('COLL reduce: at the end rank 0 covers all ranks', Implies(And(0 < n, n <= MAXSZ, pow2(b), b >= n), top(B(0), b) == n))
    # ---- bcast: rank r has the data iff it has executed its receive at its lowest bit
    low = r & -r
    L('COLL bcast: first step of every other rank is a receive from a rank that already has the data', Implies(And(H, r != 0, b == low),
      And(bc_act(r, n, b) == RECV, 0 <= r ^ b, (r ^ b) < r, bc_act(r ^ b, n, b) == SEND, Or((r ^ b) == 0, b < ((r ^ b) & -(r ^ b))))))
    L('COLL bcast: later steps only send, to ranks whose lowest bit is the step', Implies(And(H, Or(r == 0, b < low), bc_act(r, n, b) != IDLE),
      And(bc_act(r, n, b) == SEND, (r ^ b) == r + b, (r ^ b) < n, ((r ^ b) & -(r ^ b)) == b, bc_act(r ^ b, n, b) == RECV)))
    # ---- scans
    ap = lambda f, r: f(r, n, b)
    Hs = And(H, b < MAXSZ // 2, b <= n)
    L('COLL scan up: send and receive match', Implies(And(Hs, ap(up_act, r) != IDLE), And(0 <= ap(up_peer, r), ap(up_peer, r) < n, up_peer(ap(up_peer, r), n, b) == r,
      (ap(up_act, r) == SEND) == (up_act(ap(up_peer, r), n, b) == RECV), (ap(up_act, r) == RECV) == (up_act(ap(up_peer, r), n, b) == SEND))))
    L('COLL scan down: send and receive match', Implies(And(Hs, b > 1, ap(dn_act, r) != IDLE), And(0 <= ap(dn_peer, r), ap(dn_peer, r) < n, dn_peer(ap(dn_peer, r), n, b) == r,
      (ap(dn_act, r) == SEND) == (dn_act(ap(dn_peer, r), n, b) == RECV), (ap(dn_act, r) == RECV) == (dn_act(ap(dn_peer, r), n, b) == SEND))))
    # before up-step b rank r holds the inputs of [r+1-w, r+1), w = min(b, lowest set bit of r+1)
    lb = lambda x: x & -x
    w = lambda r, b: If(And(ULE(lb(r + 1), b)), lb(r + 1), b)
    L('COLL scan up: interval held before the first step is the own input', Implies(H, w(r, B(1)) == 1))
    L('COLL scan up: merging extends the held interval', Implies(Hs, And(
      Implies(ap(up_act, r) == RECV, And(w(r, b) == b, w(r - b, b) == b, r - b + 1 == r + 1 - b, w(r, b << 1) == b + b)),
      Implies(ap(up_act, r) != RECV, w(r, b << 1) == w(r, b)))))
    # before down-step b rank r has the complete prefix [0, r+1) iff r+1 is a multiple of b, or r+1 < 2*(...) is itself a power of two; the
    # others still hold [r+1-lb(r+1), r+1)
    full = lambda r, b: Or((r + 1) & (b - 1) == 0, (r + 1) & r == 0)
    L('COLL scan down: initially exactly the powers of two are complete', Implies(And(H, b <= n, LShR(n, 1) < b), Implies((r + 1) & (b - 1) == 0, (r + 1) & r == 0)))
    L('COLL scan down: a receive completes the prefix', Implies(And(Hs, b > 1, ap(dn_act, r) == RECV), And(full(r - (b >> 1), b), lb(r + 1) == (b >> 1), Not(full(r, b)), full(r, b >> 1))))
    L('COLL scan down: who does not receive keeps its state', Implies(And(Hs, b > 1, ap(dn_act, r) != RECV), full(r, b >> 1) == full(r, b)))
    L('COLL scan down: at the end every prefix is complete', Implies(H, full(r, B(1))))
    return out
