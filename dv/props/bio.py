"""Contracts of the portable binary file layer (pcu_io.c) and the growing byte buffers it uses."""
from z3 import *
from util import FA
from spec import Spec
from ctypes_ import INT
from sym import P
from props.pcubuf import Buf, B
J = Int('j!t')
USES = ['pcubuf']
F = 'pcu/pcu_io.c'
FILES = [F, 'pcu/pcu_buffer.c']


def by(v, b):
    return v.arr('byte', b)


def buf(c, p, n):
    """n bytes of one allocation from p"""
    return And(p.b >= 1, p.o >= 0, p.o + n <= c.old.len(p.b))


def swap_post(c, p, size, n):
    """every element of `size` bytes is reversed, all other bytes of the block are unchanged"""
    A0, A1 = by(c.old, p.b), by(c.new, p.b)
    j, k = Ints('j!s k!s')
    return [('bytes of every element reversed', FA([j], Implies(And(p.o <= j, j < p.o + size * n), A1[j] == A0[mirror(p.o, size, j)]), patterns=[A1[j]])),
            ('other bytes unchanged', FA([j], Implies(Or(j < p.o, j >= p.o + size * n), A1[j] == A0[j]), patterns=[A1[j]]))]


def mirror(o, size, j):
    r = (j - o) % size
    return j - r + (size - 1 - r)


def swap_loops(size):
    def f(L):
        c = L.c
        p = c.args[0]
        A0, A1 = by(L.old, p.b), by(L.cur, p.b)
        j = Int('j!s')
        x = Int('x!s')
        out = [('other objects', FA([x], Implies(x != p.b, by(L.cur, x) == by(L.init, x)), patterns=[by(L.cur, x)]))]
        for ni, i, ini in L.ints():
            out.append(('done %s' % ni, FA([j], Implies(And(p.o <= j, j < p.o + size * i), A1[j] == A0[mirror(p.o, size, j)]), patterns=[A1[j]])))
            out.append(('rest %s' % ni, FA([j], Implies(Or(j < p.o, j >= p.o + size * i), A1[j] == A0[j]), patterns=[A1[j]])))
            out.append(('count %s' % ni, And(i >= 0, i <= c.args[1])))
            out.append(('left %s' % ni, And(i >= 0, i <= c.args[1])))
            # counting down
            d = c.args[1] - i
            out.append(('done down %s' % ni, FA([j], Implies(And(p.o + size * i <= j, j < p.o + size * c.args[1]), A1[j] == A0[mirror(p.o, size, j)]), patterns=[A1[j]])))
            out.append(('rest down %s' % ni, FA([j], Implies(Or(j < p.o + size * i, j >= p.o + size * c.args[1]), A1[j] == A0[j]), patterns=[A1[j]])))
            for np_, ty, q in L.ptrs():
                out.append(('pointer %s %s' % (np_, ni), And(q.b == p.b, q.o == p.o + size * i)))
        return out
    return f


def pos(v, f):
    v.ex.ftypes.setdefault('FILE.gpos', INT(64))
    return v.f(f, 'FILE.gpos', INT(64))


def fl(c, i=0):
    return c.old.f(c.args[i].b, 'pcu_file.f')


def opened(c, write, i=0):
    p = c.args[i]
    h = fl(c, i)
    return [('open file', And(p.b >= 1, p.o == 0, h.b >= 1, h.o == 0, c.old.f(p.b, 'pcu_file.write') == BoolVal(write), Not(c.old.f(p.b, 'pcu_file.compress'))))]


def fmod(c, i=0):
    c.old.ex.ftypes.setdefault('FILE.gpos', INT(64))
    return [('mem', 'byte', fl(c, i).b), ('field', 'FILE.gpos', fl(c, i).b)]


def rmod(c, i=0, p=1):
    c.old.ex.ftypes.setdefault('FILE.gpos', INT(64))
    return [('mem', 'byte', c.args[p].b), ('field', 'FILE.gpos', fl(c, i).b)]


def wrote(c, h, src, so, n, perm=None):
    """n bytes from src were appended at the file position (permuted inside elements)"""
    A1 = by(c.new, h.b)
    p0 = pos(c.old, h.b)
    j = Int('j!w')
    at = j - p0 if perm is None else mirror(0, perm, j - p0)
    return [('bytes in the file', FA([j], Implies(And(p0 <= j, j < p0 + n), A1[j] == src[so + at]), patterns=[A1[j]])),
            ('rest of the file unchanged', FA([j], Implies(Or(j < p0, j >= p0 + n), A1[j] == by(c.old, h.b)[j]), patterns=[A1[j]])),
            ('file position', pos(c.new, h.b) == p0 + n)]


def read(c, h, d, n, perm=None):
    A1 = by(c.new, d.b)
    p0 = pos(c.old, h.b)
    j = Int('j!w')
    at = j - d.o if perm is None else mirror(0, perm, j - d.o)
    return [('inside the file', Implies(n > 0, p0 + n <= c.old.len(h.b))), ('bytes of the file', FA([j], Implies(And(d.o <= j, j < d.o + n), A1[j] == by(c.old, h.b)[p0 + at]), patterns=[A1[j]])),
            ('other memory unchanged', FA([j], Implies(Or(j < d.o, j >= d.o + n), A1[j] == by(c.old, d.b)[j]), patterns=[A1[j]])),
            ('file position', pos(c.new, h.b) == p0 + n)]


def specs():
    out = []

    def A(nm, **k):
        out.append(Spec(nm, F, nm, bytes=True, **k))
    for nm, sz in (('pcu_swap_16', 2), ('pcu_swap_32', 4), ('pcu_swap_64', 8)):
        A(nm, requires=lambda c, sz=sz: [('room', buf(c, c.args[0], sz))], modifies=lambda c: [('mem', 'byte', c.args[0].b)],
          ensures=lambda c, sz=sz: swap_post(c, c.args[0], sz, 1))
    for nm, sz in (('pcu_swap_unsigneds', 4), ('pcu_swap_doubles', 8)):
        A(nm, requires=lambda c, sz=sz: [('room', Or(c.args[1] == 0, buf(c, c.args[0], sz * c.args[1]))), ('count', And(c.args[1] >= 0, c.args[1] < 2 ** 59))], loops=[swap_loops(sz)],
          modifies=lambda c: [('mem', 'byte', c.args[0].b)], ensures=lambda c, sz=sz: swap_post(c, c.args[0], sz, c.args[1]))
    sep = lambda c, i, p: [('buffer is not the file', fl(c, i).b != c.args[p].b)]
    nb = lambda c: c.args[1] * c.args[2]
    cnt = lambda c, i: [('count', And(c.args[i] >= 0, c.args[i] < 2 ** 59))]
    A('pcu_fwrite', allow_throw=True, requires=lambda c: opened(c, True, 3) + sep(c, 3, 0) + cnt(c, 1) + cnt(c, 2) + [('room', Or(nb(c) == 0, buf(c, c.args[0], nb(c)))), ('size', nb(c) >= 0)], modifies=lambda c: fmod(c, 3),
      ensures=lambda c: wrote(c, fl(c, 3), by(c.old, c.args[0].b), c.args[0].o, nb(c)))
    A('pcu_fread', allow_throw=True, requires=lambda c: opened(c, False, 3) + sep(c, 3, 0) + cnt(c, 1) + cnt(c, 2) + [('room', Or(nb(c) == 0, buf(c, c.args[0], nb(c)))), ('size', nb(c) >= 0)], modifies=lambda c: rmod(c, 3, 0),
      ensures=lambda c: read(c, fl(c, 3), c.args[0], nb(c)))
    A('pcu_write', requires=lambda c: opened(c, True) + sep(c, 0, 1) + cnt(c, 2) + [('room', Or(c.args[2] == 0, buf(c, c.args[1], c.args[2])))], modifies=fmod,
      ensures=lambda c: wrote(c, fl(c), by(c.old, c.args[1].b), c.args[1].o, c.args[2]))
    A('pcu_read', requires=lambda c: opened(c, False) + sep(c, 0, 1) + cnt(c, 2) + [('room', Or(c.args[2] == 0, buf(c, c.args[1], c.args[2])))], modifies=rmod,
      ensures=lambda c: read(c, fl(c), c.args[1], c.args[2]))
    for ty, sz in (('unsigneds', 4), ('doubles', 8)):
        A('pcu_write_' + ty, requires=lambda c, sz=sz: opened(c, True) + sep(c, 0, 1) + cnt(c, 2) + [('room', Or(And(c.args[2] == 0, c.args[1].b >= 0), buf(c, c.args[1], sz * c.args[2])))],
          modifies=lambda c: fmod(c) + [('alloc',)], ensures=lambda c, sz=sz: wrote(c, fl(c), by(c.old, c.args[1].b), c.args[1].o, sz * c.args[2], sz))
        A('pcu_read_' + ty, requires=lambda c, sz=sz: opened(c, False) + sep(c, 0, 1) + cnt(c, 2) + [('room', Or(c.args[2] == 0, buf(c, c.args[1], sz * c.args[2])))],
          modifies=rmod, ensures=lambda c, sz=sz: read(c, fl(c), c.args[1], sz * c.args[2], sz))
    st_end = lambda c, A, o, n: And(n >= 0, A[o + n] == 0, FA([J], Implies(And(o <= J, J < o + n), A[J] != 0), patterns=[A[J]]))
    A('pcu_write_string', modwrap=True, requires=lambda c: opened(c, True) + sep(c, 0, 1) + [('text', And(c.args[1].b >= 1, c.args[1].o >= 0, c.old.len(c.args[1].b) < 2 ** 58))],
      modifies=fmod, ensures=lambda c: (lambda n: [('the text up to its end', st_end(c, by(c.old, c.args[1].b), c.args[1].o, n))] + wrote(c, fl(c), by(c.old, c.args[1].b), c.args[1].o, n + 1))(pos(c.new, fl(c).b) - pos(c.old, fl(c).b) - 1))
    A('pcu_read_string', modwrap=True, requires=lambda c: opened(c, False) + sep(c, 0, 1) + [('place for the result', And(c.args[1].b >= 1, c.args[1].o >= 0, c.old.len(c.args[1].b) >= c.args[1].o + 8)), ('file position', pos(c.old, fl(c).b) >= 0), ('file size', c.old.len(fl(c).b) < 2 ** 55)],
      modifies=lambda c: rmod(c)[1:] + [('mem', 'p.b', c.args[1].b), ('mem', 'p.o', c.args[1].b), ('alloc',)], loops=[rs_loop],
      ensures=lambda c: (lambda n, p: [('the text up to its end', st_end(c, by(c.new, p.b), p.o, n)), ('text of the file', And(p.o == 0, FA([J], Implies(And(0 <= J, J <= n), by(c.new, p.b)[J] == by(c.old, fl(c).b)[J + pos(c.old, fl(c).b)]), patterns=[by(c.new, p.b)[J]])))])
      (pos(c.new, fl(c).b) - pos(c.old, fl(c).b) - 1, P(c.new.at('p.b', c.args[1], 0), c.new.at('p.o', c.args[1], 0))))
    return out


def rs_loop(L):
    c = L.c
    h = fl(c)
    out = []
    n = pos(L.cur, h.b) - pos(L.old, h.b)
    x = Int('x!s')
    for nm, ty, o in L.objs():
        st = L.cur.f(o, B + 'start')
        b = Buf(L.cur, P(o, IntVal(0)))
        A = b.mem()
        out += [('read so far', b.size == n), ('buffer', b.inv()), ('own memory', Or(st.b == 0, st.b >= c.old.ghost('alloc'))),
                ('text so far', FA([J], Implies(And(0 <= J, J < n), And(A[J] == by(L.old, h.b)[J + pos(L.old, h.b)])), patterns=[A[J]])),
                ('text not over', FA([J], Implies(And(0 <= J, J < n), A[J] != 0), patterns=[A[J]])),
                ('in the file', And(n >= 0, Or(n == 0, pos(L.cur, h.b) <= L.old.len(h.b)))), ('growth', b.cap <= 4 * b.size + 4096), ('some', n >= 1)]
        for np_, ty, q in L.ptrs():
            out += [('last byte %s' % np_, And(q.b == st.b, q.o == n - 1))]
        out += [('text not over before last', FA([J], Implies(And(0 <= J, J < n - 1), A[J] != 0), patterns=[A[J]]))]
    out.append(('lengths', FA([x], Implies(And(x >= 1, x < c.old.ghost('alloc')), L.cur.len(x) == L.old.len(x)), patterns=[L.cur.len(x)])))
    out.append(('other objects', FA([x], Implies(And(x >= 1, x < c.old.ghost('alloc')), by(L.cur, x) == by(L.init, x)), patterns=[by(L.cur, x)])))
    return out


def LEMMAS():
    from spec import Lemma
    out = []
    src, f, dst = Array('src', IntSort(), IntSort()), Array('file', IntSort(), IntSort()), Array('dst', IntSort(), IntSort())
    j, s, p, d, n, m, i = Ints('j s p d n m i')
    for what, sz in (('unsigneds', 4), ('doubles', 8)):
        perm = lambda k: mirror(0, sz, k)
        W = lambda k: Implies(And(p <= k, k < p + sz * n), f[k] == src[s + perm(k - p)])
        Rd = lambda k: Implies(And(d <= k, k < d + sz * n), dst[k] == f[p + perm(k - d)])
        H = And(n >= 0, 0 <= i, i < sz * n, W(p + perm(i)), Rd(d + i))
        out.append(Lemma('BIO %s: what was written is read back' % what, Implies(H, dst[d + i] == src[s + i])))
    E = lambda A, o, n: lambda k: And(n >= 0, A[o + n] == 0, Implies(And(0 <= k, k < n), A[o + k] != 0))
    out.append(Lemma('BIO strings: the text written is the text read', Implies(
        And(n >= 0, m >= 0, src[s + n] == 0, dst[m] == 0, Implies(m < n, src[s + m] != 0), Implies(n < m, dst[n] != 0),
            Implies(m < n, f[p + m] == src[s + m]), f[p + n] == src[s + n], Implies(n <= m, dst[n] == f[p + n]), dst[m] == f[p + m]), m == n)))
    return out
