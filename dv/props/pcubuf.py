"""Contracts of the growing byte buffer (pcu_buffer.c)."""
from z3 import *
from util import FA
from spec import Spec
F = 'pcu/pcu_buffer.c'
FILES = [F]
B = 'pcu_buffer.'


class Buf:
    def __init__(self, v, p):
        self.v, self.b = v, p.b
        self.start, self.size, self.cap = [v.f(p.b, B + n) for n in ('start', 'size', 'capacity')]

    def inv(self):
        """the buffer owns `cap` bytes, the first `size` of which are in use"""
        return And(self.size >= 0, self.size <= self.cap, self.cap < 2 ** 60,
                   Or(And(self.start.b == 0, self.start.o == 0, self.cap == 0), And(self.start.b >= 1, self.start.o == 0, self.v.len(self.start.b) >= self.cap)))

    def mem(self):
        return self.v.arr('byte', self.start.b)


def rec(c, i=0):
    return [('buffer', And(c.args[i].b >= 1, c.args[i].o == 0))]


def bmod(c, i=0):
    return [('field', B + n, c.args[i].b) for n in ('start', 'size', 'capacity')]


def empty(p):
    return And(p.b == 0, p.o == 0)


def specs():
    out = []

    def A(nm, **k):
        out.append(Spec(nm, F, nm, bytes=True, **k))
    o = lambda c: Buf(c.old, c.args[0])
    n = lambda c: Buf(c.new, c.args[0])
    A('pcu_make_buffer', requires=rec, modifies=bmod, ensures=lambda c: [('empty', And(empty(n(c).start), n(c).size == 0, n(c).cap == 0)), ('invariant', n(c).inv())])
    j = Int('j!b')

    def kept(c):
        """the first `size` bytes are what they were (possibly in new memory)"""
        return [('contents kept', FA([j], Implies(And(0 <= j, j < o(c).size), n(c).mem()[j] == o(c).mem()[j]), patterns=[n(c).mem()[j]]))]
    A('pcu_push_buffer', modwrap=True, requires=lambda c: rec(c) + [('invariant', o(c).inv()), ('request', And(c.args[1] >= 0, c.args[1] < 2 ** 59, o(c).size + c.args[1] < 2 ** 59, o(c).cap < 2 ** 59))],
      modifies=lambda c: bmod(c) + [('alloc',)],
      ensures=lambda c: [('grows by the request', n(c).size == o(c).size + c.args[1]), ('invariant', n(c).inv()),
                         ('memory moves only to new memory', Or(n(c).start.b == o(c).start.b, n(c).start.b >= c.old.ghost('alloc'))),
                         ('growth is bounded', Or(n(c).cap == o(c).cap, n(c).cap <= 4 * n(c).size + 4096)), ('returns the new part', And(c.ret.b == n(c).start.b, c.ret.o == o(c).size))] + kept(c))
    A('pcu_begin_buffer', requires=rec, modifies=lambda c: [('field', B + 'size', c.args[0].b)],
      ensures=lambda c: [('rewound', n(c).size == 0)])
    A('pcu_walk_buffer', modwrap=True, allow_throw=True, requires=lambda c: rec(c) + [('invariant', o(c).inv()), ('request', And(c.args[1] >= 0, c.args[1] < 2 ** 59, o(c).cap < 2 ** 59))],
      modifies=lambda c: [('field', B + 'size', c.args[0].b)],
      ensures=lambda c: [('advances by the request', n(c).size == o(c).size + c.args[1]), ('invariant (never past the end)', n(c).inv()),
                         ('returns the part walked over', And(c.ret.b == o(c).start.b, c.ret.o == o(c).start.o + o(c).size))])
    A('pcu_buffer_walked', requires=lambda c: rec(c), ensures=lambda c: [('walked means everything consumed', c.ret == (o(c).size == o(c).cap))])
    A('pcu_resize_buffer', requires=lambda c: rec(c) + [('invariant', o(c).inv()), ('size', And(c.args[1] >= 0, c.args[1] < 2 ** 59))], modifies=lambda c: bmod(c) + [('alloc',)],
      ensures=lambda c: [('new size', And(n(c).size == c.args[1], n(c).cap == c.args[1])), ('invariant', Implies(c.args[1] > 0, n(c).inv())),
                         ('memory moves only to new memory', Or(n(c).start.b == o(c).start.b, n(c).start.b >= c.old.ghost('alloc'))),
                         ('contents kept', FA([j], Implies(And(0 <= j, j < o(c).cap, j < c.args[1]), n(c).mem()[j] == o(c).mem()[j]), patterns=[n(c).mem()[j]]))])
    A('pcu_set_buffer', requires=lambda c: rec(c), modifies=bmod,
      ensures=lambda c: [('takes over the block', And(n(c).start.b == c.args[1].b, n(c).start.o == c.args[1].o, n(c).size == c.args[2], n(c).cap == c.args[2]))])
    return out
