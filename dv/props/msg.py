"""Helpers for contracts about PCU message phases (ghost log of sent items, streams of received items)."""
from z3 import *
from util import FA
import lib
RN, RV, RR, RS, RZ = lib.RN, lib.RV, lib.RR, lib.RS, lib.RZ


class Log:
    """the ghost state of message passing in a view"""

    def __init__(self, v):
        g = lambda n: v.ghost('G:pcu:' + n)
        self.st, self.ph, self.n, self.cur, self.snd = g('st'), g('ph'), g('n'), g('cur'), g('snd')
        self.to, self.val, self.rval, self.sz, self.at = g('to'), g('val'), g('rval'), g('sz'), g('at')

    def item(self, k, to, val, size, real=False):
        return And(self.to[k] == to, (self.rval if real else self.val)[k] == val, self.sz[k] == size)


def pcu_mod():
    return [('ghost', n) for n in lib.PCU_G]


def pcu_idle(c):
    l = Log(c.old)
    return [('no open message phase', And(l.st == 0, l.n >= 0, Int('G_self') >= 0, Int('G_self') < Int('G_peers'), Int('G_peers') < 2 ** 31))]


def pcu_done(c, phases=None):
    l, o = Log(c.new), Log(c.old)
    out = [('every phase is completed', l.st == 0)]
    if phases is not None:
        out.append(('number of phases', l.ph == o.ph + phases))
    return out


def log_kept(new, old, n):
    """items logged before stay"""
    k = Int('k!lk')
    return FA([k], Implies(And(0 <= k, k < n), And(new.to[k] == old.to[k], new.val[k] == old.val[k], new.sz[k] == old.sz[k], new.rval[k] == old.rval[k])),
              patterns=[new.to[k], new.val[k], new.rval[k]])


def senders(p):
    k = Int('k!sd')
    return FA([k], And(RS(p, k) >= 0, RS(p, k) < Int('G_peers')), patterns=[RS(p, k)])
