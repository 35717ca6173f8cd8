"""Contracts of splitting (engpar_split.cpp)."""
from z3 import *
from util import FA
from spec import Spec
from props.graph import *
from sym import P
USES = ['access']
SP = 'partition/Multilevel/engpar_split.cpp'
FILES = [SP, 'agi/agiVertex.cpp']
I = IntSort()


def contributed(k, comm, r):
    """value rank r of the communicator contributed to collective k"""
    return Function('mpi:gathered', I, I, I, I, I)(k, comm.b, comm.o, r)


def specs():
    out = []
    A = out.append
    S = Spec
    g = lambda v, c: Gv(v, c.args[0].b)

    def req(c):
        G0, i = g(c.old, c), Int('i!q')
        return sizes(G0) + [('graph', And(c.args[0].b >= 1, c.args[0].o == 0)), ('owners', Implies(G0.ngv > 0, owned(G0, G0.ptr('owners'), G0.ngv))),
                ('owners are parts', FA([i], Implies(And(0 <= i, i < G0.ngv), And(G0.ow(i) >= 0, G0.ow(i) < Int('G_peers'))), patterns=[G0.ow(i)])),
                ('rank', And(Int('G_self') >= 0, Int('G_self') < Int('G_peers')))]

    def post(c):
        G0, G1, i = g(c.old, c), g(c.new, c), Int('i!p')
        k, cm = c.old.ghost('G:ncoll'), P(Int('G_comm'), IntVal(0))
        return [('every ghost owner is renamed to what that owner contributed', FA([i], Implies(And(0 <= i, i < G0.ngv), G1.ow(i) == contributed(k, cm, G0.ow(i))), patterns=[G1.ow(i)])),
                ('this rank contributes its rank in the new communicator', contributed(k, cm, Int('G_self')) == Function('mpi:rank_in', I, I, I)(c.args[1].b, c.args[1].o)),
                ('one collective', c.new.ghost('G:ncoll') == k + 1)]
    A(S('expandParts', SP, 'engpar::expandParts', requires=req, ensures=post, modifies=lambda c: [('alloc',), ('ghost', 'G:ncoll'), ('mem', 'int', g(c.old, c).ptr('owners').b)]))
    return out
