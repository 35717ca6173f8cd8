"""Trusted models of functions outside the verified text (C library, MPI-backed PCU collectives, logging).
Every model used by a run is listed in that run's evidence."""
from z3 import *
from util import FA
from sym import *
import sym
from ctypes_ import T, INT, sizeof

MODELS = {}
METHODS = {}
PREFER_MODEL = set()


def model(*names, prefer=False):
    def d(f):
        for n in names:
            MODELS[n] = f
            if prefer:
                PREFER_MODEL.add(n)
        return f
    return d


def evall(ex, st, args):
    out = []
    for a in args:
        try:
            out.append(ex.ev(st, a))
        except Unsupported:
            out.append(None)
    return out


def nop(ex, st, args, n):
    for a in args:
        if ex.effects(a):
            ex.ev(st, a)
    t = ex.nt(n)
    if t.k == 'void':
        return None
    return ex.fresh_value(st, t, 'ext')


for nm in ('EnGPar_Log_Function', 'EnGPar_End_Function', 'EnGPar_Error_Message', 'EnGPar_Warning_Message',
           'EnGPar_Status_Message', 'EnGPar_Debug_Message', 'EnGPar_Is_Log_Open', 'sprintf', 'printf', 'fprintf', 'snprintf', 'fflush',
           'puts', 'reel_protect', 'setbuf', 'EnGPar_Set_Verbosity', 'PCU_Debug_Print', 'EnGPar_Peak_Memory', 'PCU_Time',
           'EnGPar_Max_Ratio', 'MPI_Wtime', 'fputs', 'assertf'):
    MODELS[nm] = nop
    PREFER_MODEL.add(nm)
PREFER_MODEL.discard('EnGPar_Max_Ratio')


@model('free', 'noto_free', 'operator delete', 'operator delete[]', prefer=True)
def m_free(ex, st, args, n):
    evall(ex, st, args)
    return None


@model('malloc', 'noto_malloc', prefer=True)
def m_malloc(ex, st, args, n):
    b = ex.toint(ex.ev(st, args[0]))
    base = ex.alloc(st, b if ex.spec.bytes else None)
    if ex.spec.bytes:
        return P(base, IntVal(0))
    ex.mallocs = getattr(ex, 'mallocs', {})
    ex.mallocs[base.get_id()] = (base, b)
    return P(base, IntVal(0))


@model('__assert_fail', 'PCU_Assert_Fail', 'abort', 'reel_fail', 'exit', prefer=True)
def m_assert(ex, st, args, n):
    ex.throws(st, 'assertion failure')
    raise PathEnd()


@model('PCU_Comm_Self', 'pcu_mpi_rank', 'PCU_Proc_Self', 'pcu_pmpi_rank', prefer=True)
def m_self(ex, st, args, n):
    return self_peers(ex, st)[0]


@model('PCU_Comm_Peers', 'pcu_mpi_size', 'PCU_Proc_Peers', 'pcu_pmpi_size', prefer=True)
def m_peers(ex, st, args, n):
    return self_peers(ex, st)[1]


def self_peers(ex, st):
    s, p = Int('G_self'), Int('G_peers')
    if not ex.bv:
        ex.gfact(And(s >= 0, s < p, p < 2 ** 31))
    else:
        b = getattr(ex, 'bv_sp', None)
        if b is None:
            b = (BitVec('G_self32', 32), BitVec('G_peers32', 32))
            ex.bv_sp = b
        ex.gfact(And(b[0] >= 0, b[0] < b[1]))
        return b
    return s, p


def coll(fname, rs):
    def m(ex, st, args, n):
        v = ex.ev(st, args[0])
        k = ex.getmem(st, 'G:ncoll')
        f = Function(fname, I, v.sort(), rs or v.sort())
        r = f(k, v)
        ex.setmem(st, 'G:ncoll', k + 1)
        t = ex.nt(n)
        if t.k == 'int':
            ex.gfact(ex.rng(t, r))
        return r
    return m


for nm in ('PCU_Add_Long', 'PCU_Max_Int', 'PCU_Min_Int', 'PCU_Add_Int', 'PCU_Max_Double', 'PCU_Min_Double',
           'PCU_Add_Double', 'PCU_Exscan_Long', 'PCU_Exscan_Int', 'PCU_Max_Long', 'PCU_Min_Long', 'PCU_Add_SizeT'):
    MODELS[nm] = coll('coll:' + nm, None)
    PREFER_MODEL.add(nm)


@model('PCU_Barrier', prefer=True)
def m_barrier(ex, st, args, n):
    """a barrier has no effect on data; not inside an open message phase"""
    ex.oblige(st, 'barrier outside of a message phase (%s)' % ex.line(n), gget(ex, st, 'st') == 0)
    return IntVal(0)


def peel(ex, n):
    while n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr') and \
            n.get('castKind') in (None, 'BitCast', 'NoOp', 'ArrayToPointerDecay', 'LValueToRValue'):
        t = ex.nt(n)
        if t.k == 'ptr' and t.a.k not in ('void',) and n.get('castKind') in ('LValueToRValue', 'ArrayToPointerDecay'):
            return t.a
        n = ex.inner(n)[0]
    t = ex.nt(n)
    if t.k == 'ptr' or t.k == 'arr':
        return t.a
    raise Unsupported('memory function on %r' % t)


def elts(ex, st, nbytes, es):
    nb = simplify(nbytes)
    if is_int_value(nb):
        return IntVal(nb.as_long() // es)
    # x*es with es literal
    q = simplify(nb / es)
    if is_app(nb) and nb.decl().kind() == Z3_OP_MUL:
        ch = nb.children()
        if is_int_value(ch[0]) and ch[0].as_long() % es == 0:
            f = ch[0].as_long() // es
            rest = ch[1] if len(ch) == 2 else Product(*ch[1:])
            return simplify(f * rest)
    return nb / es


@model('memcpy', 'memmove', '__builtin_memcpy', prefer=True)
def m_memcpy(ex, st, args, n):
    d, s, nb = ex.ev(st, args[0]), ex.ev(st, args[1]), ex.toint(ex.ev(st, args[2]))
    t = peel(ex, args[0])
    if t.k == 'void':
        t = peel(ex, args[1])
    if t.k == 'void':
        t = INT(8)
    leaf = t
    while leaf.k == 'arr':
        leaf = leaf.a
    cnt = nb if ex.spec.bytes else elts(ex, st, nb, sizeof(leaf))
    if not isinstance(d, P) or not isinstance(s, P):
        raise Unsupported('memcpy on non-memory')
    if ex.spec.bounds:
        ln = lambda b: Select(ex.getmem(st, 'len'), b)
        ex.oblige(st, 'safety: memcpy destination in bounds', And(cnt >= 0, Or(cnt == 0, And(d.o >= 0, d.o + cnt <= ln(d.b)))))
        ex.oblige(st, 'safety: memcpy source in bounds', Or(cnt == 0, And(s.o >= 0, Or(s.o + cnt <= ln(s.b), s.o + cnt <= Select(ex.getmem(st, 'C:size'), s.b)))))
    e = ex.ename(leaf)
    names = ['M:p.b', 'M:p.o'] if e == 'p' else ['M:' + e]
    if ex.spec.bytes:
        names = ['M:byte']
    for nm in names:
        m = ex.getmem(st, nm)
        old, src = Select(m, d.b), Select(m, s.b)
        na = ex.fresh('cpy', m.sort().range())
        k = Int('k!q')
        ex.fact(st, FA([k], na[k] == If(And(k >= d.o, k < d.o + cnt), src[k - d.o + s.o], old[k]), patterns=[na[k]]))
        ex.setmem(st, nm, Store(m, d.b, na), d.b)
    return d


@model('memset', prefer=True)
def m_memset(ex, st, args, n):
    d, v, nb = ex.ev(st, args[0]), ex.toint(ex.ev(st, args[1])), ex.toint(ex.ev(st, args[2]))
    if not (is_int_value(simplify(v)) and simplify(v).as_long() == 0):
        raise Unsupported('memset non-zero')
    t = peel(ex, args[0])
    leaf = t
    while leaf.k == 'arr':
        leaf = leaf.a
    cnt = elts(ex, st, nb, sizeof(leaf))
    e = ex.ename(leaf)
    nm = 'M:' + e
    m = ex.getmem(st, nm)
    old = Select(m, d.b)
    na = ex.fresh('set', m.sort().range())
    k = Int('k!q')
    ex.fact(st, FA([k], na[k] == If(And(k >= d.o, k < d.o + cnt), ex.zero(leaf), old[k]), patterns=[na[k]]))
    ex.setmem(st, nm, Store(m, d.b, na), d.b)
    return d


def two(ex, st, args):
    a, b = ex.ev(st, args[0]), ex.ev(st, args[1])
    return a, b


@model('max', prefer=True)
def m_max(ex, st, args, n):
    a, b = two(ex, st, args)
    return If(a < b, b, a)


@model('min', prefer=True)
def m_min(ex, st, args, n):
    a, b = two(ex, st, args)
    return If(b < a, b, a)


@model('swap', prefer=True)
def m_swap(ex, st, args, n):
    la, lb = ex.lv(st, args[0]), ex.lv(st, args[1])
    a, b = ex.read(st, la), ex.read(st, lb)
    ex.write(st, la, b)
    ex.write(st, lb, a)
    return None


@model('abs', 'fabs', prefer=True)
def m_abs(ex, st, args, n):
    a = ex.ev(st, args[0])
    return If(a >= 0, a, -a)


@model('make_pair', prefer=True)
def m_mkpair(ex, st, args, n):
    t = ex.nt(n)
    a, b = ex.ev(st, args[0]), ex.ev(st, args[1])
    return Pair(a, b)


@model('ceil', 'floor')
def m_round(ex, st, args, n):
    a = ex.ev(st, args[0])
    nm = ex.inner(n)
    c, d = ex.callee(st, nm[0])
    if d.get('name') == 'floor':
        return ToReal(ToInt(a))
    return -ToReal(ToInt(-a))


@model('sqrt')
def m_sqrt(ex, st, args, n):
    a = ex.ev(st, args[0])
    r = Function('sqrt', R, R)(a)
    ex.gfact(Implies(a >= 0, And(r >= 0, r * r == a)))
    return r


def addr_lv(ex, st, n):
    """the location whose address the argument takes"""
    while n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr'):
        n = ex.inner(n)[0]
    if n['kind'] == 'UnaryOperator' and n.get('opcode') == '&':
        return ex.lv(st, ex.inner(n)[0])
    raise Unsupported('address argument')


def find_ref(n, pre):
    if isinstance(n, dict):
        nm = (n.get('referencedDecl') or {}).get('name', '')
        if nm.startswith(pre):
            return nm
        for c in n.get('inner', []):
            r = find_ref(c, pre)
            if r:
                return r
    return None


@model('MPI_Allreduce', prefer=True)
def m_allreduce(ex, st, args, n):
    """one value reduced over all ranks: a function of the operation, the position in the sequence of collectives and the contribution"""
    cnt = simplify(ex.toint(ex.ev(st, args[2])))
    op = find_ref(args[4], 'ompi_mpi_op_')
    if not (is_int_value(cnt) and cnt.as_long() == 1 and op):
        raise Unsupported('MPI_Allreduce of several values')
    src, dst = addr_lv(ex, st, args[0]), addr_lv(ex, st, args[1])
    v = ex.read(st, src)
    k = ex.getmem(st, 'G:ncoll')
    r = Function('allreduce:MPI_' + op[12:].upper(), I, v.sort(), v.sort())(k, v)
    ex.setmem(st, 'G:ncoll', k + 1)
    ex.write(st, dst, r)
    return IntVal(0)


@model('PCU_Get_Comm', prefer=True)
def m_get_comm(ex, st, args, n):
    """the current communicator (not changed by the functions under contract)"""
    return P(Int('G_comm'), IntVal(0))


@model('MPI_Comm_rank', prefer=True)
def m_comm_rank(ex, st, args, n):
    """own rank in the given communicator"""
    cm = ex.ev(st, args[0])
    r = Function('mpi:rank_in', I, I, I)(cm.b, cm.o)
    ex.gfact(And(r >= 0, r < 2 ** 31))
    ex.write(st, addr_lv(ex, st, args[1]), r)
    return IntVal(0)


@model('MPI_Allgather', prefer=True)
def m_allgather(ex, st, args, n):
    """one int of every rank: entry r is what rank r contributed to this collective; the own entry is the value given"""
    a, b = (simplify(ex.toint(ex.ev(st, args[k]))) for k in (1, 4))
    if not all(is_int_value(x) and x.as_long() == 1 for x in (a, b)) or find_ref(args[2], 'ompi_mpi_') != 'ompi_mpi_int' or find_ref(args[5], 'ompi_mpi_') != 'ompi_mpi_int':
        raise Unsupported('MPI_Allgather of other than one int')
    v = ex.read(st, addr_lv(ex, st, args[0]))
    dst, cm = ex.ev(st, args[3]), ex.ev(st, args[6])
    s, p = self_peers(ex, st)
    k = ex.getmem(st, 'G:ncoll')
    G = Function('mpi:gathered', I, I, I, I, I)
    ex.oblige(st, 'gather: room for one value of every rank (%s)' % ex.line(n), And(dst.b >= 1, dst.o >= 0, dst.o + p <= Select(ex.getmem(st, 'len'), dst.b)))
    ex.gfact(G(k, cm.b, cm.o, s) == v)
    m = ex.getmem(st, 'M:int')
    old, na = Select(m, dst.b), ex.fresh('gath', m.sort().range())
    i = Int('i!q')
    ex.fact(st, FA([i], na[i] == If(And(i >= dst.o, i < dst.o + p), G(k, cm.b, cm.o, i - dst.o), old[i]), patterns=[na[i]]))
    ex.setmem(st, 'M:int', Store(m, dst.b, na), dst.b)
    ex.setmem(st, 'G:ncoll', k + 1)
    return IntVal(0)


A2A, A2AV, A2AN = Function('mpi:alltoall', I, I, I, I), Function('mpi:alltoallv', I, I, I, I, I), Function('mpi:alltoallv_count', I, I, I, I)


@model('MPI_Alltoall', prefer=True)
def m_alltoall(ex, st, args, n):
    """one int to and from every rank: A2A(k, from, to) in collective k"""
    a, b = (simplify(ex.toint(ex.ev(st, args[k]))) for k in (1, 4))
    if not all(is_int_value(x) and x.as_long() == 1 for x in (a, b)) or find_ref(args[2], 'ompi_mpi_') not in ('ompi_mpi_int', 'ompi_mpi_int32_t') or find_ref(args[5], 'ompi_mpi_') not in ('ompi_mpi_int', 'ompi_mpi_int32_t'):
        raise Unsupported('MPI_Alltoall of other than one int')
    src, dst = ex.ev(st, args[0]), ex.ev(st, args[3])
    ex.ev(st, args[6])
    s, p = self_peers(ex, st)
    k = ex.getmem(st, 'G:ncoll')
    ln = ex.getmem(st, 'len')
    for q, w in ((src, 'sent'), (dst, 'received')):
        ex.oblige(st, 'alltoall: one %s value per rank (%s)' % (w, ex.line(n)), And(q.b >= 1, q.o >= 0, q.o + p <= Select(ln, q.b)))
    m = ex.getmem(st, 'M:int')
    sb, old, na = Select(m, src.b), Select(m, dst.b), ex.fresh('a2a', m.sort().range())
    i = Int('i!q')
    ex.fact(st, FA([i], Implies(And(0 <= i, i < p), A2A(k, s, i) == sb[src.o + i]), patterns=[A2A(k, s, i)]))
    ex.fact(st, FA([i], na[i] == If(And(i >= dst.o, i < dst.o + p), A2A(k, i - dst.o, s), old[i]), patterns=[na[i]]))
    ex.setmem(st, 'M:int', Store(m, dst.b, na), dst.b)
    ex.setmem(st, 'G:ncoll', k + 1)
    return IntVal(0)


@model('MPI_Alltoallv', prefer=True)
def m_alltoallv(ex, st, args, n):
    """longs to and from every rank: A2AV(k, from, to, j) is the j-th of A2AN(k, from, to) values in collective k"""
    if any(find_ref(args[x], 'ompi_mpi_') != 'ompi_mpi_int64_t' for x in (3, 7)):
        raise Unsupported('MPI_Alltoallv of other than 64-bit integers')
    sp, sc, sd, rp, rc, rd = (ex.ev(st, args[x]) for x in (0, 1, 2, 4, 5, 6))
    ex.ev(st, args[8])
    s, p = self_peers(ex, st)
    k = ex.getmem(st, 'G:ncoll')
    ln, mi, m = ex.getmem(st, 'len'), ex.getmem(st, 'M:int'), ex.getmem(st, 'M:long')
    i, j = Ints('i!q j!q')
    at = lambda q, x: Select(Select(mi, q.b), simplify(q.o + x))
    for q, nm in ((sc, 'send counts'), (sd, 'send offsets'), (rc, 'receive counts'), (rd, 'receive offsets')):
        ex.oblige(st, 'alltoallv: %s of every rank (%s)' % (nm, ex.line(n)), And(q.b >= 1, q.o >= 0, q.o + p <= Select(ln, q.b)))
    for q, ct, ds, nm in ((sp, sc, sd, 'sent'), (rp, rc, rd, 'received')):
        ex.oblige(st, 'alltoallv: the %s values lie inside the buffer (%s)' % (nm, ex.line(n)),
                  FA([i], Implies(And(0 <= i, i < p), And(at(ct, i) >= 0, Implies(at(ct, i) > 0, And(q.b >= 1, at(ds, i) >= 0, q.o >= 0, q.o + at(ds, i) + at(ct, i) <= Select(ln, q.b)))))))
    ex.oblige(st, 'alltoallv: values of different senders are received in different places (%s)' % ex.line(n),
              FA([i, j], Implies(And(0 <= i, i < j, j < p), Or(at(rd, i) + at(rc, i) <= at(rd, j), at(rd, j) + at(rc, j) <= at(rd, i)))))
    sb, na = Select(m, sp.b), ex.fresh('a2av', m.sort().range())
    ex.fact(st, FA([i], Implies(And(0 <= i, i < p), A2AN(k, s, i) == at(sc, i)), patterns=[A2AN(k, s, i)]))
    ex.fact(st, FA([i, j], Implies(And(0 <= i, i < p, 0 <= j, j < at(sc, i)), A2AV(k, s, i, j) == sb[sp.o + at(sd, i) + j]), patterns=[A2AV(k, s, i, j)]))
    ex.fact(st, FA([i, j], Implies(And(0 <= i, i < p, 0 <= j, j < at(rc, i)), na[rp.o + at(rd, i) + j] == A2AV(k, i, s, j)), patterns=[A2AV(k, i, s, j)]))
    ex.setmem(st, 'M:long', Store(m, rp.b, na), rp.b)
    ex.setmem(st, 'G:ncoll', k + 1)
    return IntVal(0)


def copy_bytes(ex, st, db, do, sb, so, cnt):
    """M:byte[db][do .. do+cnt) := M:byte[sb][so .. so+cnt)"""
    m = ex.getmem(st, 'M:byte')
    old, src = Select(m, db), Select(m, sb)
    na = ex.fresh('cpy', m.sort().range())
    k = Int('k!q')
    ex.fact(st, FA([k], na[k] == If(And(k >= do, k < do + cnt), src[k - do + so], old[k]), patterns=[na[k]]))
    ex.setmem(st, 'M:byte', Store(m, db, na), db)


@model('realloc', 'noto_realloc', prefer=True)
def m_realloc(ex, st, args, n):
    """new memory holding the old bytes (the old block is not used afterwards)"""
    p, nb = ex.ev(st, args[0]), ex.toint(ex.ev(st, args[1]))
    if not ex.spec.bytes:
        raise Unsupported('realloc outside byte mode')
    ol = Select(ex.getmem(st, 'len'), p.b)
    base = ex.alloc(st, nb)
    copy_bytes(ex, st, base, IntVal(0), p.b, p.o, If(p.b == 0, IntVal(0), If(ol - p.o < nb, ol - p.o, nb)))
    return P(base, IntVal(0))


def file_xfer(ex, st, args, write):
    """fwrite/fread: r <= nmemb items move between memory and the file at its position; the bytes of a file are the memory
    of the FILE object, its position is the ghost field FILE.gpos"""
    p, size, nm, f = ex.ev(st, args[0]), ex.toint(ex.ev(st, args[1])), ex.toint(ex.ev(st, args[2])), ex.ev(st, args[3])
    if not ex.spec.bytes:
        raise Unsupported('file access outside byte mode')
    ex.ftypes.setdefault('FILE.gpos', INT(64))
    lv = sym.LField('FILE.gpos', f.b, INT(64))
    pos = ex.read(st, lv, facts=False)
    r = ex.fresh('items')
    ex.fact(st, And(r >= 0, r <= nm))
    nb = simplify(size * r)
    if ex.spec.bounds:
        full = simplify(size * nm)
        ex.oblige(st, 'safety: file buffer in bounds', Or(full == 0, And(p.o >= 0, p.o + full <= Select(ex.getmem(st, 'len'), p.b))))
    if write:
        copy_bytes(ex, st, f.b, pos, p.b, p.o, nb)
    else:
        ex.fact(st, Implies(nb > 0, pos + nb <= Select(ex.getmem(st, 'len'), f.b)))
        copy_bytes(ex, st, p.b, p.o, f.b, pos, nb)
    ex.write(st, lv, simplify(pos + nb))
    return r


@model('fwrite', prefer=True)
def m_fwrite(ex, st, args, n):
    return file_xfer(ex, st, args, True)


@model('fread', prefer=True)
def m_fread(ex, st, args, n):
    return file_xfer(ex, st, args, False)


@model('strlen', prefer=True)
def m_strlen(ex, st, args, n):
    p = ex.ev(st, args[0])
    if not ex.spec.bytes:
        return ex.fresh('strlen')
    r = ex.fresh('strlen')
    A = Select(ex.getmem(st, 'M:byte'), p.b)
    k = Int('k!q')
    ex.fact(st, And(r >= 0, A[p.o + r] == 0, p.o + r < Select(ex.getmem(st, 'len'), p.b), FA([k], Implies(And(p.o <= k, k < p.o + r), A[k] != 0), patterns=[A[k]])))
    return r


# ---- PCU point-to-point phases.  Sent items are recorded in a ghost log (destination, value, size, in order);
# received items are an arbitrary stream per phase, constrained only by what a contract states the peers send.
PCU_G = {'G:pcu:st': I, 'G:pcu:ph': I, 'G:pcu:n': I, 'G:pcu:cur': I, 'G:pcu:snd': I,
         'G:pcu:to': ArraySort(I, I), 'G:pcu:val': ArraySort(I, I), 'G:pcu:rval': ArraySort(I, R), 'G:pcu:sz': ArraySort(I, I), 'G:pcu:at': ArraySort(I, I)}
Exec.GS.update(PCU_G)
RN = Function('rcv:count', I, I)
RV = Function('rcv:value', I, I, I)
RR = Function('rcv:real', I, I, R)
RS = Function('rcv:sender', I, I, I)
RZ = Function('rcv:size', I, I, I)


def gget(ex, st, n):
    return ex.getmem(st, 'G:pcu:' + n)


def gput(ex, st, n, v):
    ex.setmem(st, 'G:pcu:' + n, v)


@model('PCU_Comm_Begin', prefer=True)
def m_begin(ex, st, args, n):
    ex.oblige(st, 'messages: a phase begins only when none is open (%s)' % ex.line(n), gget(ex, st, 'st') == 0)
    gput(ex, st, 'st', IntVal(1))
    p = gget(ex, st, 'ph') + 1
    gput(ex, st, 'ph', p)
    gput(ex, st, 'cur', IntVal(0))
    ex.gfact(RN(p) >= 0)
    return IntVal(0)


def msg_target(ex, st, args):
    """(lvalue or None, pointer or None, element type, count) of a (pointer, bytes) argument pair"""
    nb = simplify(ex.toint(ex.ev(st, args[1])))
    try:
        lv = addr_lv(ex, st, args[0])
        t = lv.ty
        if t.k not in ('arr', 'rec'):
            return lv, None, t, None, nb
        if t.k == 'arr':
            v = ex.read(st, lv)
            return None, v, t.a, nb, nb
    except Unsupported:
        pass
    t = peel(ex, args[0])
    return None, ex.ev(st, args[0]), t, nb, nb


@model('PCU_Comm_Pack', prefer=True)
def m_pack(ex, st, args, n):
    to = ex.toint(ex.ev(st, args[0]))
    ex.oblige(st, 'messages: packing only in an open phase (%s)' % ex.line(n), gget(ex, st, 'st') == 1)
    ex.oblige(st, 'messages: destination is a rank (%s)' % ex.line(n), And(to >= 0, to < Int('G_peers')))
    ex.gfact(And(Int('G_self') >= 0, Int('G_self') < Int('G_peers'), Int('G_peers') < 2 ** 31))
    lv, p, t, cnt, nb = msg_target(ex, st, args[1:])
    k = gget(ex, st, 'n')
    ph = gget(ex, st, 'ph')
    es = sizeof(t)
    if lv is not None:
        ex.oblige(st, 'messages: the packed object and its size agree (%s)' % ex.line(n), nb == es)
        v = ex.read(st, lv)
        for nm, x in (('to', to), ('sz', IntVal(es)), ('at', ph)):
            gput(ex, st, nm, Store(gget(ex, st, nm), k, x))
        v = v.o if isinstance(v, P) else v
        if isinstance(v, ArithRef) and v.is_real():
            gput(ex, st, 'rval', Store(gget(ex, st, 'rval'), k, v))
        else:
            if isinstance(v, BoolRef):
                v = If(v, IntVal(1), IntVal(0))
            gput(ex, st, 'val', Store(gget(ex, st, 'val'), k, v))
        gput(ex, st, 'n', simplify(k + 1))
        return IntVal(0)
    m = elts(ex, st, nb, es)
    if is_int_value(simplify(m)) and simplify(m).as_long() <= 4:
        for j in range(simplify(m).as_long()):
            v = ex.read(st, ex.deref(st, p, IntVal(j), t, n))
            for nm, x in (('to', to), ('sz', IntVal(es)), ('at', ph)):
                gput(ex, st, nm, Store(gget(ex, st, nm), simplify(k + j), x))
            nm = 'rval' if t.k == 'real' else 'val'
            gput(ex, st, nm, Store(gget(ex, st, nm), simplify(k + j), v.o if isinstance(v, P) else v))
        gput(ex, st, 'n', simplify(k + m))
        return IntVal(0)
    ex.oblige(st, 'messages: packed array in bounds (%s)' % ex.line(n), And(m >= 0, p.o >= 0, Or(m == 0, p.o + m <= Select(ex.getmem(st, 'len'), p.b))))
    j = Int('j!q')
    src = Select(ex.getmem(st, 'M:' + ex.ename(t)), p.b)
    for nm, x in (('to', to), ('sz', IntVal(es)), ('at', ph), ('rval' if t.k == 'real' else 'val', src[p.o + j - k])):
        o = gget(ex, st, nm)
        a = ex.fresh('G' + nm, o.sort())
        ex.fact(st, FA([j], a[j] == If(And(k <= j, j < k + m), x, o[j]), patterns=[a[j]]))
        gput(ex, st, nm, a)
    gput(ex, st, 'n', simplify(k + m))
    return IntVal(0)


@model('PCU_Comm_Send', prefer=True)
def m_send(ex, st, args, n):
    ex.oblige(st, 'messages: sending ends an open packing phase (%s)' % ex.line(n), gget(ex, st, 'st') == 1)
    gput(ex, st, 'st', IntVal(2))
    return IntVal(0)


@model('PCU_Comm_Receive', prefer=True)
def m_receive(ex, st, args, n):
    ex.oblige(st, 'messages: receiving only after sending (%s)' % ex.line(n), gget(ex, st, 'st') == 2)
    ph, cur = gget(ex, st, 'ph'), gget(ex, st, 'cur')
    more = cur < RN(ph)
    ex.gfact(RN(ph) >= 0)
    gput(ex, st, 'st', If(more, IntVal(2), IntVal(0)))
    gput(ex, st, 'snd', If(more, RS(ph, cur), gget(ex, st, 'snd')))
    ex.gfact(And(RS(ph, cur) >= 0, RS(ph, cur) < Int('G_peers')))
    return more


@model('PCU_Comm_Listen', prefer=True)
def m_listen(ex, st, args, n):
    """the next message: everything its sender packed; what is left of the previous one would be lost"""
    ph, cur = gget(ex, st, 'ph'), gget(ex, st, 'cur')
    ex.oblige(st, 'messages: the previous message is consumed (%s)' % ex.line(n), Or(cur <= 0, cur >= RN(ph), RS(ph, cur) != RS(ph, cur - 1)))
    return m_receive(ex, st, args, n)


@model('PCU_Comm_Sender', prefer=True)
def m_sender(ex, st, args, n):
    return gget(ex, st, 'snd')


@model('PCU_Comm_Unpack', prefer=True)
def m_unpack(ex, st, args, n):
    ex.oblige(st, 'messages: unpacking only while receiving (%s)' % ex.line(n), gget(ex, st, 'st') == 2)
    ph, cur = gget(ex, st, 'ph'), gget(ex, st, 'cur')
    lv, p, t, cnt, nb = msg_target(ex, st, args)
    es = sizeof(t)

    def item(k):
        ex.gfact(ex.rng(t, RV(ph, k))) if t.k == 'int' else None
        return RR(ph, k) if t.k == 'real' else (P(IntVal(0), RV(ph, k)) if t.k == 'ptr' else RV(ph, k))
    if lv is not None:
        ex.oblige(st, 'messages: an item is left to unpack (%s)' % ex.line(n), cur < RN(ph))
        ex.oblige(st, 'messages: the unpacked object and the item agree in size (%s)' % ex.line(n), And(nb == es, RZ(ph, cur) == es))
        ex.write(st, lv, item(cur))
        gput(ex, st, 'cur', simplify(cur + 1))
        return IntVal(0)
    m = elts(ex, st, nb, es)
    j = Int('j!q')
    if is_int_value(simplify(m)) and simplify(m).as_long() <= 4:
        mm = simplify(m).as_long()
        ex.oblige(st, 'messages: the items are left to unpack (%s)' % ex.line(n), cur + mm <= RN(ph))
        for q in range(mm):
            ex.oblige(st, 'messages: the unpacked object and the item agree in size (%s)' % ex.line(n), RZ(ph, cur + q) == es)
            ex.write(st, ex.deref(st, p, IntVal(q), t, n), item(simplify(cur + q)))
        gput(ex, st, 'cur', simplify(cur + m))
        return IntVal(0)
    ex.oblige(st, 'messages: unpacked array in bounds (%s)' % ex.line(n), And(m >= 0, p.o >= 0, Or(m == 0, p.o + m <= Select(ex.getmem(st, 'len'), p.b))))
    ex.oblige(st, 'messages: the items are left to unpack (%s)' % ex.line(n), cur + m <= RN(ph))
    ex.oblige(st, 'messages: the unpacked objects and the items agree in size (%s)' % ex.line(n), FA([j], Implies(And(cur <= j, j < cur + m), RZ(ph, j) == es), patterns=[RZ(ph, j)]))
    nm = 'M:' + ex.ename(t)
    mem = ex.getmem(st, nm)
    o = Select(mem, p.b)
    a = ex.fresh('rcv', o.sort())
    val = RR if t.k == 'real' else RV
    ex.fact(st, FA([j], a[j] == If(And(p.o <= j, j < p.o + m), val(ph, cur + j - p.o), o[j]), patterns=[a[j]]))
    ex.setmem(st, nm, Store(mem, p.b, a), p.b)
    gput(ex, st, 'cur', simplify(cur + m))
    return IntVal(0)
