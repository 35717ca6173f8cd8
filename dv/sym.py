"""Symbolic executor: turns one function of the real source (clang AST) plus its contract into proof
obligations.  Callees under contract are used through their contract; callees without one are
inlined; loops are cut at their head with invariants (contract-provided templates plus templates
derived from the loop body, all filtered to an inductive subset before use)."""
import itertools, os, time
from z3 import *
from util import FA
import ctypes_ as CT
from ctypes_ import T, INT, BOOL, REAL, VOID, sizeof
import front

I = IntSort()
B = BoolSort()
R = RealSort()


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ values
class P:
    """pointer: allocation base + element offset.  base==0 is an integer-valued pointer."""
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b = IntVal(b) if isinstance(b, int) else b
        self.o = IntVal(o) if isinstance(o, int) else o

    def __repr__(self):
        return 'P(%s,%s)' % (self.b, self.o)


class PL:
    """pointer to an lvalue that is not raw memory (a local, a field, a map value)"""

    def __init__(self, lv):
        self.lv = lv


class PF:
    """pointer into an array-typed field"""

    def __init__(self, name, obj, ty, idx=0):
        self.name, self.obj, self.ty = name, obj, ty
        self.idx = IntVal(idx) if isinstance(idx, int) else idx


class Obj:
    def __init__(self, id, ty):
        self.id, self.ty = id, ty

    def __repr__(self):
        return 'Obj(%s:%r)' % (self.id, self.ty)


DECLNO = {}     # order in which locals are first declared


class It:
    """container iterator: position in the (abstract) enumeration of container `cid`"""

    def __init__(self, kind, cid, ty, pos, A=None, key=None):
        self.kind, self.cid, self.ty, self.pos, self.A, self.key = kind, cid, ty, pos, A, key


def itcont(t):
    """container type of an iterator type (None if t is not one)"""
    if t.k != 'rec' or not t.a.endswith('iterator'):
        return None
    if t.a == 'iterator':
        return t.b[0]
    if not t.b:
        return None
    e = t.b[0]
    pr = e.k == 'rec' and e.a == 'pair'
    if t.a.startswith('_Node'):
        return T('rec', 'unordered_map', list(e.b)) if pr else T('rec', 'unordered_set', [e])
    if t.a.startswith('_Rb_tree'):
        return T('rec', 'map', list(e.b)) if pr else T('rec', 'set', [e])
    if t.a == '__normal_iterator' and len(t.b) > 1:
        return t.b[1]
    return None


# pointer fields that may point at a record held by value in another one (all other pointers in memory do not)
INTERIOR = set()


def interior(b):
    """is the base of a pointer syntactically a record held by value"""
    return is_app(b) and b.num_args() > 0 and b.decl().name().split(':')[0] in ('sub', 'subi', 'mapobj', 'elemobj')


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b


class FuncRef:
    def __init__(self, node, tu):
        self.node, self.tu = node, tu


class Str:
    """a string: only its identity as a value (v) is tracked"""
    def __init__(self, v=None):
        self.v = v


# ------------------------------------------------------------------ lvalues
class LVar:
    def __init__(self, key, ty):
        self.key, self.ty = key, ty


class LMem:
    def __init__(self, ty, p):
        self.ty, self.p = ty, p


class LMemC(LMem):
    """component of a pair stored in a sequence: path is a string of 1s (first) and 2s (second)"""

    def __init__(self, ty, p, path):
        self.ty, self.p, self.path = ty, p, path


class LField:
    def __init__(self, name, obj, ty):
        self.name, self.obj, self.ty = name, obj, ty


class LFieldArr:
    def __init__(self, name, obj, idx, ty):
        self.name, self.obj, self.idx, self.ty = name, obj, idx, ty


class LMap:
    def __init__(self, mapid, key, ty, kty):
        self.mapid, self.key, self.ty, self.kty = mapid, key, ty, kty


class LObj:
    def __init__(self, obj):
        self.obj, self.ty = obj, obj.ty


class LVal:
    """a value used where an lvalue is needed (temporary)"""

    def __init__(self, v, ty):
        self.v, self.ty = v, ty


class LPair:
    def __init__(self, base, which, ty):
        self.base, self.which, self.ty = base, which, ty


CONT_SEQ = {'vector', 'deque', 'list'}
CONT_SET = {'unordered_set', 'set'}
CONT_MAP = {'unordered_map', 'map'}


def is_cont(t):
    return t.k == 'rec' and (t.a in CONT_SEQ or t.a in CONT_SET or t.a in CONT_MAP)


def opaque(t):
    return t.k == 'ptr' and t.a.k == 'rec' and t.a.a in CT.OPAQUE


def has_quant(e, memo={}):
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = is_quantifier(e) or any(has_quant(c) for c in e.children())
    memo[k] = (e, r)
    return r


def consts_of(e, cache={}):
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_const(x) and x.decl().kind() == Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    cache[k] = (e, out)
    return out


COVER = os.environ.get('DV_COVER')     # development: also look for unreachable calls


class State:
    __slots__ = ('env', 'mem', 'pc', 'types', 'tc')

    def __init__(self):
        self.tc = {}
        self.env, self.mem, self.pc, self.types = {}, {}, [], {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.types = self.types
        return s


class Ob:
    __slots__ = ('name', 'facts', 'goal', 'status', 'backend', 'time', 'model', 'kind')

    def __init__(self, name, facts, goal, kind='post'):
        self.name, self.facts, self.goal, self.kind = name, facts, goal, kind
        self.status, self.backend, self.time, self.model = None, None, 0.0, None


class View:
    """read access to a symbolic state, for contracts"""

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def f(self, obj, name, ty=None):
        """scalar/pointer field value.  name 'Cls.field'"""
        v = self.ex.read(self.st, LField(name, obj, ty or self.ex.field_type(name)), facts=False)
        if isinstance(v, P) and name not in INTERIOR:
            self.ex.rootfact(v)
        return v

    def fi(self, obj, name, idx):
        t = self.ex.field_type(name)
        idx = IntVal(idx) if isinstance(idx, int) else idx
        v = self.ex.read(self.st, LFieldArr(name, obj, idx, t.a), facts=False)
        if isinstance(v, P):
            self.ex.rootfact(v)
        return v

    def arr(self, elt, base):
        """inner array (Int->elt) at allocation `base`"""
        return Select(self.ex.getmem(self.st, 'M:' + elt), base)

    def at(self, elt, p, k):
        return Select(self.arr(elt, p.b), p.o + k)

    def size(self, cid):
        return Select(self.ex.getmem(self.st, 'C:size'), cid)

    def has(self, cid):
        return Select(self.ex.getmem(self.st, 'H:has'), cid)

    def val(self, cid, elt):
        return Select(self.ex.getmem(self.st, 'H:val:' + elt), cid)

    def len(self, base):
        return Select(self.ex.getmem(self.st, 'len'), base)

    def ghost(self, name):
        return self.ex.getmem(self.st, name)

    def sub(self, obj, name, idx=None):
        return self.ex.subobj(name, obj, idx)


class Ctx:
    """what a contract sees"""
    callsite = False
    st = None

    def __init__(self, ex, args, this, old, new=None, ret=None, argtypes=None):
        self.ex, self.args, self.this, self.old, self.new, self.ret = ex, args, this, old, new, ret
        self.argtypes = argtypes
        self.argn = args

    def arg(self, i):
        return self.args[i]

    def retp(self):
        return self.ret.p if isinstance(self.ret, LMem) else self.ret


class LoopCtx(Ctx):
    pass


class Exec:
    def __init__(self, tus, specs, spec, solver, node=None, tu=None):
        self.tus, self.specs, self.spec, self.solver = tus, specs, spec, solver
        self.fn, self.tu = node, tu
        self.tt = {}
        self.n = itertools.count()
        self.facts = []
        self.obs = []
        self.assump = set()
        self.writes = None
        self.fuel = 60
        self.inlined = set()
        self.contracted = set()
        self.models = set()
        self.depth = 0
        self.loopinfo = []
        self.ftypes = {}
        self.quiet = 0
        self.pin_this = None
        self.bv = bool(getattr(spec, 'bv', False))
        self.t0 = time.time()
        self.loopno = 0
        self.subterms = {}
        self.covers = []
        self.castcache = {}
        self.stackfns = []
        self.loop_stack = []

    # -------------------------------------------------------------- basics
    def typ(self, s):
        tab = self.tt.get(self.tu.path)
        if tab is None:
            tab = CT.TypeTab()
            tab.typedefs = self.tu.typedefs
            self.tt[self.tu.path] = tab
        return tab.parse(s)

    def nt(self, node):
        t = node.get('type', {})
        s = t.get('desugaredQualType')
        r = None
        if s is not None:
            r = self.typ(s)
            if r.k == 'rec' and r.a in ('__type',):
                r = self.typ(t['qualType'])
            q = self.typ(t['qualType'])
            if q.k == 'rec' and q.a == 'iterator':
                return q
            return r
        return self.typ(t.get('qualType', 'void'))

    def fresh(self, hint, sort=I):
        return Const('%s!%d' % (hint, next(self.n)), sort)

    def sort(self, t):
        if t.k == 'int':
            return BitVecSort(t.a) if self.bv else I
        if t.k == 'bool':
            return B
        if t.k == 'real':
            return R
        return I

    def ename(self, t):
        """memory name suffix of an element type"""
        if opaque(t):
            return 'h'
        if t.k == 'ptr':
            return 'p'
        if t.k == 'int':
            return repr(t)
        if t.k in ('bool', 'real'):
            return t.k
        raise Unsupported('memory of %r' % t)

    def memsort(self, name):
        if name == 'alloc':
            return I
        if name in ('len', 'C:size'):
            return ArraySort(I, I)
        if name == 'H:has':
            return ArraySort(I, ArraySort(I, B))
        if name.startswith('H:val:') or name.startswith('M:'):
            return ArraySort(I, ArraySort(I, self.esort(name.split(':')[-1])))
        if name.startswith('F:'):
            return self.fsorts[name]
        if name.startswith('G:'):
            return self.gsort(name)
        raise Unsupported('memsort ' + name)

    GS = {'G:inv': ArraySort(I, ArraySort(I, I))}

    def gsort(self, name):
        if name in self.GS:
            return self.GS[name]
        for s in self.specs.ghosts:
            if name == s or name.startswith(s + '#'):
                return self.specs.ghosts[s]
        raise Unsupported('ghost ' + name)

    def esort(self, e):
        e = e.split('.')[0] if '.' in e else e
        if self.bv and e in ('int', 'uint'):
            return BitVecSort(32)
        if self.bv and e in ('long', 'ulong'):
            return BitVecSort(64)
        if self.bv and e in ('char', 'uchar'):
            return BitVecSort(8)
        if e in ('byte', 'char', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'h', 'p'):
            return I
        if e == 'bool':
            return B
        if e == 'real':
            return R
        raise Unsupported('esort ' + e)

    fsorts = {}
    bytecache = {}

    def getmem(self, st, name):
        m = st.mem.get(name)
        if m is None:
            m = Const(name + '@0', self.memsort(name))
            st.mem[name] = m
        return m

    def setmem(self, st, name, v, idx=None):
        st.mem[name] = v
        if self.writes is not None:
            for w in self.writes:
                w.setdefault(name, []).append(idx)

    def guard(self, st):
        return st.pc

    def fact(self, st, f):
        if is_true(f):
            return
        g = [x for x in st.pc]
        if g:
            f = Implies(And(*g) if len(g) > 1 else g[0], f)
        self.facts.append(f)

    def gfact(self, f):
        self.facts.append(f)

    def oblige(self, st, name, goal, kind='safety'):
        if self.quiet:
            return
        if is_true(goal):
            goal = BoolVal(True)
        self.obs.append(Ob(name, list(self.facts) + list(st.pc), goal, kind))

    # -------------------------------------------------------------- quick solver
    def quick(self, st, goal, rl=300000):
        """does goal follow from the quantifier-free part of the facts and the path?"""
        g = simplify(goal)
        if is_true(g):
            return True
        if is_false(g):
            return False
        key = (goal.get_id(), tuple(x.get_id() for x in st.pc), len(self.facts))
        if key in self.castcache:
            return self.castcache[key][1]
        s = Solver()
        s.set('rlimit', rl)
        s.set('timeout', 1500)
        for f in self.facts:
            if not has_quant(f):
                s.add(f)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        s.add(Not(goal))
        r = s.check() == unsat
        self.castcache[key] = (goal, r)
        return r

    # -------------------------------------------------------------- field metadata
    def field_type(self, name):
        if name in self.ftypes:
            return self.ftypes[name]
        cls, fld = name.rsplit('.', 1)
        for tu in [self.tu] + self.tus:
            for q, rec in tu.records.items():
                if q.split('::')[-1] == cls or q == cls:
                    for c in rec.get('inner', []):
                        if c.get('kind') == 'FieldDecl' and c.get('name') == fld:
                            sv = self.tu
                            self.tu = tu
                            t = self.nt(c)
                            self.tu = sv
                            self.ftypes[name] = t
                            return t
        if fld == '__dyn':
            return INT(32)
        raise Unsupported('field type of ' + name)

    def fname(self, name, t, comp=None):
        n = 'F:' + name + (comp or '')
        if n not in self.fsorts:
            if comp == '.A':
                self.fsorts[n] = ArraySort(I, ArraySort(I, B))
            elif t.k == 'arr':
                leaf = t.a
                while leaf.k == 'arr':
                    leaf = leaf.a
                self.fsorts[n] = ArraySort(I, ArraySort(I, self.sort(leaf)))
            else:
                self.fsorts[n] = ArraySort(I, self.sort(t))
        elif self.bv:
            self.fsorts[n] = ArraySort(I, self.sort(t)) if t.k != 'arr' else ArraySort(I, ArraySort(I, self.sort(t.a)))
        return n

    SUBTAG = {}

    def subobj(self, name, obj, idx=None):
        """identity of a by-value record member (or of element idx of an array of records)"""
        tag = self.SUBTAG.setdefault(name, len(self.SUBTAG) + 1)
        tf = Function('sub_tag', I, I)
        pf = Function('sub_parent', I, I)
        xf = Function('sub_index', I, I)
        if idx is None:
            f = Function('sub:' + name, I, I)
            t = f(obj)
        else:
            f = Function('subi:' + name, I, I, I)
            t = f(obj, idx)
        k = t.get_id()
        if k not in self.subterms:
            self.subterms[k] = t
            fs = [t < 0, tf(t) == tag, pf(t) == obj]
            if idx is not None:
                fs.append(xf(t) == idx)
            self.gfact(And(*fs))
        return t

    # -------------------------------------------------------------- read / write
    def rng(self, t, v):
        if t.k == 'int' and not self.bv:
            lo, hi = (-(1 << (t.a - 1)), (1 << (t.a - 1)) - 1) if t.b else (0, (1 << t.a) - 1)
            return And(v >= lo, v <= hi)
        return None

    def ldfacts(self, st, t, v, lv=None):
        if t.k == 'int' and not self.bv and not is_int_value(v):
            self.gfact(self.rng(t, v))
        elif t.k == 'ptr' and isinstance(v, P) and not opaque(t) and not is_int_value(v.b):
            if lv is not None and isinstance(lv, LField) and lv.name in INTERIOR:
                self.fact(st, v.b < self.getmem(st, 'alloc'))
                return
            self.fact(st, And(v.b >= 0, v.b < self.getmem(st, 'alloc')))
            self.rootfact(v)
        elif opaque(t) and isinstance(v, P) and not is_int_value(v.o):
            pass

    def entryid(self, t):
        """is the identity that of an object which existed at entry (decided syntactically)"""
        if is_int_value(t):
            return True
        if not is_app(t):
            return False
        k, nm = t.decl().kind(), t.decl().name()
        if k == Z3_OP_ITE:
            return self.entryid(t.arg(1)) and self.entryid(t.arg(2))
        if k == Z3_OP_SELECT:
            r = t
            while is_select(r) and is_array(r.arg(0)) and is_select(r.arg(0)):
                r = r.arg(0)
            return is_const(r.arg(0)) and r.arg(0).decl().name().endswith('@0') and self.entryid(r.arg(1))
        if k != Z3_OP_UNINTERPRETED:
            return False
        if t.num_args() == 0:
            return nm == 'this' or nm.startswith('arg') or nm.endswith('@0')
        if nm == 'elemobj' or nm == 'mapobj' or nm.startswith(('sub:', 'subi:')):
            return self.entryid(t.arg(0))
        return False

    def rootfact(self, v):
        # the entry memory of objects that existed at entry holds such objects only; an object made since then is
        # described by the same array (at an index the entry state does not use), so its fields are not restricted
        r = v.b
        base = None
        while is_select(r):
            base = r.arg(1)
            r = r.arg(0)
        if base is not None and is_const(r) and r.decl().name().endswith('@0') and not is_const(v.b):
            k = ('root', v.b.get_id())
            if k not in self.subterms:
                self.subterms[k] = v.b
                a0 = Const('alloc@0', I)
                g = And(v.b >= 0, v.b < a0)
                if not self.entryid(base):
                    g = Implies(And(base >= 0, base < a0), g)
                self.gfact(g)

    def read(self, st, lv, facts=True):
        if isinstance(lv, LVar):
            v = st.env.get(lv.key)
            if v is None:
                v = self.fresh_value(st, lv.ty, 'uninit')
                st.env[lv.key] = v
            if isinstance(v, (LVar, LMem, LField, LFieldArr, LMap, LObj, LVal)):
                return self.read(st, v, facts)
            return v
        if isinstance(lv, LVal):
            return lv.v
        if isinstance(lv, LObj):
            return lv.obj
        t = lv.ty
        if isinstance(lv, LMem) and t.k == 'rec' and t.a == 'pair':
            return Pair(*[self.read(st, LMemC(t.b[i], lv.p, getattr(lv, 'path', '') + str(i + 1)), facts) for i in (0, 1)])
        if isinstance(lv, LMemC):
            e = self.ename(t)
            sel = lambda x: Select(Select(self.getmem(st, 'M:%s.%s' % (x, lv.path)), lv.p.b), lv.p.o)
            v = P(sel('p.b'), sel('p.o')) if e == 'p' else (P(IntVal(0), sel(e)) if e == 'h' else sel(e))
        elif isinstance(lv, LMem):
            if t.k == 'rec':
                return Obj(self.elemobj(st, lv.p, t), t)
            if t.k == 'arr':
                return P(lv.p.b, lv.p.o)
            e = self.ename(t)
            if self.spec.bytes and t.k in ('int', 'bool'):
                v = self.rdbytes(st, lv.p, t)
            elif e == 'p':
                b = Select(Select(self.getmem(st, 'M:p.b'), lv.p.b), lv.p.o)
                o = Select(Select(self.getmem(st, 'M:p.o'), lv.p.b), lv.p.o)
                v = P(b, o)
            else:
                v = Select(Select(self.getmem(st, 'M:' + e), lv.p.b), lv.p.o)
                if e == 'h':
                    v = P(IntVal(0), v)
        elif isinstance(lv, LField):
            if itcont(t) is not None:
                ct = itcont(t)
                g = lambda x: Select(self.getmem(st, self.fname(lv.name, t, x)), lv.obj)
                return It('vec', g('.it'), ct, g('.pos')) if ct.a in CONT_SEQ else It('assoc', g('.it'), ct, g('.pos'), g('.A'))
            if t.k == 'rec':
                return Obj(self.subobj(lv.name, lv.obj), t)
            if t.k == 'arr':
                return PF(lv.name, lv.obj, t)
            if t.k == 'ref':
                raise Unsupported('reference field')
            if t.k == 'ptr' and not opaque(t):
                v = P(Select(self.getmem(st, self.fname(lv.name, t, '.b')), lv.obj),
                      Select(self.getmem(st, self.fname(lv.name, t, '.o')), lv.obj))
            else:
                v = Select(self.getmem(st, self.fname(lv.name, t)), lv.obj)
                if opaque(t):
                    v = P(IntVal(0), v)
        elif isinstance(lv, LFieldArr):
            if t.k == 'rec':
                return Obj(self.subobj(lv.name, lv.obj, lv.idx), t)
            at = T('arr', t, 0)
            if t.k == 'ptr' and not opaque(t):
                v = P(Select(Select(self.getmem(st, self.fname(lv.name, at, '.b')), lv.obj), lv.idx),
                      Select(Select(self.getmem(st, self.fname(lv.name, at, '.o')), lv.obj), lv.idx))
            else:
                v = Select(Select(self.getmem(st, self.fname(lv.name, at)), lv.obj), lv.idx)
                if opaque(t):
                    v = P(IntVal(0), v)
        elif isinstance(lv, LMap):
            if t.k == 'rec':
                return Obj(self.mapobj(lv), t)
            e = self.ename(t)
            if e == 'p':
                v = P(Select(Select(self.getmem(st, 'H:val:p.b'), lv.mapid), lv.key),
                      Select(Select(self.getmem(st, 'H:val:p.o'), lv.mapid), lv.key))
            else:
                v = Select(Select(self.getmem(st, 'H:val:' + e), lv.mapid), lv.key)
                if e == 'h':
                    v = P(IntVal(0), v)
        elif isinstance(lv, LPair):
            b = self.read(st, lv.base, facts)
            return b.a if lv.which == 0 else b.b
        else:
            raise Unsupported('read %r' % lv)
        if facts:
            self.ldfacts(st, t, v, lv)
        return v

    def mapobj(self, lv):
        f = Function('mapobj', I, I, I)
        t = f(lv.mapid, lv.key)
        if 'mapobj' not in self.subterms:
            self.subterms['mapobj'] = t
            m, k = Ints('m!mo k!mo')
            self.gfact(FA([m, k], And(f(m, k) < 0, Function('sub_tag', I, I)(f(m, k)) == 0, Function('sub_parent', I, I)(f(m, k)) == m, Function('sub_index', I, I)(f(m, k)) == k), patterns=[f(m, k)]))
        k = t.get_id()
        if k not in self.subterms:
            self.subterms[k] = t
            self.gfact(And(t < 0, Function('sub_tag', I, I)(t) == 0, Function('sub_parent', I, I)(t) == lv.mapid,
                           Function('sub_index', I, I)(t) == lv.key))
        return t

    def elemobj(self, st, p, t):
        o = simplify(p.o)
        if is_int_value(o) and o.as_long() == 0:
            return p.b
        f = Function('elemobj', I, I, I)
        e = f(p.b, o)
        k = e.get_id()
        if k not in self.subterms:
            self.subterms[k] = e
            tag, par, ix = Function('sub_tag', I, I), Function('sub_parent', I, I), Function('sub_index', I, I)
            self.gfact(And(Implies(o == 0, e == p.b), Implies(o != 0, And(e < 0, tag(e) == -1, par(e) == p.b, ix(e) == o))))
        return e

    def put(self, st, name, idx, val):
        m = self.getmem(st, name)
        self.setmem(st, name, Store(m, idx, val), idx)

    def put2(self, st, name, i, j, val):
        m = self.getmem(st, name)
        self.setmem(st, name, Store(m, i, Store(Select(m, i), j, val)), i)
        self.last_put = (name, i, j, val)
        if self.wlog is not None:
            for w in self.wlog:
                w.append((name, i, j, val, list(st.pc)))

    wlog = None

    def write(self, st, lv, v):
        if isinstance(lv, LVar):
            cur = st.env.get(lv.key)
            if isinstance(cur, (LVar, LMem, LField, LFieldArr, LMap)):
                return self.write(st, cur, v)
            st.env[lv.key] = v
            return
        if isinstance(lv, LVal):
            lv.v = v
            return
        t = lv.ty
        if isinstance(lv, LMem) and t.k == 'rec' and t.a == 'pair' and isinstance(v, Pair):
            for i, x in enumerate((v.a, v.b)):
                self.write(st, LMemC(t.b[i], lv.p, getattr(lv, 'path', '') + str(i + 1)), x)
            return
        if isinstance(lv, LMemC):
            e = self.ename(t)
            v = self.tomem(t, v)
            put = lambda x, y: self.put2(st, 'M:%s.%s' % (x, lv.path), lv.p.b, lv.p.o, y)
            if e == 'p':
                put('p.b', v.b)
                put('p.o', v.o)
            else:
                put(e, v.o if e == 'h' else v)
            return
        if isinstance(lv, LField) and itcont(t) is not None and isinstance(v, It):
            self.put(st, self.fname(lv.name, t, '.it'), lv.obj, v.cid)
            self.put(st, self.fname(lv.name, t, '.pos'), lv.obj, v.pos)
            if v.kind != 'vec':
                self.put(st, self.fname(lv.name, t, '.A'), lv.obj, v.A)
            return
        if t.k == 'rec' or isinstance(lv, LObj):
            dst = self.read(st, lv)
            if isinstance(v, Obj) and isinstance(dst, Obj):
                self.copy_rec(st, dst, v)
                return
            raise Unsupported('record assignment %r := %r' % (t, v))
        if isinstance(lv, LMem):
            e = self.ename(t)
            v = self.tomem(t, v)
            if self.spec.bytes and t.k in ('int', 'bool'):
                self.wrbytes(st, lv.p, t, v)
            elif e == 'p':
                if isinstance(v, P) and interior(simplify(v.b)):
                    raise Unsupported('pointer to a member stored in memory')
                self.put2(st, 'M:p.b', lv.p.b, lv.p.o, v.b)
                self.put2(st, 'M:p.o', lv.p.b, lv.p.o, v.o)
            else:
                self.put2(st, 'M:' + e, lv.p.b, lv.p.o, v.o if e == 'h' else v)
        elif isinstance(lv, LField):
            v = self.tomem(t, v)
            if t.k == 'ptr' and not opaque(t):
                if isinstance(v, P) and interior(simplify(v.b)) and lv.name not in INTERIOR:
                    raise Unsupported('pointer to a member stored in ' + lv.name)
                self.put(st, self.fname(lv.name, t, '.b'), lv.obj, v.b)
                self.put(st, self.fname(lv.name, t, '.o'), lv.obj, v.o)
            else:
                self.put(st, self.fname(lv.name, t), lv.obj, v.o if opaque(t) else v)
        elif isinstance(lv, LFieldArr):
            at = T('arr', t, 0)
            v = self.tomem(t, v)
            if t.k == 'ptr' and not opaque(t):
                self.put2(st, self.fname(lv.name, at, '.b'), lv.obj, lv.idx, v.b)
                self.put2(st, self.fname(lv.name, at, '.o'), lv.obj, lv.idx, v.o)
            else:
                self.put2(st, self.fname(lv.name, at), lv.obj, lv.idx, v.o if opaque(t) else v)
        elif isinstance(lv, LMap):
            e = self.ename(t)
            v = self.tomem(t, v)
            if e == 'p':
                self.put2(st, 'H:val:p.b', lv.mapid, lv.key, v.b)
                self.put2(st, 'H:val:p.o', lv.mapid, lv.key, v.o)
            else:
                self.put2(st, 'H:val:' + e, lv.mapid, lv.key, v.o if e == 'h' else v)
                if self.spec.mapinv and e == 'int':
                    self.put2(st, 'G:inv', lv.mapid, v, lv.key)     # ghost: the key last given this value
        else:
            raise Unsupported('write %r' % lv)

    # byte-addressed memory (Spec.bytes): offsets count bytes, integers are little-endian groups of bytes
    def rdbytes(self, st, p, t):
        s = sizeof(t)
        bs = [Select(Select(self.getmem(st, 'M:byte'), p.b), simplify(p.o + k)) for k in range(s)]
        for b in bs:
            self.gfact(And(b >= 0, b <= 255))
        if t.k == 'bool':
            return bs[0] != 0
        v = simplify(Sum([b * (256 ** k) for k, b in enumerate(bs)])) if s > 1 else bs[0]
        if t.b:
            v = If(v >= 256 ** s // 2, v - 256 ** s, v)
        self.bytecache[v.get_id()] = (v, bs)
        return v

    def wrbytes(self, st, p, t, v):
        s = sizeof(t)
        if isinstance(v, BoolRef):
            v = If(v, IntVal(1), IntVal(0))
        c = self.bytecache.get(v.get_id())
        for k in range(s):
            b = c[1][k] if c and len(c[1]) == s else simplify((v / (256 ** k) if k else v) % 256)
            self.put2(st, 'M:byte', p.b, simplify(p.o + k), b)

    def tomem(self, t, v):
        if t.k == 'ptr':
            if isinstance(v, P):
                return v
            if isinstance(v, FuncRef):
                f = self.funcid(v)
                return P(f, IntVal(0))
            if isinstance(v, (PL, PF)):
                raise Unsupported('storing pointer to local/field')
            if isinstance(v, Str):
                return P(self.fresh('str'), IntVal(0))
        if t.k == 'int':
            if isinstance(v, BoolRef):
                return If(v, self.iv(1, t), self.iv(0, t))
        if t.k == 'bool' and isinstance(v, ArithRef):
            return v != 0
        if t.k == 'real' and isinstance(v, ArithRef) and v.is_int():
            return ToReal(v)
        return v

    FIDS = {}
    INT64 = INT(64)

    def funcid(self, fr):
        nm = fr.node.get('mangledName') or fr.node.get('name')
        k = Exec.FIDS.setdefault(nm, len(Exec.FIDS) + 1)
        Exec.FBY[k] = fr
        return IntVal(-1000 - k)

    FBY = {}

    def iv(self, n, t=None):
        if self.bv and t is not None and t.k == 'int':
            return BitVecVal(n, t.a)
        return IntVal(n)

    # -------------------------------------------------------------- fresh values
    def fresh_value(self, st, t, hint, inner=False):
        if t.k == 'ref':
            t = t.a
        if t.k == 'int':
            v = self.fresh(hint, self.sort(t))
            if not self.bv:
                self.gfact(self.rng(t, v))
            return v
        if t.k == 'bool':
            return self.fresh(hint, B)
        if t.k == 'real':
            return self.fresh(hint, R)
        if t.k == 'ptr':
            if opaque(t):
                v = self.fresh(hint)
                self.gfact(v >= 0)
                return P(IntVal(0), v)
            b, o = self.fresh(hint + '.b'), self.fresh(hint + '.o')
            self.fact(st, b < self.getmem(st, 'alloc') if inner else And(b >= 0, b < self.getmem(st, 'alloc')))
            return P(b, o)
        if t.k == 'rec':
            ct = itcont(t)
            if ct is not None:
                cid, pos = self.fresh(hint + '.it'), self.fresh(hint + '.pos')
                return It('vec', cid, ct, pos) if ct.a in CONT_SEQ else It('assoc', cid, ct, pos, self.fresh(hint + '.set', ArraySort(I, B)))
            if t.a == 'iterator':
                return None
            if t.a == 'pair':
                return Pair(self.fresh_value(st, t.b[0], hint), self.fresh_value(st, t.b[1], hint))
            return Obj(self.alloc(st, None), t)
        if t.k == 'arr':
            return P(self.alloc(st, IntVal(self.leafn(t))), IntVal(0))
        if t.k == 'void':
            return None
        raise Unsupported('fresh value of %r' % t)

    def leafn(self, t):
        n = 1
        while t.k == 'arr':
            n *= t.b
            t = t.a
        return n

    def alloc(self, st, n):
        a = self.getmem(st, 'alloc')
        b = self.fresh('new')
        self.fact(st, And(b >= a, b >= 1))
        self.setmem(st, 'alloc', b + 1, None)
        if n is not None:
            self.put(st, 'len', b, n)
        return b

    # -------------------------------------------------------------- merging
    def vmerge(self, c, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, ExprRef) and isinstance(b, ExprRef):
            if a.eq(b):
                return a
            if a.sort() != b.sort():
                if a.sort() == B and b.sort() == I:
                    a = If(a, IntVal(1), IntVal(0))
                elif b.sort() == B and a.sort() == I:
                    b = If(b, IntVal(1), IntVal(0))
            return If(c, a, b)
        if isinstance(a, P) and isinstance(b, P):
            return P(self.vmerge(c, a.b, b.b), self.vmerge(c, a.o, b.o))
        if isinstance(a, Obj) and isinstance(b, Obj):
            return Obj(self.vmerge(c, a.id, b.id), a.ty)
        if isinstance(a, Pair) and isinstance(b, Pair):
            return Pair(self.vmerge(c, a.a, b.a), self.vmerge(c, a.b, b.b))
        if isinstance(a, It) and isinstance(b, It):
            if a.kind == b.kind:
                return It(a.kind, self.vmerge(c, a.cid, b.cid), a.ty, self.vmerge(c, a.pos, b.pos), a.A if (a.A is b.A or (a.A is not None and b.A is not None and a.A.eq(b.A))) else self.vmerge(c, a.A, b.A), a.key if a.key is b.key else None)
        if isinstance(a, Str) and isinstance(b, Str):
            return a
        if isinstance(a, (LVar, LMem, LField, LFieldArr, LMap, LObj)) and type(a) is type(b):
            return a
        if isinstance(a, FuncRef) and isinstance(b, P):
            a = P(self.funcid(a), IntVal(0))
            return self.vmerge(c, a, b)
        if isinstance(b, FuncRef) and isinstance(a, P):
            b = P(self.funcid(b), IntVal(0))
            return self.vmerge(c, a, b)
        if isinstance(a, FuncRef) and isinstance(b, FuncRef):
            if a.node.get('mangledName') == b.node.get('mangledName'):
                return a
            return self.vmerge(c, P(self.funcid(a), IntVal(0)), P(self.funcid(b), IntVal(0)))
        if isinstance(a, PL) and isinstance(b, PL) and isinstance(a.lv, LVar) and isinstance(b.lv, LVar) and a.lv.key == b.lv.key:
            return a
        if isinstance(a, PL) or isinstance(b, PL) or isinstance(a, PF) or isinstance(b, PF):
            return ('merged-opaque',)
        raise Unsupported('merge %r / %r' % (a, b))

    def merge(self, states, rets=None):
        """merge a list of states into one (None if empty)"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        acc = states[0]
        for s in states[1:]:
            acc = self.merge2(acc, s)
        return acc

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        ca = And(*ra) if len(ra) > 1 else (ra[0] if ra else BoolVal(True))
        cb = And(*rb) if len(rb) > 1 else (rb[0] if rb else BoolVal(True))
        out = State()
        out.types = a.types
        out.pc = a.pc[:n]
        d = simplify(Or(ca, cb))
        if not is_true(d):
            out.pc.append(Or(ca, cb))
        c = ca
        for k in set(a.env) | set(b.env):
            try:
                out.env[k] = self.vmerge(c, a.env.get(k), b.env.get(k))
            except Unsupported:
                raise
        for k in set(a.mem) | set(b.mem):
            x, y = self.getmem(a, k), self.getmem(b, k)
            out.mem[k] = x if x.eq(y) else If(c, x, y)
        return out

    # -------------------------------------------------------------- expressions
    def inner(self, n):
        return [c for c in n.get('inner', []) if isinstance(c, dict)]

    def cond(self, st, n):
        v = self.ev(st, n)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, BoolRef):
            return v
        if isinstance(v, BitVecRef):
            return v != 0
        if isinstance(v, ArithRef):
            return v != 0
        if isinstance(v, P):
            if is_int_value(v.b) and v.b.as_long() == 0:
                return v.o != 0
            return Or(v.b != 0, v.o != 0)
        if isinstance(v, (PL, PF, Str, FuncRef)):
            return BoolVal(True)
        raise Unsupported('condition %r' % (v,))

    def lv(self, st, n):
        k = n['kind']
        f = getattr(self, 'lv_' + k, None)
        if f:
            return f(st, n)
        if n.get('valueCategory') == 'prvalue' or True:
            v = self.ev(st, n)
            if isinstance(v, Obj):
                return LObj(v)
            return LVal(v, self.nt(n))

    def lv_ParenExpr(self, st, n):
        return self.lv(st, self.inner(n)[0])

    def lv_ExprWithCleanups(self, st, n):
        return self.lv(st, self.inner(n)[0])

    def lv_MaterializeTemporaryExpr(self, st, n):
        c = self.inner(n)[0]
        v = self.ev(st, c)
        if isinstance(v, Obj):
            return LObj(v)
        return LVal(v, self.nt(n))

    def lv_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind')
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueBitCast'):
            return self.lv(st, self.inner(n)[0])
        v = self.ev(st, n)
        return LObj(v) if isinstance(v, Obj) else LVal(v, self.nt(n))

    lv_CXXStaticCastExpr = lv_ImplicitCastExpr
    lv_CXXConstCastExpr = lv_ImplicitCastExpr

    def lv_DeclRefExpr(self, st, n):
        rd = n['referencedDecl']
        if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
            d = self.tu.decl.get(rd['id'])
            if d is not None and (d.get('_global') or d.get('storageClass') == 'static'):
                return self.global_lv(st, d)
            key = (self.tu.path, rd['id'])
            t = self.nt(rd)
            if t.k == 'ref':
                t = t.a
            cur = st.env.get(key)
            if cur is None and d is None:
                return LField('::global.' + rd['name'], IntVal(0), self.regf('::global.' + rd['name'], t))
            if isinstance(cur, (LMem, LField, LFieldArr, LMap, LObj, LPair)):
                return cur
            if isinstance(cur, LVar):
                return cur
            if isinstance(cur, Obj):
                return LObj(cur)
            return LVar(key, t)
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return LVal(FuncRef(self.tu.decl.get(rd['id'], rd), self.tu), T('func'))
        if rd['kind'] == 'EnumConstantDecl':
            return LVal(self.iv(self.tu.enums[rd['id']], INT(32)), INT(32))
        raise Unsupported('declref ' + rd['kind'])

    def never_written(self, d):
        if 'const' in d.get('type', {}).get('qualType', ''):
            return True
        nm = d.get('name', '')
        if not (d.get('_anon') or d.get('storageClass') == 'static'):
            return False
        import re
        import front
        src = open(os.path.join(front.REPO, self.tu.path)).read()
        src = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', src, flags=re.S)
        n = re.escape(nm)
        w = re.findall(r'\b%s\b\s*(?:\[[^\]]*\]\s*)?(?:=(?!=)|\+\+|--|[-+*/|&^%%]=|<<=|>>=)' % n, src)
        if len(w) > 1 or re.search(r'(?:\+\+|--|&)\s*%s\b' % n, src):
            return False
        self.assump.add('file-local variable %s keeps its initial value (no assignment in its file)' % nm)
        return True

    def regf(self, name, t):
        self.ftypes[name] = t
        return t

    def global_lv(self, st, d):
        nm = '::global.' + d.get('name', '?')
        t = self.nt(d)
        if t.k == 'rec':
            return LObj(Obj(self.subobj(nm, IntVal(0)), t))
        # constant globals (const, or internal linkage and never written) with literal initialisers
        if d.get('init') and (t.k in ('int', 'real', 'bool') or t.k == 'arr') and self.never_written(d):
            try:
                x = self.inner(d)[-1]
                if t.k != 'arr':
                    return LVal(self.ev(st, x), t)
                if x['kind'] == 'InitListExpr' and t.a.k in ('int', 'real'):
                    self.regf(nm, t)
                    for k, y in enumerate(self.inner(x)):
                        v = self.ev(st, y)
                        self.fact(st, self.read(st, LFieldArr(nm, IntVal(0), IntVal(k), t.a), facts=False) == v)
            except Unsupported:
                pass
        self.regf(nm, t)
        return LField(nm, IntVal(0), t)

    def lv_MemberExpr(self, st, n):
        base = self.inner(n)[0]
        name = n['name']
        t = self.nt(n)
        md = self.tu.decl.get(n.get('referencedMemberDecl'))
        if md is not None and md.get('kind') == 'VarDecl':
            return self.global_lv(st, md)
        if n.get('isArrow'):
            bv = self.ev(st, base)
            if isinstance(bv, PL):
                o = bv.lv
                ov = self.read(st, o)
            elif isinstance(bv, Pair):
                ov = bv
            elif isinstance(bv, P):
                bt = self.nt(base)
                ov = Obj(self.elemobj(st, bv, bt.a if bt.k == 'ptr' else bt), bt.a if bt.k == 'ptr' else bt)
                if self.spec.nullcheck and not (is_const(bv.b) and bv.b.decl().name().startswith('this')):
                    self.oblige(st, 'safety: null dereference (->%s)' % name, ov.id != 0)
            elif isinstance(bv, ('x'.__class__,)):
                raise Unsupported('arrow on string')
            else:
                raise Unsupported('arrow on %r' % (bv,))
        else:
            bl = self.lv(st, base)
            ov = self.read(st, bl)
        if isinstance(ov, Pair):
            if name in ('first', 'second'):
                x = ov.a if name == 'first' else ov.b
                if isinstance(x, (LMap, LObj, LMem)):
                    return x
                if isinstance(x, Obj):
                    return LObj(x)
                if not n.get('isArrow') and isinstance(bl, LMem):
                    i = 0 if name == 'first' else 1
                    return LMemC(bl.ty.b[i], bl.p, getattr(bl, 'path', '') + str(i + 1))
                if not n.get('isArrow') and isinstance(bl, (LVar, LPair)) and t.k != 'rec':
                    return LPairW(bl, 0 if name == 'first' else 1, t)
                return LVal(x, t)
        if isinstance(ov, Obj):
            fn, ft = self.member(ov, name, md, t)
            if ft.k == 'ref':
                raise Unsupported('reference member')
            return LField(fn, ov.id, ft)
        raise Unsupported('member %s of %r' % (name, ov))

    def member(self, ov, name, md, t):
        """canonical field name: declaring class.field"""
        cls = None
        if md is not None and '_rec' in md:
            cls = md['_rec'].split('::')[-1] if '<' not in md['_rec'] else md['_rec']
            cls = self.shortcls(md['_rec'])
        if cls is None:
            cls = repr(ov.ty)
        fn = cls + '.' + name
        if md is not None:
            t = self.nt(md)
        self.ftypes.setdefault(fn, t)
        return fn, t

    def shortcls(self, q):
        i = q.find('<')
        head = q if i < 0 else q[:i]
        return head.split('::')[-1] + ('' if i < 0 else q[i:].replace('agi::', ''))

    def lv_ArraySubscriptExpr(self, st, n):
        b, i = self.inner(n)
        bv = self.ev(st, b)
        iv = self.ev(st, i)
        if not isinstance(bv, (P, PF, PL)) and isinstance(iv, (P, PF)):
            bv, iv = iv, bv
        iv = self.toint(iv)
        t = self.nt(n)
        return self.deref(st, bv, iv, t, n)

    def toint(self, v):
        if isinstance(v, BoolRef):
            return If(v, IntVal(1), IntVal(0))
        if isinstance(v, BitVecRef):
            return BV2Int(v, True)
        return v

    def deref(self, st, p, i, t, n=None):
        if isinstance(p, PF):
            idx = simplify(p.idx + i)
            if self.spec.bounds and p.ty.k == 'arr' and p.ty.b:
                self.oblige(st, 'safety: index within member array %s[%d]' % (p.name, p.ty.b), And(idx >= 0, idx < p.ty.b))
            return LFieldArr(p.name, p.obj, idx, t)
        if isinstance(p, PL):
            si = simplify(i)
            if isinstance(p.lv, LVar) and p.lv.ty.k == 'ptr' and t.k == 'int' and t.a == 32 and is_int_value(si) and si.as_long() in (0, 1):
                # the two 32-bit words of a pointer value (little endian, 8-byte pointers)
                v = self.read(st, p.lv)
                if not isinstance(v, P) or not is_int_value(v.b):
                    raise Unsupported('type pun of a real pointer')
                self.assump.add('64-bit little-endian pointers (words of a pointer value)')
                lo = self.castint(st, v.o, None, t)
                return LVal(lo if si.as_long() == 0 else self.castint(st, v.o / (1 << 32), None, t), t)
            if is_int_value(si) and si.as_long() == 0:
                if isinstance(p.lv, LVal) and p.lv.ty.k == 'int' and t.k == 'int' and t.a < p.lv.ty.a and isinstance(p.lv.v, ArithRef):
                    self.assump.add('little-endian integers')
                    return LVal(simplify(p.lv.v % (1 << t.a)), t)
                return p.lv
            raise Unsupported('indexing pointer to local')
        if isinstance(p, P):
            sc = self.leafn(t) if t.k == 'arr' else 1
            if self.spec.bytes and t.k != 'rec':
                sc = sizeof(t)
            q = P(p.b, simplify(p.o + i * sc))
            if self.spec.bounds and t.k != 'rec':
                ln = Select(self.getmem(st, 'len'), p.b)
                self.oblige(st, 'safety: array access in bounds (%s)' % self.line(n), And(q.o >= 0, q.o + (sc - 1) < ln))
            elif self.spec.nullcheck:
                self.oblige(st, 'safety: null dereference', p.b != 0)
            return LMem(t, q)
        raise Unsupported('deref %r' % (p,))

    def line(self, n):
        return 'loc' if n is None else (n.get('_desc') or self.desc(n))

    def desc(self, n):
        """names appearing in an expression: a stable label for reports"""
        out = []

        def go(x):
            if x.get('kind') == 'DeclRefExpr':
                out.append(x['referencedDecl'].get('name', '?'))
            elif x.get('kind') == 'MemberExpr':
                out.append(x.get('name', '?'))
            for c in x.get('inner', []):
                if isinstance(c, dict):
                    go(c)
        go(n)
        return '.'.join(out[:6])

    def lv_UnaryOperator(self, st, n):
        op = n['opcode']
        c = self.inner(n)[0]
        if op == '*':
            p = self.ev(st, c)
            t = self.nt(n)
            if isinstance(p, FuncRef):
                return LVal(p, t)
            if isinstance(p, Pair):
                return LVal(p, t)
            if t.k == 'rec' and isinstance(p, P):
                return LObj(Obj(self.elemobj(st, p, t), t))
            return self.deref(st, p, IntVal(0), t, n)
        if op in ('++', '--') and not n.get('isPostfix'):
            self.incdec(st, n)
            return self.lv(st, c)
        if op == '__extension__':
            return self.lv(st, c)
        return LVal(self.ev(st, n), self.nt(n))

    def lv_BinaryOperator(self, st, n):
        op = n['opcode']
        if op == '=':
            l, r = self.inner(n)
            self.assign(st, l, r)
            return self.lv(st, l) if not self.effects(l) else LVal(self.lastval, self.nt(n))
        if op == ',':
            l, r = self.inner(n)
            self.ev(st, l)
            return self.lv(st, r)
        return LVal(self.ev(st, n), self.nt(n))

    def lv_CompoundAssignOperator(self, st, n):
        self.ev(st, n)
        l = self.inner(n)[0]
        return self.lv(st, l)

    def lv_CXXThisExpr(self, st, n):
        return LVal(self.ev(st, n), self.nt(n))

    def lv_ConditionalOperator(self, st, n):
        v = self.ev(st, n)
        return LObj(v) if isinstance(v, Obj) else LVal(v, self.nt(n))

    def lv_CXXOperatorCallExpr(self, st, n):
        return self.opcall(st, n, True)

    def lv_CXXMemberCallExpr(self, st, n):
        r = self.membercall(st, n, True)
        return r

    def lv_CallExpr(self, st, n):
        r = self.call(st, n, True)
        return r

    def effects(self, n):
        if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CompoundAssignOperator', 'CXXNewExpr') or \
           (n.get('kind') == 'UnaryOperator' and n.get('opcode') in ('++', '--')) or \
           (n.get('kind') == 'BinaryOperator' and n.get('opcode') == '='):
            return True
        return any(self.effects(c) for c in self.inner(n))

    # ---- rvalues
    def ev(self, st, n):
        f = getattr(self, 'ev_' + n['kind'], None)
        if f is None:
            raise Unsupported('expression ' + n['kind'])
        return f(st, n)

    def aslv(self, st, n):
        return self.read(st, self.lv(st, n))

    ev_DeclRefExpr = ev_MemberExpr = ev_ArraySubscriptExpr = aslv

    def ev_ParenExpr(self, st, n):
        return self.ev(st, self.inner(n)[0])

    ev_ExprWithCleanups = ev_CXXBindTemporaryExpr = ev_ConstantExpr = ev_SubstNonTypeTemplateParmExpr = ev_ParenExpr

    def ev_MaterializeTemporaryExpr(self, st, n):
        return self.ev(st, self.inner(n)[0])

    def ev_IntegerLiteral(self, st, n):
        return self.iv(int(n['value']), self.nt(n))

    def ev_CharacterLiteral(self, st, n):
        return self.iv(int(n['value']), self.nt(n))

    def ev_FloatingLiteral(self, st, n):
        from fractions import Fraction
        f = Fraction(float(n['value'])) if 'e' in str(n['value']).lower() or True else None
        d = Fraction(str(n['value'])) if 'e' not in str(n['value']).lower() else Fraction(float(n['value']))
        return Q(d.numerator, d.denominator)

    def ev_CXXBoolLiteralExpr(self, st, n):
        return BoolVal(bool(n['value']))

    def ev_CXXNullPtrLiteralExpr(self, st, n):
        return P(0, 0)

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_StringLiteral(self, st, n):
        return Str()

    ev_PredefinedExpr = ev_StringLiteral
    ev_SourceLocExpr = ev_StringLiteral

    def ev_CXXThisExpr(self, st, n):
        return st.env['this']

    def ev_ImplicitValueInitExpr(self, st, n):
        return self.zero(self.nt(n))

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def zero(self, t):
        if t.k == 'int':
            return self.iv(0, t)
        if t.k == 'bool':
            return BoolVal(False)
        if t.k == 'real':
            return RealVal(0)
        if t.k == 'ptr':
            return P(0, 0)
        raise Unsupported('zero of %r' % t)

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get('name') == 'sizeof':
            if 'argType' in n:
                t = self.typ(n['argType'].get('desugaredQualType', n['argType']['qualType']))
            else:
                t = self.nt(self.inner(n)[0])
            if t.k == 'ref':
                t = t.a
            s = sizeof(t)
            if s is None:
                s = self.recsize(t)
            return self.iv(s, INT(64, False)) if isinstance(s, int) else s
        raise Unsupported('sizeof-like')

    def recsize(self, t):
        return Int('sizeof:' + repr(t))

    def ev_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind')
        c = self.inner(n)[0]
        if ck == 'LValueToRValue':
            return self.read(st, self.lv(st, c))
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion'):
            return self.ev(st, c)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.ev(st, c)
        if ck == 'ArrayToPointerDecay':
            return self.ev(st, c)
        if ck == 'NullToPointer':
            return P(0, 0)
        if ck == 'ToVoid':
            self.ev(st, c)
            return None
        v = self.ev(st, c)
        return self.cast(st, v, self.nt(c), self.nt(n), ck)

    ev_CStyleCastExpr = ev_CXXStaticCastExpr = ev_CXXReinterpretCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = ev_CXXDynamicCastExpr = ev_ImplicitCastExpr

    def cast(self, st, v, f, t, ck):
        if ck in ('IntegralCast',):
            if t.k == 'bool':
                return self.tobool(v)
            return self.castint(st, v, f, t)
        if ck == 'IntegralToBoolean' or ck == 'PointerToBoolean' or ck == 'FloatingToBoolean':
            return self.tobool(v)
        if ck == 'IntegralToFloating':
            if isinstance(v, BoolRef):
                return If(v, RealVal(1), RealVal(0))
            if isinstance(v, BitVecRef):
                return ToReal(BV2Int(v, f.b))
            return ToReal(v)
        if ck == 'FloatingToIntegral':
            tr = If(v >= 0, ToInt(v), -ToInt(-v))
            return self.castint(st, tr, None, t)
        if ck == 'FloatingCast':
            return v
        if ck == 'PointerToIntegral':
            if isinstance(v, P):
                if is_int_value(v.b) and v.b.as_long() == 0:
                    a = v.o
                else:
                    a = If(v.b == 0, v.o, Function('addr', I, I, I)(v.b, v.o))
                return self.castint(st, a, None, t)
            raise Unsupported('address of local as integer')
        if ck == 'IntegralToPointer':
            return P(IntVal(0), self.toint(v))
        if ck in ('BitCast', 'LValueBitCast'):
            if isinstance(v, P) and t.k == 'ptr' and v.b.get_id() in getattr(self, 'mallocs', {}):
                base, nb = self.mallocs[v.b.get_id()]
                es = sizeof(t.a) if t.a.k != 'rec' else None
                if t.a.k != 'void' and es:
                    import lib
                    self.put(st, 'len', base, lib.elts(self, st, nb, es) * (self.leafn(t.a) if t.a.k == 'arr' else 1))
            if isinstance(v, P) and opaque(t) and not (is_int_value(v.b) and v.b.as_long() == 0):
                return P(IntVal(0), If(v.b == 0, v.o, Function('addr', I, I, I)(v.b, v.o)))
            return v
        if ck == 'AnyPointerToBlockPointerCast':
            return v
        raise Unsupported('cast ' + str(ck))

    def castint(self, st, v, f, t):
        if isinstance(v, BoolRef):
            return If(v, self.iv(1, t), self.iv(0, t))
        if self.bv:
            if not isinstance(v, BitVecRef):
                return Int2BV(v, t.a)
            w = v.size()
            if w == t.a:
                return v
            if w > t.a:
                return Extract(t.a - 1, 0, v)
            return SignExt(t.a - w, v) if (f is None or f.b) else ZeroExt(t.a - w, v)
        if t.k != 'int':
            return v
        if f is not None and f.k == 'int':
            if f.b == t.b and f.a <= t.a:
                return v
            if not f.b and t.b and f.a < t.a:
                return v
        r = self.rng(t, v)
        if self.quick(st, r):
            return v
        w = self.fresh('wrap')
        self.gfact(self.rng(t, w))
        return If(r, v, w)

    def ev_BinaryOperator(self, st, n):
        op = n['opcode']
        l, r = self.inner(n)
        if op == '=':
            self.assign(st, l, r)
            return self.lastval
        if op == ',':
            self.ev(st, l)
            return self.ev(st, r)
        if op in ('&&', '||'):
            a = self.cond(st, l)
            if is_true(simplify(a)):
                return self.cond(st, r) if op == '&&' else BoolVal(True)
            if is_false(simplify(a)):
                return BoolVal(False) if op == '&&' else self.cond(st, r)
            s2 = st.copy()
            s2.pc.append(a if op == '&&' else Not(a))
            b = self.cond(s2, r)
            # merge side effects of the second operand
            s1 = st.copy()
            s1.pc.append(Not(a) if op == '&&' else a)
            m = self.merge2(s2, s1)
            st.env, st.mem = m.env, m.mem
            return And(a, b) if op == '&&' else Or(a, b)
        a = self.ev(st, l)
        b = self.ev(st, r)
        return self.binop(st, op, a, b, self.nt(l), self.nt(r), self.nt(n))

    def unsigned(self, t):
        return t.k == 'int' and not t.b

    def scale(self, p, t):
        """elements per unit for pointer arithmetic on pointee t"""
        if t.k == 'arr':
            return self.leafn(t)
        return 1

    def padd(self, p, i, pt):
        if isinstance(p, PF):
            return PF(p.name, p.obj, p.ty, simplify(p.idx + i))
        if isinstance(p, PL):
            if is_int_value(simplify(i)) and simplify(i).as_long() == 0:
                return p
            raise Unsupported('arithmetic on pointer to local')
        t = pt.a
        es = sizeof(t) or 1
        sc = self.scale(p, t)
        if self.spec.bytes:
            return P(p.b, simplify(p.o + i * es))
        if is_int_value(p.b) and p.b.as_long() == 0:
            return P(p.b, simplify(p.o + i * es))
        if es == 1 or is_app(p.b) and p.b.decl().name().startswith('new!'):
            return P(p.b, simplify(p.o + i * sc))
        if self.spec.rawptr:
            return P(p.b, simplify(p.o + i * If(p.b == 0, IntVal(es), IntVal(sc))))
        return P(p.b, simplify(p.o + i * sc))

    def binop(self, st, op, a, b, ta, tb, tr):
        if isinstance(a, It) or isinstance(b, It):
            raise Unsupported('iterator arithmetic')
        pa, pb = isinstance(a, (P, PF, PL, FuncRef)), isinstance(b, (P, PF, PL, FuncRef))
        if pa or pb:
            if op in ('==', '!='):
                e = self.peq(a, b)
                return e if op == '==' else Not(e)
            if op == '+':
                return self.padd(a, self.toint(b), ta) if pa else self.padd(b, self.toint(a), tb)
            if op == '-' and pa and not pb:
                return self.padd(a, -self.toint(b), ta)
            if op == '-' and pa and pb:
                if isinstance(a, PF):
                    return a.idx - b.idx
                d = a.o - b.o
                s = self.leafn(ta.a) if ta.k == 'ptr' and ta.a.k == 'arr' else 1
                if self.spec.bytes:
                    s = sizeof(ta.a) or 1
                return d / s if s > 1 else d
            if op in ('<', '<=', '>', '>='):
                return self.cmp(op, a.o, b.o, True)
            raise Unsupported('pointer op ' + op)
        if isinstance(a, BoolRef) and isinstance(b, BoolRef) and op in ('==', '!='):
            return a == b if op == '==' else a != b
        if isinstance(a, BoolRef):
            a = If(a, self.iv(1, INT(32)), self.iv(0, INT(32)))
        if isinstance(b, BoolRef):
            b = If(b, self.iv(1, INT(32)), self.iv(0, INT(32)))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.cmp(op, a, b, not self.unsigned(ta))
        if self.bv and isinstance(a, BitVecRef):
            return self.bvop(op, a, b, tr)
        if op == '+':
            return self.wrapu(st, simplify(a + b), tr)
        if op == '-':
            return self.wrapu(st, simplify(a - b), tr)
        if op == '*':
            return self.wrapu(st, simplify(a * b), tr)
        if op == '/':
            if tr.k == 'real':
                if self.spec.divcheck:
                    self.oblige(st, 'safety: division by zero', b != 0)
                return a / b
            return self.idiv(st, a, b, tr)[0]
        if op == '%':
            return self.idiv(st, a, b, tr)[1]
        if op == '<<':
            if is_int_value(simplify(b)):
                return self.wrapu(st, a * (1 << simplify(b).as_long()), tr)
            f = Function('pow2', I, I)
            return a * f(b)
        if op == '>>' and is_int_value(simplify(b)):
            return a / (1 << simplify(b).as_long())
        if op in ('&', '|', '^', '>>'):
            f = Function('bit' + {'&': 'and', '|': 'or', '^': 'xor', '>>': 'shr'}[op], I, I, I)
            r = f(a, b)
            if op == '&' and is_int_value(simplify(b)):
                m = simplify(b).as_long()
                if m + 1 > 0 and (m & (m + 1)) == 0:
                    return a % (m + 1)
            return r
        raise Unsupported('binop ' + op)

    def wrapu(self, st, v, t):
        if t.k == 'int' and not t.b and not self.bv:
            r = self.rng(t, v)
            if self.quick(st, r):
                return v
            return v % (1 << t.a) if self.spec.modwrap else self._wr(st, r, v, t)
        return v

    def _wr(self, st, r, v, t):
        w = self.fresh('wrap')
        self.gfact(self.rng(t, w))
        return If(r, v, w)

    def cmp(self, op, a, b, signed):
        if isinstance(a, BitVecRef):
            return {'==': lambda: a == b, '!=': lambda: a != b,
                    '<': lambda: a < b if signed else ULT(a, b), '<=': lambda: a <= b if signed else ULE(a, b),
                    '>': lambda: a > b if signed else UGT(a, b), '>=': lambda: a >= b if signed else UGE(a, b)}[op]()
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def bvop(self, op, a, b, t):
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if b.size() != a.size():
            b = ZeroExt(a.size() - b.size(), b) if b.size() < a.size() else Extract(a.size() - 1, 0, b)
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b if t.b else LShR(a, b)
        if op == '/':
            return a / b if t.b else UDiv(a, b)
        if op == '%':
            return SRem(a, b) if t.b else URem(a, b)
        raise Unsupported('bvop ' + op)

    def idiv(self, st, a, b, t):
        a, b = simplify(a), simplify(b)
        self.oblige(st, 'safety: division by zero', b != 0) if not is_int_value(b) else None
        if is_int_value(b) and b.as_long() > 0:
            if self.unsigned(t) or self.quick(st, a >= 0):
                return a / b, a % b
            q = If(a >= 0, a / b, -((-a) / b))
            return q, a - b * q
        # symbolic divisor: name quotient and remainder, defining property and uniqueness instances
        key = ('div', a.get_id(), b.get_id())
        if key in self.subterms:
            q, r = self.subterms[key][:2]
        else:
            q, r = Function('quot', I, I, I)(a, b), Function('rmnd', I, I, I)(a, b)
            self.subterms[key] = (q, r, a, b)
            self.gfact(Implies(And(a >= 0, b > 0), And(a == b * q + r, r >= 0, r < b, q >= 0, q <= a)))
            self.gfact(Implies(And(a >= 0, b > 0, a < b), And(q == 0, r == a)))
            for (lo, ty) in self.spec_decomp():
                # lemma DIV-UNIQUE (proved once as its own obligation)
                self.gfact(Implies(And(b > 0, a == b * lo + ty, ty >= 0, ty < b, lo >= 0), And(q == lo, r == ty)))
        return q, r

    def spec_decomp(self):
        return self.decomp

    decomp = ()

    def peq(self, a, b):
        if isinstance(a, FuncRef) or isinstance(b, FuncRef):
            if isinstance(a, FuncRef):
                a = P(self.funcid(a), IntVal(0))
            if isinstance(b, FuncRef):
                b = P(self.funcid(b), IntVal(0))
        if isinstance(a, (PL, PF)) or isinstance(b, (PL, PF)):
            x, y = (a, b) if isinstance(a, (PL, PF)) else (b, a)
            if isinstance(y, P):
                return BoolVal(False)   # address of an object is never null/raw
            if isinstance(x, PL) and isinstance(y, PL) and isinstance(x.lv, LVar) and isinstance(y.lv, LVar):
                return BoolVal(x.lv.key == y.lv.key)
            raise Unsupported('compare pointers to objects')
        za, zb = is_int_value(a.b) and a.b.as_long() == 0, is_int_value(b.b) and b.b.as_long() == 0
        if za and zb:
            return a.o == b.o
        # a pointer is null iff its base is 0 and offset 0
        return And(a.b == b.b, a.o == b.o)

    def ev_UnaryOperator(self, st, n):
        op = n['opcode']
        c = self.inner(n)[0]
        if op == '*':
            return self.read(st, self.lv_UnaryOperator(st, n))
        if op == '&':
            lv = self.lv(st, c)
            if isinstance(lv, LVal) and isinstance(lv.v, FuncRef):
                return lv.v
            if isinstance(lv, LMem):
                return lv.p
            if isinstance(lv, LFieldArr):
                return PF(lv.name, lv.obj, T('arr', lv.ty, 0), lv.idx)
            if isinstance(lv, LObj):
                return P(lv.obj.id, IntVal(0))
            if isinstance(lv, LField) and lv.ty.k == 'rec':
                return P(self.subobj(lv.name, lv.obj), IntVal(0))
            return PL(lv)
        if op == '!':
            return Not(self.cond(st, c))
        if op in ('++', '--'):
            return self.incdec(st, n)
        v = self.ev(st, c)
        if op == '-':
            if isinstance(v, BitVecRef):
                return -v
            return simplify(-v)
        if op == '+' or op == '__extension__':
            return v
        if op == '~':
            if isinstance(v, BitVecRef):
                return ~v
            t = self.nt(n)
            return (-v - 1) if t.b else ((1 << t.a) - 1 - v)
        raise Unsupported('unary ' + op)

    def incdec(self, st, n):
        c = self.inner(n)[0]
        lv = self.lv(st, c)
        old = self.read(st, lv)
        t = lv.ty
        d = 1 if n['opcode'] == '++' else -1
        if isinstance(old, (P, PF, PL)):
            new = self.padd(old, IntVal(d), t)
        elif isinstance(old, BitVecRef):
            new = old + d
        elif isinstance(old, BoolRef):
            new = BoolVal(True)
        elif t.k == 'real':
            new = simplify(old + d)
        else:
            new = self.wrapu(st, simplify(old + d), t)
        self.write(st, lv, new)
        return old if n.get('isPostfix') else new

    def assign(self, st, l, r):
        t = self.nt(l)
        v = self.ev(st, r)
        lv = self.lv(st, l)
        if t.k not in ('rec',):
            v = self.tomem(t, v) if not isinstance(v, (PL, PF, It, Pair, FuncRef, Str)) else v
        self.write(st, lv, v)
        self.lastval = v

    def ev_CompoundAssignOperator(self, st, n):
        l, r = self.inner(n)
        op = n['opcode'][:-1]
        v = self.ev(st, r)
        lv = self.lv(st, l)
        cur = self.read(st, lv)
        tl = self.nt(l)
        ct = n.get('computeLHSType', {})
        tc = self.typ(ct.get('desugaredQualType', ct.get('qualType', 'int'))) if ct else tl
        if isinstance(cur, (P, PF)):
            nv = self.binop(st, op, cur, v, tl, self.nt(r), tl)
        else:
            if tc.k == 'real' and tl.k == 'int':
                cur2 = self.cast(st, cur, tl, tc, 'IntegralToFloating')
            elif tc.k == 'int':
                cur2 = self.castint(st, cur, tl, tc)
            else:
                cur2 = cur
            nv = self.binop(st, op, cur2, v, tc, self.nt(r), tc)
            if tc.k == 'real' and tl.k == 'int':
                nv = self.cast(st, nv, tc, tl, 'FloatingToIntegral')
            elif tl.k == 'int':
                nv = self.castint(st, nv, tc, tl)
            elif tl.k == 'bool':
                nv = self.tobool(nv)
        self.write(st, lv, nv)
        return nv

    def ev_ConditionalOperator(self, st, n):
        c, a, b = self.inner(n)
        cv = self.cond(st, c)
        sc = simplify(cv)
        if is_true(sc):
            return self.ev(st, a)
        if is_false(sc):
            return self.ev(st, b)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(cv)
        s2.pc.append(Not(cv))
        v1 = v2 = None
        dead1 = dead2 = False
        try:
            v1 = self.ev(s1, a)
        except PathEnd:
            dead1 = True
        try:
            v2 = self.ev(s2, b)
        except PathEnd:
            dead2 = True
        if dead1 and dead2:
            raise PathEnd()
        if dead1:
            m, v = s2, v2
        elif dead2:
            m, v = s1, v1
        else:
            m = self.merge2(s1, s2)
            if v1 is not None and v2 is not None and isinstance(v1, ExprRef) and isinstance(v2, ExprRef) and v1.sort() != v2.sort():
                v1 = ToReal(v1) if v1.sort() == I and v2.sort() == R else v1
                v2 = ToReal(v2) if v2.sort() == I and v1.sort() == R else v2
            v = self.vmerge(cv, v1, v2)
        st.env, st.mem, st.pc = m.env, m.mem, m.pc
        return v

    def ev_CXXThrowExpr(self, st, n):
        self.throws(st, 'throw')
        raise PathEnd()

    def throws(self, st, what):
        if not self.spec.allow_throw:
            self.oblige(st, 'safety: %s not reached' % what, BoolVal(False))

    def ev_CXXNewExpr(self, st, n):
        t = self.nt(n).a
        ins = self.inner(n)
        if n.get('isArray'):
            cnt = self.toint(self.ev(st, ins[0]))
            base = self.alloc(st, simplify(cnt * self.leafn(t)) if t.k == 'arr' else cnt)
            if t.k == 'rec':
                self.default_array(st, base, cnt, t)
            for x in ins[1:]:
                if x['kind'] in ('ImplicitValueInitExpr', 'InitListExpr') and t.k in ('int', 'bool', 'real'):
                    e = self.ename(t)
                    m = self.getmem(st, 'M:' + e)
                    self.setmem(st, 'M:' + e, Store(m, base, K(I, self.zero(t))), base)
            return P(base, IntVal(0))
        base = self.alloc(st, IntVal(1))
        if t.k == 'rec':
            o = Obj(base, t)
            ce = [x for x in ins if x['kind'] in ('CXXConstructExpr', 'ExprWithCleanups', 'CXXTemporaryObjectExpr')]
            if ce:
                self.construct(st, o, ce[0])
            elif is_cont(t):
                self.cont_init(st, o)
        elif ins:
            v = self.ev(st, ins[0])
            self.write(st, LMem(t, P(base, IntVal(0))), v)
        return P(base, IntVal(0))

    def default_array(self, st, base, cnt, t):
        """new C[n] for container C: every element starts empty"""
        k = Int('k!q')
        eo = Function('elemobj', I, I, I)
        el = If(k == 0, base, eo(base, k))
        if is_cont(t):
            # elements are distinct objects below 0 (or the base itself) that nothing referred to before
            if t.a in CONT_SEQ:
                old = self.getmem(st, 'C:size')
                new = self.fresh('C:size', old.sort())
                self.setmem(st, 'C:size', new, None)
                x = Int('x!q')
                par, tag = Function('sub_parent', I, I), Function('sub_tag', I, I)
                self.fact(st, FA([x], If(Or(x == base, And(x < 0, tag(x) == -1, par(x) == base)), new[x] == 0, new[x] == old[x]), patterns=[new[x]]))
            else:
                old = self.getmem(st, 'H:has')
                new = self.fresh('H:has', old.sort())
                self.setmem(st, 'H:has', new, None)
                x = Int('x!q')
                par, tag = Function('sub_parent', I, I), Function('sub_tag', I, I)
                self.fact(st, FA([x], If(Or(x == base, And(x < 0, tag(x) == -1, par(x) == base)), new[x] == K(I, BoolVal(False)), new[x] == old[x]), patterns=[new[x]]))
        else:
            raise Unsupported('new array of records')

    def ev_CXXDeleteExpr(self, st, n):
        p = self.ev(st, self.inner(n)[0])
        self.freed(st, p, self.inner(n)[0])
        return None

    def freed(self, st, p, n=None):
        pass

    def ev_CXXDefaultArgExpr(self, st, n):
        if '_dflt' in n:
            return self.ev(st, n['_dflt'])
        raise Unsupported('default argument')

    def ev_InitListExpr(self, st, n):
        t = self.nt(n)
        if t.k == 'arr':
            base = self.alloc(st, IntVal(self.leafn(t)))
            for i, c in enumerate(self.inner(n)):
                v = self.ev(st, c)
                self.write(st, LMem(t.a, P(base, IntVal(i))), self.tomem(t.a, v))
            return P(base, IntVal(0))
        ins = self.inner(n)
        if len(ins) == 1 and t.k != 'rec':
            return self.ev(st, ins[0])
        if t.k == 'rec' and not is_cont(t):
            o = Obj(self.alloc(st, IntVal(1)), t)
            rec = self.find_rec(t)
            if rec:
                flds = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
                for f, c in zip(flds, ins):
                    fn, ft = self.member(o, f['name'], f, None)
                    self.write(st, LField(fn, o.id, ft), self.ev(st, c))
                return o
        raise Unsupported('init list of %r' % t)

    def ev_CXXConstructExpr(self, st, n):
        t = self.nt(n)
        args = self.inner(n)
        if t.k == 'rec' and t.a in ('iterator', '_Node_iterator', '__normal_iterator', '_Node_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator') or (t.k == 'rec' and t.a.endswith('iterator')):
            if args:
                return self.ev(st, args[0])
            return None
        if t.k == 'rec' and t.a == 'pair':
            vs = [self.ev(st, a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Pair):
                return vs[0]
            if len(vs) == 2:
                ts = t.b or [None, None]
                vs = [self.coerce(st, v, self.nt(a), tt) if tt is not None else v for v, a, tt in zip(vs, args, ts)]
                return Pair(vs[0], vs[1])
            if not vs and t.b:
                return Pair(self.zero(t.b[0]), self.zero(t.b[1]))
        if t.k == 'rec' and t.a in ('basic_string', 'string', 'allocator'):
            if len(args) == 1 and self.nt(args[0]).k == 'rec' and self.nt(args[0]).a in ('basic_string', 'string'):
                return Str(self.key(self.ev(st, args[0])))
            return Str()
        if t.k == 'rec' and len(args) == 1 and self.nt(args[0]) == t and n.get('elidable'):
            return self.ev(st, args[0])
        if t.k == 'rec':
            if args and self.nt(args[0]) == t:
                v = self.ev(st, args[0])
                if isinstance(v, (It, Pair, Str)):
                    return v
                o = Obj(self.alloc(st, IntVal(1)), t)
                self.copy_rec(st, o, v)
                return o
            o = Obj(self.alloc(st, IntVal(1)), t)
            self.construct(st, o, n)
            return o
        if len(args) == 1:
            return self.ev(st, args[0])
        raise Unsupported('construct %r' % t)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def coerce(self, st, v, f, t):
        if t is None or t.k == 'ref':
            t = t.a if t is not None else t
        if t is None:
            return v
        if t.k == 'real' and isinstance(v, ArithRef) and v.is_int():
            return ToReal(v)
        if t.k == 'int' and isinstance(v, ArithRef) and f is not None and f.k == 'int':
            return self.castint(st, v, f, t)
        return v

    def find_rec(self, t):
        for tu in [self.tu] + self.tus:
            for q, rec in tu.records.items():
                if q.split('<')[0].split('::')[-1] == t.a:
                    if t.b and '<' in q:
                        a = self.typ(q)
                        if a != t:
                            continue
                    return rec
        return None

    def copy_rec(self, st, dst, src):
        t = dst.ty
        if is_cont(t):
            if t.a in CONT_SEQ:
                e = self.cont_elt(t)
                self.put(st, 'C:size', dst.id, Select(self.getmem(st, 'C:size'), src.id))
                if e.k == 'rec':
                    raise Unsupported('copy of vector of records')
                en = self.ename(e)
                for nm in (['M:p.b', 'M:p.o'] if en == 'p' else ['M:' + en]):
                    self.put(st, nm, dst.id, Select(self.getmem(st, nm), src.id))
            else:
                self.put(st, 'H:has', dst.id, Select(self.getmem(st, 'H:has'), src.id))
                if t.a in CONT_MAP:
                    e = t.b[1]
                    if e.k == 'rec':
                        raise Unsupported('copy of map of records')
                    en = self.ename(e)
                    for nm in (['H:val:p.b', 'H:val:p.o'] if en == 'p' else ['H:val:' + en]):
                        self.put(st, nm, dst.id, Select(self.getmem(st, nm), src.id))
            return
        rec = self.find_rec(t)
        if rec is None:
            raise Unsupported('copy of %r' % t)
        for c in rec.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                fn, ft = self.member(dst, c['name'], c, None)
                v = self.read(st, LField(fn, src.id, ft))
                if itcont(ft) is not None:
                    self.write(st, LField(fn, dst.id, ft), v)
                elif ft.k == 'rec':
                    self.copy_rec(st, Obj(self.subobj(fn, dst.id), ft), v)
                elif ft.k == 'arr':
                    raise Unsupported('copy of array member')
                else:
                    self.write(st, LField(fn, dst.id, ft), v)

    def construct(self, st, o, n):
        if n['kind'] == 'ExprWithCleanups':
            return self.construct(st, o, self.inner(n)[0])
        t = o.ty
        args = self.inner(n)
        if is_cont(t):
            return self.cont_init(st, o, args)
        ct = n.get('ctorType', {}).get('qualType', '')
        rec = self.find_rec(t)
        if rec is None:
            raise Unsupported('constructor of %r' % t)
        cls = rec['_q']
        cands = [f for tu in [self.tu] + self.tus for f in tu.funcs if f['kind'] == 'CXXConstructorDecl' and f.get('_rec') == cls]
        seen = {}
        for f in cands:
            seen.setdefault(f.get('mangledName', f['id']), f)
        cands = [f for f in seen.values() if len(front.params(f)) == len(args) or
                 (len(front.params(f)) >= len(args) and all('init' in p for p in front.params(f)[len(args):]))]
        if len(cands) > 1:
            c2 = [f for f in cands if f.get('type', {}).get('qualType') == ct]
            cands = c2 or cands
        if not cands:
            # implicit default constructor: members default-initialised
            if not args:
                self.implicit_init(st, o, rec)
                return
            raise Unsupported('no constructor body for %s' % cls)
        f = cands[0]
        key = self.dynkey(t)
        self.put(st, self.fname('__obj.__dyn', INT(32)), o.id, IntVal(key))
        if self.spec.ctors and o.id is not None:
            # by contract rather than inline: the object is new, only what the contract says about it is known
            sp = self.specs.lookup(self, f, f)
            if sp is not None and sp.name in self.spec.ctors:
                self.apply_contract(st, sp, [self.evarg(st, a, self.ptype(p, self.tu_of(f))) for p, a in zip(front.params(f), args)], o.id, VOID)
                return
        argv = self.bind_args(st, f, args)
        self.invoke(st, f, self.tu_of(f), argv, o, args)

    DYN = {}

    def dynkey(self, t):
        return Exec.DYN.setdefault(t.a, len(Exec.DYN) + 1)

    def implicit_init(self, st, o, rec):
        for c in rec.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                fn, ft = self.member(o, c['name'], c, None)
                self.field_init(st, fn, ft, o)

    def field_init(self, st, fn, ft, o):
        if ft.k == 'rec' and is_cont(ft):
            self.cont_init(st, Obj(self.subobj(fn, o.id), ft))
        elif ft.k == 'arr' and ft.a.k == 'rec' and is_cont(ft.a) and isinstance(ft.b, int):
            for i in range(ft.b):
                self.cont_init(st, Obj(self.subobj(fn, o.id, IntVal(i)), ft.a))

    def tu_of(self, f):
        for tu in [self.tu] + self.tus:
            if tu.byid.get(f['id']) is f:
                return tu
        return self.tu

    # -------------------------------------------------------------- calls
    def ev_CallExpr(self, st, n):
        r = self.call(st, n, False)
        return self.unlv(st, r)

    def ev_CXXMemberCallExpr(self, st, n):
        return self.unlv(st, self.membercall(st, n, False))

    def ev_CXXOperatorCallExpr(self, st, n):
        return self.unlv(st, self.opcall(st, n, False))

    def unlv(self, st, r):
        if isinstance(r, (LVar, LMem, LField, LFieldArr, LMap, LObj, LVal, LPair)):
            return self.read(st, r)
        return r

    def aslval(self, r, n):
        if isinstance(r, (LVar, LMem, LField, LFieldArr, LMap, LObj, LVal, LPair)):
            return r
        if isinstance(r, Obj):
            return LObj(r)
        return LVal(r, self.nt(n))

    def callee(self, st, n):
        """strip casts around the callee expression"""
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            if n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue':
                return n, None
            n = self.inner(n)[0]
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            rd = n['referencedDecl']
            d = self.tu.decl.get(rd['id'])
            if d is None:
                d = dict(rd)
            return n, d
        return n, None

    def call(self, st, n, want_lv):
        ins = self.inner(n)
        cn, d = self.callee(st, ins[0])
        args = ins[1:]
        if d is None:
            fv = self.ev(st, cn)
            if isinstance(fv, (FuncRef,)):
                d = fv.node
            elif isinstance(fv, P):
                return self.indirect(st, fv, args, n)
            else:
                raise Unsupported('indirect call')
        r = self.dispatch(st, d, args, None, n)
        return self.aslval(r, n) if want_lv else r

    def indirect(self, st, fv, args, n):
        b = simplify(fv.b)
        if is_int_value(b) and b.as_long() <= -1000:
            fr = Exec.FBY.get(-1000 - b.as_long())
            if fr:
                return self.dispatch(st, fr.node, args, None, n)
        h = self.spec.indirect
        if h is not None:
            argv = [self.ev(st, a) for a in args]
            return h(self, st, fv, argv, self.nt(n))
        raise Unsupported('call through function pointer')

    def dispatch(self, st, d, args, obj, n):
        name = d.get('name', '')
        import lib
        q = d.get('_q') or name
        tu, f = self.defn(d)
        sp = self.specs.lookup(self, d, f)
        if sp is not None and sp is not self.specs.root and not self.specs.force_inline(sp):
            return self.call_contract(st, sp, d, f, tu, args, obj, n)
        m = lib.MODELS.get(name)
        if m is not None and (f is None or name in lib.PREFER_MODEL):
            self.models.add(name)
            return m(self, st, args, n)
        if f is not None:
            if len(self.stackfns) > 25 or f['id'] in self.stackfns:
                raise Unsupported('recursion through ' + name)
            argv = self.bind_args(st, f, args, tu)
            return self.invoke(st, f, tu, argv, obj, args)
        raise Unsupported('call to external function without a model: ' + name)

    def defn(self, d):
        """(tu, definition) of a declaration, looked up by mangled name across the loaded units"""
        m = d.get('mangledName')
        nm = d.get('name')
        for tu in [self.tu] + [t for t in self.tus if t is not self.tu]:
            for f in tu.funcs:
                if f is d or (m and f.get('mangledName') == m) or (not m and f.get('name') == nm and f['kind'] == 'FunctionDecl'):
                    return tu, f
        return None, None

    def bind_args(self, st, f, args, ftu=None):
        """evaluate actuals in the caller"""
        ps = front.params(f)
        out = []
        ftu = ftu or self.tu_of(f)
        for i, p in enumerate(ps):
            pt = self.ptype(p, ftu)
            a = args[i] if i < len(args) else None
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                dn = [c for c in p.get('inner', []) if isinstance(c, dict)]
                if not dn:
                    # look in other declarations
                    dn = self.default_of(f, i)
                if not dn:
                    raise Unsupported('default argument of ' + f.get('name', ''))
                out.append(self.ev(st, dn[0]))
                continue
            out.append(self.evarg(st, a, pt))
        return out

    def default_of(self, f, i):
        m = f.get('mangledName')
        for tu in [self.tu] + self.tus:
            for d in tu.decl.values():
                if d.get('mangledName') == m and d.get('kind', '').endswith(('MethodDecl', 'FunctionDecl', 'ConstructorDecl')):
                    ps = front.params(d)
                    if i < len(ps) and any(isinstance(c, dict) for c in ps[i].get('inner', [])):
                        return [c for c in ps[i]['inner'] if isinstance(c, dict)]
        return []

    def ptype(self, p, tu):
        sv = self.tu
        self.tu = tu
        try:
            return self.nt(p)
        finally:
            self.tu = sv

    def evarg(self, st, a, pt):
        if pt.k == 'ref':
            lv = self.lv(st, a)
            return lv
        v = self.ev(st, a)
        if pt.k == 'rec' and isinstance(v, Obj) and a['kind'] not in ('CXXConstructExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            o = Obj(self.alloc(st, IntVal(1)), pt)
            self.copy_rec(st, o, v)
            return o
        return v

    def invoke(self, st, f, tu, argv, obj, argn=None):
        """inline the body of f"""
        b = front.body(f)
        if b is None and f['kind'] != 'CXXConstructorDecl':
            raise Unsupported('no body: ' + f.get('name', ''))
        self.inlined.add(f.get('_q', f.get('name')))
        sv_tu = self.tu
        sv_this = st.env.get('this')
        self.tu = tu
        self.stackfns.append(f['id'])
        try:
            for p, v in zip(front.params(f), argv):
                pt = self.nt(p)
                key = (tu.path, p['id'])
                if isinstance(v, LVal):
                    v = v.v
                elif isinstance(v, LObj):
                    v = v.obj
                if isinstance(v, LVar) and v.key == key:
                    raise Unsupported('recursive reference binding')
                st.env[key] = v
            if obj is not None:
                st.env['this'] = P(obj.id, IntVal(0))
            if f['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(st, f, obj)
            outs = self.stmt(st, b) if b else [('n', st, None)]
            rs = []
            for k, s, v in outs:
                if k in ('n', 'r'):
                    rs.append((s, v))
                elif k in ('t',):
                    pass
                else:
                    raise Unsupported('stray ' + k)
            if not rs:
                raise PathEnd()
            if len(rs) == 1:
                m, v = rs[0]
            else:
                m, v = rs[0]
                for s2, v2 in rs[1:]:
                    n0 = 0
                    while n0 < len(m.pc) and n0 < len(s2.pc) and m.pc[n0].eq(s2.pc[n0]):
                        n0 += 1
                    ra = m.pc[n0:]
                    c = And(*ra) if len(ra) > 1 else (ra[0] if ra else BoolVal(True))
                    if isinstance(v, LMem) and isinstance(v2, LMem):
                        v = LMem(v.ty, self.vmerge(c, v.p, v2.p))
                    else:
                        v = self.vmerge(c, v, v2)
                    m = self.merge2(m, s2)
            st.env, st.mem, st.pc = m.env, m.mem, m.pc
            return v
        finally:
            self.tu = sv_tu
            self.stackfns.pop()
            if sv_this is not None:
                st.env['this'] = sv_this

    def ctor_inits(self, st, f, obj):
        done = set()
        rec = None
        for tu in [self.tu] + self.tus:
            rec = rec or tu.records.get(f.get('_rec'))
        for c in self.inner(f):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            e = self.inner(c)
            if 'anyInit' in c:
                fd = c['anyInit']
                md = self.tu.decl.get(fd.get('id'))
                fn, ft = self.member(obj, fd['name'], md, self.nt(fd) if 'type' in fd else None)
                done.add(fd['name'])
                if itcont(ft) is not None:
                    v = self.ev(st, e[0]) if e else None
                    if isinstance(v, It):
                        self.write(st, LField(fn, obj.id, ft), v)
                    continue
                if ft.k == 'rec':
                    o = Obj(self.subobj(fn, obj.id), ft)
                    if e and e[0]['kind'] in ('CXXConstructExpr', 'ExprWithCleanups'):
                        x = e[0]
                        while x['kind'] == 'ExprWithCleanups':
                            x = self.inner(x)[0]
                        a = self.inner(x)
                        if len(a) == 1 and self.nt(a[0]) == ft:
                            self.copy_rec(st, o, self.ev(st, a[0]))
                        else:
                            self.construct(st, o, x)
                    continue
                if ft.k == 'arr':
                    self.field_init(st, fn, ft, obj)
                    continue
                if e:
                    v = self.ev(st, e[0])
                    self.write(st, LField(fn, obj.id, ft), v)
            elif 'baseInit' in c:
                x = e[0]
                while x['kind'] == 'ExprWithCleanups':
                    x = self.inner(x)[0]
                bt = self.nt(x)
                args = self.inner(x)
                brec = self.find_rec(bt)
                cands = [g for tu in [self.tu] + self.tus for g in tu.funcs if g['kind'] == 'CXXConstructorDecl' and brec is not None and g.get('_rec') == brec['_q'] and len(front.params(g)) == len(args)]
                if len(cands) > 1:
                    ct = x.get('ctorType', {}).get('qualType')
                    c2 = [g for g in cands if g.get('type', {}).get('qualType') == ct]
                    cands = c2 or cands
                if cands:
                    g = cands[0]
                    argv = self.bind_args(st, g, args)
                    self.invoke(st, g, self.tu_of(g), argv, obj, args)
                elif args:
                    raise Unsupported('base constructor of %r' % bt)
                elif brec is not None:
                    self.implicit_init(st, Obj(obj.id, bt), brec)
        if rec is not None:
            for c in rec.get('inner', []):
                if c.get('kind') == 'FieldDecl' and c['name'] not in done:
                    fn, ft = self.member(obj, c['name'], c, None)
                    self.field_init(st, fn, ft, obj)

    def call_contract(self, st, sp, d, f, tu, args, obj, n):
        argv = []
        ps = front.params(f if f is not None else d)
        ftu = tu or self.tu
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            pt = self.ptype(p, ftu)
            if a is None or a['kind'] == 'CXXDefaultArgExpr':
                dn = [c for c in p.get('inner', []) if isinstance(c, dict)] or self.default_of(f or d, i)
                argv.append(self.ev(st, dn[0]))
            else:
                argv.append(self.evarg(st, a, pt))
        rt = self.rettype(d)
        if rt.k == 'rec' and rt.a.endswith('iterator') and isinstance(n, dict) and 'type' in n:
            rt = self.nt(n)
        return self.apply_contract(st, sp, argv, obj.id if obj is not None else None, rt)

    def rettype(self, d):
        q = d.get('type', {}).get('qualType', '')
        i = q.find('(')
        return self.typ(q[:i])

    def apply_contract(self, st, sp, argv, this, rt):
        self.contracted.add(sp.name)
        old = st.copy()
        # values for reference arguments
        vals = [self.read(st, a) if isinstance(a, (LVar, LMem, LField, LFieldArr, LMap, LObj, LVal, LPair)) else a for a in argv]
        vals = [P(self.funcid(v), IntVal(0)) if isinstance(v, FuncRef) else v for v in vals]
        for i, v in enumerate(vals):
            if isinstance(v, P) and interior(simplify(v.b)) and i not in sp.interior:
                raise Unsupported('pointer to a member passed to ' + sp.name)
        c = Ctx(self, vals, this, View(self, old), View(self, old))
        c.argl = argv
        c.callsite = True
        c.st = st
        for nm, g in sp.requires(c):
            self.oblige(st, 'precondition of %s: %s' % (sp.name, nm), g, 'pre')
        h = self.spec.at_call.get(sp.name)
        if h:
            for nm, g in h(c, self.ctx0):
                self.oblige(st, 'at the call of %s: %s' % (sp.name, nm), g, 'pre')
        # frame
        for ent in sp.modifies(c):
            self.havoc_entry(st, ent)
        newvals = list(vals)
        for i in sp.outs:
            t = argv[i].ty
            nv = self.fresh_value(st, t, 'out')
            self.write(st, argv[i], nv)
            newvals[i] = nv
        ret = None
        if rt.k == 'ref':
            ret = self.fresh_value(st, rt.a, 'ret')
        elif rt.k != 'void':
            if sp.ret_fresh_obj and rt.k == 'ptr':
                ret = P(self.alloc(st, IntVal(1)), IntVal(0))
            else:
                ret = self.fresh_value(st, rt, 'ret')
        c2 = Ctx(self, vals, this, View(self, old), View(self, st), ret)
        c2.argn = newvals
        c2.argl = argv
        c2.callsite = True
        c2.st = st
        for nm, g in sp.ensures(c2):
            self.fact(st, g)
        if COVER and not self.quiet:
            self.covers.append(('after the call of %s' % sp.name, list(self.facts) + st.pc))
        return ret

    def havoc_entry(self, st, ent):
        kind = ent[0]
        if kind == 'alloc':
            a = self.getmem(st, 'alloc')
            b = self.fresh('alloc')
            self.fact(st, b >= a)
            self.setmem(st, 'alloc', b)
            return
        names = self.entry_names(ent)
        for nm in names:
            m = self.getmem(st, nm)
            base = ent[2] if len(ent) > 2 else None
            if base is None:
                self.setmem(st, nm, self.fresh(nm, m.sort()), None)
            elif callable(base):
                # every object satisfying a predicate
                m2 = self.fresh(nm, m.sort())
                x = Const('x!hv', I)
                self.setmem(st, nm, m2, None)
                self.gfact(FA([x], Implies(Not(base(x)), m2[x] == m[x]), patterns=[m2[x]]))
            elif len(ent) > 3 and ent[3] is not None:
                inner = Select(m, base)
                self.setmem(st, nm, Store(m, base, Store(inner, ent[3], self.fresh(nm, inner.sort().range()))), base)
            else:
                self.setmem(st, nm, Store(m, base, self.fresh(nm, m.sort().range())), base)

    def entry_names(self, ent):
        if ent[0] == 'mem':
            return ['M:p.b', 'M:p.o'] if ent[1] == 'p' else ['M:' + ent[1]]
        if ent[0] == 'field':
            t = self.field_type(ent[1])
            leaf = t
            while leaf.k == 'arr':
                leaf = leaf.a
            if itcont(leaf) is not None and t.k != 'arr':
                return [self.fname(ent[1], t, x) for x in (('.it', '.pos') if itcont(leaf).a in CONT_SEQ else ('.it', '.pos', '.A'))]
            if leaf.k == 'rec':
                return []
            if leaf.k == 'ptr' and not opaque(leaf):
                return [self.fname(ent[1], t, '.b'), self.fname(ent[1], t, '.o')]
            return [self.fname(ent[1], t)]
        if ent[0] == 'raw':
            return [ent[1]]
        if ent[0] == 'size':
            return ['C:size']
        if ent[0] == 'has':
            return ['H:has']
        if ent[0] == 'val':
            return ['H:val:p.b', 'H:val:p.o'] if ent[1] == 'p' else ['H:val:' + ent[1]]
        if ent[0] == 'len':
            return ['len']
        if ent[0] == 'ghost':
            return [ent[1]]
        raise Unsupported('modifies ' + repr(ent))

    # -------------------------------------------------------------- member calls, operators, containers
    def membercall(self, st, n, want_lv):
        import lib
        ins = self.inner(n)
        me = ins[0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = self.inner(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        args = ins[1:]
        base = self.inner(me)[0]
        bt = self.nt(base)
        if bt.k == 'ptr':
            ot = bt.a
            bv = self.ev(st, base)
            if isinstance(bv, P):
                if ot.k == 'rec':
                    obj = Obj(self.elemobj(st, bv, ot), ot)
                    if self.spec.nullcheck and base['kind'] != 'CXXThisExpr' and not is_cont(ot):
                        self.oblige(st, 'safety: null object (->%s())' % me['name'], obj.id != 0)
                else:
                    obj = bv
            elif isinstance(bv, PL):
                obj = self.read(st, bv.lv)
            elif isinstance(bv, Pair):
                obj = bv
            else:
                raise Unsupported('member call on %r' % (bv,))
        else:
            ot = bt.a if bt.k == 'ref' else bt
            lvb = self.lv(st, base)
            obj = self.read(st, lvb)
        if isinstance(obj, Obj) and is_cont(obj.ty):
            r = self.cont_call(st, obj, me['name'], args, n)
            return r
        if me['name'] in ('c_str', 'data') and (isinstance(obj, Str) or (isinstance(obj, Obj) and obj.ty.a in ('basic_string', 'string'))):
            return P(self.fresh('cstr'), IntVal(0))
        if isinstance(obj, (It, Str)) or obj is None:
            raise Unsupported('member call %s on %r' % (me['name'], obj))
        d = self.tu.decl.get(me.get('referencedMemberDecl'))
        if d is None:
            # std class
            m = lib.METHODS.get((ot.a if ot.k == 'rec' else '', me['name']))
            if m:
                return m(self, st, obj, args, n)
            raise Unsupported('method %s of %r' % (me['name'], ot))
        if d.get('kind') in ('CXXConversionDecl',):
            pass
        if self.is_virtual(d):
            r = self.virtual(st, d, args, obj, n)
        else:
            r = self.dispatch(st, d, args, obj, n)
        return self.aslval(r, n) if want_lv and not isinstance(r, (LVar, LMem, LField, LFieldArr, LMap, LObj)) else r

    def is_virtual(self, d):
        return bool(d.get('virtual'))

    def virtual(self, st, d, args, obj, n):
        """case split over the overriders found in the loaded units"""
        base = d.get('_rec')
        subs = {}
        for tu in [self.tu] + self.tus:
            for q, rec in tu.records.items():
                bases = [b.get('type', {}).get('qualType', '').split('::')[-1] for b in rec.get('bases', [])]
                if q == base or base.split('::')[-1] in bases:
                    for c in rec.get('inner', []):
                        if c.get('kind') == 'CXXMethodDecl' and c.get('name') == d.get('name'):
                            subs.setdefault(q.split('::')[-1], (q, c))
        if len(subs) <= 1 or d.get('name') in getattr(self.spec, 'static_dispatch', ()):
            return self.dispatch(st, d, args, obj, n)
        dyn = Select(self.getmem(st, self.fname('__obj.__dyn', INT(32))), obj.id)
        keys = {nm: self.dynkey(T('rec', nm)) for nm in subs}
        base_s = base.split('::')[-1]
        res, acc = None, None
        rest = []
        for nm, (q, c) in subs.items():
            if nm == base_s:
                continue
            s2 = st.copy()
            cnd = dyn == keys[nm]
            s2.pc.append(cnd)
            r2 = self.unlv(s2, self.dispatch(s2, c, args, obj, n))
            res = (s2, r2, cnd) if res is None else res
            rest.append((s2, r2, cnd))
        s1 = st.copy()
        s1.pc += [Not(c) for _, _, c in rest]
        v = self.unlv(s1, self.dispatch(s1, d, args, obj, n))
        m = s1
        for s2, r2, c in rest:
            v = self.vmerge(c, r2, v)
            m = self.merge2(s2, m)
        st.env, st.mem = m.env, m.mem
        return v

    def opcall(self, st, n, want_lv):
        ins = self.inner(n)
        cn, d = self.callee(st, ins[0])
        op = (d or {}).get('name') or cn.get('referencedDecl', {}).get('name', '')
        args = ins[1:]
        import lib
        if op == 'operator=' and self.nt(args[0]).k == 'rec':
            t0 = self.nt(args[0])
            if t0.a.endswith('iterator') or t0.a == 'pair':
                v = self.ev(st, args[1])
                l = self.lv(st, args[0])
                self.write(st, l, v) if not isinstance(l, LVar) else st.env.__setitem__(l.key, v)
                return l
            src = self.ev(st, args[1])
            l = self.lv(st, args[0])
            dst = self.read(st, l)
            if isinstance(src, (It, Pair, Str)) or isinstance(dst, (It, Pair, Str)):
                if isinstance(l, LVar):
                    st.env[l.key] = src
                return l
            if isinstance(src, Obj) and isinstance(dst, Obj):
                tu, f = self.defn(d) if d and d.get('mangledName') else (None, None)
                if f is not None and front.body(f) is not None and not f.get('isImplicit'):
                    return self.dispatch(st, d, args[1:], dst, n)
                self.copy_rec(st, dst, src)
                return LObj(dst)
            raise Unsupported('operator= on %r' % (dst,))
        l0 = self.lv(st, args[0])
        v0 = self.read(st, l0)
        if isinstance(v0, It):
            return self.iter_op(st, op, l0, v0, args, n)
        if isinstance(v0, Obj) and is_cont(v0.ty):
            if op == 'operator[]':
                return self.cont_index(st, v0, args[1], n)
            raise Unsupported('%s on container' % op)
        if isinstance(v0, Str) or (self.nt(args[0]).k == 'rec' and self.nt(args[0]).a in ('basic_ostream', 'ostream', 'basic_stringstream', 'basic_string')):
            for a in args[1:]:
                try:
                    self.ev(st, a)
                except Unsupported:
                    pass
            return LVal(Str(), self.nt(n))
        if d is not None and isinstance(v0, Obj):
            if d['kind'] == 'CXXMethodDecl':
                r = self.dispatch(st, d, args[1:], v0, n)
            else:
                r = self.dispatch(st, d, args, None, n)
            return self.aslval(r, n) if want_lv and not isinstance(r, (LVar, LMem, LField, LFieldArr, LMap, LObj)) else r
        raise Unsupported('operator %s on %r' % (op, v0))

    # ---- containers
    def cont_elt(self, t):
        if t.a in CONT_MAP:
            return t.b[1]
        return t.b[0]

    def cont_init(self, st, o, args=()):
        t = o.ty
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if t.a in CONT_SEQ:
            if not args:
                self.put(st, 'C:size', o.id, IntVal(0))
                return
            a0 = self.ev(st, args[0])
            if isinstance(a0, Obj):
                self.copy_rec(st, o, a0)
                return
            if isinstance(a0, It) or isinstance(a0, P):
                b0 = self.ev(st, args[1])
                e = self.cont_elt(t)
                en = self.ename(e)
                src, lo, hi = (a0.cid, a0.pos, b0.pos) if isinstance(a0, It) else (a0.b, a0.o, b0.o)
                self.put(st, 'C:size', o.id, hi - lo)
                m = self.getmem(st, 'M:' + en)
                na = self.fresh('vec', m.sort().range())
                k = Int('k!q')
                self.fact(st, FA([k], Implies(And(k >= 0, k < hi - lo), na[k] == Select(Select(m, src), lo + k)), patterns=[na[k]]))
                self.setmem(st, 'M:' + en, Store(m, o.id, na), o.id)
                return
            n = self.toint(a0)
            self.put(st, 'C:size', o.id, n)
            e = self.cont_elt(t)
            if e.k == 'rec':
                self.default_array(st, o.id, n, e)
                return
            v = self.tomem(e, self.ev(st, args[1])) if len(args) > 1 else self.zero(e)
            en = self.ename(e)
            if en == 'p':
                raise Unsupported('vector<ptr>(n)')
            if en == 'h':
                v = v.o
            m = self.getmem(st, 'M:' + en)
            self.setmem(st, 'M:' + en, Store(m, o.id, K(I, v)), o.id)
            return
        if args:
            a0 = self.nt(args[0])
            if a0.k == 'int':
                args = ()
        if args:
            src = self.ev(st, args[0])
            if isinstance(src, Obj):
                self.copy_rec(st, o, src)
                return
            raise Unsupported('container constructor')
        self.put(st, 'H:has', o.id, K(I, BoolVal(False)))
        if t.a in CONT_MAP and t.b[1].k == 'rec' and is_cont(t.b[1]):
            pass

    def key(self, v):
        if isinstance(v, P):
            return v.o if is_int_value(v.b) else Function('addr', I, I, I)(v.b, v.o)
        if isinstance(v, ArithRef):
            return v
        if isinstance(v, LVal):
            return self.key(v.v)
        if isinstance(v, LObj):
            return self.key(v.obj)
        if isinstance(v, Str):
            if v.v is None:
                v.v = self.fresh('str')
            return v.v
        if isinstance(v, Obj) and v.ty.k == 'rec' and v.ty.a in ('basic_string', 'string'):
            return Function('strval', I, I)(v.id)
        raise Unsupported('container key %r' % (v,))

    def unkey(self, k, t):
        if opaque(t) or t.k == 'ptr':
            return P(IntVal(0), k)
        return k

    def cont_index(self, st, o, arg, n):
        t = o.ty
        v = self.ev(st, arg)
        if t.a in CONT_SEQ:
            i = self.toint(v)
            e = self.cont_elt(t)
            if self.spec.bounds:
                self.oblige(st, 'safety: vector index in bounds (%s)' % self.line(n), And(i >= 0, i < Select(self.getmem(st, 'C:size'), o.id)))
            return LMem(e, P(o.id, i)) if e.k != 'rec' or e.a == 'pair' else LObj(Obj(self.elemobj(st, P(o.id, i), e), e))
        k = self.key(v)
        return self.map_index(st, o, k)

    def map_index(self, st, o, k):
        t = o.ty
        e = t.b[1]
        h = Select(self.getmem(st, 'H:has'), o.id)
        isin = Select(h, k)
        if e.k == 'rec':
            lv = LMap(o.id, k, e, t.b[0])
            ob = Obj(self.mapobj(lv), e)
            # inserting creates an empty value
            if is_cont(e):
                s2 = st.copy()
                if e.a in CONT_SEQ:
                    z = Select(self.getmem(st, 'C:size'), ob.id)
                    self.put(st, 'C:size', ob.id, If(isin, z, IntVal(0)))
                else:
                    z = Select(self.getmem(st, 'H:has'), ob.id)
                    self.put(st, 'H:has', ob.id, If(isin, z, K(I, BoolVal(False))))
                h = Select(self.getmem(st, 'H:has'), o.id)
            else:
                raise Unsupported('map to record %r' % e)
            self.put2(st, 'H:has', o.id, k, BoolVal(True))
            return LObj(ob)
        en = self.ename(e)
        if en == 'p':
            raise Unsupported('map to pointer')
        z = self.zero(e)
        if en == 'h':
            z = IntVal(0)
        cur = Select(Select(self.getmem(st, 'H:val:' + en), o.id), k)
        self.put2(st, 'H:val:' + en, o.id, k, If(isin, cur, z))
        self.put2(st, 'H:has', o.id, k, BoolVal(True))
        return LMap(o.id, k, e, t.b[0])

    def enum(self, st, o):
        """functions describing the iteration order of a set/map: deterministic in its contents"""
        A = Select(self.getmem(st, 'H:has'), o.id)
        SA = ArraySort(I, B)
        en, ix, cd = Function('enum', I, SA, I, I), Function('enumidx', I, SA, I, I), Function('card', SA, I)
        key = ('enum', o.id.get_id(), A.get_id())
        if key not in self.subterms:
            self.subterms[key] = (o.id, A)
            k, x = Int('k!q'), Int('x!q')
            tag = IntVal(1 if o.ty.a in ('unordered_map', 'unordered_set') else 2)
            self.gfact(cd(A) >= 0)
            self.gfact(FA([k], Implies(And(k >= 0, k < cd(A)), And(Select(A, en(tag, A, k)), ix(tag, A, en(tag, A, k)) == k)), patterns=[en(tag, A, k)]))
            self.gfact(FA([x], Implies(Select(A, x), And(ix(tag, A, x) >= 0, ix(tag, A, x) < cd(A), en(tag, A, ix(tag, A, x)) == x)), patterns=[ix(tag, A, x)]))
            if o.ty.a in ('set', 'map'):
                k2 = Int('k2!q')
                self.gfact(FA([k, k2], Implies(And(k >= 0, k < k2, k2 < cd(A)), en(tag, A, k) < en(tag, A, k2)), patterns=[MultiPattern(en(tag, A, k), en(tag, A, k2))]))
        tag = IntVal(1 if o.ty.a in ('unordered_map', 'unordered_set') else 2)
        return A, (lambda k: en(tag, A, k)), (lambda x: ix(tag, A, x)), cd(A)

    def cont_call(self, st, o, name, args, n):
        t = o.ty
        seq = t.a in CONT_SEQ
        if seq:
            e = self.cont_elt(t)
            size = Select(self.getmem(st, 'C:size'), o.id)
            if name == 'size':
                self.gfact(And(size >= 0, size < (1 << 62)))
                return size
            if name == 'empty':
                self.gfact(size >= 0)
                return size == 0
            if name == 'push_back' or name == 'emplace_back':
                v = self.ev(st, args[0])
                self.gfact(size >= 0)
                if isinstance(v, Pair) and e.k == 'rec' and e.a == 'pair':
                    self.write(st, LMem(e, P(o.id, size)), v)
                    self.put(st, 'C:size', o.id, size + 1)
                    return None
                if e.k == 'rec' and e.a in ('basic_string', 'string'):
                    self.put(st, 'C:size', o.id, size + 1)
                    return None
                if e.k == 'rec':
                    raise Unsupported('push_back of record')
                v = self.coerce(st, v, self.nt(args[0]), e)
                self.write(st, LMem(e, P(o.id, size)), v)
                self.put(st, 'C:size', o.id, size + 1)
                return None
            if name == 'pop_back':
                self.oblige(st, 'safety: pop_back on non-empty', size > 0)
                self.put(st, 'C:size', o.id, size - 1)
                return None
            if name in ('reserve', 'shrink_to_fit'):
                for a in args:
                    self.ev(st, a)
                return None
            if name == 'clear':
                self.put(st, 'C:size', o.id, IntVal(0))
                return None
            if name == 'resize' or name == 'assign':
                nv = self.toint(self.ev(st, args[0]))
                if e.k == 'rec':
                    raise Unsupported('resize of vector of records')
                fill = self.tomem(e, self.ev(st, args[1])) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else self.zero(e)
                en = self.ename(e)
                m = self.getmem(st, 'M:' + en)
                oldarr = Select(m, o.id)
                if name == 'assign':
                    na = K(I, fill)
                else:
                    na = self.fresh('vec', oldarr.sort())
                    k = Int('k!q')
                    self.fact(st, FA([k], na[k] == If(And(k >= size, k < nv), fill, oldarr[k]), patterns=[na[k]]))
                self.setmem(st, 'M:' + en, Store(m, o.id, na), o.id)
                self.put(st, 'C:size', o.id, nv)
                return None
            if name in ('back', 'front'):
                i = size - 1 if name == 'back' else IntVal(0)
                self.oblige(st, 'safety: %s() on non-empty' % name, size > 0)
                return LMem(e, P(o.id, simplify(i)))
            if name == 'at':
                return self.cont_index(st, o, args[0], n)
            if name == 'data':
                return P(o.id, IntVal(0))
            if name in ('begin', 'cbegin'):
                return It('vec', o.id, t, IntVal(0))
            if name in ('end', 'cend'):
                self.gfact(size >= 0)
                return It('vec', o.id, t, size)
            if name == 'swap':
                raise Unsupported('vector swap')
            raise Unsupported('vector::' + name)
        # associative
        A = Select(self.getmem(st, 'H:has'), o.id)
        if name in ('find', 'count'):
            k = self.key(self.ev(st, args[0]))
            if name == 'count':
                return If(Select(A, k), IntVal(1), IntVal(0))
            A, en, ix, cd = self.enum(st, o)
            self.gfact(Implies(Select(A, k), And(ix(k) >= 0, ix(k) < cd, en(ix(k)) == k)))
            return It('assoc', o.id, t, If(Select(A, k), ix(k), cd), A, (k, Select(A, k)))
        if name in ('begin', 'cbegin'):
            A, en, ix, cd = self.enum(st, o)
            return It('assoc', o.id, t, IntVal(0), A)
        if name in ('end', 'cend'):
            A, en, ix, cd = self.enum(st, o)
            return It('assoc', o.id, t, cd, A)
        if name in ('size', 'empty'):
            A, en, ix, cd = self.enum(st, o)
            return cd if name == 'size' else cd == 0
        if name == 'clear':
            self.put(st, 'H:has', o.id, K(I, BoolVal(False)))
            return None
        if name in ('insert', 'emplace'):
            v = self.ev(st, args[0])
            if t.a in CONT_SET:
                k = self.key(v)
                self.put2(st, 'H:has', o.id, k, BoolVal(True))
                return Pair(None, Not(Select(A, k)))
            if isinstance(v, Pair):
                k = self.key(v.a)
                val = v.b
            elif len(args) == 2:
                k = self.key(v)
                val = self.ev(st, args[1])
            else:
                raise Unsupported('map insert')
            e = t.b[1]
            en_ = self.ename(e)
            val = self.tomem(e, val)
            if en_ == 'h':
                val = val.o
            isin = Select(A, k)
            cur = Select(Select(self.getmem(st, 'H:val:' + en_), o.id), k)
            self.put2(st, 'H:val:' + en_, o.id, k, If(isin, cur, val))
            self.put2(st, 'H:has', o.id, k, BoolVal(True))
            return Pair(None, Not(isin))
        if name == 'erase':
            v = self.ev(st, args[0])
            if isinstance(v, It):
                k = self.it_key(st, v)
            else:
                k = self.key(v)
            self.put2(st, 'H:has', o.id, k, BoolVal(False))
            return If(Select(A, k), IntVal(1), IntVal(0))
        if name == 'at':
            k = self.key(self.ev(st, args[0]))
            self.oblige(st, 'safety: map::at key present', Select(A, k))
            e = t.b[1]
            return LMap(o.id, k, e, t.b[0])
        if name in ('reserve', 'rehash'):
            return None
        raise Unsupported('%s::%s' % (t.a, name))

    def it_key(self, st, it):
        if it.key is not None:
            return it.key[0]
        SA = ArraySort(I, B)
        tag = IntVal(1 if it.ty.a in ('unordered_map', 'unordered_set') else 2)
        return Function('enum', I, SA, I, I)(tag, it.A, it.pos)

    def it_deref(self, st, it, n=None):
        t = it.ty
        if it.kind == 'vec':
            e = self.cont_elt(t)
            if self.spec.bounds:
                self.oblige(st, 'safety: iterator dereference in range', And(it.pos >= 0, it.pos < Select(self.getmem(st, 'C:size'), it.cid)))
            return LMem(e, P(it.cid, it.pos)) if e.k != 'rec' or e.a == 'pair' else LObj(Obj(self.elemobj(st, P(it.cid, it.pos), e), e))
        cd = Function('card', ArraySort(I, B), I)(it.A)
        if it.key is not None:
            self.oblige(st, 'safety: found-iterator dereference', it.key[1])
        else:
            self.oblige(st, 'safety: iterator dereference in range', And(it.pos >= 0, it.pos < cd))
        k = self.it_key(st, it)
        if it.key is None:
            self.fact(st, Implies(And(it.pos >= 0, it.pos < cd), Select(it.A, k)))
        if t.a in CONT_SET:
            return LVal(self.unkey(k, t.b[0]), t.b[0])
        lv = LMap(it.cid, k, t.b[1], t.b[0])
        return LVal(Pair(self.unkey(k, t.b[0]), lv if t.b[1].k != 'rec' else LObj(Obj(self.mapobj(lv), t.b[1]))), T('rec', 'pair', [t.b[0], t.b[1]]))

    def iter_op(self, st, op, l0, v0, args, n):
        if op in ('operator==', 'operator!='):
            b = self.ev(st, args[1])
            if not isinstance(b, It):
                raise Unsupported('iterator compare')
            e = v0.pos == b.pos
            if not simplify(v0.cid == b.cid).eq(BoolVal(True)):
                self.oblige(st, 'safety: compared iterators belong to one container (%s)' % self.line(n), v0.cid == b.cid)
            # found-iterators: end iff absent
            if v0.key is not None and b.key is None:
                cd = Function('card', ArraySort(I, B), I)(v0.A)
                if simplify(b.pos).eq(simplify(cd)):
                    e = Not(v0.key[1])
            elif b.key is not None and v0.key is None:
                cd = Function('card', ArraySort(I, B), I)(b.A)
                if simplify(v0.pos).eq(simplify(cd)):
                    e = Not(b.key[1])
            return e if op == 'operator==' else Not(e)
        if op in ('operator++', 'operator--'):
            d = 1 if op == 'operator++' else -1
            nv = It(v0.kind, v0.cid, v0.ty, simplify(v0.pos + d), v0.A)
            if isinstance(l0, LVar):
                st.env[l0.key] = nv
            elif isinstance(l0, LField):
                self.write(st, l0, nv)
            else:
                raise Unsupported('iterator increment target')
            if len(args) > 1:
                return LVal(v0, self.nt(n))
            return l0
        if op == 'operator*':
            r = self.it_deref(st, v0, n)
            return r
        if op == 'operator->':
            r = self.it_deref(st, v0, n)
            v = self.read(st, r) if isinstance(r, LVal) else None
            if isinstance(v, Pair):
                return v
            if isinstance(r, LObj):
                return P(r.obj.id, IntVal(0))
            return PL(r)
        if op in ('operator+', 'operator-') and v0.kind == 'vec':
            b = self.ev(st, args[1])
            if isinstance(b, It):
                return v0.pos - b.pos
            b = self.toint(b)
            return It('vec', v0.cid, v0.ty, simplify(v0.pos + b if op == 'operator+' else v0.pos - b))
        if op in ('operator<', 'operator<=', 'operator>', 'operator>='):
            b = self.ev(st, args[1])
            return self.cmp(op[8:], v0.pos, b.pos, True)
        if op == 'operator[]' and v0.kind == 'vec':
            b = self.toint(self.ev(st, args[1]))
            return LMem(self.cont_elt(v0.ty), P(v0.cid, simplify(v0.pos + b)))
        raise Unsupported('iterator ' + op)

    # -------------------------------------------------------------- statements
    # each returns a list of (kind, state, value): n normal, r return, b break, c continue, t thrown
    def stmt(self, st, n):
        f = getattr(self, 'st_' + n['kind'], None)
        try:
            if f is None:
                self.ev(st, n)
                return [('n', st, None)]
            return f(st, n)
        except PathEnd:
            return []

    def st_CompoundStmt(self, st, n):
        outs = []
        cur = st
        for c in self.inner(n):
            if cur is None:
                break
            rs = self.stmt(cur, c)
            norm = [s for k, s, v in rs if k == 'n']
            outs += [x for x in rs if x[0] != 'n']
            cur = self.merge(norm)
            if cur is not None and cur.pc and is_false(simplify(And(*cur.pc))):
                cur = None
        if cur is not None:
            outs.append(('n', cur, None))
        return outs

    def st_NullStmt(self, st, n):
        return [('n', st, None)]

    def st_LabelStmt(self, st, n):
        raise Unsupported('label')

    def st_AttributedStmt(self, st, n):
        return self.stmt(st, self.inner(n)[-1])

    def st_DeclStmt(self, st, n):
        for d in self.inner(n):
            if d['kind'] == 'VarDecl':
                self.vardecl(st, d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'CXXRecordDecl', 'RecordDecl', 'EnumDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'):
                if d['kind'] in ('TypedefDecl', 'TypeAliasDecl'):
                    t = d.get('type', {})
                    self.tu.typedefs[d['name']] = t.get('desugaredQualType', t.get('qualType'))
                    self.tt.pop(self.tu.path, None)
            else:
                raise Unsupported('declaration ' + d['kind'])
        return [('n', st, None)]

    def vardecl(self, st, d):
        key = (self.tu.path, d['id'])
        t = self.nt(d)
        st.types[key] = (d.get('name', ''), t)
        DECLNO.setdefault(key, len(DECLNO))
        ins = [c for c in self.inner(d) if not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        if d.get('storageClass') == 'static':
            self.global_lv(st, d)
            return
        if t.k == 'ref':
            lv = self.lv(st, ins[0])
            if isinstance(lv, LVal):
                st.env[key] = lv.v
            elif isinstance(lv, LObj):
                st.env[key] = lv.obj
            else:
                st.env[key] = lv
            return
        if not ins or 'init' not in d:
            if t.k == 'rec':
                if is_cont(t):
                    o = Obj(self.alloc(st, None), t)
                    self.cont_init(st, o)
                    st.env[key] = o
                elif t.a.endswith('iterator') or t.a in ('pair',):
                    st.env[key] = None if t.a != 'pair' else self.fresh_value(st, t, d.get('name', 'v'))
                else:
                    st.env[key] = Obj(self.alloc(st, None), t)
            elif t.k == 'arr':
                b = self.alloc(st, IntVal(self.leafn(t)))
                st.env[key] = P(b, IntVal(0))
            else:
                st.env[key] = self.fresh_value(st, t, d.get('name', 'v'))
            return
        e = ins[-1]
        if t.k == 'rec':
            x = e
            while x['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                x = self.inner(x)[0]
            if x['kind'] == 'CXXConstructExpr' and not (t.a.endswith('iterator') or t.a in ('pair', 'basic_string', 'string')):
                args = self.inner(x)
                if not (len(args) == 1 and self.nt(args[0]) == t):
                    o = Obj(self.alloc(st, None), t)
                    self.construct(st, o, x)
                    st.env[key] = o
                    return
                v = self.ev(st, args[0])
                if isinstance(v, Obj):
                    o = Obj(self.alloc(st, None), t)
                    self.copy_rec(st, o, v)
                    st.env[key] = o
                    return
                st.env[key] = v
                return
            if t.a.endswith('iterator') and x['kind'] == 'CXXConstructExpr' and not self.inner(x):
                st.env[key] = None
                return
            st.env[key] = self.ev(st, e)
            return
        v = self.ev(st, e)
        if not isinstance(v, (PL, PF, It, Pair, FuncRef, Str)):
            v = self.tomem(t, v)
        st.env[key] = v

    def st_ReturnStmt(self, st, n):
        ins = self.inner(n)
        if not ins:
            return [('r', st, None)]
        f = self.stackfns_node()
        if f is not None and self.rettype(f).k == 'ref':
            lv = self.lv(st, ins[0])
            return [('r', st, lv)]
        v = self.ev(st, ins[0])
        if f is not None:
            rt = self.rettype(f)
            if isinstance(v, ExprRef):
                v = self.tomem(rt, v)
        return [('r', st, v)]

    def stackfns_node(self):
        if self.stackfns:
            return self.tu.byid.get(self.stackfns[-1])
        return self.fn

    def st_BreakStmt(self, st, n):
        return [('b', st, None)]

    def st_ContinueStmt(self, st, n):
        return [('c', st, None)]

    def st_IfStmt(self, st, n):
        ins = self.inner(n)
        i = 0
        if n.get('hasInit'):
            self.stmt(st, ins[0])
            i = 1
        if n.get('hasVar'):
            self.stmt(st, ins[i])
            i += 1
        c = self.cond(st, ins[i])
        sc = simplify(c)
        outs = []
        if not is_false(sc):
            s1 = st if is_true(sc) else st.copy()
            if not is_true(sc):
                s1.pc.append(c)
            outs += self.stmt(s1, ins[i + 1])
        if not is_true(sc):
            s2 = st.copy() if not is_false(sc) else st
            if not is_false(sc):
                s2.pc.append(Not(c))
            if n.get('hasElse'):
                outs += self.stmt(s2, ins[i + 2])
            else:
                outs.append(('n', s2, None))
        norm = [s for k, s, v in outs if k == 'n']
        rest = [x for x in outs if x[0] != 'n']
        m = self.merge(norm)
        if m is not None:
            rest.append(('n', m, None))
        return rest

    def st_SwitchStmt(self, st, n):
        ins = self.inner(n)
        v = self.ev(st, ins[0])
        bodyn = ins[-1]
        # flatten the case list
        items = []

        def flat(x):
            if x['kind'] in ('CaseStmt', 'DefaultStmt'):
                items.append(('label', x))
                cs = self.inner(x)
                flat(cs[-1])
            else:
                items.append(('stmt', x))
        for c in self.inner(bodyn):
            flat(c)
        labels = [x for k, x in items if k == 'label']
        casec = {}
        allc = []
        for x in labels:
            if x['kind'] == 'CaseStmt':
                cv = self.ev(st, self.inner(x)[0])
                c = v == cv
                casec[id(x)] = c
                allc.append(c)
        outs, cur = [], None
        for k, x in items:
            if k == 'label':
                e = st.copy()
                if x['kind'] == 'CaseStmt':
                    e.pc.append(casec[id(x)])
                else:
                    e.pc += [Not(c) for c in allc]
                cur = self.merge([cur, e])
            elif cur is not None:
                rs = self.stmt(cur, x)
                outs += [r for r in rs if r[0] not in ('n', 'b')]
                outs += [('n', s, w) for kk, s, w in rs if kk == 'b']
                cur = self.merge([s for kk, s, w in rs if kk == 'n'])
        if cur is not None:
            outs.append(('n', cur, None))
        if not any(x['kind'] == 'DefaultStmt' for x in labels):
            e = st.copy()
            e.pc += [Not(c) for c in allc]
            outs.append(('n', e, None))
        m = self.merge([s for k, s, w in outs if k == 'n'])
        rest = [r for r in outs if r[0] != 'n']
        if m is not None:
            rest.append(('n', m, None))
        return rest

    def st_CXXTryStmt(self, st, n):
        return self.stmt(st, self.inner(n)[0])

    # ---- loops
    def st_ForStmt(self, st, n):
        raw = n.get('inner', [])
        init, _, cond, inc, bodyn = raw[0], raw[1], raw[2], raw[3], raw[4]
        if init and init.get('kind'):
            self.stmt(st, init)
        return self.loop(st, n, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, bodyn)

    def st_WhileStmt(self, st, n):
        ins = self.inner(n)
        return self.loop(st, n, ins[-2], None, ins[-1])

    def st_DoStmt(self, st, n):
        bodyn, cond = self.inner(n)
        # do S while(c)  ==  S; while(c) S   (break/continue inside the first S handled)
        rs = self.stmt(st, bodyn)
        outs = [r for r in rs if r[0] in ('r', 't')]
        brk = [s for k, s, w in rs if k == 'b']
        cur = self.merge([s for k, s, w in rs if k in ('n', 'c')])
        if cur is not None:
            rr = self.loop(cur, n, cond, None, bodyn)
            outs += [r for r in rr if r[0] != 'n']
            brk += [s for k, s, w in rr if k == 'n']
        m = self.merge(brk)
        if m is not None:
            outs.append(('n', m, None))
        return outs

    def st_CXXForRangeStmt(self, st, n):
        raw = [c for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind')]
        # range, begin, end, cond, inc, loopvar, body
        rng, beg, end, cond, inc, var, bodyn = raw[-7:]
        self.stmt(st, rng)
        self.stmt(st, beg)
        self.stmt(st, end)
        b2 = {'kind': 'CompoundStmt', 'inner': [var, bodyn], 'id': 'range' + n['id']}
        return self.loop(st, n, cond, inc, b2)

    def iterate_once(self, st, cond, inc, bodyn):
        """one iteration from st: returns (exit states, back-edge states, returns)"""
        exits, backs, rets = [], [], []
        if cond is not None:
            try:
                c = self.cond(st, cond)
            except PathEnd:
                return [], [], []
            sc = simplify(c)
            if not is_true(sc):
                e = st.copy()
                if not is_false(sc):
                    e.pc.append(Not(c))
                exits.append(e)
            if is_false(sc):
                return exits, [], []
            if not is_true(sc):
                st.pc.append(c)
        rs = self.stmt(st, bodyn)
        go = []
        for k, s, v in rs:
            if k in ('n', 'c'):
                go.append(s)
            elif k == 'b':
                exits.append(s)
            else:
                rets.append((k, s, v))
        m = self.merge(go)
        if m is not None:
            if inc is not None:
                try:
                    self.ev(m, inc)
                    backs.append(m)
                except PathEnd:
                    pass
            else:
                backs.append(m)
        return exits, backs, rets

    def const_trip(self, st, cond):
        return None

    def loop(self, st, n, cond, inc, bodyn):
        import loops
        return loops.run_loop(self, st, n, cond, inc, bodyn)


class LPairW(LPair):
    pass
