"""Contracts: one Spec per function of /repo, and the registry the executor consults at calls."""
import z3


class Spec:
    bv = False
    bytes = False           # byte-addressed memory
    nullcheck = True
    bounds = True
    rawptr = False
    modwrap = False
    divcheck = False
    allow_throw = False
    indirect = None
    loops = ()
    outs = ()
    interior = ()           # arguments that may point at a record held by value in another one
    dead = ()               # reachability checks that may fail (loops the preconditions rule out)
    ctors = ()              # constructors used through their contract (others are inlined)
    ret_fresh_obj = False
    static_dispatch = ()
    decomp = None
    at_call = {}            # {contract: obligations at each of its calls in this function}
    auto = None             # regular expression: the automatic loop candidates to try (all when None)
    assumed = False         # contract on a dependency, not verified here
    overflow = False
    mapinv = False          # keep a ghost inverse of maps to int
    table = None            # {member: function}: static initialiser of a record of function pointers

    def __init__(self, name, file, q, nparams=None, sig=None, requires=None, ensures=None, modifies=None, setup=None, **kw):
        self.name, self.file, self.q, self.nparams, self.sig = name, file, q, nparams, sig
        self._req = requires or (lambda c: [])
        self._ens = ensures or (lambda c: [])
        self._mod = modifies or (lambda c: [])
        self.setup = setup
        for k, v in kw.items():
            assert hasattr(Spec, k), k
            setattr(self, k, v)

    def requires(self, c):
        return [x for x in self._req(c)]

    def ensures(self, c):
        return [x for x in self._ens(c)]

    def modifies(self, c):
        return [x for x in self._mod(c)]

    def matches(self, f):
        import front
        if self.nparams is not None and len(front.params(f)) != self.nparams:
            return False
        if self.sig is not None and self.sig not in (f.get('type', {}).get('qualType', '')):
            return False
        return True


class Lemma:
    """a formula to be proved once, by itself; contracts may then use its instances"""

    def __init__(self, name, goal, facts=()):
        self.name, self.goal, self.facts = name, goal, list(facts)


class Registry:
    def __init__(self, specs, ghosts=None, root=None, inline=()):
        self.by = {}
        if root is not None:
            specs = [s for s in specs if s.module in root.uses]
        for s in specs:
            self.by.setdefault(s.q, []).append(s)
        self.specs = specs
        self.ghosts = dict(ghosts or {})
        self.ghosts.setdefault('G:ncoll', z3.IntSort())
        self.inline = set(inline)
        self.root = root

    def lookup(self, ex, decl, definition):
        d = definition if definition is not None else decl
        q = d.get('_q') or decl.get('_q') or d.get('name')
        for s in self.by.get(q, ()):
            if s.matches(d):
                return s
        return None

    def force_inline(self, sp):
        return sp.name in self.inline
