"""helpers for contracts"""
import z3
BADP = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT}


def pat_ok(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() in BADP:
            return False
        todo += x.children()
    return True


def FA(vs, body, patterns=()):
    """ForAll with those of the patterns the solver accepts"""
    ps = []
    for p in patterns:
        if isinstance(p, z3.PatternRef):
            ps.append(p)
            continue
        ts = list(p) if isinstance(p, (tuple, list)) else [p]
        if all(pat_ok(t) for t in ts):
            ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    if ps:
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)
