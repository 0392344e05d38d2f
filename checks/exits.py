"""Which exits of a summarised function fire under a hypothesis about one read."""
from .common import *
from ffsa.interp import walk_events


def nested(trace, path=()):
    """(loop path, event) in order"""
    for e in trace:
        yield path, e
        if e.body is not None:
            yield from nested(e.body, path + (e,))


def atoms(t, out):
    if t.op in ('not', 'and', 'or'):
        for x in t.a:
            atoms(x, out)
    elif t.op == 'ite' and typ(t) == BOOL:
        for x in t.a:
            atoms(x, out)
    elif t is not TRUE and t is not FALSE:
        if t not in out:
            out.append(t)


def setlit(t, a, v):
    """t with atom a set to v (boolean structure only)"""
    if t is a:
        return TRUE if v else FALSE
    if t.op == 'not':
        return not_(setlit(t.a[0], a, v))
    if t.op == 'and':
        return and_(*[setlit(x, a, v) for x in t.a])
    if t.op == 'or':
        return or_(*[setlit(x, a, v) for x in t.a])
    if t.op == 'ite' and typ(t) == BOOL:
        return ite(*[setlit(x, a, v) for x in t.a])
    return t


def implies_atoms(a, v, other):
    """truth of `other` that follows from atom a = v (equalities with distinct constants)"""
    if v and a.op == 'eq' and other.op == 'eq':
        for i in (0, 1):
            for j in (0, 1):
                if a.a[i] is other.a[j] and a.a[1 - i].op == 'c' and other.a[1 - j].op == 'c' and a.a[1 - i] is not other.a[1 - j]:
                    return False
    return None


def always(assume, exits, limit=4000):
    """does some exit condition hold in every truth assignment that satisfies the assumptions?
    True / None (too big) / a falsifying assignment (list of (atom, value))"""
    budget = [limit]

    def go(assume, exits, trail):
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        if any(x is TRUE for x in exits) or any(x is FALSE for x in assume):
            return True
        assume = [x for x in assume if x is not TRUE]
        exits = [x for x in exits if x is not FALSE]
        if not exits:
            return trail
        at = []
        for x in assume[:]:
            if x.op not in ('and', 'or', 'ite'):
                atoms(x, at)
        if not at:
            for x in exits:
                atoms(x, at)
        if not at:
            return trail
        a = at[0]
        for v in (True, False):
            A, X = [setlit(x, a, v) for x in assume], [setlit(x, a, v) for x in exits]
            rest = []
            for x in A + X:
                atoms(x, rest)
            for o in rest:
                w = implies_atoms(a, v, o)
                if w is not None:
                    A, X = [setlit(x, o, w) for x in A], [setlit(x, o, w) for x in X]
            r = go(A, X, trail + [(a, v)])
            if r is not True:
                return r
        return True
    at = []
    for x in exits:
        atoms(x, at)
    at = set(at)
    rel = []
    for x in assume:
        o = []
        atoms(x, o)
        if x is FALSE or at.intersection(o) or any(implies_atoms(q, True, z) is not None for q in o for z in at if q.op == 'eq'):
            rel.append(x)
    try:
        return go(rel, list(exits), [])
    except OverflowError:
        return None


def exit_list(r):
    """(loop path, branch condition literals, loc, event) of exits that escape the analysed call"""
    esc = {x.loc for x in r.raises}
    out = []
    for path, e in nested(r.trace):
        g = [l for l, t in e.pc if t == 'branch']
        if e.kind == 'raise' and (e.loc in esc or not esc):
            out.append((path, g, e.loc, e))
        elif e.kind == 'assert':
            out.append((path, g + [not_(e.d['cond'])], e.loc, e))
    return out


def leaf_ints(lits):
    """maximal non-arithmetic integer subterms"""
    out = []

    def go(t):
        if t.op in ('not', 'and', 'or', 'eq', 'le0', 'lt0', 'poly', 'mod', 'fdiv', 'truth', 'ite', 'min', 'max', 'max0', 'tuple', 'in', 'isnone') or (t.op == 'item' and typ(t.a[0]) == BYTES):
            for x in children(t):
                go(x)
        elif t.op not in ('c', 'bv') and t not in out and typ(t) in (INT, BOOL, BYTES):
            out.append(t)
    for l in lits:
        go(l)
    return out


def witness(assume, exits, focus=None, tries=600):
    """a concrete assignment of the integer leaves with all assumptions true and no exit taken (dict), or None"""
    import random
    from ffsa.equiv import Env
    core = set(leaf_ints(exits)) if exits else set()
    if focus:
        core |= set(leaf_ints(focus))
    assume = [l for l in assume if (focus and l in focus) or set(leaf_ints([l])) <= core]
    lits = list(assume) + list(exits)
    leaves = leaf_ints(lits)
    fixed = {}
    for l in assume:
        if l.op == 'eq' and l.a[0] in leaves and l.a[1].op == 'c':
            fixed[l.a[0]] = l.a[1].a[0]
        elif l.op == 'eq' and l.a[1] in leaves and l.a[0].op == 'c':
            fixed[l.a[1]] = l.a[0].a[0]
    consts = {y.a[0] for l in lits for y in closure(l) if y.op == 'c' and isinstance(y.a[0], int) and not isinstance(y.a[0], bool)}
    for l in lits:
        for y in closure(l):
            if y.op == 'poly':
                consts |= {c for c, m in y.a[0] if isinstance(c, int)}
    pool = sorted({c + d for c in consts for d in (-1, 0, 1)} | {-c for c in consts} | {0, 1, 2, 3, 5, 7, 12, 13})
    bpool = [b'']
    for l in lits:
        for y in closure(l):
            if y.op == 'c' and isinstance(y.a[0], bytes):
                b = y.a[0]
                bpool += [b, b[:-1] + b'~', b'~' + b[1:], b[:1] + b'~' + b[2:], b + b'~', b[:-2] + b'~~']
    m = {t: sym('%%leaf%d' % i, typ(t)) for i, t in enumerate(leaves)}
    A = [subst(l, m) for l in assume]
    X = [subst(l, m) for l in exits]
    for s in range(tries):
        r = random.Random(s)
        e = Env(s)
        for t in leaves:
            lo, hi = RNG.get(t, (None, None))
            v = fixed[t] if t in fixed else r.random() < .5 if typ(t) == BOOL else r.choice(bpool) if typ(t) == BYTES else r.choice(pool)
            if typ(t) == INT and ((lo is not None and v < lo) or (hi is not None and v > hi)):
                v = lo if lo is not None and v < lo else hi
            e.vals[m[t]] = v
        try:
            if all(e.truth(e.ev(l)) for l in A) and not any(e.truth(e.ev(l)) for l in X):
                return {str(t): e.vals[m[t]] for t in leaves}
        except Exception:       # noqa
            continue
    return None


def decide(assume, exits, focus=None):
    """True: some exit always fires; False: a concrete assignment escapes all exits; None: undecided"""
    fix = {}
    for l in (focus or ()):
        if l.op == 'eq':
            x, y = l.a
            if y.op == 'c' and x.op not in ('c', 'poly'):
                fix[x] = y
            elif x.op == 'c' and y.op not in ('c', 'poly'):
                fix[y] = x
    if fix:
        assume = [subst(l, fix) for l in assume if l not in focus]
        exits = [subst(l, fix) for l in exits]
        focus = [l for l in focus if subst(l, fix) is not TRUE]
        assume += focus
    v = always(assume, exits)
    if v is True:
        return True
    if v is not None and all(x is FALSE for x in exits):
        return False
    w = witness(assume, exits, focus)
    return False if w is not None else None
