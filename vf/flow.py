"""Small helpers shared by checks that ask where a field is read or written."""
from .mir import callee


def fields(pl):
    return [e[2] for e in pl[1:] if isinstance(e, list) and e[0] == 'f']


def rv_places(r):
    """(mode, place) pairs read or referenced by an rvalue"""
    k = r[0]
    ops = []
    if k in ('use', 'repeat'):
        ops = [r[1]]
    elif k == 'ref':
        return [('ref' if r[1] == 'shared' else 'mutref', r[2])]
    elif k == 'bin':
        ops = [r[2], r[3]]
    elif k in ('un', 'cast'):
        ops = [r[2]]
    elif k == 'discr':
        return [('read', r[1])]
    elif k == 'agg':
        ops = list(r[2])
    return [('read' if o[0] == 'c' else 'move', o[1]) for o in ops if o[0] in ('c', 'm')]


def accesses(f):
    """(block, mode, place) of every access; mode in read, move, ref, mutref, write, drop"""
    for i, b in enumerate(f.blocks):
        if b['c']:
            continue
        for s in b['s']:
            if s[0] == '=':
                for m, p in rv_places(s[2]):
                    yield i, m, p
                yield i, 'write', s[1]
        t = b['t']
        if t[0] == 'call':
            for o in t[2]:
                if o[0] in ('c', 'm'):
                    yield i, 'read' if o[0] == 'c' else 'move', o[1]
            yield i, 'write', t[3]
        elif t[0] == 'switch' and t[1][0] in ('c', 'm'):
            yield i, 'read', t[1][1]
        elif t[0] == 'drop':
            yield i, 'drop', t[1]


def owner_ty(f, pl, name):
    """type owning field `name` when it is a field directly of the (dereferenced) base local"""
    ty = f.locals[pl[0]]
    return ty.lstrip('&').replace('mut ', '').strip()


def touching(P, G, names, modes=('write', 'mutref', 'move')):
    """functions that access one of these fields in one of these modes, and transitively their callers"""
    direct = {}
    for n, f in P.fns.items():
        if f.kind != 'fn':
            continue
        for b, m, p in accesses(f):
            if m in modes and set(fields(p)) & set(names):
                direct.setdefault(n, []).append((b, m, p))
    return direct
