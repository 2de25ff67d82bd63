"""C06: shared parser state is never accessed re-entrantly (RefCell borrows never overlap)."""
import re
from .. import cg
from ..mir import callee, succs

GUARD = re.compile(r"^std::cell::(Ref|RefMut)<(?:'[a-z_]+, )?(.*)>$")
ACQ = {'std::cell::RefCell::<T>::borrow': 'shared', 'std::cell::RefCell::<T>::borrow_mut': 'mut',
       'std::cell::RefCell::<T>::replace': 'mut', 'std::cell::RefCell::<T>::replace_with': 'mut',
       'std::cell::RefCell::<T>::swap': 'mut', 'std::cell::RefCell::<T>::take': 'mut'}


def cellty(t):
    m = GUARD.match(t)
    return m.group(2) if m else None


def guards_in(t):
    """guard types contained in a local's type"""
    return [(m[0], m[1]) for m in re.findall(r"std::cell::(Ref|RefMut)<(?:'[a-z_]+, )?([^;]*)>", t)] if 'std::cell::Ref' in t and 'RefCell<' not in t else []


def field_of(f, b):
    """name of the field whose RefCell is borrowed by the call ending block b, following copies and derefs"""
    t = f.blocks[b]['t']
    o = t[2][0]
    want = o[1][0] if o[0] in ('c', 'm') else None
    names = [e[2] for e in o[1][1:] if isinstance(e, list) and e[0] == 'f'] if o[0] in ('c', 'm') else []
    if names:
        return tuple(names)
    seen = set()
    for _ in range(12):
        if want is None or want in seen:
            return None
        seen.add(want)
        d = defs(f).get(want, [])
        if len(d) != 1:
            return None
        r = d[0]
        if r[0] == 'call':
            a = r[1]
            pl = a[1] if a and a[0] in ('c', 'm') else None
        elif r[0] == 'ref':
            pl = r[2]
        elif r[0] in ('use',) and r[1][0] in ('c', 'm'):
            pl = r[1][1]
        elif r[0] == 'cast' and r[2][0] in ('c', 'm'):
            pl = r[2][1]
        else:
            return None
        if pl is None:
            return None
        names = [e[2] for e in pl[1:] if isinstance(e, list) and e[0] == 'f']
        if names:
            base = f.locals[pl[0]].lstrip('&').replace('mut ', '')
            return (base,) + tuple(names)
        want = pl[0]
    return None


def defs(f):
    d = getattr(f, '_defs', None) if hasattr(f, '_defs') else None
    if f.name in DEFS:
        return DEFS[f.name]
    d = {}
    for b in f.blocks:
        for s in b['s']:
            if s[0] == '=' and len(s[1]) == 1:
                d.setdefault(s[1][0], []).append(s[2])
        t = b['t']
        if t[0] == 'call' and len(t[3]) == 1:
            d.setdefault(t[3][0], []).append(('call', t[2][0] if t[2] else None))
    DEFS[f.name] = d
    return d


DEFS = {}


def key(ci, f, b):
    """identity of the borrowed cell: element type and, when it can be named, the field"""
    ty = ci['args'][0] if ci.get('args') else '?'
    fld = field_of(f, b)
    return ty, (fld[-2:] if fld and len(fld) > 1 else fld)


def overlap(a, b):
    if a[0] != b[0]:
        return False
    # same element type: different (owner type, field) pairs are different cells
    if a[1] and b[1] and len(a[1]) == 2 and len(b[1]) == 2 and a[1] != b[1]:
        return False
    return True


def check(ctx, rep):
    P = ctx.prog
    DEFS.clear()
    rep.rule = ('at every call made while a RefCell guard is live, the callee (and everything it can reach) does not borrow '
                'a cell that may be the same one in a conflicting mode; no two conflicting guards are live together')
    G = cg.CallGraph(P)
    direct = {}
    nacq = 0
    for n, f in P.fns.items():
        if f.kind != 'fn':
            continue
        for b in range(len(f.blocks)):
            if f.blocks[b]['c']:
                continue
            t = f.blocks[b]['t']
            ci = callee(t) if t[0] == 'call' else None
            if ci and ci['fn'] in ACQ:
                nacq += 1
                direct.setdefault(n, {})[(key(ci, f, b), ACQ[ci['fn']])] = t[-1] if isinstance(t[-1], str) else f.span
    rep.floor('borrow sites', nacq, 30)
    # transitive borrow sets
    trans = {n: dict(d) for n, d in direct.items()}
    succ = {n: {m for m, c, l in G.out(n)} for n in P.fns}
    ch = True
    while ch:
        ch = False
        for n in P.fns:
            cur = trans.get(n, {})
            for m in succ[n]:
                for k, l in trans.get(m, {}).items():
                    if k not in cur:
                        cur[k] = l
                        ch = True
            if cur:
                trans[n] = cur
    for n, f in P.fns.items():
        if f.kind != 'fn' or not any('std::cell::Ref<' in l or 'std::cell::RefMut<' in l for l in f.locals):
            continue
        rep.count('functions holding guards')
        # forward may-analysis: local -> (key, mode) of live guards
        n_b = len(f.blocks)
        inn = [None] * n_b
        inn[0] = frozenset()
        wl = [0]
        while wl:
            b = wl.pop()
            cur = set(inn[b])
            bl = f.blocks[b]
            if bl['c']:
                continue
            for s in bl['s']:
                if s[0] == '=':
                    moved = []
                    r = s[2]
                    if r[0] == 'use' and r[1][0] == 'm':
                        moved = [r[1][1][0]] if len(r[1][1]) == 1 else []
                    elif r[0] == 'agg':
                        moved = [o[1][0] for o in r[2] if o[0] == 'm' and len(o[1]) == 1]
                    for mloc in moved:
                        for g in [g for g in cur if g[0] == mloc]:
                            cur.discard(g)
                            cur.add((s[1][0],) + g[1:])
                elif s[0] == 'dead':
                    cur = {g for g in cur if g[0] != s[1]}
            t = bl['t']
            if t[0] == 'drop':
                cur = {g for g in cur if not (g[0] == t[1][0])}
            elif t[0] == 'call':
                ci = callee(t)
                moved = {o[1][0] for o in t[2] if o[0] == 'm' and len(o[1]) == 1}
                passed = {g for g in cur if g[0] in moved}
                loc = t[5] if len(t) > 5 and isinstance(t[5], str) else f.span
                if ci and ci['fn'] in ACQ:
                    k, mode = key(ci, f, b), ACQ[ci['fn']]
                    for g in cur:
                        rep.check(not (overlap(g[1], k) and 'mut' in (mode, g[2])), 'borrow/%s/%s/%s' % (n, g[1][0], k[1]),
                                  '%s borrows %s while it already holds it' % (n, k[1] or k[0]), where=f.span)
                    cur -= passed
                    if ci['fn'].endswith('borrow') or ci['fn'].endswith('borrow_mut'):
                        if len(t[3]) == 1:
                            cur.add((t[3][0], k, mode))
                else:
                    tgt = [ci['fn']] if ci else []
                    for o in t[2]:
                        if o[0] in ('c', 'm'):
                            for r in defs(f).get(o[1][0], []):
                                if r[0] == 'agg' and r[1][0] == 'closure':
                                    tgt.append(r[1][1])
                    for x in [x for x in tgt if cur and x in trans]:
                        for g in cur:
                            for (k, mode), l in trans[x].items():
                                rep.check(not (overlap(g[1], k) and 'mut' in (mode, g[2])), 'call/%s/%s/%s' % (n, x, g[1][0]),
                                          '%s calls %s, which borrows %s, while holding %s' % (n, x, k[1] or k[0], g[1][1] or g[1][0]), where=f.span)
                    if cur and not any(x in trans for x in tgt):
                        rep.ok('call/%s' % n)
                    # a guard moved into a callee is released there unless the result still carries it
                    for g in passed:
                        cur.discard(g)
                        if len(t[3]) == 1 and 'std::cell::Ref' in f.locals[t[3][0]]:
                            cur.add((t[3][0],) + g[1:])
                    # a function of the crate that hands out a guard
                    if ci and ci['fn'] in P.fns and len(t[3]) == 1 and 'std::cell::Ref' in f.locals[t[3][0]]:
                        for (k, mode), l in trans.get(ci['fn'], {}).items():
                            cur.add((t[3][0], k, mode))
            fz = frozenset(cur)
            if t[0] == 'return':
                continue
            for s2 in succs(t):
                if s2 < 0 or s2 >= n_b or f.blocks[s2]['c']:
                    continue
                nw = fz if inn[s2] is None else inn[s2] | fz
                if nw != inn[s2]:
                    inn[s2] = nw
                    wl.append(s2)
    rep.trusted = ['std::cell::RefCell']
    rep.coverage_extra = {'functions_that_may_borrow': len(trans)}
