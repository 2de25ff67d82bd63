"""C19: token storage is always valid: no token is read after its contents were taken, none is
allocated from a missing or released pool."""
from .. import cg, models
from ..interp import Interp, Hooks, State, sym
from ..mir import callee, succs, fplace
from ..flow import rv_places

TAKE = 'alloc_from_pool::PoolValue::<T>::take_value'
ALLOC = ('alloc_from_pool::Factory::<T>::alloc', 'alloc_from_pool::Pool::<T>::alloc')
PV = 'alloc_from_pool::PoolValue<'
PARSER = 'parser::parse::Parser'


def is_mut_pv(t):
    return t.startswith('&mut ' + PV)


def aliases(f):
    """local -> place it mutably borrows (locals assigned once from `&mut place` or a reborrow/copy of such)"""
    d = {}
    cnt = {}
    for b in f.blocks:
        for s in b['s']:
            if s[0] == '=' and len(s[1]) == 1:
                cnt[s[1][0]] = cnt.get(s[1][0], 0) + 1
                d[s[1][0]] = s[2]
        if b['t'][0] == 'call' and len(b['t'][3]) == 1:
            cnt[b['t'][3][0]] = cnt.get(b['t'][3][0], 0) + 1
            d.setdefault(b['t'][3][0], None)

    def resolve(l, n=0):
        if n > 8 or cnt.get(l, 0) != 1 or d.get(l) is None:
            return None
        r = d[l]
        if r[0] == 'ref':
            p = r[2]
        elif r[0] == 'use' and r[1][0] in ('c', 'm'):
            p = r[1][1] + ['*']
        else:
            return None
        if len(p) >= 2 and p[1] == '*':
            base = resolve(p[0], n + 1)
            if base is not None:
                p = list(base) + p[2:]
        if r[0] == 'use' and p and p[-1] == '*':
            # copy of a reference that could not be resolved further
            base = resolve(r[1][1][0], n + 1) if len(r[1][1]) == 1 else None
            return base
        return p
    return resolve


def key(p):
    return tuple(tuple(e) if isinstance(e, list) else e for e in p)


def prefix(a, b):
    return a[:len(b)] == b or b[:len(a)] == a


def check(ctx, rep):
    P = ctx.prog
    G = cg.CallGraph(P)
    rep.rule = ('typestate of pooled tokens: after take_value (directly or in a callee that takes through &mut) the token is not read, '
                'moved or borrowed again before being overwritten; every allocation happens with a factory of a pool that is alive')
    # functions that take the contents of a token they get by mutable reference
    takers = {}
    changed = True
    while changed:
        changed = False
        for n, f in P.fns.items():
            if f.kind != 'fn':
                continue
            res = None
            for b, t in f.calls():
                ci = callee(t)
                if ci is None:
                    continue
                idxs = [0] if ci['fn'] == TAKE else sorted(takers.get(ci['fn'], ()))
                for i in idxs:
                    if i >= len(t[2]) or t[2][i][0] not in ('c', 'm'):
                        continue
                    res = res or aliases(f)
                    l = t[2][i][1]
                    pl = l if (len(l) == 1 and 1 <= l[0] <= f.argc) else (res(l[0]) if len(l) == 1 else None)
                    if pl is not None and 1 <= pl[0] <= f.argc and is_mut_pv(f.locals[pl[0]]) and all(e == '*' for e in pl[1:]):
                        if pl[0] - 1 not in takers.get(n, set()):
                            takers.setdefault(n, set()).add(pl[0] - 1)
                            changed = True
    ntake = 0
    for n, f in P.fns.items():
        if f.kind != 'fn':
            continue
        sites = {}
        res = None
        for b, t in f.calls():
            ci = callee(t)
            if ci is None:
                continue
            idxs = [0] if ci['fn'] == TAKE else sorted(takers.get(ci['fn'], ()))
            for i in idxs:
                res = res or aliases(f)
                ntake += 1
                l = t[2][i][1] if i < len(t[2]) and t[2][i][0] in ('c', 'm') else None
                pl = res(l[0]) if l and len(l) == 1 else None
                if pl is None and l and len(l) == 1 and 1 <= l[0] <= f.argc:
                    rep.ok('take/%s' % n, 'through a parameter; accounted for at its callers')
                    continue
                if pl is None:
                    rep.bad('take/%s/%d' % (n, ntake), '%s takes the contents of a token that cannot be identified (%s)' % (n, f.locals[l[0]] if l else '?'), where=t[5])
                    continue
                if 1 <= pl[0] <= f.argc and is_mut_pv(f.locals[pl[0]]):
                    sites.setdefault(b, []).append(key(pl))
                    continue
                if '*' in pl[1:] and not f.locals[pl[0]].startswith(PV):
                    rep.bad('take/%s/%s' % (n, fplace(pl)), '%s takes the contents of a token that stays reachable through %s' % (n, f.locals[pl[0]]), where=t[5])
                    continue
                sites.setdefault(b, []).append(key(pl))
        if not sites:
            continue
        rep.count('functions taking token contents')
        flow(f, n, sites, rep)
    rep.floor('take sites', ntake, 5)
    for n in takers:
        if '{closure' in n:
            rep.bad('closure/' + n, 'a closure takes token contents through a reference; the token stays reachable', where=P.fns[n].span)
    pools(ctx, P, G, rep)
    rep.trusted = ['alloc_from_pool: take_value leaves a null token behind; a factory is valid while its pool lives']


def flow(f, n, sites, rep):
    """forward may-taken analysis"""
    inn = {0: frozenset()}
    wl = [0]
    bad = set()

    def use(cur, p, what, loc):
        k = key(p)
        for tk in cur:
            if prefix(k, tk):
                bad.add((fplace(p), what, loc))
    while wl:
        b = wl.pop()
        bl = f.blocks[b]
        if bl['c']:
            continue
        cur = set(inn[b])
        for s in bl['s']:
            if s[0] == '=':
                for m, p in rv_places(s[2]):
                    use(cur, p, 'used', f.span)
                cur = {t for t in cur if not (t[:len(key(s[1]))] == key(s[1]))}
            elif s[0] == 'dead':
                cur = {t for t in cur if t[0] != s[1]}
        t = bl['t']
        if t[0] == 'switch' and t[1][0] in ('c', 'm'):
            use(cur, t[1][1], 'used', f.span)
        elif t[0] == 'drop':
            cur = {x for x in cur if not x[:len(key(t[1]))] == key(t[1])}
        elif t[0] == 'call':
            ci = callee(t)
            for o in t[2]:
                if o[0] in ('c', 'm') and not (ci and ci['fn'] == 'std::mem::drop'):
                    use(cur, o[1], 'passed to %s' % (ci['fn'] if ci else 'a call'), t[5])
            cur = {x for x in cur if not x[:len(key(t[3]))] == key(t[3])}
            for pl in sites.get(b, ()):
                cur.add(pl)
        fz = frozenset(cur)
        for s2 in succs(t):
            if s2 < 0 or f.blocks[s2]['c']:
                continue
            nw = fz if s2 not in inn else inn[s2] | fz
            if s2 not in inn or nw != inn[s2]:
                inn[s2] = nw
                wl.append(s2)
    names = {}
    for p, what, loc in sorted(bad, key=str):
        rep.bad('after-take/%s/%s' % (n, what), '%s: token %s is %s after its contents were taken' % (n, f.varname(int(p.split('.')[0].strip('(*)_')) ) if p.strip('(*)_').split('.')[0].isdigit() else p, what), where=loc)
    if not bad:
        rep.ok('after-take/' + n, '%d take site(s)' % len(sites))


class H(Hooks):
    def __init__(self, rep, who):
        self.rep = rep
        self.who = who
        self.allocs = 0

    def on_panic(self, *a):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        if name in ('alloc_from_pool::Pool::<T>::new',) or (name.startswith('<alloc_from_pool::Pool<') and name.endswith('::default')):
            return [(('s', (('pool',) + site,)), st)]
        if name == 'alloc_from_pool::Pool::<T>::factory':
            r = args[0]
            v = I.read(st, r[1], r[2]) if r[0] == '&' else r
            return [(('a', 'factory', 0, (v,)), st)]
        if name.startswith('source::'):
            return I.opaque(args, st, site)
        if name in self.entry:
            r = args[0]
            path = self.entry[name]
            v = I.read(st, r[1], r[2] + path) if r[0] == '&' else sym('?')
            self.use(st, v, name)
            return I.opaque(args, st, site)
        if name == ALLOC[0]:
            r = args[0]
            v = I.read(st, r[1], r[2]) if r[0] == '&' else r
            self.use(st, v, name)
        return None

    entry = {}

    def use(self, st, v, what):
        self.allocs += 1
        ok = v[0] == 'a' and v[1] == 'factory' and not st.fl.get(('dropped', v[3][0]))
        self.rep.check(ok, 'pool/%s/%s' % (self.who, what.split('::')[-1]),
                       '%s allocates tokens with a factory that is not known to belong to a live pool (%s)' % (self.who, 'released pool' if v[0] == 'a' else 'never set'))

    def on_drop(self, I, f, b, t, v, st, c, p):
        if v[0] == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'pool':
            st.fl[('dropped', v)] = 1
            st._k = None


def fidx(P, adt, name):
    return next((i for i, (n, t) in enumerate(P.adts[adt]['variants'][0][1]) if n == name), None)


def pools(ctx, P, G, rep):
    LEX = 'lexer::main::Lexer'
    yylex = LEX + '::yylex'
    iF, iB = fidx(P, LEX, 'tokens_factory'), fidx(P, 'builder::Builder', 'pool_factory')
    iLex, iBl, iPool = (fidx(P, PARSER, x) for x in ('yylexer', 'builder', 'tokens_pool'))
    for nm, x in (('Lexer.tokens_factory', iF), ('Builder.pool_factory', iB), ('Parser.yylexer', iLex), ('Parser.builder', iBl), ('Parser.tokens_pool', iPool)):
        if not rep.anchor(nm, x is not None):
            return
    # Parser::new ties lexer and builder to the pool the parser owns
    new = P.fns.get(PARSER + '::new')
    if rep.anchor('Parser::new', new):
        h = H(rep, PARSER + '::new')
        I = Interp(P, models.M, h)
        for rv, st in I.run(new, [sym('input'), sym('options')], State({}, {}, {}), 1):
            if not (rv[0] == 'a' and rv[1] == PARSER):
                rep.bad('pool/new', 'Parser::new returns an unknown value', where=new.span)
                continue
            pool = rv[3][iPool]
            lx, bd = rv[3][iLex], rv[3][iBl]
            from ..interp import proj
            for who, v in (('lexer', proj(lx, iF)), ('builder', proj(bd, iB))):
                rep.check(v == ('a', 'factory', 0, (pool,)), 'pool/new/' + who,
                          'the %s of a new Parser does not allocate from the pool the Parser owns' % who, where=new.span)
    # every other way into the lexer
    owners = {n for n, f in P.fns.items() if f.kind == 'fn' and f.exported}
    n = 0
    for e in sorted(owners):
        f = P.fns[e]
        if not f.argc or yylex not in G.reach([e]):
            continue
        recv = f.locals[1].lstrip('&').replace('mut ', '')
        if recv == PARSER:
            rep.ok('pool/entry/' + e, 'receiver owns its pool')
            continue
        n += 1
        if recv != LEX or not f.locals[1].startswith('&'):
            if e == PARSER + '::new':
                continue
            rep.bad('pool/entry/' + e, '%s reaches the lexer on a value whose token pool is unknown' % e, where=f.span)
            continue
        h = H(rep, e)
        h.entry = {yylex: (iF,)}
        I = Interp(P, models.M, h)
        root = ('H', ('lexer',))
        outs = I.run(f, [('&', root, ())] + [sym('arg', i) for i in range(f.argc - 1)], State({}, {}, {}), 1)
        rep.check(h.allocs > 0, 'pool/reach/' + e, 'no allocation seen in %s' % e)
        for rv, st in outs:
            v = I.read(st, root, (iF,))
            rep.check(not (v[0] == 'a' and v[1] == 'factory'), 'pool/left/' + e, '%s leaves the lexer with a factory of its own, released pool' % e, where=f.span)
    rep.count('entry points that lex without a parser', n)
    # the factories are set nowhere else
    from ..flow import accesses, fields
    for nme, f in P.fns.items():
        if f.kind != 'fn':
            continue
        for b, m, p in accesses(f):
            fs = fields(p)
            if fs and fs[-1] in ('tokens_factory', 'pool_factory', 'tokens_pool') and m in ('write', 'mutref', 'move'):
                ok = nme == PARSER + '::new' or nme in owners or nme.startswith(LEX + '::new') or nme.endswith('::new')
                rep.check(ok, 'pool/set/%s' % nme, '%s replaces a token factory' % nme, where=f.span)
