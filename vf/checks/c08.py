"""C08: token recording is faithful and does not influence the parse."""
from .. import cg, models, flow
from ..interp import Interp, Hooks, State, sym, TRUE, FALSE, mentions, roots
from ..mir import callee

PARSER = 'parser::parse::Parser'
YYLEX = 'lexer::main::Lexer::yylex'


def fidx(P, adt, name):
    for i, (n, t) in enumerate(P.adts[adt]['variants'][0][1]):
        if n == name:
            return i
    return None


class H(Hooks):
    def __init__(self, stop):
        self.stop = stop

    def on_panic(self, *a):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        if name == YYLEX:
            st = st.copy()
            n = st.fl.get('yylex', 0)
            st.fl['yylex'] = n + 1
            st._k = None
            return [(sym('tok', n), st)]
        if name in self.stop or name.startswith('source::'):
            return I.opaque(args, st, site)
        return None


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('the recording flag reaches nothing but the push onto the token list: every function that reads it has, with it '
                'on and off, the same outcomes except that one copy of each token obtained is appended; the list is written '
                'nowhere else, starts empty and is returned as it is')
    G = cg.CallGraph(P)
    if not (rep.anchor('Parser struct', P.adts.get(PARSER)) and rep.anchor('Parser::parse', P.fns.get(PARSER + '::parse'))
            and rep.anchor('Lexer::yylex', P.fns.get(YYLEX))):
        return
    iR, iT = fidx(P, PARSER, 'record_tokens'), fidx(P, PARSER, 'tokens')
    if not (rep.anchor('Parser.record_tokens', iR is not None) and rep.anchor('Parser.tokens', iT is not None)):
        return
    reads, writes = {}, {}
    for n, f in P.fns.items():
        if f.kind != 'fn' or f.derived:
            continue
        for b, m, p in flow.accesses(f):
            fs = flow.fields(p)
            ty = f.locals[p[0]].lstrip('&').replace('mut ', '')
            if 'record_tokens' in fs and ty == PARSER:
                (writes if m in ('write', 'mutref') else reads).setdefault(('flag', n), (b, m))
            if 'tokens' in fs and ty == PARSER:
                (writes if m in ('write', 'mutref', 'move') else reads).setdefault(('tokens', n), (b, m))
        for b in f.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == 'parser_result::ParserResult':
                    writes.setdefault(('result', n), (0, 'agg'))
    rep.count('functions touching flag or list', len(reads) + len(writes))
    # 1. construction
    new = P.fns.get(PARSER + '::new')
    if rep.anchor('Parser::new', new):
        I = Interp(P, models.M, H(set()))
        opt = fidx(P, 'parser_options::ParserOptions', 'record_tokens')
        flag = ('s', ('options', opt))
        outs = I.run(new, [sym('input'), sym('options')], State({}, {}, {}), 1)
        rep.check(bool(outs), 'new/paths', 'Parser::new has no outcome')
        for rv, st in outs:
            rep.check(not any(has(k, flag) for k in st.asm), 'new/branch', 'Parser::new branches on record_tokens', where=new.span)
            if rv[0] != 'a' or rv[1] != PARSER:
                rep.bad('new/shape', 'Parser::new does not return a Parser value the analysis can read: %s' % (rv[:2],), where=new.span)
                continue
            for i, v in enumerate(rv[3]):
                fn = P.adts[PARSER]['variants'][0][1][i][0]
                if i == iR:
                    rep.check(v == flag, 'new/record_tokens', 'Parser.record_tokens is not the option given by the caller but %s' % (v,), where=new.span)
                else:
                    rep.check(not has(v, flag), 'new/' + fn, 'the record_tokens option influences Parser.%s' % fn, where=new.span)
                if i == iT:
                    rep.check(v == ('v', None, ()), 'new/tokens', 'the token list does not start empty', where=new.span)
            for c, v in st.mem.items():
                rep.check(not has(v, flag), 'new/cells', 'the record_tokens option influences shared state', where=new.span)
    # 2. functions that read the flag, and functions the driver obtains tokens from
    drv = P.fns[PARSER + '::parse']
    sources = set()
    for b, t in drv.calls():
        ci = callee(t)
        if ci and ci['fn'] in P.fns and (ci['fn'] == YYLEX or YYLEX in G.reach([ci['fn']])):
            sources.add(ci['fn'])
    rep.check(bool(sources), 'driver/source', 'the parser driver obtains no token')
    rep.check(YYLEX not in sources, 'driver/direct', 'the parser driver takes tokens from the lexer directly, without recording')
    todo = set(sources) | {n for k, n in reads if k == 'flag'} | {n for k, n in writes if k == 'tokens'}
    asm = {n for k, n in list(reads) + list(writes) if k == 'result'}
    results = {n for n in P.fns if ('result', n) in writes}
    todo -= results
    # helpers of a source are analysed inlined in it
    helpers = set()
    for s in sources:
        helpers |= set(G.reach([s]))
    todo = {n for n in todo if n in sources or n not in helpers}
    todo.discard(PARSER + '::new')
    root = ('H', ('parser',))
    flag = ('s', ('parser', iR))
    tok0 = ('s', ('parser', iT))
    for n in sorted(todo):
        f = P.fns[n]
        if n == PARSER + '::parse':
            rep.bad('driver/flag', 'the parser driver itself depends on record_tokens', where=f.span)
            continue
        rep.count('token sources and flag readers')
        I = Interp(P, models.M, H(set()))
        I.keep_asm = lambda k: has(k, flag)
        args = []
        for i in range(f.argc):
            ty = f.locals[i + 1]
            args.append(('&', root, ()) if ty.lstrip('&').replace('mut ', '') == PARSER and ty.startswith('&') else sym('arg', i))
        outs = I.run(f, args, State({}, {}, {}), 1)
        rep.check(bool(outs), 'paths/' + n, '%s has no outcome' % n)
        by = {0: set(), 1: set()}
        for rv, st in outs:
            pv = st.mem.get(root, ('s', ('parser',)))
            toks = I.read(st, root, (iT,))
            recs = I.read(st, root, (iR,))
            rep.check(recs == flag, 'flag/' + n, '%s changes record_tokens' % n, where=f.span)
            got = st.fl.get('yylex', 0)
            rec = st.asm.get(flag)
            if rec in (None, 0):
                rep.check(toks == tok0 or (rec is None and got == 0 and toks == tok0), 'off/' + n,
                          '%s changes the token list while recording is off (list becomes %s)' % (n, show(toks)), where=f.span)
            if rec in (None, 1):
                want = tuple(('s', ('tok', i)) for i in range(got))
                vec = models.as_vec(toks)
                good = (toks == tok0 and got == 0) or (vec[1] == tok0 and vec[2] == want)
                rep.check(good, 'on/' + n, 'with recording on, %s obtains %d token(s) from the lexer but the token list becomes %s'
                          % (n, got, show(toks)), where=f.span)
                if n in sources:
                    rep.check(got == 1, 'one/' + n, '%s reads %d tokens for one request of the grammar' % (n, got), where=f.span)
            if n in sources:
                rep.check(rv == ('s', ('tok', 0)), 'same/' + n, 'the token handed to the grammar by %s is not the token the lexer produced (%s)' % (n, show(rv)), where=f.span)
            st2 = st.copy()
            I.write(st2, root, (iT,), ('i', 0))
            mem = frozenset((c, v) for c, v in st2.mem.items())
            a2 = frozenset((k, v) for k, v in st.asm.items() if k != flag)
            for x in ((0, 1) if rec is None else (rec,)):
                by[x].add((rv, mem, a2))
        rep.check(by[0] == by[1], 'same-outcome/' + n, '%s behaves differently with token recording on and off, beyond recording' % n, where=f.span)
    # 3. nothing else touches the list or the flag
    inl = set()
    for n in todo:
        inl |= {n} | set(G.reach([n]))
    for (k, n), (b, m) in sorted(list(writes.items()) + [x for x in reads.items() if x[0][0] == 'flag']):
        if k == 'result' or n in inl or n in results or n == PARSER + '::new':
            rep.ok('site/%s/%s' % (k, n), m)
        else:
            rep.bad('site/%s/%s' % (k, n), '%s accesses Parser.%s (%s)' % (n, 'record_tokens' if k == 'flag' else 'tokens', m), where=P.fns[n].span)
    # 4. result assembly
    rep.floor('result assembly functions', len(results), 1)
    iRes = fidx(P, 'parser_result::ParserResult', 'tokens')
    PRS = {PARSER + '::parse'}
    for n in sorted(results):
        f = P.fns[n]
        if '::tests' in n or n.startswith('parser_result::'):
            continue
        I = Interp(P, models.M, H(PRS))
        for rv, st in I.run(f, [sym('self')] + [sym('arg', i) for i in range(f.argc - 1)], State({}, {}, {}), 1):
            v = rv[3][iRes] if rv[0] == 'a' and rv[1] == 'parser_result::ParserResult' else None
            rep.check(v == ('s', ('self', iT)), 'result/' + n, '%s does not return the recorded token list as it is' % n, where=f.span)
            rep.check(not any(has(k, ('s', ('self', iR))) for k in st.asm), 'result-flag/' + n, '%s depends on record_tokens' % n, where=f.span)
    # 5. nothing but the sources reaches the lexer from grammar actions
    act = PARSER + '::yyaction'
    if rep.anchor('Parser::yyaction', P.fns.get(act)):
        r = G.reach([act])
        bad = [x for x in ([YYLEX] + sorted(sources)) if x in r]
        rep.check(not bad, 'actions/no-read-ahead', 'a grammar action reads tokens by itself through %s' % bad)
    # 6. copies of a token are faithful
    cl = [f for n, f in P.fns.items() if n.startswith('<token::Token as ') and n.endswith('::clone')]
    if rep.anchor('Clone for Token', cl):
        for f in cl:
            if f.derived:
                rep.ok('clone/Token', 'derived')
            else:
                I = Interp(P, models.M, H(set()))
                for rv, st in I.run(f, [('&', ('H', ('t',)), ())], State({}, {}, {}), 1):
                    exp = ('a', 'token::Token', 0, tuple(('s', ('t', i)) for i in range(len(P.adts['token::Token']['variants'][0][1]))))
                    rep.check(rv == exp or rv == ('s', ('t',)), 'clone/Token', 'cloning a token does not copy every field', where=f.span)
    rep.trusted = ['alloc_from_pool::PoolValue clone/take_value', 'the bison skeleton (driver loop)', 'std Vec']


def has(v, s):
    """does v mention symbol s or a projection of it"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple):
            return v[1][:len(s[1])] == s[1]
        return any(has(x, s) for x in v if isinstance(x, tuple))
    return False


def show(v):
    return str(v)[:160]
