"""C01: every construct restores the nested parsing state it changed."""
from .. import actions, models, interp, laws
from ..actions import KIND, split_sloppy, isj, bdepth, vdepth_of


def show(eff):
    o = []
    for r, t in eff:
        d = bdepth(t) if KIND[r] == 'bits' else vdepth_of(t) if KIND[r] in ('vec', 'depth') else None
        if d is not None:
            o.append('%s %+d' % (r, d))
        elif t[0] == 'lin':
            o.append('%s %+d' % (r, t[2]))
        elif t[0] == 'bv':
            o.append('context flags %s' % ', '.join(
                '%s=%s' % (FLAG.get(i, i), x[1] if x[0] == 'i' else 'changed') for i, x in t[2]))
        elif t[0] == 'lost':
            o.append('%s not restored' % r)
        else:
            o.append('%s changed' % r)
    return '; '.join(o)


FLAG = {0: 'in_defined', 1: 'in_kwarg', 2: 'in_argdef', 3: 'in_def', 4: 'in_class', 5: 'in_lambda', 6: 'in_block'}


def engine(ctx):
    return ctx.memo('engine', lambda: actions.Engine(ctx).solved())


def check(ctx, rep):
    rep.rule = ('every grammar production, composed of the interpreted effects of its mid-rule actions, its '
                'final action, the lexer effects of its tokens and the summaries of its parts, leaves each tracked '
                'component of the nested state as it found it (halves of constructs: one agreed effect)')
    e = engine(ctx)
    g = e.g
    laws.report(rep, laws.bits(ctx.prog))
    rep.floor('productions with a completed derivation', len(e.outcomes), 600)
    for r in g.rules:
        if r.num == 0 or e.is_mid(r.lhs) or r.useful != 'useful':
            continue
        rep.count('productions')
        if any(not g.is_term(x) and not e.is_mid(x) and not e.summ.get(x) for x in r.rhs):
            rep.ok('rejected', '`%s`: a part of it is always rejected' % r)
            continue
        if r.num not in e.outcomes:
            # a production none of whose derivations ends: only error recovery ones may be like that
            rep.bad('production/%s' % r, 'no derivation of `%s` completes its action' % r, where='src/parser/parse.y')
            continue
        bad = e.unbalanced.get(r.num)
        if bad:
            for b in sorted(bad, key=str)[:3]:
                rep.bad('balance/%s/%s' % (r, show(b)), '`%s` does not restore the state it changed: %s' % (r, show(b)),
                        where='src/parser/parse.y: %s' % r)
        else:
            rep.ok('balance')
        if r.lhs not in e.HALVES and r.lhs not in e.PARAMS:
            for eff, v in e.outcomes[r.num]:
                sl = {k: v2 for k, v2 in split_sloppy(eff)[1].items() if not isj(v2)}
                sl = {k: v2 for k, v2 in sl.items() if not (v2[0] == 'i' and v2[1] == 0)}
                rep.check(not sl, 'flags/%s/%s' % (r, sorted(map(str, sl))),
                          '`%s` may leave a context flag switched on: %s' % (r, sorted(map(str, sl))), where='src/parser/parse.y: %s' % r)
    for n in e.HALVES:
        if n not in e.summ:
            continue
        effs = {e.strict(x[0])[0] for x in e.summ[n]}
        if n == 'lambda_body':
            effs = {tuple(x for x in y if x[0] != 'lpar_beg') for y in effs}
        rep.check(len(effs) == 1, 'half/' + n, 'alternatives of %s change the nested state differently: %s' % (
            n, ' | '.join(show(x) for x in sorted(effs, key=str))), where='src/parser/parse.y: ' + n)
    # tokens: one effect each, brackets switch both do-binding stacks off
    for tok, effs in sorted(e.term_effect.items()):
        rep.count('tokens')
        rep.check(len(effs) == 1, 'token/' + tok, 'reading %s changes the nested state in more than one way: %s' % (
            tok, ' | '.join(show(x) or 'nothing' for x in sorted(effs, key=str))), where='src/lexer/main.rs parser_yylex')
    rep.check(e.lex_other <= {()}, 'token/other', 'reading a token changes the bracket state: %s' % (
        [show(x) for x in e.lex_other]), where='src/lexer/main.rs parser_yylex')
    # the stacks are not popped below their start, and are never read empty
    for role in ('pattern_variables.stack', 'pattern_hash_keys.stack', 'current_arg_stack.stack', 'max_numparam_stack.stack',
                 'static_env.stack', 'cond.stack', 'cmdarg.stack'):
        low = e.min_depth(role)
        for n, d in sorted(low.items()):
            if d >= 10 ** 8:
                continue
            rep.check(d >= 0, 'depth/%s/%s' % (role, n), '%s may be popped below its start before %s' % (role, n),
                      where='src/parser/parse.y: ' + n)
            rep.count('depths')
        if role == 'pattern_variables.stack':
            for (num, what) in e.panics:
                if 'variables_stack::VariablesStack::declare' in what:
                    r = g.rules[num]
                    rep.check(low.get(r.lhs, 0) >= 1, 'layer/%s' % r,
                              '`%s` declares a pattern variable outside every pattern scope' % r,
                              where='src/parser/parse.y: %s' % r)
    aliasing(e, rep)
    rep.coverage_extra = {'parser_yylex_blocks': e.lex_blocks, 'action_blocks': len(e.I.stats['blocks']),
                          'productions_analysed': e.runs, 'tracked_components': sorted(KIND)}
    rep.trusted = ['models of Vec, BTreeSet, Rc, RefCell, mem::take (vf/models.py)', 'bison LALR tables (XML report)']
    rep.assumptions = ['programs that need error recovery are outside (the parser discards part of the stack there)',
                       'the do-binding stacks hold 64 entries (as in MRI); the check is about depth, not overflow',
                       'string tokens leave the pending literal as C16 says']


def aliasing(e, rep):
    """parser, lexer and builder share one instance of each component, and start empty"""
    P = e.P
    f = P.fn('parser::parse::Parser::new')
    if f is None:
        rep.anchor('Parser::new')
        return
    
    class H(interp.Hooks):
        def on_call(self, I, name, ci, args, st, fr, site):
            if name.startswith('source::') or name.startswith('alloc_from_pool'):
                return I.opaque(args, st, site)
            return None

        def on_panic(self, I, st, site, what):
            pass
    I = interp.Interp(P, models.M, H())
    args = [interp.sym('a%d' % i) for i in range(f.argc)]
    for rv, st in I.run(f, args, interp.State({}, {}, {}), 1):
        same = {}

        def cells(v, ty, role):
            if v[0] == 'rc':
                same.setdefault(role, set()).add(v[1])
                return
            a = P.adts.get(ty)
            if v[0] == 'a' and a and not a['enum']:
                for (fn, ft), x in zip(a['variants'][0][1], v[3]):
                    cells(x, ft, fn if ty in actions.OWNERS else role + '.' + fn)
        cells(rv, 'parser::parse::Parser', '')
        want = {c[1][1] for c in e.T.cells if c[1][0] == 'rc'}
        for w in sorted(want):
            got = same.get(w)
            if got is None:
                rep.bad('alias/' + w, 'Parser::new: component %s is not found in the constructed parser' % w, where='src/parser/parse.y Parser::new')
                continue
            rep.check(len(got) == 1, 'alias/' + w, 'parser, lexer and builder do not share one instance of %s' % w,
                      where='src/parser/parse.y Parser::new')
