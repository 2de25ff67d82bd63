"""C05: input cut off at any byte still ends the token being read."""
from .. import lex

YYLEX = 'lexer::main::Lexer::parser_yylex'


class Ghost:
    def __init__(self, P):
        self.P = P
        self.bad = {}
        self.good = set()

    def call(self, I, name, ci, args, st, fr, site):
        if lex.MB in name or '::tokadd' in name:
            m = name.rsplit('::', 1)[-1]
            v = None
            if m == 'tokadd' and len(args) == 2:
                v = args[1]
            elif m in ('expect', 'unwrap', 'to_option_unwrap') and name.startswith(lex.MB):
                v = args[0]
            if v is not None:
                if v[0] == '&':
                    v = I.read(st, v[1], v[2])
                if v == lex.EOF:
                    self.bad.setdefault(site, (m, dict(st.fl)))
                else:
                    self.good.add(site)
        return None


def line(P, site):
    f = P.fns.get(site[0])
    if f is None:
        return ''
    t = f.blocks[site[1]]['t']
    return next((x for x in t if isinstance(x, str) and ':' in x and x.startswith('src/')), f.span)


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('path-sensitive summaries of every lexer function with an end-of-input flag: in the graph of (block, abstract state) of each '
                'function no cycle that stays at the end of the input contains a read; no loop over positions beyond the text can be left '
                'only by another byte; the end marker reaches no place that stores a byte of a token')
    if not (rep.anchor('Lexer::parser_yylex', P.fns.get(YYLEX)) and rep.anchor('Buffer', P.adts.get(lex.BUF))):
        return
    g = Ghost(P)
    E = lex.Engine(P, g)
    E.summary((YYLEX, (('&', lex.LX, ()),), (), frozenset()))
    fns = {k[0] for k in E.sums}
    rep.floor('functions', len(fns), 30)
    rep.count('function summaries', len(E.sums))
    bad = {}
    for n, blocks, reads in E.loops:
        bad.setdefault(n, (blocks, reads))
    for n, blocks, reads in E.traps:
        bad.setdefault(n, (blocks, reads))
    for n in sorted(fns):
        if n in bad:
            b, r = bad[n]
            rep.bad('loop/' + n, '%s keeps reading after the end of the input: a loop through %s never stops there' % (n, ', '.join(x.split('::')[-1] for x in r)),
                    where=line(P, (n, b[0])))
        else:
            rep.ok('loop/' + n)
    for s in sorted(g.good | set(g.bad)):
        if s in g.bad:
            rep.bad('marker/%s' % s[0].split('::')[-1], '%s stores the end-of-input marker as a byte of a token (%s)' % (s[0], g.bad[s][0]), where=line(P, s))
        else:
            rep.ok('marker/%s/%s' % s)
    rep.floor('places that store a byte', len(g.good), 30)
    # the driver: the end token ends both token loops
    rep.trusted = ['std models (models.py)', 'the byte source keeps answering end-of-input once reached (C04 nextc rule)']
