"""C16: a string literal's pending state always matches the token just returned."""
from .. import lex
from ..models import some, NONE
from ..interp import TRUE

YYLEX = 'lexer::main::Lexer::parser_yylex'
ST, SL, HL, HE = 'str_term::StrTerm', 'str_term::StringLiteral', 'str_term::HeredocLiteral', 'str_term::HeredocEnd'
ESC, EXP, REG, QW, SYM, IND, LAB, LIST, TERM = 1, 2, 4, 8, 16, 32, 64, 0x4000, 0x8000
# opening token -> kinds of literal it opens (flag words of Ruby's lexer)
OPEN = {
    'tSTRING_BEG': {0, EXP, LAB, EXP | LAB},
    'tXSTRING_BEG': {EXP},
    'tREGEXP_BEG': {REG | ESC | EXP},
    'tWORDS_BEG': {QW | EXP | LIST},
    'tSYMBOLS_BEG': {QW | EXP | LIST},
    'tQWORDS_BEG': {QW | LIST},
    'tQSYMBOLS_BEG': {QW | LIST},
    'tSYMBEG': {SYM, SYM | EXP},
}
HERE = {'tSTRING_BEG': {0, EXP, IND, IND | EXP}, 'tXSTRING_BEG': {EXP, EXP | IND}}
PAIRS = {'(': ')', '[': ']', '{': '}', '<': '>'}
PERCENT = {'Q': ('tSTRING_BEG', EXP), 'q': ('tSTRING_BEG', 0), 'W': ('tWORDS_BEG', QW | EXP | LIST), 'w': ('tQWORDS_BEG', QW | LIST),
           'I': ('tSYMBOLS_BEG', QW | EXP | LIST), 'i': ('tQSYMBOLS_BEG', QW | LIST), 'x': ('tXSTRING_BEG', EXP),
           'r': ('tREGEXP_BEG', REG | ESC | EXP), 's': ('tSYMBEG', SYM)}
KINDS = sorted({k for s in OPEN.values() for k in s} | {QW, QW | EXP})
CONTENT = ('tSTRING_CONTENT', 'tSPACE', 'tSTRING_DBEG', 'tSTRING_DVAR')
END = ('tSTRING_END', 'tREGEXP_END', 'tLABEL_END')


def q(*n):
    return ('s', (('q',) + n,))


class Ghost:
    """counts nested delimiters: whether the content scanner changed the depth"""
    def call(self, I, name, ci, args, st, fr, site):
        if name.endswith('::tokadd_string') and len(args) == 5 and args[4][0] == '&' and 'nst' not in st.fl:
            out = []
            v0 = I.read(st, args[4][1], args[4][2])
            for rv, s2 in self.E.call_summary(I, name, args, st, fr, site):
                s2.fl['nst'] = 1 if I.read(s2, args[4][1], args[4][2]) != v0 else 0
                s2._k = None
                out.append((rv, s2))
            return out
        return None


class Run:
    def __init__(self, ctx, rep):
        self.P, self.rep = ctx.prog, rep
        self.names = {}
        for n, v in self.P.token_consts().items():
            m = n.split('::')[-1]
            if 'lexer::main::Lexer' in n and (m[0] in 'tk' and m[1:2].isupper() or m == 'END_OF_INPUT'):
                self.names.setdefault(v, m)
        self.fS = {n: i for i, (n, t) in enumerate(self.P.adts[SL]['variants'][0][1])}
        self.fH = {n: i for i, (n, t) in enumerate(self.P.adts[HL]['variants'][0][1])}
        self.vS = [n for n, fs in self.P.adts[ST]['variants']].index('StringLiteral')
        self.vH = [n for n, fs in self.P.adts[ST]['variants']].index('HeredocLiteral')
        self.E = lex.Engine(self.P, Ghost())
        self.i = self.E.fields['strterm']
        self.E.tracked = (self.i,)
        self.fn = self.P.fns[YYLEX]

    def lit(self, func):
        return some(('B', ('a', ST, self.vS, (('a', SL, 0, tuple(('i', func) if n == 'func' else q(n) for n in self.fS)),))))

    def here(self, func):
        return some(('B', ('a', ST, self.vH, (('a', HL, 0, tuple(('i', func) if n == 'func' else q('h', n) for n in self.fH)),))))

    def go(self, v, fl=()):
        for rv, oc, g in self.E.summary((YYLEX, (('&', lex.LX, ()),), ((('trk', self.i), v),), frozenset(fl))):
            yield (self.names.get(rv[1], str(rv[1])) if rv[0] == 'i' else None), oc[0][1], dict(g)

    def split(self, v):
        """pending value -> ('none',) | ('str', fields) | ('here', fields) | ('?',)"""
        if v == NONE:
            return ('none', None)
        if v[0] == 'a' and v[2] == 1 and v[3][0][0] == 'B' and v[3][0][1][0] == 'a' and v[3][0][1][1] == ST:
            t = v[3][0][1]
            x = t[3][0]
            if x[0] == 'a':
                names = self.fS if t[2] == self.vS else self.fH
                return ('str' if t[2] == self.vS else 'here', {n: x[3][i] for n, i in names.items()})
        return ('?', None)

    def ck(self, cond, key, msg):
        self.rep.check(cond, key, msg, where=self.fn.span)

    # -- nothing pending at entry
    def fresh(self):
        n = 0
        for tok, v, fl in self.go(NONE):
            n += 1
            k, x = self.split(v)
            if tok is None:
                self.ck(k == 'none', 'plain/word', 'a word token leaves a string literal pending')
                continue
            if tok in ('END_OF_INPUT', 'EXPR_NONE', '0'):
                self.rep.ok('end')
                continue
            if tok not in OPEN:
                self.ck(k == 'none', 'plain/' + tok, '%s is returned while a string literal is pending that it does not open' % tok)
                continue
            if tok == 'tSYMBEG' and k == 'none':
                self.rep.ok('open/tSYMBEG/plain')
                continue
            self.ck(k in ('str', 'here'), 'open/' + tok, '%s is returned but no literal is pending: its content would be read as code' % tok)
            if k == 'str':
                f = x['func']
                self.ck(f[0] == 'i' and f[1] in OPEN[tok], 'kind/' + tok, '%s opens a literal of another kind (flags %s)' % (tok, f))
                self.ck(x['nest'] == ('i', 0), 'nest/' + tok, '%s opens a literal whose nesting depth does not start at 0' % tok)
                self.ck(x['heredoc_end'] == NONE, 'plainlit/' + tok, '%s opens a literal that carries the end of a heredoc' % tok)
                p, t = x['paren'], x['term']
                if p == NONE:
                    self.ck(not (t[0] == 'i' and chr(t[1]) in ')]}>'), 'delim/' + tok, '%s: bracket delimiters do not nest' % tok)
                else:
                    o = p[3][0] if p[0] == 'a' and p[3] else ('?',)
                    self.ck(o[0] == 'i' and t[0] == 'i' and PAIRS.get(chr(o[1])) == chr(t[1]), 'delim/' + tok, '%s: the literal opened by %s is closed by %s' % (tok, show(o), show(t)))
            elif k == 'here':
                f = x['func']
                self.ck(f[0] == 'i' and f[1] in HERE.get(tok, ()), 'herekind/' + tok, '%s opens a heredoc of another kind (flags %s)' % (tok, f))
        self.rep.floor('tokens outside literals', n, 100)

    def percent(self):
        fn = next((n for n in self.P.fns if n.startswith('lexer::') and n.endswith('::percent_quotation')), None)
        f = self.P.fns.get(fn)
        if f is None or f.locals[2:4] != ['&mut maybe_byte::MaybeByte', 'usize']:
            self.rep.assumptions.append('percent_quotation has another shape: the letter of a percent literal is only checked through its token')
            return
        for c, (tok, func) in sorted(PERCENT.items()):
            outs = self.E.summary((fn, (('&', lex.LX, ()), ('&', ('H', ('parg', 1)), ()), ('s', (('in', 0),))),
                                   ((1, lex.mb(('i', ord(c)))), (('trk', self.i), NONE)), frozenset()))
            n = 0
            for rv, oc, fl in outs:
                t = self.names.get(rv[1]) if rv[0] == 'i' else None
                if t in (None, 'END_OF_INPUT', 'EXPR_NONE') or rv == ('i', 0):
                    continue
                n += 1
                k, x = self.split(oc[1][1])
                self.ck(t == tok and k == 'str' and x['func'] == ('i', func), 'percent/' + c, '%%%s opens %s with flags %s instead of %s with flags %d' % (c, t, x and x['func'], tok, func))
            self.ck(n, 'percent/%s/some' % c, '%%%s opens nothing' % c)

    # -- inside a literal
    def inside(self, func, fl=()):
        tag = 'lit%#x%s' % (func, '/eof' if fl else '')
        n = 0
        for tok, v, g in self.go(self.lit(func), fl):
            n += 1
            k, x = self.split(v)
            if tok in END:
                self.ck(k == 'none', tag + '/' + tok, '%s is returned but the literal it closes is still pending (flags %#x)' % (tok, func))
                want = {'tREGEXP_END'} if func & REG else ({'tSTRING_END', 'tLABEL_END'} if func & LAB and not func & TERM else {'tSTRING_END'})
                self.ck(tok in want, tag + '/closes', 'a literal with flags %#x is closed by %s' % (func, tok))
                if func & QW and not func & TERM:
                    self.ck(g.get('err'), tag + '/words', 'a word list ends without its closing delimiter and without an error')
                continue
            if tok not in CONTENT:
                self.ck(False, tag + '/other', 'inside a literal with flags %#x the lexer returns %s' % (func, tok))
                continue
            self.ck(not func & TERM, tag + '/term', 'a literal whose closing delimiter was already seen returns %s instead of its end' % tok)
            self.ck(tok != 'tSPACE' or func & QW, tag + '/space', 'tSPACE inside a literal that is not a word list (flags %#x)' % func)
            self.ck(tok not in ('tSTRING_DBEG', 'tSTRING_DVAR') or func & EXP, tag + '/interp', 'interpolation inside a literal that does not interpolate (flags %#x)' % func)
            self.ck(k == 'str', tag + '/' + tok, '%s is returned but the literal is no longer pending: the rest of it would be read as code (flags %#x)' % (tok, func))
            if k != 'str':
                continue
            for nm in ('term', 'paren', 'heredoc_end'):
                if nm in x:
                    self.ck(x[nm] == q(nm), tag + '/' + nm, 'after %s another literal is pending (%s changed)' % (tok, nm))
            f = x['func']
            ok = f[0] == 'i' and f[1] & ~(TERM | LIST) == func & ~(TERM | LIST) and not (f[1] & LIST and not func & LIST)
            self.ck(ok, tag + '/func', 'after %s the literal pending is of another kind (flags %#x became %s)' % (tok, func, f))
            if g.get('nst') == 1:
                self.ck(x['nest'] != q('nest'), tag + '/nest', 'the depth of nested delimiters is forgotten after %s' % tok)
            elif g.get('nst') is None or g.get('nst') == 0:
                self.ck(x['nest'] == q('nest'), tag + '/nest', 'the depth of nested delimiters changes without delimiters after %s' % tok)
            if fl and ok:
                self.ck(f[1] & TERM or (func & LIST and not f[1] & LIST), tag + '/progress', 'at the end of the input an open literal (flags %#x) stays open after %s: the same token is returned for ever' % (func, tok))
        self.ck(n, tag + '/some', 'no outcome')

    def heredoc(self, func, fl=()):
        tag = 'here%#x%s' % (func, '/eof' if fl else '')
        n = 0
        for tok, v, g in self.go(self.here(func), fl):
            n += 1
            k, x = self.split(v)
            if tok == 'tSTRING_END':
                self.ck(k == 'none', tag + '/end', 'tSTRING_END is returned but the heredoc is still pending')
                continue
            self.ck(tok in ('tSTRING_CONTENT', 'tSTRING_DBEG', 'tSTRING_DVAR'), tag + '/other', 'inside a heredoc the lexer returns %s' % tok)
            self.ck(tok not in ('tSTRING_DBEG', 'tSTRING_DVAR') or func & EXP, tag + '/interp', 'interpolation inside a heredoc that does not interpolate')
            if k == 'here':
                same = all(x[nm] == (('i', func) if nm == 'func' else q('h', nm)) for nm in x)
                self.ck(same, tag + '/same', 'after %s another heredoc is pending' % tok)
            elif k == 'str' and tok == 'tSTRING_CONTENT':
                he = x['heredoc_end']
                self.ck(x['func'] == ('i', func | TERM) and he[0] == 'a' and he[2] == 1, tag + '/delayed', 'after the last line of a heredoc its end is not pending (flags %s)' % (x['func'],))
            else:
                self.ck(False, tag + '/' + str(tok), '%s is returned but the heredoc is no longer pending: the rest of it would be read as code' % tok)
            if fl:
                self.ck(False, tag + '/progress', 'at the end of the input an open heredoc stays open after %s' % tok)
        self.ck(n, tag + '/some', 'no outcome')


def show(v):
    return repr(chr(v[1])) if v[0] == 'i' else '?'


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('path-sensitive summaries of the tokenizer for every kind of pending literal at entry (none, each flag word, heredoc): the pair '
                '(token returned, literal pending afterwards) must be one the language allows, on every path, also at the end of the input')
    for a in (SL, HL, ST):
        if not rep.anchor(a, P.adts.get(a)):
            return
    if not rep.anchor('Lexer::parser_yylex', P.fns.get(YYLEX)):
        return
    r = Run(ctx, rep)
    if not rep.anchor('StringLiteral fields', {'func', 'term', 'paren', 'nest', 'heredoc_end'} <= set(r.fS) and 'func' in r.fH):
        return
    r.fresh()
    r.percent()
    for k in KINDS:
        r.inside(k)
        r.inside(k | TERM)
        r.inside(k, (('eof', 1),))
    for k in (0, EXP, IND, IND | EXP):
        r.heredoc(k)
        r.heredoc(k, (('eof', 1),))
    rep.count('function summaries', len(r.E.sums))
    rep.trusted = ['std models (models.py)', 'the byte source reports its end through its end flag (C04)']
