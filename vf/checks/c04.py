"""C04: input is read to its end unless an error says otherwise."""
from .. import lex, models, flow
from ..interp import Interp, Hooks, State, sym, UNIT, TRUE, FALSE
from ..models import some, NONE

BUF = lex.BUF
INPUT = 'source::input::Input'
DEC = 'source::decoded_input::DecodedInput'
YYLEX = 'lexer::main::Lexer::parser_yylex'


class Ghost:
    """remembers where the end token is produced without a reason"""
    def __init__(self):
        self.sites = {}

    def call(self, I, name, ci, args, st, fr, site):
        return None

    def on_assign(self, I, f, b, si, s, v, st, fr):
        if v == ('i', 0) and s[1] == [0] and f.locals[0] == 'i32' and not reason(st.fl):
            self.sites.setdefault((f.name, b), (f, s))


def reason(fl):
    return fl.get('err') or fl.get('seen') or fl.get('nul') or fl.get('mark')


class BH(Hooks):
    """the byte source over the text it was given"""
    def on_panic(self, *a):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        m = name.rsplit('::', 1)[-1]
        if name.startswith((INPUT + '::', DEC + '::')):
            if m == 'unchecked_byte_at':
                return [(('s', ('byte', args[1])), st)]
            if m == 'byte_at':
                s1, s2 = st.copy(), st.copy()
                s1.asm[('none', args[1])] = 1
                return [(NONE, s1), (some(('s', ('byte', args[1]))), s2)]
            if m == 'lines_count':
                return [(sym('lines'), st)]
            if m == 'line_at':
                return [(('&', ('H', ('line', args[1])), ()), st)]
            if m == 'substr_at':
                s1, s2 = st.copy(), st.copy()
                v = sym('sub', args[1], args[2])
                return [(NONE, s1), (some(v), s2)]
        return None


def at_least(asm, a, b):
    """do the assumptions say a >= b"""
    for op, x, y, val in (('Lt', a, b, 0), ('Ge', a, b, 1), ('Gt', b, a, 0), ('Le', b, a, 1), ('Eq', a, b, 1), ('Eq', b, a, 1), ('Gt', a, b, 1), ('Lt', b, a, 1)):
        if asm.get(('op', op, x, y)) == val:
            return True
    return False


def lin(v, n):
    if v[0] == 'i':
        return ('i', v[1] + n)
    if v[0] == 'lin':
        v, n = v[1], v[2] + n
    return v if n == 0 else ('lin', v, n)


def buffer_rules(P, rep):
    F = {nm: i for i, (nm, t) in enumerate(P.adts[BUF]['variants'][0][1])}
    need = ('pcur', 'pend', 'pbeg', 'eofp', 'nextline', 'line_count')
    for n in need:
        if not rep.anchor('Buffer.' + n, n in F):
            return
    f = P.fns.get(BUF + '::nextc')
    if not rep.anchor('Buffer::nextc', f):
        return
    old = {n: ('s', ('b', i)) for n, i in F.items()}
    B = ('H', ('b',))
    I = Interp(P, models.M, BH())
    I.keep_asm = lambda k: True
    SL = [x for x, t in P.adts['source::source_line::SourceLine']['variants'][0][1]]
    iS, iE = SL.index('start'), SL.index('end')
    n = 0
    for rv, st in I.run(f, [('&', B, ())], State({}, {}, {}), 1):
        n += 1
        a = st.asm
        get = lambda x: I.read(st, B, (F[x],))
        key = 'nextc/path%d' % n
        eofp = a.get(old['eofp']) == 1
        nl = a.get(('op', 'Eq', old['nextline'], ('i', 0))) == 0 or 0 in a.get(('not', old['nextline']), ()) or a.get(('op', 'Gt', old['nextline'], ('i', 0))) == 1
        # where the next byte is taken from
        pb = get('pbeg')
        moved = pb != old['pbeg'] or get('pend') != old['pend']
        line = None
        if moved:
            ok = pb[0] == 's' and pb[1][0] == 'line' and pb[1][2:] == (iS,) and get('pend') == ('s', ('line', pb[1][1], iE))
            rep.check(ok, 'nextc/line', 'the next line is not taken as the start and end of one line of the text (%s, %s)' % (pb, get('pend')), where=f.span)
            if not ok:
                continue
            line = pb[1][1]
            rep.check(eofp or nl or at_least(a, old['pcur'], old['pend']), 'nextc/early', 'a new line is started before the current one is used up', where=f.span)
            lc = get('line_count')
            if line == old['nextline']:
                rep.check(nl, 'nextc/nextline', 'the line remembered for later is used although there is none', where=f.span)
                rep.check(lc == old['line_count'], 'nextc/skip', 'a line of the text is skipped: the line number advances although a remembered line is read', where=f.span)
            else:
                rep.check(line == old['line_count'] and lc == lin(old['line_count'], 1), 'nextc/skip',
                          'lines are not read one after the other: line %s is read and the line number becomes %s' % (line, lc), where=f.span)
        x = pb if moved else old['pcur']
        if rv == lex.EOF:
            last = ('s', ('byte', lin(old['pend'], -1)))
            why = None
            if eofp:
                why = 'the end was already reached'
            elif a.get(('op', 'Eq', last, ('i', 10))) == 0 or 10 in a.get(('not', last), ()):
                why = 'the current line has no newline at its end'
            elif at_least(a, old['line_count'], ('s', ('lines',))):
                why = 'all lines were read'
            elif ('none', x) in a:
                why = 'no byte at the current position'
            rep.check(why, 'nextc/eof', 'Buffer::nextc reports the end of the input on a path where text is left (tests taken: %s)' % show(a), detail=why, where=f.span)
            if why and not moved:
                rep.check(get('pcur') == old['pend'] or get('pcur') == old['pcur'], 'nextc/eof-pos', 'position after the end is %s' % (get('pcur'),), where=f.span)
        else:
            if not (rv[0] == 'a' and rv[1] == lex.MB and rv[2] == 0):
                rep.bad('nextc/value', 'Buffer::nextc returns something that is neither a byte nor the end: %s' % (rv,), where=f.span)
                continue
            v = rv[3][0]
            b1, b2 = ('s', ('byte', x)), ('s', ('byte', lin(x, 1)))
            crlf = v == ('i', 10) and get('pcur') == lin(x, 2) and (a.get(b1) == 13) and (a.get(b2) == 10)
            plain = (v == b1 or (v[0] == 'i' and a.get(b1) == v[1])) and get('pcur') == lin(x, 1)
            rep.check(crlf or plain, 'nextc/byte', 'Buffer::nextc does not return exactly the next byte of the text and step over it (returns %s, position %s)' % (v, get('pcur')), where=f.span)
            if not moved:
                rep.check(not eofp, 'nextc/after-end', 'reading goes on after the end was reached', where=f.span)
    rep.count('paths of the byte source', n)
    # recognising a whole line
    f = P.fns.get(BUF + '::is_whole_match')
    if rep.anchor('Buffer::is_whole_match', f):
        I = Interp(P, models.M, BH())
        I.keep_asm = lambda k: True
        eos = sym('eos')
        for rv, st in I.run(f, [('&', B, ()), eos, ('i', 0)], State({}, {}, {}), 1):
            if rv == FALSE:
                rep.ok('whole/false')
                continue
            txt = str(rv) + ''.join(str(k) for k, v in st.asm.items() if v == 1)
            m = "'sub', ('s', ('b', %d))" % F['pbeg']
            rep.check(m in txt and "'eos'" in txt, 'whole/match', 'a line counts as the marker although its text was not compared with it', where=f.span)
            # what follows the marker on the line: nothing, \n or \r\n
            fol = [k for k, v in st.asm.items() if v == 1 and k[0] == 'op' and k[1] == 'Eq' and "'byte'" in str(k)]
            none = any(v == 0 and k[0] == 'op' and k[1] in ('Gt',) and k[3] == ('i', 0) for k, v in st.asm.items()) or \
                any(v == 1 and k[0] == 'op' and k[1] in ('Eq', 'Le') and k[3] == ('i', 0) for k, v in st.asm.items()) or \
                any(v == 0 and k[0] == 's' and isinstance(v, int) for k, v in st.asm.items())
            nlb = any(v == 10 for k, v in st.asm.items() if k[0] == 's' and k[1][0] == 'byte') or "('i', 10)" in str([k for k, v in st.asm.items() if v == 1])
            rep.check(none or nlb, 'whole/rest', 'a line counts as the marker although other text follows it on the same line (tests taken: %s)' % show(st.asm), where=f.span)


class Lines(Hooks):
    """DecodedInput::update_bytes: the lines pushed partition the text"""
    def __init__(self, P, rep, f):
        SL = [x for x, t in P.adts['source::source_line::SourceLine']['variants'][0][1]]
        self.iS, self.iE = SL.index('start'), SL.index('end')
        self.rep, self.f = rep, f
        self.idx = None
        self.pushes = 0
        self.unknown = False

    def on_panic(self, *a):
        pass

    def known(self, v):
        return v[0] == 'i' or (v[0] == 'lin' and v[1][0] == 's' and v[1][1][0] in ('idx', 'prev', 'junk')) or v == sym('len') or v[:2] == ('s', ('idx',))

    def on_call(self, I, name, ci, args, st, fr, site):
        if name.endswith('::next') and 'Enumerate' in name:
            out = []
            for k in (0, 1):
                s2 = st.copy()
                new = 'prev' if s2.fl.get('p') else 'junk'

                def ren(v):
                    if isinstance(v, tuple):
                        if v == ('s', ('idx',)):
                            return ('s', (new,))
                        if v == ('s', ('prev',)) and new == 'prev':
                            return ('s', ('old',))
                        return tuple(ren(x) if isinstance(x, tuple) else x for x in v)
                    return v
                for c in list(s2.mem):
                    s2.mem[c] = ren(s2.mem[c])
                if s2.fl.get('nl') and not s2.fl.get('p'):
                    self.rep.bad('lines/newline', 'a newline does not end the line it stands in', where=self.f.span)
                if 'last' in s2.fl:
                    s2.fl['last'] = ren(s2.fl['last'])
                s2.fl.pop('p', None)
                for q in list(s2.asm):
                    if 'idx' in str(q) or 'chr' in str(q):
                        del s2.asm[q]
                s2._k = None
                if k == 0:
                    out.append((NONE, s2))
                else:
                    cell = ('H', ('chr',))
                    s2.mem[cell] = sym('chrv')
                    out.append((some(('t', (sym('idx'), ('&', cell, ())))), s2))
            return out
        if name.startswith('std::vec::Vec::') and name.endswith('::len') or name.endswith('slice::len'):
            return [(sym('len'), st)]
        if name.startswith('std::vec::Vec::') and name.endswith('::push'):
            v = args[1]
            s2 = st.copy()
            if v[0] != 'a' or v[1] != 'source::source_line::SourceLine':
                self.unknown = True
                return [(UNIT, s2)]
            a, e = v[3][self.iS], v[3][self.iE]
            if not self.known(a) or not self.known(e):
                self.unknown = True
                return [(UNIT, s2)]
            self.pushes += 1
            want = s2.fl.get('last', ('i', 0))
            self.rep.check(a == want, 'lines/start', 'a line does not start where the line before it ended (%s instead of %s)' % (a, want), where=self.f.span)
            nl = s2.asm.get(sym('chrv')) == 10
            self.rep.check(e == sym('len') or (e == ('lin', sym('idx'), 1) and nl), 'lines/end', 'a line does not end right after a newline or at the end of the text (%s)' % (e,), where=self.f.span)
            s2.fl['last'] = e
            s2.fl['p'] = 1
            s2._k = None
            return [(UNIT, s2)]
        return None


def lines_rule(P, rep):
    f = P.fns.get(DEC + '::update_bytes')
    if not rep.anchor('DecodedInput::update_bytes', f):
        return
    H = Lines(P, rep, f)
    I = Interp(P, models.M, H)
    try:
        outs = I.run(f, [('&', ('H', ('d',)), ()), sym('bytes')], State({}, {}, {}), 1)
    except Exception:
        H.unknown = True
        outs = []
    if H.unknown or not H.pushes:
        rep.assumptions.append('the line table is built in a form the analysis does not follow; its correctness is assumed')
        return
    iB = [x for x, t in P.adts[DEC]['variants'][0][1]].index('bytes')
    for rv, st in outs:
        rep.check(st.fl.get('last') == sym('len'), 'lines/last', 'the last line does not reach the end of the text', where=f.span)
        rep.check(I.read(st, ('H', ('d',)), (iB,)) == sym('bytes'), 'lines/bytes', 'the text stored is not the text given', where=f.span)
    rep.count('line table pushes', H.pushes)


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('path-sensitive summaries of every lexer function: on every path of the tokenizer that returns the end token the end of '
                'the input was reached, the byte read is NUL/^D/^Z, the line is __END__, or an error was emitted; plus the transition rule '
                'of the byte source (each read returns exactly the next byte, lines follow one another, the end is reported only when nothing is left)')
    if not (rep.anchor('Lexer::parser_yylex', P.fns.get(YYLEX)) and rep.anchor('Buffer', P.adts.get(BUF))):
        return
    g = Ghost()
    E = lex.Engine(P, g)
    outs = E.summary((YYLEX, (('&', lex.LX, ()),), (), frozenset()))
    rep.floor('tokenizer outcomes', len(outs), 100)
    bad = False
    for rv, oc, fl in outs:
        fl = dict(fl)
        if rv == ('i', 0):
            if reason(fl):
                rep.ok('end/%s' % sorted(fl))
            else:
                bad = True
        elif rv[0] == 'i':
            rep.ok('token/%d' % rv[1])
    if bad:
        for (n, b), (f, s) in sorted(g.sites.items()):
            rep.bad('end/%s' % n.split('::')[-1], '%s can end the token stream although text is left, it is not NUL/^D/^Z or __END__, and no error was reported' % n,
                    where='%s %s' % (f.span, s[3] if len(s) > 3 else ''))
        if not g.sites:
            rep.bad('end', 'the tokenizer can return the end token although text is left and no error was reported')
    rep.count('function summaries', len(E.sums))
    rep.count('functions', len({k[0] for k in E.sums}))
    # who may declare the end
    ok = {BUF + '::nextline', BUF + '::nextc'}
    for n, f in P.fns.items():
        if f.kind != 'fn' or f.derived:
            continue
        for b, m, p in flow.accesses(f):
            if m in ('write', 'mutref') and flow.fields(p)[-1:] == ['eofp'] and n not in ok:
                rep.count('other writers of the end flag')
    buffer_rules(P, rep)
    lines_rule(P, rep)
    rep.trusted = ['std models (models.py)', 'Bytes read through Input::byte_at / unchecked_byte_at / line_at are those of the text (one-line accessors)']
    rep.assumptions += ['the token kinds of reserved words are not the end token (C13)']


def show(a):
    return str(sorted(map(str, a.items())))[:300]
