"""C20: characters with several readings are read by context.

For every lexer state a Ruby program can be in, with and without a preceding space and at the start of a command
or not, the tokenizer is interpreted abstractly with the first characters of the input known and everything else
unknown. The pairs (token, state afterwards) it can produce must be exactly those of Ruby's lexer, given by `spec`."""
import os, time
from multiprocessing import get_context
from .. import lex
from ..interp import TRUE, FALSE, UNIT, Interp
from ..models import NONE
from .c13 import BEG, END, ENDARG, ENDFN, ARG, CMDARG, MID, FNAME, DOT, CLASS, LABEL, LABELED, FITEM, STATES
from .c16 import ST, SL, HL, YYLEX

LS = 'lex_state::LexState'
ENTRY = [BEG, END, ENDARG, ENDFN, ARG, CMDARG, MID, FNAME, DOT, CLASS, BEG | LABEL, ARG | LABELED, FNAME | FITEM, END | LABEL, ENDFN | LABEL]
NM = {v: k[5:] for k, v in STATES.items()}
EXP, REG, ESC, SYM, LAB, QW, LIST = 2, 4, 1, 16, 64, 8, 0x4000


def sn(s):
    return '|'.join(n for b, n in sorted(NM.items()) if s & b) if isinstance(s, int) else str(s)


# ------------------------------------------------------------------ Ruby's lexer (parse.y, parser_yylex)
SPACES = ' \t\n\x0b\x0c\r'


OPENS = ('cmdarg+0', 'cond+0', 'paren_nest+1')
CLOSES = ('cmdarg-', 'cond-', 'paren_nest-1')
OPS = {t: OPENS for t in ('tLPAREN', 'tLPAREN2', 'tLPAREN_ARG', 'tLBRACK', 'tLBRACK2')}
OPS.update({t: tuple(sorted(OPENS + ('brace_nest+1',))) for t in ('tLAMBEG', 'tLBRACE', 'tLBRACE_ARG', 'tLCURLY')})
OPS.update({t: CLOSES for t in ('tRPAREN', 'tRBRACK')})
OPS.update({'tRCURLY': tuple(sorted(CLOSES + ('brace_nest-1',))), 'tSTRING_DEND': ('brace_nest-1',)})
LEN = {'tPOW': 2, 'tDSTAR': 2, 'tANDOP': 2, 'tANDDOT': 2, 'tNEQ': 2, 'tNMATCH': 2, 'tEQ': 2, 'tEQQ': 3, 'tMATCH': 2, 'tASSOC': 2, 'tLEQ': 2, 'tCMP': 3,
       'tLSHFT': 2, 'tGEQ': 2, 'tRSHFT': 2, 'tOROP': 2, 'tLAMBDA': 2, 'tBDOT2': 2, 'tDOT2': 2, 'tBDOT3': 3, 'tDOT3': 3, 'tCOLON2': 2, 'tCOLON3': 2,
       'tAREF': 2, 'tASET': 3, 'tCHAR': 2, 'tINTEGER': 2}


class Spec:
    def __init__(self, S, cmd, text, sp=False, skip=0):
        self.S, self.cmd = S, cmd
        self.n = None
        self.sp = sp or text[0] in ' \t\x0b\x0c\r'
        self.t = text.lstrip(' \t\x0b\x0c\r')
        self.skip = skip + len(text) - len(self.t)
        self.beg = bool(S & (BEG | MID | CLASS)) or S & (ARG | LABELED) == ARG | LABELED
        self.arg = bool(S & (ARG | CMDARG))
        self.end = bool(S & (END | ENDARG | ENDFN))
        self.fn = bool(S & (FNAME | DOT))
        self.after = ARG if self.fn else BEG
        self.labelp = bool(S & (LABEL | ENDFN)) and not cmd or self.arg

    def spacearg(self, c):
        return self.arg and self.sp and c not in SPACES

    def out(self, tok, state, start=False, lit=None, ops=None, n=None):
        if ops is None:
            ops = OPS.get(tok, ())
        n = n or self.n or LEN.get(tok, 1)
        return {(tok, state, start, lit, ops, self.skip + n)}

    def run(self):
        t = self.t
        c, d, e = t[0], t[1:2], t[2:3]
        if c.isalpha() or c == '_':
            return self.word()
        r = getattr(self, 'c_%02x' % ord(c))
        return r(c, d, e)

    def asgn(self, start=False):
        return self.out('tOP_ASGN', BEG, start, n=self.t.index('=') + 1)

    def prefix(self, pre, inf, nxt):
        return self.out(pre if self.spacearg(nxt) or self.beg else inf, self.after)

    def c_2a(self, c, d, e):    # *
        if d == '*':
            return self.asgn() if e == '=' else self.prefix('tDSTAR', 'tPOW', e)
        return self.asgn() if d == '=' else self.prefix('tSTAR', 'tSTAR2', d)

    def c_26(self, c, d, e):    # &
        if d == '&':
            return self.asgn() if e == '=' else self.out('tANDOP', BEG)
        if d == '=':
            return self.asgn()
        if d == '.':
            return self.out('tANDDOT', DOT)
        return self.prefix('tAMPER', 'tAMPER2', d)

    def c_21(self, c, d, e):    # !
        if self.fn and d == '@':
            return self.out('tBANG', ARG, n=2)
        return self.out({'=': 'tNEQ', '~': 'tNMATCH'}.get(d, 'tBANG'), self.after)

    def c_3d(self, c, d, e):    # =
        if d == '=':
            return self.out('tEQQ' if e == '=' else 'tEQ', self.after)
        return self.out({'~': 'tMATCH', '>': 'tASSOC'}.get(d, 'tEQL'), self.after)

    def c_3c(self, c, d, e):    # <
        start = bool(self.S & CLASS) and not self.fn
        if d == '=':
            return self.out('tCMP' if e == '>' else 'tLEQ', self.after, start)
        if d == '<':
            r = self.asgn(start) if e == '=' else self.out('tLSHFT', self.after, start)
            if not self.S & (DOT | CLASS) and not self.end and (not self.arg or self.S & LABELED or self.sp) and (e in '"\'`~-_' or e.isalpha()):
                here = {('here', self.S, False, None, (), None)}
                # a bare letter always starts a heredoc here; after a dash or tilde it depends on what follows
                return here if e.isalpha() or e == '_' else r | here
            return r
        return self.out('tLT', self.after, start)

    def c_3e(self, c, d, e):    # >
        if d == '=':
            return self.out('tGEQ', self.after)
        if d == '>':
            return self.asgn() if e == '=' else self.out('tRSHFT', self.after)
        return self.out('tGT', self.after)

    def c_22(self, c, d, e):    # "
        return self.out('tSTRING_BEG', self.S, lit=EXP | (LAB if self.labelp else 0))

    def c_27(self, c, d, e):    # '
        return self.out('tSTRING_BEG', self.S, lit=(LAB if self.labelp else 0))

    def c_60(self, c, d, e):    # `
        if self.S & FNAME:
            return self.out('tBACK_REF2', ENDFN)
        if self.S & DOT:
            return self.out('tBACK_REF2', CMDARG if self.cmd else ARG)
        return self.out('tXSTRING_BEG', self.S, lit=EXP)

    def c_7c(self, c, d, e):    # |
        if d == '|':
            if e == '=':
                return self.asgn()
            return self.out('tPIPE' if self.S & BEG else 'tOROP', BEG)
        if d == '=':
            return self.asgn()
        return self.out('tPIPE', ARG if self.fn else BEG | LABEL)

    def sign(self, d, un, bi, num):
        if self.fn:
            return self.out(un if d == '@' else bi, ARG, n=2 if d == '@' else 1)
        if d == '=':
            return self.asgn()
        if d == '>' and un == 'tUMINUS':
            return self.out('tLAMBDA', ENDFN)
        if self.beg or self.spacearg(d):
            if d.isdigit():
                return self.out(*num)
            return self.out(un, BEG)
        return self.out(bi, BEG)

    def c_2b(self, c, d, e):
        return self.sign(d, 'tUPLUS', 'tPLUS', ('tINTEGER', END))

    def c_2d(self, c, d, e):
        return self.sign(d, 'tUMINUS', 'tMINUS', ('tUMINUS_NUM', BEG))

    def c_2e(self, c, d, e):    # .
        if d == '.':
            if e == '.':
                r = self.out('tBDOT3', ENDARG) | self.out('tBDOT3' if self.beg else 'tDOT3', BEG)
                if self.S & LABEL:      # block parameter list of a lambda
                    r |= self.out('tDOT3', BEG)
                return r
            return self.out('tBDOT2' if self.beg else 'tDOT2', BEG)
        return self.out('tDOT', DOT)

    def c_29(self, c, d, e):
        return self.out('tRPAREN', ENDFN)

    def c_5d(self, c, d, e):
        return self.out('tRBRACK', END)

    def c_7d(self, c, d, e):
        return self.out('tRCURLY', END) | self.out('tSTRING_DEND', self.S)

    def c_3a(self, c, d, e):    # :
        if d == ':':
            if self.beg or self.S & CLASS or self.arg and self.sp:
                return self.out('tCOLON3', BEG)
            return self.out('tCOLON2', DOT)
        if self.end or d in SPACES or d == '#':
            return self.out('tCOLON', BEG)
        return self.out('tSYMBEG', FNAME, lit={"'": SYM, '"': SYM | EXP}.get(d), n=2 if d in "'\"" else 1)

    def c_2f(self, c, d, e):    # /
        if self.beg:
            return self.out('tREGEXP_BEG', self.S, lit=REG | ESC | EXP)
        if d == '=':
            return self.asgn()
        if self.spacearg(d):
            return self.out('tREGEXP_BEG', self.S, lit=REG | ESC | EXP)
        return self.out('tDIVIDE', self.after)

    def c_5e(self, c, d, e):
        return self.asgn() if d == '=' else self.out('tCARET', self.after)

    def c_3b(self, c, d, e):
        return self.out('tSEMI', BEG, True)

    def c_2c(self, c, d, e):
        return self.out('tCOMMA', BEG | LABEL)

    def c_7e(self, c, d, e):
        return self.out('tTILDE', self.after, n=2 if self.fn and d == '@' else 1)

    def c_28(self, c, d, e):    # (
        if self.beg:
            k = 'tLPAREN'
        elif self.sp and (self.arg or self.S & (END | LABEL) == END | LABEL):
            k = 'tLPAREN_ARG'
        else:
            k = 'tLPAREN2'
        return self.out(k, BEG | LABEL)

    def c_5b(self, c, d, e):    # [
        if self.fn:
            if d == ']':
                return self.out('tASET' if e == '=' else 'tAREF', ARG)
            return self.out('tLBRACK2', ARG | LABEL, ops=('paren_nest+1',))
        if self.beg or self.arg and (self.sp or self.S & LABELED):
            return self.out('tLBRACK', BEG | LABEL)
        return self.out('tLBRACK2', BEG | LABEL)

    def c_7b(self, c, d, e):    # {
        r = self.out('tLAMBEG', BEG, True)
        if self.S & LABELED:
            return r | self.out('tLBRACE', BEG | LABEL)
        if self.S & (ARG | CMDARG | END | ENDFN):
            return r | self.out('tLCURLY', BEG, True)
        if self.S & ENDARG:
            return r | self.out('tLBRACE_ARG', BEG, True)
        return r | self.out('tLBRACE', BEG | LABEL)

    def c_3f(self, c, d, e):    # ?
        if self.end or d in SPACES:
            return self.out('tEH', BEG)
        if (d.isalnum() or d == '_') and (e.isalnum() or e == '_'):
            return self.out('tEH', BEG)
        return self.out('tCHAR', END)

    PERC = {'w': ('tQWORDS_BEG', QW | LIST), 'W': ('tWORDS_BEG', QW | EXP | LIST), 'i': ('tQSYMBOLS_BEG', QW | LIST), 'I': ('tSYMBOLS_BEG', QW | EXP | LIST),
            'q': ('tSTRING_BEG', 0), 'Q': ('tSTRING_BEG', EXP), 'x': ('tXSTRING_BEG', EXP), 'r': ('tREGEXP_BEG', REG | ESC | EXP)}

    def c_25(self, c, d, e):    # %
        def quote():
            self.n = 3 if d.isalpha() else 2
            if d == 's':
                return self.out('tSYMBEG', FNAME | FITEM, lit=SYM)
            if d.isalpha():
                k, f = self.PERC[d]
                return self.out(k, self.S, lit=f)
            return self.out('tSTRING_BEG', self.S, lit=EXP)
        if self.beg:
            return quote()
        if d == '=':
            return self.asgn()
        if self.spacearg(d) or self.S & FITEM and d == 's':
            return quote()
        return self.out('tPERCENT', self.after)

    def word(self):
        # a word that is not reserved; whether it starts with a capital and is a declared variable is unknown
        n = 1
        while word(ord(self.t[n])):
            n += 1
        d, e, f = self.t[n:n + 1], self.t[n + 1:n + 2], self.t[n + 2:n + 3]
        toks = {'tCONSTANT', 'tIDENTIFIER'}
        if d in '!?' and e != '=':
            toks = {'tFID'}
            n += 1
        elif d == '=' and self.S & FNAME and e not in '~>' and (e != '=' or f == '>'):
            toks = {'tIDENTIFIER'}
            n += 1
        if self.labelp and self.t[n:n + 1] == ':' and self.t[n + 1:n + 2] != ':':
            return self.out('tLABEL', ARG | LABELED, n=n + 1)
        if self.S & (BEG | MID | CLASS | ARG | CMDARG | DOT):
            after = CMDARG if self.cmd else ARG
        elif self.S == FNAME:
            after = ENDFN
        else:
            after = END
        r = set()
        for k in toks:
            r |= self.out(k, after, n=n)
            if k == 'tIDENTIFIER' and not self.fn:
                r |= self.out(k, END | LABEL, n=n)
        return r

    def c_24(self, c, d, e):    # $
        self.n = len(self.t.rstrip())
        if d in "&`'+":
            return self.out('tGVAR' if self.S & FNAME else 'tBACK_REF', END)
        if d in '123456789':
            return self.out('tGVAR' if self.S & FNAME else 'tNTH_REF', END)
        return self.out('tGVAR', END)

    def c_40(self, c, d, e):    # @
        self.n = len(self.t.rstrip())
        return self.out('tCVAR' if d == '@' else 'tIVAR', ENDFN if self.S & FNAME else END)

    def c_5c(self, c, d, e):    # line continuation
        return Spec(self.S, self.cmd, self.t[2:], True, self.skip + 2).run()

    def c_0a(self, c, d, e):    # end of line, then a word
        ign = self.S & (BEG | CLASS | FNAME | DOT) and not self.S & LABELED
        rest = Spec(self.S, self.cmd, self.t[1:], self.sp, self.skip + 1)
        if ign:
            return rest.run()
        nl = {('tNL', BEG, True, None, (), None)}
        if self.S & (ARG | LABELED) == ARG | LABELED:
            return nl | rest.run()
        k = self.t.lstrip('\n ')
        self.skip += len(self.t) - len(k)
        if k[0] == '.' and k[1] != '.':
            return self.out('tDOT', DOT)
        if k[:2] == '&.':
            return self.out('tANDDOT', DOT)
        return nl


TEXTS = []
for op in ('*', '**', '&', '&&', '!', '=', '==', '===', '=~', '=>', '!=', '!~', '<', '<=', '<=>', '>', '>=', '>>', '|', '||', '+', '-', '->', '..', '...',
           ')', ']', '}', ',', ';', '~', '(', '[', '{', '/', '^', '::', '&.', '<<', '%'):
    for nx in ('x(', ' ') if op != '%' else (' ',):
        if op == '{' or op[0] in ')]},;' or op in ('->', '...'):
            nx = ' x'
        TEXTS.append(op + nx)
for op in ('*', '**', '&', '&&', '|', '||', '+', '-', '^', '/', '%', '<<', '>>'):
    TEXTS.append(op + '= ')
TEXTS += ['!@x', '+@x', '-@x', '~@x', '+1 ', '-1 ', '.x ', '"x"', "'x'", '`x`', ':x ', ': x', ':"x"', ":'x'", ':#x', '[]x', '[]=x', '<<-x', '<<"x', '<<1 ',
          '? x', '?x ', '?xy', '/x/', '|x|', '|x', '::x', '(x)', '[1]', '(1)', '*x', '&x ', '**x',
          '%w[', '%W[', '%i[', '%I[', '%q[', '%Q[', '%x[', '%r[', '%s[', '%[x', '%(x',
          '\nx', '\n.x', '\n&.x', '\n..x', '\n .x', '\n x']
for op in ('*', '**', '&', '+', '-', '/', '%', ':', '::', '[', '<<', '?'):
    TEXTS += [op + w + 'x' for w in '\t\n\r\x0b\x0c']
for op in ('*', '**', '&', '+', '-', '/', '%', '[', '(', '::', '{', '<<', '?', ':'):
    TEXTS += ['\t' + op + 'x[', '\\\n' + op + 'x[', '\x0b' + op + 'x[', '\r' + op + 'x[']
TEXTS += ['\rx ', 'x ', 'x1(', 'x:y', 'x: ', 'x::y', 'x?y', 'x?=', 'x? ', 'x!=', 'x! ', 'x?: ', 'x!:y', 'x?::y', 'x=1', 'x=~y', 'x=>y', 'x==y', 'x==>', 'x= ', 'xy[', '_1 ', 'x?:y', 'x:"', 'x=:y']
TEXTS += ['?1x', '?_x', '?x1', '?x_', '?x.', '?-x', '?? ', '? ']
TEXTS += ['$' + c + ' ' for c in '~*$?!@/\\;,.=:<>"&`\'+0123456789_xX']
TEXTS += ['$12 ', '$-w ', '$_x ', '$x1 ', '@x ', '@@x ', '@X1 ', '@@_1 ']
TEXTS = list(dict.fromkeys(t + ' ' if t[-1].isalnum() or t[-1] == '_' else t for t in TEXTS))


# ------------------------------------------------------------------ the tokenizer
BASE = 1000      # position of the first known character; what precedes it is unknown


class Ghost:
    """the first characters of the input are known"""
    text = b''

    def at(self, st):
        p = st.fl.get('pos')
        return p if p is not None and p < len(self.text) else None

    def op(self, st, what):
        o = sorted(st.fl.get('ops', ()) + (what,))
        for a in ('paren_nest', 'brace_nest'):
            while a + '+1' in o and a + '-1' in o:
                o.remove(a + '+1')
                o.remove(a + '-1')
        st.fl['ops'] = tuple(o)[:8]
        st._k = None

    def call(self, I, name, ci, args, st, fr, site):
        if name.startswith('stack_state::') and args and args[0][0] == '&' and args[0][1] == lex.LX and len(args[0][2]) == 1 and args[0][2][0] in self.E.stacks:
            m = name.split('::')[-1]
            f = self.E.P.fns.get(name)
            if f is not None and f.locals[1].startswith('&mut'):
                st = st.copy()
                v = args[1] if len(args) > 1 else None
                self.op(st, self.E.stacks[args[0][2][0]] + ('-' if m == 'pop' else '%s%s' % ('+' if m == 'push' else m, v[1] if v and v[0] == 'i' else '?')))
                return [(I.fresh(st, site), st)]
        if 'pos' not in st.fl:
            return None
        if name in (lex.BUF + '::nextc', lex.LEXER + '::nextc'):
            p = self.at(st)
            s2 = st.copy()
            s2.fl['pos'] = st.fl['pos'] + 1
            s2._k = None
            if p is not None:
                s2.fl.pop('eof', None)
                return [(lex.mb(('i', self.text[p])), s2)]
            s2.fl.pop('pos')
            return self.E.nextc(I, s2, site)
        if name.endswith('::pushback') and lex.BUF in name:
            v = args[1]
            if v[0] == '&':
                v = I.read(st, v[1], v[2])
            s2 = st.copy()
            if v == lex.EOF or st.fl['pos'] == 0:
                s2.fl.pop('pos')
            else:
                s2.fl['pos'] -= 1
            s2._k = None
            return [(UNIT, s2)]
        p = self.at(st)
        if name.startswith(lex.BUF + '::'):
            m = name[len(lex.BUF) + 2:]
            if m in ('peek', 'peek_n', 'peekc', 'peekc_n') and p is not None:
                c = m.startswith('peekc')
                n = 0
                if m.endswith('_n'):
                    n = args[-1][1] if args[-1][0] == 'i' else None
                if n is not None and p + n < len(self.text):
                    b = ('i', self.text[p + n])
                    if c:
                        return [(lex.mb(b), st)]
                    if args[1][0] == 'i':
                        return [(TRUE if args[1] == b else FALSE, st)]
            k = self.idx(args[1]) if m in ('is_identchar', 'byte_at') else None
            if k is not None:
                if m == 'byte_at':
                    return [(lex.mb(('i', self.text[k])), st)]
                return [(TRUE if word(self.text[k]) else FALSE, st)]
            if m == 'is_eol' and p is not None:
                return [(TRUE if self.text[p] == 10 else FALSE, st)]
            w = args[1] if len(args) > 1 else UNIT
            if w[0] == '&':
                w = I.read(st, w[1], w[2])
            if m == 'is_whole_match' and w[0] == 'str' and 0 < st.fl['pos'] <= len(self.text):
                w = w[1] if isinstance(w[1], bytes) else w[1].encode()
                if w[:1] != self.text[st.fl['pos'] - 1:st.fl['pos']] or p is not None and w[1:2] != self.text[p:p + 1]:
                    return [(FALSE, st)]
                return None
            if m == 'is_word_match' and p is not None and w[0] == 'str':
                w = w[1] if isinstance(w[1], bytes) else w[1].encode()
                n = min(len(w), len(self.text) - p)
                if self.text[p:p + n] != w[:n]:
                    return [(FALSE, st)]
            if m in ('token_flush', 'set_ptok', 'was_bol', 'is_word_match', 'is_whole_match', 'is_looking_at_eol', 'substr_at'):
                return None
            f = self.E.P.fns.get(name)
            if f is not None and f.locals[1].startswith('&mut'):
                st = st.copy()
                st.fl.pop('pos')
                st._k = None
                r = self.E.buffer_call(I, m, args, st, site)
                return r
            return None
        if name.startswith('lexer::') and name.endswith('::is_identchar') and 0 < st.fl['pos'] <= len(self.text):
            return [(TRUE if word(self.text[st.fl['pos'] - 1]) else FALSE, st)]
        if name == lex.LEXER + '::char_at':
            k = self.idx(args[1])
            if k is not None:
                return [(lex.mb(('i', self.text[k])), st)]
        if name.startswith('lexer::') and name.endswith('::heredoc_identifier'):
            s1, s2 = st.copy(), st.copy()
            s1.fl['here'] = 1
            s1._k = None
            from ..models import some
            out = [(some(('i', -99)), s1)]
            p = self.at(st)
            if p is None:
                return out + [(NONE, s2)]
            c = chr(self.text[p])
            if c.isalpha() or c == '_':
                return out
            return out + [(NONE, s2)] if c in '-~"\'`' else [(NONE, s2)]
        if name.endswith('::reserved_word') and name.startswith('reserved_words::'):
            return [(NONE, st)]
        return None

    def on_assign(self, I, f, b, si, s, v, st, fr):
        r = s[2]
        if r[0] == 'bin' and r[1][:3] in ('Add', 'Sub'):
            x, y = I.operand(st, fr, r[2]), I.operand(st, fr, r[3])
            if x[:2] == ('op', 'fld') and len(x[2]) == 1 and x[2][0] in self.E.nests and y == ('i', 1):
                w = ('op', 'inc', x[2][0], '+1' if r[1][:3] == 'Add' else '-1')
                return ('t', (w, FALSE)) if 'WithOverflow' in r[1] else w
        if r[0] == 'bin' and r[1].split('With')[0] in ('Add', 'Sub') and 'pos' in st.fl:
            x, y = I.operand(st, fr, r[2]), I.operand(st, fr, r[3])
            if x[0] == 'i' and y[0] == 'i' and abs(y[1]) < 16 and (BASE - 4 <= x[1] <= BASE + len(self.text) + 1 or 0 <= x[1] < 8):
                return v
        # a known byte is left, so the position is before the end of the line
        if v[0] == 'op' and v[1] in ('Lt', 'Ge') and self.at(st) is not None and 'pos' in st.fl:
            B = self.E.bfields
            if v[2] == ('i', BASE + self.at(st)) and v[3] == ('op', 'fld', (self.E.iB, B.get('pend'))):
                return TRUE if v[1] == 'Lt' else FALSE
        return None

    def on_write(self, I, st, cell, path, val):
        if len(path) == 1 and path[0] in self.E.nests:
            self.op(st, self.E.nests[path[0]] + (val[3] if val[:2] == ('op', 'inc') and val[2] == path[0] else '=?'))
        if path[:1] == (self.E.iB,) and len(path) > 1 and path[1] in (self.E.bfields.get(x) for x in ('pcur', 'pend', 'lastline')):
            if 'pos' in st.fl:
                if path[1] == self.E.bfields.get('pcur') and val[0] == 'i' and 0 <= val[1] - BASE <= len(self.text):
                    st.fl['pos'] = val[1] - BASE
                else:
                    st.fl.pop('pos')
                st._k = None
        return None

    def read(self, I, st, path):
        if 'pos' in st.fl:
            if path == (self.E.iB, self.E.bfields.get('pcur')):
                return ('i', BASE + st.fl['pos'])
            if path == self.E.eofp and st.fl['pos'] <= len(self.text):
                return FALSE
        return None

    def idx(self, v):
        return v[1] - BASE if v[0] == 'i' and 0 <= v[1] - BASE < len(self.text) else None


def word(b):
    return chr(b).isalnum() or b == 95 or b >= 128


class Run:
    def __init__(self, P):
        self.P = P
        self.names = {-99: 'here'}
        for n, v in P.token_consts().items():
            m = n.split('::')[-1]
            if 'lexer::main::Lexer' in n and (m[0] in 'tk' and m[1:2].isupper() or m == 'END_OF_INPUT'):
                self.names.setdefault(v, m)
        self.fS = {n: i for i, (n, t) in enumerate(P.adts[SL]['variants'][0][1])}
        self.vS = [n for n, fs in P.adts[ST]['variants']].index('StringLiteral')

    def engine(self, text):
        g = Ghost()
        g.text = text.encode()
        E = lex.Engine(self.P, g) if not hasattr(self, 'E0') else self.E0
        if not hasattr(self, 'E0'):
            self.E0 = E
            E.opaque_mods = tuple(x for x in E.opaque_mods if x != 'lex_state::')
            self.iL, self.iS, self.iC = E.fields['lex_state'], E.fields['strterm'], E.fields['command_start']
            E.tracked = (self.iL, self.iS, self.iC)
            E.stacks = {E.fields[x]: x for x in ('cond', 'cmdarg') if x in E.fields}
            E.nests = {E.fields[x]: x for x in ('paren_nest', 'brace_nest') if x in E.fields}
        E.g = g
        E.gread = g.read
        g.E = E
        E.sums, E.deps, E.active = {}, {}, []
        return E

    def go(self, state, cmd, text):
        E = self.engine(text)
        v = ('a', LS, 0, (('i', state),))
        cells = ((('trk', self.iL), v), (('trk', self.iS), NONE), (('trk', self.iC), ('i', int(cmd))))
        out = set()
        for rv, oc, fl in E.summary((YYLEX, (('&', lex.LX, ()),), cells, frozenset({('pos', 0)}))):
            if dict(fl).get('err'):
                out.add(('error',))
                continue
            tok = self.names.get(rv[1], str(rv[1])) if rv[0] == 'i' else '?'
            l = oc[0][1]
            st = l[3][0][1] if l[0] == 'a' and l[3][0][0] == 'i' else '?'
            c = oc[2][1]
            start = bool(c[1]) if c[0] == 'i' else '?'
            out.add((tok, st, start, self.kind(oc[1][1]), dict(fl).get('ops', ()), dict(fl).get('pos') if tok not in ('here', 'tNL') else None))
        return out

    def kind(self, v):
        if v == NONE:
            return None
        try:
            t = v[3][0][1]
            if t[2] == self.vS:
                f = t[3][0][3][self.fS['func']]
                return f[1] if f[0] == 'i' else '?'
        except (IndexError, TypeError):
            pass
        return '?'


R = None


def work(job):
    import sys
    sys.setrecursionlimit(20000)
    st, cmd, texts = job
    out = []
    for t in texts:
        try:
            out.append((st, cmd, t, R.go(st, cmd, t)))
        except Exception as e:
            out.append((st, cmd, t, e))
    return out


def show(o):
    t, s, c, l, ops, n = o
    return '%s%s%s%s%s%s' % (t, '' if s is None else ' -> ' + sn(s), ' (start of a command)' if c is True else '', '' if l is None else ' literal %s' % l, ' [%s]' % ' '.join(ops) if ops else '', ' %d characters' % n if n else '')


def readings(ctx, rep):
    global R
    P = ctx.prog
    R = Run(P)
    jobs = []
    for st in ENTRY:
        for cmd in (False, True):
            tx = [' ' * sp + t for t in TEXTS for sp in (0, 1) if not (t[0] == '\n' and sp)]
            for k in range(0, len(tx), 40):
                jobs.append((st, cmd, tx[k:k + 40]))
    n = 0
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        for res in p.imap_unordered(work, jobs):
            for st, cmd, t, got in res:
                n += 1
                if isinstance(got, Exception):
                    raise got
                want = Spec(st, cmd, t).run()
                key = '%s/%s/%r' % (sn(st), 'cmd' if cmd else '-', t)
                got.discard(('error',))
                rep.check(got == want, key, 'in state %s%s the text %r is read as %s; Ruby reads %s' % (
                    sn(st), ' at the start of a command' if cmd else '', t, ' or '.join(sorted(map(show, got - want))) or 'nothing more', ' or '.join(sorted(map(show, want - got))) or 'only ' + ' or '.join(sorted(map(show, want)))),
                    where=P.fns[YYLEX].span)
    rep.floor('readings', n, 5000)


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('abstract interpretation of the tokenizer for every lexer state, with/without a preceding space, at/not at the start of a command and for '
                'each punctuation sequence (the following input, nesting and context are unknown): the set of (token, following state, start of command, literal '
                'opened) it can produce must equal the one of Ruby\'s lexer')
    for a in (SL, HL, ST, LS):
        if not rep.anchor(a, P.adts.get(a)):
            return
    if not rep.anchor('Lexer::parser_yylex', P.fns.get(YYLEX)):
        return
    readings(ctx, rep)
    rep.trusted = ['std models (models.py)', 'Buffer::nextc/peek/pushback deliver the bytes of the source in order (C04, C05)']
