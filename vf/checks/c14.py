"""C14: text in a declared encoding is decoded, or the failure is reported.

Buffer::set_encoding is evaluated over its MIR down to the call of the caller's decoder, for an arbitrary name of an encoding,
arbitrary bytes, a decoder that is there or not, succeeds or fails. On every path: UTF-8, ASCII-8BIT and BINARY, however they
are capitalised, leave the bytes as they are; any other name makes the bytes what the decoder returned for this name and these
bytes, and its failure, like a missing decoder, becomes the function's error. The bytes that are stored are what the lexer and
the result read (DecodedInput::update_bytes stores its argument on every path).
The magic comment reader is evaluated on an arbitrary comment: an encoding comment at the top that was recognised has set the
encoding before it is recorded, and every failure has emitted an error and is returned. For every lexer state, a comment whose
encoding failed ends the input. comment_at_top holds exactly on the first line (the second after a shebang) before any token.
"""
from .. import lex, models
from ..interp import Interp, Hooks as IHooks, State, UNIT, TRUE, FALSE
from ..mir import callee
from . import c15, c20
from .c16 import YYLEX

BUF = 'source::buffer::Buffer'
DEC = 'source::decoded_input::DecodedInput'
RES = 'source::decoder::DecoderResult'
PLAIN = {'UTF-8', 'ASCII-8BIT', 'BINARY'}
SAME = ('ToString::to_string', 'ToString>::to_string', 'ToOwned>::to_owned', 'Borrow<T>>::borrow', 'From<&str>>::from', 'AsRef<str>>::as_ref', 'Into<U>>::into', 'String::as_str', 'Deref>::deref', 'Clone>::clone', 'str::<impl str>::trim')
ENC = ('s', ('the encoding',))
BYTES = ('s', ('the bytes',))
OUT = ('s', ('decoder output',))
WHY = ('s', ('decoder error',))


def val(I, st, v):
    for _ in range(3):
        if v[0] == '&':
            v = I.read(st, v[1], v[2])
    return v


class Hooks(IHooks):
    def __init__(self, P):
        self.P = P
        self.unknown = []
        self.bad = {}

    def on_panic(self, *a):
        pass

    def case(self, st, lit, how):
        lit = lit.upper()
        if lit not in PLAIN:
            self.bad.setdefault('extra ' + lit, 'the encoding %s is treated specially' % lit)
        fact = st.fl.get('is')
        if fact is not None:
            return [(TRUE if fact == lit else FALSE, st)]
        no = st.fl.get('not', frozenset())
        if lit in no:
            return [(FALSE, st)]
        a, b = st.copy(), st.copy()
        a.fl['is'] = lit
        b.fl['not'] = no | {lit}
        if how == 'exact':
            # only this capitalisation: the others are still to come
            b.fl['not'] = no
            b.fl['exact'] = lit
        a._k = b._k = None
        return [(TRUE, a), (FALSE, b)]

    def on_call(self, I, name, ci, args, st, fr, site):
        m = name.split('::')[-1]
        if m in ('to_uppercase', 'to_ascii_uppercase', 'to_lowercase', 'to_ascii_lowercase') and 'char' not in name:
            v = val(I, st, args[0])
            if v == ENC:
                return [(('op', 'folded', 'u' if 'upper' in m else 'l'), st)]
        if m == 'eq_ignore_ascii_case':
            a, b = val(I, st, args[0]), val(I, st, args[1])
            for x, y in ((a, b), (b, a)):
                if x in (ENC, ('op', 'folded', 'u'), ('op', 'folded', 'l')) and y[0] == 'str':
                    return self.case(st, y[1], 'fold')
        if m in ('eq', 'ne') and 'PartialEq' in name and len(args) == 2:
            a, b = val(I, st, args[0]), val(I, st, args[1])
            for x, y in ((a, b), (b, a)):
                if y[0] == 'str' and (x == ENC or x[:2] == ('op', 'folded')):
                    if x == ENC:
                        r = self.case(st, y[1], 'exact')
                    elif y[1] != (y[1].upper() if x[2] == 'u' else y[1].lower()):
                        r = [(FALSE, st)]
                    else:
                        r = self.case(st, y[1], 'fold')
                    return r if m == 'eq' else [(FALSE if v == TRUE else TRUE, s) for v, s in r]
        if any(name.endswith(t) for t in SAME):
            v = args[0]
            x = val(I, st, v)
            if x in (ENC, BYTES) or x[:2] == ('op', 'folded'):
                if name.endswith('trim'):
                    return None
                return [(v if m in ('deref', 'as_str', 'as_ref', 'borrow') else x, st)]
        if name == 'source::decoder::Decoder::call':
            if val(I, st, args[1]) != ENC:
                self.bad['enc'] = 'the decoder is not given the name of the encoding as it was declared'
            if val(I, st, args[2]) != BYTES:
                self.bad['bytes'] = 'the decoder is not given the text as it was read'
            a, b = st.copy(), st.copy()
            a.fl['dec'] = 'ok'
            b.fl['dec'] = 'err'
            a._k = b._k = None
            return [(('a', RES, 0, (OUT,)), a), (('a', RES, 1, (WHY,)), b)]
        if name == DEC + '::update_bytes':
            st = st.copy()
            I.write(st, args[0][1], args[0][2] + (self.iBytes,), args[1])
            return [(UNIT, st)]
        if name not in models.M and name not in self.P.fns and not name.endswith('drop'):
            # a question about the name that is not understood leaves the case undecided
            for a in args:
                v = val(I, st, a)
                if v == ENC or v[:2] == ('op', 'folded') or v[0] == 'clo' and any(val(I, st, x) == ENC for x in v[2] if isinstance(x, tuple)):
                    self.unknown.append(name)
        return None


def stores(P, rep):
    """update_bytes moves its argument into .bytes on every path"""
    f = P.fns.get(DEC + '::update_bytes')
    if not rep.anchor('DecodedInput::update_bytes', f):
        return
    src = {2}
    for _ in range(4):
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] in 'mc' and s[2][1][1] and s[2][1][1][0] in src and len(s[2][1][1]) == 1:
                    src.add(s[1][0])
    good = set()
    for i, b in enumerate(f.blocks):
        for s in b['s']:
            if s[0] == '=' and isinstance(s[1][-1], (list, tuple)) and s[1][-1][0] == 'f' and s[1][-1][2] == 'bytes' and s[2][0] == 'use' and s[2][1][0] in 'mc' and s[2][1][1][0] in src:
                good.add(i)
    from ..mir import succs
    seen, todo, miss = set(), [0], None
    while todo:
        i = todo.pop()
        if i in seen or i in good:
            continue
        seen.add(i)
        t = f.blocks[i]['t']
        if t[0] == 'return':
            miss = i
        todo.extend(succs(t))
    rep.check(good and miss is None, 'update_bytes stores', 'DecodedInput::update_bytes does not store the bytes it is given on every path', where=f.span)


def decoding(P, rep):
    f = P.fns.get(BUF + '::set_encoding')
    if not rep.anchor('Buffer::set_encoding', f):
        return
    ip = c15.path(P, BUF, ('input',))
    bp = ip + c15.path(P, P.adts[BUF]['variants'][0][1][ip[0]][1], ('decoded',))
    full = bp + c15.path(P, DEC, ('bytes',))
    kp = ip + c15.path(P, 'source::input::Input', ('decoder',))
    n = 0
    for have in (False, True):
        h = Hooks(P)
        h.iBytes = full[-1]
        I = Interp(P, models.M, h)
        st = State({}, {}, {})
        cell = ('H', ('buffer',))
        st.mem[cell] = ('s', ('buffer',))
        st.mem[('H', ('encname',))] = ENC
        I.write(st, cell, full, BYTES)
        I.write(st, cell, kp, models.some(('s', ('decoder',))) if have else models.NONE)
        for v, s in I.run(f, [('&', cell, ()), ('&', ('H', ('encname',)), ())], st):
            n += 1
            stored = I.read(s, cell, full)
            isok = v[0] == 'a' and v[2] == 0
            iserr = v[0] == 'a' and v[2] == 1
            lit, dec = s.fl.get('is'), s.fl.get('dec')
            who = '%s, decoder %s' % (lit or 'another encoding', dec or ('unused' if have else 'missing'))
            if not (isok or iserr):
                rep.check(bool(h.unknown), who + '/shape', 'set_encoding(%s) gives neither success nor an error' % who, where=f.span)
                continue
            if lit in PLAIN:
                rep.check(isok and stored == BYTES and dec is None or bool(h.unknown) and isok, who, 'a text in %s is not used as it is' % lit, where=f.span)
            elif dec == 'ok':
                rep.check(isok and stored == OUT, who, 'what the decoder returned is not what is parsed and handed back', where=f.span)
            elif dec == 'err':
                rep.check(iserr, who, 'the failure of the decoder is not reported', where=f.span)
            else:
                rep.check(iserr or bool(h.unknown), who, 'a text in an encoding that was not decoded is accepted (decoder %s)' % ('present' if have else 'missing'), where=f.span)
            if 'exact' in s.fl and lit is None:
                rep.check(False, 'case of ' + s.fl['exact'], 'the name %s is recognised in one capitalisation only' % s.fl['exact'], where=f.span)
        for k, x in sorted(h.bad.items()):
            rep.check(False, k, x, where=f.span)
    rep.floor('ways through set_encoding', n, 4)


class Plumbing(c15.New):
    def on_call(self, I, name, ci, args, st, fr, site):
        f = self.P.fns.get(name)
        if name == DEC + '::update_bytes':
            st = st.copy()
            I.write(st, args[0][1], args[0][2] + (self.iBytes,), args[1])
            return [(UNIT, st)]
        if f is not None and name.startswith('source::') and ('Buffer' in name or 'Input' in name):
            if f.locals[0] == '()' and f.argc == 1:
                return [(UNIT, st)]     # positions only
            return None
        if name.endswith(('Into<U>>::into', 'Into::into', 'From<T>>::from', 'ToString>::to_string', 'ToOwned>::to_owned')):
            return [(val(I, st, args[0]), st)]
        return c15.New.on_call(self, I, name, ci, args, st, fr, site)


def plumbing(P, rep):
    # the decoder and the bytes given to Parser::new are the ones the lexer's buffer has
    f = P.fns.get(c15.PARSER + '::new')
    if not rep.anchor('Parser::new', f):
        return
    h = Plumbing(P)
    h.iBytes = c15.path(P, DEC, ('bytes',))[-1]
    I = Interp(P, models.M, h)
    opt = [n for n, _ in P.adts['parser_options::ParserOptions']['variants'][0][1]].index('decoder')
    n = 0
    for v, st in I.run(f, [BYTES, ('s', ('options',))], State({}, {}, {})):
        for what, names, want in (('decoder', ('yylexer', 'buffer', 'input', 'decoder'), ('s', ('options', opt))), ('bytes', ('yylexer', 'buffer', 'input', 'decoded', 'bytes'), BYTES)):
            x = v
            for i in c15.path(P, c15.PARSER, names):
                if x is not None and x[0] == 'B':
                    x = I.read(st, x[1], ()) if isinstance(x[1], tuple) and x[1][:1] == ('H',) else x[1]
                x = x[3][i] if x is not None and x[0] == 'a' else None
            if x is None:
                continue
            n += 1
            rep.check(x == want, 'given ' + what, 'Parser::new does not read the %s it is given' % what, where=f.span)
    rep.floor('what is handed to the buffer', n, 2)


class Top(IHooks):
    def on_panic(self, *a):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        m = name.split('::')[-1]
        if m == 'char_at' and args[1][0] == 'i':
            return [(('op', 'char', args[1][1]), st)]
        if m in ('is_space', 'is_ascii_whitespace'):
            v = val(I, st, args[0])
            if v[:2] == ('op', 'char'):
                k = v[2]
                if k >= len(self.text):
                    self.over = True
                    return [(FALSE, st)]
                return [(('i', int(self.text[k])), st)]
        return None


def top(P, rep):
    name = next((n for n in P.fns if n.endswith('::comment_at_top') and n.startswith('lexer::')), None)
    if not rep.anchor('Lexer::comment_at_top', name):
        return
    f = P.fns[name]
    L = lex.LEXER
    path = lambda x: c15.path(P, L, ('buffer', x))
    n = 0
    for sheb in (0, 1):
        for line in range(0, 4):
            for text in ((), (1,), (0,), (1, 1), (1, 0), (0, 1)):
                h = Top()
                h.text = text
                I = Interp(P, models.M, h)
                st = State({}, {}, {})
                cell = ('H', ('lexer',))
                st.mem[cell] = ('s', ('lexer',))
                for k, v in (('pbeg', 0), ('pcur', len(text) + 1), ('line_count', line), ('has_shebang', sheb)):
                    I.write(st, cell, path(k), ('i', v))
                want = line == 1 + sheb and all(text)
                for v, s in I.run(f, [('&', cell, ())], st):
                    n += 1
                    if v[0] == 'i':
                        rep.check(bool(v[1]) == want, 'top/%d/%d/%s' % (sheb, line, text), 'a comment on line %d%s, after %s, is %s taken as one at the top of the file' % (line, ' of a file with a shebang' if sheb else '', ['a token' if not x else 'a space' for x in text] or 'nothing', 'not' if want else 'wrongly'), where=f.span)
    rep.floor('positions of comments', n, 40)


def stops(P, rep):
    R = c15.Run(P)
    n = 0
    for st in c20.ENTRY:
        for cmd in (False, True):
            got = R.go(st, cmd, '#x', False)
            bad = [o for o in got if o[3] and o[0] != 'END_OF_INPUT']
            n += any(o[3] for o in got)
            rep.check(not bad, 'stops/%s/%s' % (c20.sn(st), cmd), 'in state %s reading goes on after a comment whose encoding could not be used' % c20.sn(st), where=P.fns[YYLEX].span)
    rep.floor('states in which an encoding can fail', n, 10)


def check(ctx, rep):
    P = ctx.prog
    rep.rule = __doc__
    rep.trusted = ['std models (models.py, strings and comparisons in c14.py)', "the caller's decoder is the function given in the options"]
    for x in (BUF, DEC, RES, 'source::input::Input'):
        if not rep.anchor(x, P.adts.get(x)):
            return
    decoding(P, rep)
    stores(P, rep)
    plumbing(P, rep)
    top(P, rep)
    stops(P, rep)
    r = c15.magic(P, rep)
    if r is not None:
        g, n, f = r
        for k in ('decode coding', 'decode encoding', 'decode error', 'silent', 'kind coding', 'kind encoding'):
            x = g.bad.get(k)
            rep.check(x is None, k, x or '', where=f.span)
        rep.floor('ways through magic_comment', n, 3)
