"""C26: names, variables and percent literals are read whole and get the kind their spelling has.

parse_ident, parse_gvar, parse_atmark and parse_percent are evaluated over their MIR with the spelling known, for each lexer state
and command position that matters, and the rest of the parser unknown. On every path the token, its text, the byte it ends at,
whether an error is reported, the state that follows and, for percent literals, the delimiters and the kind of content must be
those Ruby's lexer has for the spelling. A path that depends on a function without a model decides nothing.
"""
import os, time
from multiprocessing import get_context
from .. import models, lex
from ..interp import FALSE, TRUE, UNIT
from ..models import NONE, some
from . import c23
from .c23 import BASE, CELL, BUF, MB, raw, val, n_, EXP, QW, LIST, REG, ESC, SYM

BEG, END, ENDARG, ENDFN, ARG, CMDARG, MID, FNAME, DOT, CLASS, LABEL, LABELED, FITEM = (1 << i for i in range(13))
LS = 'lex_state::LexState'
STATES = (BEG, BEG | LABEL, END, END | LABEL, ENDARG, ENDFN, ARG, CMDARG, MID, FNAME, FNAME | FITEM, DOT, CLASS, ARG | LABELED, ENDFN | LABEL)


class Hooks(c23.Hooks):
    def on_call(self, I, name, ci, args, st, fr, site):
        if name.startswith('source::input::') and name.endswith('byte_at') and len(args) > 1 and args[1][0] == 'i':
            b = self.byte(args[1][1] - BASE)
            if b is not None:
                return [(('i', b) if 'unchecked' in name else some(('i', b)), st)]
        m = name.rsplit('::', 1)[-1]
        if m == 'reserved_word':
            return [(NONE, st)]             # the spellings asked about are not reserved
        if m == 'is_lvar_defined':
            return [(('s', ('lexer', 'lvar')), st)]
        if m in ('from_utf8', 'chars', 'to_string') and args:
            b = raw(val(I, st, args[0]))
            if b is not None:
                try:
                    t = b.decode()
                except UnicodeDecodeError:
                    return [(('a', models.RES, 1, (I.fresh(st, site),)), st)]
                return [(models.ok(('str', t)) if m[0] == 'f' else models.mkiter(('i', ord(x)) for x in t) if m[0] == 'c' else ('str', t), st)]
        if m == 'next' and 'Chars' in name and args and args[0][0] == '&':
            it = val(I, st, args[0])
            if it[0] == 'a' and it[1] == models.ITER and it[3][0][1] is None:
                xs = it[3][0][2]
                if not xs:
                    return [(NONE, st)]
                st = st.copy()
                I.write(st, args[0][1], args[0][2], models.mkiter(xs[1:]))
                return [(some(xs[0]), st)]
        if m in ('is_uppercase', 'is_lowercase') and args:
            v = val(I, st, args[0])
            if v[0] == 'i':
                return [(('i', int(getattr(chr(v[1]), 'isupper' if m == 'is_uppercase' else 'islower')())), st)]
        return c23.Hooks.on_call(self, I, name, ci, args, st, fr, site)


class Runner(c23.Runner):
    def __init__(self, P):
        c23.Runner.__init__(self, P)
        self.f = {}
        for k in ('parse_ident', 'parse_gvar', 'parse_atmark', 'parse_percent'):
            self.f[k] = next((n for n in P.fns if n.startswith('lexer::') and n.endswith('::' + k) and P.fns[n].kind == 'fn'), None)

    def ask(self, kind, text, state, cmd):
        h, I, st = self.start(text)
        h.__class__ = Hooks
        b = h.fields['buffer']
        I.write(st, CELL, h.pcur, ('i', BASE + 1))
        I.write(st, CELL, (h.fields['lex_state'],), ('a', LS, 0, (('i', state),)))
        I.write(st, CELL, (h.fields['lval'],), NONE)
        I.write(st, CELL, (h.fields['strterm'],), NONE)
        last = ('a', LS, 0, (('i', state),))
        c = TRUE if cmd else FALSE
        args = {'ident': [('a', MB, 0, (('i', text[0]),)), c], 'gvar': [last], 'atmark': [last], 'percent': [c, last]}[kind]
        r = self.run(I, 'parse_' + kind, [('&', CELL, ())] + args, st)
        if r is None:
            return None
        out = []
        for v, s in r:
            at = h.at(I, s)
            lv = I.read(s, CELL, (h.fields['lval'],))
            x = '?'
            if lv == NONE:
                x = text[:at] if at is not None else '?'
            elif lv[0] == 'a' and lv[2] == 1:
                x = n_(raw(val(I, s, lv[3][0])))
            ls = I.read(s, CELL, (h.fields['lex_state'],))
            ls = ls[3][0][1] if ls[0] == 'a' and ls[3][0][0] == 'i' else '?'
            err = bool(s.fl.get('err'))
            tok = self.names.get(v[1], '?') if v[0] == 'i' else '?'
            if err:
                tok = x = at = ls = None
            o = (tok, x, n_(at) if not err else None, err, ls)
            if kind == 'percent':
                o = (tok, n_(at) if not err else None, err, ls, self.term(I, s, h) if not err else None)
            out.append((o, not s.fl.get('opq')))
        return out

    def term(self, I, s, h):
        t = I.read(s, CELL, (h.fields['strterm'],))
        if t == NONE:
            return None
        t = val(I, s, t[3][0]) if t[0] == 'a' else t
        t = t[1] if t[0] == 'B' else t
        if t[0] != 'a' or t[1] != 'str_term::StrTerm' or t[3][0][0] != 'a':
            return '?'
        t = t[3][0]
        names = [n for n, _ in self.P.adts[t[1]]['variants'][0][1]]
        f = dict(zip(names, t[3]))
        p = f['paren']
        if f['func'][0] != 'i' or f['term'][0] != 'i' or p[0] != 'a':
            return '?'
        return f['func'][1], f['term'][1], p[3][0][1] if p != NONE else 0


# ------------------------------------------------------------------ Ruby's names
def ident(b):
    return chr(b).isalnum() and b < 128 or b == 95 or b >= 128


def run_of(t, i):
    j = i
    while j < len(t) and ident(t[j]):
        j += 1
    return j


BAD = (None, None, None, True, None)
SPECIAL = b'~*$?!@/\\;,.=:<>"'


def e_gvar(t, state):
    c, fname = t[1], state & FNAME
    done = lambda tok, j: (tok, t[:j], j, False, (END,))
    if c in SPECIAL:
        return done('tGVAR', 2)
    if c in b"&`'+":
        return done('tGVAR' if fname else 'tBACK_REF', 2)
    if c in b'123456789':
        j = 2
        while t[j] in b'0123456789':
            j += 1
        return done('tGVAR' if fname else 'tNTH_REF', j)
    if c == 45:
        if not ident(t[2]):
            return None
        j = 3
        while t[2] >= 128 and 128 <= t[j] < 192:
            j += 1
        return done('tGVAR', j)
    return done('tGVAR', run_of(t, 1)) if ident(c) else BAD


def e_atmark(t, state):
    i = 2 if t[1] == 64 else 1
    if not ident(t[i]) or t[i] in b'0123456789':
        return BAD
    j = run_of(t, i)
    return ('tCVAR' if i == 2 else 'tIVAR', t[:j], j, False, (ENDFN if state & FNAME else END,))


def e_ident(t, state, cmd):
    j = run_of(t, 0)
    up = t[:j].decode()[0].isupper()
    tok = 'tCONSTANT' if up else 'tIDENTIFIER'
    if t[j] in b'!?' and t[j + 1] != 61:
        tok = 'tFID'
        j += 1
    elif t[j] == 61 and state & FNAME and t[j + 1] not in b'~>' and (t[j + 1] != 61 or t[j + 2] == 62):
        tok = 'tIDENTIFIER'
        j += 1
    v = t[:j]
    if ((state & (LABEL | ENDFN) and not cmd) or state & (ARG | CMDARG)) and t[j] == 58 and t[j + 1] != 58:
        return ('tLABEL', v, j + 1, False, (ARG | LABELED,))
    if state & (BEG | MID | CLASS | ARG | CMDARG | DOT):
        to = (CMDARG if cmd else ARG,)
    else:
        to = (ENDFN if state == FNAME else END,)
    if not state & (DOT | FNAME) and tok == 'tIDENTIFIER':
        to += (END | LABEL,)            # a local variable
    return (tok, v, j, False, to)


PERCENT = {'Q': ('tSTRING_BEG', EXP), 'q': ('tSTRING_BEG', 0), 'W': ('tWORDS_BEG', QW | EXP | LIST), 'w': ('tQWORDS_BEG', QW | LIST),
           'I': ('tSYMBOLS_BEG', QW | EXP | LIST), 'i': ('tQSYMBOLS_BEG', QW | LIST), 'x': ('tXSTRING_BEG', EXP), 'r': ('tREGEXP_BEG', REG | ESC | EXP), 's': ('tSYMBEG', SYM)}
PAIR = {40: 41, 91: 93, 123: 125, 60: 62}


def e_percent(t, state):
    bad = (None, None, True, None, None)
    c, i = chr(t[1]), 2
    if t[1] >= 128:
        return bad
    if not c.isalnum():
        c = 'Q'
    else:
        i = 3
    d = t[i - 1]
    if d >= 128:
        return None
    if chr(d).isalnum() or c not in PERCENT:
        return bad
    tok, func = PERCENT[c]
    return (tok, i, False, (FNAME | FITEM,) if c == 's' else (state,), (func, PAIR.get(d, d), d if d in PAIR else 0))


def expected(t):
    k, text, state, cmd = t
    if k == 'ident':
        return e_ident(text, state, cmd)
    return {'gvar': e_gvar, 'atmark': e_atmark, 'percent': e_percent}[k](text, state)


def tasks():
    names = [b'a', b'A', b'_', b'_1', b'x9', b'aB', b'Ab', b'foo', b'Foo_1', b'a' * 6, b'x\xc3\xa9', b'X\xc3\xa9\xe2\x82\xacz', b'\xc3\x89a', b'\xc3\xa9', b'\xe3\x81\x82']
    ends = [b'', b'!', b'?', b'=', b'!=', b'?=', b'==', b'=~', b'=>', b'==>', b':', b'::', b'?:', b'?::', b'!:', b'!::', b'=:', b'!!', b'??', b'(', b'.', b'[', b';', b'-', b'\n', b'@', b'$', b'?!', b'=(']
    for n in names:
        for e in ends:
            for s in STATES:
                for cmd in (False, True):
                    yield ('ident', n + e + b'   ', s, cmd)
    for s in (BEG, END, ARG, FNAME, FNAME | FITEM, DOT):
        for c in range(1, 128):
            if c != 13:
                for e in (b' ', b'a', b'1', b'_', b'(', b'-', b'\xc3\xa9'):
                    yield ('gvar', b'$' + bytes([c]) + e + b'   ', s, False)
                for e in (b' ', b'A', b'1', b'_', b'@', b'?'):
                    yield ('atmark', b'@' + bytes([c]) + e + b'   ', s, False)
                    yield ('atmark', b'@@' + bytes([c]) + e + b'   ', s, False)
        for n in (b'foo', b'Foo9', b'x\xc3\xa9y', b'12', b'10a', b'123456', b'-w', b'-wx', b'_ab', b'__', b'0', b'0a'):
            yield ('gvar', b'$' + n + b'   ', s, False)
            yield ('atmark', b'@' + n + b'   ', s, False)
            yield ('atmark', b'@@' + n + b'   ', s, False)
    for s in (BEG, MID, CLASS, BEG | LABEL, ARG | LABELED):
        for c in range(1, 128):
            if c != 13:
                for d in b'([{<)|!/ -a1Z_"\'%' if chr(c).isalnum() else b'a(':
                    yield ('percent', b'%' + bytes([c, d]) + b'   ', s, False)


def judge(R, t):
    e = expected(t)
    r = R.ask(*t)
    si = 3 if t[0] == 'percent' else 4
    if not r:
        return ('undecided', t, e, None)

    def agree(o):
        return all(x == '?' or (x in y if i == si and y is not None else x == y) for i, (x, y) in enumerate(zip(o, e)))
    if all('?' in o and agree(o) for o, _ in r):
        return ('undecided', t, e, None)
    wrong = [o for o, sure in r if not agree(o) and (sure or not any(agree(p) for p, _ in r))]
    return ('bad' if wrong else 'ok', t, e, wrong[:1])


_R = None


def _work(ts):
    out, lost = [], {}
    for t in ts:
        if lost.get(t[0], 0) >= 3 or time.monotonic() > _R.deadline:
            out.append(('undecided', t, None, None))
            continue
        _R.limits = 0
        out.append(judge(_R, t))
        lost[t[0]] = lost.get(t[0], 0) + (_R.limits > 0)
    return out


def show(o):
    if o[3 if len(o) == 5 and isinstance(o[3], bool) else 2] is True:
        return 'an error'
    return ', '.join(str(x) for x in o if x is not None and x is not False)


def check(ctx, rep):
    global _R
    P = ctx.prog
    R = _R = Runner(P)
    R.deadline = time.monotonic() + 600
    rep.rule = __doc__
    rep.assumptions = ['spellings up to the lengths enumerated', 'a path that depends on a function without a model decides nothing']
    rep.trusted = ['rustc MIR', 'vf/interp.py and its models', 'the specification of names in vf/checks/c26.py']
    for k, n in R.f.items():
        rep.anchor(k, n)
    if not all(R.f.values()):
        return
    ts = [t for t in dict.fromkeys(tasks()) if expected(t) is not None]
    n = 64
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = [x for r in pool.map(_work, [ts[i::n] for i in range(n)]) for x in r]
    tot, und, bad = {}, {}, {}
    for r, t, e, w in res:
        k = t[0]
        tot[k] = tot.get(k, 0) + 1
        if r == 'undecided':
            und[k] = und.get(k, 0) + 1
        elif r == 'ok':
            rep.ok('%s %r in state %d' % (k, t[1], t[2]))
        else:
            bad.setdefault(k, []).append((t, e, w[0]))
    for k in bad:
        for t, e, w in sorted(bad[k], key=lambda x: (len(x[0][1]), str(x[0])))[:12]:
            fn = P.fns[R.f['parse_' + k]]
            what = '%r in lexer state %#x%s' % (t[1].decode('utf-8', 'replace').rstrip(), t[2], ' at the start of a command' if t[3] else '')
            rep.bad('parse_%s:%s' % (k, what), 'parse_%s: %s gives %s, Ruby gives %s' % (k, what, show(w), show(e)), getattr(fn, 'span', None))
    for k in tot:
        rep.counts[k] = tot[k]
        rep.counts[k + ' undecided'] = und.get(k, 0)
