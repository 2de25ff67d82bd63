"""C25: byte offsets translate to the right line, column and text.

The functions that split a text into lines and look positions up (DecodedInput::update_bytes, line_col_for_pos, the range
functions of LocExt, SourceLine, Diagnostic::render) are evaluated over their MIR for every layout of line ends in a text of up
to six bytes - the other bytes are unknown - and every position or range. Lines must partition the text, each ended by its line
end; a position is (number of line ends before it, distance from the last of them); a range's text is those bytes; a position
behind the text has none of these. A rendered diagnostic names the input, line and column, repeats the line and marks the range.
"""
import itertools
from .. import models
from ..interp import State, FALSE, TRUE, UNIT
from ..models import NONE, some
from .c23 import Hooks as Base, Eval, Limit, LOC, BYTES, raw, vec, val

DI = 'source::decoded_input::DecodedInput'
SL = 'source::source_line::SourceLine'
DIAG = 'error::diagnostic::Diagnostic'
IN = ('H', ('input',))
AT = ('H', ('at',))
EXT = '<lib_ruby_parser_ast::Loc as loc_ext::LocExt>::'


class Hooks(Base):
    def equal(self, I, st, x, y):
        x, y = val(I, st, x), val(I, st, y)
        if x[0] == y[0] == 'a' and x[1] == y[1] == models.OPT:
            return x[2] == y[2] and (not x[3] or self.equal(I, st, x[3][0], y[3][0]))
        if x[0] == y[0] == 'i':
            return x[1] == y[1]
        for a, b in ((x, y), (y, x)):
            if a[0] == 's' and b[0] == 'i' and b[1] in st.asm.get(('not', a), ()):
                return False

    def on_call(self, I, name, ci, args, st, fr, site):
        m = name.rsplit('::', 1)[-1]
        if m == 'render' and 'DiagnosticMessage' in name:
            return [(('str', 'M'), st)]
        if m == 'size' and name.startswith('lib_ruby_parser_ast::Loc') or m == 'to_string' and args:
            v = val(I, st, args[0])
            if m == 'size' and v[0] == 'a' and v[3][0][0] == v[3][1][0] == 'i':
                return [(('i', v[3][1][1] - v[3][0][1]), st)]
            if m == 'to_string' and v[0] == 'a' and v[1] == 'error::level::ErrorLevel':
                f = [n for n in self.P.fns if n.startswith('<error::level::ErrorLevel as') and n.endswith(('ToString>::to_string',))]
                if not f:
                    return [(('str', self.P.adts[v[1]]['variants'][v[2]][0].lower()), st)]
        if m == 'repeat' and len(args) == 2 and args[1][0] == 'i':
            b = raw(val(I, st, args[0]))
            if b is not None and 0 <= args[1][1] < 100:
                return [(('str', b.decode() * args[1][1]), st)]
        if m in ('index', 'get') and len(args) == 2 and args[1][0] == 'a' and 'Range' in args[1][1]:
            v = val(I, st, args[0])
            q = args[1][3]
            if v[0] == 'v' and v[1] is None and all(x[0] == 'i' for x in q):
                k = args[1][1].rsplit('::', 1)[-1]
                b, e = {'Range': lambda: (q[0][1], q[1][1]), 'RangeFrom': lambda: (q[0][1], len(v[2])), 'RangeTo': lambda: (0, q[0][1])}.get(k, lambda: (None, None))()
                if b is not None:
                    good = b <= e <= len(v[2])
                    st = st.copy()
                    c = ('H', ('slice', args[0][1:], b, e))
                    st.mem[c] = ('v', None, v[2][b:e])
                    if m == 'get':
                        return [(some(('&', c, ())) if good else NONE, st)]
                    return [(('&', c, ()), st)] if good else []
        if m in ('min', 'max', 'saturating_sub', 'checked_sub', 'wrapping_sub') and len(args) == 2 and args[0][0] == args[1][0] == 'i':
            a, b = args[0][1], args[1][1]
            if m == 'checked_sub':
                return [(some(('i', a - b)) if a >= b else NONE, st)]
            if m != 'wrapping_sub' or a >= b:
                return [(('i', {'min': min, 'max': max}.get(m, lambda a, b: max(a - b, 0))(a, b)), st)]
        if m in ('eq', 'ne') and len(args) == 2 and 'Option' in name + str(ci):
            r = self.equal(I, st, *args)
            if r is not None:
                return [(TRUE if r == (m == 'eq') else FALSE, st)]
        if m in ('trim', 'trim_end', 'trim_start') and args:
            b = raw(val(I, st, args[0]))
            if b is not None:
                c = ('H', ('trimmed', b, m))
                st = st.copy()
                t = b.decode('latin1')
                st.mem[c] = ('str', t.strip() if m == 'trim' else t.rstrip() if m == 'trim_end' else t.lstrip())
                return [(('&', c, ()), st)]
        if m == 'from_utf8_lossy' and args:
            v = val(I, st, args[0])
            b = raw(v)
            return [(('a', 'lossy', 0, (v,)) if b is None else ('str', b.decode('latin1')), st)]
        if m in ('into_owned', 'to_string', 'into', 'to_owned') and args and (val(I, st, args[0])[:2] == ('a', 'lossy') or m == 'into_owned' and val(I, st, args[0])[0] == 'str'):
            return [(val(I, st, args[0]), st)]
        return Base.on_call(self, I, name, ci, args, st, fr, site)


class Runner:
    def __init__(self, P):
        self.P = P
        self.h = Hooks(P, b'')
        self.I = Eval(P, models.M, self.h)
        self.cache = {}
        self.lost = {}

    def run(self, name, args, st):
        if name not in self.P.fns or self.lost.get(name, 0) >= 3:       # beyond the models: not asked again
            return None
        try:
            r = list(self.I.run(self.P.fns[name], args, st))
        except Limit:
            self.lost[name] = self.lost.get(name, 0) + 1
            return None
        if not r or any(s.fl.get('mut') or s.fl.get('opq') for _, s in r):
            return None
        return r

    def text(self, layout, known=False):
        """states after the text was split into lines"""
        if (layout, known) not in self.cache:
            st = State({}, {}, {})
            st.mem[IN] = ('a', DI, 0, tuple(('str', 'N') if n == 'name' else ('v', None, ()) for n, _ in self.P.adts[DI]['variants'][0][1]))
            xs = []
            for i, c in enumerate(layout):
                if c == 10 or known:
                    xs.append(('i', c))
                else:
                    v = ('s', ('lexer', 'byte', i))
                    st.asm[('not', v)] = frozenset({10})
                    xs.append(v)
            self.items = tuple(xs)
            r = self.run(DI + '::update_bytes', [('&', IN, ()), ('v', None, tuple(xs))], st)
            self.cache[layout, known] = (None if r is None else [s for _, s in r], tuple(xs))
        return self.cache[layout, known]

    def field(self, v, ty, name):
        return v[3][[n for n, _ in self.P.adts[ty]['variants'][0][1]].index(name)]

    def lines(self, layout):
        sts, xs = self.text(layout)
        out = []
        for s in sts or ():
            d = self.I.read(s, IN, ())
            ls = self.field(d, DI, 'lines')
            if ls[0] != 'v' or ls[1] is not None:
                return None
            o = []
            for l in ls[2]:
                f = {n: self.field(l, SL, n) for n in ('start', 'end', 'ends_with_eof')}
                if any(x[0] != 'i' for x in f.values()):
                    return None
                o.append((f['start'][1], f['end'][1], bool(f['ends_with_eof'][1])))
            b = self.field(d, DI, 'bytes')
            out.append((tuple(o), b[0] == 'v' and b[1] is None and b[2] == xs))
        return out or None

    def position(self, layout, pos):
        return self.ask(layout, DI + '::line_col_for_pos', ('i', pos), pair)

    def ask(self, layout, fn, arg, conv):
        sts, xs = self.text(layout)
        out = []
        for s in sts or ():
            s = s.copy()
            a = arg
            if arg[0] != 'i':
                s.mem[AT] = arg
                a = ('&', AT, ())
            r = self.run(fn, [('&', IN, ()), a] if arg[0] == 'i' else [a, ('&', IN, ())], s)
            if r is None:
                return None
            for v, s2 in r:
                x = conv(self, s2, v, xs)
                if x == '?':
                    return None
                out.append(x)
        return out or None

    def render(self, layout, b, e):
        sts, xs = self.text(layout, True)
        P = self.P
        f = {'level': ('a', 'error::level::ErrorLevel', [n for n, _ in P.adts['error::level::ErrorLevel']['variants']].index('Warning'), ()),
             'message': ('s', ('lexer', 'message')), 'loc': loc(b, e)}
        out = []
        for s in sts or ():
            s = s.copy()
            s.mem[AT] = ('a', DIAG, 0, tuple(f[n] for n, _ in P.adts[DIAG]['variants'][0][1]))
            r = self.run(DIAG + '::render', [('&', AT, ()), ('&', IN, ())], s)
            if r is None:
                return None
            for v, s2 in r:
                if v == NONE:
                    out.append(None)
                    continue
                t = raw(val(self.I, s2, v[3][0])) if v[0] == 'a' else None
                if t is None:
                    return None
                out.append(t.decode('latin1'))
        return out or None


def loc(b, e):
    return ('a', LOC, 0, (('i', b), ('i', e)))


def opt(R, st, v):
    if v == NONE:
        return None
    if v[0] == 'a' and v[1] == models.OPT:
        return v[3][0]
    return '?'


def pair(R, st, v, xs):
    v = opt(R, st, v)
    if v is None or v == '?':
        return v
    return tuple(x[1] for x in v[1]) if v[0] == 't' and all(x[0] == 'i' for x in v[1]) else '?'


def lined(R, st, v, xs):
    v = opt(R, st, v)
    if v is None or v == '?':
        return v
    if v[0] != 't' or v[1][0][0] != 'i' or v[1][1][0] != 'a' or any(x[0] != 'i' for x in v[1][1][3]):
        return '?'
    return (v[1][0][1],) + tuple(x[1] for x in v[1][1][3])


def text(R, st, v, xs):
    v = opt(R, st, v)
    if v is None or v == '?':
        return v
    v = val(R.I, st, v)
    if v[:2] == ('a', 'lossy'):
        w = v[3][0]
        return w[2] if w[0] == 'v' and w[1] is None else '?'
    b = raw(v)
    return '?' if b is None else tuple(('i', x) for x in b)


# ------------------------------------------------------------------ expected
def e_lines(t):
    out, i = [], 0
    for n, c in enumerate(t):
        if c == 10:
            out.append((i, n + 1, False))
            i = n + 1
    return tuple(out + [(i, len(t), True)])


def e_position(t, p):
    if p > len(t):
        return None
    b = t[:p]
    return b.count(10), p - (b.rindex(10) + 1 if 10 in b else 0)


def e_line(t, b):
    p = e_position(t, b)
    if p is None:
        return None
    l = e_lines(t)[p[0]]
    return p[0], l[0], l[1] - (0 if l[2] else 1)


def e_render(t, b, e):
    l = e_line(t, b)
    if l is None:
        return None
    c = e_position(t, b)[1]
    p = 'N:%d' % (l[0] + 1)
    return ('%s:%d: warning: M\n%s: %s\n%s: %s^%s' % (p, c, p, t[l[1]:l[2]].decode(), p, ' ' * c, '~' * (e - b - 1))).strip()


def check(ctx, rep):
    R = Runner(ctx.prog)
    n = dict(layouts=0, positions=0, ranges=0, rendered=0)
    und = {k: 0 for k in n}

    def put(kind, got, want, fn, what):
        if got is None:
            und[kind] += 1
            return
        n[kind] += 1
        rep.check(all(x == want for x in got), '%s:%s' % (fn, what), '%s: %s gives %r, it is %r' % (fn, what, [x for x in got if x != want][:1], want))
    for k in range(0, 7):
        for x in itertools.product(b'a\n', repeat=k):
            t = bytes(x)
            what = repr(t.decode())
            put('layouts', R.lines(t), (e_lines(t), True), 'DecodedInput::update_bytes', 'the lines of a text laid out as ' + what)
            for p in range(k + 2):
                w = 'offset %d of a text laid out as %s' % (p, what)
                put('positions', R.position(t, p), e_position(t, p), 'DecodedInput::line_col_for_pos', w)
                put('positions', R.ask(t, EXT + 'begin_line_col', loc(p, p), pair), e_position(t, p), 'LocExt::begin_line_col', w)
                put('ranges', R.ask(t, EXT + 'expand_to_line', loc(p, p + 1), lined), e_line(t, p), 'LocExt::expand_to_line', 'the line of ' + w)
            if k <= 4:
                for b in range(k + 2):
                    for e in range(b, k + 2):
                        w = 'the range %d...%d of a text laid out as %s' % (b, e, what)
                        xs = R.text(t)[1]
                        put('ranges', R.ask(t, EXT + 'source', loc(b, e), text), tuple(xs[b:e]) if e <= k else None, 'LocExt::source', w)
                        put('rendered', R.render(t, b, e), e_render(t, b, e), 'Diagnostic::render', w)
    rep.rule = __doc__
    rep.trusted = ['rustc MIR', 'vf/interp.py and its models', 'Loc and DiagnosticMessage of lib-ruby-parser-ast', 'texts of more than six bytes behave like those of up to six']
    for k in n:
        rep.floor(k, n[k], 0)
        rep.floor(k + ' undecided', und[k], 0)
    total = sum(n.values())
    rep.floor('questions', total + sum(und.values()), 3500)
