"""C15: everything collected while parsing is handed to the caller.

Assembly: every function that returns a ParserResult is evaluated on an arbitrary parser; after the parse, each field of the
result must be exactly what the parser, its lexer and their shared list of diagnostics then hold. Parser::new gives lexer,
builder and parser the same list. Reporting appends to the list, whatever it holds, and nothing in the crate removes elements
from a list of diagnostics, comments or magic comments, or replaces one.
Recording: for every lexer state, with and without a space before it, the tokenizer is evaluated on a text that starts with a
comment, and on =begin at the start of a line, with unknown continuation: on every path a comment is appended that begins at
its first character and ends at the end of the line read last, unless an error was reported. Every name of a magic comment
that compares equal appends a magic comment of its own kind.
"""
import os
from multiprocessing import get_context
from .. import lex, models, laws
from ..interp import Interp, Hooks as IHooks, State, UNIT, TRUE, FALSE
from ..mir import callee
from . import c20
from .c16 import YYLEX

RESULT = 'parser_result::ParserResult'
PARSER = 'parser::parse::Parser'
LISTS = ('error::diagnostic::Diagnostic', 'source::comment::Comment', 'source::magic_comment::MagicComment')
SHRINK = {'clear', 'pop', 'truncate', 'retain', 'retain_mut', 'drain', 'remove', 'swap_remove', 'dedup', 'dedup_by', 'dedup_by_key', 'split_off', 'resize', 'set_len', 'extract_if', 'splice', 'pop_if'}
LOC = 'lib_ruby_parser_ast::Loc'
WHERE = {'ast': ('result',), 'tokens': ('tokens',), 'comments': ('yylexer', 'comments'), 'magic_comments': ('yylexer', 'magic_comments'), 'input': ('yylexer', 'buffer', 'input', 'decoded')}


def path(P, ty, names):
    out = ()
    for n in names:
        fs = P.adts[ty]['variants'][0][1]
        i = [f[0] for f in fs].index(n)
        out += (i,)
        ty = fs[i][1]
        if ty.startswith('std::boxed::Box<'):
            ty = ty[len('std::boxed::Box<'):-1]
    return out


class Assembly(IHooks):
    def __init__(self, P):
        self.P = P
        self.unknown = []

    def on_panic(self, *a):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        f = self.P.fns.get(name)
        if f is not None and name.startswith(PARSER + '::') and f.argc == 1 and args[0][0] == '&':
            st = st.copy()
            if name == PARSER + '::parse':
                I.write(st, args[0][1], args[0][2], ('s', ('after',)))
                st.fl['parsed'] = 1
                st._k = None
                return [(UNIT if f.locals[0] == '()' else ('s', ('parse result',)), st)]
            if not f.locals[1].startswith('&mut') and f.locals[0] == '()':
                return [(UNIT, st)]
        if name.startswith('std::') or name.startswith('core::') or name.startswith('<std'):
            if name not in models.M:
                self.unknown.append(name)
        return None


def assembly(P, rep):
    n = 0
    for name in sorted(P.fns):
        f = P.fns[name]
        if f.kind != 'fn' or f.locals[0] != RESULT or f.derived or len(f.locals) < 2 or f.locals[1] != PARSER:
            continue
        n += 1
        h = Assembly(P)
        I = Interp(P, models.M, h)
        fs = [x for x, _ in P.adts[RESULT]['variants'][0][1]]
        dl = path(P, PARSER, ('diagnostics',)) + path(P, 'error::diagnostic::Diagnostics', ('list',))
        for v, st in I.run(f, [('s', ('before',))], State({}, {}, {})):
            rep.check(st.fl.get('parsed'), name + '/parses', '%s returns a result without having parsed' % name, where=f.span)
            if v[0] != 'a' or v[1] != RESULT:
                rep.check(bool(h.unknown), name + '/result', '%s returns something else than what was collected' % name, where=f.span)
                continue
            for x, y in zip(fs, v[3]):
                if x == 'diagnostics':
                    good = y == ('s', ('after',) + dl + ('rc',)) or shared(I, st, y)
                elif x in WHERE:
                    good = y == ('s', ('after',) + path(P, PARSER, WHERE[x]))
                else:
                    continue
                rep.check(good, '%s/%s' % (name, x), '%s: the field %s of the result is not what was collected while parsing' % (name, x), where=f.span)
    rep.floor('functions that assemble a result', n, 1)


def shared(I, st, y):
    return y[0] == 's' and y[1][0] == 'after' and y[1][-1] == 'rc'


class New(IHooks):
    def __init__(self, P, what=('error::diagnostic::Diagnostics',)):
        self.P = P
        self.what = what
        self.has = set(what)
        more = True
        while more:
            more = False
            for ty, a in P.adts.items():
                if ty not in self.has and any(h in t for v in a['variants'] for _, t in v[1] for h in self.has):
                    self.has.add(ty)
                    more = True

    def on_panic(self, *a):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        ty, m = name.rpartition('::')[::2]
        if ty.startswith('<'):
            ty = ty[1:].split(' as ')[0]
        if ty in self.what:
            if m in ('new', 'default'):
                st = st.copy()
                k = 'made%d' % st.fl.get('made', 0)
                st.fl['made'] = st.fl.get('made', 0) + 1
                st._k = None
                return [(('s', (k,)), st)]
            if m == 'clone':
                return [(models.deref(I, st, args[0]), st)]
        f = self.P.fns.get(name)
        if f is not None and not any(h in t for t in f.locals[:1 + f.argc] for h in self.has):
            # cannot touch a list of diagnostics
            return [(I.fresh(st, site), st)]
        return None


def sharing(P, rep, fields=('diagnostics',)):
    """Parser::new: the parts of a parser that have a field of this name have the same object in it"""
    f = P.fns.get(PARSER + '::new')
    if not rep.anchor('Parser::new', f):
        return
    own = dict(P.adts[PARSER]['variants'][0][1])
    what = {own[x] for x in fields if x in own}
    I = Interp(P, models.M, New(P, tuple(sorted(what))))
    n = 0
    for v, st in I.run(f, [('s', ('arg', i)) for i in range(f.argc)], State({}, {}, {})):
        seen = {}
        for x in fields:
            got = {}
            for k, pre in (('parser', ()), ('lexer', ('yylexer',)), ('builder', ('builder',))):
                try:
                    p = path(P, PARSER, pre + (x,))
                except ValueError:
                    continue
                y = v
                for i in p:
                    if y is not None and y[0] == 'B':
                        y = y[1]
                    y = y[3][i] if y is not None and y[0] == 'a' else None
                if y is not None and y[0] == 's':
                    got[k] = y
            if len(got) < 2:
                continue
            n += 1
            rep.check(len(set(got.values())) == 1, 'one ' + x, 'Parser::new: %s do not use the same %s' % (' and '.join(sorted(got)), x), where=f.span)
            for y in set(got.values()):
                rep.check(seen.setdefault(y, x) == x, 'own ' + x, 'Parser::new: %s and %s are the same object' % (x, seen[y]), where=f.span)
    rep.floor('shared parts', n, len(fields))


def reporting(P, rep):
    ty = 'error::diagnostic::Diagnostics'
    f = P.fns.get(ty + '::emit')
    if not rep.anchor('Diagnostics::emit', f):
        return
    D = ('a', 'error::diagnostic::Diagnostic', 0, (('s', ('level',)), ('s', ('message',)), ('s', ('loc',))))
    b = laws.Box(P, ty)
    b.put(('a', ty, 0, (b.rc(('v', ('s', ('earlier',)), ())),)))
    cell = b.field('list')[1]
    del laws.UNKNOWN[:]
    outs = b.run('emit', D)
    n = 0
    for v, st in outs:
        n += 1
        l = st.mem[cell]
        if laws.UNKNOWN:
            continue
        rep.check(l == ('v', ('s', ('earlier',)), (D,)), 'emit appends', 'Diagnostics::emit does not append every diagnostic to the list', where=f.span)
    if laws.UNKNOWN and len(outs) > 1:
        rep.check(all(st.mem[cell] == ('v', ('s', ('earlier',)), (D,)) for v, st in outs), 'emit appends', 'Diagnostics::emit does not append every diagnostic to the list, on every path', where=f.span)
    rep.floor('ways to report', n, 1)


def keeping(P, rep):
    """nothing removes elements from, or replaces, one of the lists"""
    n = 0
    for name in sorted(P.fns):
        f = P.fns[name]
        if f.kind != 'fn' or f.derived:
            continue
        for b in f.blocks:
            if b['c']:
                continue
            ci = callee(b['t']) if b['t'][0] == 'call' else None
            if ci is None:
                continue
            fn = ci['fn']
            ts = ' '.join(ci.get('args') or ())
            m = fn.split('::')[-1]
            if any(t + ',' in ts + ',' or t + '>' in ts or ts.startswith(t) for t in LISTS):
                if fn.startswith('std::vec::Vec') or fn.startswith('std::mem::') or fn.startswith('std::cell::'):
                    n += 1
                    gone = fn.startswith('std::vec::Vec') and m in SHRINK or fn in ('std::mem::take', 'std::mem::replace', 'std::mem::swap', 'std::cell::RefCell::<T>::replace', 'std::cell::RefCell::<T>::take', 'std::cell::RefCell::<T>::swap')
                    if gone:
                        rep.check(final(P, name), '%s/%s' % (name, m), '%s takes elements out of a list of collected %s (%s)' % (name, ts, m), where=b['t'][-2] if isinstance(b['t'][-2], str) else f.span)
        # a list stored over an existing one
        for b in f.blocks:
            if b['c']:
                continue
            for s in b['s']:
                if s[0] == '=' and len(s[1]) > 1 and isinstance(s[1][-1], (list, tuple)) and s[1][-1][0] == 'f' and s[1][-1][2] in ('comments', 'magic_comments', 'diagnostics') and any(PARSER in t or lex.LEXER in t or 'Builder' in t for t in f.locals[1:1 + f.argc]):
                    n += 1
                    rep.check(False, '%s/%s=' % (name, s[1][-1][2]), '%s overwrites the collected %s' % (name, s[1][-1][2]), where=s[3] if len(s) > 3 else f.span)
    rep.floor('operations on the lists', n, 4)


def final(P, name, seen=None):
    """is the function only used where the result is assembled?"""
    seen = seen or set()
    if name in seen:
        return True
    seen.add(name)
    f = P.fns[name]
    if f.locals[0] == RESULT:
        return True
    callers = P.callers.get(name, ()) if hasattr(P, 'callers') else callers_of(P, name)
    return bool(callers) and all(final(P, c, seen) for c in callers)


def callers_of(P, name):
    out = set()
    for n, f in P.fns.items():
        for b in f.blocks:
            ci = callee(b['t']) if b['t'][0] == 'call' else None
            if ci is not None and ci['fn'] == name:
                out.add(n)
    return out


# ------------------------------------------------------------------ comments
class Ghost(c20.Ghost):
    def call(self, I, name, ci, args, st, fr, site):
        E = self.E
        m = name.split('::')[-1]
        if name.startswith(lex.BUF + '::'):
            if m == 'goto_eol':
                r = c20.Ghost.call(self, I, name, ci, args, st, fr, site) or E.buffer_call(I, m, args, st, site)
                for _, s in r:
                    s.fl['eol'] = 1
                    s._k = None
                return r
            if m in ('token_flush', 'set_ptok') and 'pos' in st.fl:
                st = st.copy()
                if m == 'token_flush':
                    st.fl['ptok'] = st.fl['pos']
                elif args[1][0] == 'i' and args[1][1] >= c20.BASE:
                    st.fl['ptok'] = args[1][1] - c20.BASE
                else:
                    st.fl.pop('ptok', None)
                st._k = None
                return [(UNIT, st)]
            if m in ('token_flush', 'set_ptok'):
                st = st.copy()
                st.fl.pop('ptok', None)
                st._k = None
                return [(UNIT, st)]
            if m == 'was_bol' and st.fl.get('pos') is not None and self.bol:
                return [(TRUE, st)]
            if m == 'is_word_match' and self.bol:
                w = args[1]
                if w[0] == '&':
                    w = I.read(st, w[1], w[2])
                if w[0] == 'str' and w[1] in ('begin', b'begin') and 'pos' in st.fl:
                    return [(TRUE, st)]
        if name in (lex.BUF + '::nextc', lex.LEXER + '::nextc'):
            if st.fl.get('com'):
                # recorded: what follows is another token
                self.done.add((st.fl['com'], st.fl.get('com0')))
                return []
            st = st.copy()
            st.fl.pop('eol', None)
            st._k = None
            r = c20.Ghost.call(self, I, name, ci, args, st, fr, site)
            return r if r is not None else E.nextc(I, st, site)
        if name == 'std::vec::Vec::<T, A>::push' and args[0][:2] == ('&', lex.LX) and args[0][2] == (E.fields.get('comments'),):
            st = st.copy()
            st.fl['com'] = min(2, st.fl.get('com', 0) + 1)
            if 'com0' not in st.fl:
                st.fl['com0'] = st.fl.get('last')
            st._k = None
            return [(UNIT, st)]
        if name in (LOC + '::with_end', LOC + '::with_begin', LOC + '::resize'):
            l = models.deref(I, st, args[0])
            if l[0] == 'a':
                if m == 'resize':
                    e = ('i', l[3][0][1] + args[1][1]) if l[3][0][0] == 'i' and args[1][0] == 'i' else ('op', 'ar')
                    return [(l[:3] + ((l[3][0], e),), st)]
                return [(l[:3] + (((l[3][0], args[1]) if m == 'with_end' else (args[1], l[3][1])),), st)]
        if name == 'source::comment::Comment::new':
            st = st.copy()
            l = args[0]
            l = l[3] if l[0] == 'a' else None
            if l is not None and st.fl.get('com', 0) == 0:
                st.fl['last'] = tuple(x if x[0] == 'i' else ('eol' if x == ('s', (('q', 'eol'),)) else '?') for x in l)
            st._k = None
            return [(('op', 'ar'), st)]
        if name.endswith('::magic_comment') and name.startswith('lexer::'):
            ok = models.ok(('op', 'byte'))
            s2 = st.copy()
            s2.fl['err'] = 1
            s2._k = None
            return [(models.ok(('i', 0)), st), (models.ok(('i', 1)), st.copy()), (models.err(UNIT), s2)]
        if name.endswith('::comment_at_top') or name.endswith('::set_file_encoding'):
            return [(('i', 0), st)] if name.endswith('_top') else [(UNIT, st)]
        return c20.Ghost.call(self, I, name, ci, args, st, fr, site)

    def read(self, I, st, path):
        E = self.E
        if path == (E.iB, E.bfields.get('pcur')) and st.fl.get('eol'):
            return ('s', (('q', 'eol'),))
        if path == (E.iB, E.bfields.get('ptok')) and 'ptok' in st.fl:
            return ('i', c20.BASE + st.fl['ptok'])
        return c20.Ghost.read(self, I, st, path)


class Run(c20.Run):
    def go(self, state, cmd, text, bol):
        E = self.engine(text)
        g = Ghost()
        g.text = text.encode()
        g.bol = bol
        g.done = set()
        E.g = g
        E.gread = g.read
        g.E = E
        v = ('a', c20.LS, 0, (('i', state),))
        cells = ((('trk', self.iL), v), (('trk', self.iS), models.NONE), (('trk', self.iC), ('i', int(cmd))))
        out = set()
        for rv, oc, fl in E.summary((YYLEX, (('&', lex.LX, ()),), cells, frozenset({('pos', 0)}))):
            fl = dict(fl)
            out.add((self.names.get(rv[1], str(rv[1])) if rv[0] == 'i' else '?', fl.get('com', 0), fl.get('com0'), bool(fl.get('err'))))
        for k, r in g.done:
            out.add(('more', k, r, False))
        self.last = E
        return out


R = None


def work(job):
    import sys
    sys.setrecursionlimit(20000)
    st, cmd, text, bol = job
    try:
        return job, R.go(st, cmd, text, bol)
    except Exception as e:
        return job, e


def comments(P, rep):
    global R
    R = Run(P)
    jobs = [(st, cmd, t, False) for st in c20.ENTRY for cmd in (False, True) for t in ('#x', ' #x', '\t# ', '#\n')]
    jobs += [(st, cmd, '=begin\n', True) for st in c20.ENTRY for cmd in (False, True)]
    n = 0
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        for (st, cmd, t, bol), got in p.imap_unordered(work, jobs):
            n += 1
            if isinstance(got, Exception):
                raise got
            at = len(t) - len(t.lstrip(' \t'))
            key = '%s/%s/%r' % (c20.sn(st), 'cmd' if cmd else '-', t)
            what = 'in state %s%s the comment %r ' % (c20.sn(st), ' at the start of a command' if cmd else '', t)
            bad = [o for o in got if not o[3] and not o[1]]
            rep.check(not bad, key, what + 'is skipped without being recorded (followed by %s)' % (bad and bad[0][0]), where=P.fns[YYLEX].span)
            rng = [o[2] for o in got if o[1] and o[2] is not None and ('?' not in o[2][1:]) or o[1] and o[2] is not None and o[2][0][0] == 'i' and o[2][0] != ('i', c20.BASE + at)]
            wrong = [r for r in rng if r != (('i', c20.BASE + at), 'eol')]
            rep.check(not wrong, key + '/range', what + 'is recorded with a range that does not run from its first character to the end of the line', where=P.fns[YYLEX].span)
    rep.floor('comments read', n, 100)


# ------------------------------------------------------------------ magic comments
MAGIC = {'coding': 'Encoding', 'encoding': 'Encoding', 'frozen_string_literal': 'FrozenStringLiteral', 'warn_indent': 'WarnIndent', 'shareable_constant_value': 'ShareableConstantValue'}
MC = 'source::magic_comment::MagicComment'


class Magic:
    """ghost: which name matched, what was recorded, how decoding went"""

    def __init__(self, P):
        self.P = P
        self.bad = {}
        self.names = set()
        self.kinds = [n for n, _ in P.adts[MC + 'Kind']['variants']]
        self.pushes = 0

    def call(self, I, name, ci, args, st, fr, site):
        m = name.split('::')[-1]
        if m in ('iter', 'into_iter') and args and args[0][0] == '&' and args[0][1][0] == 'H' and args[0][1][1][:1] == ('const',):
            # a table: its elements are those of the constant
            r = I.promoted(st, ('prom', args[0][1][1][1], 0))
            if r[0] == '&':
                v = I.read(st, r[1], ())
                items = v[2] if v[0] == 'v' and v[1] is None else v[1] if v[0] == 't' else None
                if items is not None:
                    cells = [('H', ('table', args[0][1][1][1], i)) for i in range(len(items))]
                    for c, x in zip(cells, items):
                        I.consts[c] = x
                    return [(models.mkiter(('&', c, ()) for c in cells), st)]
        if m in ('eq', 'ne') and 'PartialEq' in name and len(args) == 2:
            vs = []
            for a in args:
                for _ in range(3):
                    if a[0] == '&':
                        a = I.read(st, a[1], a[2])
                vs.append(a)
            t = [v[1] for v in vs if v[0] == 'str' and isinstance(v[1], str)]
            if len(t) == 1 and len(vs) == 2 and not all(v[0] == 'str' for v in vs):
                self.names.add(t[0])
                self.pending(st, site)
                s1, s2 = st.copy(), st.copy()
                s1.fl['match'] = t[0]
                s2.fl.pop('match', None)
                s1._k = s2._k = None
                return [(TRUE if m == 'eq' else FALSE, s1), (FALSE if m == 'eq' else TRUE, s2)]
            if all(v[0] == 'a' and v[1] == MC + 'Kind' for v in vs):
                return [(('i', int((vs[0][2] == vs[1][2]) == (m == 'eq'))), st)]
        if m == 'clone' and 'MagicCommentKind' in name:
            return [(models.deref(I, st, args[0]), st)]
        if name.startswith('lexer::') and m == 'comment_at_top':
            s1, s2 = st.copy(), st.copy()
            s1.fl['top'] = 1
            s2.fl['top'] = 0
            s1._k = s2._k = None
            return [(TRUE, s1), (FALSE, s2)]
        if name.startswith('source::') and m == 'set_encoding':
            s1, s2 = st.copy(), st.copy()
            s1.fl['dec'] = 1
            s2.fl['decerr'] = 1
            s1._k = s2._k = None
            return [(models.ok(UNIT), s1), (models.err(('op', 'ar')), s2)]
        if name == 'std::vec::Vec::<T, A>::push' and args[0][:2] == ('&', lex.LX) and args[0][2] == (self.E.fields.get('magic_comments'),):
            v = args[1]
            st = st.copy()
            x = st.fl.pop('match', None)
            self.pushes += 1
            if x is not None and v[0] == 'a' and v[1] == MC:
                k = v[3][0]
                if k[0] == 'a' and self.kinds[k[2]] != MAGIC.get(x):
                    self.bad['kind ' + x] = '`%s:` is recorded as a magic comment of kind %s' % (x, self.kinds[k[2]])
                if MAGIC.get(x) == 'Encoding' and st.fl.get('top') != 0 and not st.fl.get('dec'):
                    self.bad['decode ' + x] = '`%s:` at the top of the file does not set the encoding' % x
            for f in ('top', 'dec'):
                st.fl.pop(f, None)
            st._k = None
            return [(UNIT, st)]
        return None

    def pending(self, st, site):
        x = st.fl.get('match')
        if x is not None:
            self.bad['lost ' + x] = '`%s:` is recognised but not recorded on every path' % x


def magic(P, rep):
    name = next((n for n in P.fns if n.startswith('lexer::') and n.endswith('::magic_comment')), None)
    if not rep.anchor('Lexer::magic_comment', name):
        return None
    g = Magic(P)
    E = lex.Engine(P, g)
    f = P.fns[name]
    n = 0
    for rv, oc, fl in E.summary((name, (('&', lex.LX, ()), ('op', 'ar'), ('op', 'ar')), (), frozenset())):
        n += 1
        fl = dict(fl)
        good = not (rv[0] == 'a' and rv[2] == 1)
        if good and 'match' in fl:
            g.bad['lost ' + fl['match']] = '`%s:` is recognised but not recorded on every path' % fl['match']
        if good and fl.get('decerr'):
            g.bad['decode error'] = 'reading goes on after the text could not be decoded'
        if not good and not fl.get('err'):
            g.bad['silent'] = 'reading stops without an error'
    for x in sorted(MAGIC):
        rep.check(x in g.names or not g.names, 'magic name ' + x, '`%s:` is not recognised as a magic comment' % x, where=f.span)
    return g, n, f


def check(ctx, rep):
    P = ctx.prog
    rep.rule = __doc__
    rep.trusted = ['std models (models.py)', 'Buffer::goto_eol moves to the end of the line', 'lists only shrink through the std methods listed']
    if not (rep.anchor('ParserResult', P.adts.get(RESULT)) and rep.anchor('Parser', P.adts.get(PARSER)) and rep.anchor('Lexer::parser_yylex', P.fns.get(YYLEX))):
        return
    assembly(P, rep)
    sharing(P, rep)
    reporting(P, rep)
    keeping(P, rep)
    comments(P, rep)
    r = magic(P, rep)
    if r is not None:
        g, n, f = r
        for k in sorted(MAGIC):
            for w in ('lost', 'kind'):
                x = g.bad.get('%s %s' % (w, k))
                rep.check(x is None, '%s %s' % (w, k), x or '', where=f.span)
        rep.floor('ways through magic_comment', n, 3)
