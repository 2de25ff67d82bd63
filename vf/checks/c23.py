"""C23: literals denote the value their text has in Ruby.

The functions that read the inside of a literal are evaluated over their MIR with the spelling known and the rest of the
parser's state unknown, on every path:
  escapes   read_escape for every byte after the backslash, all octal and hexadecimal digits, control and meta combinations;
  strings   tokadd_string for every kind of literal (single-quoted, double-quoted, regexp, word lists, symbols), plain and
            nested delimiters, for every ASCII character alone and after a backslash, and \\u in all its forms;
  numbers   parse_numeric for all radix prefixes, signs, digits and underscores by class, points, exponents and suffixes;
  dedent    dedent_string for runs of spaces and tabs of every width up to two tab stops.
What is put in the token buffer, the kind of token and whether an error is reported must be what Ruby's lexer gives.
"""
import itertools, os, re, time
from multiprocessing import get_context
from .. import lex, models
from ..interp import Interp, Hooks as IHooks, State, UNIT, TRUE, FALSE, Limit, roots
from ..models import some, NONE
from .c20 import EXP, REG, ESC, SYM, LAB, QW, LIST

BASE = 1000
AHEAD = 40
BYTES = 'lib_ruby_parser_ast::Bytes'
CELL = ('H', ('lexer',))
TOK = ('H', ('token',))
LOC = 'lib_ruby_parser_ast::Loc'
LEX = lex.LEXER
BUF = lex.BUF
MB = lex.MB


def vec(bs):
    return ('v', None, tuple(('i', b) for b in bs))


def raw(v):
    """bytes of a value, or None"""
    if v[0] == 'str':
        return v[1] if isinstance(v[1], bytes) else v[1].encode()
    if v[0] == 't':
        v = ('v', None, v[1])
    if v[0] == 'a' and len(v[3]) == 1:
        return raw(v[3][0])
    if v[0] == 'v' and v[1] is None and all(x[0] == 'i' for x in v[2]):
        return bytes(x[1] & 255 for x in v[2])
    return None


def val(I, st, v):
    for _ in range(4):
        if v[0] == '&':
            v = I.read(st, v[1], v[2])
    return v


def template(b, args):
    """text of a format_args! template (see core::fmt::Arguments) applied to known arguments, or None"""
    if b is None or args[0] not in ('t', 'v'):
        return None
    args = args[1] if args[0] == 't' else args[2]
    out, i, ai = '', 0, 0
    le = lambda k: int.from_bytes(b[i:i + k], 'little')
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out += b[i:i + n].decode('latin1')
            i += n
            continue
        if n < 0xc0 or n & 0x34:
            return None
        fl = w = 0
        if n & 1:
            fl = le(4)
            i += 4
        if n & 2:
            w = le(2)
            i += 2
        if n & 8:
            ai = le(2)
            i += 2
        if ai >= len(args) or args[ai][0] != 'a' or args[ai][1] != 'fmtarg':
            return None
        kind, v, ty = args[ai][3]
        if kind[1] == 'display':
            if v[0] == 'i' and w:
                return None
            x = v[1] if v[0] == 'str' else chr(v[1]) if ty[1].endswith('char') else str(v[1])
            if not isinstance(x, str):
                return None
        elif v[0] == 'i':
            x = '%X' % v[1] if kind[1] == 'upper_hex' else '%x' % v[1]
            if fl & (1 << 23):
                x = '0x' + x
            x = x.rjust(w, '0' if fl & (1 << 24) else ' ')
        else:
            return None
        out += x
        ai += 1
    return None


class Hooks(IHooks):
    token = None      # text of the token that is given to the builder

    def __init__(self, P, text, eof=False):
        self.P = P
        self.text = text
        self.eof = eof
        self.cmp = next((n for n in P.fns if n.endswith('::partial_cmp') and MB in n), None)
        self.panics = []
        self.f_escape = next((n for n in P.fns if n.startswith('lexer::') and n.endswith('::read_escape')), None)
        self.fields = {n: i for i, (n, _) in enumerate(P.adts[LEX]['variants'][0][1])}
        self.bf = {n: i for i, (n, _) in enumerate(P.adts[BUF]['variants'][0][1])}
        self.pcur = (self.fields['buffer'], self.bf['pcur'])

    def on_panic(self, I, st, site, what):
        self.panics.append((site, what))

    def at(self, I, st):
        v = I.read(st, CELL, self.pcur)
        return v[1] - BASE if v[0] == 'i' else None

    def byte(self, i):
        return self.text[i] if 0 <= i < len(self.text) else None

    def on_call(self, I, name, ci, args, st, fr, site):
        m = name.split('::')[-1]
        if name == BUF + '::nextc':
            i = self.at(I, st)
            if self.eof and i == len(self.text):
                st = st.copy()
                I.write(st, CELL, (self.fields['buffer'], self.bf['eofp']), TRUE)
                return [(('a', MB, 1, ()), st)]
            if i is None or self.byte(i) is None:
                return []       # reads past the literal: the path is not about this spelling
            st = st.copy()
            I.write(st, CELL, self.pcur, ('i', BASE + i + 1))
            return [(('a', MB, 0, (('i', self.byte(i)),)), st)]
        if m == 'pushback' and 'Buffer' in name:
            c = val(I, st, args[1])
            i = self.at(I, st)
            if c[0] == 'a' and c[1] == MB and c[2] == 1:
                return [(UNIT, st)]
            if i is not None:
                st = st.copy()
                I.write(st, CELL, self.pcur, ('i', BASE + i - 1))
                return [(UNIT, st)]
        if name.startswith(BUF + '::') and m in ('peek', 'peekc', 'peek_n', 'peekc_n', 'is_eol', 'is_eol_n'):
            i = self.at(I, st)
            if m.endswith('_n'):
                n = args[-1]
                i = None if n[0] != 'i' else i + n[1]
            b = None if i is None else self.byte(i)
            if self.eof and i == len(self.text):
                return [(('i', int(m.startswith('is_eol'))) if 'peekc' not in m else ('a', MB, 1, ()), st)]
            if m.startswith('is_eol'):
                return [(FALSE if b is not None else I.fresh(st, site), st)]
            if b is None:
                v = I.fresh(st, site)
                return [(v if m.startswith('peek') and 'peekc' not in m else ('a', MB, 0, (v,)), st)]
            if m.startswith('peekc'):
                return [(('a', MB, 0, (('i', b),)), st)]
            c = args[1]
            return [(('i', int(c == ('i', b))), st)] if c[0] == 'i' else None
        if name in (BUF + '::byte_at', LEX + '::char_at') and args[1][0] == 'i':
            b = self.byte(args[1][1] - BASE)
            if self.eof and b is None:
                return [(('a', MB, 1, ()), st)]
            return [(('a', MB, 0, (('i', b) if b is not None else I.fresh(st, site),)), st)]
        if name == BUF + '::substr_at' and args[1][0] == args[2][0] == 'i':
            a, b = args[1][1] - BASE, args[2][1] - BASE
            if 0 <= a <= b <= len(self.text):
                st = st.copy()
                c = ('H', ('substr', a, b))
                st.mem[c] = vec(self.text[a:b])
                return [(some(('&', c, ())), st)]
        if name.startswith(BUF + '::') and m in ('token_flush', 'set_ptok'):
            return [(UNIT, st)]
        if name == 'error::diagnostic::Diagnostics::emit':
            st = st.copy()
            d = args[1]
            if d[0] == 'a' and d[3][0][0] == 'a':
                if self.P.adts['error::level::ErrorLevel']['variants'][d[3][0][2]][0] == 'Error':
                    st.fl['err'] = 1
            st._k = None
            return [(UNIT, st)]
        if m == 'update_heredoc_indent' or m == 'current_loc' or name == LEX + '::loc':
            return [(UNIT if m[0] == 'u' else I.fresh(st, site), st)]
        if m == 'warn' and name.startswith('lexer::') or m == 'warn_space_char':
            return [(UNIT, st)]
        if name == self.f_escape and fr < 12:
            return I.run(self.P.fns[name], args, st, fr + 1)     # escapes nest: \\M-\\C-x
        if m in ('lt', 'le', 'gt', 'ge') and len(args) == 2 and self.cmp:
            a, b = val(I, st, args[0]), val(I, st, args[1])
            if a[0] == 'a' and a[1] == MB and b[0] == 'i':
                out = []
                for v, s in I.run(self.P.fns[self.cmp], args, st, fr + 1):
                    if v[0] == 'a' and v[2] == 1 and v[3][0][0] == 'a':
                        o = v[3][0][2] - 1
                    elif v[0] == 'a' and v[2] == 1 and v[3][0][0] == 'i':
                        o = v[3][0][1] if v[3][0][1] < 128 else -1
                    else:
                        return None
                    out.append((('i', int({'lt': o < 0, 'le': o <= 0, 'gt': o > 0, 'ge': o >= 0}[m])), s))
                return out
        if m == 'cmp' and len(args) == 2:
            a, b = val(I, st, args[0]), val(I, st, args[1])
            if a[0] == b[0] == 'i':
                return [(('a', 'std::cmp::Ordering', (a[1] > b[1]) - (a[1] < b[1]) + 1, ()), st)]
        if m == 'is_control' and args and 'char' in name:
            v = val(I, st, args[0])
            if v[0] == 'i':
                return [(('i', int(v[1] < 32 or 127 <= v[1] < 160)), st)]
        # formatting
        if name.startswith('core::fmt::rt::Argument') and m.startswith('new_') and m[4:] in ('upper_hex', 'lower_hex', 'display'):
            v = val(I, st, args[0])
            if v[0] in ('i', 'str'):
                return [(('a', 'fmtarg', 0, (('str', m[4:]), v, ('str', (ci.get('args') or ['?'])[-1]))), st)]
        if name.startswith('std::fmt::Arguments') and m == 'new':
            t = template(raw(val(I, st, args[0])), val(I, st, args[1]))
            if t is not None:
                return [(('a', 'fmtargs', 0, (('str', t),)), st)]
        if m == 'write_fmt' and args[1][0] == 'a' and args[1][1] == 'fmtargs' and args[0][0] == '&':
            r = args[0]
            w = I.read(st, r[1], r[2])
            if w[0] == '&':
                a = I.read(st, w[1], w[2])
                b = raw(args[1][3][0])
                if a[0] == 't' and len(b) <= len(a[1]):
                    st = st.copy()
                    I.write(st, w[1], w[2], ('t', tuple(('i', x) for x in b) + a[1][len(b):]))
                    return [(models.ok(UNIT), st)]
        if name in ('std::fmt::format', 'alloc::fmt::format') and args[0][0] == 'a' and args[0][1] == 'fmtargs':
            return [(args[0][3][0], st)]
        if m in ('index', 'index_mut') and len(args) == 2 and args[0][0] == '&':
            v = val(I, st, args[0])
            r = args[0]
            while v[0] == 'a' and len(v[3]) == 1 and v[1].endswith('TokenBuf'):
                v = v[3][0]
            x = args[1]
            if v[0] == 'v' and v[1] is None:
                if x[0] == 'i' and x[1] < len(v[2]):
                    st = st.copy()
                    c = ('H', ('at', v, x[1]))
                    st.mem[c] = v[2][x[1]]
                    return [(('&', c, ()), st)]
                if x[0] == 'a' and x[1].endswith('RangeFrom') and x[3][0][0] == 'i' and m == 'index':
                    st = st.copy()
                    c = ('H', ('from', v, x[3][0][1]))
                    st.mem[c] = ('v', None, v[2][x[3][0][1]:])
                    return [(('&', c, ()), st)]
            if v[0] == 't' and x[0] == 'a' and x[1].endswith('RangeFull'):
                return [(r, st)]
        # byte strings
        if name.startswith(BYTES + '::') or BYTES in name and name.startswith('<'):
            if m in ('default', 'empty'):
                return [(vec(b''), st)]
            if m == 'new':
                b = raw(val(I, st, args[0]))
                return [(vec(b), st)] if b is not None else None
            if m in ('as_raw', 'as_bytes', 'deref', 'as_ref'):
                return [(args[0], st)]
            if m in ('into_raw', 'clone'):
                return [(val(I, st, args[0]), st)]
            if m == 'set_raw':
                st = st.copy()
                I.write(st, args[0][1], args[0][2], args[1])
                return [(UNIT, st)]
            if m == 'clear':
                st = st.copy()
                I.write(st, args[0][1], args[0][2], vec(b''))
                return [(UNIT, st)]
            v = val(I, st, args[0])
            if v[0] == 'v' and v[1] is None:
                if m == 'push':
                    st = st.copy()
                    r = args[0]
                    x = args[1]
                    I.write(st, r[1], r[2], ('v', None, v[2] + (('i', x[1] & 255) if x[0] == 'i' else x,)))
                    return [(UNIT, st)]
                if m == 'len':
                    return [(('i', len(v[2])), st)]
                if m == 'is_empty':
                    return [(('i', int(not v[2])), st)]
        if m in ('to_vec', 'to_owned', 'into_vec') or 'From<&' in name and 'Vec' in name or name.endswith(('Into<U>>::into', 'From<T>>::from')):
            b = raw(val(I, st, args[0]))
            if b is not None:
                return [(vec(b), st)]
        if m == 'extend' or m == 'extend_from_slice':
            v = val(I, st, args[0])
            w = args[1] if args[1][0] != '&' else val(I, st, args[1])
            items = w[3][0][2] if w[0] == 'a' and w[1] == models.ITER and w[3][0][1] is None else w[2] if w[0] == 'v' and w[1] is None else tuple(('i', x) for x in raw(w)) if w[0] == 'str' else None
            if v[0] == 'v' and v[1] is None and items is not None and args[0][0] == '&':
                st = st.copy()
                I.write(st, args[0][1], args[0][2], ('v', None, v[2] + tuple(val(I, st, x) for x in items)))
                return [(UNIT, st)]
        if m in ('iter', 'into_iter') and args and args[0][0] == '&':
            v = val(I, st, args[0])
            b = raw(v) if v[0] in ('str',) else None
            if b is not None:
                st = st.copy()
                c = ('H', ('bytes', b))
                st.mem[c] = vec(b)
                return [(models.mkiter(('&', c, (('ix', i),)) for i in range(len(b))), st)]
        if m == 'len' and args:
            b = raw(val(I, st, args[0]))
            if b is not None:
                return [(('i', len(b)), st)]
        if m == 'byte_at' and len(args) == 2 and args[1][0] == 'i' and BUF not in name:
            b = self.byte(args[1][1] - BASE)
            if b is not None or self.eof:
                return [(some(('i', b)) if b is not None else NONE, st)]
        if m in ('eq', 'ne') and 'Option' in name and len(args) == 2:
            a, b = val(I, st, args[0]), val(I, st, args[1])
            if a[0] == b[0] == 'a' and a[2] == b[2] == 1:
                x, y = raw(val(I, st, a[3][0])), raw(val(I, st, b[3][0]))
                if x is not None and y is not None:
                    return [(('i', int((x == y) == (m == 'eq'))), st)]
        if name.startswith('std::string::String::') and args and args[0][0] == '&' and m == 'push':
            v = val(I, st, args[0])
            if v[0] == 'str' and isinstance(v[1], str) and args[1][0] == 'i':
                st = st.copy()
                I.write(st, args[0][1], args[0][2], ('str', v[1] + chr(args[1][1])))
                return [(UNIT, st)]
        if m == 'from_utf8':
            b = raw(val(I, st, args[0]))
            if b is not None and b.isascii():
                return [(models.ok(('str', b.decode())), st)]
        if name == 'std::string::String::new':
            return [(('str', ''), st)]
        if m == 'from' and 'String' in name and 'str' in name and val(I, st, args[0])[0] == 'str':
            return [(val(I, st, args[0]), st)]
        # characters and numbers
        if m == 'to_string' and args:
            v = val(I, st, args[0])
            if v[0] == 'i':
                return [(('str', chr(v[1])), st)]
            if v[0] == 'str':
                return [(v, st)]
        if m in ('deref', 'as_str', 'as_ref', 'borrow') and args and val(I, st, args[0])[0] == 'str':
            return [(args[0] if args[0][0] == '&' else ('&', ('H', ('deref', args[0])), ()), st)]
        if m == 'from_str_radix':
            v, r = val(I, st, args[0]), args[1]
            if v[0] == 'str' and r[0] == 'i':
                try:
                    t = v[1] if isinstance(v[1], str) else v[1].decode('latin1')
                    if not t or t[0] in '-_ ' or '_' in t:
                        raise ValueError
                    return [(models.ok(('i', int(t, r[1]))), st)]
                except ValueError:
                    return [(models.err(('op', 'ar')), st)]
        if m == 'to_digit':
            v = val(I, st, args[0])
            if v[0] == 'i' and args[1][0] == 'i':
                try:
                    return [(some(('i', int(chr(v[1]), args[1][1]))), st)]
                except ValueError:
                    return [(NONE, st)]
        if m == 'chars' and args:
            b = raw(val(I, st, args[0]))
            if b is not None and b.isascii():
                return [(models.mkiter(('i', x) for x in b), st)]
        if m == 'collect' and str(ci.get('args')).rstrip("']").endswith('String'):
            it = models.items_of(I, st, args[0])
            if it is not None and all(x[0] == 'i' for x in it):
                return [(('str', ''.join(chr(x[1]) for x in it)), st)]
        if m in ('sort_unstable', 'sort', 'dedup') and len(args) == 1 and args[0][0] == '&':
            v = val(I, st, args[0])
            if v[0] == 'v' and v[1] is None and all(x[0] == 'i' for x in v[2]):
                xs = sorted(v[2]) if m != 'dedup' else [x for i, x in enumerate(v[2]) if not i or v[2][i - 1] != x]
                st = st.copy()
                I.write(st, args[0][1], args[0][2], ('v', None, tuple(xs)))
                return [(UNIT, st)]
        if self.token is not None and args:
            if 'PoolValue' in name and m in ('deref', 'deref_mut', 'borrow', 'as_ref'):
                return [(('&', TOK, ()), st)]
            if 'PoolValue' in name and m == 'take_value':
                return [(I.read(st, TOK, ()), st)]
            f = self.P.fns.get(name)
            if f is not None and name.startswith('token::') and f.argc == 1 and f.locals[0].split('<')[0] == 'std::result::Result' and 'String' in f.locals[0]:
                return [(models.ok(('str', self.token)), st)]
            if f is not None and f.locals[0] == LOC and name.startswith(('builder::', 'lib_ruby_parser_ast::Loc')) and len(args) == 2 and m == 'loc':
                return [(('s', ('lexer', 'loc')), st)]
        if m == 'from_u32' and args[0][0] == 'i':
            n = args[0][1]
            return [(some(('i', n)) if n < 0xd800 or 0xe000 <= n < 0x110000 else NONE, st)]
        if m in ('from', 'into') and name.startswith('<') and len(args) == 1 and args[0][0] == 'i' and not any(x in str(ci.get('args')) for x in ('String', 'Vec', 'Box', 'Option', '::')):
            return [(args[0], st)]
        if m in ('try_into', 'try_from') and args[0][0] == 'i':
            return [(models.ok(args[0]), st)]
        if m == 'into_bytes' or m == 'as_bytes':
            v = val(I, st, args[0])
            if v[0] == 'str':
                b = vec(raw(v))
                if m == 'into_bytes':
                    return [(b, st)]
                st = st.copy()
                c = ('H', ('bytes', v[1]))
                st.mem[c] = b
                return [(('&', c, ()), st)]
        if m == 'encode_utf8' and args[0][0] == 'i':
            return [(('str', chr(args[0][1])), st)]
        if m == 'contains' and name.startswith('core::slice'):
            r, x = val(I, st, args[0]), val(I, st, args[1])
            b = raw(r)
            if b is not None and x[0] == 'i':
                return [(('i', int(x[1] in b)), st)]
            if b is not None and x[0] == 'a' and x[1] == MB:
                return [(('i', int(x[2] == 0 and x[3][0][0] == 'i' and x[3][0][1] in b)), st)]
        if m == 'contains' and name.startswith('core::str'):
            b, x = raw(val(I, st, args[0])), val(I, st, args[1])
            x = bytes([x[1]]) if x[0] == 'i' and x[1] < 128 else raw(x) if x[0] == 'str' else None
            if b is not None and x is not None:
                return [(('i', int(x in b)), st)]
        if m == 'contains' and 'Range' in name:
            r, x = val(I, st, args[0]), val(I, st, args[1])
            if r[0] == 'a' and len(r[3]) >= 2 and x[0] == 'i' and r[3][0][0] == r[3][1][0] == 'i':
                hi = r[3][1][1]
                return [(('i', int(r[3][0][1] <= x[1] and (x[1] <= hi if 'Inclusive' in r[1] else x[1] < hi))), st)]
        return None


class Eval(Interp):
    unknown = set()

    """marks the paths that depend on the result of a function without a model: they decide nothing"""

    def branch(self, st, v, t):
        if self.asm_eval(st, v) is None:
            r = set()
            roots(v, r)
            if any(not (isinstance(x, str) and x == 'lexer') for x in r) or not r:
                st = st.copy()
                st.fl['opq'] = 1
        return Interp.branch(self, st, v, t)

    def opaque(self, args, st, site):
        r = Interp.opaque(self, args, st, site)
        for a in args:
            v = a
            for _ in range(3):
                if v[0] == '&':
                    v = self.read(st, v[1], v[2])
            if a[0] == '&' and (v[0] in ('v', 't') or v[0] == 'a' and v[1].endswith('TokenBuf')):
                self.unknown.add(site)
                for _, s in r:
                    s.fl['mut'] = 1         # may have changed a text: nothing is known about it any more
        return r


def n_(x):
    return x if x is not None else '?'


class Runner:
    def __init__(self, P):
        self.P = P
        self.limits = 0
        self.deadline = float('inf')
        self.names = {}
        for n, v in P.token_consts().items():
            m = n.split('::')[-1]
            if 'lexer::main::Lexer' in n and (m[0] in 'tk' and m[1:2].isupper() or m == 'END_OF_INPUT'):
                self.names.setdefault(v, m)
        self.f = {}
        for k in ('read_escape', 'tokadd_string', 'parse_numeric', 'parse_qmark', 'update_heredoc_indent', 'parse_string'):
            self.f[k] = next((n for n in P.fns if n.startswith('lexer::') and n.endswith('::' + k) and P.fns[n].kind == 'fn'), None)
        self.f['is_whole_match'] = BUF + '::is_whole_match' if BUF + '::is_whole_match' in P.fns else None
        for k in ('dedent_string', 'heredoc_dedent', 'regexp_options'):
            self.f[k] = next((n for n in P.fns if n.startswith('builder::') and n.endswith('::' + k)), None)

    def start(self, text, eof=False):
        h = Hooks(self.P, text, eof)
        I = Eval(self.P, models.M, h)
        st = State({}, {}, {})
        st.mem[CELL] = ('s', ('lexer',))
        b = h.fields['buffer']
        I.write(st, CELL, h.pcur, ('i', BASE))
        I.write(st, CELL, (b, h.bf['pend']), ('i', BASE + len(text) + (0 if eof else AHEAD)))
        I.write(st, CELL, (b, h.bf['pbeg']), ('i', BASE))
        I.write(st, CELL, (b, h.bf['eofp']), FALSE)
        tb = self.P.adts['token_buf::TokenBuf']['variants'][0][1]
        I.write(st, CELL, (h.fields['tokenbuf'],), ('a', 'token_buf::TokenBuf', 0, tuple(vec(b'') for _ in tb)))
        return h, I, st

    def run(self, I, k, args, st):
        try:
            r = list(I.run(self.P.fns[self.f[k]], args, st))
            return None if any(s.fl.get('mut') for _, s in r) else r
        except Limit:
            self.limits += 1
            return None

    # each returns a list of (outcome, decisive) or None
    def escape(self, text, eof=False):
        """(value, bytes read, error)"""
        h, I, st = self.start(text, eof)
        r = self.run(I, 'read_escape', [('&', CELL, ()), ('i', 0)], st)
        out = []
        for v, s in r or ():
            x = v[3][0] if v[0] == 'a' and v[2] == 0 else v
            out.append(((x[1] & 255 if x[0] == 'i' else '?', n_(h.at(I, s)), bool(s.fl.get('err'))), not s.fl.get('opq')))
        return None if r is None else out

    def string(self, text, func, term, paren):
        """(bytes of the literal, bytes read, error)"""
        h, I, st = self.start(text)
        nc = ('H', ('nest',))
        st.mem[nc] = ('i', 0)
        r = self.run(I, 'tokadd_string', [('&', CELL, ()), ('i', func), ('i', term), some(('i', paren)) if paren else NONE, ('&', nc, ())], st)
        out = []
        for v, s in r or ():
            b = raw(I.read(s, CELL, (h.fields['tokenbuf'],)))
            out.append(((n_(b), n_(h.at(I, s)), bool(s.fl.get('err'))), not s.fl.get('opq')))
        return None if r is None else out

    def literal(self, text, func, term, paren, eof=False):
        """(tokens with their texts, bytes read, error) of a whole literal"""
        P = self.P
        h, I, st = self.start(text, eof)
        SL, ST = 'str_term::StringLiteral', 'str_term::StrTerm'
        names = [n for n, _ in P.adts[SL]['variants'][0][1]]
        f = {'nest': ('i', 0), 'func': ('i', func), 'paren': some(('i', paren)) if paren else NONE, 'term': ('i', term), 'heredoc_end': NONE}
        sl = ('a', SL, 0, tuple(f.get(n, ('s', ('lexer', n))) for n in names))
        vi = [n for n, _ in P.adts[ST]['variants']].index('StringLiteral')
        I.write(st, CELL, (h.fields['strterm'],), some(('B', ('a', ST, vi, (sl,)))))
        todo, done = [(st, ())], []
        for _ in range(12):
            nxt = []
            for s0, seq in todo:
                r = self.run(I, 'parse_string', [('&', CELL, ())], s0)
                if r is None:
                    return None
                for v, s in r:
                    tok = self.names.get(v[1], '?') if v[0] == 'i' else '?'
                    x = tok
                    if tok in ('tSTRING_CONTENT', 'tREGEXP_END'):
                        lv = I.read(s, CELL, (h.fields['lval'],))
                        x = raw(lv[3][0]) if lv[0] == 'a' and lv[2] == 1 else None
                        x = '?' if x is None else x
                        if tok == 'tREGEXP_END':
                            x = '?' if x == '?' or s.fl.get('err') else 'tREGEXP_END %s' % x.decode('latin1')
                    if isinstance(x, bytes) and seq and isinstance(seq[-1], bytes):
                        q = seq[:-1] + (seq[-1] + x,)
                    else:
                        q = seq + (x,)
                    stt = I.read(s, CELL, (h.fields['strterm'],))
                    if stt == NONE or tok in ('tSTRING_DBEG', 'tSTRING_DVAR'):
                        q = '?' if '?' in q else q
                        done.append(((q, n_(h.at(I, s)), bool(s.fl.get('err'))), not s.fl.get('opq')))
                    elif stt[0] == 'a' and tok != '?':
                        s = s.copy()
                        I.write(s, CELL, (h.fields['lval'],), ('s', ('lexer', 'lval')))
                        nxt.append((s, q))
                    else:
                        done.append((('?', '?', '?'), False))
            todo = nxt
        return done

    def terminator(self, text, line, eos, indent):
        """(is the first line of `text`, of length `line`, the end of the heredoc?)"""
        h, I, st = self.start(text, True)
        b = h.fields['buffer']
        I.write(st, CELL, (b, h.bf['pend']), ('i', BASE + line))
        e = ('H', ('eos',))
        st.mem[e] = vec(eos)
        r = self.run(I, 'is_whole_match', [('&', CELL, (b,)), ('&', e, ()), ('i', indent)], st)
        return None if r is None else [((bool(v[1]) if v[0] == 'i' else '?',), not s.fl.get('opq')) for v, s in r]

    def number(self, text, eof=False):
        """(token, text of the value, bytes read, error)"""
        h, I, st = self.start(text[1:], eof)
        r = self.run(I, 'parse_numeric', [('&', CELL, ()), ('i', text[0])], st)
        out = []
        for v, s in r or ():
            lv = I.read(s, CELL, (h.fields['lval'],))
            b = raw(lv) if lv[0] == 'a' and lv[2] == 1 else None
            at = h.at(I, s)
            out.append(((self.names.get(v[1], '?') if v[0] == 'i' else '?', n_(b), at + 1 if at is not None else '?', bool(s.fl.get('err'))), not s.fl.get('opq')))
        return None if r is None else out

    def char(self, text):
        """(bytes, bytes read, error) when a character literal is read"""
        h, I, st = self.start(text)
        r = self.run(I, 'parse_qmark', [('&', CELL, ()), FALSE], st)
        out = []
        for v, s in r or ():
            if v[0] == 'a' and v[2] == 0 and v[3][0][0] == 'i':
                if self.names.get(v[3][0][1]) == 'tCHAR':
                    lv = I.read(s, CELL, (h.fields['lval'],))
                    b = raw(lv) if lv[0] == 'a' and lv[2] == 1 else None
                    out.append(((n_(b), n_(h.at(I, s)), bool(s.fl.get('err'))), not s.fl.get('opq')))
            else:
                out.append((('?', '?', '?'), False))
        return None if r is None else out

    def dedent(self, text, width):
        I = Eval(self.P, models.M, Hooks(self.P, b''))
        r = self.run(I, 'dedent_string', [vec(text), ('i', width)], State({}, {}, {}))
        return None if r is None else [((n_(raw(v)),), not s.fl.get('opq')) for v, s in r]

    def indent(self, text, indent):
        """(dedent level) after the line `text` was seen with the level at `indent`"""
        h, I, st = self.start(text)
        b = h.fields['buffer']
        I.write(st, CELL, (b, h.bf['heredoc_indent']), ('i', indent))
        I.write(st, CELL, (b, h.bf['heredoc_line_indent']), ('i', 0))
        sts = [st]
        for c in text:
            n = []
            for s in sts:
                r = self.run(I, 'update_heredoc_indent', [('&', CELL, ()), ('a', MB, 0, (('i', c),))], s)
                if r is None:
                    return None
                n += [x for _, x in r]
            sts = n
        out = []
        for s in sts:
            v = I.read(s, CELL, (b, h.bf['heredoc_indent']))
            out.append(((v[1] if v[0] == 'i' else '?',), not s.fl.get('opq')))
        return out

    def options(self, text):
        """(letters of the options node, None without one)"""
        P = self.P
        h = Hooks(P, b'')
        h.token = text.decode()
        I = Eval(P, models.M, h)
        st = State({}, {}, {})
        vals = {'token_type': ('i', 0), 'loc': ('a', LOC, 0, (('i', BASE), ('i', BASE + len(text))))}
        st.mem[TOK] = ('a', 'token::Token', 0, tuple(vals.get(n, ('a', t, 0, (vec(text),)) if t == BYTES else ('s', ('lexer', n))) for n, t in P.adts['token::Token']['variants'][0][1]))
        st.mem[('H', ('builder',))] = ('s', ('lexer', 'builder'))
        r = self.run(I, 'regexp_options', [('&', ('H', ('builder',)), ()), ('&', TOK, ())], st)
        if r is None:
            return None
        out = []
        for v, s in r:
            o = '?'
            if v == NONE:
                o = b''
            elif v[0] == 'a' and v[3] and v[3][0][0] == 'B' and v[3][0][1][0] == 'a':
                n = v[3][0][1][3][0]
                f = [k for k, _ in P.adts[n[1]]['variants'][0][1]]
                x = n[3][f.index('options')]
                o = n_(raw(val(I, s, x[3][0]))) if x[0] == 'a' and x[2] else b'' if x == NONE else '?'
            out.append(((o,), not s.fl.get('opq')))
        return out

    def parts(self, kind, parts, width):
        """the texts (None: interpolation) of a heredoc's parts after dedenting"""
        P = self.P
        I = Eval(P, models.M, Hooks(P, b''))
        N = next(a for a in P.adts if a.endswith('nodes::Node') or a.split('::')[-1] == 'Node')
        vs = [n for n, _ in P.adts[N]['variants']]
        adt = {n.split('::')[-1]: n for n in P.adts if '::nodes::' in n}

        def node(k, f):
            names = [n for n, _ in P.adts[adt[k]]['variants'][0][1]]
            return ('a', N, vs.index(k), (('a', adt[k], 0, tuple(f.get(n, ('s', ('n', k, n))) for n in names)),))
        items = tuple(node('Str', {'value': vec(p)}) if p is not None else node(kind[1], {}) for p in parts)
        h = node(kind[0], {'parts': ('v', None, items)})
        st = State({}, {}, {})
        st.mem[('H', ('builder',))] = ('s', ('builder',))
        r = self.run(I, 'heredoc_dedent', [('&', ('H', ('builder',)), ()), ('B', h), ('i', width)], st)
        if r is None:
            return None
        out = []
        for v, s in r:
            o = '?'
            if v[0] == 'B' and v[1][0] == 'a' and v[1][2] == vs.index(kind[0]):
                f = v[1][3][0][3]
                q = f[[n for n, _ in P.adts[adt[kind[0]]]['variants'][0][1]].index('parts')]
                if q[0] == 'v' and q[1] is None:
                    o = []
                    for x in q[2]:
                        if x[0] == 'a' and x[2] == vs.index('Str'):
                            o.append(n_(raw(x[3][0][3][[n for n, _ in P.adts[adt['Str']]['variants'][0][1]].index('value')])))
                        elif x[0] == 'a':
                            o.append(None)
                        else:
                            o.append('?')
                    o = '?' if '?' in o else tuple(o)
            out.append(((o,), not s.fl.get('opq')))
        return out


# ------------------------------------------------------------------ what Ruby's lexer gives
class Bad(Exception):
    """an error must be reported"""


SIMPLE = {b'n': 10, b't': 9, b'r': 13, b'f': 12, b'v': 11, b'a': 7, b'e': 27, b'b': 8, b's': 32}
SPACES = b' \n\t\x0b\r\x0c'


def run_of(t, i, chars, most):
    j = i
    while j < len(t) and j - i < most and t[j] in chars:
        j += 1
    return t[i:j]


HEX = b'0123456789abcdefABCDEF'


def r_escape(t, i=0, meta=False, ctrl=False):
    """value and end of the escape whose backslash precedes t[i]"""
    c = t[i:i + 1]
    if c in SIMPLE:
        return SIMPLE[c], i + 1
    if c in b'01234567':
        d = run_of(t, i, b'01234567', 3)
        return int(d, 8) & 255, i + len(d)
    if c == b'x':
        d = run_of(t, i + 1, HEX, 2)
        if not d:
            raise Bad
        return int(d, 16), i + 1 + len(d)
    if c in (b'M', b'C', b'c'):
        m = c == b'M'
        if m and meta or not m and ctrl:
            raise Bad
        if c != b'c':
            if t[i + 1:i + 2] != b'-':
                raise Bad
            i += 1
        i += 1
        d = t[i]
        if d == 92:
            if t[i + 1:i + 2] in (b'u', b'U'):
                raise Bad
            v, i = r_escape(t, i + 1, meta or m, ctrl or not m)
        elif d == 63 and not m:
            return 0x7f, i + 1
        elif d >= 128 or (d < 32 or d == 127) and d not in SPACES:
            raise Bad
        else:
            v, i = d, i + 1
        return (v | 0x80 if m else v & 0x9f), i
    return t[i], i + 1


def r_unicode(t, i, regexp):
    """bytes and end of the \\u escape whose digits start at t[i]"""
    def point(d):
        n = int(d, 16)
        if n > 0x10ffff or 0xd800 <= n < 0xe000:
            raise Bad
        return chr(n).encode()
    if t[i:i + 1] == b'{':
        e = t.index(b'}', i)
        ds = t[i + 1:e].split()
        if any(len(d) > 6 or not d or any(x not in HEX for x in d) for d in ds):
            raise Bad
        b = b''.join(point(d) for d in ds)
        return (b if not regexp else b'\\u{' + re.sub(rb'\s+(?=\s)', b'', t[i + 1:e].strip()) + b'}'), e + 1     # separators count as one
    d = run_of(t, i, HEX, 4)
    if len(d) < 4:
        raise Bad
    b = point(d)
    return (b if not regexp else b'\\u' + d), i + 4


META = b'$*+.?^|)]}>'


def r_string(t, func, term, paren, nest=0):
    out, i = b'', 0
    exp, reg, qw = func & EXP, func & REG, func & QW
    while True:
        c = t[i]
        if c == paren:
            nest += 1
        elif c == term:
            if not nest:
                return out, i, nest
            nest -= 1
        elif exp and c == 35 and t[i + 1:i + 2] in (b'$', b'@', b'{'):
            return out, i, nest
        elif c == 92:
            d = t[i + 1]
            i += 2
            if d == 10:
                out += b'\n' if qw else b'' if exp else b'\\\n'
            elif d == 92:
                out += b'\\\\' if reg else b'\\'
            elif d == 117:
                if exp:
                    b, i = r_unicode(t, i, reg)
                    out += b
                else:
                    out += b'\\u'
            elif reg:
                if d in b'cCM':
                    v, i = r_escape(t, i - 1)
                    out += b'\\x%02X' % v
                elif d == term and d not in META:
                    out += bytes([d])
                else:
                    n = len(run_of(t, i - 1, b'01234567', 3))
                    if d == 120:
                        k = len(run_of(t, i, HEX, 2))
                        if not k:
                            raise Bad
                        n = k + 1
                    n = n or 1
                    out += b'\\' + t[i - 1:i - 1 + n]
                    i += n - 1
            elif exp:
                v, i = r_escape(t, i - 1)
                out += bytes([v])
            elif qw and d in SPACES or d in (term, paren):
                out += bytes([d])
            else:
                out += b'\\' + bytes([d])
            continue
        elif qw and c in SPACES:
            return out, i, nest
        out += bytes([c])
        i += 1


PUNCT = b'~*$?!@/\\;,.=:<>"&`\'+0'


def r_interp(t, i):
    """token of the interpolation whose # is at t[i], or None"""
    c = t[i + 1:i + 2]
    if c == b'{':
        return 'tSTRING_DBEG'
    j = i + 2
    if c == b'$':
        if t[j:j + 1] == b'-':
            j += 1
        elif t[j] in PUNCT or t[j:j + 1].isdigit():
            return 'tSTRING_DVAR'
    elif c == b'@':
        if t[j:j + 1] == b'@':
            j += 1
    else:
        return None
    return 'tSTRING_DVAR' if t[j:j + 1].isalpha() or t[j] == 95 or t[j] >= 128 else None


def r_literal(t, func, term, paren):
    seq, i, nest = [], 0, 0
    qw = func & QW

    def end(i):
        if func & REG:
            j = i + 1
            while t[j:j + 1].isalpha():
                if t[j] not in b'onesuixm':
                    raise Bad
                j += 1
            return seq + ['tREGEXP_END ' + t[i:j].decode()], j
        if func & LAB and t[i + 1:i + 2] == b':' and t[i + 2:i + 3] != b':':
            return seq + ['tLABEL_END'], i + 2
        return seq + ['tSTRING_END'], i + 1
    space = bool(qw)
    while True:
        while qw and t[i] in SPACES:
            space = True
            i += 1
        if t[i] == term and not nest:
            if qw:
                seq.append('tSPACE')
            return end(i)
        if space:
            seq.append('tSPACE')
            space = False
        if func & EXP and t[i] == 35:
            k = r_interp(t, i)
            if k:
                return seq + [k], i + (2 if k == 'tSTRING_DBEG' else 1)
        # up to the end of the literal, of the word, or an interpolation
        b, j, nest = r_string(t[i + 1:] if func & EXP and t[i] == 35 and r_string(t[i:], func, term, paren, nest)[1] == 0 else t[i:], func, term, paren, nest)
        if func & EXP and t[i] == 35 and r_string(t[i:], func, term, paren, 0)[1] == 0:
            b, j = b'#' + b, j + 1
        if seq and isinstance(seq[-1], bytes):
            seq[-1] += b
        else:
            seq.append(b)
        i += j


NUM = re.compile(rb"""
    (?: 0[xX](?P<x>[0-9a-fA-F]+(?:_[0-9a-fA-F]+)*)
      | 0[bB](?P<b>[01]+(?:_[01]+)*)
      | 0[dD](?P<d>[0-9]+(?:_[0-9]+)*)
      | 0[oO]?_?(?P<o>[0-7]+(?:_[0-7]+)*) 
      | (?P<i>0|[1-9][0-9]*(?:_[0-9]+)*)
        (?P<f>\.[0-9]+(?:_[0-9]+)*)?
        (?P<e>[eE][+-]?[0-9]+(?:_[0-9]+)*)?
    )""", re.X)


def r_number(t):
    """token and length of the number at the start of t"""
    s = 1 if t[:1] in (b'+', b'-') else 0
    if t[s:s + 2].lower() in (b'0x', b'0b', b'0d', b'0o') and t[s + 2:s + 3] == b'_':
        raise Bad
    m = NUM.match(t, s)
    if t[s:s + 2].lower() in (b'0x', b'0b', b'0d', b'0o') and m.end() <= s + 2:
        raise Bad                                        # no digits
    n = m.end()
    rest = t[n:n + 1]
    if rest == b'_':
        raise Bad                                        # trailing underscore
    if m.group('e') is None and m.group('i') is not None and rest in (b'e', b'E') and t[n + 1:n + 2] in (b'+', b'-'):
        raise Bad                                        # exponent without digits
    if rest and rest in b'89' and (m.group('o') is not None or m.group('i') == b'0' and not m.group('f') and not m.group('e')):
        raise Bad                                        # octal with a decimal digit
    e = m.group('e') is not None
    suf = re.match(rb'i' if e else rb'ri|r|i', t[n:])
    kind = 'tFLOAT' if e or m.group('f') else 'tINTEGER'
    if suf and not re.match(rb'[A-Za-z_\x80-\xff]', t[n + suf.end():]):
        n += suf.end()
        kind = 'tIMAGINARY' if b'i' in suf.group() else 'tRATIONAL'
    return kind, n


def r_dedent(t, width):
    col = i = 0
    while i < len(t) and col < width:
        if t[i] == 32:
            col += 1
        elif t[i] == 9:
            n = 8 * (col // 8 + 1)
            if n > width:
                break
            col = n
        else:
            break
        i += 1
    return t[i:]


def r_width(t):
    col = 0
    for c in t:
        if c == 32:
            col += 1
        elif c == 9:
            col = 8 * (col // 8 + 1)
        else:
            break
    return col


# ------------------------------------------------------------------ enumeration
KINDS = [('single-quoted string', 0, b"'", 0), ('double-quoted string', EXP, b'"', 0), ('%q()', 0, b')', b'('), ('%Q[]', EXP, b']', b'['), ('%Q{}', EXP, b'}', b'{'), ('%q||', 0, b'|', 0), ('%w[]', QW | LIST, b']', b'['), ('%W()', QW | EXP | LIST, b')', b'('), ('%i<>', QW | LIST, b'>', b'<'), ('%I[]', QW | EXP | LIST, b']', b'['), ('regexp //', REG | ESC | EXP, b'/', 0), ('regexp %r{}', REG | ESC | EXP, b'}', b'{'), ('regexp %r!!', REG | ESC | EXP, b'!', 0), ('symbol :""', SYM | EXP, b'"', 0), ("symbol :''", SYM, b"'", 0), ('backtick command', EXP, b'`', 0)]
ESCAPES = [b'0', b'7', b'10', b'101', b'177', b'377', b'400', b'777', b'1011', b'18', b'x0', b'x4', b'x41', b'xfF', b'x411', b'xg', b'x',
           b'M-a', b'M-A', b'M-?', b'M- ', b'M-\t', b'M-\x01', b'M-\x7f', b'Ma', b'M', b'M-\xc3\xa9', b'C-a', b'C-A', b'C-?', b'C- ', b'C-\t', b'C-\x01', b'Ca', b'c-', b'ca', b'c?', b'c\xc3\xa9', b'cZ', b'c@', b'c[', b'c{',
           b'M-\\C-a', b'M-\\ca', b'C-\\M-a', b'c\\M-a', b'M-\\c?', b'M-\\n', b'C-\\n', b'M-\\M-a', b'C-\\C-a', b'c\\ca', b'M-\\C-\\M-a', b'M-\\u0041', b'c\\u0041', b'M-\\101', b'M-\\x41', b'C-\\101', b'c\\x7f', b'M-\\\\', b'c\\\\']
UNICODE = [b'0041', b'00e9', b'20AC', b'ffff', b'00411', b'D7ff', b'd800', b'dfff', b'e000', b'004', b'00g0', b'{41}', b'{0041}', b'{1F600}', b'{10ffff}', b'{110000}', b'{d800}', b'{1234567}', b'{41 42}', b'{ 41}', b'{41 }', b'{41\t42 1F600}', b'{e9 20ac}', b'{41g}', b'{zz}']
KINDS += [('label ""', EXP | LAB, b'"', 0), ("label ''", LAB, b"'", 0)]
FULL = len(KINDS)
RX = REG | ESC | EXP
KINDS += [('regexp %%r%s%s' % (chr(c), chr(c)), RX, bytes([c]), 0) for c in b'$*+.?^|,;:=&%@~"\'#-']
KINDS += [('regexp %r()', RX, b')', b'('), ('regexp %r[]', RX, b']', b'['), ('regexp %r<>', RX, b'>', b'<'), ('%q<>', 0, b'>', b'<'), ('%Q<>', EXP, b'>', b'<'), ('%w{}', QW | LIST, b'}', b'{'), ('%I()', QW | EXP | LIST, b')', b'('), ('%q..', 0, b'.', 0), ('%Q!!', EXP, b'!', 0), ('%x()', EXP, b')', b'(')]


def tasks():
    for b in range(1, 256):
        if b not in (10, 13) and not 128 <= b:
            yield ('escape', bytes([b]) + b'..--', False)
    yield ('escape', b'\xc3\xa9..', False)
    for e in ESCAPES:
        yield ('escape', e + b'..', False)
    for k, (name, func, term, paren) in enumerate(KINDS):
        units = [bytes([b]) for b in range(1, 128) if b != 13] if k < FULL else [bytes([b]) for b in b'n#/ \n' + term + (paren or b'')]
        for u in units:
            if u == b'\\':
                continue
            yield ('string', b'a' + u + b'b' + 4 * term, k)
            yield ('string', u + b'$' + u + b'{' + 4 * term, k)
            if u not in (b'u', b'x') and (u not in b'MCc' or not func & EXP):
                yield ('string', b'a\\' + u + b'b' + 4 * term, k)
                yield ('string', u + b'\\' + u + u + 4 * term, k)
        for u in (b'\\\\', b'\\\\\\\\', b'\\\\n', b'\xc3\xa9', b'\\\xc3\xa9', b'\xe2\x82\xac\\n', b'\\\n\\n', b'#', b'##', b'#{', b'#$', b'#@', b'\\#{', b'#\\{', b'# {'):
            yield ('string', b'a' + u + b'b' + 4 * term, k)
        for e in ESCAPES if k < FULL else ():
            if b'\xc3' not in e:
                yield ('string', b'\\' + e + b'.' + 4 * term, k)
        for e in UNICODE if k < FULL else ():
            yield ('string', b'\\u' + e + b'.' + 4 * term, k)
        if paren:
            for u in (paren + b'a' + term, paren + paren + term + term, b'\\' + paren + b'a', b'\\' + term + b'a', paren + b'\\' + term + term + b'x', b'\\' + paren + paren + term):
                yield ('string', u + 4 * term, k)
    for k, (name, func, term, paren) in enumerate(KINDS):
        bodies = [b'', b'a', b'ab c', b' a  b ', b'\na\tb\n', b'\x0ba\x0cb', b'a\\ b c', b'#', b'a#b', b'# {', b'#{x', b'a#{x', b'a b#{x', b'#$', b'a#$x', b'#@x', b'#@@x', b'#@1', b'#@ ', b'#@@', b'#$1', b'#$-w', b'#$-1', b'#$ ', b'#$_', b'#\\{', b'\\#{x}', b'\\\\', b'\\' + term, b'#@\xc3\xa9', b'#$\xc3\xa9']
        if k < FULL:
            bodies += [b'#$' + bytes([c]) for c in PUNCT] + [b'x#@' + bytes([c]) for c in b'aZ_09-$?']
        if paren:
            bodies += [paren + term, b'a' + paren + b'b' + term + b'c', paren + paren + term + b' ' + term, paren + b' ' + term, b' ' + paren, b'a ' + paren + b'#x' + term, b'\\' + paren]
        tails = [b' ', b';'] + ([b': ', b'::x', b':"'] if func & LAB else []) + ([b'i ', b'mix.', b'onesuixm ', b'ii;', b'z ', b'iz ', b'I '] if func & REG else [])
        for b in bodies:
            for e in tails if b in (b'', b'a') else tails[:1]:
                yield ('literal', b + term + e + 3 * term, k)
        if func & REG and k < FULL:
            for n in (2, 3):
                for x in itertools.product(b'mixuo', repeat=n):
                    yield ('literal', b'a' + term + bytes(x) + b' ' + 3 * term, k)
    for n in (0, 1, 2, 3):
        for x in itertools.product(b'mixuonse' if n < 3 else b'mxu', repeat=n):
            yield ('options', b'/' + bytes(x))
    for t in (b'A\n', b'A', b'A\r\n', b'A\r', b'A \n', b' A\n', b'\tA\n', b'  \t A\r\n', b'AB\n', b'A\rx\n', b'\nA\n', b' \nA\n', b'a\n', b'BA\n', b'AA\n', b'A;\n', b'A.x\n', b'\n', b'AB', b' AB\n', b'A\nA\n', b'B\nA\n', b'A B\n', b'A', b' A', b'.A\n', b'#A\n'):
        for e in (b'A', b'AB', b'A B', b'A '):
            for ind in (0, 0x20):
                yield ('terminator', t, e, ind)
    for b in range(33, 127):
        if b != 92:
            yield ('char', bytes([b]) + b' ')
            if chr(b) not in 'uxMCc':
                yield ('char', b'\\' + bytes([b]) + b' ')
    for e in ESCAPES:
        if not e.endswith((b'M', b'C')) and b'\xc3' not in e:
            yield ('char', b'\\' + e + b' ')
    for e in UNICODE:
        if b' ' not in e and b'\t' not in e:
            yield ('char', b'\\u' + e + b' ')
    al = b'0178a_.eE+xbdori'
    for n in (1, 2, 3):
        for x in itertools.product(al, repeat=n):
            for p in (b'0', b'1'):
                yield ('number', p + bytes(x) + b' ', False)
    for sign in (b'', b'+'):
        for t in (b'0', b'1', b'12', b'0x1f', b'0XAB', b'0b101', b'0B1', b'0d19', b'0D9', b'0o17', b'0O7', b'017', b'0_17', b'1_000_000', b'0xdead_beef', b'0b1_0', b'0o1_7', b'0d1_9', b'1.5', b'1.50_1', b'0.5', b'1e5', b'1E-5', b'1.5e+1_0', b'0e1', b'10.25e9'):
            for suf in (b'', b'r', b'i', b'ri', b'ir', b'ii', b'rr', b'rx', b'r1', b'_', b'if', b'..2', b'.foo', b'e', b'.5', b'e+', b'_r'):
                for end in (b' ', b'\n', b')', None):
                    yield ('number', sign + t + suf + (end or b''), end is None)
    for n in range(0, 6):
        for x in itertools.product(b' \ta', repeat=n):
            for w in (0, 1, 2, 4, 7, 8, 9, 12, 16, 20):
                if w == 20 or n < 5:
                    yield ('dedent', bytes(x) + b'.\n', w)
    for n in range(0, 6):
        for x in itertools.product(b' \t', repeat=n):
            for w in (3, 8, 1000):
                yield ('indent', bytes(x) + b'a  ', w)
    for n in (6, 7, 8, 9, 15, 16, 17):
        for w in (3, 7, 8, 9, 16):
            yield ('dedent', b' ' * n + b'\ta', w)
            yield ('indent', b' ' * n + b'\ta', w)
    for kind in (('Heredoc', 'Begin'), ('Heredoc', 'Ivar'), ('Heredoc', 'Gvar'), ('XHeredoc', 'Begin')):
        for n in (1, 2, 3, 4):
            for x in itertools.product((b'    a\n', b'  b', None), repeat=n):
                # a text that does not end its line is followed by an interpolation or by the end
                if all(p != b'  b' or q is None for p, q in zip(x, x[1:])):
                    yield ('parts', kind, x, 2)


def expected(t):
    """(outcome with None where nothing is said)"""
    k = t[0]
    try:
        if k == 'escape':
            v, n = r_escape(t[1])
            return (v, n, False)
        if k == 'string':
            _, func, term, paren = KINDS[t[2]]
            b, n, _ = r_string(t[1], func, term[0], paren[0] if paren else None)
            return (b, n, False)
        if k == 'literal':
            _, func, term, paren = KINDS[t[2]]
            q, n = r_literal(t[1], func, term[0], paren[0] if paren else None)
            return (tuple(q), n, False)
        if k == 'options':
            return (bytes(sorted(set(t[1][1:]))),)
        if k == 'terminator':
            l = t[1].split(b'\n')[0] + (b'\n' if b'\n' in t[1] else b'')
            if t[3]:
                l = l.lstrip(b' \t\r\n\f') if l.strip() else l
            return (l in (t[2], t[2] + b'\n', t[2] + b'\r\n'),)
        if k == 'char':
            c = t[1]
            if c[0] != 92:
                return (c[:1], 1, False)
            if c[1] == 117:
                b, n = r_unicode(c, 2, False)
                return (b, n, False)
            v, n = r_escape(c, 1)
            return (bytes([v]), n, False)
        if k == 'number':
            tok, n = r_number(t[1])
            return (tok, t[1][:n], n, False)
        if k == 'dedent':
            return (r_dedent(t[1], t[2]),)
        if k == 'indent':
            return (min(t[2], r_width(t[1])),)
        if k == 'parts':
            out, bol = [], True
            for p in t[2]:
                if p is None:
                    out.append(None)
                    bol = False
                else:
                    p = r_dedent(p, t[3]) if bol else p
                    bol = True
                    if p:
                        out.append(p)
            return (tuple(out),)
    except IndexError:
        return None
    except Bad:
        return (None,) * (3 if k == 'number' else 2) + (True,)


def agree(o, e):
    return all(y is None or x == y or x == '?' for x, y in zip(o, e))


def judge(R, t):
    e = expected(t)
    k = t[0]
    if k == 'escape':
        r = R.escape(t[1], t[2])
    elif k == 'string':
        _, func, term, paren = KINDS[t[2]]
        r = R.string(t[1], func, term[0], paren[0] if paren else 0)
    elif k == 'number':
        r = R.number(t[1], t[2])
    elif k == 'literal':
        _, func, term, paren = KINDS[t[2]]
        r = R.literal(t[1], func, term[0], paren[0] if paren else 0)
    elif k == 'options':
        r = R.options(t[1])
    elif k == 'terminator':
        r = R.terminator(t[1], (t[1] + b'\n').index(b'\n') + (b'\n' in t[1]), t[2], t[3])
    elif k == 'char':
        r = R.char(t[1])
    elif k == 'dedent':
        r = R.dedent(t[1], t[2])
    elif k == 'indent':
        r = R.indent(t[1], t[2])
    else:
        r = R.parts(t[1], t[2], t[3])
    if not r or all(any(x == '?' and y is not None for x, y in zip(o, e)) and agree(o, e) for o, _ in r):
        return ('undecided', t, e, None)
    wrong = [o for o, sure in r if not agree(o, e) and (sure or not any(agree(p, e) for p, _ in r))]
    return ('bad' if wrong else 'ok', t, e, wrong[:1])


def where(t):
    k = t[0]
    if k == 'string':
        return 'tokadd_string', '%s read from %r' % (KINDS[t[2]][0], t[1].decode('latin1'))
    if k == 'literal':
        return 'parse_string', 'the %s literal %r' % (KINDS[t[2]][0], t[1].decode('latin1'))
    if k == 'options':
        return 'regexp_options', 'the options of a regexp ended by %r' % t[1].decode()
    if k == 'terminator':
        return 'is_whole_match', 'the line %r ends the heredoc %r%s' % (t[1].decode(), t[2].decode(), ' (indented end allowed)' if t[3] else '')
    if k == 'escape':
        return 'read_escape', 'escape \\%s' % t[1].decode('latin1').encode('unicode_escape').decode()
    if k == 'number':
        return 'parse_numeric', 'number %r%s' % (t[1].decode('latin1'), ' at the end of the input' if t[2] else '')
    if k == 'char':
        return 'parse_qmark', 'character literal ?%s' % t[1].decode('latin1')
    if k == 'dedent':
        return 'dedent_string', 'removing an indentation of %d from %r' % (t[2], t[1].decode())
    if k == 'indent':
        return 'update_heredoc_indent', 'indentation of the heredoc line %r (level so far %d)' % (t[1].decode(), t[2])
    return 'heredoc_dedent', 'dedenting the %s parts %r by %d' % (t[1][0], t[2], t[3])


_R = None


def _work(ts):
    out = []
    lost = {}
    for t in ts:
        # a function that is beyond the models three times is not asked again
        if lost.get(t[0], 0) >= 3 or time.monotonic() > _R.deadline:
            out.append(('undecided', t, None, None))
            continue
        _R.limits = 0
        out.append(judge(_R, t))
        lost[t[0]] = lost.get(t[0], 0) + (_R.limits > 0)
    return out


def check(ctx, rep):
    global _R
    P = ctx.prog
    R = _R = Runner(P)
    R.deadline = time.monotonic() + 600
    rep.rule = 'the functions that read a literal, evaluated over their MIR with the spelling known and the parser state unknown, give on every path the value, the token, the extent and the error that Ruby gives for that spelling'
    rep.assumptions = ['spellings up to the lengths enumerated', 'a path that depends on a function without a model decides nothing']
    rep.trusted = ['rustc MIR', 'vf/interp.py and its models', 'the specification of literals in vf/checks/c23.py']
    for k, n in R.f.items():
        rep.anchor(k, n)
    if not all(R.f.values()):
        return
    ts = [t for t in dict.fromkeys(tasks()) if expected(t) is not None]
    n = 64
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = [x for r in pool.map(_work, [ts[i::n] for i in range(n)]) for x in r]
    und = {}
    tot = {}
    bad = {}
    for r, t, e, w in res:
        k = t[0]
        tot[k] = tot.get(k, 0) + 1
        if r == 'undecided':
            und[k] = und.get(k, 0) + 1
        elif r == 'ok':
            rep.ok('%s: %s' % where(t))
        else:
            bad.setdefault(k, []).append((t, e, w[0]))
    for k in bad:
        for t, e, w in sorted(bad[k], key=lambda x: (len(str(x[0])), str(x[0])))[:12]:
            f, what = where(t)
            fn = P.fns[R.f[f]]
            rep.bad('%s:%s' % (f, what), '%s: %s gives %s, Ruby gives %s' % (R.f[f].split('::')[-1], what, show(w), show(e)), getattr(fn, 'span', None))
    for k in tot:
        rep.counts[k] = tot[k]
        rep.counts[k + ' undecided'] = und.get(k, 0)


def show(o):
    return 'an error' if o[-1] is True else ', '.join(repr(x) for x in (o[:-1] if o[-1] is False else o) if x is not None)
