"""Abstract evaluation of grammar actions together with the node builder.

The action of each production is evaluated on symbolic parts: part i of the production stands for any value the part can
have (token, node, list of nodes, or one of the small structs actions pass to each other). Every function of the builder is
analysed at its call with the caller's symbolic arguments; branching on something unknown visits every branch. Lists of
nodes are taken with 0, 1, 2 and 3 elements. What comes out is, per path, the symbolic value handed to the enclosing rule:
a tree of node constructors whose leaves are the parts of the production, with every range a (min, max) over begins and
ends of the parts.
"""
from . import models, rules
from .interp import Interp, State, sym, UNIT, TRUE, FALSE, proj
from .models import some, NONE, cases, deref

AST = 'lib_ruby_parser_ast::'
NODE = AST + 'Node'
LOC = AST + 'Loc'
PV = 'parse_value::'
TOKEN = 'token::Token'
IMPL = AST + 'nodes::node::<impl lib_ruby_parser_ast::Node>::'

# the state of the parser outside the tree: unknown results
OPAQUE = ('lexer::', 'static_environment::', 'context::', 'max_numparam_stack::', 'current_arg_stack::', 'variables_stack::',
          'stack_state::', 'error::', 'source::', 'str_term::', 'lex_state::', 'token_buf::', 'bytes::', 'token::')


def fld(P, adt, name):
    for i, (n, t) in enumerate(P.adts[adt]['variants'][0][1]):
        if n == name:
            return i
    return None


def begin(l):
    return proj(l, 0)


def end(l):
    return proj(l, 1)


def mm(op, a, b):
    s = set()
    for x in (a, b):
        if x[0] == op:
            s |= set(x[1])
        else:
            s.add(x)
    return (op, tuple(sorted(s, key=repr))) if len(s) > 1 else s.pop()


def join(a, b):
    if a == b:
        return a
    return mkloc(mm('mn', begin(a), begin(b)), mm('mx', end(a), end(b)))


def mkloc(b, e):
    if b[0] == 's' and e[0] == 's' and b[1][:-1] == e[1][:-1] and b[1][-1] == 0 and e[1][-1] == 1:
        return ('s', b[1][:-1])
    return ('a', LOC, 0, (b, e))


FIRSTLAST = ('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
models.MAXVEC = 60
EDITS = ('pop', 'push', 'push_str', 'remove', 'insert', 'insert_str', 'truncate', 'clear', 'retain', 'drain', 'split_off')


class BuildHooks(rules.RuleHooks):
    LENS = (0, 1, 2, 3)
    BORROWED = 'peek'

    def setup(self, P):
        self.P = P
        self.exi = {}
        for i, (n, fs) in enumerate(P.adts[NODE]['variants']):
            self.exi[i] = fld(P, fs[0][1], 'expression_l')
        self.panics = {}
        self.verdicts = {}
        self.texts = {}
        return self

    # ------------------------------------------------------------ values of the parts
    def mat(self, ty, v):
        """all shapes of a value of type ty named by the symbol v"""
        ty = ty.strip()
        if ty.startswith('std::boxed::Box<'):
            return [('B', x) for x in self.mat(inner(ty), ('s', v[1]))]
        if ty.startswith('std::option::Option<'):
            return [NONE] + [some(x) for x in self.mat(inner(ty), ('s', v[1] + ('some',)))]
        if ty.startswith('std::vec::Vec<') and inner(ty) in (NODE,):
            return [('v', None, tuple(('s', v[1] + (('el', i, n),)) for i in range(n))) for n in self.LENS]
        if ty.startswith('(') and ty.endswith(')') and ty != '()':
            return self.prod([self.mat(t, ('s', v[1] + (('f', i, str(i)),))) for i, t in enumerate(split(ty[1:-1]))], lambda fs: ('t', fs))
        a = self.P.adts.get(ty)
        if a is None or ty in (NODE, TOKEN, LOC, 'context::Context', 'str_term::StrTerm') or ty.startswith('lib_ruby'):
            return [v]
        if a['enum']:
            out = []
            for i, (n, fs) in enumerate(a['variants']):
                out += self.prod([self.mat(t, ('s', v[1] + (('f', j, f),))) for j, (f, t) in enumerate(fs)], lambda x, i=i: ('a', ty, i, x))
            return out
        n, fs = a['variants'][0]
        return self.prod([self.mat(t, ('s', v[1] + (('f', j, f),))) for j, (f, t) in enumerate(fs)], lambda x: ('a', ty, 0, x))

    def prod(self, parts, mk):
        out = [()]
        for p in parts:
            out = [o + (x,) for o in out for x in p]
        return [mk(o) for o in out]

    def on_call(self, I, name, ci, args, st, fr, site):
        if (name.startswith(PV) or name.startswith('<') and 'From<parse_value::ParseValue>' in name or name.endswith('::from')) and args and args[0][0] == 's' and self.isrhs(args[0]):
            f = self.P.fns.get(name)
            if f is not None and f.kind == 'fn' and f.locals[1] == PV + 'ParseValue':
                out = []
                part = ('part', args[0][1][0][1])
                if part in st.fl:
                    return []
                for x in self.mat(f.locals[0], args[0]):
                    s2 = st.copy()
                    s2.fl[part] = (f.locals[0], x)
                    out.append((x, s2))
                return out
        return rules.RuleHooks.on_call(self, I, name, ci, args, st, fr, site)

    def remember(self, v):
        return v[0] == 'disc' or v[0] == 'op' and isinstance(v[2], str) and v[2].endswith('::is_empty') or self.toktest(v) is not None

    def keep(self, k):
        return hasrhs(k)

    @staticmethod
    def toktest(v):
        """(path of the token, number, sense) when v compares the kind of a token"""
        if v[0] == 'op' and v[1] in ('Eq', 'Ne') and len(v) > 3:
            a, b = v[2], v[3]
            if a[0] == 'i':
                a, b = b, a
            if a[0] == 's' and b[0] == 'i' and len(a[1]) > 1 and a[1][-1] == 0 and isinstance(a[1][0], tuple) and a[1][0][0] == 'rhs':
                return a[1][:-1], b[1], v[1] == 'Eq'
        return None

    def isrhs(self, v):
        return len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'rhs'

    def on_panic(self, I, st, site, what):
        self.panics.setdefault(site, what)

    def call(self, I, name, ci, args, st, fr, site):
        if name == IMPL + 'expression':
            r = args[0]
            v = deref(I, st, r)
            if v[0] == 'a' and v[1] == NODE and r[0] == '&':
                return [(('&', r[1], r[2] + (('d', v[2]), 0, self.exi[v[2]])), st)]
            st = st.copy()
            l = self.expr(v, st)
            cell = ('H', ('exprof', v))
            st.mem[cell] = l
            st._k = None
            return [(('&', cell, ()), st)]
        f = self.P.fns.get(name)
        if f is not None and any(x is f for x in I.stack) and f.locals[0] == 'std::boxed::Box<%s>' % NODE and f.argc and f.locals[f.argc] == f.locals[0]:
            # recursion into a child: the child, possibly replaced by a node around it (shown for one level, hence for all)
            return [(('op', 'rec', name, args[f.argc - 1]), st)]
        if f is not None and any(x is f for x in I.stack) and f.locals[0] == 'std::result::Result<std::boxed::Box<%s>, ()>' % NODE:
            # the same with a list of children, or with a failure
            kids = tuple((f.locals[i + 1], a) for i, a in enumerate(args) if NODE in f.locals[i + 1] and not f.locals[i + 1].startswith('&'))
            if kids:
                return [(models.ok(('B', ('op', 'recn', name, kids))), st.copy()), (models.err(UNIT), st.copy())]
        if name.startswith('alloc_from_pool::Factory') and name.endswith('::alloc'):
            return [(args[1], st)]
        if name in FIRSTLAST and args[0][0] in ('&', 's'):
            v = deref(I, st, args[0])
            if v[0] == 's':
                w = 'first' if name.endswith('first') else 'last'
                x = st.asm.get(('disc', ('op', 'nonempty', v)))
                out = []
                if x != 0:
                    s1 = st.copy()
                    s1.asm[('disc', ('op', 'nonempty', v))] = 1
                    out.append((some(('&', ('H', v[1] + (w,)), ())), s1))
                if x != 1:
                    s1 = st.copy()
                    s1.asm[('disc', ('op', 'nonempty', v))] = 0
                    out.append((NONE, s1))
                return out
        if name in ('token::Token::into_string',):
            return [(models.ok(('op', 'text', args[0])), st)]
        if name in ('token::Token::to_string_lossy', 'token::Token::as_str_lossy'):
            return [(('op', 'text', deref(I, st, args[0])), st)]
        if name in ('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::slice::Iter<'a, T> as std::iter::Iterator>::next") and args[0][0] == '&':
            # children of a node that came from a part: first element, and the rest
            it = I.read(st, args[0][1], args[0][2])
            if it[0] == 'a' and it[1] == models.ITER and it[3][0][1] is not None and it[3][0][1][0] == 's' and not it[3][0][2]:
                b = it[3][0][1]
                if b[1][-1] == 'tail' and len([x for x in b[1] if x == 'tail']) > 2:
                    return None
                s1 = st.copy()
                I.write(s1, args[0][1], args[0][2], ('a', models.ITER, it[2], (('v', ('s', b[1] + ('tail',)), ()),)))
                h = ('s', b[1] + ('head',))
                if it[2] == 1:
                    cell = ('H', h[1])
                    h = ('&', cell, ())
                s2 = st.copy()
                I.write(s2, args[0][1], args[0][2], models.mkiter(()))
                return [(some(h), s1), (NONE, s2)]
        if name in (AST + 'Loc::join', AST + 'Loc::maybe_join'):
            a = deref(I, st, args[0])
            b = deref(I, st, args[1])
            if name.endswith('maybe_join'):
                out = []
                for vi, pl, s2 in cases(I, st, b):
                    out.append((join(a, pl) if vi else a, s2))
                return out
            return [(join(a, b), st)]
        if name in (AST + 'Loc::with_begin', AST + 'Loc::with_end'):
            a = deref(I, st, args[0])
            return [(mkloc(args[1], end(a)) if name.endswith('begin') else mkloc(begin(a), args[1]), st)]
        if name in (AST + 'Loc::adjust_begin', AST + 'Loc::adjust_end'):
            a = deref(I, st, args[0])
            from .interp import binop
            if name.endswith('begin'):
                return [(mkloc(binop('Add', begin(a), args[1]), end(a)), st)]
            return [(mkloc(begin(a), binop('Add', end(a), args[1])), st)]
        if name == AST + 'Loc::resize':
            a = deref(I, st, args[0])
            return [(mkloc(begin(a), ('op', 'resized', begin(a), args[1])), st)]
        if name in ('builder::Builder::error', 'builder::Builder::warn', 'error::diagnostic::Diagnostics::emit'):
            return self.event(I, name, args, st, site) or [(UNIT, st)]
        if name.startswith(OPAQUE) or name.startswith('<') and name[1:].startswith(OPAQUE):
            r = self.outside(I, name, args, st, site)
            if r is not None:
                return r
            f = self.P.fns.get(name)
            if f is not None and f.locals[0] == '()':
                st = st.copy()
                st.fl['ver'] = min(st.fl.get('ver', 0) + 1, 3)
                st._k = None
                return [(UNIT, st)]
            return [(self.lib(I, 'ext', name, args, st) + (st.fl.get('ver', 0),), st)]
        if self.verdict(name):
            # a check that only looks: it accepts or rejects
            r = self.event(I, name, args, st, site)
            if r is not None:
                return r
            if self.P.fns[name].locals[0] == '()':
                return [(UNIT, st)]
            return [(models.ok(UNIT), st.copy()), (models.err(UNIT), st.copy())]
        if self.textual(name):
            return [(self.lib(I, 'ext', name, args, st), st)]
        if name not in models.M and name not in self.P.fns and name.rsplit('::', 1)[1] in EDITS and ('String' in name or 'Bytes' in name) and args and args[0][0] == '&':
            v = I.read(st, args[0][1], args[0][2])
            if v[0] in ('op', 's', 'str'):
                r = self.lib(I, 'lib', name, args, st)
                st = st.copy()
                if models.vdepth(v) <= 6:
                    I.write(st, args[0][1], args[0][2], ('op', 'edit', v) + tuple(x for x in args[1:] if x[0] in ('str', 'i', 's', 'op')))
                st._k = None
                return [(r, st)]
        if name not in models.M and name not in self.P.fns:
            return [(self.lib(I, 'lib', name, args, st), st)]
        return None

    def lib(self, I, kind, name, args, st):
        """result of a function that is not analysed: an unknown, but the same for the same arguments"""
        a = []
        for x in args:
            for _ in range(3):
                if x[0] != '&' or x[1] == ('H', ('parser',)):
                    break
                x = I.read(st, x[1], x[2])
            while x[0] == 's' and len(x[1]) == 2 and x[1][0] == 'deref' and isinstance(x[1][1], tuple):
                x = x[1][1]
            a.append(('self', self.place(x)) if x[0] == '&' else x)
        return ('op', kind, name, tuple(a))

    def place(self, r):
        """name of the field of the parser a reference points to"""
        ty, n = 'parser::parse::Parser', ''
        for e in r[2]:
            a = self.P.adts.get(ty)
            if a is None or a['enum'] or not isinstance(e, int) or e >= len(a['variants'][0][1]):
                break
            n, ty = a['variants'][0][1][e]
        return n

    def verdict(self, name):
        if name not in self.verdicts:
            f = self.P.fns.get(name)
            r = False
            if f is not None and f.kind == 'fn' and '{closure' not in name and f.locals[0] in ('()', 'std::result::Result<(), ()>'):
                tys = f.locals[1:f.argc + 1]
                r = not any(t.startswith('&mut') and not ('HashMap<' in t and '&' + NODE in t) or NODE in t and not t.startswith('&') or 'PoolValue<' in t and not t.startswith('&') for t in tys)
            self.verdicts[name] = r
        return self.verdicts[name]

    def textual(self, name):
        """functions that only compute a text from what they are given"""
        if name not in self.texts:
            f = self.P.fns.get(name)
            r = False
            if f is not None and f.kind == 'fn' and '{closure' not in name and not name.endswith('::from'):
                t = f.locals[0].replace('std::option::Option<', '').rstrip('>')
                tys = f.locals[1:f.argc + 1]
                r = (t in ('std::string::String', AST + 'Bytes', 'std::vec::Vec<std::string::String') and
                     not any((NODE in x or 'PoolValue<' in x) and not x.startswith('&') or x.startswith('&mut') for x in tys))
            self.texts[name] = r
        return self.texts[name]

    def event(self, I, name, args, st, site):
        return None

    def outside(self, I, name, args, st, site):
        return None

    def finish(self, outs):
        return outs

    def variant(self, st, v):
        return st.asm.get(('disc', v))

    def norm(self, v, st):
        """an overwritten node whose kind is known, as an explicit node"""
        if v[0] == 'P':
            k = self.variant(st, v[1])
            if k is None:
                return v
            adt = self.P.adts[NODE]['variants'][k][1][0][1]
            n = len(self.P.adts[adt]['variants'][0][1])
            inner = proj(v, 0)
            base = proj(v[1], 0)
            return ('a', NODE, k, (('a', adt, 0, tuple(proj(inner, i) for i in range(n))),))
        return v

    def expr(self, v, st):
        """range of a node value"""
        if v[0] == 'B':
            v = v[1]
        if v[0] == 'a' and v[1] == NODE:
            return v[3][0][3][self.exi[v[2]]] if v[3][0][0] == 'a' else proj(v[3][0], self.exi[v[2]])
        if v[0] == 'P':
            n = self.norm(v, st)
            if n[0] == 'P':
                return ('s', ('exprP', v))
            return self.expr(n, st)
        if v[0] == 'op' and v[1] == 'rec':
            return self.expr(v[3], st)
        if v[0] == 's':
            return ('s', v[1] + ('expr',))
        return ('s', ('exprof', v))


def inner(ty):
    return ty[ty.index('<') + 1:-1]


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def show(P, v, d=0):
    """compact rendering of a symbolic value"""
    k = v[0]
    if k == 'i':
        return str(v[1])
    if k == 's':
        return '.'.join(str(x[1] if isinstance(x, tuple) and x[0] == 'rhs' and False else ('$%s' % x[1] if isinstance(x, tuple) and x[0] == 'rhs' else x)) for x in v[1])
    if k == 'B':
        return show(P, v[1], d)
    if k == 'a':
        if v[1] == NODE:
            return show(P, v[3][0], d)
        if v[1] == models.OPT:
            return 'None' if v[2] == 0 else show(P, v[3][0], d)
        if v[1] == LOC:
            return '[%s..%s]' % (show(P, v[3][0]), show(P, v[3][1]))
        a = P.adts.get(v[1])
        if a:
            n, fs = a['variants'][v[2]]
            return '%s{%s}' % (n, ', '.join('%s: %s' % (fs[i][0], show(P, x, d + 1)) for i, x in enumerate(v[3])))
        return '%s#%d(%s)' % (v[1].split('::')[-1], v[2], ', '.join(show(P, x, d + 1) for x in v[3]))
    if k == 't':
        return '(%s)' % ', '.join(show(P, x) for x in v[1])
    if k in ('mn', 'mx'):
        return '%s(%s)' % (k, ', '.join(show(P, x) for x in v[1]))
    if k == 'v':
        return '[%s%s]' % ('..%s, ' % show(P, v[1]) if v[1] else '', ', '.join(show(P, x) for x in v[2]))
    if k == 'str':
        return repr(v[1])
    if k == 'P':
        return 'P<%s|%s>' % (show(P, v[1]), ', '.join('%s=%s' % (e, show(P, x)) for e, x in v[2]))
    return str(v)[:120]


# ------------------------------------------------------------------ reading values
def key(path):
    """source position of what the symbol stands for, as a tuple comparable with others of the same production"""
    out = []
    for e in path:
        if isinstance(e, tuple) and e[0] in ('rhs', 'loc'):
            out.append(e[1])
        elif isinstance(e, tuple) and e[0] in ('f', 'el'):
            out.append(e[1])
        elif e in ('some', '*'):
            continue
        else:
            break
    return tuple(out)


def before(a, b):
    """does a stand before b in the source? None when one contains the other"""
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return None
    return a < b


def is_opt(ty):
    return ty.startswith('std::option::Option<')


def walk(P, ty, v, f, d=0):
    """calls f(what, type, value) for every constructor, node, token, range and text in v"""
    ty = ty.strip()
    if d > 40:
        f('unknown', ty, v)
        return
    if v[0] == 'B':
        walk(P, inner(ty) if ty.startswith('std::boxed::Box<') else ty, v[1], f, d + 1)
        return
    if ty.startswith('std::boxed::Box<'):
        walk(P, inner(ty), v, f, d + 1)
        return
    if is_opt(ty):
        if v[0] == 'a' and v[1] == models.OPT:
            if v[2] == 1:
                walk(P, inner(ty), v[3][0], f, d + 1)
            return
        walk(P, inner(ty), v, f, d + 1)
        return
    if ty.startswith('std::vec::Vec<'):
        if v[0] == 'v':
            f('list', ty, v)
            if v[1] is not None:
                walk(P, ty, v[1], f, d + 1)
            for x in v[2]:
                if x[0] == 'spread':
                    walk(P, ty, x[1], f, d + 1)
                else:
                    walk(P, inner(ty), x, f, d + 1)
        else:
            f('nodes' if NODE in ty else 'text', ty, v)
        return
    if ty.startswith('alloc_from_pool::PoolValue<'):
        f('token', ty, v)
        return
    if ty.startswith('(') and ty != '()':
        ts = split(ty[1:-1])
        if v[0] == 't':
            for t, x in zip(ts, v[1]):
                walk(P, t, x, f, d + 1)
        else:
            f('unknown', ty, v)
        return
    if ty == LOC:
        f('loc', ty, v)
        return
    if ty == NODE:
        if v[0] == 'a' and v[1] == NODE:
            f('ctor', ty, v)
            adt = P.adts[NODE]['variants'][v[2]][1][0][1]
            s = v[3][0]
            for i, (n, t) in enumerate(P.adts[adt]['variants'][0][1]):
                walk(P, t, proj(s, i), f, d + 1)
        elif v[0] == 'op' and v[1] == 'rec':
            walk(P, ty, v[3], f, d + 1)
        elif v[0] == 'op' and v[1] == 'recn':
            for t, x in v[3]:
                walk(P, t, x, f, d + 1)
        else:
            f('node', ty, v)
        return
    a = P.adts.get(ty)
    if a is not None and v[0] == 'a' and v[1] == ty:
        for (n, t), x in zip(a['variants'][v[2]][1], v[3]):
            walk(P, t, x, f, d + 1)
        return
    f('text', ty, v)


def bears_nodes(P, ty, seen=()):
    if NODE in ty:
        return True
    for m in [ty] + ([inner(ty)] if '<' in ty else []):
        a = P.adts.get(m)
        if a is not None and m not in seen and m not in (NODE,) and not m.startswith('lib_ruby'):
            if any(bears_nodes(P, t, seen + (m,)) for n, fs in a['variants'] for _, t in fs):
                return True
    return False


# ------------------------------------------------------------------ all productions
class Outcome:
    """one path of one action: what came out, from which shapes of the parts, under which assumptions"""
    __slots__ = ('ok', 'val', 'parts', 'asm', 'fl', 'result')

    def __init__(self, ok, val, parts, asm, fl):
        self.ok, self.val, self.parts, self.asm, self.fl = ok, val, parts, asm, fl


def hasrhs(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return isinstance(v[1][0], tuple) and v[1][0][0] == 'rhs'
        return any(hasrhs(x) for x in v if isinstance(x, tuple))
    return False


def deep(h, v, st):
    """overwritten nodes made explicit, everywhere in v"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'P':
        n = h.norm(v, st)
        if n[0] != 'P':
            return deep(h, n, st)
    return tuple(deep(h, x, st) for x in v)


_R = None


def _work(num):
    R = _R
    r = R.g.rules[num]
    out = []
    try:
        for kind, val, rv, st in R.run(r):
            if val is not None:
                val = deep(R.h, val, st)
            parts = {k[1]: v for k, v in st.fl.items() if isinstance(k, tuple) and k[0] == 'part'}
            asm = {k: x for k, x in st.asm.items() if R.h.keep(k)}
            fl = {k: x for k, x in st.fl.items() if isinstance(k, str) and k != 'ver'}
            o = Outcome(kind == 'ok', val, parts, asm, fl)
            o.result = None
            p = st.mem.get(('H', ('parser',)))
            if p is not None and p[0] == 'P':
                o.result = next((x for e, x in p[2] if e == R.result_field), None)
            out.append(o)
    except Exception as e:
        return num, e
    return num, R.h.finish(out)


def outcomes(ctx, hooks=None, only=None):
    """{rule number: [Outcome]}"""
    global _R
    import os
    from multiprocessing import get_context
    h = (hooks or BuildHooks()).setup(ctx.prog)
    R = rules.Runner(ctx, h, 300000)
    R.I.remember = h.remember
    R.I.keep_asm = h.keep
    R.result_field = fld(ctx.prog, 'parser::parse::Parser', 'result')
    _R = R
    nums = [r.num for r in R.g.rules[1:] if only is None or only(r)]
    # long ones first
    nums.sort(key=lambda n: -sum(3 if s in ('assocs', 'assoc_list') else 1 for s in R.g.rules[n].rhs))
    res = {}
    with get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        for num, out in p.imap_unordered(_work, nums, 1):
            if isinstance(out, Exception):
                raise RuntimeError('%s: %r' % (R.g.rules[num], out))
            res[num] = out
    return R, res
