"""Laws of the small state containers (scopes, stacks, context flags), decided by abstract evaluation of their operations.

Every operation is evaluated over its MIR on a container whose sets of names and depth are arbitrary (symbols); sets are models
of mathematical sets. An operation's outcome is the list of (value, condition) pairs over all its paths."""
from . import models
from .interp import Interp, State, Hooks as IHooks, UNIT

SETNAMES = ('std::collections::BTreeSet', 'std::collections::HashSet')
TEXT = ('ToString::to_string', 'ToString>::to_string', 'ToOwned>::to_owned', 'Borrow<T>>::borrow', 'From<&str>>::from', 'AsRef<str>>::as_ref', 'Into<U>>::into', 'String::as_str')


class Hooks(IHooks):
    def __init__(self):
        self.abort = []

    def on_panic(self, I, st, site, what):
        self.abort.append((site, what))

    def on_call(self, I, name, ci, args, st, fr, site):
        op = name.split('::')[-1]
        if any(s in name for s in SETNAMES):
            if op in ('new', 'default'):
                return [(('set', None, ()), st)]
            if op == 'insert':
                st = st.copy()
                r = args[0]
                s = norm(I.read(st, r[1], r[2]))
                x = text(I, st, args[1])
                I.write(st, r[1], r[2], ('set', s[1], s[2] + ((x,) if x not in s[2] else ())))
                return [(I.fresh(st, site), st)]
            if op in ('contains', 'get'):
                s = norm(models.deref(I, st, args[0]))
                x = text(I, st, args[1])
                yes = models.some(args[1]) if op == 'get' else ('i', 1)
                no = models.NONE if op == 'get' else ('i', 0)
                if x in s[2]:
                    return [(yes, st)]
                if s[1] is None:
                    return [(no, st)]
                k = ('in', s[1], x)
                if k in st.asm:
                    return [(yes if st.asm[k] else no, st)]
                a, b = st.copy(), st.copy()
                a.asm[k] = 1
                b.asm[k] = 0
                return [(yes, a), (no, b)]
            if op == 'remove':
                st = st.copy()
                r = args[0]
                s = norm(I.read(st, r[1], r[2]))
                x = text(I, st, args[1])
                I.write(st, r[1], r[2], ('set', s[1], tuple(y for y in s[2] if y != x)) if x in s[2] else ('set', ('s', ('without', s[1], x)), s[2]))
                return [(I.fresh(st, site), st)]
            if op == 'clear':
                st = st.copy()
                I.write(st, args[0][1], args[0][2], ('set', None, ()))
                return [(UNIT, st)]
            if op == 'is_empty':
                s = norm(models.deref(I, st, args[0]))
                if s[2]:
                    return [(('i', 0), st)]
                if s[1] is None:
                    return [(('i', 1), st)]
        if name.endswith('as_bytes') and args:
            v = text(I, st, args[0])
            if v[0] == 'str':
                st = st.copy()
                c = ('H', ('bytes', v[1]))
                st.mem[c] = ('v', None, tuple(('i', x) for x in v[1].encode()))
                return [(('&', c, ()), st)]
        if '::Index<' in name and len(args) == 2 and args[1][0] == 'a' and args[1][1].endswith('RangeFull'):
            return [(args[0], st)]
        if 'cmp::PartialEq' in name and op in ('eq', 'ne') and len(args) == 2:
            a, b = text(I, st, args[0]), text(I, st, args[1])
            if a[0] == b[0] == 'str':
                return [(('i', int((a[1] == b[1]) == (op == 'eq'))), st)]
        r = texts(I, name, op, args, st, fr, site)
        if r is not None:
            return r
        if any(name.endswith(t) for t in TEXT):
            v = args[0]
            for _ in range(2):
                if v[0] == '&':
                    v = I.read(st, v[1], v[2])
            return [(v, st)]
        if op == 'max' and 'cmp' in name or op == 'min' and 'cmp' in name:
            if args[0][0] == args[1][0] == 'i':
                return [(('i', (max if op == 'max' else min)(args[0][1], args[1][1])), st)]
        if name.startswith('<std::vec::Vec<T, A> as std::ops::Index') and args[0][0] == '&' and args[1][0] == 'i':
            v = I.read(st, args[0][1], args[0][2])
            if v[0] == 'v' and v[1] is None and 0 <= args[1][1] < len(v[2]):
                return [(('&', args[0][1], args[0][2] + (('ix', args[1][1]),)), st)]
        if name == '<std::rc::Rc<T> as std::default::Default>::default' and ci.get('args'):
            t = ci['args'][0]
            for w in ('std::rc::Rc<', 'std::cell::RefCell<'):
                if t.startswith(w):
                    t = t[len(w):-1]
            f = I.p.fns.get('<%s as std::default::Default>::default' % t)
            if f is not None:
                (v, st), = I.run(f, [], st, fr + 1)
                return [models.new_rc(st, site, v)]
        if op == 'default' and any('for %s>' % t in name or '<%s as' % t in name for t in ('usize', 'i32', 'u8', 'u32', 'u64', 'bool')):
            return [(('i', 0), st)]
        if name in ('std::io::_print', 'std::io::_eprint'):
            return [(UNIT, st)]
        return None


CLASS = {'is_lowercase': lambda c: c.islower(), 'is_uppercase': lambda c: c.isupper(), 'is_alphabetic': lambda c: c.isalpha(), 'is_alphanumeric': lambda c: c.isalnum(), 'is_numeric': lambda c: c.isnumeric(),
         'is_ascii': lambda c: ord(c) < 128, 'is_ascii_lowercase': lambda c: 'a' <= c <= 'z', 'is_ascii_uppercase': lambda c: 'A' <= c <= 'Z', 'is_ascii_digit': lambda c: '0' <= c <= '9',
         'is_ascii_alphabetic': lambda c: c.isalpha() and ord(c) < 128, 'is_ascii_alphanumeric': lambda c: c.isalnum() and ord(c) < 128}


def texts(I, name, op, args, st, fr, site):
    """functions of known texts and characters"""
    v = text(I, st, args[0]) if args else None
    if v is None:
        return None
    if op in CLASS and v[0] == 'i':
        return [(('i', int(CLASS[op](chr(v[1])))), st)]
    if op == 'chars' and v[0] == 'str':
        return [(('chars', v[1]), st)]
    if v[0] == 'chars' and op == 'next' and args[0][0] == '&':
        st = st.copy()
        I.write(st, args[0][1], args[0][2], ('chars', v[1][1:]))
        return [(models.some(('i', ord(v[1][0]))) if v[1] else models.NONE, st)]
    if v[0] == 'chars' and op in ('all', 'any'):
        cur, done = [st], []
        for n, c in enumerate(v[1]):
            nxt = []
            for s in cur:
                for rv, s2 in I.call_value(args[1], [('i', ord(c))], s.copy(), fr, (site[0], '%s.%d' % (site[1], n))):
                    for b, s3 in models.truth(I, s2, rv):
                        if b == (op == 'any'):
                            done.append((('i', int(b)), s3))
                        else:
                            nxt.append(s3)
            cur = nxt
        return done + [(('i', int(op == 'all')), s) for s in cur]
    if v[0] == 'str' and op in ('starts_with', 'ends_with') and isinstance(v[1], str):
        p = text(I, st, args[1])
        p = chr(p[1]) if p[0] == 'i' else p[1] if p[0] == 'str' else None
        if p is not None:
            return [(('i', int(getattr(v[1], op.replace('_', ''))(p))), st)]
    if v[0] == 'str' and op == 'is_empty':
        return [(('i', int(not v[1])), st)]
    if v[0] == 'str' and op == 'len' and isinstance(v[1], str):
        return [(('i', len(v[1].encode())), st)]
    return None


def norm(v):
    if v[0] == 'set':
        return v if len(v) == 3 else ('set', v[1], ())
    return ('set', v, ())


def text(I, st, v):
    for _ in range(3):
        if v[0] == '&':
            v = I.read(st, v[1], v[2])
    return v


class Ev(Interp):
    def opaque(self, args, st, site):
        UNKNOWN.append(site)
        return Interp.opaque(self, args, st, site)


UNKNOWN = []


class Box:
    """a container and the operations applied to it so far"""

    def __init__(self, P, ty):
        self.P, self.ty = P, ty
        self.h = Hooks()
        m = {k: v for k, v in models.M.items()}
        self.I = Ev(P, m, self.h)
        self.st = State({}, {}, {})
        self.cell = ('H', ('box',))
        self.steps = 0

    def put(self, v):
        self.st.mem[self.cell] = v
        return self

    def rc(self, v):
        r, self.st = models.new_rc(self.st, 'law', v)
        return r

    def field(self, *names):
        v = self.I.read(self.st, self.cell, ())
        ty = self.ty
        for n in names:
            if v[0] == 'rc':
                v = self.st.mem[v[1]]
            i = [f[0] for f in self.P.adts[ty]['variants'][0][1]].index(n)
            v = v[3][i]
        return v

    def arg(self, x):
        if isinstance(x, bool):
            return ('i', int(x))
        if isinstance(x, int):
            return ('i', x)
        if isinstance(x, str):
            c = ('H', ('name', x))
            self.st.mem[c] = ('s', ('name', x))
            return ('&', c, ())
        return x

    def fn(self, op, ty=None):
        n = (ty or self.ty) + '::' + op
        return self.P.fns[n]

    def run(self, op, *args):
        self.steps += 1
        args = [self.arg(a) for a in args]
        return self.I.run(self.fn(op), [('&', self.cell, ())] + args, self.st)

    def new(self):
        self.steps += 1
        (v, self.st), = self.I.run(self.fn('new'), [], self.st)
        return self.put(v)

    def do(self, op, *args):
        """apply; only one way it can go"""
        r = self.run(op, *args)
        if len(r) != 1:
            # ways that differ only in a forgotten result
            ms = [s.mem.get(self.cell) for _, s in r]
            if not r or any(m != ms[0] for m in ms):
                raise Stuck('%s has %d outcomes' % (op, len(r)))
        self.st = r[0][1]
        return self

    def ask(self, op, *args):
        """{(value, ((fact, truth), ..))}"""
        out = set()
        for v, s in self.run(op, *args):
            v = text(self.I, s, v)
            out.add((v, tuple(sorted(((k, x) for k, x in s.asm.items() if k[0] == 'in'), key=str))))
        return out


class Stuck(Exception):
    pass


def T(asked):
    return {v for v, _ in asked} == {('i', 1)}


def F(asked):
    return {v for v, _ in asked} == {('i', 0)}


def member(asked, base, x):
    k = ('in', base, ('s', ('name', x)))
    return {(v, dict(c).get(k)) for v, c in asked} == {(('i', 1), 1), (('i', 0), 0)}


def lawyer(out):
    def law(text, f):
        """True, False, or None when something called is not modelled"""
        del UNKNOWN[:]
        try:
            ok = f()
        except (Stuck, KeyError, IndexError, TypeError, ValueError) as e:
            UNKNOWN.append(repr(e))
            ok = False
        out.append((text, True if ok else None if UNKNOWN else False))
    return law


def report(rep, laws):
    n = 0
    for text, ok in laws:
        if ok is None:
            continue
        n += 1
        rep.check(ok, 'law: ' + text, 'does not hold: ' + text)
    rep.floor('laws decided', n, 0)


def scopes(P):
    """StaticEnvironment: [(law, holds)]"""
    ty = 'static_environment::StaticEnvironment'
    V = ('s', ('V',))
    out = []

    def env():
        b = Box(P, ty)
        fs = [f[0] for f in P.adts[ty]['variants'][0][1]]
        # a scope with arbitrary names, within another
        b.new()
        b.st.mem[b.field('variables')[1]] = ('set', ('s', ('U',)), ())
        b.do('extend_static')
        b.st.mem[b.field('variables')[1]] = ('set', V, ())
        return b

    law = lawyer(out)

    law('a new environment knows no name', lambda: F(Box(P, ty).new().ask('is_declared', 'x')))
    law('a new environment is at the top level', lambda: T(Box(P, ty).new().ask('is_empty')))
    law('a declared name is visible', lambda: T(env().do('declare', 'x').ask('is_declared', 'x')))
    law('declaring a name does not change the others', lambda: member(env().do('declare', 'x').ask('is_declared', 'y'), V, 'y'))
    law('a name is visible iff it was declared', lambda: member(env().ask('is_declared', 'y'), V, 'y'))
    law('a block scope sees the names around it', lambda: T(env().do('declare', 'x').do('extend_dynamic').ask('is_declared', 'x')) and member(env().do('extend_dynamic').ask('is_declared', 'y'), V, 'y'))
    law('a definition scope does not see the names around it', lambda: F(env().do('declare', 'x').do('extend_static').ask('is_declared', 'x')) and F(env().do('extend_static').ask('is_declared', 'y')))
    for e in ('extend_static', 'extend_dynamic'):
        law('%s opens a scope' % e, lambda: F(env().do(e).ask('is_empty')) and F(Box(P, ty).new().do(e).ask('is_empty')))
        law('a name declared after %s is visible' % e, lambda: T(env().do(e).do('declare', 'x').ask('is_declared', 'x')))
        law('leaving a scope entered by %s restores what was visible' % e,
            lambda: member(env().do(e).do('declare', 'x').do('unextend').ask('is_declared', 'x'), V, 'x') and T(env().do('declare', 'y').do(e).do('unextend').ask('is_declared', 'y')))
        law('two nested scopes (%s) are left in order' % e,
            lambda: T(env().do('declare', 'x').do(e).do('declare', 'y').do('extend_dynamic').do('unextend').ask('is_declared', 'y')))
        law('leaving the only scope entered by %s returns to the top level' % e, lambda: T(Box(P, ty).new().do(e).do('unextend').ask('is_empty')))
    for d, q in (('declare_forward_args', 'is_forward_args_declared'), ('declare_anonymous_blockarg', 'is_anonymous_blockarg_declared')):
        law('%s is seen by %s' % (d, q), lambda: T(env().do(d).ask(q)))
        law('%s is not visible in a definition scope' % d, lambda: F(env().do(d).do('extend_static').ask(q)))
        law('%s declares no other name' % d, lambda: member(env().do(d).ask('is_declared', 'x'), V, 'x'))
    law('forwarded arguments and the anonymous block are independent', lambda: F(Box(P, ty).new().do('declare_forward_args').ask('is_anonymous_blockarg_declared'))
        and F(Box(P, ty).new().do('declare_anonymous_blockarg').ask('is_forward_args_declared')))
    law('an ordinary name is neither', lambda: F(Box(P, ty).new().do('declare', 'x').ask('is_anonymous_blockarg_declared')) and F(Box(P, ty).new().do('declare', 'x').ask('is_forward_args_declared')))
    return out


def marks(P):
    """VariablesStack, CurrentArgStack, MaxNumparamStack, SharedContext: [(law, holds)]"""
    out = []

    law = lawyer(out)

    def B(ty):
        return Box(P, ty).new()

    vs = 'variables_stack::VariablesStack'
    law('VariablesStack: new is empty', lambda: T(B(vs).ask('is_empty')) and F(B(vs).do('push').ask('is_empty')) and T(B(vs).do('push').do('pop').ask('is_empty')))
    law('VariablesStack: a new layer knows no name', lambda: F(B(vs).do('push').ask('is_declared', 'x')))
    law('VariablesStack: a noted name is known, others are not', lambda: T(B(vs).do('push').do('declare', 'x').ask('is_declared', 'x')) and F(B(vs).do('push').do('declare', 'x').ask('is_declared', 'y')))
    law('VariablesStack: two noted names are both known', lambda: T(B(vs).do('push').do('declare', 'x').do('declare', 'y').ask('is_declared', 'x')) and T(B(vs).do('push').do('declare', 'x').do('declare', 'y').ask('is_declared', 'y')))
    law('VariablesStack: an inner layer does not know outer names', lambda: F(B(vs).do('push').do('declare', 'x').do('push').ask('is_declared', 'x')))
    law('VariablesStack: leaving a layer restores the outer one', lambda: T(B(vs).do('push').do('declare', 'x').do('push').do('declare', 'y').do('pop').ask('is_declared', 'x'))
        and F(B(vs).do('push').do('declare', 'x').do('push').do('declare', 'y').do('pop').ask('is_declared', 'y')))

    ca = 'current_arg_stack::CurrentArgStack'
    X, Y = models.some(('s', ('name', 'x'))), models.some(('s', ('name', 'y')))
    N = models.NONE

    def top(b, v):
        return {x for x, _ in b.ask('top')} == {v}
    law('CurrentArgStack: new is empty', lambda: T(B(ca).ask('is_empty')) and F(B(ca).do('push', X).ask('is_empty')) and T(B(ca).do('push', X).do('pop').ask('is_empty')))
    law('CurrentArgStack: the top is what was pushed last', lambda: top(B(ca).do('push', X), X) and top(B(ca).do('push', N), N) and top(B(ca).do('push', X).do('push', Y), Y) and top(B(ca).do('push', X).do('push', N), N) and top(B(ca), N))
    law('CurrentArgStack: pop returns to the one before', lambda: top(B(ca).do('push', X).do('push', Y).do('pop'), X) and top(B(ca).do('push', N).do('push', Y).do('pop'), N))
    law('CurrentArgStack: set replaces the top only', lambda: top(B(ca).do('push', X).do('set', Y), Y) and top(B(ca).do('push', X).do('push', N).do('set', Y).do('pop'), X) and T(B(ca).do('push', X).do('set', Y).do('pop').ask('is_empty')))

    mn = 'max_numparam_stack::MaxNumparamStack'

    def val(b):
        r = {x for x, _ in b.ask('top')}
        return r.pop()[1] if len(r) == 1 and list(r)[0][0] == 'i' else None
    for s in (True, False):
        law('MaxNumparamStack: a new block has no parameters yet', lambda: F(B(mn).do('push', s).ask('has_numparams')) and F(B(mn).do('push', s).ask('has_ordinary_params')))
        law('MaxNumparamStack: _1.._9 are numbered parameters, the highest one counts', lambda: all(
            val(B(mn).do('push', s).do('register', i).do('register', j)) == max(i, j) and T(B(mn).do('push', s).do('register', i).ask('has_numparams')) and F(B(mn).do('push', s).do('register', i).ask('has_ordinary_params'))
            for i in range(1, 10) for j in range(1, 10)))
        law('MaxNumparamStack: ordinary parameters exclude numbered ones', lambda: T(B(mn).do('push', s).do('set_has_ordinary_params').ask('has_ordinary_params')) and F(B(mn).do('push', s).do('set_has_ordinary_params').ask('has_numparams')))
        law('MaxNumparamStack: an inner block starts afresh and leaves the outer one alone', lambda: F(B(mn).do('push', False).do('register', 3).do('push', s).ask('has_numparams'))
            and val(B(mn).do('push', False).do('register', 3).do('push', s).do('register', 5).do('pop')) == 3
            and T(B(mn).do('push', False).do('set_has_ordinary_params').do('push', s).do('register', 5).do('pop').ask('has_ordinary_params')))
    law('MaxNumparamStack: outside blocks there are no parameters', lambda: F(B(mn).ask('has_numparams')) and F(B(mn).ask('has_ordinary_params')) and T(B(mn).ask('is_empty')) and F(B(mn).do('push', True).ask('is_empty')) and T(B(mn).do('push', True).do('pop').ask('is_empty')))

    cx = 'context::SharedContext'
    flags = ['in_defined', 'in_kwarg', 'in_argdef', 'in_def', 'in_class', 'in_lambda', 'in_block']

    def ctx(on):
        b = B(cx)
        for f in on:
            b.do('set_' + f, True)
        return b

    def agree(b, on):
        return all(({v for v, _ in b.ask(f)} == {('i', int(f in on))}) for f in flags)
    import itertools

    def independent():
        for on in itertools.chain.from_iterable(itertools.combinations(flags, k) for k in (0, 1, 2, 6, 7)):
            on = set(on)
            if not agree(ctx(sorted(on)), on):
                return False
            for f in flags:
                for v in (True, False):
                    if not agree(ctx(sorted(on)).do('set_' + f, v), on | {f} if v else on - {f}):
                        return False
        return True
    law('context flags are independent: setting one changes that one only', independent)
    law('a dynamic block is a block or a lambda', lambda: all(
        {v for v, _ in ctx(on).ask('is_in_dynamic_block')} == {('i', int('in_block' in on or 'in_lambda' in on))} for on in itertools.chain.from_iterable(itertools.combinations(flags, k) for k in (0, 1, 2))))
    law('the context is empty iff no flag is set', lambda: T(ctx(()).ask('is_empty')) and all(F(ctx((f,)).ask('is_empty')) for f in flags))
    return out


def bits(P):
    """StackState: [(law, holds)]"""
    out = []
    law = lawyer(out)
    ty = 'stack_state::StackState'

    def B(*on):
        b = Box(P, ty)
        (v, b.st), = b.I.run(b.fn('new'), [('str', 'x')], b.st)
        b.put(v)
        for x in on:
            b.do('push', x)
        return b

    def is_(b, x):
        return {v for v, _ in b.ask('is_active')} == {('i', int(x))}
    two = (False, True)
    law('a new stack is empty and inactive', lambda: T(B().ask('is_empty')) and F(B().ask('is_active')))
    law('the top is what was pushed last', lambda: all(is_(B(a, b, c), c) for a in two for b in two for c in two))
    law('pop returns to the one before', lambda: all(is_(B(a, b, c).do('pop'), b) and is_(B(a, b, c).do('pop').do('pop'), a) for a in two for b in two for c in two))
    law('everything pushed can be popped', lambda: all(T(B(a, b).do('pop').do('pop').ask('is_empty')) for a in two for b in two))
    law('a stack with something pushed is not empty', lambda: F(B(True).ask('is_empty')) and F(B(True, False).ask('is_empty')))
    return out


MSG = 'lib_ruby_parser_ast::DiagnosticMessage'


class Names(Box):
    """a Builder with known numbered-parameter scopes, flags and declared names; other fields arbitrary"""

    def __init__(self, P, frames, flags=(), declared=()):
        Box.__init__(self, P, 'builder::Builder')
        self.word = None
        self.msgs = [n for n, _ in P.adts[MSG]['variants']]
        parts = {'max_numparam_stack': Box(P, 'max_numparam_stack::MaxNumparamStack').new(), 'context': Box(P, 'context::SharedContext').new(),
                 'static_env': Box(P, 'static_environment::StaticEnvironment').new()}
        for v, static in frames:
            b = parts['max_numparam_stack']
            b.do('push', static)
            if v < 0:
                b.do('set_has_ordinary_params')
            elif v:
                b.do('register', v)
        for f in flags:
            parts['context'].do('set_' + f, True)
        for n in declared:
            parts['static_env'].st = parts['static_env'].run('declare', ('str', n))[0][1]
        vals = []
        for f, t in P.adts['builder::Builder']['variants'][0][1]:
            if f in parts:
                vals.append(parts[f].st.mem[parts[f].cell])
                self.st.mem.update({c: v for c, v in parts[f].st.mem.items() if c != parts[f].cell})
            else:
                vals.append(('s', ('builder', f)))
        self.put(('a', 'builder::Builder', 0, tuple(vals)))
        self.h.on_call = self.hook

    def hook(self, I, name, ci, args, st, fr, site):
        if name in ('builder::value', 'builder::clone_value') and self.word is not None:
            return [(('str', self.word), st)]
        if name == 'builder::Builder::accessible' and self.word is not None:
            st = st.copy()
            n = args[1]
            n = n[1] if n[0] == 'B' else n
            st.fl['asks'] = n[2] if n[0] == 'a' else None
            return [(('s', ('value',)), st)]
        if name in ('builder::Builder::loc', 'builder::Builder::pair_keyword', 'lib_ruby_parser_ast::Loc::adjust_end', 'error::diagnostic::Diagnostics::emit'):
            return [(('s', ('any', name)), st)]
        if name == 'builder::Builder::error':
            st = st.copy()
            m = args[1]
            st.fl['errors'] = st.fl.get('errors', ()) + ((self.msgs[m[2]] if m[0] == 'a' else '?'),)
            return [(UNIT, st)]
        return Hooks.on_call(self.h, I, name, ci, args, st, fr, site)

    def results(self, op, *args):
        """{(value, errors, names, top)}"""
        out = []
        for v, s in self.run(op, *args):
            out.append((v, s.fl.get('errors', ()), s))
        return out


def numparams(P):
    """numbered parameters: declaring and assigning them: [(law, holds)]"""
    out = []
    law = lawyer(out)
    LOC = ('s', ('loc',))
    OK = 0
    FRAMES = [[(0, False)], [(-1, False)], [(3, False)], [(1, False), (0, False)], [(9, False), (-1, False)], [(-1, False), (0, False)], [(1, False), (0, True), (0, False)], [(1, False), (0, False), (0, False)],
              [(0, True), (2, False), (0, False)], [(0, False), (0, False)]]
    NAMES = ['_%d' % i for i in range(1, 10)]
    OTHER = ['_', '_0', '_10', '_a', 'a', '__', '1', '_11', '']

    def outer(fr):
        for v, static in reversed(fr[:-1]):
            if static:
                return False
            if v > 0:
                return True
        return False

    def declares(fr, flags, n, known):
        b = Names(P, fr, flags, (n,) if known else ())
        rs = b.results('try_declare_numparam', ('str', n), LOC)
        if len(rs) != 1:
            raise Stuck('outcomes')
        v, errs, s = rs[0]
        b.st = s
        want = n in NAMES and not known and bool({'in_block', 'in_lambda'} & set(flags))
        if v != ('i', int(want)):
            return False
        we = ()
        if want:
            we = (('OrdinaryParamDefined',) if fr[-1][0] < 0 else ()) + (('NumparamUsed',) if outer(fr) else ())
            if not b.I.run(P.fns['static_environment::StaticEnvironment::is_declared'], [('&', b.cell, (fidx(P, 'static_env'),)), ('str', n)], s)[0][0] == ('i', 1):
                return False
            t = b.I.run(P.fns['max_numparam_stack::MaxNumparamStack::top'], [('&', b.cell, (fidx(P, 'max_numparam_stack'),))], s)[0][0]
            if t != ('i', max(int(n[1:]), fr[-1][0])):
                return False
        return set(errs) == set(we)

    def assigns(fr, flags, n):
        b = Names(P, fr, flags)
        rs = b.results('check_assignment_to_numparam', ('str', n), LOC)
        if len(rs) != 1:
            raise Stuck('outcomes')
        v, errs, s = rs[0]
        want = n in NAMES and bool({'in_block', 'in_lambda'} & set(flags)) and fr[-1][0] > 0
        return v[2] == (1 if want else 0) and errs == (('CantAssignToNumparam',) if want else ())

    for flags in (('in_block',), ('in_lambda',), (), ('in_def',), ('in_block', 'in_def')):
        for known in (False, True):
            law('_1.._9 are numbered parameters in blocks and lambdas only, unless declared (%s%s)' % ('+'.join(flags) or 'top level', ', declared' if known else ''),
                lambda: all(declares(fr, flags, n, known) for fr in FRAMES for n in NAMES + OTHER))
        law('numbered parameters in use cannot be assigned (%s)' % ('+'.join(flags) or 'top level'), lambda: all(assigns(fr, flags, n) for fr in FRAMES for n in NAMES + OTHER))

    def reserved(n):
        rs = Names(P, [(0, False)]).results('check_reserved_for_numparam', ('str', n), LOC)
        v, errs, s = rs[0]
        return len(rs) == 1 and (v[2], errs) == ((1, ('ReservedForNumparam',)) if n in NAMES else (0, ()))
    law('exactly _1.._9 are reserved', lambda: all(reserved(n) for n in NAMES + OTHER))
    return out


def fidx(P, f):
    return [n for n, _ in P.adts['builder::Builder']['variants'][0][1]].index(f)


# one text per class of first character (and of the others)
LOCAL = ['a', 'foo', '_', '_foo', 'é', 'あ', 'aあ1_', 'ßx']
CONST = ['A', 'Foo', 'É', 'Éa', 'Жук']


def namekinds(P):
    """names by their first character: [(law, holds)]"""
    out = []
    law = lawyer(out)
    LOC = ('s', ('loc',))

    def lvar(n):
        rs = Names(P, [(0, False)]).results('check_lvar_name', ('str', n), LOC)
        if len(rs) != 1 or rs[0][0][0] != 'a':
            raise Stuck('outcomes')
        return rs[0][0][2] == 0
    law('a pattern key that is a local variable name is accepted', lambda: all(lvar(n) for n in LOCAL))
    law('a pattern key that is not a local variable name is rejected', lambda: not any(lvar(n) for n in CONST + ['', '1', 'a-b', 'a b', '-', 'a=', 'a!', 'a?']))

    def collide(a, b):
        rs = Names(P, [(0, False)]).results('arg_name_collides', ('str', a), ('str', b))
        if len(rs) != 1 or rs[0][0][0] != 'i':
            raise Stuck('outcomes')
        return rs[0][0][1]
    law('equal parameter names collide unless they start with _', lambda: all(collide(n, n) == (not n.startswith('_')) for n in LOCAL) and not any(collide(a, b) for a in LOCAL for b in LOCAL if a != b))

    def kwarg(n):
        b = Names(P, [(0, False)])
        b.word = n
        c = ('H', ('token',))
        rs = b.I.run(P.fns['parser::parse::Parser::check_kwarg_name'], [('s', ('parser',)), ('&', c, ())], b.st)
        if len(rs) != 1 or rs[0][0][0] != 'a':
            raise Stuck('outcomes')
        return rs[0][0][2] == 0
    law('a keyword parameter may have any local variable name', lambda: all(kwarg(n) for n in LOCAL))
    law('a keyword parameter cannot be a constant', lambda: not any(kwarg(n) for n in CONST))
    return out


def labels(P):
    """{name:} by the first character of the name: [(law, holds)]"""
    out = []
    law = lawyer(out)
    nodes = [n for n, _ in P.adts['nodes::types::Node' if 'nodes::types::Node' in P.adts else 'lib_ruby_parser_ast::Node']['variants']]

    def label(n):
        b = Names(P, [(0, False)])
        b.word = n
        rs = b.results('pair_label', ('s', ('key_t',)))
        ks = {s.fl.get('asks') for _, _, s in rs}
        if len(ks) != 1 or None in ks:
            raise Stuck('outcomes')
        return nodes[ks.pop()]
    law('{name:} reads the local variable or calls the method', lambda: all(label(n) == 'Lvar' for n in LOCAL))
    law('{Name:} reads the constant', lambda: all(label(n) == 'Const' for n in CONST))
    return out
