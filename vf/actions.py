"""Abstract interpretation of grammar actions over the grammar.

Every production is analysed once per combination of abstract values of its parts: the mid-rule
actions and the final action are interpreted in sequence on a symbolic parser state, the effect and
the value of each nonterminal being a summary (a set of alternatives) computed by a fixpoint over
the grammar.
"""
import re
from . import interp, models, cg
from .interp import Interp, Hooks, State, sym, UNIT, TRUE, FALSE, binop, bit, Limit
from .mir import callee

PV = 'parse_value::ParseValue'


class Anchor(Exception):
    pass


# ---------------------------------------------------------------- symbolic parser
def build_value(P, ty, role, cells, owner=''):
    """symbolic value of a type: structs are expanded, Rc handles become shared cells named by role"""
    m = re.match(r'^std::rc::Rc<std::cell::RefCell<(.*)>>$', ty)
    if m:
        c = ('H', ('rc', role))
        if c not in cells:
            cells[c] = None
            cells[c] = build_value(P, m.group(1), role, cells)
        return ('rc', c)
    a = P.adts.get(ty)
    if a and not a['enum'] and ty.split('::')[0] not in ('alloc_from_pool',) and ty not in ('token::Token',):
        fs = []
        for fn, ft in a['variants'][0][1]:
            fs.append(build_value(P, ft, fn if ty in OWNERS else role + '.' + fn, cells, ty))
        return ('a', ty, 0, tuple(fs))
    return sym(('E', role))


OWNERS = ('parser::parse::Parser', 'lexer::main::Lexer', 'builder::Builder')
# cells shared between parser, lexer and builder, by role
KIND = {
    'cond.stack': 'bits', 'cmdarg.stack': 'bits', 'paren_nest': 'count', 'brace_nest': 'count', 'lpar_beg': 'val',
    'strterm': 'val', 'context.value.value': 'ctx', 'static_env.stack': 'vec', 'static_env.variables': 'val',
    'current_arg_stack.stack': 'depth', 'max_numparam_stack.stack': 'depth', 'pattern_variables.stack': 'depth',
    'pattern_hash_keys.stack': 'depth', 'buffer.heredoc_indent': 'val',
}


class Tracked:
    """where the tracked components live in the symbolic parser"""

    def __init__(self, P):
        self.P = P
        self.cells = {}
        root = build_value(P, 'parser::parse::Parser', '', self.cells)
        self.root = ('H', ('parser',))
        self.cells[self.root] = root
        self.loc = {}

        def walk(v, cell, path, seen):
            if v[0] == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'E':
                r = v[1][0][1]
                if r in KIND and (cell, path) not in self.loc.get(r, []):
                    self.loc.setdefault(r, []).append((cell, path))
            elif v[0] == 'a':
                for i, x in enumerate(v[3]):
                    walk(x, cell, path + (i,), seen)
        for c, v in self.cells.items():
            walk(v, c, (), set())
        for r in KIND:
            if r not in self.loc:
                raise Anchor('parser state component %s not found' % r)
            if len(self.loc[r]) != 1:
                raise Anchor('parser state component %s is not unique: %s' % (r, self.loc[r]))
            self.loc[r] = self.loc[r][0]
        self.flags = {}
        for n, v in P.token_consts().items():
            pass
        for f in P.fns.values():
            m = re.match(r'^context::Context::(IN_\w+)$', f.name)
            if m and f.kind == 'const':
                val = None
                for bl in f.blocks:
                    for s in bl['s']:
                        if s[0] == '=' and s[1] == [0]:
                            val = s[2]
                self.flags[m.group(1)] = val

    def initial(self):
        return State(dict(self.cells), {}, {})


def entry(role):
    return sym(('E', role))


# ---------------------------------------------------------------- normal forms
def bdepth(t):
    if t[0] == 's':
        return 0 if isinstance(t[1][0], tuple) and t[1][0][0] == 'E' else None
    if t[0] == 'sh':
        d = bdepth(t[1])
        return None if d is None else d + len(t[2])
    if t[0] == 'shr':
        d = bdepth(t[1])
        return None if d is None else d - t[2]
    return None


def bits_of(role, d):
    if d == 0:
        return entry(role)
    if d > 0:
        return ('sh', entry(role), (sym('bit?'),) * d)
    return ('shr', entry(role), -d)


def vdepth_of(t):
    if t[0] == 's':
        return 0 if isinstance(t[1][0], tuple) and t[1][0][0] == 'E' else None
    if t[0] == 'v':
        if t[1] is None or any(x[0] == 'spread' for x in t[2]):
            return None
        d = vdepth_of(t[1])
        return None if d is None else d + len(t[2])
    if t[0] == 'popped':
        d = vdepth_of(t[1])
        return None if d is None else d - t[2]
    return None


def vec_of(role, d):
    if d == 0:
        return entry(role)
    if d > 0:
        return ('v', entry(role), (sym('item'),) * d)
    return ('popped', entry(role), -d)


def entry_only(t):
    """does the term mention entry symbols only"""
    rs = set()
    interp.roots(t, rs)
    return all(isinstance(r, tuple) and r[0] in ('E', 'J', 'T') for r in rs)


# Components a construct may leave as they were or reset to "off": J = either, T = anything
SLOPPY_BITS = (0, 2)


def jsym(*x):
    return ('s', (('J',) + x,))


def tsym(*x):
    return ('s', (('T',) + x,))


def isj(t):
    return t[0] == 's' and isinstance(t[1][0], tuple) and t[1][0][0] == 'J'


def sloppy(role, t):
    if role == 'buffer.heredoc_indent':
        if t == ('i', 0):
            return jsym(role)
    if role == CTX and t[0] == 'bv':
        ov = tuple((i, jsym(role, i) if i in SLOPPY_BITS and x == FALSE else x) for i, x in t[2])
        return ('bv', t[1], ov)
    return t


CTX = 'context.value.value'


def split_sloppy(eff):
    """(strict part, sloppy part) of an effect"""
    rest, slop = [], {}
    for r, t in eff:
        if r == 'buffer.heredoc_indent':
            slop[r] = t
        elif r == CTX and t[0] == 'bv' and t[1] == entry(CTX):
            ov = []
            for i, x in t[2]:
                if i in SLOPPY_BITS:
                    slop[(r, i)] = x
                else:
                    ov.append((i, x))
            if ov:
                rest.append((r, ('bv', t[1], tuple(ov))))
        else:
            rest.append((r, t))
    return tuple(rest), slop


def join_sloppy(a, b):
    out = {}
    for k in set(a) | set(b):
        x, y = a.get(k), b.get(k)
        if x == y:
            out[k] = x
        elif (x is None or isj(x)) and (y is None or isj(y)):
            out[k] = jsym(*(k if isinstance(k, tuple) else (k,)))
        else:
            out[k] = tsym(*(k if isinstance(k, tuple) else (k,)))
    return out


def merge_sloppy(rest, slop):
    d = dict(rest)
    bits = {k[1]: v for k, v in slop.items() if isinstance(k, tuple)}
    if bits:
        c = d.get(CTX, entry(CTX))
        ov = dict(c[2]) if c[0] == 'bv' else {}
        ov.update(bits)
        d[CTX] = ('bv', entry(CTX), tuple(sorted(ov.items())))
    if 'buffer.heredoc_indent' in slop:
        d['buffer.heredoc_indent'] = slop['buffer.heredoc_indent']
    return tuple(sorted(d.items()))


def norm(role, t, asm):
    k = KIND[role]
    if k == 'bits':
        d = bdepth(t)
        return bits_of(role, d) if d is not None else ('lost', role)
    if k == 'depth':
        d = vdepth_of(t)
        return vec_of(role, d) if d is not None else ('lost', role)
    if k == 'ctx':
        if t[0] == 'bv':
            base = t[1]
            ov = []
            for i, x in t[2]:
                o = bit(base, i)
                if asm.get(o) is not None and x == ('i', asm[o]):
                    continue
                # a bit assigned from a decided copy of another bit
                if x == o:
                    continue
                ov.append((i, x))
            t = ('bv', base, tuple(ov)) if ov else base
        if not entry_only(t):
            return ('lost', role)
        return t
    if not entry_only(t):
        return ('lost', role)
    return t


def rebuild(t, env):
    """substitute entry symbols by env[role] and re-simplify"""
    k = t[0]
    if k == 's':
        r = t[1][0]
        if isinstance(r, tuple) and r[0] == 'E' and r[1] in env:
            v = env[r[1]]
            for e in t[1][1:]:
                v = interp.proj(v, e)
            return v
        return t
    if k == 'sh':
        b = rebuild(t[1], env)
        for x in t[2]:
            x = rebuild(x, env)
            b = ('sh', b[1], b[2] + (x,)) if b[0] == 'sh' else ('sh', b, (x,))
        return b
    if k == 'shr':
        b = rebuild(t[1], env)
        for _ in range(t[2]):
            b = binop('Shr', b, ('i', 1))
        return b
    if k == 'lin':
        return binop('Add', rebuild(t[1], env), ('i', t[2]))
    if k == 'v':
        if t[1] is None:
            return ('v', None, tuple(rebuild(x, env) for x in t[2]))
        b = models.as_vec(rebuild(t[1], env))
        return ('v', b[1], b[2] + tuple(rebuild(x, env) for x in t[2]))
    if k == 'popped':
        b = rebuild(t[1], env)
        n = t[2]
        while n and b[0] == 'v' and b[2]:
            b = ('v', b[1], b[2][:-1]) if b[2][:-1] or b[1] is None else b[1]
            n -= 1
        if n:
            if b[0] == 'popped':
                b = ('popped', b[1], b[2] + n)
            else:
                b = ('popped', b, n)
        return b
    if k == 'bv':
        b = rebuild(t[1], env)
        ov = dict(b[2]) if b[0] == 'bv' else {}
        base = b[1] if b[0] == 'bv' else b
        for i, x in t[2]:
            ov[i] = rebuild(x, env)
        for i in list(ov):
            if ov[i] == bit(base, i):
                del ov[i]
        return ('bv', base, tuple(sorted(ov.items()))) if ov else base
    if k == 'bit':
        return bit(rebuild(t[1], env), t[2])
    if k in ('a',):
        return ('a', t[1], t[2], tuple(rebuild(x, env) for x in t[3]))
    if k == 't':
        return ('t', tuple(rebuild(x, env) for x in t[1]))
    if k == 'B':
        return ('B', rebuild(t[1], env))
    if k == 'set':
        if t[1] is None:
            return t
        return ('set', rebuild(t[1], env)) + t[2:]
    if k == 'op':
        return ('op', t[1]) + tuple(rebuild(x, env) for x in t[2:])
    return t


def generic(v, pos, path=()):
    """forget parts of a value that do not mention the entry state"""
    rs = set()
    interp.roots(v, rs)
    has = any(isinstance(r, tuple) and r[0] == 'E' for r in rs)
    k = v[0]
    if not has or k not in ('a', 'B', 't'):
        if has and entry_only(v) and interp.vdepth(v) < 8:
            return v
        return ('any',)
    if k == 'a':
        return ('a', v[1], v[2], tuple(generic(x, pos, path + (i,)) for i, x in enumerate(v[3])))
    if k == 'B':
        return ('B', generic(v[1], pos, path + ('*',)))
    return ('t', tuple(generic(x, pos, path + (i,)) for i, x in enumerate(v[1])))


def instantiate(v, pos, path=()):
    """opposite of generic: unknown parts become fresh symbols of this position"""
    k = v[0]
    if k == 'any':
        return ('s', (('rhs', pos) + path,))
    if k == 'a':
        return ('a', v[1], v[2], tuple(instantiate(x, pos, path + (i,)) for i, x in enumerate(v[3])))
    if k == 'B':
        return ('B', instantiate(v[1], pos, path + ('*',)))
    if k == 't':
        return ('t', tuple(instantiate(x, pos, path + (i,)) for i, x in enumerate(v[1])))
    return v


# ---------------------------------------------------------------- the engine
class ActHooks(Hooks):
    def __init__(self, eng):
        self.e = eng

    def on_call(self, I, name, ci, args, st, fr, site):
        e = self.e
        m = e.special.get(name)
        if m is not None:
            return m(I, ci, args, st, fr, site)
        if name in e.opaque:
            return I.opaque(args, st, site)
        return None

    def on_panic(self, I, st, site, what):
        self.e.panic(I, st, site, what)


WRITES = ('cond', 'cmdarg', 'strterm', 'paren_nest', 'lpar_beg', 'brace_nest', 'heredoc_indent')


class Engine:
    def __init__(self, ctx):
        from . import grammar
        self.ctx = ctx
        self.P = ctx.prog
        self.g = grammar.load(ctx)
        self.T = Tracked(self.P)
        self.f = self.P.fn('parser::parse::Parser::yyaction')
        if self.f is None:
            raise Anchor('Parser::yyaction')
        self.variants = [v[0] for v in self.P.adts[PV]['variants']]
        self.vi = {n: i for i, n in enumerate(self.variants)}
        self.cur = None
        self.panics = {}
        self.stack_cell = ('H', ('yystack',))
        self.special = {
            'parser::parse::YYStack::owned_value_at': self.m_owned,
            'parser::parse::YYStack::borrow_value_at': self.m_borrow,
            'parser::parse::YYStack::location_at': self.m_loc,
            'parser::parse::YYStack::push': self.m_push,
            'parser::parse::YYStack::pop_n': self.m_unit,
            'parser::parse::YYStack::state_at': self.m_any,
            'parser::parse::YYStack::len': self.m_any,
            'parser::parse::Parser::yy_lr_goto_state': self.m_any,
            'parser::parse::make_yylloc': self.m_any,
            'parser::parse::Parser::yy_reduce_print': self.m_unit,
            'parser::parse::Parser::yy_symbol_print': self.m_unit,
            'parser::parse::SymbolKind::get': self.m_any,
            'parser::parse::i32_to_usize': self.m_first,
            'std::collections::BTreeSet::<T, A>::insert': self.m_any,
        }
        self.opaque = self.find_opaque()
        self.I = Interp(self.P, models.M, ActHooks(self))
        self.I.MAXSTATES = 20000
        self.summ = {}          # nonterminal -> set of (effects, value)
        self.outcomes = {}      # rule -> set
        self.ruleerr = {}
        self.unbalanced = {}    # rule -> effects that do not cancel out
        self.required = frozenset()
        self.prefix = {}        # (rule, position) -> effects of the part before it

    def find_opaque(self):
        """functions that cannot change any tracked component: analysed as returning anything"""
        P = self.P
        G = self.G = cg.CallGraph(P)
        mut = set()
        for n, f in P.fns.items():
            if f.kind != 'fn':
                continue
            for i, b in enumerate(f.blocks):
                if b['c']:
                    continue
                for s in b['s']:
                    if s[0] == '=':
                        if any(isinstance(e, list) and e[0] == 'f' and e[2] in WRITES for e in s[1][1:]):
                            mut.add(n)
                        r = s[2]
                        if r[0] == 'ref' and r[1] != 'shared' and any(isinstance(e, list) and e[0] == 'f' and e[2] in WRITES for e in r[2][1:]):
                            mut.add(n)
                t = b['t']
                if t[0] == 'call':
                    if any(isinstance(e, list) and e[0] == 'f' and e[2] in WRITES for e in t[3][1:]):
                        mut.add(n)
                    c = callee(t)
                    if c and c['fn'] in ('std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::replace'):
                        # inserting into a set or an element does not change the depth; those writers are interpreted
                        if not any('Diagnostic' in x for x in f.locals):
                            mut.add(n)
                    if c and c['fn'].startswith('stack_state::') and c['fn'].split('::')[-1] in ('push', 'pop'):
                        mut.add(n)
                    # conversions and constructors of semantic values are always interpreted
        rev = {}
        for n, f in P.fns.items():
            for m, c, loc in G.out(n):
                rev.setdefault(m, set()).add(n)
        reach = set(mut)
        wl = list(mut)
        while wl:
            m = wl.pop()
            for n in rev.get(m, ()):
                if n not in reach:
                    reach.add(n)
                    wl.append(n)
        self.mutators = reach
        out = set()
        for n, f in P.fns.items():
            if f.kind != 'fn' or n in reach:
                continue
            if any(l in ('&mut stack_state::StackState', '&stack_state::StackState') for l in f.locals[1:1 + f.argc]):
                continue
            if n.startswith('parse_value::') or n.startswith('context::') or n == self.f.name or 'closure' in n:
                continue
            if n.startswith('parser::parse::') and f.locals[0] in ('i32', 'bool', 'usize'):
                continue
            out.add(n)
        return out

    # -- models of the parser stack
    def idx(self, st, args):
        i = args[1]
        if i[0] == 'lin' and i[1] == sym('yylen0'):
            pass
        if i[0] != 'i':
            return None
        n = len(self.cur['stack'])
        return n - 1 - i[1]

    def m_owned(self, I, ci, args, st, fr, site):
        p = self.idx(st, args)
        if p is None or p < 0:
            self.problem('reads a value below its own rule (index %s)' % (args[1],))
            return [(('a', PV, self.vi['Stolen'], ()), st)]
        st = st.copy()
        cell = ('H', ('slot', p))
        v = st.mem[cell]
        I.write(st, cell, (), ('a', PV, self.vi['Stolen'], ()))
        return [(v, st)]

    def m_borrow(self, I, ci, args, st, fr, site):
        p = self.idx(st, args)
        if p is None or p < 0:
            self.problem('reads a value below its own rule')
            return [(sym('below'), st)]
        return [(('&', ('H', ('slot', p)), ()), st)]

    def m_loc(self, I, ci, args, st, fr, site):
        p = self.idx(st, args)
        cell = ('H', ('slotloc', p))
        st = st.copy()
        st.mem[cell] = ('s', (('loc', p),))
        return [(('&', cell, ()), st)]

    def m_push(self, I, ci, args, st, fr, site):
        st = st.copy()
        st.mem[('H', ('yyval',))] = args[2]
        st._k = None
        return [(UNIT, st)]

    def m_unit(self, I, ci, args, st, fr, site):
        return [(UNIT, st)]

    def m_any(self, I, ci, args, st, fr, site):
        st = st.copy()
        return [(I.fresh(st, site), st)]

    def m_first(self, I, ci, args, st, fr, site):
        return [(args[0], st)]

    # -- problems
    def problem(self, what):
        self.panics.setdefault((self.cur['rule'].num if self.cur else -1, what), True)

    def panic(self, I, st, site, what):
        fn = I.stack[-1].name if I.stack else '?'
        # which conversion failed, on what value
        self.panics.setdefault((self.cur['rule'].num, '%s in %s' % (what, self.describe(I, st))), True)

    def describe(self, I, st):
        frames = [f.name for f in I.stack]
        inner = frames[-1]
        v = None
        if len(frames) >= 2 and inner.startswith('parse_value::') and inner.endswith('::from'):
            v = self.convarg
        return inner + (' given %s' % self.kindname(v) if v is not None else '')

    def kindname(self, v):
        if v is not None and v[0] == 'a' and v[1] == PV:
            return self.variants[v[2]]
        return str(v)[:60]

    convarg = None

    # -- running one rule
    def run_rule(self, rule, st, vals):
        """interpret the action of `rule` with the given stack values (the enclosing rule's symbols so
        far); returns [(kind, value, state)] with kind ok/err"""
        self.cur = {'rule': rule, 'stack': vals}
        st = st.copy()
        for i, v in enumerate(vals):
            st.mem[('H', ('slot', i))] = v
        st.mem[('H', ('yylen',))] = ('i', len(rule.rhs))
        st.mem.pop(('H', ('yyval',)), None)
        st._k = None
        args = [('&', self.T.root, ()), ('i', rule.num + 1), ('&', self.stack_cell, ()), ('&', ('H', ('yylen',)), ())]
        out = []
        for rv, s in self.I.run(self.f, args, st, 1):
            for vi, pl, s2 in models.cases(self.I, s, rv):
                val = s2.mem.get(('H', ('yyval',)))
                newvals = [s2.mem.get(('H', ('slot', i))) for i in range(len(vals))]
                s2 = s2.copy()
                for c in list(s2.mem):
                    if c[0] == 'H' and c[1][0] in ('slot', 'yyval', 'yylen', 'slotloc', 'prom', 'elem', 'velem'):
                        del s2.mem[c]
                s2._k = None
                # an action that pushes no value asks for error recovery (YYERROR) or gives up
                out.append(('ok' if vi == 0 and val is not None else 'err', val, s2, newvals))
        return out

    def get(self, st, role):
        c, p = self.T.loc[role]
        return self.I.read(st, c, p)

    def put(self, st, role, v):
        c, p = self.T.loc[role]
        self.I.write(st, c, p, v)

    def effects(self, st):
        e = []
        for role in KIND:
            t = sloppy(role, norm(role, self.get(st, role), st.asm))
            if t != entry(role):
                e.append((role, t))
        return tuple(sorted(e))

    def apply(self, st, eff):
        st = st.copy()
        if eff:
            env = {r: self.get(st, r) for r in KIND}
            for r, t in eff:
                self.put(st, r, rebuild(t, env) if t[0] != 'lost' else t)
        return st

    def clean(self, st):
        """drop path conditions and helper cells, keep only tracked components"""
        n = self.T.initial()
        for r in KIND:
            self.put(n, r, norm(r, self.get(st, r), st.asm))
        return n

    def key(self, st, vals):
        return (self.effects(st), tuple(vals))

    term_effect = {}

    # -- what reading each token does to the tracked state
    LEXROLES = ('cond.stack', 'cmdarg.stack', 'paren_nest', 'brace_nest', 'lpar_beg')

    def lexer_effects(self):
        P, T = self.P, self.T
        f = P.fn('lexer::main::Lexer::parser_yylex')
        if f is None:
            raise Anchor('Lexer::parser_yylex')
        names = {}
        for n, v in P.token_consts().items():
            if n.split('::')[-1] in self.g.terminals:
                names[v] = n.split('::')[-1]
        root = T.root
        keep = [T.loc[r] for r in self.LEXROLES]
        # functions of the lexer that change none of these components are opaque here
        touch = self.touching({'cond', 'cmdarg', 'paren_nest', 'brace_nest', 'lpar_beg'})
        op = {n for n, g in P.fns.items() if g.kind == 'fn' and n not in touch and not n.startswith('stack_state::')
              and not n.startswith('lex_state::')}
        fname_dot = self.lexstate_mask(('EXPR_FNAME', 'EXPR_DOT'))
        eng = self

        class H(Hooks):
            def on_call(self, I, name, ci, args, st, fr, site):
                if name in op:
                    return I.opaque(args, st, site)
                return None

            def on_panic(self, I, st, site, what):
                pass

            def on_write(self, I, st, cell, path, val):
                if cell == root and path and not any(
                        c == cell and (q[:len(path)] == path or path[:len(q)] == q) for c, q in keep):
                    if path[:2] == lexst[:2]:
                        return None
                    return sym('any')
                return None
        lexst = next(p for c, p in self.find_role('lex_state.value'))
        I = Interp(P, models.M, H())
        I.MAXSTATES = 60000
        tested = lambda v: isinstance(v, tuple) and v[0] == 'op' and v[1] in ('Eq', 'Ne') and v[2][0] == 'bv' \
            and v[2][1] == ('i', 0) and sum(1 << i for i, _ in v[2][2]) == fname_dot
        I.remember = tested
        I.keep_asm = tested
        out = {}
        other = set()
        for rv, st in I.run(f, [('&', root, (0,))], T.initial(), 1):
            eff = tuple(x for x in self.effects(st) if x[0] in self.LEXROLES)
            if rv[0] == 'i':
                tok = names.get(rv[1])
                after_op = any(tested(k) and v == 0 for k, v in st.asm.items())
                if tok is not None:
                    out.setdefault(tok, set()).add((eff, after_op))
            else:
                other.add(eff)
        self.lex_blocks = len(I.stats['blocks'])
        self.lex_other = other
        self.lex_raw = out
        res = {}
        for t, alts in out.items():
            plain = {e for e, a in alts if not a}
            # right after `def`, `.`, `::`, `alias`, `undef` or `:` the token is a method name or a syntax error
            self_only = {e for e, a in alts}
            res[t] = plain or self_only
        return res

    def find_role(self, role):
        r = []

        def walk(v, cell, path):
            if v[0] == 's' and v[1][0] == ('E', role):
                r.append((cell, path))
            elif v[0] == 'a':
                for i, x in enumerate(v[3]):
                    walk(x, cell, path + (i,))
        for c, v in self.T.cells.items():
            walk(v, c, ())
        return r

    def lexstate_mask(self, names):
        m = 0
        for n in names:
            f = next((f for k, f in self.P.fns.items() if f.kind == 'const' and k.startswith('lex_state::') and k.split('::')[-1] == n), None)
            if f is None:
                raise Anchor('lexer state ' + n)
            v = Interp(self.P, models.M).run(f, [], State({}, {}, {}), 1)[0][0]
            if v[0] != 'i':
                raise Anchor('value of lexer state ' + n)
            m |= v[1]
        return m

    def touching(self, fields):
        """functions that may write one of these fields, directly or through a callee"""
        P = self.P
        direct = set()
        for n, f in P.fns.items():
            if f.kind != 'fn':
                continue
            for b in f.blocks:
                if b['c']:
                    continue

                def hit(pl):
                    return any(isinstance(e, list) and e[0] == 'f' and e[2] in fields for e in pl[1:])
                for s in b['s']:
                    if s[0] == '=' and (hit(s[1]) or (s[2][0] == 'ref' and s[2][1] != 'shared' and hit(s[2][2]))):
                        direct.add(n)
                if b['t'][0] == 'call' and hit(b['t'][3]):
                    direct.add(n)
        G = self.G
        rev = {}
        for n in P.fns:
            for m, c, loc in G.out(n):
                rev.setdefault(m, set()).add(n)
        wl = list(direct)
        while wl:
            for n in rev.get(wl.pop(), ()):
                if n not in direct:
                    direct.add(n)
                    wl.append(n)
        return direct

    def is_mid(self, s):
        return s.startswith('@') or s.startswith('$@')

    def production(self, rule):
        """all outcomes [(effects, generic value)] of a production under the current summaries, or
        None when a part has no summary yet"""
        states = {}
        st0 = self.T.initial()
        states[self.key(st0, ())] = (st0, ())
        for pos, s in enumerate(rule.rhs):
            self.prefix.setdefault((rule.num, pos), set()).update(self.effects(x[0]) for x in states.values())
            new = {}
            if self.g.is_term(s):
                for st, vals in states.values():
                    v = (('a', PV, self.vi['Token'], (('s', (('rhs', pos),)),)) if s != 'error' else ('a', PV, self.vi['Uninitialized'], ()))
                    for eff in self.term_effect.get(s, ((),)):
                        s2 = self.apply(st, eff)
                        vv = vals + (v,)
                        new[self.key(s2, vv)] = (s2, vv)
            elif self.is_mid(s):
                r = self.g.by_lhs[s][0]
                for st, vals in states.values():
                    for kind, v, s2, nv in self.run_rule(r, st, vals):
                        if kind == 'err':
                            continue
                        v = self.shape(v)
                        s3 = self.clean(s2)
                        vv = tuple(self.keepval(x) for x in nv) + (instantiate(v, pos),)
                        new[self.key(s3, vv)] = (s3, vv)
            else:
                alts = self.summ.get(s)
                if not alts:
                    return None
                for st, vals in states.values():
                    env = {r: self.get(st, r) for r in KIND}
                    for eff, v in alts:
                        s2 = self.apply(st, eff)
                        vv = vals + (instantiate(rebuild(v, env), pos),)
                        new[self.key(s2, vv)] = (s2, vv)
            states = new
            if len(states) > 400:
                raise Limit('too many combinations in %s' % rule)
        self.prefix.setdefault((rule.num, len(rule.rhs)), set()).update(self.effects(x[0]) for x in states.values())
        out = set()
        for st, vals in states.values():
            for kind, v, s2, nv in self.run_rule(rule, st, vals):
                if kind == 'err':
                    continue
                out.add((self.effects(s2), self.shape(v)))
        return out

    def keepval(self, v):
        return v

    def shape(self, v):
        if v is None:
            return ('none',)
        if v[0] == 'a' and v[1] == PV:
            return ('a', PV, v[2], tuple(generic(x, 0) for x in v[3]))
        return ('any',)

    def solve(self, progress=None):
        """fixpoint over all nonterminals"""
        self.users = {}
        for r in self.g.rules:
            for s in r.rhs:
                self.users.setdefault(s, set()).add(r.num)
                if self.is_mid(s):
                    pass
        import collections
        todo = collections.OrderedDict((r.num, None) for r in self.g.rules if not self.is_mid(r.lhs) and r.num > 0)
        n = 0
        while todo:
            num, _ = todo.popitem(last=False)
            r = self.g.rules[num]
            if r.useful != 'useful':
                continue
            o = self.production(r)
            n += 1
            if o is None:
                continue
            old = self.outcomes.get(num)
            if old is not None and o <= old:
                continue
            self.outcomes[num] = o | (old or set())
            cur = self.summ.get(r.lhs, set())
            new = self.joined(cur | self.admit(r, o))
            if new != cur:
                self.summ[r.lhs] = new
                for u in self.users.get(r.lhs, ()):
                    if not self.is_mid(self.g.rules[u].lhs):
                        todo[u] = None
        self.runs = n

    @staticmethod
    def joined(alts):
        d = {}
        for eff, v in alts:
            rest, sl = split_sloppy(eff)
            k = (rest, v)
            d[k] = join_sloppy(d[k], sl) if k in d else sl
        return {(merge_sloppy(rest, sl), v) for (rest, v), sl in d.items()}

    def solved(self):
        self.term_effect = self.lexer_effects()
        self.required = frozenset(n for n in self.g.nonterminals if n not in self.HALVES and not self.is_mid(n))
        self.solve()
        return self

    def min_depth(self, role):
        """least depth of a stack on entry to each nonterminal, over all derivations of the start symbol"""
        def delta(e):
            t = dict(e).get(role)
            if t is None:
                return 0
            d = bdepth(t) if KIND[role] == 'bits' else vdepth_of(t)
            return -10 ** 6 if d is None else d
        INF = 10 ** 9
        low = {n: INF for n in self.g.nonterminals}
        low['$accept'] = 0
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for r in self.g.rules:
                if low.get(r.lhs, INF) == INF or r.useful != 'useful':
                    continue
                for pos, s in enumerate(r.rhs):
                    if self.g.is_term(s):
                        continue
                    ds = self.prefix.get((r.num, pos)) if r.num else [()]
                    if not ds:
                        continue
                    d = max(low[r.lhs] + min(delta(e) for e in ds), -64)
                    if d < low[s]:
                        low[s] = d
                        ch = True
        return low

    # nonterminals that stand for one half of a construct: their effect is inferred, not required
    HALVES = ('def_name', 'defn_head', 'defs_head', 'p_lparen', 'p_lbracket', 'rparen', 'rbracket', 'rbrace', 'lambda_body')
    # parameter lists switch the in_argdef flag on; the construct around them switches it off
    PARAMS = ('args_tail', 'block_args_tail', 'block_param', 'f_args', 'f_block_kw', 'f_block_kwarg', 'f_block_opt',
              'f_block_optarg', 'f_kw', 'f_kwarg', 'f_opt', 'f_optarg', 'k_def', 'opt_args_tail', 'opt_block_args_tail')

    def strict(self, eff):
        """the part of an effect that breaks balance"""
        rest, sl = split_sloppy(eff)
        return rest, {k: v for k, v in sl.items() if not isj(v)}

    def admit(self, rule, o):
        out = set()
        for eff, v in o:
            rest, sl = self.strict(eff)
            if rest and rule.lhs in self.required:
                self.unbalanced.setdefault(rule.num, set()).add(rest)
                keep = dict(eff)
                for r, t in rest:
                    keep.pop(r, None)
                eff = tuple(sorted(keep.items()))
            out.add((eff, v))
        return out
