"""Interprets the action of one production at a time on symbolic parts.

Part i of the production is the symbol ('s', (('rhs', i),)); typed extraction (parse_value conversions)
is the identity on it (the kinds are C02's business). Calls to functions of the crate are handed to
the check's hook first.
"""
from . import grammar, models
from .interp import Interp, Hooks, State, sym, UNIT
from .actions import Anchor

YY = 'parser::parse::'


class RuleHooks(Hooks):
    """base class: subclasses override call(I, name, ci, args, st, fr, site)"""
    n = 0
    BORROWED = 'rhs'

    def on_panic(self, I, st, site, what):
        pass

    def call(self, I, name, ci, args, st, fr, site):
        return None

    def on_call(self, I, name, ci, args, st, fr, site):
        if name.startswith(YY + 'YYStack::'):
            m = name.rsplit('::', 1)[1]
            if m in ('owned_value_at', 'borrow_value_at', 'location_at'):
                i = args[1]
                p = self.n - 1 - i[1] if i[0] == 'i' else None
                if m == 'owned_value_at':
                    return [(sym(('rhs', p)), st)]
                st = st.copy()
                cell = ('H', ('slot' if m[0] == 'b' else 'slotloc', p))
                if cell not in st.mem:
                    st.mem[cell] = sym((self.BORROWED, p)) if m[0] == 'b' else sym(('loc', p))
                    st._k = None
                return [(('&', cell, ()), st)]
            if m == 'push':
                st = st.copy()
                st.mem[('H', ('yyval',))] = args[2]
                st._k = None
                return [(UNIT, st)]
            if m == 'pop_n':
                return [(UNIT, st)]
            st = st.copy()
            return [(I.fresh(st, site), st)]
        if name in (YY + 'Parser::yy_lr_goto_state', YY + 'make_yylloc', YY + 'SymbolKind::get'):
            st = st.copy()
            return [(I.fresh(st, site), st)]
        if name in (YY + 'Parser::yy_reduce_print', YY + 'Parser::yy_symbol_print'):
            return [(UNIT, st)]
        if name == YY + 'i32_to_usize':
            return [(args[0], st)]
        if name.startswith('parse_value::') or name.startswith('<') and 'From<parse_value::ParseValue>' in name:
            if name.endswith('::from') and args and args[0][0] == 's':
                return [(args[0], st)]
        return self.call(I, name, ci, args, st, fr, site)


class Runner:
    def __init__(self, ctx, hooks, maxstates=20000):
        self.P = ctx.prog
        self.g = grammar.load(ctx)
        self.f = self.P.fn(YY + 'Parser::yyaction')
        if self.f is None:
            raise Anchor('Parser::yyaction')
        self.h = hooks
        self.I = Interp(self.P, models.M, hooks)
        self.I.MAXSTATES = maxstates
        # mid-rule action -> (enclosing rule, position)
        self.mid = {}
        for r in self.g.rules:
            for i, s in enumerate(r.rhs):
                if s.startswith('@') or s.startswith('$@'):
                    self.mid[s] = (r, i)

    def parts(self, rule):
        """symbols the action of the rule can see"""
        if rule.lhs in self.mid:
            r, i = self.mid[rule.lhs]
            return r.rhs[:i]
        return rule.rhs

    def run(self, rule, st=None):
        """[(kind, value pushed, returned, state)] with kind 'ok' or 'err'"""
        self.h.n = len(self.parts(rule))
        st = (st or State({}, {}, {})).copy()
        st.mem[('H', ('yylen',))] = ('i', len(rule.rhs))
        args = [('&', ('H', ('parser',)), ()), ('i', rule.num + 1), ('&', ('H', ('yystack',)), ()), ('&', ('H', ('yylen',)), ())]
        out = []
        for rv, s in self.I.run(self.f, args, st, 1):
            for vi, pl, s2 in models.cases(self.I, s, rv):
                val = s2.mem.get(('H', ('yyval',)))
                out.append(('ok' if vi == 0 and val is not None else 'err', val, rv, s2))
        return out

    def name(self, rule):
        if rule.lhs in self.mid:
            r, i = self.mid[rule.lhs]
            return 'action inside `%s` before %s' % (r, r.rhs[i + 1] if i + 1 < len(r.rhs) else 'its end')
        return 'rule `%s`' % rule
