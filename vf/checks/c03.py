"""C03: whatever the parser rejects is reported as an error."""
from .. import cg, models, flow, rules, run
from ..interp import Interp, Hooks, State, sym, UNIT
from ..models import ok, err

EMIT = 'error::diagnostic::Diagnostics::emit'
LEVEL = 'error::level::ErrorLevel'
PARSER = 'parser::parse::Parser'


def level_of(P, v):
    if v[0] == 'a' and v[1].endswith('ErrorLevel'):
        return P.adts[LEVEL]['variants'][v[2]][0]
    return None


class Base:
    """assume-guarantee: a failing callee has reported; checked for each callee separately"""

    def setup(self, P, G):
        self.P = P
        self.kinds = {}
        self.res = {n for n, f in P.fns.items() if f.kind == 'fn' and f.locals[0].startswith('std::result::Result<') and f.locals[0].endswith(', ()>')
                    and not f.derived and not n.endswith('::yyaction') and not n.startswith('source::') and not n.startswith('lexer::')}
        rev = {}
        for n in P.fns:
            for m, c, l in G.out(n):
                rev.setdefault(m, set()).add(n)
        self.emitters = {EMIT}
        wl = [EMIT]
        while wl:
            for n in rev.get(wl.pop(), ()):
                if n not in self.emitters:
                    self.emitters.add(n)
                    wl.append(n)
        # functions that call a Result function are inlined too, so that its failure is seen
        return self

    def common(self, I, name, ci, args, st, fr, site):
        if name == EMIT:
            st = st.copy()
            d = args[1]
            lv = level_of(self.P, d[3][0]) if d[0] == 'a' and d[3] else None
            if lv == 'Error':
                st.fl['err'] = 1
            st._k = None
            return [(UNIT, st)]
        if name in self.res:
            s1, s2 = st.copy(), st.copy()
            s2.fl['err'] = 1
            s2._k = None
            r = []
            if 0 in self.kinds.get(name, (0, 1)):
                r.append((ok(I.fresh(s1, site)), s1))
            if 1 in self.kinds.get(name, (0, 1)):
                r.append((err(UNIT), s2))
            return r
        if name in self.P.fns and name not in self.emitters and '{closure' not in name:
            f = self.P.fns[name]
            if f.kind == 'fn' and not f.locals[0].startswith('std::result::Result<'):
                return I.opaque(args, st, site)
        return None


class FnHooks(Base, Hooks):
    def on_panic(self, I, st, site, what):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        return self.common(I, name, ci, args, st, fr, site)


class ActHooks(Base, rules.RuleHooks):
    def call(self, I, name, ci, args, st, fr, site):
        return self.common(I, name, ci, args, st, fr, site)


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('on every path of every grammar action and of every builder/parser function that can fail, a failure is returned only '
                'after an Error-level diagnostic was emitted on that path or by a callee that failed (checked modularly); syntax errors '
                'found by the driver are always reported; nothing but the driver suppresses reports')
    G = cg.CallGraph(P)
    if not rep.anchor('Diagnostics::emit', P.fns.get(EMIT)) or not rep.anchor('ErrorLevel', P.adts.get(LEVEL)):
        return
    H = FnHooks().setup(P, G)
    rep.floor('functions that can fail', len(H.res), 25)
    for rnd in range(6):
        before = dict(H.kinds)
        quiet = run.Report('x')
        for n in sorted(H.res):
            analyse(P, H, n, quiet)
        if before == H.kinds:
            break
    for n in sorted(H.res):
        analyse(P, H, n, rep)
    actions(ctx, P, G, H, rep)


def analyse(P, H, n, rep):
        f = P.fns[n]
        h = FnHooks()
        h.__dict__.update(H.__dict__)
        I = Interp(P, models.M, h)
        I.MAXSTATES = 40000
        outs = I.run(f, [sym('arg', i) for i in range(f.argc)], State({}, {}, {}), 1)
        if not outs and '!' not in f.locals[0]:
            rep.count('functions without a normal outcome')
        kinds = set()
        for rv, st in outs:
            for vi, pl, s2 in models.cases(I, st, rv):
                kinds.add(vi)
                if vi == 1:
                    rep.check(s2.fl.get('err') == 1, 'fn/' + n, '%s can fail without reporting an error' % n, where=f.span)
                else:
                    rep.ok('fn/' + n)
        H.kinds[n] = tuple(sorted(kinds))


def actions(ctx, P, G, H, rep):
    ah = ActHooks().setup(P, G)
    ah.kinds = H.kinds
    R = rules.Runner(ctx, ah, 40000)
    errs = 0
    for r in R.g.rules[1:]:
        outs = R.run(r)
        if not outs:
            rep.count('actions without a normal outcome')
        for kind, val, rv, st in outs:
            if kind == 'err':
                errs += 1
                rep.check(st.fl.get('err') == 1, 'action/%s' % r, '%s can be rejected by its action without an error being reported' % R.name(r),
                          where='src/parser/parse.y')
            else:
                rep.ok('action/%s' % r.num)
    rep.floor('failing action outcomes', errs, 20)
    rep.count('actions', len(R.g.rules) - 1)
    # the driver's own reports
    f = P.fns.get(PARSER + '::report_syntax_error')
    if rep.anchor('Parser::report_syntax_error', f):
        h = FnHooks()
        h.__dict__.update(H.__dict__)
        I = Interp(P, models.M, h)
        outs = I.run(f, [sym('arg', i) for i in range(f.argc)], State({}, {}, {}), 1)
        rep.check(bool(outs), 'report/paths', 'report_syntax_error never returns')
        for rv, st in outs:
            rep.check(st.fl.get('err') == 1, 'report/emits', 'a syntax error can go unreported (path through report_syntax_error without an error diagnostic)', where=f.span)
        callers = [n for n in P.fns if any(m == f.name for m, c, l in G.out(n))]
        rep.check(PARSER + '::parse' in callers, 'report/called', 'the driver does not report syntax errors')
    # nothing but the driver touches the recovery counter or the error count
    for n, g in P.fns.items():
        if g.kind != 'fn' or g.derived or n in (PARSER + '::parse', PARSER + '::new'):
            continue
        for b, m, p in flow.accesses(g):
            fs = flow.fields(p)
            if 'yyerrstatus_' in fs and m in ('write', 'mutref'):
                zero = any(s[0] == '=' and s[1] == p and s[2][0] == 'use' and s[2][1][0] == 'k' and s[2][1][1].get('int') == 0 for s in g.blocks[b]['s'])
                rep.check(zero, 'recovery/' + n, '%s changes the error-recovery counter, which suppresses the report of the next syntax error' % n, where=g.span)
    # the tree: the start rule stores its value, nothing else does
    iR = next((i for i, (nm, t) in enumerate(P.adts[PARSER]['variants'][0][1]) if nm == 'result'), None)
    start = R.g.rules[0].rhs[0] if R.g.rules else None
    writers = set()
    if rep.anchor('Parser.result', iR is not None):
        R.I.keep_asm = hasrhs
        for r in R.g.by_lhs.get(start, []):
            for kind, val, rv, st in R.run(r):
                if kind != 'ok':
                    continue
                v = R.I.read(st, ('H', ('parser',)), (iR,))
                absent = v == models.NONE and any(k[0] == 'disc' and hasrhs(k) and x == 0 for k, x in st.asm.items())
                rep.check(absent or (v != ('s', ('parser', iR)) and v[0] in ('s', 'a') and hasrhs(v)), 'tree/%s' % r,
                          'the tree of an accepted program is not stored by %s' % R.name(r), where='src/parser/parse.y')
        R.I.keep_asm = None
        for r in R.g.rules[1:]:
            if r.lhs == start or (r.lhs in R.mid and R.mid[r.lhs][0].lhs == start):
                continue
            for kind, val, rv, st in R.run(r):
                v = R.I.read(st, ('H', ('parser',)), (iR,))
                rep.check(v == ('s', ('parser', iR)), 'tree-overwritten/%s' % r, 'the tree is overwritten by %s' % R.name(r), where='src/parser/parse.y')
    rep.trusted = ['the bison skeleton (driver loop, error recovery)', 'library models']


def hasrhs(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return isinstance(v[1][0], tuple) and v[1][0][0] == 'rhs'
        return any(hasrhs(x) for x in v if isinstance(x, tuple))
    return False
