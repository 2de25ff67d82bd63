"""C18: static validity checks apply in every position the language requires them.

Every action is evaluated, with the builder functions it calls, on symbolic parts (build.py), this time following the validity
checks too. For each production the result is a relation between cases (kinds and presence of parts, kinds of tokens,
predicates of names and parser state) and the verdict: accepted or rejected, and with which errors and warnings. The relation
must be the recorded one (ref/verdicts.json.gz, reviewed by hand), case by case and in both directions. Functions that call
themselves (void values, duplicate parameters in nested lists) are predicates here and compared on their own, one level deep,
with the calls to themselves left open (induction over the tree). The containers the checks rely on (names seen in a pattern,
the parameter being defined, numbered parameters of a block, context flags) obey their laws for arbitrary contents (laws.py), and so do
the functions that classify names, for a name of every class of first and following characters.
"""
import os
from .. import build, shape, forms, models, cg, grammar, laws
from ..build import NODE, LOC
from ..forms import Canon, enc
from ..interp import UNIT, State, TRUE, FALSE
from .c15 import sharing
from .c21 import Hooks as Base, relation, compare, rulename, save, load, says, brief, syms

REF = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ref', 'verdicts.json.gz')
MSG = 'lib_ruby_parser_ast::DiagnosticMessage'
DIAG = 'error::diagnostic::Diagnostic'
LEVEL = 'error::level::ErrorLevel'


class Hooks(Base):
    def setup(self, P):
        Base.setup(self, P)
        self.cg = cg.CallGraph(P)
        self.recs = {}
        self.kindsof = {}
        self.level = [n for n, _ in P.adts[LEVEL]['variants']]
        self.msg = [n for n, _ in P.adts[MSG]['variants']]
        return self

    def recursive(self, name):
        if name not in self.recs:
            f = self.P.fns.get(name)
            r = False
            if f is not None and f.kind == 'fn' and name.startswith('builder::'):
                r = name in self.cg.reach([c[0] for c in self.cg.out(name)])
            self.recs[name] = r
        return self.recs[name]

    def verdict(self, name):
        return self.opaque(name) and Base.verdict(self, name)

    def canraise(self, name):
        """errors a function can report"""
        if name not in self.kindsof:
            ks = set()
            for n in self.cg.reach([name]):
                f = self.P.fns.get(n)
                if f is None or not n.startswith('builder::'):
                    continue
                for b in f.blocks:
                    if b['c']:
                        continue
                    for s in b['s']:
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == MSG:
                            ks.add(self.msg[s[2][1][2]])
                    for x in consts(b):
                        ks.add(x)
            self.kindsof[name] = sorted(ks)
        return self.kindsof[name]

    def emit(self, st, what):
        st = st.copy()
        st.fl['ev'] = tuple(sorted(set(st.fl.get('ev', ())) | {what}))
        st._k = None
        return st

    def kind(self, v):
        if v[0] == 'a' and v[1] == MSG:
            return self.msg[v[2]]
        return '?'

    def event(self, I, name, args, st, site):
        if name in ('builder::Builder::error', 'builder::Builder::warn'):
            return [(UNIT, self.emit(st, ('E:' if name.endswith('error') else 'W:') + self.kind(args[1])))]
        if name == 'error::diagnostic::Diagnostics::emit':
            v = args[1]
            l, k = '?', '?'
            if v[0] == 'a' and v[1] == DIAG:
                for x in v[3]:
                    if x[0] == 'a' and x[1] == LEVEL:
                        l = self.level[x[2]][0]
                    elif x[0] == 'a' and x[1] == MSG:
                        k = self.msg[x[2]]
            return [(UNIT, self.emit(st, l + ':' + k))]
        if self.verdict(name) and name == self.root:
            st = self.emit(st, 'also for ' + ', '.join(sorted(self.canon.paths(I, args, st))))
            return [(UNIT if self.P.fns[name].locals[0] == '()' else models.ok(UNIT), st)]
        if self.verdict(name):
            out = [(UNIT if self.P.fns[name].locals[0] == '()' else models.ok(UNIT), st.copy())]
            for k in self.canraise(name):
                out.append((UNIT if self.P.fns[name].locals[0] == '()' else models.err(UNIT), self.emit(st, 'E:' + k)))
            return out
        return None

    NOTES = {('VariablesStack', 'declare'): 'noted', ('MaxNumparamStack', 'register'): 'numbered', ('MaxNumparamStack', 'set_has_ordinary_params'): 'ordinary',
             ('CurrentArgStack', 'set'): 'current'}

    def outside(self, I, name, args, st, site):
        """what later checks depend on"""
        t, m = name.rsplit('::', 2)[-2:]
        if (t, m) in self.NOTES:
            if self.canon is None:
                self.canon = Canon(self.P, self.exi, self.g)
            ps = {p if p.startswith('$') else '?' for p in self.canon.paths(I, args[1:], st)}
            ev = '%s(%s)' % (self.NOTES[t, m], ', '.join(sorted(ps)))
            if t == 'VariablesStack':
                ev += ' in ' + self.place(args[0])
            s2 = self.emit(st, ev)
            s2.fl['ver'] = min(s2.fl.get('ver', 0) + 1, 3)
            s2._k = None
            return [(UNIT, s2)]
        return None

    def events(self, o):
        return list(o.fl.get('ev', ()))

    def answer(self, I, f, rv, st):
        return answer(I, f, rv, st)

    canon = None
    root = None     # the recursive function being analysed on its own

    def remember(self, v):
        if Base.remember(self, v):
            return True
        if self.root is None or v[0] != 'op':
            return False
        o = set()
        syms(v, o)
        return len(o) <= 2 and all(isinstance(p[0], tuple) and p[0][0] == 'rhs' for p in o)

    def opaque(self, name):
        """recursive functions are predicates; seen from inside, only the one analysed"""
        return self.recursive(name) and '{closure' not in name and (self.root is None or name == self.root)

    def call(self, I, name, ci, args, st, fr, site):
        f = self.P.fns.get(name)
        if f is not None and self.opaque(name) and self.predicate(f):
            return [(self.lib(I, 'ext', name, args, st), st)]
        if self.root is not None and name == 'std::collections::HashMap::<K, V, S, A>::insert':
            st = self.emit(st, 'remembered')
        return Base.call(self, I, name, ci, args, st, fr, site)

    @staticmethod
    def predicate(f):
        tys = f.locals[1:f.argc + 1]
        return f.locals[0] in ('bool', 'std::option::Option<&%s>' % NODE) and all(t.startswith('&') and not t.startswith('&mut') for t in tys)


def consts(b):
    """message kinds that are constants of the block"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get('ty') == MSG and 'variant' in x and isinstance(x['variant'], str):
                out.append(x['variant'])
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(b['s'])
    go(b['t'])
    return out


def verdict(o):
    return ['accepted' if o.ok else 'rejected'] + list(o.fl.get('ev', ()))


# ------------------------------------------------------------------ functions that call themselves
def param(h, ty, i):
    """symbolic arguments for a parameter: [(value, cells, shape)]"""
    p = (('rhs', i),)
    if ty == '&' + NODE:
        return [(('&', ('H', p), ()), {}, None)]
    if ty in ('&[%s]' % NODE, '&std::vec::Vec<%s>' % NODE):
        out = []
        for n in (0, 1, 2):
            v = ('v', None, tuple(('s', p + (('el', k, n),)) for k in range(n)))
            out.append((('&', ('H', p), ()), {('H', p): v}, ('std::vec::Vec<%s>' % NODE, v)))
        return out
    if ty == '&builder::Builder':
        return [(('&', ('H', ('parser',)), ()), {}, None)]
    if ty.startswith('&mut '):
        return [(('&', ('H', ('given', i)), ()), {('H', ('given', i)): ('s', (('given', i),))}, None)]
    if ty.startswith('&'):
        return [(('s', p), {}, None)]
    return None


def own(h, R, C, name):
    f = h.P.fns[name]
    args = [((), {}, {})]
    for i in range(f.argc):
        ps = param(h, f.locals[i + 1], i)
        if ps is None:
            return None
        args = [(a + (v,), {**m, **cells}, {**sh, **({i: s} if s else {})}) for a, m, sh in args for v, cells, s in ps]
    h.root, h.canon, C.pairs = name, C, True
    rel = {}
    try:
        for a, m, sh in args:
            for rv, st in R.I.run(f, list(a), State(dict(m), {}, {}), 1):
                for v, ok, s2 in h.answer(R.I, f, rv, st):
                    o = build.Outcome(ok, None, sh, {k: x for k, x in s2.asm.items() if h.keep(k)}, dict(s2.fl))
                    v = enc([v] + h.events(o))
                    c = C.cond(o)
                    rel[(frozenset(c.items()), v)] = (c, v)
    finally:
        h.root, C.pairs = None, False
    return list(rel.values())


def answer(I, f, rv, st):
    ty = f.locals[0]
    if ty == '()':
        return [('done', True, st)]
    if ty == 'bool':
        if rv[0] == 'i':
            return [('yes' if rv[1] else 'no', True, st)]
        out = []
        for x in (0, 1):
            s2 = st.copy()
            s2.asm[rv] = x
            out.append(('yes' if x else 'no', True, s2))
        return out
    return [('yes' if (vi if 'Option' in ty else not vi) else 'no', True, s2) for vi, pl, s2 in models.cases(I, st, rv)]


def analyse(ctx, hooks=None, value=verdict):
    h = hooks or Hooks()
    h.g = grammar.load(ctx)
    S = shape.analyse(ctx, h)
    C = Canon(ctx.prog, h.exi, S.g)
    rels = {rulename(S, n): relation(S, C, n, outs, value) for n, outs in S.res.items()}
    for name in sorted(ctx.prog.fns):
        if name.startswith('builder::') and '{' not in name and h.recursive(name) and (h.predicate(ctx.prog.fns[name]) or Base.verdict(h, name)):
            r = own(h, S.R, C, name)
            if r is not None:
                rels[name] = r
    return S, rels


def check(ctx, rep):
    S, cur = analyse(ctx)
    ref = load(REF)
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and options (models.py)', 'ref/verdicts.json.gz, reviewed by hand', 'lists of more than three elements behave like lists of three']
    n = m = 0
    for name in sorted(cur):
        if name not in ref:
            continue
        n += 1
        m += len(ref[name])
        bad = compare(cur[name], ref[name])
        rep.check(not bad, name, ('`%s`: ' % name) + '; '.join(
            ('when %s the verdict is %s, which the language does not give there' if s == 'new' else 'when %s the verdict is no longer %s') % (says(c)[:300], brief(v)[:500]) for s, c, v in bad[:2]))
    laws.report(rep, laws.marks(ctx.prog) + laws.numparams(ctx.prog) + laws.namekinds(ctx.prog))
    sharing(ctx.prog, rep, ('context', 'current_arg_stack', 'max_numparam_stack', 'pattern_variables', 'pattern_hash_keys'))
    rep.floor('productions', n, 600)
    rep.floor('recorded cases', m, 5000)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from .. import run
    save(REF, analyse(run.Ctx('quick'))[1])
