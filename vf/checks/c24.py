"""C24: every diagnostic designates the code it is about.

Every grammar action, with the builder functions it calls, and the recursive builder functions by themselves are interpreted
over their MIR with unknown arguments; wherever a diagnostic is emitted, the range it carries is reduced to the tokens and nodes
its ends come from (least begin and greatest end, by the order of parts of the production) and the texts it quotes to the tokens
and fields they come from. A diagnostic of the same kind, in a case consistent with the recorded one, must designate the part
recorded for it in ref/spots.json.gz (reviewed by hand). A part whose origin is not known decides nothing; a diagnostic
that is missing or additional is C18's concern.
"""
import os
from .. import build, shape, forms, models, cg, grammar, laws
from ..build import NODE, LOC
from ..forms import Canon, enc
from ..interp import UNIT, proj
from . import c18
from .c18 import MSG, DIAG, LEVEL
from .c10 import Ranges
from .c21 import relation, compare, rulename, save, load, says, brief

FOUND = 'std::option::Option<&%s>' % NODE
REF = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ref', 'spots.json.gz')


class Hooks(c18.Hooks):
    def report(self, st, level, msg, loc):
        st = st.copy()
        st.fl['ev'] = tuple(sorted(set(st.fl.get('ev', ())) | {(level, msg, loc)}, key=repr))
        st._k = None
        return [(UNIT, st)]

    def emit(self, st, what):
        return st.copy()

    def event(self, I, name, args, st, site):
        if name in ('builder::Builder::error', 'builder::Builder::warn'):
            l = args[2]
            if l[0] == '&':
                l = I.read(st, l[1], l[2])
            return self.report(st, 'E' if name.endswith('error') else 'W', args[1], l)
        if name == 'error::diagnostic::Diagnostics::emit':
            v = args[1]
            l, k, loc = '?', ('?',), ('?',)
            if v[0] == 'a' and v[1] == DIAG:
                for (f, t), x in zip(self.P.adts[DIAG]['variants'][0][1], v[3]):
                    if t == LEVEL:
                        l = self.level[x[2]][0] if x[0] == 'a' else '?'
                    elif t == MSG:
                        k = x
                    else:
                        loc = x
            return self.report(st, l, k, loc)
        return c18.Hooks.event(self, I, name, args, st, site)

    def call(self, I, name, ci, args, st, fr, site):
        f = self.P.fns.get(name)
        if name.rsplit('::', 1)[-1] == 'get' and 'HashMap' in name and len(args) == 2:
            s2 = st.copy()
            c = ('H', ('noted', site))
            s2.mem[c] = ('&', ('H', ('noted', site, '*')), ())
            s2.mem[c[:1] + (('noted', site, '*'),)] = ('s', ('noted',))
            return [(models.NONE, st), (models.some(('&', c, ())), s2)]
        if f is not None and f.locals[0] == FOUND and self.opaque(name) and self.predicate(f):
            # which part of a tree is at fault is decided for the function itself
            v = self.lib(I, 'ext', name, args, st)
            ps = [x[1] for x in v[3] if x[0] == 's']
            out = []
            for vi in (0, 1):
                if st.asm.get(('disc', v), vi) != vi or vi in st.asm.get(('not', ('disc', v)), ()):
                    continue
                s2 = st.copy()
                s2.asm[('disc', v)] = vi
                if vi:
                    c = ('H', ('found', v))
                    s2.mem[c] = ('s', ps[0] + (name.rsplit('::', 1)[1],)) if len(ps) == 1 else ('s', ('found',))
                    out.append((models.some(('&', c, ())), s2))
                else:
                    out.append((models.NONE, s2))
            return out
        return c18.Hooks.call(self, I, name, ci, args, st, fr, site)

    def answer(self, I, f, rv, st):
        if f.locals[0] != FOUND:
            return c18.answer(I, f, rv, st)
        out = []
        for vi, pl, s2 in models.cases(I, st, rv):
            if not vi:
                out.append(('no', True, s2))
                continue
            x = pl
            for _ in range(3):
                if x[0] == '&':
                    x = I.read(s2, x[1], x[2])
            p = self.C.path(x[1], s2.asm) if x[0] == 's' else None
            out.append((p or '?', True, s2))
        return out

    # ------------------------------------------------------------ shown
    def events(self, o):
        out = []
        for l, m, loc in o.fl.get('ev', ()):
            out.append(['%s:%s' % (l, self.kind(m)), self.spot(loc, o.asm), self.quoted(m, o.asm)])
        return sorted(out, key=repr)

    def quoted(self, m, asm):
        if m[0] != 'a' or m[1] != MSG:
            return '?'
        out = []
        for (f, t), x in zip(self.P.adts[MSG]['variants'][m[2]][1], m[3]):
            ps, cs = set(), set()
            if x[0] == 'i':
                cs.add(str(x[1]))
            self.C.texts(x, asm, ps, cs)
            out.append([f, '?' if '?' in ps else [sorted(ps), sorted(cs)]])
        return out

    def spot(self, loc, asm):
        if loc[0] == '?':
            return '?'
        r = []
        for i, op in ((0, 'mn'), (1, 'mx')):
            a = self.G.atoms(proj(loc, i), op, asm)
            if a is None:
                return '?'
            a = sorted(set(a), key=repr)
            best = [x for x in a if all(self.G.le(x, y) if i == 0 else self.G.le(y, x) for y in a)]
            r.append(sorted('%s %s%+d' % (w, self.place_of(p, asm), off) for w, p, off in (best[:1] or a)))
        return r

    def place_of(self, p, asm):
        e = p[0]
        if isinstance(e, tuple) and e[0] == 'loc':
            return '@%d' % e[1] if len(p) == 1 and isinstance(e[1], int) else '?'
        if isinstance(e, tuple) and e[0] == 'rhs' and self.G.rhs and e[1] < len(self.G.rhs) and self.G.rhs[e[1]] in self.single \
                and not any(isinstance(x, tuple) and x[0] in ('el', 'd') for x in p) and p[-1] in (2, 'expr'):
            return '@%d' % e[1]         # the only token of that part
        s = self.C.path(p, asm) or '?'
        return s if s[0] == '$' or s.startswith('@noted') else '?'          # where a part comes from is not known


def single(g):
    """parts that are always written as exactly one token"""
    by = {}
    for r in g.rules.values() if isinstance(g.rules, dict) else g.rules:
        by.setdefault(r.lhs, []).append(r.rhs)
    out = set(g.terminals)
    more = True
    while more:
        more = False
        for l, rs in by.items():
            if l not in out and all(len(x) == 1 and x[0] in out for x in rs):
                out.add(l)
                more = True
    return out


def analyse(ctx):
    h = Hooks()
    h.g = grammar.load(ctx)
    S = shape.analyse(ctx, h)
    h.C = Canon(ctx.prog, h.exi, S.g)
    h.G = Ranges(ctx.prog, S, h)
    h.single = single(S.g)
    rels = {}
    for n, outs in S.res.items():
        h.G.rhs = S.parts(n)
        rels[rulename(S, n)] = relation(S, h.C, n, outs, h.events)
    h.G.rhs = ()
    for name in sorted(ctx.prog.fns):
        if name.startswith('builder::') and '{' not in name and h.recursive(name) and (h.predicate(ctx.prog.fns[name]) or c18.Base.verdict(h, name)):
            r = c18.own(h, S.R, h.C, name)
            if r is not None:
                rels[name] = r
    return h, S, rels


def wrong(cur, ref):
    """[(condition, event, recorded spots)] of diagnostics about another part than the one recorded for that case"""
    bad = []
    seen = set()
    for c, v in cur:
        for e in v:
            if isinstance(e, str):
                # the part of a tree that is answered to be at fault
                if e[:1] == '$' and '?' not in e:
                    alt = {x for rc, rv in ref if forms.consistent(c, rc) for x in rv if isinstance(x, str)}
                    if alt and e not in alt and all(x[:1] == '$' for x in alt) and not any('?' in x for x in alt) and e not in seen:
                        seen.add(e)
                        bad.append((c, e, sorted(alt)))
                continue
            if not isinstance(e[1], tuple) or '?' in str(e[1]):
                continue
            alt = set()
            for rc, rv in ref:
                if forms.consistent(c, rc):
                    alt.update(x for x in rv if not isinstance(x, str) and x[0] == e[0])
            if alt and not any(same(x, e) for x in alt) and e not in seen:
                seen.add(e)
                bad.append((c, e, sorted(alt, key=repr)))
    return bad


def same(x, e):
    # an end that may come from several parts is the one of them that is known to be outermost elsewhere
    at = lambda a, b: all(set(p) <= set(q) or set(q) <= set(p) for p, q in zip(a, b))
    return (not isinstance(x[1], tuple) or '?' in str(x[1]) or at(x[1], e[1])) and (x[2] == e[2] or '?' in str(x[2]) or '?' in str(e[2]))


def say(e):
    if isinstance(e, str):
        return 'the part at fault is %s' % e
    (b,), (n,) = [x if len(x) == 1 else (' / '.join(x),) for x in e[1]]
    q = ', '.join('%s from %s' % (f, '+'.join(list(x[0]) + [repr(y) for y in x[1]]) if isinstance(x, tuple) else x) for f, x in e[2])
    return '%s is reported from %s to %s%s' % (e[0][2:], b, n, ' quoting ' + q if q else '')


def check(ctx, rep):
    h, S, cur = analyse(ctx)
    ref = load(REF)
    n = m = 0
    for name in sorted(cur):
        if name not in ref or not any(v for _, v in ref[name]):
            continue
        k = sum(1 for c, v in cur[name] for e in v if not isinstance(e, str) or e[:1] == '$')
        if not k:
            continue
        n += 1
        m += k
        bad = wrong(cur[name], ref[name])
        rep.check(not bad, name, ('`%s`: ' % name) + '; '.join('when %s, %s; it is about another place: %s' % (says(c)[:200], say(e), ' or '.join(say(x) for x in alt[:2] if isinstance(x, str) or isinstance(x[1], tuple))) for c, e, alt in bad[:2]))
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and options (models.py)', 'ref/spots.json.gz, reviewed by hand', 'lists of more than three elements behave like lists of three']
    rep.floor('productions and functions that report something', n, 120)
    rep.floor('reports located', m, 1500)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from .. import run
    save(REF, {n: [(c, v) for c, v in r if v] for n, r in analyse(run.Ctx('quick'))[2].items()})
