"""What the parts of productions can be: least fixpoint over all outcomes of all productions (build.py).

For every nonterminal and every place inside its value (fields of the small structs, elements of lists):
  terms   the terminals whose token can stand there
  shapes  the kinds of node that can stand there, each with the fields (options, lists) that are then always absent or empty;
          TOP when the node comes from inside another node
An outcome that needs a kind of part no derivation provides is dropped.
"""
from . import models
from .build import BuildHooks, NODE, TOKEN, is_opt, inner, split, PV
from .interp import proj

TOP = 'any'
PVT = PV + 'ParseValue'


def flat(path):
    """place inside the value of a part, list positions merged"""
    return tuple('el' if isinstance(e, tuple) and e[0] == 'el' else e for e in path)


def match(a, b):
    if a == '*' or b == '*':
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(match(x, y) for x, y in zip(a, b))
    return a == b


class Shapes:
    def __init__(self, P, g, R, res):
        self.P, self.g, self.R, self.res = P, g, R, res
        self.kinds = {t: {'T'} for t in g.terminals}
        self.terms = {}
        self.shapes = {}
        self.patterns = {}
        for n in g.nonterminals:
            self.kinds.setdefault(n, set())
        self.run()

    def parts(self, num):
        return self.R.parts(self.g.rules[num])

    def feasible(self, num, o):
        return o.ok and self.feasible2(num, o)

    def feasible2(self, num, o):
        rhs = self.parts(num)
        if any(not self.kinds[s] for s in rhs):
            return False
        for i, (ty, x) in o.parts.items():
            if i < len(rhs) and not self.g.is_term(rhs[i]) and rhs[i] in self.kinds:
                q = self.pattern(ty, x, None)
                if q is not None and q != '*' and not any(match(q, y) for y in self.patterns.get(rhs[i], ())):
                    return False
        for k, x in o.asm.items():
            if k[0] == 'disc' and k[1][0] == 's' and isinstance(x, int):
                if not self.possible(rhs, k[1][1], x, o.asm):
                    return False
            t = BuildHooks.toktest(k)
            if t is not None and not self.tokens(rhs, ('s', t[0]), o.asm):
                return False
        return True

    def at(self, rhs, path):
        """shapes of the node a path names; TOP when unknown"""
        i = path[0][1]
        s = rhs[i]
        sub = flat(path[1:])
        if any(isinstance(e, tuple) and e[0] == 'd' or isinstance(e, int) for e in sub):
            return TOP
        m = self.shapes.get(s)
        if m is None:
            return TOP if self.g.is_term(s) else set()
        return m.get(sub, set())

    def possible(self, rhs, path, x, asm):
        if not (isinstance(path[0], tuple) and path[0][0] == 'rhs'):
            return True
        if len(path) >= 4 and isinstance(path[-3], tuple) and path[-3][0] == 'd' and path[-2] == 0:
            # an optional field of a destructured node
            sh = self.at(rhs, path[:-3])
            k = path[-3][1]
            adt = self.P.adts[NODE]['variants'][k][1][0][1]
            t = self.P.adts[adt]['variants'][0][1][path[-1]][1]
            if sh == TOP or TOP in sh or not is_opt(t) or x != 1:
                return True
            return any(v == k and path[-1] not in absent for v, absent in sh)
        if any(isinstance(e, tuple) and e[0] == 'd' or isinstance(e, int) for e in path[1:]):
            return True
        if flat(path[1:]) not in self.shapes.get(rhs[path[0][1]], {}):
            return True
        sh = self.at(rhs, path)
        if sh == TOP or TOP in sh:
            return True
        return any(v == x for v, _ in sh)

    def leaves(self, ty, v, path, out):
        """(place, 'node' | 'token', value)"""
        ty = ty.strip()
        if v[0] == 'B':
            return self.leaves(inner(ty) if ty.startswith('std::boxed::Box<') else ty, v[1], path, out)
        if ty.startswith('std::boxed::Box<'):
            return self.leaves(inner(ty), v, path, out)
        if is_opt(ty):
            if v[0] == 'a' and v[1] == models.OPT:
                if v[2] == 1:
                    self.leaves(inner(ty), v[3][0], path + ('some',), out)
                return
            return self.leaves(inner(ty), v, path + ('some',), out)
        if ty.startswith('std::vec::Vec<'):
            if v[0] == 'v':
                if v[1] is not None:
                    out.append((path + ('el',), 'nodes', v[1]))
                for x in v[2]:
                    if x[0] == 'spread':
                        out.append((path + ('el',), 'nodes', x[1]))
                    else:
                        self.leaves(inner(ty), x, path + ('el',), out)
            else:
                out.append((path + ('el',), 'nodes', v))
            return
        if ty.startswith('alloc_from_pool::PoolValue<'):
            out.append((path, 'token', v))
            return
        if ty == NODE:
            out.append((path, 'node', v))
            return
        if ty.startswith('(') and ty != '()' and v[0] == 't':
            for i, (t, x) in enumerate(zip(split(ty[1:-1]), v[1])):
                self.leaves(t, x, path + (('f', i, str(i)),), out)
            return
        a = self.P.adts.get(ty)
        if a is not None and v[0] == 'a' and v[1] == ty:
            for j, ((n, t), x) in enumerate(zip(a['variants'][v[2]][1], v[3])):
                self.leaves(t, x, path + (('f', j, n),), out)

    def nodeshape(self, rhs, v, asm):
        if v[0] == 'B':
            return self.nodeshape(rhs, v[1], asm)
        if v[0] == 'a' and v[1] == NODE:
            k = v[2]
            adt = self.P.adts[NODE]['variants'][k][1][0][1]
            absent = set()
            for i, (n, t) in enumerate(self.P.adts[adt]['variants'][0][1]):
                if is_opt(t) or t.startswith('std::vec::Vec<'):
                    x = proj(v[3][0], i)
                    if x in (models.NONE, ('v', None, ())) or asm.get(('disc', x)) == 0:
                        absent.add(i)
                    elif x[0] == 'v' and any(y[0] != 'spread' for y in x[2]):
                        absent.add(('+', i))
                    elif x[0] == 's' and len(x[1]) > 2 and x[1][-2] == 0 and x[1][-1] == i:
                        # the same field of the node this one was made from
                        b = x[1][:-2]
                        if b and isinstance(b[-1], tuple) and b[-1][0] == 'd':
                            b = b[:-1]
                        if isinstance(b[0], tuple) and b[0][0] == 'rhs':
                            sh = self.at(rhs, b)
                            if sh != TOP and TOP not in sh:
                                for y in (i, ('+', i)):
                                    if all(y in ab for vv, ab in sh if vv == k):
                                        absent.add(y)
            return {(k, frozenset(absent))}
        if v[0] == 'op' and v[1] == 'rec':
            # the child itself, or a node around it
            return {TOP}
        if v[0] == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'rhs':
            sh = self.at(rhs, v[1])
            if sh == TOP:
                return {TOP}
            k = asm.get(('disc', v))
            if k is not None and TOP not in sh:
                sh = {x for x in sh if x[0] == k}
            no = asm.get(('not', ('disc', v)))
            if no:
                sh = {x for x in sh if x == TOP or x[0] not in no}
            return sh
        return {TOP}

    def run(self):
        PVs = self.P.adts[PVT]['variants']
        pre = {}
        ch = True
        while ch:
            ch = False
            for num, outs in self.res.items():
                r = self.g.rules[num]
                rhs = self.parts(num)
                S = self.shapes.setdefault(r.lhs, {})
                T = self.terms.setdefault(r.lhs, {})
                for o in outs:
                    if not self.feasible(num, o):
                        continue
                    v = o.val
                    if v[0] == 's' and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == 'rhs':
                        s = rhs[v[1][0][1]]
                        if not self.kinds[s] <= self.kinds[r.lhs]:
                            self.kinds[r.lhs] |= self.kinds[s]
                            ch = True
                        if self.g.is_term(s):
                            if s not in T.setdefault((), set()):
                                T[()].add(s)
                                ch = True
                            continue
                        if not self.patterns.get(s, set()) <= self.patterns.setdefault(r.lhs, set()):
                            self.patterns[r.lhs] |= self.patterns[s]
                            ch = True
                        for m, M in ((self.shapes.get(s, {}), S), (self.terms.get(s, {}), T)):
                            for p, q in m.items():
                                if not q <= M.setdefault(p, set()):
                                    M[p] |= q
                                    ch = True
                        continue
                    if v[0] != 'a' or v[1] != PVT:
                        raise RuntimeError('%s: value of unknown kind %s' % (r, str(v)[:200]))
                    if v[2] not in self.kinds[r.lhs]:
                        self.kinds[r.lhs].add(v[2])
                        ch = True
                    for q in self.patterns_of(rhs, PVs[v[2]], v, o):
                        if q not in self.patterns.setdefault(r.lhs, set()):
                            self.patterns[r.lhs].add(q)
                            ch = True
                    key = id(o)
                    if key not in pre:
                        out = []
                        for (n, t), x in zip(PVs[v[2]][1], v[3]):
                            self.leaves(t, x, (), out)
                        pre[key] = out
                    for path, w, x in pre[key]:
                        if w == 'token':
                            q = self.tokens(rhs, x)
                            M = T.setdefault(path, set())
                        elif w == 'nodes':
                            q = self.nodeshape(rhs, ('s', x[1] + (('el', 0, 0),)), o.asm) if x[0] == 's' else {TOP}
                            M = S.setdefault(path, set())
                        else:
                            q = self.nodeshape(rhs, x, o.asm)
                            M = S.setdefault(path, set())
                        if not q <= M:
                            M |= q
                            ch = True

    def patterns_of(self, rhs, var, v, o):
        """presence patterns of the value an outcome hands on (parts inside it taken from what the parts can be)"""
        fs = var[1]
        if len(fs) != 1:
            return {'*'}
        q = self.pattern(fs[0][1], v[3][0], rhs)
        return q if isinstance(q, frozenset) else {q}

    def pattern(self, ty, v, rhs):
        """which optional parts of a value are present, which variants, how long its lists are (up to 3)"""
        ty = ty.strip()
        if v[0] == 'B':
            return self.pattern(inner(ty) if ty.startswith('std::boxed::Box<') else ty, v[1], rhs)
        if ty.startswith('std::boxed::Box<'):
            return self.pattern(inner(ty), v, rhs)
        if is_opt(ty):
            if v[0] == 'a' and v[1] == models.OPT:
                return (v[2], self.pattern(inner(ty), v[3][0], rhs)) if v[2] else (0, '*')
            return '*'
        if ty.startswith('std::vec::Vec<'):
            if v[0] == 'v' and v[1] is None and not any(x[0] == 'spread' for x in v[2]):
                return ('len', min(len(v[2]), 3))
            return '*'
        if ty == NODE or ty.startswith('alloc_from_pool'):
            return '*'
        if ty.startswith('(') and ty != '()' and v[0] == 't':
            return tuple(self.pattern(t, x, rhs) for t, x in zip(split(ty[1:-1]), v[1]))
        a = self.P.adts.get(ty)
        if a is not None and v[0] == 'a' and v[1] == ty:
            return ('v%d' % v[2],) + tuple(self.pattern(t, x, rhs) for (n, t), x in zip(a['variants'][v[2]][1], v[3]))
        return '*'

    def tokens(self, rhs, v, asm=None):
        """terminals a token value can come from"""
        if v[0] == 'B':
            v = v[1]
        if v[0] == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'rhs':
            s = rhs[v[1][0][1]]
            sub = flat(v[1][1:])
            q = {s} if self.g.is_term(s) else self.terms.get(s, {}).get(sub, set())
            for k, x in (asm or {}).items():
                t = BuildHooks.toktest(k)
                if t is not None and t[0] == v[1] and x in (0, 1):
                    q = {n for n in q if (self.g.terminals.get(n) == t[1]) == (t[2] == bool(x))}
            return q
        return {'?'}


def analyse(ctx, hooks=None):
    from . import build
    R, res = build.outcomes(ctx, hooks)
    return Shapes(ctx.prog, R.g, R, res)
