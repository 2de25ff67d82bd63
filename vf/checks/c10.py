"""C10: ranges of nodes cover their parts, in source order.

Every action is evaluated, with the builder functions it calls, on symbolic parts (build.py); every range that is computed is
a (minimum of begins, maximum of ends) over the parts. For each node that is built:
  cover   its range begins no later and ends no earlier than every child and every range it records. Orders between
          positions come from the production itself (parts are written left to right, list elements in list order) and from
          this same property for nodes that are taken apart (induction);
  order   the parts it records stand in the order in which this kind of node is written (ref/ranges.json: order);
  role    each keyword, operator and delimiter range is that of the token playing this role (ref/ranges.json: role);
  name    the range recorded for a name is that of the token the name was taken from.
"""
import json, os
from .. import build, shape, models
from ..build import NODE, LOC, walk, key, before, show, is_opt, inner
from ..shape import PVT, TOP
from ..interp import proj
from .c09 import collect

REF = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ref', 'ranges.json')
OLOC = 'std::option::Option<%s>' % LOC

# tokens that have at least so many bytes
MINLEN = {'tLABEL': 2, 'tLABEL_END': 2, 'tCHAR': 2, 'tREGEXP_END': 1, 'tSTRING_BEG': 1, 'tXSTRING_BEG': 1, 'tREGEXP_BEG': 1}
# (kind, field) whose end the range need not reach: separators before an empty body, bodies of heredocs
BEYOND = {('When', 'begin_l'), ('InPattern', 'begin_l'), ('Heredoc', 'parts'), ('Heredoc', 'heredoc_body_l'), ('Heredoc', 'heredoc_end_l'),
          ('XHeredoc', 'parts'), ('XHeredoc', 'heredoc_body_l'), ('XHeredoc', 'heredoc_end_l')}
# text field -> field with the range of that text
NAMES = {'Arg.name': 'expression_l', 'BackRef.name': 'expression_l', 'Blockarg.name': 'name_l', 'CSend.method_name': 'selector_l',
         'Casgn.name': 'name_l', 'Const.name': 'name_l', 'Cvar.name': 'expression_l', 'Cvasgn.name': 'name_l', 'Def.name': 'name_l',
         'Defs.name': 'name_l', 'Gvar.name': 'expression_l', 'Gvasgn.name': 'name_l', 'Ivar.name': 'expression_l', 'Ivasgn.name': 'name_l',
         'Kwarg.name': 'name_l', 'Kwoptarg.name': 'name_l', 'Kwrestarg.name': 'name_l', 'Lvar.name': 'expression_l', 'Lvasgn.name': 'name_l',
         'MatchVar.name': 'name_l', 'OpAsgn.operator': 'operator_l', 'Optarg.name': 'name_l', 'Restarg.name': 'name_l',
         'Send.method_name': 'selector_l', 'Shadowarg.name': 'expression_l', 'Int.value': 'expression_l', 'Float.value': 'expression_l',
         'Rational.value': 'expression_l', 'Complex.value': 'expression_l', 'NthRef.name': 'expression_l'}


class Ranges:
    def __init__(self, P, S, h):
        self.P, self.S, self.h = P, S, h
        self.exi = h.exi

    def norm(self, path, asm):
        """the range field of a destructured node is the range of the node"""
        out = list(path)
        for i in range(len(out)):
            e = out[i]
            if isinstance(e, tuple) and e[0] == 'd' and i + 2 < len(out) and out[i + 1] == 0 and out[i + 2] == self.exi.get(e[1]):
                return tuple(out[:i]) + ('expr',) + tuple(out[i + 3:])
            if e == 0 and i + 1 < len(out) and isinstance(out[i + 1], int) and i > 0 and not isinstance(out[i - 1], int):
                k = asm.get(('disc', ('s', tuple(out[:i]))))
                if isinstance(k, int) and out[i + 1] == self.exi.get(k):
                    return tuple(out[:i]) + ('expr',) + tuple(out[i + 2:])
        return tuple(path)

    def atoms(self, v, op, asm):
        """[(which, range path, offset)] whose min / max is v; None when unknown"""
        if v[0] == op:
            out = []
            for x in v[1]:
                a = self.atoms(x, op, asm)
                if a is None:
                    return None
                out += a
            return out
        off = 0
        if v[0] == 'lin':
            off = v[2]
            v = v[1]
        if v[0] == 'op' and v[1] == 'resized' and v[3][0] == 'i':
            off += v[3][1]
            v = v[2]
        if v[0] == 's' and len(v[1]) > 1 and v[1][-1] in (0, 1):
            return [('b' if v[1][-1] == 0 else 'e', self.norm(v[1][:-1], asm), off)]
        if v[0] == 'op' and v[1] in ('Add', 'Sub') and len(v) > 3:
            # moved by the size of a recorded part of the same node: stays inside it (only when the part is inside)
            a = self.atoms(v[2], op, asm)
            if a is not None and len(a) == 1:
                return [(a[0][0] + '~', a[0][1], 0)]
        return None

    def minlen(self, path):
        """how many bytes a range has at least"""
        if path[-1] != 2:
            return 0
        q = self.S.tokens(self.rhs, ('s', path[:-1]))
        return min((MINLEN.get(t, 0) for t in q), default=0)

    def le(self, x, y):
        """is position x certainly no later than y?"""
        (wx, px, ox), (wy, py, oy) = x, y
        if wx.endswith('~') or wy.endswith('~'):
            # somewhere inside its range
            wx = {'b~': 'e', 'e~': 'e'}.get(wx, wx)
            wy = {'b~': 'b', 'e~': 'b'}.get(wy, wy)
        if px == py:
            if wx == wy:
                return ox <= oy
            return wx == 'b' and ox <= oy + self.minlen(px)
        kx, ky = key(px), key(py)
        b = before(kx, ky)
        if b is True:
            # what x belongs to ends before what y belongs to begins
            dx = ox - (self.minlen(px) if wx == 'b' else 0)
            dy = oy + (self.minlen(py) if wy == 'e' else 0)
            return dx <= dy
        if ox > 0 or oy < 0:
            return False
        if b is False:
            return False
        # one inside the other
        if px[-1] == 'expr' and py[:len(px) - 1] == px[:-1]:
            return wx == 'b'
        if py[-1] == 'expr' and px[:len(py) - 1] == py[:-1]:
            return wy == 'e'
        return False


class Nodes:
    """visits every node that is built"""

    def __init__(self, ctx):
        self.P = ctx.prog
        self.h = build.BuildHooks()
        self.S = shape.analyse(ctx, self.h)
        self.G = Ranges(self.P, self.S, self.h)
        self.VAR = self.P.adts[NODE]['variants']

    def fields(self, k):
        return self.P.adts[self.VAR[k][1][0][1]]['variants'][0][1]

    def each(self, f):
        """f(rule, outcome, kind, {field: (type, value, [ranges])}) """
        for num, outs in sorted(self.S.res.items()):
            r = self.S.g.rules[num]
            self.G.rhs = self.rhs = self.S.parts(num)
            seen = set()
            for o in outs:
                if not self.S.feasible(num, o) or o.val[0] == 's':
                    continue
                st = type('St', (), {'asm': o.asm})()

                def see(w, ty, v):
                    if w != 'ctor':
                        return
                    k = v[2]
                    fs = {}
                    for i, (fn, t) in enumerate(self.fields(k)):
                        x = proj(v[3][0], i)
                        rs = []
                        if t in (LOC, OLOC):
                            if t == OLOC and x[0] == 'a' and x[1] == models.OPT:
                                if x[2]:
                                    rs = [x[3][0]]
                            else:
                                rs = [x]
                        elif NODE in t:
                            if t.startswith('std::vec::Vec'):
                                if x[0] == 'v':
                                    rs = [self.h.expr(y, st) for y in x[2] if y[0] != 'spread']
                                elif x[0] == 's':
                                    rs = [('s', x[1] + ('expr',))]
                            elif is_opt(t) and x[0] == 'a' and x[1] == models.OPT:
                                if x[2]:
                                    rs = [self.h.expr(x[3][0], st)]
                            else:
                                rs = [self.h.expr(x, st)]
                        fs[fn] = (t, x, rs)
                    f(r, o, k, fs)
                walk(self.P, PVT, o.val, see)

    def roles(self, o, l):
        """what a range is taken from: terminals, node (range of a child), Kind.field (field of a node taken apart)"""
        out = set()
        at = []
        collect(l, at)
        for p in at:
            if not (isinstance(p[0], tuple) and p[0][0] == 'rhs'):
                out.add('?')
                continue
            i = next((i for i, e in enumerate(p) if isinstance(e, tuple) and e[0] == 'd'), None)
            if 'expr' in p:
                out.add('node')
            elif i is not None and len(p) > i + 2:
                out.add('%s.%s' % (self.VAR[p[i][1]][0], self.fields(p[i][1])[p[i + 2]][0]))
            elif p[-1] in (0, 1) and len(p) > 2 and p[-2] == 2 and not isinstance(p[-3], int):
                out |= self.S.tokens(self.rhs, ('s', p[:-2]), o.asm)
            elif p[-1] == 2 and not isinstance(p[-2], int):
                out |= self.S.tokens(self.rhs, ('s', p[:-1]), o.asm)
            else:
                j = next((j for j, e in enumerate(p) if e == 0 and j), None)
                k = o.asm.get(('disc', ('s', p[:j]))) if j else None
                if isinstance(k, int) and j + 1 < len(p):
                    out.add('%s.%s' % (self.VAR[k][0], self.fields(k)[p[j + 1]][0]))
                else:
                    out.add('?')
        return out


def positions(rs):
    ks = []
    for l in rs:
        at = []
        collect(l, at)
        ks += [key(p) for p in at if isinstance(p[0], tuple) and p[0][0] == 'rhs']
    return ks


def precedes(a, b):
    return bool(a) and bool(b) and all(before(x, y) is True for x in a for y in b)


def tables(N):
    order, role = {}, {}

    def f(r, o, k, fs):
        name = N.VAR[k][0]
        ex = N.fields(k)[N.h.exi[k]][0]
        pos = {fn: positions(rs) for fn, (t, x, rs) in fs.items() if rs and fn != ex}
        for a in pos:
            for b in pos:
                if a != b and precedes(pos[a], pos[b]):
                    order.setdefault(name, set()).add((a, b))
        for fn, (t, x, rs) in fs.items():
            if t in (LOC, OLOC) and fn != ex:
                for l in rs:
                    role.setdefault('%s.%s' % (name, fn), set()).update(N.roles(o, l))
    N.each(f)
    return {'order': {n: sorted(p for p in s if (p[1], p[0]) not in s) for n, s in sorted(order.items())},
            'role': {n: sorted(s) for n, s in sorted(role.items())}}


def check(ctx, rep):
    N = Nodes(ctx)
    P, G, S, h = N.P, N.G, N.S, N.h
    ref = json.load(open(REF))
    order = {n: {tuple(p) for p in ps} for n, ps in ref['order'].items()}
    role = {n: set(s) for n, s in ref['role'].items()}
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and of Loc (join, adjust, resize)', 'ref/ranges.json, reviewed by hand',
                   'the lexer gives tokens increasing ranges', 'lists of more than three elements behave like lists of three']
    rep.assumptions = ['Numblock always has a body (its numbered parameter stands in it)', 'the separator after when/in patterns may lie beyond a clause with an empty body',
                       'the body of a heredoc lies outside the range of its node']
    n = {'nodes built': 0, 'ranges compared': 0, 'pairs ordered': 0, 'roles': 0, 'names': 0}
    numblock_nil = [0]

    def f(r, o, k, fs):
        name = N.VAR[k][0]
        where = S.R.name(r)
        ex = N.fields(k)[h.exi[k]][0]
        el = fs[ex][1]
        B = G.atoms(proj(el, 0), 'mn', o.asm)
        E = G.atoms(proj(el, 1), 'mx', o.asm)
        if name == 'Nil' and el == ('a', LOC, 0, (('i', 0), ('i', 0))):
            return      # stands in for the missing body of a Numblock, see below
        n['nodes built'] += 1
        if B is None or E is None:
            rep.bad('%s:%s:range' % (r, name), '%s: the range of the %s it builds cannot be traced to what was written: %s' % (where, name, show(P, el)[:300]))
            return
        pos = {}
        for fn, (t, x, rs) in fs.items():
            if fn == ex:
                continue
            if name == 'Numblock' and fn == 'body' and rs == [('a', LOC, 0, (('i', 0), ('i', 0)))]:
                continue
            pos[fn] = positions(rs)
            for l in rs:
                b = G.atoms(proj(l, 0), 'mn', o.asm)
                e = G.atoms(proj(l, 1), 'mx', o.asm)
                if b is None or e is None:
                    rep.bad('%s:%s.%s:unknown' % (r, name, fn), '%s: the range recorded as %s of %s cannot be traced to what was written: %s' % (where, fn, name, show(P, l)[:300]))
                    continue
                n['ranges compared'] += 1
                good = all(any(G.le(p, q) for p in B) for q in b)
                rep.check(good, '%s:%s.%s:begin' % (r, name, fn), '%s builds %s with a range that can begin after its %s: %s against %s' % (where, name, fn, show(P, el)[:200], show(P, l)[:200]))
                good = (name, fn) in BEYOND or all(any(G.le(q, p) for p in E) for q in e)
                rep.check(good, '%s:%s.%s:end' % (r, name, fn), '%s builds %s with a range that can end before its %s: %s against %s' % (where, name, fn, show(P, el)[:200], show(P, l)[:200]))
                if t in (LOC, OLOC):
                    got = N.roles(o, l)
                    want = role.get('%s.%s' % (name, fn))
                    if want is not None:
                        n['roles'] += 1
                        rep.check(got <= want, '%s:%s.%s:role' % (r, name, fn), '%s: %s of %s is the range of %s; it belongs to %s' % (where, fn, name, '/'.join(sorted(got - want)), '/'.join(sorted(want))))
        for a, b in order.get(name, ()):
            if pos.get(a) and pos.get(b):
                n['pairs ordered'] += 1
                rep.check(not precedes(pos[b], pos[a]), '%s:%s:%s<%s' % (r, name, a, b), '%s: in the %s it builds, %s (%s) stands after %s (%s)' % (
                    where, name, a, show(P, fs[a][2][0])[:80], b, show(P, fs[b][2][0])[:80]))
        for fn, (t, x, rs) in fs.items():
            lf = NAMES.get('%s.%s' % (name, fn))
            if lf is None or lf not in fs:
                continue
            at, pl = [], []
            collect(x, at)
            for l in fs[lf][2]:
                collect(l, pl)
            at = [p for p in at if isinstance(p[0], tuple) and p[0][0] == 'rhs']
            if not at:
                continue
            n['names'] += 1
            good = any(same(p, q) for p in at for q in pl) or not pl and is_opt(fs[lf][0]) and fs[lf][0] == OLOC and name in ('Send', 'CSend')
            rep.check(good, '%s:%s.%s:name' % (r, name, fn), '%s: %s of %s is taken from %s, but %s is %s' % (where, fn, name, show(P, ('s', at[0])), lf, show(P, fs[lf][1])[:160]))
    N.each(f)
    for k, x in n.items():
        rep.floor(k, x, {'nodes built': 10000, 'ranges compared': 30000, 'pairs ordered': 10000, 'roles': 10000, 'names': 800}[k])


def same(p, q):
    """do text path p and range path q belong to the same token or the same node taken apart?"""
    if q[:len(p)] == p:
        return True
    for i, e in enumerate(p):
        if isinstance(e, tuple) and e[0] == 'd' or isinstance(e, int):
            return q[:i] == p[:i]
    return False


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from .. import run
    os.makedirs(os.path.dirname(REF), exist_ok=True)
    json.dump(tables(Nodes(run.Ctx('quick'))), open(REF, 'w'), indent=1)
