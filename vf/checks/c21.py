"""C21: every syntactic form is represented by its own documented tree.

Every action is evaluated, with the builder functions it calls, on symbolic parts (build.py). For each production the result is
a relation between cases (which optional parts are written, how many list elements, which kind a part's node or token has,
what is known of a name) and the tree built: kind of node, which part in which field, which names and texts, which optional
ranges present. The relation must be the one recorded for that form (ref/forms.json.gz, reviewed by hand): each case of the
present code must be answered by the same tree in the record, and each recorded case by the same tree in the present code.
Ranges are C10's business. Predicates of texts and parser state that only one side knows are left open.
"""
import gzip, json, os
from .. import build, shape, forms, laws
from ..forms import Canon, PVT, enc
from ..build import NODE

REF = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ref', 'forms.json.gz')
ONODE = 'std::option::Option<std::boxed::Box<%s>>' % NODE


def syms(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple):
            out.add(v[1])
            return
        for x in v:
            if isinstance(x, tuple):
                syms(x, out)


class Hooks(build.BuildHooks):
    def remember(self, v):
        if build.BuildHooks.remember(self, v):
            return True
        if v[0] != 'op':
            return False
        o = set()
        syms(v, o)
        if any(not (isinstance(p[0], tuple) and p[0][0] in ('rhs', 'peek') or p[0] == 'parser') for p in o):
            return False
        return len(o) <= 1

    def keep(self, k):
        return build.hasrhs(k) or k[0] == 'op' and k[1] == 'ext' or k[0] in ('not', 'disc') and k[1][0] == 'op' and k[1][1] == 'ext'


def relation(S, C, num, outs, value):
    out = {}
    for o in outs:
        if o.ok and not S.feasible(num, o):
            continue
        if not o.ok and not S.feasible2(num, o):
            continue
        v = enc(value(o))
        c = C.cond(o)
        out[(frozenset(c.items()), v)] = (c, v)
    return list(out.values())


def tree(C):
    def f(o):
        if not o.ok:
            return ['rejected']
        v = [C.value(PVT, o.val, o.asm)]
        if o.result is not None:
            v.append(C.value(ONODE, o.result, o.asm))
        return v
    return f


def vocab(rel):
    return {k for c, v in rel for k in c if k.endswith('?')}


def word(a):
    """predicates of this crate are known as a whole, whatever they are applied to; others by what they are applied to"""
    f = a.split('(')[0]
    return f if '::' in f else a


def common(cur, ref):
    a, b = vocab(cur), vocab(ref)
    lost = {word(x) for x in a | b if '(?)' in x}
    return ({word(x) for x in a} & {word(x) for x in b}) - lost


def restrict(rel, words):
    out = {}
    for c, v in rel:
        c = {k: r for k, r in c.items() if not k.endswith('?') or word(k) in words}
        out[(frozenset(c.items()), v)] = (c, v)
    return list(out.values())


class Index:
    """outcomes by the shapes of the parts"""

    def __init__(self, rel):
        self.m = {}
        self.all = rel
        for c, v in rel:
            key = frozenset((k, r[1]) for k, r in c.items() if k[0] == '$')
            self.m.setdefault(key, []).append((c, v))
        self.keys = {k: dict(k) for k in self.m}

    def get(self, c):
        mine = {k: r[1] for k, r in c.items() if k[0] == '$' and r[0] == 'eq'}
        out = []
        for k, d in self.keys.items():
            if all(mine.get(i, x) == x for i, x in d.items()):
                out += self.m[k]
        return out


def compare(cur, ref):
    """[(side, condition, value)] of cases answered differently"""
    words = common(cur, ref)
    cur, ref = restrict(cur, words), restrict(ref, words)
    bad = []
    both = {(frozenset(c.items()), v) for c, v in cur} & {(frozenset(c.items()), v) for c, v in ref}
    for side, a, b in (('new', cur, ref), ('gone', ref, cur)):
        idx = Index(b)
        for c, v in a:
            if (frozenset(c.items()), v) in both:
                continue
            r = idx.get(c)
            if side == 'gone' and not any(forms.consistent(c, rc) for rc, _ in r):
                bad.append((side, c, v))
                continue
            try:
                f = forms.covered(c, v, r, [3000])
            except forms.Budget:
                f = None if any(forms.eqv(v, rv, {**rc, **c}) and forms.consistent(c, rc) for rc, rv in r) else c
            if f is not None:
                bad.append((side, f, v))
    return bad


def brief(v):
    if isinstance(v, tuple):
        if v and v[0] == '$':
            return v[1]
        if v and v[0] == 'none':
            return '-'
        if v and v[0] == 'text':
            return 'text(%s)' % ','.join(list(v[1]) + [repr(x) for x in v[2]])
        if v and v[0] == 'list':
            return '[%s]' % ', '.join(brief(x) for x in v[1])
        if v and isinstance(v[0], str) and v[0][:1].isupper():
            return '%s{%s}' % (v[0], ', '.join('%s: %s' % (x[0], brief(x[1])) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) else brief(x) for x in v[1:]))
        return '(%s)' % ', '.join(brief(x) for x in v)
    return str(v)


def says(c):
    c = {k: r for k, r in c.items() if r != ('eq', '_')}

    def name(k, x):
        return forms.KINDS[x] if k.startswith('kind ') and isinstance(x, int) and x < len(forms.KINDS) else x
    return ', '.join('%s %s %s' % (k, '=' if r[0] == 'eq' else 'not in', name(k, r[1]) if r[0] == 'eq' else '/'.join(str(name(k, x)) for x in sorted(r[1], key=repr))) for k, r in sorted(c.items()))


def save(path, rels):
    """values and conditions are shared between productions: stored once"""
    vals, conds = {}, {}
    out = {}
    for name, rel in sorted(rels.items()):
        out[name] = [[sorted(conds.setdefault((k, r[0], r[1] if r[0] == 'eq' else tuple(sorted(r[1]))), len(conds)) for k, r in c.items()),
                      vals.setdefault(v, len(vals))] for c, v in sorted(rel, key=repr)]
    d = dict(values=list(vals), conditions=list(conds), rules=out)
    data = json.dumps(d, separators=(',', ':')).encode()
    with open(path, 'wb') as f:
        with gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as z:
            z.write(data)


def load(path):
    d = json.load(gzip.open(path))
    vals = [enc(v) for v in d['values']]
    conds = [(k, (w, x if w == 'eq' else frozenset(x))) for k, w, x in d['conditions']]
    return {n: [(dict(conds[i] for i in c), vals[v]) for c, v in rel] for n, rel in d['rules'].items()}


def analyse(ctx):
    h = Hooks()
    S = shape.analyse(ctx, h)
    C = Canon(ctx.prog, h.exi, S.g)
    f = tree(C)
    return S, {rulename(S, n): relation(S, C, n, outs, f) for n, outs in S.res.items()}


def rulename(S, n):
    r = S.g.rules[n]
    if r.lhs in S.R.mid:
        q, i = S.R.mid[r.lhs]
        return 'in: %s: %s ^%d' % (q.lhs, ' '.join('@' if s in S.R.mid else s for s in q.rhs), i)
    return '%s: %s' % (r.lhs, ' '.join('@' if s in S.R.mid else s for s in r.rhs))


def check(ctx, rep):
    S, cur = analyse(ctx)
    ref = load(REF)
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and options (models.py)', 'ref/forms.json.gz, reviewed by hand', 'lists of more than three elements behave like lists of three']
    n = m = 0
    for name in sorted(cur):
        if name not in ref:
            continue
        n += 1
        m += len(ref[name])
        bad = compare(cur[name], ref[name])
        rep.check(not bad, name, ('`%s`: ' % name) + '; '.join(
            ('when %s it builds %s, which is not the tree of this form' if s == 'new' else 'when %s it no longer builds %s') % (says(c)[:300], brief(v)[:500]) for s, c, v in bad[:2]))
    laws.report(rep, laws.labels(ctx.prog))
    rep.floor('productions', n, 600)
    rep.floor('recorded cases', m, 5000)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from .. import run
    save(REF, analyse(run.Ctx('quick'))[1])
