"""C22: building a node never aborts on anything the grammar can hand it.

Every action is evaluated, with the builder functions it calls (recursive ones one level deep), on symbolic parts (build.py).
Each explicit abort (unreachable!, panic!, unwrap/expect, indexing and text slicing) that a path reaches is an obligation: the
conditions of the path - kinds and presence of the parts, lengths of lists, kinds of tokens - must contradict what the parts
of that production can be. What they can be is computed for the whole grammar as a least fixed point over the values the
actions produce (shape.py). Slicing a text at a fixed place is allowed only for tokens whose text starts with that many
ASCII characters; the first character of a text is assumed to exist only for tokens that are never empty. There is a positive
dedent level only while a heredoc is composed (C16).
"""
from .. import build, shape, grammar, models
from ..forms import Canon, PVT
from ..build import fld
from . import c18
from .c18 import Hooks as Base, Base as C21
from .c21 import rulename, says

PREFIX = {'tNTH_REF': 1, 'tGVAR': 1, 'tBACK_REF': 1, 'tIVAR': 1, 'tCVAR': 2}
# kinds of tokens whose text is never empty
FULL = {'tLABEL', 'tIDENTIFIER', 'tCONSTANT', 'tFID', 'tNTH_REF', 'tGVAR', 'tBACK_REF', 'tIVAR', 'tCVAR', 'tINTEGER', 'tFLOAT', 'tRATIONAL', 'tIMAGINARY', 'tCHAR'}
NEXT = ('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::slice::Iter<'a, T> as std::iter::Iterator>::next")
STRINDEX = ('core::str::traits::<impl std::ops::Index<I> for str>::index', '<std::string::String as std::ops::Index<I>>::index')


class Hooks(Base):
    def setup(self, P):
        Base.setup(self, P)
        self.aborts = []
        self.seen = 0
        return self

    def on_panic(self, I, st, site, what):
        parts = {k[1]: v for k, v in st.fl.items() if isinstance(k, tuple) and k[0] == 'part'}
        o = build.Outcome(False, None, parts, {k: x for k, x in st.asm.items() if self.keep(k) or build.hasrhs(k) or haspeek(k)}, {'abort': (site, what)})
        o.result = None
        if any(dedent(k, self.dedent) for k in st.asm) and not onpart(st):
            # that there is a level means that a heredoc is composed and that it is positive (C16)
            return
        if not any(frommap(k) for k in st.asm):
            self.aborts.append(o)

    def on_call(self, I, name, ci, args, st, fr, site):
        f = self.P.fns.get(name)
        if f is not None and self.root is None and name.startswith('builder::') and self.opaque(name) and (self.predicate(f) or self.verdict(name)):
            # what it aborts on is known from its own analysis: instantiated here
            vals = tuple(self.full(I, st, a) for a in args)
            o = build.Outcome(False, None, {k[1]: x for k, x in st.fl.items() if isinstance(k, tuple) and k[0] == 'part'}, {k: x for k, x in st.asm.items() if self.keep(k)}, {'calls': (name, vals)})
            o.result = None
            self.aborts.append(o)
        if name in STRINDEX and not (args[1][0] == 'a' and args[1][1].endswith('RangeFull')):
            v = self.lib(I, 'lib', name, args, st)
            o = build.Outcome(False, None, {k[1]: x for k, x in st.fl.items() if isinstance(k, tuple) and k[0] == 'part'}, {k: x for k, x in st.asm.items() if self.keep(k)}, {'abort': (site, 'slice')})
            o.result = v
            self.aborts.append(o)
        return Base.on_call(self, I, name, ci, args, st, fr, site)

    def call(self, I, name, ci, args, st, fr, site):
        r = Base.call(self, I, name, ci, args, st, fr, site)
        if r is not None and name in NEXT and args[0][0] == '&' and len(r) == 2 and r[1][0] == models.NONE:
            # the list is empty, or its first element
            it = I.read(st, args[0][1], args[0][2])
            b = it[3][0][1] if it[0] == 'a' and it[1] == models.ITER and it[3][0][0] == 'v' else None
            if b is not None and b[0] == 's':
                k = ('disc', ('op', 'nonempty', b))
                x = st.asm.get(k)
                if x is None and (st.asm.get(('op', 'len', b), 0) > 0 or any(y == 1 and q[0] == 'op' and q[1] == 'Eq' and q[2] == ('op', 'len', b) and q[3][0] == 'i' and q[3][1] > 0 for q, y in st.asm.items())):
                    x = 1
                out = []
                for y, (v, s) in zip((1, 0), r):
                    if x in (None, y):
                        s = s.copy()
                        s.asm[k] = y
                        out.append((v, s))
                return out
        return r

    @staticmethod
    def full(I, st, v):
        for _ in range(3):
            if v[0] != '&' or v[1] == ('H', ('parser',)):
                break
            v = I.read(st, v[1], v[2])
        return v

    def finish(self, outs):
        out = outs + self.aborts
        self.aborts = []
        return out


def haspeek(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return isinstance(v[1][0], tuple) and v[1][0][0] == 'peek'
        return any(haspeek(x) for x in v if isinstance(x, tuple))
    return False


def frommap(k):
    """a condition on what was found in a map of nodes visited before (and was fine then)"""
    return k[0] in ('not', 'disc') and mapped(k[1])


def mapped(v):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'op' and v[1] == 'lib' and 'HashMap' in v[2]:
            return True
        return any(mapped(x) for x in v if isinstance(x, tuple))
    return False


def onpart(st):
    """was the last thing decided the kind of an element of a list?"""
    k = list(st.asm)[-1]
    if k[0] == 'not':
        k = k[1]
    return k[0] == 'disc' and k[1][0] == 's' and isinstance(k[1][1][-1], tuple) and k[1][1][-1][0] == 'el'


def dedent(v, field):
    """does v mention the dedent level?"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return v[1][0] == 'parser' and v[1][1:len(field) + 1] == field
        return any(dedent(x, field) for x in v if isinstance(x, tuple))
    return False


class Reach:
    def __init__(self, S):
        self.S = S
        self.P = S.P
        self.TOKEN = next(i for i, (n, fs) in enumerate(S.P.adts[PVT]['variants']) if n == 'Token')

    def shapes(self, rhs, p):
        S = self.S
        if any(isinstance(e, tuple) and e[0] == 'd' or isinstance(e, int) for e in p[1:]):
            return None
        sh = S.at(rhs, p)
        return None if sh == shape.TOP or shape.TOP in sh else sh

    def possible(self, num, o):
        """can the path be taken?"""
        S = self.S
        rhs = S.parts(num)
        if not S.feasible2(num, o):
            return False
        for k, x in o.asm.items():
            neg = k[0] == 'not'
            if neg:
                k = k[1]
            if k[0] == 'disc' and k[1][0] == 's' and isinstance(k[1][1][0], tuple) and k[1][1][0][0] in ('rhs', 'peek'):
                p = k[1][1]
                i = p[0][1]
                if len(p) == 1 and i not in o.parts and i < len(rhs):
                    # which kind of value a part is
                    ks = {self.TOKEN if y == 'T' else y for y in S.kinds[rhs[i]]}
                    if not (set(ks) - set(x) if neg else x in ks):
                        return False
                    continue
                if p[0][0] == 'rhs':
                    sh = self.shapes(rhs, p)
                    if neg and sh is not None and all(v in x for v, _ in sh):
                        return False
            m = self.length(k, x, neg)
            if m is not None:
                p, lo, hi = m
                fs = self.field(rhs, p, o.asm)
                if fs is not None and not any((i not in ab or lo == 0) and (('+', i) not in ab or hi > 0) for i, ab in fs):
                    return False
            if not neg and k[0] == 'disc' and x == 0 and k[1][0] == 'op' and str(k[1][2]).endswith('::next'):
                # first character of a text
                ts = self.token(rhs, k[1])
                if ts and ts <= FULL:
                    return False
        if o.fl['abort'][1] == 'slice':
            ts = self.token(rhs, o.result)
            n = cut(o.result)
            if ts and n is not None and all(PREFIX.get(t, 0) >= n for t in ts):
                return False
        return True

    @staticmethod
    def length(k, x, neg):
        """(path of a list, least, most) when the condition bounds its length"""
        if k[0] == 'disc' and k[1][0] == 'op' and k[1][1] == 'nonempty' and k[1][2][0] == 's':
            return (k[1][2][1],) + ((1, 1 << 60) if bool(x) != neg else (0, 0))
        if k[0] == 'op' and k[1] == 'len' and k[2][0] == 's':
            if neg:
                return (k[2][1], 1, 1 << 60) if 0 in x else None
            return k[2][1], x, x
        if k[0] == 'op' and k[1] == 'Eq' and k[2][0] == 'op' and k[2][1] == 'len' and k[2][2][0] == 's' and k[3][0] == 'i' and not neg:
            n = k[3][1]
            if x:
                return k[2][2][1], n, n
            return (k[2][2][1], 1, 1 << 60) if n == 0 else None
        if k[0] == 'op' and isinstance(k[2], str) and k[2].endswith('::is_empty') and len(k[3]) == 1 and k[3][0][0] == 's' and not neg:
            return (k[3][0][1],) + ((0, 0) if x else (1, 1 << 60))
        return None

    def field(self, rhs, p, asm):
        """[(index, what is known of the lists)] of the node whose list the path names"""
        if not (isinstance(p[0], tuple) and p[0][0] == 'rhs') or len(p) < 3 or not isinstance(p[-1], int) or p[-2] != 0:
            return None
        b = p[:-2]
        k = None
        if isinstance(b[-1], tuple) and b[-1][0] == 'd':
            k = b[-1][1]
            b = b[:-1]
        if k is None:
            k = asm.get(('disc', ('s', b)))
        sh = self.shapes(rhs, b)
        if sh is None or k is None:
            return None
        return [(p[-1], ab) for v, ab in sh if v == k]

    def token(self, rhs, v):
        """kinds of tokens a text comes from; None when it may come from elsewhere"""
        out = set()

        def go(v):
            if not isinstance(v, tuple):
                return True
            if v and v[0] == 's' and len(v) == 2:
                if v[1][0] == 'deref' and len(v[1]) == 2:
                    return go(v[1][1])
                p = v[1]
                if isinstance(p[0], tuple) and p[0][0] in ('rhs', 'peek'):
                    while len(p) > 1 and isinstance(p[-1], int):
                        p = p[:-1]
                    ts = self.S.tokens(rhs, ('s', (('rhs', p[0][1]),) + p[1:]))
                    if not ts or '?' in ts:
                        return False
                    out.update(ts)
                    return True
                return p[0] == 'parser'
            return all(go(x) for x in v)
        return out if go(v) and out else None


def instantiate(S, ab, call):
    """an abort of a recursive function seen from a call of it: the same conditions, of what it was given"""
    name, vals = call.fl['calls']
    out = [dict(call.asm)]
    for k, x in ab.asm.items():
        neg = k[0] == 'not'
        d = k[1] if neg else k
        if d[0] != 'disc' or d[1][0] != 's' or not (isinstance(d[1][1][0], tuple) and d[1][1][0][0] == 'rhs'):
            continue
        p = d[1][1]
        v = vals[p[0][1]]
        rest = p[1:]
        alts = [v]
        if rest and isinstance(rest[0], tuple) and rest[0][0] == 'el':
            if rest[0][2] != 1:
                return []
            rest = rest[1:]
            if v[0] == 'v':
                alts = [y for y in v[2] if y[0] != 'spread']
            elif v[0] == 's':
                alts = [('s', v[1] + (('el', 0, 0),))]
            else:
                alts = []
        new = []
        for a in out:
            for y in alts:
                if y[0] == 'B':
                    y = y[1]
                if y[0] == 's':
                    key = ('disc', ('s', y[1] + rest))
                    old = a.get(key)
                    no = a.get(('not', key), ())
                    if neg:
                        if old is None or old not in x:
                            new.append({**a, ('not', key): tuple(set(x) | set(no))} if old is None else dict(a))
                    elif (old is None or old == x) and x not in no:
                        new.append({**a, key: x})
                elif y[0] == 'a' and not rest:
                    if (y[2] not in x) if neg else y[2] == x:
                        new.append(dict(a))
        out = new
    return out


def cut(v):
    """place a text is sliced at: op lib index (text, range)"""
    r = v[3][1]
    if r[0] == 'a':
        ns = [x[1] for x in r[3] if x[0] == 'i']
        if len(ns) == len(r[3]):
            return max(ns)
    return None


def check(ctx, rep):
    h = Hooks()
    h.g = grammar.load(ctx)
    P = ctx.prog
    # parser.yylexer.buffer.heredoc_indent
    path, ty = (), 'parser::parse::Parser'
    for n in ('yylexer', 'buffer', 'heredoc_indent'):
        i = fld(P, ty, n)
        path += (i,)
        ty = P.adts[ty]['variants'][0][1][i][1]
    h.dedent = path
    S = shape.analyse(ctx, h)
    C = Canon(P, h.exi, S.g)
    R = Reach(S)
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and options (models.py)', 'texts of identifier, label, variable and number tokens are not empty; sigils are ASCII (C20)',
                   'the dedent level is positive and belongs to the heredoc being composed']
    sites, n = {}, 0
    own = {}
    for name in sorted(P.fns):
        if name.startswith('builder::') and '{' not in name and h.recursive(name) and (h.predicate(P.fns[name]) or C21.verdict(h, name)):
            h.aborts = []
            if c18.own(h, S.R, C, name) is not None:
                own[name] = h.aborts
    h.aborts = []
    for num in sorted(S.res):
        for o in S.res[num]:
            if 'calls' in o.fl:
                for ab in own.get(o.fl['calls'][0], ()):
                    n += 1
                    e = sites.setdefault(ab.fl['abort'], [0, None])
                    e[0] += 1
                    if e[1] is not None:
                        continue
                    for asm in instantiate(S, ab, o):
                        o2 = build.Outcome(False, None, o.parts, asm, ab.fl)
                        o2.result = ab.result
                        if R.possible(num, o2):
                            e[1] = (rulename(S, num), says(C.cond(o2))[:300])
                            break
                continue
            if 'abort' not in o.fl:
                continue
            n += 1
            site, what = o.fl['abort']
            bad = R.possible(num, o)
            e = sites.setdefault((site, what), [0, None])
            e[0] += 1
            if bad and e[1] is None:
                e[1] = (rulename(S, num), says(C.cond(o))[:300])
    for (site, what), (k, bad) in sorted(sites.items(), key=str):
        where = '%s (bb%s)' % site if isinstance(site, tuple) and len(site) == 2 else str(site)
        rep.check(bad is None, '%s %s' % (where, what), bad and '%s: %s: reached from `%s` when %s' % (where, what, bad[0], bad[1] or 'parsed'))
    rep.floor('abort sites', len(sites), 10)
    rep.floor('paths to them', n, 100)
    rep.floor('productions', len(S.res), 600)
