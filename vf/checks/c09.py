"""C09: nothing is lost, duplicated or reordered on the way to the tree.

Every action is evaluated, with the builder functions it calls, on symbolic parts (build.py). Every node a part brings in
must be found exactly once in the value handed on; a node that was taken apart must reappear through every one of its own
children; a name, literal or other token with content must be found too; and in every list of nodes in the value the
elements stand in the order of the parts they come from.
"""
from .. import build, shape, models
from ..build import NODE, walk, key, before, show, is_opt, inner, bears_nodes
from ..shape import PVT, TOP, flat
from ..interp import TRUE, FALSE, UNIT
from collections import Counter

# terminals whose text is part of the program (the others are fixed by their kind)
CONTENT = ('tIDENTIFIER', 'tFID', 'tGVAR', 'tIVAR', 'tCONSTANT', 'tCVAR', 'tLABEL', 'tINTEGER', 'tFLOAT', 'tRATIONAL', 'tIMAGINARY',
           'tCHAR', 'tNTH_REF', 'tBACK_REF', 'tSTRING_CONTENT', 'tREGEXP_END', 'tOP_ASGN')
NUMP = 'max_numparam_stack::MaxNumparamStack::'


# terminals whose text decides what is built, where it need not be kept
DECIDES = ('tOP_ASGN', 'tREGEXP_END', 'tNTH_REF')


class Hooks(build.BuildHooks):
    def call(self, I, name, ci, args, st, fr, site):
        if name.startswith('token::Token::') and name.rsplit('::', 1)[1] in ('into_string', 'to_string_lossy', 'as_str_lossy', 'into_bytes', 'as_bytes', 'to_string'):
            v = args[0] if args[0][0] != '&' else models.deref(I, st, args[0])
            if v[0] == 's':
                st = st.copy()
                st.fl['read'] = tuple(sorted(set(st.fl.get('read', ())) | {v[1]}, key=repr))
                st._k = None
        return build.BuildHooks.call(self, I, name, ci, args, st, fr, site)

    def outside(self, I, name, args, st, site):
        if name == NUMP + 'set_has_ordinary_params':
            st = st.copy()
            st.fl['ordinary'] = 1
            st._k = None
            return [(UNIT, st)]
        if name == NUMP + 'has_ordinary_params':
            out = []
            for b in (0, 1):
                s2 = st.copy()
                s2.fl['asked'] = b
                s2._k = None
                out.append((('i', b), s2))
            return out
        if name == NUMP + 'register':
            st = st.copy()
            st.fl['registered'] = st.fl.get('asked', 'not asked') if not st.fl.get('error') else 0
            st._k = None
            return [(UNIT, st)]
        return None

    def event(self, I, name, args, st, site):
        if name == 'builder::Builder::error':
            st = st.copy()
            st.fl['error'] = 1
            st._k = None
            return [(UNIT, st)]
        return None


def collect(v, out):
    """paths of the symbols in v"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple):
            out.append(v[1])
            return
        for x in v:
            if isinstance(x, tuple):
                collect(x, out)


def isempty(asm, path):
    """was the text of the node at path found empty?"""
    for k, x in asm.items():
        if x == 1 and k[0] == 'op' and k[2].endswith('::is_empty'):
            ps = []
            collect(k, ps)
            if any(p[:len(path)] == path for p in ps):
                return True
    return False


class Use:
    """what an outcome contains"""

    def __init__(self, P, vals):
        self.nodes = Counter()
        self.other = set()
        self.text = set()
        self.tok = set()
        self.lists = []
        self.unknown = []
        for ty, v in vals:
            walk(P, ty, v, self.see)

    def see(self, w, ty, v):
        if w in ('node', 'nodes'):
            if v[0] == 's':
                self.nodes[v[1]] += 1
            else:
                self.unknown.append((ty, v))
        elif w == 'unknown':
            self.unknown.append((ty, v))
        elif w == 'list':
            self.lists.append((ty, v))
        elif w in ('text', 'loc', 'token'):
            ps = []
            collect(v, ps)
            self.other.update(ps)
            if w != 'loc':
                self.text.update(ps)

    def within(self, base):
        return [p for p in list(self.nodes) + list(self.other) if p[:len(base)] == base]


def check(ctx, rep):
    P = ctx.prog
    S = shape.analyse(ctx, Hooks())
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and options (models.py)', 'lists of more than three elements behave like lists of three']
    rep.assumptions = ['a heredoc part that is empty after removing indentation is not an expression',
                       'parameters of a block that also uses numbered parameters: an error has been reported (shown: try_declare_numparam)']
    PVs = P.adts[PVT]['variants']
    bearing = {i for i, (n, fs) in enumerate(PVs) if any(bears_nodes(P, t) for _, t in fs)}
    STR = next((i for i, (n, _) in enumerate(P.adts[NODE]['variants']) if n == 'Str'), None)

    def fields(k):
        return list(enumerate(P.adts[P.adts[NODE]['variants'][k][1][0][1]]['variants'][0][1]))

    n_out = n_atoms = n_lists = n_tok = 0
    safe = numparam_rules(S)
    for num, outs in sorted(S.res.items()):
        r = S.g.rules[num]
        where = S.R.name(r)
        rhs = S.parts(num)
        midrule = r.lhs in S.R.mid
        for o in outs:
            if o.fl.get('registered', 0) != 0:
                rep.bad('%s:numparam' % r, '%s: a numbered parameter is accepted in a block whose parameters were not checked first' % where)
            if not S.feasible(num, o) or midrule:
                continue
            n_out += 1
            vals = []
            if o.val[0] == 's':
                through = o.val[1][0][1]
            else:
                through = None
                vals = [(PVT, o.val)]
            if o.result is not None:
                vals.append(('std::option::Option<std::boxed::Box<%s>>' % NODE, o.result))
            u = Use(P, vals)
            for ty, v in u.unknown:
                rep.bad('%s:unknown' % r, '%s: a part of the value it builds cannot be traced to what was written: %s' % (where, show(P, v)[:200]))

            def present(path):
                n = u.nodes.get(path, 0)
                if n:
                    return n, None
                k = o.asm.get(('disc', ('s', path)))
                sub = [p for p in u.within(path) if len(p) > len(path) and p[len(path)] not in ('expr', 'some')]
                if k is None:
                    return (1 if sub else 0), None
                sh = S.at(rhs, path)
                got = False
                for i, (fn, t) in fields(k):
                    base = path + (('d', k), 0, i)
                    alt = path + (0, i)
                    ins = u.within(base) + u.within(alt)
                    if ins:
                        got = True
                    if NODE in t:
                        if not ins:
                            if is_opt(t) and o.asm.get(('disc', ('s', base))) == 0:
                                continue
                            if sh != TOP and TOP not in sh and all(i in ab for v, ab in sh if v == k):
                                continue
                            return -1, fn
                        n = sum(u.nodes.get(p, 0) for p in (base, alt))
                        if n > 1:
                            return n, fn
                return (1 if got else 0), None

            for i, s in enumerate(rhs):
                if through == i:
                    continue
                if i in o.parts:
                    ty, x = o.parts[i]
                    atoms, toks = [], []

                    def f2(w, t, v):
                        if w == 'node' and v[0] == 's':
                            atoms.append(v[1])
                        elif w == 'token' and v[0] == 's':
                            toks.append(v)
                    walk(P, ty, x, f2)
                    for a in atoms:
                        n_atoms += 1
                        n, fn = present(a)
                        what = '%s of %s' % (place(P, a, rhs), where)
                        if n == 0:
                            if o.asm.get(('disc', ('s', a))) == STR and isempty(o.asm, a):
                                continue
                            rep.bad('%s:%s:lost' % (r, key(a)), '%s is lost: it brings a node that is not part of the value built, %s' % (what, show(P, o.val)[:160]))
                        elif n < 0:
                            rep.bad('%s:%s:lost.%s' % (r, key(a), fn), '%s is taken apart and its %s is lost, %s' % (what, fn, show(P, o.val)[:160]))
                        elif n > 1:
                            rep.bad('%s:%s:dup' % (r, key(a)), '%s appears %d times in the value built, %s' % (what, n, show(P, o.val)[:160]))
                        else:
                            rep.ok('%s:%s' % (r, key(a)))
                    for t in toks:
                        q = S.tokens(rhs, t)
                        if q & set(CONTENT):
                            n_tok += 1
                            if q <= set(DECIDES) and any(t[1] in o2.fl.get('read', ()) for o2 in outs):
                                continue
                            if not any(p[:len(t[1])] == t[1] for p in u.text):
                                rep.bad('%s:%s:text' % (r, key(t[1])), '%s of %s: the text of the token (%s) is lost' % (place(P, t[1], rhs), where, '/'.join(sorted(q & set(CONTENT)))))
                elif S.kinds.get(s, set()) & bearing:
                    if 'Numargs' in show(P, o.val) or 'Numblock' in show(P, o.val):
                        rep.check(safe.get(s, False), '%s:%d:numargs' % (r, i), '%s: with numbered parameters %s is dropped, although it can hold parameters that do not exclude them' % (where, s))
                        continue
                    rep.bad('%s:%d:ignored' % (r, i), '%s never uses its part %d (%s): what was written there is lost' % (where, i + 1, s))
                elif s in CONTENT or 'T' in S.kinds.get(s, ()) or has_content(S, s):
                    q = {s} if s in CONTENT else S.terms.get(s, {}).get((), set())
                    if q & set(CONTENT):
                        rep.bad('%s:%d:ignored' % (r, i), '%s never uses its part %d (%s): what was written there is lost' % (where, i + 1, s))
            for ty, v in u.lists:
                if NODE not in ty:
                    continue
                n_lists += 1
                ks = []
                for x in v[2]:
                    e = Use(P, [(inner(ty), x)])
                    kk = [key(p) for p in list(e.nodes) + list(e.other) if isinstance(p[0], tuple) and p[0][0] == 'rhs']
                    if kk:
                        ks.append(kk)
                good = all(before(x, y) in (True, None) for a, b in zip(ks, ks[1:]) for x in a for y in b)
                rep.check(good, '%s:order' % r, '%s: the elements of a list are not in source order: %s' % (where, show(P, v)[:200]))
    rep.floor('outcomes', n_out, 8000)
    rep.floor('nodes traced', n_atoms, 10000)
    rep.floor('lists', n_lists, 4000)
    rep.floor('tokens traced', n_tok, 300)
    rep.count('productions', len(S.res))


def place(P, path, rhs):
    i = path[0][1]
    s = 'part %d (%s)' % (i + 1, rhs[i])
    for e in path[1:]:
        if isinstance(e, tuple) and e[0] == 'f':
            s = 'field %s of ' % e[2] + s
        elif isinstance(e, tuple) and e[0] == 'el':
            s = 'element %d of %d of ' % (e[1] + 1, e[2]) + s
    return s


def has_content(S, s):
    return bool(S.terms.get(s, {}).get((), set()) & set(CONTENT))


def numparam_rules(S):
    """nonterminals whose value, when it can hold parameters, excludes numbered ones"""
    safe = {}
    args = next(i for i, (n, _) in enumerate(S.P.adts[NODE]['variants']) if n == 'Args')
    changed = True
    names = [n for n in S.g.nonterminals]
    safe = {n: True for n in names}
    while changed:
        changed = False
        for num, outs in S.res.items():
            r = S.g.rules[num]
            if not safe[r.lhs] or r.lhs in S.R.mid:
                continue
            rhs = S.parts(num)
            for o in outs:
                if not S.feasible(num, o) or o.fl.get('ordinary'):
                    continue
                if o.val[0] == 's':
                    if safe.get(rhs[o.val[1][0][1]], False):
                        continue
                else:
                    u = Use(S.P, [(PVT, o.val)])
                    if not u.nodes:
                        continue
                    # only passed on unchanged from a part that is itself safe
                    if all(safe.get(rhs[p[0][1]], False) and len([e for e in p[1:] if e != 'some']) == 0 for p in u.nodes) and not u.lists:
                        continue
                safe[r.lhs] = False
                changed = True
                break
    return safe
