"""Outcomes of actions in a form that can be compared between two versions of the code.

A condition is a conjunction of constraints on variables (kind of a node, kind of a token, presence of an optional part,
length of a list, a predicate of a text); a value is the tree that is built, without ranges. Two sets of outcomes are compared
as relations: every case of one side must be answered by the same value on the other side.
"""
import re
from . import models
from .build import NODE, LOC, PV, TOKEN, is_opt, inner, split, BuildHooks
from .interp import proj

OLOC = 'std::option::Option<%s>' % LOC
PVT = PV + 'ParseValue'
# functions that hand on a text unchanged
SAME = ('clone', 'clone_value', 'to_owned', 'to_string', 'into', 'as_str', 'from', 'deref', 'borrow', 'as_ref', 'text', 'into_string', 'to_string_lossy',
        'as_bytes', 'into_bytes', 'new', 'value', 'maybe_value', 'as_str_lossy', 'deref_mut', 'as_mut', 'to_vec', 'from_utf8', 'from_utf8_lossy', 'as_raw',
        'into_raw', 'unwrap', 'expect', 'index')


# functions that compare with a character
CHARS = ('ends_with', 'starts_with', 'contains', 'push', 'eq', 'ne')


KINDS = []     # names of the kinds of nodes


class Canon:
    def __init__(self, P, exi, g):
        self.P, self.exi = P, exi
        self.opts = set()
        self.tok = {n: t for t, n in g.terminals.items()}
        self.VAR = P.adts[NODE]['variants']
        KINDS[:] = [n for n, _ in self.VAR]

    def fields(self, k):
        return self.P.adts[self.VAR[k][1][0][1]]['variants'][0][1]

    # ------------------------------------------------------------ places
    def path(self, p, asm):
        if p and p[0] == 'parser':
            return 'state'
        out = []
        i = 0
        p = tuple(p)
        while i < len(p):
            e = p[i]
            if isinstance(e, tuple):
                if e[0] in ('rhs', 'peek'):
                    out.append('$%d' % e[1])
                elif e[0] == 'f':
                    out.append('.' + str(e[2]))
                elif e[0] == 'el':
                    out.append('[%d/%d]' % (e[1], e[2]))
                elif e[0] == 'd':
                    if i + 2 < len(p) and p[i + 1] == 0 and isinstance(p[i + 2], int) and e[1] < len(self.VAR) and p[i + 2] < len(self.fields(e[1])):
                        out.append('<%s.%s>' % (self.VAR[e[1]][0], self.fields(e[1])[p[i + 2]][0]))
                        i += 2
                    else:
                        out.append('!')
                else:
                    return None
            elif e == 0 and i + 1 < len(p) and isinstance(p[i + 1], int) and not isinstance(p[i - 1], int):
                k = asm.get(('disc', ('s', p[:i])))
                if isinstance(k, int) and k < len(self.VAR) and p[i + 1] < len(self.fields(k)):
                    out.append('<%s.%s>' % (self.VAR[k][0], self.fields(k)[p[i + 1]][0]))
                    i += 1
                else:
                    out.append('#0')
            elif e in ('*', 'some'):
                pass
            elif isinstance(e, int):
                out.append('#%d' % e)
            elif isinstance(e, str):
                out.append('@' + e)
            else:
                return None
            i += 1
        return ''.join(out)

    def optional(self, p):
        if not p.endswith('>') or '<' not in p:
            return False
        k, f = p[p.rindex('<') + 1:-1].split('.')
        i = next((i for i, (n, _) in enumerate(self.VAR) if n == k), None)
        r = i is not None and any(n == f and is_opt(t) for n, t in self.fields(i))
        if r:
            self.opts.add(p)
        return r

    def texts(self, v, asm, paths, consts):
        """True when the text may be modified on the way"""
        k = v[0]
        if k == 's':
            p = self.path(v[1], asm)
            q = None if p is None else p.replace('!#0', '').rstrip('!')
            paths.add(q if q is not None else '?')
            return False
        if k == 'str':
            t = v[1].decode('latin1') if isinstance(v[1], bytes) else v[1]
            # (also the fixed pieces of a format string, whatever encodes the rest)
            consts.update(re.findall('[ -~]+', t))
            return False
        if k == 'i':
            return False
        if k == 'B':
            return self.texts(v[1], asm, paths, consts)
        if k == 'op':
            ed = False
            name = v[1]
            args = v[2:]
            if v[1] in ('lib', 'ext') and isinstance(v[2], str):
                name = v[2].rsplit('::', 1)[1] if '::' in v[2] else v[2]
                args = v[3] if isinstance(v[3], tuple) else ()
            if name not in SAME:
                ed = True
            if name == 'edit' or name in CHARS:
                consts.update(chr(x[1]) for x in args if isinstance(x, tuple) and x and x[0] == 'i' and 32 <= x[1] < 127)
            for x in args:
                if isinstance(x, tuple) and x and x[0] in ('op', 's', 'str', 'i', 'B', 'a', 'v', 't') and x != ('self',):
                    ed |= self.texts(x, asm, paths, consts)
            return ed
        if k in ('a', 't', 'v'):
            ed = False
            for x in (v[3] if k == 'a' else v[1] if k == 't' else v[2]):
                if isinstance(x, tuple):
                    ed |= self.texts(x, asm, paths, consts)
            return ed
        paths.add('?')
        return True

    # ------------------------------------------------------------ values
    def value(self, ty, v, asm):
        ty = ty.strip()
        if v[0] == 'B':
            return self.value(inner(ty) if ty.startswith('std::boxed::Box<') else ty, v[1], asm)
        if ty.startswith('std::boxed::Box<'):
            return self.value(inner(ty), v, asm)
        if ty == LOC:
            return None
        if ty == OLOC:
            if v[0] == 'a':
                return bool(v[2])
            return self.optsym(v, asm)
        if is_opt(ty):
            if v[0] == 'a' and v[1] == models.OPT:
                if not v[2]:
                    return ['none']
                x = self.value(inner(ty), v[3][0], asm)
                return x
            if v[0] == 's':
                return ['opt', self.path(v[1], asm)]
            return self.value(inner(ty), v, asm)
        if ty.startswith('std::vec::Vec<') and 'u8' not in ty:
            if v[0] == 'v':
                out = []
                if v[1] is not None:
                    out.append(['rest', self.sub(v[1], asm)])
                for x in v[2]:
                    out.append(['rest', self.sub(x[1], asm)] if x[0] == 'spread' else self.value(inner(ty), x, asm))
                return ['list', out]
            return self.sub(v, asm)
        if ty.startswith('alloc_from_pool::PoolValue<'):
            return self.sub(v, asm)
        if ty.startswith('(') and ty != '()' and v[0] == 't':
            return ['tuple', [self.value(t, x, asm) for t, x in zip(split(ty[1:-1]), v[1])]]
        if ty == NODE:
            if v[0] == 'a' and v[1] == NODE:
                return self.node(v, asm)
            if v[0] == 'op' and v[1] == 'rec':
                return ['rec', self.value(ty, v[3], asm)]
            if v[0] == 'op' and v[1] == 'recn':
                return ['rec', [self.value(t, x, asm) for t, x in v[3]]]
            return self.sub(v, asm)
        a = self.P.adts.get(ty)
        if a is not None and v[0] == 'a' and v[1] == ty:
            return [a['variants'][v[2]][0] or ty] + [[f, self.value(t, x, asm)] for (f, t), x in zip(a['variants'][v[2]][1], v[3])]
        if ty in ('context::Context', 'str_term::StrTerm', 'bool', 'usize', 'u8', '()') or ty.startswith('std::option::Option<bool'):
            return None
        paths, consts = set(), set()
        ed = self.texts(v, asm, paths, consts)
        if not consts and len(paths) == 1 and '?' not in paths and not ed:
            return ['$', paths.pop()]
        return ['text', sorted(paths), sorted(consts), int(ed)]

    def optsym(self, v, asm):
        if v[0] == 's':
            return ['opt', self.path(v[1], asm)]
        return '?'

    def sub(self, v, asm):
        if v[0] == 's':
            return ['$', self.path(v[1], asm)]
        if v[0] == 'v':
            return ['list', [self.sub(x, asm) for x in v[2]]]
        paths, consts = set(), set()
        ed = self.texts(v, asm, paths, consts)
        return ['text', sorted(paths), sorted(consts), int(ed)]

    def node(self, v, asm):
        k = v[2]
        name = self.VAR[k][0]
        fs = []
        base = set()
        for i, (f, t) in enumerate(self.fields(k)):
            x = proj(v[3][0], i)
            c = self.value(t, x, asm)
            # is it this field of one and the same node?
            y = x
            while y[0] == 'B' or y[0] == 'a' and y[1] == models.OPT and y[2] == 1:
                y = y[1] if y[0] == 'B' else y[3][0]
            p = self.path(y[1], asm) if y[0] == 's' else None
            suf = '<%s.%s>' % (name, f)
            if p is not None and p.rstrip('!').endswith(suf):
                base.add(p.rstrip('!')[:-len(suf)])
            elif p is not None and f == 'expression_l' and p.endswith('@expr'):
                base.add(p[:-5])
            else:
                base.add(None)
            if t == LOC:
                continue
            fs.append([f, c])
        if len(base) == 1 and None not in base:
            return ['$', base.pop()]
        return [name] + fs

    def paths(self, I, args, st):
        out, consts = set(), set()
        for x in args:
            for _ in range(3):
                if x[0] != '&' or x[1] == ('H', ('parser',)):
                    break
                x = I.read(st, x[1], x[2])
            if x[0] != '&' and not (x[0] == 's' and isinstance(x[1][0], tuple) and x[1][0][0] == 'given'):
                self.texts(x, st.asm, out, consts)
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, o):
        """{variable: ('eq', value) | ('ne', values)}; a trailing ? marks variables compared only where both sides know them"""
        c = {}

        def put(k, r):
            if r[0] == 'ne' and k in c:
                if c[k][0] == 'eq':
                    return
                r = ('ne', c[k][1] | r[1])
            c[k] = r
        for i, (ty, x) in o.parts.items():
            c['$%d' % i] = ('eq', self.pat(ty, x))
        for k, x in o.asm.items():
            neg = k[0] == 'not'
            if neg:
                k = k[1]
                r = ('ne', frozenset(x))
            else:
                r = ('eq', x)
            if k[0] == 'disc':
                if k[1][0] == 's':
                    p = self.path(k[1][1], o.asm)
                    if p is not None:
                        p = p.rstrip('!')
                        put(('has ' if p in self.opts or self.optional(p) else 'kind ') + p, r)
                else:
                    n = self.atom(k[1], o.asm)
                    if n:
                        put(n + '.is?', r)
                continue
            t = BuildHooks.toktest(k)
            if t is not None:
                p = self.path(t[0], o.asm)
                if p is None or neg:
                    continue
                t1 = self.tok.get(t[1], t[1])
                put('token ' + p, ('eq', t1) if bool(x) == t[2] else ('ne', frozenset({t1})))
                continue
            if k[0] == 's':
                if len(k[1]) > 1 and k[1][-1] == 0:
                    p = self.path(k[1][:-1], o.asm)
                    if p is not None:
                        put('token ' + p, ('eq', self.tok.get(r[1], r[1])) if r[0] == 'eq' else ('ne', frozenset(self.tok.get(x, x) for x in r[1])))
                continue
            if k[0] == 'op' and k[1] == 'Eq' and k[2][0] == 'op' and k[2][1] == 'len' and k[3][0] == 'i' and not neg:
                k, r = k[2], (('eq', k[3][1]) if x else ('ne', frozenset({k[3][1]})))
            if k[0] == 'op' and k[1] == 'len' and k[2][0] == 's':
                p = self.path(k[2][1], o.asm)
                if p is not None:
                    put('len ' + p, r)
                continue
            n = self.atom(k, o.asm)
            if neg and n and n[:3].lower() in ('ne(', 'eq('):
                continue
            if n and n[:3].lower() == 'ne(' and x in (0, 1):
                n, r = 'eq' + n[2:], ('eq', 1 - x)
            if n:
                put(n[:2].lower() + n[2:] if n[:3] == 'Eq(' else n, r)
        return c

    pairs = False       # are comparisons of two parts of interest?

    def atom(self, k, asm):
        if k[0] != 'op':
            return None
        paths, consts = set(), set()
        self.texts(k, asm, paths, consts)
        if k[1] == 'ext':
            fn = '::'.join(k[2].rsplit('::', 2)[-2:])
            if fn.startswith('VariablesStack::') and k[3] and k[3][0][0] == 'self':
                fn = k[3][0][1] + '::' + fn     # there are several
            if '?' in paths:
                return fn + '(?)?'
        if '?' in paths or k[1] in ('Eq', 'Ne') and len(paths) > 1 and not self.pairs:
            return None
        if k[1] == 'ext':
            pass
        elif k[1] == 'lib':
            fn = k[2].rsplit('::', 1)[1]
        else:
            fn = k[1]
        return '%s(%s|%s)?' % (fn, ','.join(sorted(paths)), ','.join(sorted(consts)))

    def pat(self, ty, v):
        ty = ty.strip()
        if v[0] == 'B':
            return self.pat(inner(ty) if ty.startswith('std::boxed::Box<') else ty, v[1])
        if ty.startswith('std::boxed::Box<'):
            return self.pat(inner(ty), v)
        if is_opt(ty):
            if v[0] == 'a' and v[1] == models.OPT:
                return '+' + self.pat(inner(ty), v[3][0]) if v[2] else '-'
            return '*'
        if ty.startswith('std::vec::Vec<'):
            return str(len(v[2])) if v[0] == 'v' else '*'
        if ty.startswith('(') and ty != '()' and v[0] == 't':
            return '(%s)' % ','.join(self.pat(t, x) for t, x in zip(split(ty[1:-1]), v[1]))
        a = self.P.adts.get(ty)
        if a is not None and v[0] == 'a' and v[1] == ty and ty != NODE:
            n, fs = a['variants'][v[2]]
            return '%s{%s}' % (n, ','.join(sorted('%s:%s' % (f, self.pat(t, x)) for (f, t), x in zip(fs, v[3]))))
        return '_'


def enc(x):
    """hashable"""
    return tuple(enc(y) for y in x) if isinstance(x, (list, tuple)) else x


# ------------------------------------------------------------------ comparing
def consistent(a, b):
    for k, r in (a.items() if len(a) <= len(b) else b.items()):
        q = (b if len(a) <= len(b) else a).get(k)
        if q is None:
            continue
        if r[0] == 'eq' and q[0] == 'eq':
            if r[1] != q[1]:
                return False
        elif r[0] == 'eq':
            if r[1] in q[1]:
                return False
        elif q[0] == 'eq':
            if q[1] in r[1]:
                return False
    return True


def implied(c, r, k):
    """does condition c decide constraint r on variable k?"""
    q = c.get(k)
    if q is None:
        return False
    if q[0] == 'eq':
        return True     # consistent and pinned
    return r[0] == 'ne' and r[1] <= q[1]


def under(v, c):
    """value v when condition c holds: optional parts known to be absent"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'opt':
            q = c.get('has %s' % v[1])
            if q == ('eq', 0):
                return ('none',)
            return ('$', v[1])
        return tuple(under(x, c) for x in v)
    return v


def eqv(a, b, c):
    if a == b:
        return True
    return under(a, c) == under(b, c)


class Budget(Exception):
    pass


def covered(c, val, refs, budget):
    """None when every case of condition c with value val is answered by val in refs, else the failing case.
    Cases refs says nothing about are skipped."""
    comp = [(rc, rv) for rc, rv in refs if consistent(c, rc)]
    if not comp:
        return None
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    pick = None
    for rc, rv in comp:
        same = eqv(val, rv, {**rc, **c})
        und = [k for k, r in rc.items() if not implied(c, r, k)]
        if same and not und:
            return None
        if und and (pick is None or same and not pick[1] or same == pick[1] and len(und) < pick[2]):
            pick = (und[0], same, len(und))
    if pick is None:
        return c
    if not any(eqv(val, rv, {**rc, **c}) for rc, rv in comp):
        return c
    k = pick[0]
    vals = set()
    for rc, rv in comp:
        if k in rc:
            vals |= {rc[k][1]} if rc[k][0] == 'eq' else set(rc[k][1])
    q = c.get(k)
    old = q[1] if q else frozenset()
    for x in sorted(vals - set(old), key=repr):
        f = covered({**c, k: ('eq', x)}, val, comp, budget)
        if f is not None:
            return f
    rest = frozenset(vals) | frozenset(old)
    if (k[-1] == '?' or k.startswith('has ')) and rest >= {0, 1}:
        return None
    return covered({**c, k: ('ne', rest)}, val, comp, budget)
