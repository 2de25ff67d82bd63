"""Loading and basic views of the MIR dump."""
import json, os, re, functools


class Fn:
    __slots__ = ('name', 'span', 'argc', 'kind', 'vis', 'exported', 'derived', 'self_ty', 'parent',
                 'locals', 'vars', 'blocks', '_succ')

    def __init__(self, b):
        self.name = b['name']
        self.span = b['span']
        self.argc = b['argc']
        self.kind = b.get('kind')
        self.vis = b.get('vis')
        self.exported = b.get('exported')
        self.derived = b.get('derived')
        self.self_ty = b.get('self')
        self.parent = b.get('parent')
        self.locals = b['locals']
        self.vars = b['vars']
        self.blocks = b['blocks']
        self._succ = None

    def succ(self, i):
        return succs(self.blocks[i]['t'])

    def calls(self, cleanup=False):
        for i, bl in enumerate(self.blocks):
            if bl['c'] and not cleanup:
                continue
            if bl['t'][0] == 'call':
                yield i, bl['t']

    def varname(self, local):
        for n, p in self.vars:
            if p == [local]:
                return n
        return '_%d' % local


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] >= 0 else []
    if k == 'assert':
        return [t[4]]
    return []


def callee(t):
    """resolved callee dict of a call terminator or None"""
    f = t[1]
    if f[0] == 'k':
        return f[1].get('callee')
    return None


def callee_name(t):
    c = callee(t)
    return c['fn'] if c else None


class Prog:
    def __init__(self, d):
        raw = json.load(open(os.path.join(d, 'mir.json')))
        self.dir = d
        self.fns = {}
        for b in raw['bodies']:
            f = Fn(b)
            self.fns[f.name] = f
        self.adts = {a['name']: a for a in raw['adts']}
        self.statics = raw['statics']
        self._consts = None

    def fn(self, suffix):
        """the unique function whose path ends with suffix"""
        if suffix in self.fns:
            return self.fns[suffix]
        c = [f for n, f in self.fns.items() if n.endswith('::' + suffix) and f.kind == 'fn']
        if len(c) == 1:
            return c[0]
        return None

    def token_consts(self):
        """token number -> name, from Lexer::t* consts"""
        if self._consts is None:
            m = {}
            for f in self.fns.values():
                if f.kind == 'const' and f.locals[0] == 'i32':
                    for bl in f.blocks:
                        for s in bl['s']:
                            if s[0] == '=' and s[1] == [0] and s[2][0] == 'use' and s[2][1][0] == 'k':
                                m[f.name] = s[2][1][1].get('int')
            self._consts = m
        return self._consts


# ---------------------------------------------------------------- pretty printing
def fplace(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e == '*':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.' + e[2]
        elif e[0] == 'd':
            s = '(%s as %s)' % (s, e[2])
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        else:
            s += str(e)
    return s


def fop(o):
    if o[0] in 'cm':
        return ('move ' if o[0] == 'm' else '') + fplace(o[1])
    if o[0] == 'k':
        k = o[1]
        if 'callee' in k:
            return k['callee']['fn']
        for a in ('str', 'int', 'variant', 'static', 'bytes', 'closure', 'adtbits'):
            if a in k:
                return '%s%s' % (k.get('def', '') + '=' if 'def' in k else '', repr(k[a]))
        if 'promoted' in k:
            return 'promoted%d' % k['promoted']
        return '<%s>' % k['ty']
    return str(o)


def frv(r):
    k = r[0]
    if k == 'use':
        return fop(r[1])
    if k == 'ref':
        return '&%s %s' % (r[1], fplace(r[2]))
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], fop(r[2]), fop(r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], fop(r[2]))
    if k == 'discr':
        return 'discr(%s)' % fplace(r[1])
    if k == 'agg':
        kk = r[1]
        if kk[0] == 'adt':
            return '%s::%s{%s}' % (kk[1], kk[3], ', '.join('%s: %s' % (n, fop(o)) for n, o in zip(kk[4], r[2])))
        return '%s(%s)' % (kk, ', '.join(map(fop, r[2])))
    if k == 'cast':
        return '%s as %s (%s)' % (fop(r[2]), r[3], r[1])
    return str(r)


def show(f, cleanup=False):
    print('fn %s  argc=%d %s' % (f.name, f.argc, f.span))
    for i, t in enumerate(f.locals):
        print('  let _%d: %s  %s' % (i, t, ' '.join(n for n, p in f.vars if p[0] == i)))
    for i, b in enumerate(f.blocks):
        if b['c'] and not cleanup:
            continue
        print(' bb%d:' % i)
        for s in b['s']:
            if s[0] == '=':
                print('    %s = %s' % (fplace(s[1]), frv(s[2])))
            elif s[0] != 'dead':
                print('    ', s)
        t = b['t']
        if t[0] == 'call':
            print('    %s = CALL %s(%s) -> bb%d  [%s]' % (fplace(t[3]), fop(t[1]), ', '.join(map(fop, t[2])), t[4], t[5]))
        elif t[0] == 'switch':
            print('    SWITCH %s %s else bb%d' % (fop(t[1]), t[2], t[3]))
        elif t[0] == 'drop':
            print('    DROP %s -> bb%d  (%s)' % (fplace(t[1]), t[2], t[3][:80]))
        else:
            print('    ', t)


if __name__ == '__main__':
    import sys
    from . import prep
    P = Prog(prep.prepare())
    for n in sys.argv[1:]:
        c = [f for k, f in P.fns.items() if n in k]
        for f in c:
            if n == f.name or len(c) < 6:
                show(f)
            else:
                print(f.name)
