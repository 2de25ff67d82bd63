"""Call graph over the MIR dump.

Edges: direct calls, function items and closures mentioned as values, drop glue of crate types,
and, for calls through a trait whose implementation is not resolved at the call (generic code),
every implementation of that method in the crate. Branches guarded by a constant are pruned.
"""
import re
from .mir import callee, succs


def const_true_false(f):
    """reachable blocks when switches on constants (or on locals assigned once from a constant,
    directly or from a crate fn that returns a constant) are decided"""
    return None


def consts_in(o, out):
    if isinstance(o, list):
        if len(o) == 2 and o[0] == 'k' and isinstance(o[1], dict):
            out.append(o[1])
        else:
            for x in o:
                consts_in(x, out)


def const_fn(prog, name, seen=()):
    """if the function returns a compile-time integer/bool on every path, that value"""
    f = prog.fns.get(name)
    if f is None or name in seen or f.argc > 4:
        return None
    vals = set()
    for i in live_blocks(prog, f, seen + (name,)):
        b = f.blocks[i]
        for s in b['s']:
            if s[0] == '=' and s[1][0] == 0:
                v = None
                if len(s[1]) == 1 and s[2][0] == 'use' and s[2][1][0] == 'k':
                    v = s[2][1][1].get('int')
                vals.add(v)
        if b['t'][0] == 'call' and b['t'][3][0] == 0:
            vals.add(None)
    return vals.pop() if len(vals) == 1 else None


def live_blocks(prog, f, seen=()):
    """blocks reachable from entry, deciding switches on known constants"""
    defs = {}
    for b in f.blocks:
        for s in b['s']:
            if s[0] == '=' and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(s[2])
            elif s[0] == '=':
                defs.setdefault(s[1][0], []).append(None)
        if b['t'][0] == 'call':
            d = b['t'][3]
            defs.setdefault(d[0], []).append(('call', b['t']))

    def val(o, n=0):
        if n > 6:
            return None
        if o[0] == 'k':
            return o[1].get('int')
        if o[0] in ('c', 'm') and len(o[1]) == 1:
            d = defs.get(o[1][0], [])
            if len(d) == 1 and d[0] is not None and o[1][0] > f.argc:
                r = d[0]
                if r[0] == 'use':
                    return val(r[1], n + 1)
                if r[0] == 'un' and r[1] == 'Not':
                    x = val(r[2], n + 1)
                    return None if x not in (0, 1) else 1 - x
                if r[0] == 'call':
                    c = callee(r[1])
                    if c and len(seen) < 4:
                        return const_fn(prog, c['fn'], seen)
        return None
    out, wl = set(), [0]
    while wl:
        i = wl.pop()
        if i in out:
            continue
        out.add(i)
        t = f.blocks[i]['t']
        if t[0] == 'switch':
            v = val(t[1])
            if v is not None:
                for x, b in t[2]:
                    if x == v:
                        wl.append(b)
                        break
                else:
                    wl.append(t[3])
                continue
        wl += succs(t)
    return out


class CallGraph:
    def __init__(self, prog):
        self.p = prog
        self.edges = {}
        self.impl = {}
        for n in prog.fns:
            m = re.match(r'.*<(?:impl )?(.*)>::(\w+)$', n)
            if m:
                self.impl.setdefault(m.group(2), []).append(n)
        self._drop = {}
        for n in prog.fns:
            m = re.match(r'.*<(?:impl std::ops::Drop for )?([\w:]+).*>::drop$', n)
            if m and 'Drop' in n:
                self._drop[m.group(1)] = n

    def out(self, name):
        """[(callee name, call dict, loc)]"""
        r = self.edges.get(name)
        if r is not None:
            return r
        f = self.p.fns[name]
        r = []
        for i in sorted(live_blocks(self.p, f)):
            b = f.blocks[i]
            ks = []
            for s in b['s']:
                consts_in(s, ks)
            t = b['t']
            if t[0] == 'call':
                c = callee(t)
                if c is not None:
                    r.append((c['fn'], c, t[5]))
                    if c['fn'] not in self.p.fns:
                        for m in self.dyn(c):
                            r.append((m, c, t[5]))
                else:
                    r.append(('<indirect>', None, t[5]))
                for a in t[2]:
                    consts_in(a, ks)
            for k in ks:
                if 'callee' in k:
                    r.append((k['callee']['fn'], k['callee'], ''))
                if 'closure' in k:
                    r.append((k['closure'], None, ''))
                if 'promoted' in k:
                    r.append(('%s::promoted[%d]' % (k['of'], k['promoted']), None, ''))
                if 'def' in k and k['def'] in self.p.fns:
                    r.append((k['def'], None, ''))
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                    r.append((s[2][1][1], None, ''))
            if t[0] == 'drop':
                for ty, d in self._drop.items():
                    if ty in t[3]:
                        r.append((d, None, ''))
        self.edges[name] = r
        return r

    def dyn(self, c):
        """crate implementations an unresolved trait call may reach"""
        meth = c['fn'].split('::')[-1]
        o = c['fn']
        out = []
        targs = [a.lstrip('&') for a in c.get('args', [])]
        for n in self.impl.get(meth, []):
            for t in targs:
                if t and ('<%s' % t in n or 'for %s' % t in n):
                    out.append(n)
                    break
        return out

    def reach(self, roots):
        """name -> (parent, loc) for everything reachable"""
        par = {r: None for r in roots}
        wl = list(roots)
        while wl:
            n = wl.pop()
            if n not in self.p.fns:
                continue
            for m, c, loc in self.out(n):
                if m not in par:
                    par[m] = (n, loc)
                    wl.append(m)
        return par

    def path(self, par, n):
        out = [n]
        while par.get(n):
            n = par[n][0]
            out.append(n)
        return ' <- '.join(out)
