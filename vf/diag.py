"""Which diagnostics each function can build: (severity, kind) pairs, propagated through helpers.

Flow-insensitive within a function over the definitions of a local, context-sensitive through calls
(a helper's parameters are substituted at each call site)."""
from .mir import callee

DIAG = 'error::diagnostic::Diagnostic'
LEVEL = 'error::level::ErrorLevel'
MSG = 'lib_ruby_parser_ast::DiagnosticMessage'


class Diags:
    def __init__(self, P):
        self.P = P
        self.defs = {}
        self.site = []          # (fn, where, level atom, kind atom) resolved
        self.retv = {}
        self.summ = {}
        self.build()

    def defsof(self, f):
        d = self.defs.get(f.name)
        if d is None:
            d = {}
            for b in f.blocks:
                if b['c']:
                    continue
                for s in b['s']:
                    if s[0] == '=':
                        d.setdefault(s[1][0], []).append((s[1], s[2]))
                t = b['t']
                if t[0] == 'call':
                    d.setdefault(t[3][0], []).append((t[3], ('call', t)))
            self.defs[f.name] = d
        return d

    def op(self, f, o, seen=()):
        if o[0] == 'k':
            k = o[1]
            if 'variant' in k:
                return {('k', k['variant'] if isinstance(k['variant'], str) else self.vname(k['ty'], k['vidx']))}
            return {('?', 'const %s' % k.get('ty'))}
        if o[0] in ('c', 'm'):
            return self.place(f, o[1], seen)
        return {('?', 'operand')}

    def vname(self, ty, i):
        a = self.P.adts.get(ty)
        return a['variants'][i][0] if a else str(i)

    def place(self, f, p, seen):
        if len(p) > 1:
            if p[0] <= f.argc and all(e == '*' for e in p[1:]) and p[0] >= 1:
                return {('p', p[0] - 1)}
            if f.kind == 'fn' and '{closure' in f.name and p[0] == 1:
                i = next((e[1] for e in p if isinstance(e, list) and e[0] == 'f'), None)
                return {('up', i)}
            # field of a local aggregate (e.g. a tuple (level, message))
            fi = [e for e in p[1:] if isinstance(e, list) and e[0] == 'f']
            if len(fi) == 1 and len(p) <= 3:
                out = set()
                for lhs, r in self.defsof(f).get(p[0], []):
                    if r[0] == 'agg' and len(lhs) == 1:
                        i = fi[0][1]
                        if i < len(r[2]):
                            out |= self.op(f, r[2][i], seen)
                            continue
                    out.add(('?', 'field'))
                if out:
                    return out
            if all(e == '*' for e in p[1:]):
                return self.place(f, [p[0]], seen)
            return {('?', 'place')}
        l = p[0]
        if (f.name, l) in seen:
            return set()
        seen = seen + ((f.name, l),)
        out = set()
        ds = self.defsof(f).get(l, [])
        if not ds and 1 <= l <= f.argc:
            return {('p', l - 1)}
        for lhs, r in ds:
            if len(lhs) > 1:
                continue
            if r[0] == 'use':
                out |= self.op(f, r[1], seen)
            elif r[0] == 'ref':
                out |= self.place(f, r[2], seen)
            elif r[0] == 'agg' and r[1][0] == 'adt':
                out.add(('k', r[1][3]))
            elif r[0] == 'call':
                t = r[1]
                ci = callee(t)
                if ci and ci['fn'] in self.P.fns and ci['fn'] not in [s[0] for s in seen]:
                    g = self.P.fns[ci['fn']]
                    for a in self.place(g, [0], seen):
                        if a[0] == 'p' and a[1] < len(t[2]):
                            out |= self.op(f, t[2][a[1]], seen)
                        else:
                            out.add(a)
                elif ci and ci['fn'].endswith('::clone') and t[2]:
                    out |= self.op(f, t[2][0], seen)
                else:
                    out.add(('?', ci['fn'] if ci else 'indirect call'))
            else:
                out.add(('?', r[0]))
        return out

    def build(self):
        P = self.P
        base = {}
        for n, f in P.fns.items():
            if f.kind != 'fn' or f.derived:
                continue
            for i, b in enumerate(f.blocks):
                if b['c']:
                    continue
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == DIAG:
                        names = list(s[2][1][4])
                        lv = self.op(f, s[2][2][names.index('level')])
                        ms = self.op(f, s[2][2][names.index('message')])
                        base.setdefault(n, set()).update((a, m, n, f.span) for a in lv for m in ms)
        self.summ = {n: set(v) for n, v in base.items()}
        # propagate parameters to call sites
        callers = {}
        for n, f in P.fns.items():
            if f.kind != 'fn':
                continue
            for b, t in f.calls():
                ci = callee(t)
                if ci and ci['fn'] in P.fns:
                    callers.setdefault(ci['fn'], []).append((n, t))
        wl = list(self.summ)
        while wl:
            g = wl.pop()
            open_ = [x for x in self.summ[g] if x[0][0] == 'p' or x[1][0] == 'p']
            if not open_:
                continue
            for n, t in callers.get(g, []):
                f = P.fns[n]
                add = set()
                for lv, ms, w, sp in open_:
                    ls = self.op(f, t[2][lv[1]]) if lv[0] == 'p' else {lv}
                    mm = self.op(f, t[2][ms[1]]) if ms[0] == 'p' else {ms}
                    for a in ls:
                        for m in mm:
                            add.add((a, m, n, t[5]))
                new = add - self.summ.get(n, set())
                if new:
                    self.summ.setdefault(n, set()).update(new)
                    wl.append(n)

    def resolved(self):
        """(level, kind, fn, where) with both known; and the unresolved rest"""
        good, rest = set(), set()
        for n, v in self.summ.items():
            for lv, ms, w, sp in v:
                if lv[0] == 'k' and ms[0] == 'k':
                    good.add((lv[1], ms[1], w, sp))
                elif lv[0] == 'p' or ms[0] == 'p':
                    continue
                else:
                    rest.add((lv, ms, w, sp))
        return good, rest
