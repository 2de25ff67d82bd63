"""Interprocedural path analysis of the lexer.

Every function of the lexer is summarised by the set of its outcomes (returned value, values left in
places passed by reference, ghost state) for each abstract input; calls use the summaries (fixpoint over
recursion). The byte source is abstract: reading the next byte yields either the end marker or an unknown
byte. Ghost state carried along a path (State.fl):
  eof   the last read hit the end of the input (further reads hit it again)
  av    number of bytes known to be available (pushed back or peeked)
  seen  the end of the input was reached at some point of this call
  nul   the last byte read was compared equal to NUL, ^D or ^Z
  mark  a whole line equal to __END__ was recognised
  err   an error-level diagnostic was emitted
plus whatever the check's own ghost adds.
"""
from . import models
from .interp import Interp, Hooks, State, sym, UNIT, TRUE, FALSE, Limit, proj, roots
from .models import some, NONE, ok, err as err_

LX = ('H', ('lexer',))
LEXER = 'lexer::main::Lexer'
BUF = 'source::buffer::Buffer'
MB = 'maybe_byte::MaybeByte'
EMIT = 'error::diagnostic::Diagnostics::emit'
LEVEL = 'error::level::ErrorLevel'
EOF = ('a', MB, 1, ())


def mb(v):
    return ('a', MB, 0, (v,))


def is_char(v):
    """does the predicate talk about a byte read from the source or a returned value?"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return isinstance(v[1][0], tuple) and v[1][0][0] in ('ch', 'in', 'c')
        return any(is_char(x) for x in v if isinstance(x, tuple))
    return False


def has_bit(v):
    return isinstance(v, tuple) and (v[:1] == ('bit',) or any(has_bit(x) for x in v if isinstance(x, tuple)))


def is_const_test(v):
    return is_char(v) and not has_bit(v) and (v[0] == 's' or (v[0] == 'op' and v[1] == 'Eq' and v[3][0] == 'i'))


REMEMBER = (is_char, lambda v: is_char(v) and not has_bit(v), is_const_test, lambda v: False)


def lastchar(v):
    return v[0] == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'ch'


def isq(v):
    return v[0] == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'q'


def cells_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'L':
            out.add(v)
            return
        for x in v:
            if isinstance(x, tuple):
                cells_in(x, out)


class LexInterp(Interp):
    def read(self, st, cell, path):
        # fields of the lexer are not tracked unless the check asks for them
        if cell == LX and path and path[0] not in self.hooks.tracked:
            if self.hooks.gread is not None:
                v = self.hooks.gread(self, st, path)
                if v is not None:
                    return v
            if st.fl.get('eof') and path == self.hooks.eofp:
                return TRUE
            return ('op', 'fld', path)
        return Interp.read(self, st, cell, path)

    def write(self, st, cell, path, val):
        if cell == LX and path and path[0] not in self.hooks.tracked:
            self.hooks.on_write(self, st, cell, path, val)
            return
        Interp.write(self, st, cell, path, val)

    def _prune(self, st, fr, live, addr):
        # locals whose address was taken stay only while something refers to them
        cand = [c for c in st.mem if c[0] == 'L' and c[1] == fr and not (isinstance(c[2], int) and live >> c[2] & 1)]
        if cand:
            cs = set(cand)
            keep = set()
            wl = [v for c, v in st.mem.items() if c not in cs]
            while wl:
                refs = set()
                cells_in(wl.pop(), refs)
                for c in refs:
                    if c in cs and c not in keep:
                        keep.add(c)
                        wl.append(st.mem[c])
            for c in cand:
                if c not in keep:
                    del st.mem[c]
        if st.asm or 'cur' in st.fl:
            self._prune_asm(st)
        st._k = None

    def _prune_asm(self, st):
        rs = set()
        for v in st.mem.values():
            roots(v, rs)
        cur = st.fl.get('cur')
        if cur and cur not in rs:
            del st.fl['cur']
        for k in list(st.asm):
            ks = set()
            roots(k, ks)
            if not ks <= rs:
                del st.asm[k]

    def assume(self, st, v, val):
        Interp.assume(self, st, v, val)
        x, y = v, val
        if v[0] == 'op' and v[1] == 'Eq' and v[3][0] == 'i' and val == 1:
            x, y = v[2], v[3][1]
        if y in (0, 4, 26) and lastchar(x) and len(x[1]) == 1 and st.fl.get('cur') == x[1][0]:
            st.fl['nul'] = 1
            st._k = None


class Engine(Hooks):
    opaque_mods = ('lex_state::', 'stack_state::', 'context::', 'static_environment::', 'reserved_words::', 'max_numparam_stack', 'error::')

    def __init__(self, P, ghost=None, maxstates=15000):
        self.P = P
        self.g = ghost
        self.tracked = ()
        self.gread = getattr(ghost, 'read', None)
        if ghost is not None:
            ghost.E = self
        self.maxstates = maxstates
        self.sums = {}
        self.deps = {}
        self.active = []
        self.dirty = False
        self.loops = []
        self.traps = []
        self.panics = {}
        self.limits = {}
        self.coarse = {}
        self.fields = {nm: i for i, (nm, t) in enumerate(P.adts[LEXER]['variants'][0][1])}
        self.bfields = {nm: i for i, (nm, t) in enumerate(P.adts[BUF]['variants'][0][1])}
        self.iB = self.fields['buffer']
        self.eofp = (self.iB, self.bfields.get('eofp'))
        # functions from which the byte source can be reached
        from . import cg
        G = cg.CallGraph(P)
        self.readers = set()
        rev = {}
        for n in P.fns:
            for m, c, l in G.out(n):
                rev.setdefault(m, set()).add(n)
        wl = [BUF + '::nextc']
        while wl:
            n = wl.pop()
            if n in self.readers:
                continue
            self.readers.add(n)
            wl += list(rev.get(n, ()))
        self.rev = rev
        self.G = G

    # ---------------------------------------------------------------- values
    def absv(self, v, table, d=0):
        k = v[0]
        if k == 'i' or k == 'str' or k == 'fn' or (k == 'op' and v[1] in ('byte', 'ar')):
            return v
        if k == 'a' and d < 4:
            return ('a', v[1], v[2], tuple(self.absv(x, table, d + 1) for x in v[3]))
        if k == 't' and d < 3 and len(v[1]) <= 4:
            return ('t', tuple(self.absv(x, table, d + 1) for x in v[1]))
        if k == 'B' and d < 4:
            return ('B', self.absv(v[1], table, d + 1))
        if k == '&' and v[1] == LX:
            return v
        if isq(v):
            return v
        if v not in table:
            table[v] = len(table)
        return ('s', (('in', table[v]),))

    def trk(self, v, I=None, st=None, d=0):
        """value of a tracked field across a call: symbols of the check ('q', ..) keep their identity, others are unknown"""
        k = v[0]
        if k in ('i', 'str', 'fn'):
            return v
        if st is not None:
            x = st.asm.get(v)
            if isinstance(x, int) and k == 's':
                return ('i', x)
        if d < 9:
            if k == 'a':
                return ('a', v[1], v[2], tuple(self.trk(x, I, st, d + 1) for x in v[3]))
            if k == 't':
                return ('t', tuple(self.trk(x, I, st, d + 1) for x in v[1]))
            if k == 'B':
                return ('B', self.trk(v[1], I, st, d + 1))
        if k in ('bv', 'op', 'lin'):
            rs = set()
            roots(v, rs)
            if rs and all(isinstance(r, tuple) and r[0] == 'q' for r in rs):
                return v
        if k == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'q':
            return v
        return ('s', (('q', '?'),))

    def inst(self, v, back, site, outs):
        """outcome value -> value in the caller"""
        k = v[0]
        if k == 's':
            r = v[1][0]
            if isinstance(r, tuple) and r[0] == 'q':
                return v
            if isinstance(r, tuple) and r[0] == 'in' and len(v[1]) == 1 and r[1] in back:
                return back[r[1]]
            if v not in outs:
                outs[v] = ('s', (('c',) + tuple(site) + (len(outs),),))
            return outs[v]
        if k == 'a':
            return ('a', v[1], v[2], tuple(self.inst(x, back, site, outs) for x in v[3]))
        if k == 't':
            return ('t', tuple(self.inst(x, back, site, outs) for x in v[1]))
        if k == 'B':
            return ('B', self.inst(v[1], back, site, outs))
        return v

    # ---------------------------------------------------------------- summaries
    def call_summary(self, I, name, args, st, fr, site):
        table = {}
        aargs, cells = [], []
        for i, a in enumerate(args):
            if a[0] == '&' and a[1] != LX and a[1][0] in ('L', 'H'):
                v = I.read(st, a[1], a[2])
                cells.append((i, a, self.absv(v, table)))
                aargs.append(('&', ('H', ('parg', i)), ()))
            elif a[0] == '&' and a[1] == LX and a[2]:
                aargs.append(self.absv(('s', (('ref', a[2]),)), table))
            else:
                aargs.append(self.absv(a, table))
        for i in self.tracked:
            cells.append((('trk', i), ('&', LX, (i,)), self.trk(I.read(st, LX, (i,)), I, st)))
        key = (name, tuple(aargs), tuple((i, v) for i, a, v in cells), frozenset((k, v) for k, v in st.fl.items() if k not in ('cur', 'ceof')))
        outs = self.summary(key)
        back = {n: v for v, n in table.items()}
        res = []
        f = self.P.fns[name]
        mutself = any(t.startswith('&mut') for t in f.locals[1:2])
        for rv, oc, fl in outs:
            s2 = st.copy()
            cur = None
            s2.fl = dict(fl)
            names = {}
            rv2 = self.inst(rv, back, site, names)
            for (i, a, v0), (j, v1) in zip(cells, oc):
                if v1 != v0:
                    I.write(s2, a[1], a[2], self.inst(v1, back, site, names))
            for r in [x[1][0] for x in names.values()]:
                for k in list(s2.asm):
                    if mention(k, r):
                        del s2.asm[k]
            if mutself and not self.tracked:
                s2.mem.pop(LX, None)
            s2._k = None
            res.append((rv2, s2))
        return res

    def summary(self, key):
        if key in self.sums:
            if self.active:
                self.deps.setdefault(key, set()).add(self.active[-1])
            return self.sums[key]
        self.sums[key] = frozenset()
        self.deps.setdefault(key, set())
        if self.active:
            self.deps[key].add(self.active[-1])
        work = [key]
        self.compute(key)
        return self.sums[key]

    def compute(self, key):
        name, aargs, cells, fl = key
        self.active.append(key)
        try:
            for rnd in range(12):
                out = self.analyse(name, aargs, cells, dict(fl))
                new = frozenset(out)
                if new == self.sums[key]:
                    break
                grew = self.sums[key] != new
                self.sums[key] = new
                # only a recursive use makes another round necessary
                if key not in self.deps.get(key, ()) and not any(d in self.active for d in self.deps.get(key, ()) if d != key and self.active.index(d) > self.active.index(key)):
                    if not self.recursive(key):
                        break
        finally:
            self.active.pop()

    def recursive(self, key):
        """is this function part of a call cycle"""
        n = key[0]
        if not hasattr(self, '_rec'):
            self._rec = {}
        if n not in self._rec:
            seen, wl = set(), [m for m, c, l in self.G.out(n)]
            while wl:
                x = wl.pop()
                if x in seen or x not in self.P.fns:
                    continue
                seen.add(x)
                wl += [m for m, c, l in self.G.out(x)]
            self._rec[n] = n in seen
        return self._rec[n]

    def analyse(self, name, aargs, cells, fl):
        # a function with too many states is analysed again remembering fewer tests
        for lv in range(self.coarse.get(name, 0), len(REMEMBER)):
            try:
                return self.analyse1(name, aargs, cells, fl, lv)
            except Limit as e:
                if str(e) != name or lv + 1 == len(REMEMBER):
                    raise
                self.coarse[name] = lv + 1

    def analyse1(self, name, aargs, cells, fl, lv):
        f = self.P.fns[name]
        I = LexInterp(self.P, models.M, self)
        I.MAXSTATES = self.maxstates
        I.remember = REMEMBER[lv]
        I.edges = {}
        st = State({}, {}, dict(fl))
        for i, v in cells:
            if isinstance(i, tuple):
                Interp.write(I, st, LX, (i[1],), v)
            else:
                st.mem[('H', ('parg', i))] = v
        outs = []
        try:
            res = I.run(f, list(aargs), st, 1)
        except Limit as e:
            self.limits[name] = str(e)
            raise
        self.find_loops(f, I)
        self.find_traps(f, I)
        for rv, s in res:
            table = {}
            # input symbols keep their names
            r = self.outv(rv, table)
            oc = tuple((i, self.trk(I.read(s, LX, (i[1],)), I, s) if isinstance(i, tuple) else self.outv(I.read(s, ('H', ('parg', i)), ()), table)) for i, v in cells)
            outs.append((r, oc, frozenset((k, v) for k, v in s.fl.items() if k not in ('cur', 'ceof'))))
        if len({x for r, oc, g in outs for x in const_bytes(r)}) > 3:
            # which of many bytes is returned is not tracked
            outs = [(coarse_bytes(r), oc, g) for r, oc, g in outs]
        return outs

    def outv(self, v, table, d=0):
        k = v[0]
        if k in ('i', 'str', 'fn'):
            return v
        if k == 's' and isinstance(v[1][0], tuple) and v[1][0][0] == 'in' and len(v[1]) == 1:
            return v
        if k == 'op' and v[1] in ('byte', 'ar'):
            return v
        if k == 'a' and d < 4:
            return ('a', v[1], v[2], tuple(self.outv(x, table, d + 1) for x in v[3]))
        if k == 't' and d < 3 and len(v[1]) <= 4:
            return ('t', tuple(self.outv(x, table, d + 1) for x in v[1]))
        if k == 'B' and d < 4:
            return ('B', self.outv(v[1], table, d + 1))
        if isq(v):
            return v
        if v not in table:
            table[v] = len(table)
        return ('s', (('out', table[v]),))

    # ---------------------------------------------------------------- endless loops
    def find_loops(self, f, I):
        """cycles of the exploded graph of f that stay at the end of the input and read from the source"""
        E = I.edges.get(f.name)
        if not E:
            return
        g = {}
        for n1, succ in E.items():
            if eof_state(n1[1]):
                g[n1] = [n2 for n2 in succ if eof_state(n2[1])]
        for comp in sccs(g):
            if len(comp) == 1 and comp[0] not in g.get(comp[0], ()):
                continue
            blocks = sorted({b for b, k in comp})
            reads = []
            for b in blocks:
                t = f.blocks[b]['t']
                if t[0] == 'call':
                    from .mir import callee
                    ci = callee(t)
                    if ci and ci['fn'] in self.readers:
                        reads.append(ci['fn'])
            if reads:
                self.loops.append((f.name, tuple(blocks), tuple(sorted(set(reads)))))

    def find_traps(self, f, I):
        """loops over positions beyond the end of the text that nothing but another byte can leave"""
        E = I.edges.get(f.name)
        g = {}
        for n1, succ in E.items():
            if dict(n1[1][2]).get('ceof'):
                g[n1] = [n2 for n2 in succ if dict(n2[1][2]).get('ceof')]
        for comp in sccs(g):
            cs = set(comp)
            if len(comp) == 1 and comp[0] not in g.get(comp[0], ()):
                continue
            # leaving without reading a byte
            if any(n2 not in cs for n1 in comp for n2 in g.get(n1, ())):
                continue
            blocks = sorted({b for b, k in comp})
            reads = set()
            for b in blocks:
                t = f.blocks[b]['t']
                if t[0] == 'call':
                    from .mir import callee
                    ci = callee(t)
                    if ci and ci['fn'] in (LEXER + '::char_at', BUF + '::byte_at'):
                        reads.add(ci['fn'])
            if reads:
                self.traps.append((f.name, tuple(blocks), tuple(sorted(reads))))

    # ---------------------------------------------------------------- hooks
    def on_panic(self, I, st, site, what):
        if self.g is not None and hasattr(self.g, 'on_panic'):
            self.g.on_panic(I, st, site, what)

    def on_write(self, I, st, cell, path, val):
        if cell == LX and path:
            if path[0] == self.iB and len(path) > 1:
                nm = path[1]
                if nm in (self.bfields.get(x) for x in ('pcur', 'pend', 'nextline', 'lastline', 'line_count', 'eofp')):
                    if not (nm == self.bfields.get('eofp') and val == TRUE):
                        if 'eof' in st.fl:
                            st.fl.pop('eof', None)
                            st._k = None
                    if st.fl.get('av'):
                        st.fl.pop('av', None)
                        st._k = None
        if self.g is not None and hasattr(self.g, 'on_write'):
            return self.g.on_write(I, st, cell, path, val)
        return None

    def nextc(self, I, st, site):
        out = []
        if not st.fl.get('av'):
            s1 = st.copy()
            s1.fl['eof'] = 1
            s1.fl['seen'] = 1
            s1.fl.pop('nul', None)
            s1.fl.pop('cur', None)
            out.append((EOF, s1))
        if not st.fl.get('eof') or st.fl.get('av'):
            s2 = st.copy()
            s2.fl.pop('eof', None)
            s2.fl.pop('nul', None)
            a = s2.fl.pop('av', 0)
            if a > 1:
                s2.fl['av'] = a - 1
            v = I.fresh(s2, site, 'ch')
            s2.fl['cur'] = v[1][0]
            out.append((mb(v), s2))
        for v, s in out:
            s._k = None
        return out

    def on_call(self, I, name, ci, args, st, fr, site):
        if self.g is not None:
            r = self.g.call(I, name, ci, args, st, fr, site)
            if r is not None:
                return r
        if name.startswith('std::vec::Vec::') and name.endswith('::push') and args[0][0] == '&' and args[0][1] == LX:
            return [(UNIT, st)]
        if name == BUF + '::nextc' or name == LEXER + '::nextc':
            return self.nextc(I, st, site)
        if name.endswith('::pushback') and BUF in name:
            v = args[1]
            if v[0] == '&':
                v = I.read(st, v[1], v[2])
            s2 = st.copy()
            known = (v[0] == 'a' and v[1] == MB and v[2] == 0) or ('Pushback<u8>' in name) or (v[0] == 'a' and v[1] == models.OPT and v[2] == 1)
            if known and not (s2.fl.get('eof')):
                s2.fl['av'] = min(3, s2.fl.get('av', 0) + 1)
                s2.fl.pop('nul', None)
            elif 'Pushback<u8>' in name and s2.fl.get('eof'):
                # stepping back from the end: a byte is available again
                s2.fl.pop('eof')
                s2.fl['av'] = 1
            s2._k = None
            return [(UNIT, s2)]
        if name.startswith(BUF + '::'):
            return self.buffer_call(I, name[len(BUF) + 2:], args, st, site)
        if name == LEXER + '::char_at':
            s1, s2 = st.copy(), st.copy()
            s1.fl['ceof'] = 1
            s2.fl.pop('ceof', None)
            s1._k = s2._k = None
            if args[1] == ('op', 'fld', (self.iB, self.bfields.get('pcur'))) and st.fl.get('av'):
                return [(mb(I.fresh(s2, site)), s2)]
            return [(EOF, s1), (mb(I.fresh(s2, site)), s2)]
        if name.endswith('::is_identchar') and name.startswith('lexer::'):
            if st.fl.get('eof'):
                return [(FALSE, st)]
            s2 = st.copy()
            return [(I.fresh(s2, site, 'c'), s2)]
        if name.startswith('std::cmp::PartialOrd::') and name[22:] in ORD:
            v, w = (I.read(st, a[1], a[2]) if a[0] == '&' else a for a in args)
            if v[0] == 'a' and v[1] == MB and v[2] == 0:
                from .interp import binop
                return [(binop(name[22:].capitalize(), v[3][0], w), st)]
            f = self.P.fns.get('<%s as std::cmp::PartialOrd<u8>>::partial_cmp' % MB)
            if v == EOF and f is not None:
                out = []
                for rv, s2 in I.run(f, args, st, fr + 1):
                    o = rv[3][0] if rv[0] == 'a' and rv[1] == models.OPT and rv[2] == 1 else None
                    if o is None and rv == NONE:
                        out.append((FALSE, s2))
                    elif o is not None and o[0] == 'a':
                        out.append((('i', int(o[2] in ORD[name[22:]])), s2))
                    else:
                        out.append((I.fresh(s2, site), s2))
                return out
        if name == EMIT:
            s2 = st.copy()
            d = args[1]
            lv = None
            if d[0] == 'a' and d[3] and d[3][0][0] == 'a' and d[3][0][1].endswith('ErrorLevel'):
                lv = self.P.adts[LEVEL]['variants'][d[3][0][2]][0]
            if lv == 'Error':
                s2.fl['err'] = 1
                s2._k = None
            return [(UNIT, s2)]
        f = self.P.fns.get(name)
        if f is not None and f.kind == 'fn':
            if name.startswith(self.opaque_mods) or (name.startswith('<') and name[1:].startswith(self.opaque_mods)):
                if name.startswith('error::') and 'ErrorLevel' in name:
                    return None
                s2 = st.copy()
                return [(I.fresh(s2, site), s2)]
            if name.startswith('lexer::') and '{closure' not in name and args and args[0] == ('&', LX, ()) and (len(f.blocks) > 8 or name in self.readers):
                return self.call_summary(I, name, args, st, fr, site)
        return None

    def buffer_call(self, I, m, args, st, site):
        eof = st.fl.get('eof')
        if m in ('peek', 'peek_n'):
            out = []
            if not eof:
                s1 = st.copy()
                n = 0
                if m == 'peek_n':
                    n = args[2][1] if args[2][0] == 'i' else 0
                s1.fl['av'] = max(s1.fl.get('av', 0), min(3, n + 1))
                s1._k = None
                out.append((TRUE, s1))
            out.append((FALSE, st.copy()))
            return out
        if m in ('peekc', 'peekc_n', 'byte_at'):
            s1, s2 = st.copy(), st.copy()
            if m == 'byte_at':
                s1.fl['ceof'] = 1
                s2.fl.pop('ceof', None)
                s1._k = s2._k = None
            out = [(EOF, s1)]
            if m == 'byte_at' or not eof:
                if m == 'peekc':
                    s2.fl['av'] = max(s2.fl.get('av', 0), 1)
                    s2._k = None
                out.append((mb(I.fresh(s2, site)), s2))
            return out
        if m == 'is_eol':
            if eof:
                return [(TRUE, st)]
            s1, s2 = st.copy(), st.copy()
            s2.fl['av'] = max(s2.fl.get('av', 0), 1)
            s2._k = None
            return [(TRUE, s1), (FALSE, s2)]
        if m == 'is_whole_match':
            a = args[1]
            txt = a[1] if a[0] == 'str' else None
            if a[0] == '&':
                w = I.read(st, a[1], a[2])
                txt = w[1] if w[0] == 'str' else None
            s1, s2 = st.copy(), st.copy()
            if txt is not None and txt in ('__END__', b'__END__') and args[2] == ('i', 0):
                s1.fl['mark'] = 1
                s1._k = None
            return [(TRUE, s1), (FALSE, s2)]
        if m in ('goto_eol', 'token_flush', 'set_ptok'):
            s2 = st.copy()
            if m == 'goto_eol':
                s2.fl.pop('av', None)
            s2._k = None
            return [(UNIT, s2)]
        if m == 'eof_no_decrement':
            s2 = st.copy()
            s2.fl.pop('eof', None)
            s2.fl.pop('av', None)
            s2._k = None
            return [(UNIT, s2)]
        s2 = st.copy()
        f = self.P.fns.get(BUF + '::' + m)
        if f is not None and f.locals[1].startswith('&mut'):
            s2.fl.pop('eof', None)
            s2.fl.pop('av', None)
        s2._k = None
        return [(I.fresh(s2, site), s2)]

    def on_block(self, I, f, b, st):
        if self.g is not None and hasattr(self.g, 'on_block'):
            return self.g.on_block(I, f, b, st)

    def on_drop(self, I, f, b, t, v, st, c, p):
        pass

    def on_assign(self, I, f, b, si, s, v, st, fr):
        if self.g is not None and hasattr(self.g, 'on_assign'):
            x = self.g.on_assign(I, f, b, si, s, v, st, fr)
            if x is not None:
                return x
        # positions and counters are not tracked, flag words (bit operations) are
        r = s[2]
        if r[0] == 'bin' and r[1].split('With')[0].replace('Unchecked', '') in ('Add', 'Sub', 'Mul', 'Shl', 'Shr', 'Div', 'Rem'):
            x = ('op', 'ar')
            return ('t', (x, FALSE)) if 'WithOverflow' in r[1] else x
        return None


def const_bytes(v):
    if v[0] == 'a':
        if v[1] == MB and v[2] == 0 and v[3][0][0] == 'i':
            return {v[3][0][1]}
        return {y for x in v[3] for y in const_bytes(x)}
    return set()


def coarse_bytes(v):
    if v[0] == 'a':
        if v[1] == MB and v[2] == 0 and v[3][0][0] == 'i':
            return ('a', MB, 0, (('op', 'byte'),))
        return ('a', v[1], v[2], tuple(coarse_bytes(x) for x in v[3]))
    return v


ORD = {'lt': (0,), 'le': (0, 1), 'gt': (2,), 'ge': (1, 2)}


def mention(v, root):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return v[1][0] == root
        return any(mention(x, root) for x in v if isinstance(x, tuple))
    return False


def eof_state(key):
    fl = dict(key[2])
    return bool(fl.get('eof'))


def sccs(g):
    """strongly connected components (Tarjan, iterative)"""
    idx, low, on, st, out = {}, {}, set(), [], []
    n = 0
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g.get(r, ())))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out
