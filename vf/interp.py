"""Abstract interpreter over the MIR dump.

A forward dataflow analysis with a disjunctive domain: every program point holds a set of abstract
states; a state maps live places to abstract values and records which symbolic predicates were
taken on the way (trace partitioning). Local functions are analysed at the call with the caller's
abstract arguments; library functions are modelled (models.py). Nothing is executed and no solver
is consulted: unknown values are symbols, and branching on a symbol visits every branch.

Values (hashable tuples):
  ('i', n)                      integer / bool / char constant
  ('s', path)                   symbol; path is a tuple, projections extend it
  ('a', adt, vidx, fields)      struct or enum value
  ('t', fields)                 tuple / array
  ('clo', name, fields)         closure
  ('B', inner)                  Box
  ('&', cell, path)             reference to a place
  ('g', cell, path)             RefCell guard
  ('rc', cell)                  Rc handle
  ('fn', name)                  function item
  ('v', base, items)            Vec: unknown prefix `base` (symbol or None) followed by items
  ('P', base, ((elem, val)..))  symbol with some parts overwritten
  ('op', name, a, b)            symbolic operation
  ('str', text)                 string / byte-string constant
"""
from .mir import callee, succs

UNIT = ('t', ())
TRUE = ('i', 1)
FALSE = ('i', 0)
U64 = (1 << 64) - 1


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'asm', 'fl', '_k')

    def __init__(self, mem, asm, fl):
        self.mem = mem
        self.asm = asm
        self.fl = fl
        self._k = None

    def copy(self):
        return State(dict(self.mem), dict(self.asm), dict(self.fl))

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.mem.items()), frozenset(self.asm.items()), frozenset(self.fl.items()))
        return self._k


def vdepth(v, n=0):
    if n > 12:
        return n
    if not isinstance(v, tuple):
        return n
    m = n
    for x in v:
        if isinstance(x, tuple):
            m = max(m, vdepth(x, n + 1))
            if m > 12:
                return m
    return m


def roots(v, out):
    """collect root symbols mentioned in v"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            out.add(v[1][0])
            return
        for x in v:
            if isinstance(x, tuple):
                roots(x, out)


def mentions(v, root):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 's':
            return v[1][0] == root
        for x in v:
            if isinstance(x, tuple) and mentions(x, root):
                return True
    return False


def sym(*path):
    return ('s', tuple(path))


def proj(v, e):
    k = v[0]
    if k == 'a':
        if isinstance(e, int):
            if e < len(v[3]):
                return v[3][e]
            return sym('bad')
        if isinstance(e, tuple) and e[0] == 'd':
            return v
    elif k == 't' or k == 'clo':
        f = v[1] if k == 't' else v[2]
        if isinstance(e, int) and e < len(f):
            return f[e]
        if isinstance(e, tuple) and e[0] == 'ix':
            if isinstance(e[1], int) and 0 <= e[1] < len(f):
                return f[e[1]]
            return sym('elem')
    elif k == 'B':
        if e == '*':
            return v[1]
        return v
    elif k == 'P':
        for ee, vv in v[2]:
            if ee == e:
                return vv
        if isinstance(e, tuple) and e[0] == 'd':
            # a downcast view keeps field overrides
            return v
        return proj(v[1], e)
    elif k == 's':
        if len(v[1]) > 24:
            return v
        return ('s', v[1] + (e,))
    elif k == 'v':
        if isinstance(e, tuple) and e[0] == 'ix':
            i = e[1]
            if isinstance(i, tuple) and len(i) == 2 and i[0] == 'end' and isinstance(i[1], int) and v[1] is None and v[2] and v[2][-i[1]][0] != 'spread':
                i = len(v[2]) - i[1]
            if isinstance(i, int) and v[1] is None and 0 <= i < len(v[2]):
                return v[2][i]
            return sym('velem', v)
    if k == 'op' and v[1] in ('rec', 'recn') and e == '*':
        return v
    return sym('proj', k, e if isinstance(e, (int, str)) else str(e))


def upd(v, path, new):
    if not path:
        return new
    e = path[0]
    k = v[0]
    if k == 'a' and isinstance(e, int) and e < len(v[3]):
        f = list(v[3])
        f[e] = upd(f[e], path[1:], new)
        return ('a', v[1], v[2], tuple(f))
    if k == 'a' and isinstance(e, tuple) and e[0] == 'd':
        return upd(v, path[1:], new)
    if (k == 't') and isinstance(e, int) and e < len(v[1]):
        f = list(v[1])
        f[e] = upd(f[e], path[1:], new)
        return ('t', tuple(f))
    if k == 'clo' and isinstance(e, int) and e < len(v[2]):
        f = list(v[2])
        f[e] = upd(f[e], path[1:], new)
        return ('clo', v[1], tuple(f))
    if k == 'B' and e == '*':
        return ('B', upd(v[1], path[1:], new))
    if k == 'v' and isinstance(e, tuple):
        i = e[1] if len(e) > 1 else None
        if isinstance(i, int) and v[1] is None and 0 <= i < len(v[2]):
            it = list(v[2])
            it[i] = upd(it[i], path[1:], new)
            return ('v', None, tuple(it))
        return ('v', sym('wv'), ())
    base = v[1] if k == 'P' else v
    ov = dict(v[2]) if k == 'P' else {}
    if isinstance(e, tuple) and e[0] == 'd':
        return upd(v, path[1:], new)
    cur = ov.get(e)
    if cur is None:
        cur = proj(base, e)
    ov[e] = upd(cur, path[1:], new)
    if not isinstance(e, tuple) and len(path) == 1 and ov[e] == proj(base, e):
        del ov[e]
        if not ov:
            return base
    return ('P', base, tuple(sorted(ov.items(), key=lambda x: str(x[0]))))


CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b,
       'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}


def signed(ty):
    return ty in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def binop(op, a, b):
    if a[0] == 'i' and b[0] == 'i':
        x, y = a[1], b[1]
        if op in CMP:
            return ('i', int(CMP[op](x, y)))
        if op in ('Add', 'AddUnchecked', 'AddWithOverflow'):
            r = x + y
        elif op in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
            r = x - y
        elif op in ('Mul', 'MulWithOverflow', 'MulUnchecked'):
            r = x * y
        elif op == 'BitAnd':
            r = x & y
        elif op == 'BitOr':
            r = x | y
        elif op == 'BitXor':
            r = x ^ y
        elif op == 'Shl':
            r = x << min(y, 64)
        elif op == 'Shr':
            r = x >> min(y, 64)
        elif op in ('Div', 'Rem') and x >= 0 and y > 0:
            r = x // y if op == 'Div' else x % y
        else:
            return ('op', op, a, b)
        if op.endswith('WithOverflow'):
            return ('t', (('i', r), FALSE))
        return ('i', r)
    # bit vectors over symbols: ('bv', base, ((bit, val)...)); base may be ('i',0)
    if op in ('BitAnd', 'BitOr') and (a[0] == 'i' or b[0] == 'i'):
        c, x = (a, b) if a[0] == 'i' else (b, a)
        if x[0] in ('s', 'bv'):
            return bvop(op, x, c[1])
    if op in ('Shl',) and b == ('i', 1):
        if a[0] == 'sh':
            return ('sh', a[1], a[2] + (FALSE,))
        if a[0] in ('s', 'bv', 'op', 'lin', 'shr'):
            return ('sh', a, (FALSE,))
    if op == 'Mul' and b == ('i', 2):
        return binop('Shl', a, ('i', 1))
    if op in ('BitOr', 'Add') and a[0] == 'sh' and a[2] and a[2][-1] == FALSE and b in (FALSE, TRUE):
        return ('sh', a[1], a[2][:-1] + (b,))
    if op in ('BitOr', 'Add') and a[0] == 'sh' and a[2] and a[2][-1] == FALSE and b[0] in ('s', 'op'):
        return ('sh', a[1], a[2][:-1] + (b,))
    if (op == 'Shr' and b == ('i', 1)) or (op == 'Div' and b == ('i', 2)):
        if a[0] == 'sh' and a[2]:
            r = a[2][:-1]
            return ('sh', a[1], r) if r else a[1]
        if a[0] == 'shr':
            return ('shr', a[1], a[2] + 1)
        return ('shr', a, 1)
    if op in ('Add', 'Sub', 'AddWithOverflow', 'SubWithOverflow') and b[0] == 'i':
        d = b[1] if op.startswith('Add') else -b[1]
        if a[0] == 's':
            r = ('lin', a, d)
        elif a[0] == 'lin':
            r = ('lin', a[1], a[2] + d)
        else:
            r = ('op', op, a, b)
        if r[0] == 'lin' and r[2] == 0:
            r = r[1]
        if op.endswith('Overflow'):
            return ('t', (r, FALSE))
        return r
    if op == 'Add' and a[0] == 'i':
        return binop('Add', b, a)
    if op.endswith('WithOverflow'):
        return ('t', (('op', op, a, b), FALSE))
    if op in ('Eq', 'Ne'):
        if a == b and a[0] in ('s', 'lin', 'str', 'a', '&'):
            return ('i', int(op == 'Eq'))
        if op == 'Ne':
            r = binop('Eq', a, b)
            return unop('Not', r, 'bool')
        if a[0] == 'i':
            a, b = b, a
        if a[0] == 'bv' and b[0] == 'i':
            # single unknown bit tests
            base, bits = a[1], a[2]
            if base == ('i', 0):
                unk = [(i, x) for i, x in bits if x[0] != 'i']
                known = sum((1 << i) for i, x in bits if x == TRUE)
                if not unk:
                    return ('i', int(known == b[1]))
                if len(unk) == 1:
                    i, x = unk[0]
                    if known == b[1]:
                        return unop('Not', x, 'bool')
                    if known + (1 << i) == b[1]:
                        return x
                    return FALSE
    if op == 'Gt' and b == ('i', 0) and a[0] == 'bv' and a[1] == ('i', 0):
        return unop('Not', binop('Eq', a, b), 'bool')
    return ('op', op, a, b)


def bit(v, i):
    if v[0] == 'i':
        return ('i', (v[1] >> i) & 1)
    if v[0] == 'bv':
        for j, x in v[2]:
            if j == i:
                return x
        return bit(v[1], i)
    return ('bit', v, i)


def bvop(op, x, c):
    c &= U64
    base, ov = (x[1], dict(x[2])) if x[0] == 'bv' else (x, {})
    if op == 'BitAnd':
        ones = bin(c).count('1')
        if ones <= 32:
            r = {}
            for i in range(64):
                if c >> i & 1:
                    r[i] = bit(x, i)
            base, ov = ('i', 0), r
        else:
            for i in range(64):
                if not (c >> i & 1):
                    ov[i] = FALSE
    else:
        for i in range(64):
            if c >> i & 1:
                ov[i] = TRUE
    for i in list(ov):
        if ov[i] == bit(base, i):
            del ov[i]
    if not ov:
        return base
    return ('bv', base, tuple(sorted(ov.items())))


def unop(op, a, ty):
    if op == 'Not':
        if a[0] == 'i':
            if ty == 'bool':
                return ('i', 1 - a[1])
            return ('i', ~a[1] & U64)
        if a[0] == 'op' and a[1] == 'Not':
            return a[2]
        return ('op', 'Not', a)
    if op == 'Neg' and a[0] == 'i':
        return ('i', -a[1])
    return ('op', op, a)


class Work:
    """worklist that knows where each item came from"""
    def __init__(self, b, st):
        self.l = [(b, st, None)]
        self.parent = None
        self.at = None

    def append(self, x):
        self.l.append((x[0], x[1], self.at))

    def pop(self):
        b, st, self.parent = self.l.pop()
        return b, st

    def __bool__(self):
        return bool(self.l)


class Interp:
    MAXSTATES = 4000
    edges = None            # exploded-graph edges per function, when wanted

    def __init__(self, prog, models, hooks=None):
        self.p = prog
        self.models = models
        self.hooks = hooks
        self.live_cache = {}
        self.consts = {}        # promoted constants
        self.maxdepth = 14
        self.stats = {'fns': set(), 'blocks': set(), 'steps': 0, 'limits': {}}
        self.stack = []

    # -------------------------------------------------------------- liveness
    def liveness(self, f):
        r = self.live_cache.get(f.name)
        if r is not None:
            return r
        n = len(f.blocks)
        addr = 0
        use = [0] * n
        dfn = [0] * n

        def pl_use(p):
            m = 1 << p[0]
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i':
                    m |= 1 << e[1]
            return m

        def op_use(o):
            return pl_use(o[1]) if o[0] in ('c', 'm') else 0

        def rv_use(r):
            nonlocal addr
            k = r[0]
            if k in ('use',):
                return op_use(r[1])
            if k == 'ref':
                p = r[2]
                if '*' not in p[1:]:
                    addr |= 1 << p[0]
                return pl_use(p)
            if k == 'bin':
                return op_use(r[2]) | op_use(r[3])
            if k == 'un':
                return op_use(r[2])
            if k == 'cast':
                if r[1].startswith('BoxDeref'):
                    if r[2][0] in ('c', 'm'):
                        addr |= 1 << r[2][1][0]
                return op_use(r[2])
            if k == 'discr':
                return pl_use(r[1])
            if k == 'agg':
                m = 0
                for o in r[2]:
                    m |= op_use(o)
                return m
            if k == 'repeat':
                return op_use(r[1])
            return 0
        for i, b in enumerate(f.blocks):
            u = d = 0
            for s in b['s']:
                if s[0] == '=':
                    u |= rv_use(s[2]) & ~d
                    if len(s[1]) == 1:
                        d |= 1 << s[1][0]
                    else:
                        u |= pl_use(s[1]) & ~d
                elif s[0] == 'sd':
                    u |= pl_use(s[1]) & ~d
            t = b['t']
            if t[0] == 'switch':
                u |= op_use(t[1]) & ~d
            elif t[0] == 'call':
                u |= op_use(t[1]) & ~d
                for o in t[2]:
                    u |= op_use(o) & ~d
                if len(t[3]) == 1:
                    d |= 1 << t[3][0]
                else:
                    u |= pl_use(t[3]) & ~d
            elif t[0] == 'drop':
                u |= pl_use(t[1]) & ~d
            elif t[0] == 'assert':
                u |= op_use(t[1]) & ~d
            elif t[0] == 'return':
                u |= 1 & ~d
            use[i], dfn[i] = u, d
        live = [0] * n
        preds = [[] for _ in range(n)]
        for i in range(n):
            for s in f.succ(i):
                preds[s].append(i)
        wl = list(range(n - 1, -1, -1))
        inwl = [True] * n
        while wl:
            i = wl.pop()
            inwl[i] = False
            out = 0
            for s in f.succ(i):
                out |= live[s]
            ni = use[i] | (out & ~dfn[i])
            if ni != live[i]:
                live[i] = ni
                for p in preds[i]:
                    if not inwl[p]:
                        inwl[p] = True
                        wl.append(p)
        r = (live, addr)
        self.live_cache[f.name] = r
        return r

    # -------------------------------------------------------------- places
    def resolve(self, st, fr, p):
        """MIR place -> (cell, path)"""
        cell = ('L', fr, p[0])
        path = ()
        for e in p[1:]:
            if e == '*':
                v = self.read(st, cell, path)
                if v[0] == '&':
                    cell, path = v[1], v[2]
                elif v[0] == 'g':
                    cell, path = v[1], v[2]
                elif v[0] == 'B':
                    path = path + ('*',)
                elif v[0] == 's':
                    # dereference of an unknown reference: a heap object named after it
                    cell, path = ('H', v[1] + ('*',)), ()
                else:
                    cell, path = ('H', ('deref', v)), ()
            elif e[0] == 'f':
                path = path + (e[1],)
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                iv = self.read(st, ('L', fr, e[1]), ())
                path = path + (('ix', iv[1] if iv[0] == 'i' else iv),)
            elif e[0] == 'ci':
                path = path + (('ix', e[1] if not e[2] else ('end', e[1])),)
            else:
                path = path + (('ix', 'x'),)
        return cell, path

    def read(self, st, cell, path):
        v = st.mem.get(cell)
        if v is None:
            if cell in self.consts:
                v = self.consts[cell]
            elif cell[0] == 'H' and isinstance(cell[1], tuple) and cell[1][0] == 'cbyte':
                v = ('i', cell[1][1])
            elif cell[0] == 'H' and isinstance(cell[1], tuple) and len(cell[1]) == 2 and cell[1][0] == 'deref' and cell[1][1][0] == 'str':
                v = cell[1][1]
            else:
                v = sym(cell) if cell[0] != 'H' else ('s', cell[1] if isinstance(cell[1], tuple) else (cell[1],))
        for e in path:
            v = proj(v, e)
        return v

    def write(self, st, cell, path, val):
        if self.hooks is not None:
            r = self.hooks.on_write(self, st, cell, path, val)
            if r is not None:
                val = r
        if not path:
            st.mem[cell] = val
        else:
            v = st.mem.get(cell)
            if v is None:
                v = sym(cell) if cell[0] != 'H' else ('s', cell[1] if isinstance(cell[1], tuple) else (cell[1],))
            st.mem[cell] = upd(v, path, val)
        st._k = None

    # -------------------------------------------------------------- operands
    def const(self, k):
        if 'callee' in k:
            return ('fn', k['callee']['fn'])
        if 'int' in k:
            return ('i', k['int'])
        if 'str' in k:
            return ('str', k['str'])
        if 'bytes' in k and 'indirect' not in k:
            b = k['bytes']
            if k['ty'] == '&u8' and len(b) == 1:
                return ('&', ('H', ('cbyte', b[0])), ())
            if len(b) <= 64:
                return ('str', bytes(b))
            return sym('bytes', k.get('def', ''), len(b))
        if 'variant' in k:
            return ('a', k['ty'], k['vidx'], ())
        if 'closure' in k:
            return ('clo', k['closure'], ())
        if k['ty'] == '()':
            return UNIT
        if 'static' in k:
            return ('&', ('H', ('static', k['static'])), ())
        if 'promoted' in k:
            return ('prom', k['of'], k['promoted'])
        return sym('const', k.get('def', ''), k['ty'])

    def operand(self, st, fr, o):
        if o[0] == 'k':
            v = self.const(o[1])
            if v[0] == 'prom':
                v = self.promoted(st, v)
            return v
        if o[0] in ('c', 'm'):
            c, p = self.resolve(st, fr, o[1])
            return self.read(st, c, p)
        return FALSE

    def promoted(self, st, v):
        name = '%s::promoted[%d]' % (v[1], v[2])
        f = self.p.fns.get(name)
        cell = ('H', ('prom', name))
        if cell in self.consts:
            return ('&', cell, ())
        # promoted bodies compute a constant and return a reference to it
        if f is None:
            return sym('prom', name)
        local = {}
        val = None
        st2 = State({}, {}, {})
        try:
            for b in f.blocks:
                if b['c']:
                    continue
                if b['t'][0] == 'call' and b['t'][1][1].get('callee', {}).get('fn') == 'std::ops::RangeInclusive::<Idx>::new' and len(b['t'][3]) == 1:
                    st2.mem[('L', 'p', b['t'][3][0])] = ('a', 'std::ops::RangeInclusive', 0, tuple(self.operand(st2, 'p', o) for o in b['t'][2]))
                for s in b['s']:
                    if s[0] == '=':
                        if s[1] == [0] and s[2][0] == 'ref':
                            c, p = self.resolve(st2, 'p', s[2][2])
                            val = self.read(st2, c, p)
                        else:
                            rv = self.rvalue(st2, 'p', s[2])
                            c, p = self.resolve(st2, 'p', s[1])
                            if p:
                                st2.mem[c] = upd(st2.mem.get(c, sym('x')), p, rv)
                            else:
                                st2.mem[c] = rv
        except Exception:
            val = None
        if val is None:
            val = st2.mem.get(('L', 'p', 0))
            if val is not None and val[0] == '&':
                val = None
        if val is None:
            return sym('prom', name)

        def ren(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == 'L' and v[1] == 'p':
                    return ('H', ('prom', name, v[2]))
                return tuple(ren(x) for x in v)
            return v
        r = ren(val)
        if r != val:
            for c, x in st2.mem.items():
                self.consts[ren(c)] = ren(x)
        self.consts[cell] = r
        return ('&', cell, ())

    def rvalue(self, st, fr, r, site=None):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            c, p = self.resolve(st, fr, r[2])
            return ('&', c, p)
        if k == 'bin':
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            v = binop(r[1], a, b)
            if v[0] == 'op' and vdepth(v) > 8:
                return sym('x', site)
            return v
        if k == 'un':
            ty = None
            a = self.operand(st, fr, r[2])
            if r[2][0] == 'k':
                ty = r[2][1]['ty']
            else:
                ty = self.place_ty(r[2][1])
            if r[1] == 'PtrMetadata':
                if a[0] == '&':
                    x = self.read(st, a[1], a[2])
                    if x[0] == 'v' and x[1] is None and not any(y[0] == 'spread' for y in x[2]):
                        return ('i', len(x[2]))
                return ('op', 'len', a) if vdepth(a) < 6 else sym('x', site)
            v = unop(r[1], a, ty)
            return v
        if k == 'cast':
            if r[1].startswith('BoxDeref'):
                p = r[2][1]
                c, path = self.resolve(st, fr, p[:-1])
                return ('&', c, path + ('*',))
            v = self.operand(st, fr, r[2])
            if 'IntToInt' in r[1] and v[0] == 'i':
                t = r[3]
                if t == 'u8':
                    return ('i', v[1] & 0xff)
                if t in ('usize', 'u64') and v[1] < 0:
                    return ('i', v[1] & U64)
            return v
        if k == 'discr':
            c, p = self.resolve(st, fr, r[1])
            v = self.read(st, c, p)
            return self.discr(v, r[3])
        if k == 'agg':
            kk = r[1]
            fs = tuple(self.operand(st, fr, o) for o in r[2])
            if kk[0] == 'adt':
                return ('a', kk[1], kk[2], fs)
            if kk[0] == 'closure':
                return ('clo', kk[1], fs)
            return ('t', fs)
        if k == 'repeat':
            n = str(r[2]).split('_')[0]
            if n.isdigit() and int(n) <= 16:
                return ('t', (self.operand(st, fr, r[1]),) * int(n))
            return sym('repeat', site)
        return sym('rv', site)

    def place_ty(self, p):
        f = self.stack[-1]
        if len(p) == 1:
            return f.locals[p[0]]
        if f.locals[p[0]] in ('&bool', '&mut bool'):
            return 'bool'
        return None

    def discr(self, v, vmap):
        if v[0] == 'a':
            for dv, (vi, _) in vmap.items():
                if vi == v[2]:
                    return ('i', int(dv))
            return ('i', v[2])
        if v[0] == 'P':
            return ('disc', v[1])
        return ('disc', v)

    # -------------------------------------------------------------- functions
    def run(self, f, args, st, depth=0):
        """analyse f on args from st; returns list of (ret, state)"""
        fr = depth
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('L', fr, i + 1)] = a
        self.stack.append(f)
        self.stats['fns'].add(f.name)
        try:
            return self._run(f, st, fr)
        finally:
            self.stack.pop()

    def _prune(self, st, fr, live, addr):
        dead = [c for c in st.mem if c[0] == 'L' and c[1] == fr and isinstance(c[2], int) and not (live >> c[2] & 1) and not (addr >> c[2] & 1)]
        for c in dead:
            del st.mem[c]
        if st.asm:
            self._prune_asm(st)
        st._k = None

    keep_asm = None

    def _prune_asm(self, st):
        rs = set()
        for v in st.mem.values():
            roots(v, rs)
        for k in list(st.asm):
            ks = set()
            roots(k, ks)
            if not (ks & rs) and not (self.keep_asm and self.keep_asm(k)):
                del st.asm[k]

    def _run(self, f, st, fr, start=0):
        live, addr = self.liveness(f)
        seen = {}
        work = Work(start, st)
        outs = []
        outkeys = set()
        nst = 0
        E = None
        if self.edges is not None:
            E = self.edges.setdefault(f.name, {})
        while work:
            b, st = work.pop()
            self._prune(st, fr, live[b], addr)
            ks = seen.setdefault(b, set())
            key = st.key()
            if E is not None and work.parent is not None:
                E.setdefault(work.parent, set()).add((b, key))
            if key in ks:
                continue
            work.at = (b, key)
            ks.add(key)
            nst += 1
            if nst > self.MAXSTATES:
                self.stats['limits'][f.name] = nst
                raise Limit(f.name)
            self.stats['steps'] += 1
            self.stats['blocks'].add((f.name, b))
            bl = f.blocks[b]
            st = st.copy()
            if self.hooks is not None and self.hooks.on_block(self, f, b, st) is False:
                continue
            for si, s in enumerate(bl['s']):
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2], (f.name, b, si))
                    if self.hooks is not None:
                        v2 = self.hooks.on_assign(self, f, b, si, s, v, st, fr)
                        if v2 is not None:
                            v = v2
                    c, p = self.resolve(st, fr, s[1])
                    self.write(st, c, p, v)
                elif s[0] == 'dead':
                    st.mem.pop(('L', fr, s[1]), None)
                elif s[0] == 'sd':
                    c, p = self.resolve(st, fr, s[1])
                    v = self.read(st, c, p)
                    self.write(st, c, p, ('a', '?', s[2], ()) if v[0] != 'a' else ('a', v[1], s[2], v[3]))
            t = bl['t']
            k = t[0]
            if k == 'goto':
                work.append((t[1], st))
            elif k == 'switch':
                v = self.operand(st, fr, t[1])
                for nb, s2 in self.branch(st, v, t):
                    work.append((nb, s2))
            elif k == 'drop':
                c, p = self.resolve(st, fr, t[1])
                v = self.read(st, c, p)
                if self.hooks is not None:
                    self.hooks.on_drop(self, f, b, t, v, st, c, p)
                if not p and c[0] == 'L' and c[1] == fr:
                    st.mem.pop(c, None)
                work.append((t[2], st))
            elif k == 'assert':
                v = self.operand(st, fr, t[1])
                if self.hooks is not None:
                    self.hooks.on_assert(self, f, b, t, v, st)
                if v[0] == 'i' and bool(v[1]) != t[2]:
                    continue
                work.append((t[4], st))
            elif k == 'return':
                rv = self.read(st, ('L', fr, 0), ())
                for c in [c for c in st.mem if c[0] == 'L' and c[1] == fr]:
                    del st.mem[c]
                # keep only assumptions still meaningful
                st.mem[('ret',)] = rv
                self._prune_asm(st)
                del st.mem[('ret',)]
                st._k = None
                kk = (rv, st.key())
                if kk not in outkeys:
                    outkeys.add(kk)
                    outs.append((rv, st))
            elif k == 'call':
                args = [self.operand(st, fr, o) for o in t[2]]
                for rv, s2 in self.call(f, fr, b, t, args, st):
                    if t[4] < 0:
                        continue
                    if s2 is st:
                        s2 = st.copy()
                    c, p = self.resolve(s2, fr, t[3])
                    self.write(s2, c, p, rv)
                    work.append((t[4], s2))
            elif k in ('unreachable', 'resume', 'other', 'tailcall'):
                pass
        return outs

    def asm_eval(self, st, v):
        """value of v under the assumptions, if decided"""
        if v[0] == 'i':
            return v[1]
        if v in st.asm:
            return st.asm[v]
        if v[0] == 'op' and v[1] == 'Not':
            x = self.asm_eval(st, v[2])
            if x is not None:
                return 1 - x if x in (0, 1) else None
        if v[0] == 'op' and v[1] in ('Eq', 'Ne') and len(v) > 3 and isinstance(v[2], tuple) and isinstance(v[3], tuple):
            a, b = (v[2], v[3]) if v[3][0] == 'i' else (v[3], v[2])
            if b[0] == 'i' and a[0] != 'i':
                x = self.asm_eval(st, a)
                if x is not None:
                    return int((x == b[1]) == (v[1] == 'Eq'))
                if b[1] in st.asm.get(('not', a), ()):
                    return int(v[1] == 'Ne')
        return None

    def branch(self, st, v, t):
        x = self.asm_eval(st, v)
        if x is not None:
            for val, nb in t[2]:
                if val == x or (x < 0 and val == x & ((1 << 128) - 1)) or (x < 0 and val == x & 0xffffffff) or (x < 0 and val == x & U64):
                    return [(nb, st)]
            return [(t[3], st)]
        neg = False
        while v[0] == 'op' and v[1] == 'Not' and t[4] == 'bool':
            v = v[2]
            neg = not neg
        excl = st.asm.get(('not', v), ())
        out = []
        taken = []
        for val, nb in t[2]:
            vv = val
            if t[4] == 'bool' and neg:
                vv = 1 - val
            taken.append(vv)
            if vv in excl:
                continue
            s2 = st.copy()
            self.assume(s2, v, vv)
            out.append((nb, s2))
        s2 = st.copy()
        if t[4] == 'bool' and len(taken) == 1:
            if (1 - taken[0]) not in excl:
                self.assume(s2, v, 1 - taken[0])
                out.append((t[3], s2))
        else:
            if self.remember is None or self.remember(v):
                s2.asm[('not', v)] = tuple(sorted(set(excl) | set(taken)))
                s2._k = None
            out.append((t[3], s2))
        return out

    # which predicates are remembered once branched upon (None: all of them)
    remember = None

    def assume(self, st, v, val):
        if self.remember is not None and not self.remember(v):
            return
        st.asm[v] = val
        st.asm.pop(('not', v), None)
        st._k = None
        # equality with a constant pins the value
        if v[0] == 'op' and v[1] == 'Eq' and v[3][0] == 'i':
            if val == 1:
                st.asm[v[2]] = v[3][1]
            else:
                k = ('not', v[2])
                st.asm[k] = tuple(sorted(set(st.asm.get(k, ())) | {v[3][1]}))

    # -------------------------------------------------------------- calls
    def call(self, f, fr, b, t, args, st):
        ci = callee(t)
        site = (f.name, b)
        if ci is None:
            # call through a value
            fv = self.operand(st, fr, t[1])
            return self.call_value(fv, args, st, fr, site)
        return self.call_fn(ci['fn'], ci, args, st, fr, site)

    def fresh(self, st, site, tag='c'):
        root = (tag,) + tuple(site)
        for k in list(st.asm):
            if mentions(k, root):
                del st.asm[k]
        return ('s', (root,))

    def call_fn(self, name, ci, args, st, fr, site):
        if self.hooks is not None:
            r = self.hooks.on_call(self, name, ci, args, st, fr, site)
            if r is not None:
                return r
        m = self.models.get(name)
        if m is not None:
            r = m(self, ci, args, st, fr, site)
            if r is not None:
                return r
        f = self.p.fns.get(name)
        if f is not None and f.kind == 'fn':
            if '{closure' in name and len(args) == 2 and args[1][0] == 't' and ci.get('orig', '').startswith('std::ops::Fn') and f.argc == 1 + len(args[1][1]):
                # closure called through its trait: the arguments come as a tuple
                args = [args[0]] + list(args[1][1])
            if fr + 1 > self.maxdepth or any(x.name == name for x in self.stack):
                self.stats['limits'].setdefault('recursion:' + name, 0)
                return self.opaque(args, st, site)
            return self.run(f, args, st, fr + 1)
        return self.opaque(args, st, site)

    def opaque(self, args, st, site):
        st = st.copy()
        return [(self.fresh(st, site), st)]

    def call_value(self, fv, args, st, fr, site, tupled=False):
        """call a closure / fn item value with a list of argument values"""
        if fv[0] == '&':
            fv = self.read(st, fv[1], fv[2])
        if fv[0] == 'fn':
            return self.call_fn(fv[1], {'fn': fv[1], 'orig': fv[1], 'args': []}, args, st, fr, site)
        if fv[0] == 'clo':
            f = self.p.fns.get(fv[1])
            if f is None:
                return self.opaque(args, st, site)
            if fr + 1 > self.maxdepth:
                return self.opaque(args, st, site)
            st = st.copy()
            if f.locals[1].startswith('&'):
                cell = ('L', fr, 'clo' + str(site[1]))
                st.mem[cell] = fv
                env = ('&', cell, ())
            else:
                env = fv
            return self.run(f, [env] + list(args), st, fr + 1)
        return self.opaque(args, st, site)


class Hooks:
    def on_write(self, I, st, cell, path, val):
        pass

    def on_block(self, I, f, b, st):
        return None

    def on_assign(self, I, f, b, si, s, v, st, fr):
        return None

    def on_drop(self, I, f, b, t, v, st, c, p):
        pass

    def on_assert(self, I, f, b, t, v, st):
        pass

    def on_call(self, I, name, ci, args, st, fr, site):
        return None
