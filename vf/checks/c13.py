"""C13: exactly Ruby's reserved words are reserved, each with its own meaning."""
import itertools
from .. import interp, models, actions
from ..interp import Interp, Hooks, State, sym, UNIT

BEG, END, ENDARG, ENDFN, ARG, CMDARG, MID, FNAME, DOT, CLASS, LABEL, LABELED, FITEM = (1 << i for i in range(13))
STATES = dict(EXPR_BEG=BEG, EXPR_END=END, EXPR_ENDARG=ENDARG, EXPR_ENDFN=ENDFN, EXPR_ARG=ARG, EXPR_CMDARG=CMDARG,
              EXPR_MID=MID, EXPR_FNAME=FNAME, EXPR_DOT=DOT, EXPR_CLASS=CLASS, EXPR_LABEL=LABEL, EXPR_LABELED=LABELED,
              EXPR_FITEM=FITEM)
# Ruby's defs/keywords: word, token, modifier token, following lexer state
SPEC = '''alias kALIAS kALIAS FNAME|FITEM
and kAND kAND BEG
BEGIN klBEGIN klBEGIN END
END klEND klEND END
begin kBEGIN kBEGIN BEG
break kBREAK kBREAK MID
case kCASE kCASE BEG
class kCLASS kCLASS CLASS
def kDEF kDEF FNAME
defined? kDEFINED kDEFINED ARG
do kDO kDO BEG
else kELSE kELSE BEG
elsif kELSIF kELSIF BEG
end kEND kEND END
ensure kENSURE kENSURE BEG
false kFALSE kFALSE END
for kFOR kFOR BEG
if kIF kIF_MOD BEG
in kIN kIN BEG
module kMODULE kMODULE BEG
next kNEXT kNEXT MID
nil kNIL kNIL END
not kNOT kNOT ARG
or kOR kOR BEG
redo kREDO kREDO END
rescue kRESCUE kRESCUE_MOD MID
retry kRETRY kRETRY END
return kRETURN kRETURN MID
self kSELF kSELF END
super kSUPER kSUPER ARG
then kTHEN kTHEN BEG
true kTRUE kTRUE END
undef kUNDEF kUNDEF FNAME|FITEM
unless kUNLESS kUNLESS_MOD BEG
until kUNTIL kUNTIL_MOD BEG
when kWHEN kWHEN BEG
while kWHILE kWHILE_MOD BEG
yield kYIELD kYIELD ARG
__ENCODING__ k__ENCODING__ k__ENCODING__ END
__FILE__ k__FILE__ k__FILE__ END
__LINE__ k__LINE__ k__LINE__ END'''
TABLE = 'reserved_words::list::RESERVED_WORDS'


def const_value(P, name):
    """value of a constant built from aggregates of constants; references are dropped"""
    f = P.fns[name]
    loc = {}

    def op(o):
        if o[0] == 'k':
            k = o[1]
            if 'int' in k:
                return k['int']
            if 'str' in k:
                return k['str']
            if 'promoted' in k:
                return const_value(P, '%s::promoted[%d]' % (k['of'], k['promoted']))
            raise ValueError('constant %s' % k)
        v = loc[o[1][0]]
        for e in o[1][1:]:
            if e == '*':
                continue
            v = v[1][e[1]] if isinstance(v, tuple) and v[0] == 'adt' else v[e[1]]
        return v
    for b in f.blocks:
        for s in b['s']:
            if s[0] != '=':
                continue
            r = s[2]
            if r[0] == 'use':
                v = op(r[1])
            elif r[0] == 'ref':
                v = op(['c', r[2]])
            elif r[0] == 'cast':
                v = op(r[2])
            elif r[0] == 'agg':
                fs = [op(o) for o in r[2]]
                v = ('adt', fs) if r[1][0] == 'adt' else fs
            elif r[0] == 'bin':
                x = interp.binop(r[1], ('i', op(r[2])), ('i', op(r[3])))
                if x[0] != 'i':
                    raise ValueError('cannot evaluate %s' % r)
                v = x[1]
            else:
                raise ValueError('cannot evaluate %s' % r)
            loc[s[1][0]] = v
    return loc[0]


def check(ctx, rep):
    P = ctx.prog
    rep.rule = ('the keyword table (from its compiled constant) equals Ruby\'s; the lookup returns an entry only for an exact '
                'name match and misses none; the identifier scanner turns a table entry into a token as Ruby does, on every path')
    toks = {}
    for n, v in P.token_consts().items():
        if 'lexer::main::Lexer' in n:
            toks.setdefault(n.split('::')[-1], v)
    # lexer state bits
    eng = actions.Engine(ctx)
    for n, v in STATES.items():
        got = eng.lexstate_mask((n,))
        rep.check(got == v, 'state/' + n, '%s is %#x, Ruby has %#x' % (n, got, v), where='src/lex_state.rs')
    # ---- table
    if not rep.anchor(TABLE, P.fns.get(TABLE)):
        return
    tab = const_value(P, TABLE)
    fields = [x[0] for x in P.adts['reserved_words::reserved_word::ReservedWord']['variants'][0][1]]
    spec = {}
    for l in SPEC.splitlines():
        w, i, m, s = l.split()
        spec[w] = (i, m, sum(globals()[x] for x in s.split('|')))
    seen = {}
    for ln, bucket in enumerate(tab):
        names = []
        for e in bucket:
            d = dict(zip(fields, e[1]))
            names.append(d['name'])
            rep.count('table entries')
            w = d['name']
            rep.check(len(w.encode()) == ln, 'bucket/' + w, '%r is filed under length %d' % (w, ln), where='codegen/rust/reserved_words.rs')
            if w in seen:
                rep.bad('dup/' + w, '%r is listed twice' % w)
            seen[w] = d
            if w not in spec:
                rep.bad('extra/' + w, '%r is reserved but is not a reserved word of Ruby' % w, where='codegen/rust/reserved_words.rs')
                continue
            i, m, s = spec[w]
            rep.check(d['id'] == toks.get(i), 'id/' + w, '%r does not map to %s' % (w, i), where='codegen/rust/reserved_words.rs')
            rep.check(d['modifier_id'] == toks.get(m), 'modifier/' + w, '%r as a modifier does not map to %s' % (w, m), where='codegen/rust/reserved_words.rs')
            rep.check(d['state'] == s, 'following/' + w, 'after %r the lexer state is %#x, Ruby has %#x' % (w, d['state'], s), where='codegen/rust/reserved_words.rs')
        rep.sorted = getattr(rep, 'sorted', True) and [x.encode() for x in names] == sorted(x.encode() for x in names)
    for w in spec:
        rep.check(w in seen, 'missing/' + w, '%r is a reserved word of Ruby but is not in the table' % w, where='codegen/rust/reserved_words.rs')
    lookup(P, rep, fields)
    ident(ctx, P, rep, eng, toks, fields)
    # every reserved word may still name a method (def class, x.class, alias, undef, symbols)
    have = {r.rhs[0] for r in eng.g.by_lhs.get('reswords', []) if len(r.rhs) == 1}
    for w, (i, m, s2) in spec.items():
        rep.check(i in have, 'name/' + w, '%r cannot be used as a method name: %s is missing from reswords' % (w, i), where='src/parser/parse.y reswords')
    # keyword tokens come from nowhere else
    kw = {v for n, v in toks.items() if n.startswith('k') and n in eng.g.terminals}
    for n, f in P.fns.items():
        if f.kind != 'fn' or not n.startswith('lexer::'):
            continue
        bad = set()
        for b in f.blocks:
            for s in b['s']:
                if s[0] == '=':
                    scan(s[2], bad)
            scan(b['t'], bad)
        rep.count('lexer functions scanned')
        if n not in getattr(rep, 'scanner', ()):
            rep.check(not bad, 'elsewhere/' + n, '%s produces keyword tokens %s itself' % (n, sorted(bad)), where=f.span)
    rep.trusted = ['core slice get, binary_search_by, iteration and comparison']


def scan(x, out):
    if isinstance(x, dict):
        d = x.get('def', '')
        if isinstance(d, str) and 'lexer::main::Lexer' in d and d.split('::')[-1].startswith('k'):
            out.add(d.split('::')[-1])
        for y in x.values():
            scan(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            scan(y, out)


class Lookup(Exception):
    pass


class LI(Interp):
    def const(self, k):
        if k.get('def') == TABLE:
            return ('&', ('H', ('RW',)), ())
        return super().const(k)


class LH(Hooks):
    """models for the lookup function: RW = table, bucket = one bucket, elem = one entry"""

    def __init__(self, fields):
        self.fields = fields
        self.searches = []
        self.elem = ('&', ('H', ('elem',)), ())

    def on_panic(self, I, st, site, what):
        pass

    def on_call(self, I, name, ci, a, st, fr, site):
        base = name.split('::')[-1]
        if name.endswith('core::slice::<impl [T]>::len') or name == 'std::vec::Vec::<T, A>::len':
            return [(('op', 'len', a[0]), st)]
        if base in ('as_bytes', 'as_ref', 'deref', 'borrow', 'as_str') and a:
            return [(a[0], st)]
        if base in ('get', 'index') and a and is_rw(I, st, a[0]):
            self.idx = a[1]
            b = ('&', ('H', ('bucket',)), ())
            st = st.copy()
            if ('H', ('bucket',)) not in st.mem:
                st.mem[('H', ('bucket',))] = ('&', ('H', ('bucketslice',)), ())
            if base == 'index':
                return [(b, st)]
            s2 = st.copy()
            s2.fl['none'] = 'no bucket of that length'
            return [(models.some(b), st), (models.NONE, s2)]
        if base == 'cmp' and len(a) == 2:
            return [(('op', 'cmp', strip(I, st, a[0]), strip(I, st, a[1])), st)]
        if base in ('eq', 'ne') and len(a) == 2:
            v = ('op', 'same', strip(I, st, a[0]), strip(I, st, a[1]))
            return [(v if base == 'eq' else ('op', 'Not', v), st)]
        if base in ('binary_search_by', 'binary_search_by_key', 'find', 'position'):
            clo = a[-1]
            rs = I.call_value(clo, [self.elem] if base != 'find' else [('&', ('H', ('pelem',)), ())], with_elem(st, self.elem), fr, site)
            for rv, _ in rs:
                if base == 'binary_search_by_key':
                    rv = ('op', 'cmp', strip(I, st, rv), strip(I, st, a[1]))
                self.searches.append((base, rv))
            found = ('s', ('found', base))
            s1, s2 = st.copy(), st.copy()
            s1.fl['found'] = base
            s2.fl['none'] = 'not found'
            if base.startswith('binary'):
                return [(models.ok(found), s1), (models.err(found), s2)]
            if base == 'find':
                return [(models.some(self.elem), s1), (models.NONE, s2)]
            return [(models.some(found), s1), (models.NONE, s2)]
        if base == 'iter' or base == 'into_iter':
            return [(a[0], st)]
        return None


def with_elem(st, e):
    st = st.copy()
    st.mem[('H', ('elem',))] = ('s', ('elem',))
    st.mem[('H', ('pelem',))] = e
    return st


def is_rw(I, st, v):
    return v[0] == '&' and v[1] == ('H', ('RW',))


def strip(I, st, v):
    n = 0
    while v[0] == '&' and n < 5:
        c = v[1]
        if c == ('H', ('TOK',)):
            return ('s', ('tok',))
        w = I.read(st, v[1], v[2])
        if w[0] == 's' and isinstance(w[1][0], tuple):
            return v
        v = w
        n += 1
    return v


def lookup(P, rep, fields):
    f = P.fn('reserved_words::reserved_word')
    if not rep.anchor('reserved_words::reserved_word', f):
        return
    h = LH(fields)
    I = LI(P, models.M, h)
    st = State({('H', ('TOK',)): ('s', ('tok',)), ('H', ('RW',)): ('s', ('RW',))}, {}, {})
    outs = I.run(f, [('&', ('H', ('TOK',)), ())], st, 1)
    rep.floor('lookup outcomes', len(outs), 2)
    ni = fields.index('name')
    name = ('s', ('elem', ni))
    tok = ('s', ('tok',))
    good = False
    for base, rv in h.searches:
        want = {('op', 'cmp', name, tok)} if base.startswith('binary') else {('op', 'same', name, tok), ('op', 'same', tok, name)}
        good = norm_name(rv, ni) in want
        rep.check(good, 'lookup/compare', 'the search does not compare the whole entry name with the whole word: %s' % (rv,), where=f.span)
        if base.startswith('binary'):
            rep.check(rep.sorted, 'lookup/sorted', 'binary search over a bucket that is not sorted', where='codegen/rust/reserved_words.rs')
    rep.check(bool(h.searches), 'lookup/search', 'no search for the word was found in reserved_word()', where=f.span)
    idx = getattr(h, 'idx', None)
    rep.check(idx is not None and idx[0] == 'op' and idx[1] == 'len' and strip(I, st, idx[2]) == tok, 'lookup/bucket',
              'the bucket is not the one for the length of the word: %s' % (idx,), where=f.span)
    for rv, s in outs:
        if rv[0] == 'a' and rv[2] == 1:
            v = rv[3][0]
            okv = v == h.elem or (v[0] == '&' and any(isinstance(e, tuple) and e[0] == 'ix' for e in v[2]) and s.fl.get('found'))
            rep.check(bool(okv and s.fl.get('found')), 'lookup/some', 'reserved_word() may return an entry without a match: %s' % (v,), where=f.span)
        elif rv[0] == 'a':
            rep.check('none' in s.fl, 'lookup/none', 'reserved_word() may miss a word although the search succeeded', where=f.span)
        else:
            rep.bad('lookup/unknown', 'cannot tell what reserved_word() returns: %s' % (rv,), where=f.span)


def norm_name(v, ni):
    def n(x):
        if x[0] == '&' and x[1] == ('H', ('elem',)):
            return ('s', ('elem',) + x[2])
        if x[0] == 's':
            p = tuple(e for e in x[1] if e != '*')
            return ('s', p)
        if x[0] == 'op':
            return (x[0], x[1]) + tuple(n(y) for y in x[2:])
        return x
    return n(v)


# ---------------------------------------------------------------- parse_ident
def ident(ctx, P, rep, eng, toks, fields):
    f = next((g for n, g in P.fns.items() if n.endswith('>::parse_ident') and n.startswith('lexer::')), None)
    if not rep.anchor('Lexer::parse_ident', f):
        return
    T = eng.T
    keep_fields = {'lex_state', 'command_start', 'lpar_beg'}
    touch = eng.touching(keep_fields) | {n for n in P.fns if 'reserved_words::reserved_word' in eng.G.reach([n])}
    op = {n for n, g in P.fns.items() if g.kind == 'fn' and (n not in touch) and not n.startswith('stack_state::')
          and not n.startswith('lex_state::') and not n.endswith('::is_lambda_beginning') and not n.startswith('reserved_words')}
    root = T.root
    KW = ('s', ('KW',))
    kwcell = ('H', ('KW', '*'))

    class H(Hooks):
        def on_panic(self, I, st, site, what):
            pass

        def on_call(self, I, name, ci, args, st, fr, site):
            if name == 'reserved_words::reserved_word':
                s1, s2 = st.copy(), st.copy()
                s1.fl['kw'] = 1
                s2.fl['kw'] = 0
                return [(models.some(KW), s1), (models.NONE, s2)]
            if name in op:
                return I.opaque(args, st, site)
            return None
    I = Interp(P, models.M, H())
    I.MAXSTATES = 60000
    FI = {n: i for i, n in enumerate(fields)}
    lexst = ('s', (('E', 'lex_state.value'),))

    def kwf(n):
        return ('s', ('KW', '*', FI[n]))

    def mask_of(v):
        """lex-state bits tested by a value, if it is `state & mask` of the entry or keyword state"""
        if v[0] == 'bv' and v[1] == ('i', 0):
            src = {b[1] for _, b in v[2] if b[0] == 'bit'}
            if len(src) == 1 and all(b[0] == 'bit' for _, b in v[2]):
                return src.pop(), sum(1 << i for i, _ in v[2])
        if v[0] == 'bit':
            return v[1], 1 << v[2]
        return None

    def atom(v):
        """canonical atom of a branch predicate: (atom, value meaning true)"""
        if v[0] == 'op' and v[1] == 'Eq' and len(v) == 4:
            a, b = v[2], v[3]
            if b == ('i', 0):
                m = mask_of(a)
                if m:
                    return ('any',) + m, False
            if a == kwf('id') and b == ('i', toks['kDO']):
                return 'isdo', True
            if {a, b} == {kwf('id'), kwf('modifier_id')}:
                return 'same', True
            if a[0] == 's' and b[0] == 's' and {a[1][0], b[1][0]} == {('E', 'lpar_beg'), ('E', 'paren_nest')}:
                return 'lambda', True
            m = mask_of(a)
            if m and b == ('i', 1):
                return ('any',) + m, True
        m = mask_of(v)
        if m:
            return ('any',) + m, True
        return None
    I.remember = lambda v: atom(v) is not None
    I.keep_asm = lambda k: (k[0] == 'not' and atom(k[1]) is not None) or atom(k) is not None
    outs = I.run(f, [('&', root, (0,)), sym('c'), sym('cmd')], T.initial(), 1)
    COND = ('any', ('s', (('E', 'cond.stack'),)), 1)
    CMDA = ('any', ('s', (('E', 'cmdarg.stack'),)), 1)

    def st_atom(m):
        return ('any', lexst, m)
    n = 0
    cs_path = next(p for c, p in eng.find_role('command_start'))
    ls_path = next(p for c, p in eng.find_role('lex_state.value'))
    atoms = {'dot': st_atom(DOT), 'fname': st_atom(FNAME), 'cmdarg': st_atom(CMDARG), 'begl': st_atom(BEG | LABELED),
             'isdo': 'isdo', 'lambda': 'lambda', 'cond': COND, 'cmda': CMDA, 'same': 'same', 'kwbeg': ('any', kwf('state'), BEG)}
    for rv, s in outs:
        if 'kw' not in s.fl:
            # never looked up: only labels and names after a dot
            continue
        known = {}
        for k, v in s.asm.items():
            if k[0] == 'not' or atom(k) is None:
                continue
            a, pos = atom(k)
            known[a] = bool(v) == pos
        n += 1
        if not s.fl['kw']:
            isname = rv[0] != 'i' or rv[1] in (toks['tIDENTIFIER'], toks['tCONSTANT'], toks['tFID'], toks['END_OF_INPUT'])
            rep.check(isname, 'ident/nokw', 'a word that is not reserved becomes token %s' % (rv,), where=f.span)
            continue
        names = list(atoms)
        free = [x for x in names if atoms[x] not in known]
        fin = I.read(s, root, ls_path)
        cs = I.read(s, root, cs_path)
        for bits in itertools.product((False, True), repeat=len(free)):
            e = {x: known[atoms[x]] for x in names if atoms[x] in known}
            e.update(zip(free, bits))
            if e['isdo'] and not e['same']:
                continue
            want, wstate, wcs = expected(e, toks, kwf)
            if want is None:
                rep.bad('ident/dot', 'a word after a dot is looked up as a keyword', where=f.span)
                break
            bad = []
            if rv != want:
                bad.append('token %s instead of %s' % (name_of(rv, toks), name_of(want, toks)))
            if fin != wstate:
                bad.append('lexer state %s instead of %s' % (fin, wstate))
            if wcs is not None and (cs == ('i', 1)) != wcs:
                bad.append('command_start %s' % (cs,))
            rep.check(not bad, 'ident/%s' % ','.join('%s=%d' % kv for kv in sorted(e.items())),
                      'reserved word recognised wrongly when %s: %s' % (', '.join('%s=%d' % kv for kv in sorted(e.items())), '; '.join(bad)),
                      where=f.span)
            if bad:
                break
    rep.floor('identifier paths with lookup', n, 10)
    rep.scanner = set(I.stats['fns'])
    # a word outside EXPR_DOT that is not a label is always looked up
    for rv, s in outs:
        if 'kw' in s.fl:
            continue
        known = {}
        for k, v in s.asm.items():
            if k[0] != 'not' and atom(k) is not None:
                a, pos = atom(k)
                known[a] = bool(v) == pos
        okv = known.get(atoms['dot']) or rv == ('i', toks['tLABEL']) or rv == ('i', toks['END_OF_INPUT'])
        rep.check(bool(okv), 'ident/skipped', 'an identifier may become token %s without being looked up as a reserved word' % (name_of(rv, toks)), where=f.span)


def name_of(v, toks):
    if v[0] == 'i':
        return next((n for n, x in toks.items() if x == v[1]), str(v[1]))
    return {1: 'kw.id', 2: 'kw.modifier_id'}.get(v[1][-1] if v[0] == 's' else None, str(v)[:60])


def expected(e, toks, kwf):
    """(token, lexer state, command_start) Ruby assigns to a reserved word"""
    if e['dot']:
        return None, None, None
    if e['fname']:
        return kwf('id'), ('i', ENDFN), None
    st = kwf('state')
    cs = e['kwbeg']
    if e['isdo']:
        if e['lambda']:
            return ('i', toks['kDO_LAMBDA']), st, cs
        if e['cond']:
            return ('i', toks['kDO_COND']), st, cs
        if e['cmda'] and not e['cmdarg']:
            return ('i', toks['kDO_BLOCK']), st, cs
        return ('i', toks['kDO']), st, cs
    if e['begl']:
        return kwf('id'), st, cs
    if not e['same']:
        return kwf('modifier_id'), ('i', BEG | LABEL), cs
    return kwf('modifier_id'), st, cs
