"""C12: operators group by Ruby's precedence and associativity.

Decided on the LALR automaton that bison builds from the grammar: for every automaton state in which
an operator expression `... op1 X` is complete and every operator op2 that may come next, the
automaton's action is compared with Ruby's published table.
"""
from .. import grammar

# Ruby's table, highest first (doc/syntax/precedence.rdoc); names are the grammar's own tokens.
LEVELS = [
    ('right', ['tBANG', 'tTILDE', 'tUPLUS']),
    ('right', ['tPOW']),
    ('right', ['tUMINUS', 'tUMINUS_NUM']),
    ('left', ['tSTAR2', 'tDIVIDE', 'tPERCENT']),
    ('left', ['tPLUS', 'tMINUS']),
    ('left', ['tLSHFT', 'tRSHFT']),
    ('left', ['tAMPER2']),
    ('left', ['tPIPE', 'tCARET']),
    ('left', ['tGT', 'tGEQ', 'tLT', 'tLEQ']),
    ('nonassoc', ['tCMP', 'tEQ', 'tEQQ', 'tNEQ', 'tMATCH', 'tNMATCH']),
    ('left', ['tANDOP']),
    ('left', ['tOROP']),
    ('nonassoc', ['tDOT2', 'tDOT3', 'tBDOT2', 'tBDOT3']),
    ('right', ['tEH']),
    ('left', ['kRESCUE_MOD']),
    ('right', ['tEQL', 'tOP_ASGN']),
    ('nonassoc', ['kDEFINED']),
    ('right', ['kNOT']),
    ('left', ['kAND', 'kOR']),
    ('left', ['kIF_MOD', 'kUNLESS_MOD', 'kWHILE_MOD', 'kUNTIL_MOD']),
]
LV, ASSOC = {}, {}
for i, (a, ts) in enumerate(LEVELS):
    for t in ts:
        LV[t] = len(LEVELS) - i
        ASSOC[t] = a
# `x rescue y` is special in Ruby's grammar: it attaches to the right-hand side of an assignment,
# to a whole statement otherwise, and never to a bare operand of another operator.
ASSIGN = ('tEQL', 'tOP_ASGN')


def expected(op1, op2):
    if op2 == 'kRESCUE_MOD':
        return 'shift' if op1 in ASSIGN else 'reduce'
    if LV[op2] > LV[op1]:
        return 'shift'
    if LV[op2] < LV[op1]:
        return 'reduce'
    return {'left': 'reduce', 'right': 'shift', 'nonassoc': 'error'}[ASSOC[op1]]


def ops_of(g, sym):
    """operator tokens a symbol stands for: itself, or every alternative of a pure operator nonterminal"""
    if sym in LV:
        return [sym]
    rs = g.by_lhs.get(sym, [])
    if rs and all(len(r.rhs) == 1 and r.rhs[0] in LV for r in rs):
        return [r.rhs[0] for r in rs]
    return []


def op_of_rule(g, r):
    """operators of the last operator position of the rule, if its last symbol is an operand"""
    if len(r.rhs) < 2 or g.is_term(r.rhs[-1]):
        return []
    for s in reversed(r.rhs[:-1]):
        o = ops_of(g, s)
        if o:
            return o
        if g.is_term(s) and s not in ('tCOLON', 'tNL'):
            return []
        if not g.is_term(s) and s not in ('opt_nl',) and not s.startswith('@') and not s.startswith('$@') and any(r2.rhs for r2 in g.by_lhs.get(s, [])) and s != 'arg':
            return []
    return []


def check(ctx, rep):
    g = grammar.load(ctx)
    rep.rule = ("Table check on the LALR automaton bison builds from src/parser/parse.y: for every state where an operator expression "
                "`.. op1 X` is complete and every operator op2 that can follow X in that state, the action (shift = op2 binds tighter, "
                "reduce = op1 binds tighter, error = does not chain) must equal Ruby's precedence and associativity table. The same for "
                "states that are about to close an assignment right-hand side.")
    rep.trusted = ['bison: the automaton in its XML report is the one the generated parser runs', "Ruby's precedence table as written in the check"]
    users = {}
    for r in g.rules:
        for o in op_of_rule(g, r):
            users.setdefault(r.rhs[-1], set()).add(o)
    pairs = set()
    nstates = 0
    for st in g.states:
        # operators that can come next in this state
        nxt = {}
        for rn, dot in st.items:
            r = g.rules[rn]
            if 0 < dot < len(r.rhs) and not g.is_term(r.rhs[dot - 1]):
                for o in ops_of(g, r.rhs[dot]):
                    nxt[o] = r
        hit = False
        for rn, dot in st.items:
            r = g.rules[rn]
            if dot != len(r.rhs) or not r.rhs:
                continue
            op1s = op_of_rule(g, r)
            if not op1s and len(r.rhs) == 1 and not g.is_term(r.rhs[0]):
                op1s = [o for o in users.get(r.lhs, ())]
                # a unit reduction closes the operand: only tighter operators are decided here
                op1s = [o for o in op1s if o in ASSIGN]
            if not op1s:
                continue
            for op2, nr in sorted(nxt.items()):
                act = g.action(st, op2)
                for op1 in op1s:
                    exp = expected(op1, op2)
                    if ops_of(g, r.rhs[-1]) or op1 in ('kIF_MOD', 'kUNLESS_MOD', 'kWHILE_MOD', 'kUNTIL_MOD') and op2 in ASSIGN:
                        continue
                    hit = True
                    pairs.add((op1, op2))
                    got = act[0]
                    k = '%s | %s' % (r, op2)
                    rep.check(got == exp, k, 'src/parser/parse.y: after `%s` with %s next the parser does %s, Ruby\'s table requires %s (state %d; next item `%s`)' % (
                        r, op2, 'reduce' if got == 'reduce' else got, exp, st.num, nr), '%s -> %s' % (op1 + ' ' + op2, got))
        nstates += hit
    rep.floor('states', nstates, 38)
    rep.floor('operator_pairs', len(pairs), 600)
    missing = [t for t in LV if t not in g.terminals]
    if missing:
        rep.bad('anchor:tokens', 'operator tokens missing from the grammar: %s' % missing)
    have1 = {a for a, _ in pairs}
    have2 = {b for _, b in pairs}
    rep.check(have1 >= set(LV) - {'kIF_MOD', 'kUNLESS_MOD', 'kWHILE_MOD', 'kUNTIL_MOD', 'tUMINUS_NUM', 'kNOT'}, 'coverage:left operators',
              'no completed expression found for: %s' % sorted(set(LV) - have1))
    rep.count('left_operators', len(have1))
    rep.count('right_operators', len(have2))
