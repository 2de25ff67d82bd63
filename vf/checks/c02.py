"""C02: grammar rules always receive the kind of value they expect."""
from . import c01


def check(ctx, rep):
    rep.rule = ('for every production and every kind of value its parts can carry, no conversion of a semantic value '
                'in the action reaches its failure branch, no action reads a consumed, missing or foreign stack slot')
    e = c01.engine(ctx)
    g = e.g
    byrule = {}
    for (num, what) in e.panics:
        byrule.setdefault(num, []).append(what)
    rep.floor('productions with a completed derivation', len(e.outcomes), 600)
    for r in g.rules:
        if r.num == 0 or e.is_mid(r.lhs) or r.useful != 'useful':
            continue
        rep.count('productions')
        probs = []
        for m in [r.num] + [g.by_lhs[s][0].num for s in r.rhs if e.is_mid(s)]:
            probs += [(m, w) for w in byrule.get(m, ()) if kind_problem(w)]
        for m, w in probs:
            rep.bad('kind/%s/%s' % (r, w), '`%s`: %s' % (r, w), where='src/parser/parse.y: %s' % r)
        if not probs:
            rep.ok('kinds')
        for eff, v in e.outcomes.get(r.num, ()):
            if v[0] == 'a':
                rep.check(e.variants[v[2]] not in ('Stolen', 'Uninitialized'), 'value/%s' % r,
                          '`%s` leaves the value %s' % (r, e.variants[v[2]]), where='src/parser/parse.y: %s' % r)
    rep.count('value kinds', sum(len(x) for x in e.summ.values()))
    rep.coverage_extra = {'action_blocks': len(e.I.stats['blocks']), 'productions_analysed': e.runs,
                          'kinds_per_nonterminal': {n: sorted({e.variants[v[2]] if v[0] == 'a' else str(v[0]) for _, v in a})
                                                    for n, a in sorted(e.summ.items())}}
    rep.trusted = ['models of std (vf/models.py)', 'bison LALR tables (XML report)']


def kind_problem(w):
    return 'parse_value::' in w or w.startswith('reads ') or w.startswith('value match')
