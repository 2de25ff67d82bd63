"""C11: every binding construct makes its name visible to the following text.

Every action is evaluated, with the builder functions it calls, on symbolic parts (build.py), recording which names it declares
in the current scope. For each production the relation between cases (kinds of parts, predicates of names) and the names
declared - which part's text - must be the recorded one (ref/names.json.gz, reviewed by hand), case by case and in both
directions: a binding construct always declares its own name, in the action that completes it, and nothing else declares one.
The operations of the scope itself (StaticEnvironment) are evaluated on symbolic sets of names: a declared name is
visible, stays visible in a nested block scope, is not visible in a nested definition scope, and leaving a scope restores
what was visible before it.
"""
import os
from .. import laws
from .c15 import sharing
from .c18 import Hooks as Base, analyse, verdict
from .c21 import compare, load, save, says, brief

REF = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ref', 'names.json.gz')


class Hooks(Base):
    NOTES = {('StaticEnvironment', 'declare'): 'declares', ('StaticEnvironment', 'declare_forward_args'): 'declares ...', ('StaticEnvironment', 'declare_anonymous_blockarg'): 'declares &'}


def names(o):
    if not o.ok:
        return ['rejected']
    return ['accepted'] + [e for e in o.fl.get('ev', ()) if e.startswith('declares')]


def relations(ctx):
    S, rels = analyse(ctx, Hooks(), names)
    return {n: r for n, r in rels.items() if not n.startswith('builder::')}


def check(ctx, rep):
    cur = relations(ctx)
    ref = load(REF)
    rep.rule = __doc__
    rep.trusted = ['bison XML report', 'models of std containers and options (models.py)', 'ref/names.json.gz, reviewed by hand']
    n = m = 0
    for name in sorted(cur):
        if name not in ref:
            continue
        n += 1
        m += sum(len(v) > 1 for c, v in ref[name])
        bad = compare(cur[name], ref[name])
        rep.check(not bad, name, ('`%s`: ' % name) + '; '.join(
            ('when %s it is %s, which the language does not give there' if s == 'new' else 'when %s it no longer is %s') % (says(c)[:300] or 'parsed', brief(v)[:300]) for s, c, v in bad[:2]))
    laws.report(rep, laws.scopes(ctx.prog))
    sharing(ctx.prog, rep, ('static_env',))
    rep.floor('productions', n, 600)
    rep.floor('declaring cases', m, 20)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from .. import run
    save(REF, relations(run.Ctx('quick')))
