"""Runs one check: python3 -m vf.run <property> [--tier quick|thorough]

Exit 0: held. Exit 1: a VIOLATION line was printed. The check decides from /repo's current source.
"""
import importlib, json, os, sys, time, traceback
from . import prep, mir

VERIF = prep.VERIF


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = 0
        self.good = 0
        self.samples = []
        self.viol = {}          # key -> message
        self.counts = {}
        self.rule = ''
        self.assumptions = []
        self.trusted = []
        self.coverage_extra = {}

    def ok(self, key, detail=None):
        self.obl += 1
        self.good += 1
        if len(self.samples) < 12 or (self.obl % 97 == 0 and len(self.samples) < 40):
            self.samples.append('%s: %s' % (key, detail) if detail else str(key))

    def bad(self, key, msg, where=None):
        self.obl += 1
        self.viol.setdefault(key, msg + ('  [%s]' % where if where else ''))

    def check(self, cond, key, msg, detail=None, where=None):
        if cond:
            self.ok(key, detail)
        else:
            self.bad(key, msg, where)
        return cond

    def count(self, name, n=None):
        self.counts[name] = self.counts.get(name, 0) + 1 if n is None else n

    def floor(self, name, n, at_least):
        """fail closed when fewer instances than were counted by hand are found"""
        self.counts[name] = n
        if n < at_least:
            self.bad('floor:' + name, '%s: found %d, at least %d were confirmed by reading; the rule would pass vacuously' % (name, n, at_least))

    def anchor(self, name, obj=None):
        """fail closed when a construct the rule hangs on cannot be found"""
        if not obj:
            self.bad('anchor:' + name, 'cannot find %s; the property cannot be established' % name)
            return False
        return True


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self.dir = prep.prepare()
        self.prog = mir.Prog(self.dir)
        self._cache = {}

    def memo(self, name, fn):
        if name not in self._cache:
            self._cache[name] = fn()
        return self._cache[name]


def known():
    """known-findings.txt: lines `finding: property=<id> key=<key> :: <text>`"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property='):
                head, _, text = l[len('finding: property='):].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out.setdefault(pid, {})[key] = text
    return out


def main():
    import resource
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    rep = Report(pid)
    mod = importlib.import_module('vf.checks.' + pid.lower())
    try:
        ctx = Ctx(tier)
        mod.check(ctx, rep)
    except prep.BuildFailure as e:
        rep.bad('build', 'the crate or its grammar cannot be built, nothing can be established: %s' % e)
    except Exception as e:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        rep.bad('analysis-incomplete', 'the analysis could not be completed, so the property is not established: %s\n%s' % (e, tb))
    wall = time.time() - t0
    kn = known().get(pid, {})
    viol = {k: m for k, m in rep.viol.items() if k not in kn}
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': rep.rule,
            'obligations': rep.obl, 'discharged': rep.good,
            'counts': rep.counts, 'samples': rep.samples[:40],
            'trusted_base': rep.trusted,
            'extra': rep.coverage_extra,
            'tree': os.path.basename(ctx.dir) if 'ctx' in locals() else None,
        },
        'assumptions': rep.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in rep.viol:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]))
    print('%s: %d obligations, %d discharged, %d violations, %.1fs; %s' % (
        pid, rep.obl, rep.good, len(viol), wall, ', '.join('%s=%s' % kv for kv in rep.counts.items())))
    if viol:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            f.write('# property %s; rerun: cd /verif && python3 -m vf.run %s\n' % (pid, pid))
            for k, m in sorted(viol.items()):
                f.write('[%s]\n%s\n\n' % (k, m))
        for k, m in sorted(viol.items())[:40]:
            print('  [%s] %s' % (k, m.splitlines()[0] if m else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
