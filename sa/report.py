"""Obligations, findings, evidence."""
import json
import os
import time
import traceback

from .model import Program, AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx(object):
    """What a check records while it runs."""

    def __init__(self, pid, tier='quick', prog=None):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self._prog = prog
        self.obl = []           # (rule, construct, loc, ok, detail)
        self.units = {}         # what was analysed
        self.rules = {}         # rule id -> text
        self.mins = {}          # rule id -> minimum instances confirmed by hand

    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program()
        return self._prog

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.mins[rid] = minimum

    def ob(self, rid, construct, loc, ok, detail=''):
        """One obligation. construct: stable name (no line numbers)."""
        if rid not in self.rules:
            raise AnalysisBroken('undeclared rule %s' % rid)
        self.obl.append((rid, construct, loc, bool(ok), detail))
        return ok

    def unit(self, kind, name):
        self.units.setdefault(kind, set()).add(str(name))

    def vacuity(self):
        n = {}
        for o in self.obl:
            n[o[0]] = n.get(o[0], 0) + 1
        if any(not o[3] for o in self.obl):
            return []           # a reported violation is never masked
        return ['rule %s matched %d instances, at least %d were confirmed by '
                'hand' % (r, n.get(r, 0), m)
                for r, m in self.mins.items() if n.get(r, 0) < m]


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def execute(pid, fn, level, title, tier, seed):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    err = None
    try:
        fn(ctx)
    except AnalysisBroken as e:
        err = 'analysis broken: %s' % e
    except Exception:
        err = 'internal error:\n' + traceback.format_exc()
    if err is None:
        vac = ctx.vacuity()
        if vac:
            err = 'analysis broken (instance count collapsed): ' + \
                '; '.join(vac)
    known = [k for k in load_known() if k['property'] == pid
             and k.get('status') == 'known']
    bad, seen = [], set()
    knownhits = []
    for r, c, loc, ok, d in ctx.obl:
        if ok:
            continue
        key = '%s|%s' % (r, c)
        if key in seen:
            continue
        seen.add(key)
        hit = [k for k in known if k['key'] == key]
        if hit:
            knownhits.append((hit[0], loc, d))
        else:
            bad.append((r, c, loc, d, key))
    per_rule = {}
    for r, c, loc, ok, d in ctx.obl:
        e = per_rule.setdefault(r, {'rule': ctx.rules[r], 'instances': 0,
                                    'held': 0})
        e['instances'] += 1
        e['held'] += bool(ok)
    cov = {
        'explanation': 'static analysis of the current source of /repo: every '
                       'listed unit was parsed and every rule instance '
                       'decided from the resolved program; nothing was run',
        'obligations': len(ctx.obl),
        'discharged': sum(1 for o in ctx.obl if o[3]),
        'rules': per_rule,
        'analysed': {k: {'count': len(v), 'names': sorted(v)[:60]}
                     for k, v in ctx.units.items()},
        'samples': ['%s @ %s: %s' % (c, loc, r)
                    for r, c, loc, ok, d in ctx.obl[:8]],
        'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (pid, tier),
        'trusted_base': 'CPython ast module (and clang AST dump for C units), '
                        'the analyser under /verif/sa',
        'known_findings': [k['key'] for k, _, _ in knownhits],
        'violations': [b[4] for b in bad],
    }
    if err:
        cov['error'] = err
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 3)}
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(
        HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s: %d obligations over %s' % (
        pid, title, len(ctx.obl),
        ', '.join('%d %s' % (len(v), k) for k, v in
                  sorted(ctx.units.items())) or 'nothing'))
    for r, e in sorted(per_rule.items()):
        print('  rule %-28s %4d instances, %4d hold' % (
            r, e['instances'], e['held']))
    for k, loc, d in knownhits:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (
            pid, k['what'], k['key'], loc))
    if bad:
        rp = os.path.join(evdir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for r, c, loc, d, key in bad:
                f.write('rule: %s\n  %s\nconstruct: %s\nat: %s\n%s\nkey: %s\n'
                        '\n' % (r, ctx.rules[r], c, loc, d, key))
        for r, c, loc, d, key in bad[:20]:
            print('  %s: %s  [%s] %s\n      %s' % (
                loc, c, r, ctx.rules[r], str(d)[:600]))
        if err:
            print('  note: ' + err)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print('ERROR property=%s %s' % (pid, err))
        return 2
    return 0
