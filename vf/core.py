"""Common machinery of the checks: findings, evidence, known findings, exit codes."""
import json
import os
import re
import sys
import time
from . import build, prog
from .absint import Engine, Rule, AnalysisLimit, Unsupported, I

HERE = build.HERE


class Broken(Exception):
    """The analysis itself is broken (anchor vanished, nothing analysed, ...)."""


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.findings = []
        self.obligations = {}       # rule -> list of texts
        self.functions = set()
        self.sites = 0
        self.steps = 0
        self.units = 0
        self.rules = {}
        self.assumptions = []
        self._progs = {}
        self.t0 = time.time()

    # -- program ---------------------------------------------------------
    def load(self, modules=(), inst=()):
        k = (tuple(modules), tuple(inst))
        if k not in self._progs:
            p = prog.load(modules, inst)
            self.units += len(p.modules)
            self._progs[k] = p
        return self._progs[k]

    # -- bookkeeping -----------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text
        self.obligations.setdefault(name, [])

    def ok(self, rule, text):
        self.obligations.setdefault(rule, []).append(text)

    def need(self, rule, minimum):
        n = len(set(self.obligations.get(rule, ())))
        if n < minimum:
            raise Broken('rule %s: only %d instances analysed, at least %d expected' % (rule, n, minimum))

    def violation(self, rule, where, function, message, path=(), key=None):
        key = key or '%s|%s' % (rule, function)
        for f in self.findings:
            if (f['rule'], f['where'], f['function'], f['message']) == (rule, where, function, message):
                return
        self.findings.append({'rule': rule, 'where': where, 'function': function, 'message': message,
                              'path': list(path), 'key': key})

    def take(self, eng, rule):
        """Takes over the findings and the coverage of an engine run."""
        for f in eng.findings.values():
            self.violation(rule, f['where'], f['function'], f['message'], f['path'], f.get('what'))
        self.cover(eng)

    def cover(self, eng):
        self.functions |= set(eng.p.fullname(n) for n in eng.visited_fns)
        self.sites += len(eng.visited_calls)
        self.steps += eng.total_steps if hasattr(eng, 'total_steps') else eng.steps


def one(fns, what):
    if not fns:
        raise Broken('anchor vanished: %s' % what)
    return fns


def known_findings():
    out = []
    fn = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S.*?) :: (.*)$', l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main(argv):
    from . import registry
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    fn = registry.PROPS.get(a.property)
    if fn is None:
        print('unknown property %s' % a.property)
        return 2
    ctx = Ctx(a.property, tier)
    try:
        fn(ctx)
        if not any(ctx.obligations.values()):
            raise Broken('nothing was analysed')
    except Broken as e:
        if not ctx.findings:
            print('ANALYSIS-BROKEN property=%s %s' % (a.property, e))
            return 2
        print('note: %s' % e)
    except (AnalysisLimit, Unsupported) as e:
        # what was found before the limit was reached is found all the same
        if getattr(e, 'eng', None) is not None and e.eng.findings and ctx.rules:
            ctx.take(e.eng, list(ctx.rules)[-1])
        if not ctx.findings:
            print('ANALYSIS-BROKEN property=%s %s: %s' % (a.property, type(e).__name__, e))
            return 2
        print('note: %s: %s' % (type(e).__name__, e))
    except build.BuildError as e:
        print('ANALYSIS-BROKEN property=%s the sources do not compile\n%s' % (a.property, e))
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.property)
        return 2
    known = [k for k in known_findings() if k[0] == a.property]
    viol = []
    for f in ctx.findings:
        hit = [k for k in known if k[1] == f['key']]
        if hit:
            f['known'] = True
        else:
            viol.append(f)
    for k in known:
        fs = [f for f in ctx.findings if f['key'] == k[1]]
        if fs:
            print('KNOWN-FINDING: property=%s %s (%s)' % (a.property, k[2], fs[0]['where']))
    evdir = os.environ.get('VF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    n = sum(len(v) for v in ctx.obligations.values())
    ev = {
        'property': a.property,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the LLVM IR of /repo\'s current sources (%d translation units); '
                           'rules: %s' % (ctx.units, '; '.join('%s: %s' % kv for kv in sorted(ctx.rules.items()))),
            'translation_units': ctx.units,
            'functions_analysed': len(ctx.functions),
            'call_sites_analysed': ctx.sites,
            'obligations': n,
            'discharged': n - len(ctx.findings) if n >= len(ctx.findings) else 0,
            'obligations_per_rule': {k: len(v) for k, v in ctx.obligations.items()},
            'samples': [{'rule': k, 'instances': sorted(set(v))[:8]} for k, v in sorted(ctx.obligations.items())],
            'trusted_base': ['clang 18 front end and the opt sroa pass', 'the analyser in /verif/vf'],
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(viol),
    }
    if ctx.findings:
        ev['coverage']['findings'] = ctx.findings
    with open(os.path.join(evdir, a.property + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('%s: %d translation units, %d functions, %d obligations, %d findings, %.1f s' % (
        a.property, ctx.units, len(ctx.functions), n, len(ctx.findings), time.time() - ctx.t0))
    if viol:
        rp = os.path.join('evidence', a.property + '.violations.json')
        with open(os.path.join(evdir, a.property + '.violations.json'), 'w') as o:
            json.dump(viol, o, indent=1)
        for f in viol:
            print('  %s: [%s] %s: %s' % (f['where'], f['rule'], f['function'], f['message']))
            if f['path']:
                print('      via %s' % ' -> '.join(f['path']))
        print('VIOLATION property=%s replay=%s' % (a.property, rp))
        return 1
    return 0
