#!/usr/bin/env python3
"""Decides one property of /repo's working tree: check.py ID [--replay FILE]

Sessions are generated, run against the code under test and validated by TLC against the specification; see DESIGN.md.
"""
import sys
import os
import json
import re
import shutil
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from harness import profiles, trace, tlc, models  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
BUDGET = float(os.environ.get('VERIF_BUDGET', '560'))


def load_findings():
    """known: property=<id> case=<regex> clause=<regex> <what fails>"""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) case=(\S+) clause=(\S+) (.*)', line.strip())
                if m:
                    out.append(m.groups())
    return out


class Check(object):
    def __init__(self, prop):
        self.prop = prop
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = self.calls = 0
        self.events = self.wf = self.steps = 0
        self.violations, self.findings, self.samples, self.notes = [], set(), [], []
        self.models = []
        self.known = [k for k in load_findings() if k[0] == prop]

    def run(self, cases, label):
        """Runs the sessions and has TLC judge them."""
        logs = [c for c in cases if 'files' in c]
        self.judge(logs, False, label)
        self.judge([c for c in cases if 'files' not in c], True, label)

    def judge(self, cases, pmc, label):
        if not cases:
            return
        if pmc:
            script, module, conv, weight = 'driver_pmc.py', 'PmcTrace', trace.to_tla_pmc, trace.weight_pmc
        else:
            script, module, conv, weight = 'driver.py', 'PmlTrace', trace.to_tla, trace.weight
        w = tempfile.mkdtemp(prefix='run', dir=self.work)
        res, crashed = trace.run_driver(script, cases, w, tlc.CORES, 700)
        for case, what in crashed:
            self.violation(case, 0, ['the code under test did not survive this session'], {'what': what}, label)
        done = [c for c in cases if c['id'] in res]
        docs = [conv(res[c['id']]) for c in done]
        if docs:
            bad, n, steps, states, info = trace.validate(module, module + '.cfg', docs, [weight(c) for c in done], w)
            self.traces += n
            self.transitions += steps
            self.states += states
            self.calls += steps - n
            for _, _, evs, wf in info:
                self.events += sum(evs)
                self.wf += sum(wf)
            by = {}
            for cid, li, cls in bad:
                by.setdefault(cid, []).append((li, cls))
            plan = {c['id']: c for c in done}
            for cid in sorted(by):
                for li, cls in profiles.concerns(self.prop, plan[cid], sorted(by[cid])):
                    self.violation(plan[cid], li, cls, res[cid]['calls'][li - 1].get('obs'), label)
            self.steps += sum(res[c['id']].get('steps', 0) for c in done)
            if len(self.samples) < 3:
                c = done[len(done) // 2]
                r = res[c['id']]
                self.samples.append({'session': c['id'], 'calls': [self.brief(x) for x in r['calls'][:6]],
                                     'bytes': sum(len(h) // 2 for f in c.get('files', ()) for _, h in f['segs'])})
        shutil.rmtree(w, ignore_errors=True)

    @staticmethod
    def brief(call):
        s = json.dumps({k: v for k, v in call.items() if k != 'obs'})
        o = call.get('obs', {})
        b = {k: o[k] for k in ('k', 'op', 'path', 'det', 'n', 'mro', 'opts') if k in o}
        return '%s -> %s' % (s[:200], json.dumps(b)[:300])

    def violation(self, case, li, clauses, obs, label):
        for _, cre, clre, what in self.known:
            if re.match(cre + '$', case['id']) and all(re.match(clre + '$', c) for c in clauses):
                self.findings.add(what)
                return
        self.violations.append((case, li, clauses, obs, label))

    def replay_file(self, k, v):
        case, li, clauses, obs, label = v
        d = os.path.join(HERE, 'evidence', 'replay')
        if not os.path.isdir(d):
            os.makedirs(d)
        path = os.path.join(d, '%s-%d.json' % (self.prop, k))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'case': case, 'call': li, 'clauses': clauses, 'observed': obs, 'source': label}, f)
        return path

    def finish(self, t0):
        for what in sorted(self.findings):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for k, v in enumerate(self.violations[:5]):
            print('VIOLATION property=%s replay=%s' % (self.prop, self.replay_file(k, v)))
            case, li, clauses, obs, label = v
            print('  session %s (%s), call %d %s: %s' % (case['id'], label, li, json.dumps(
                {a: b for a, b in case['calls'][li - 1].items() if a not in ('b', 'opts')})[:160] if li else '', ', '.join(clauses)[:300]))
        if len(self.violations) > 5:
            print('  and %d more' % (len(self.violations) - 5))
        cov = {'states': self.states + sum(m['states'] for m in self.models), 'transitions': self.transitions + sum(m['transitions'] for m in self.models),
               'traces_validated_against_impl': self.traces, 'samples': self.samples or [{'none': True}],
               'calls_judged': self.calls, 'models': self.models}
        if self.steps:
            cov['steps_of_threads'] = self.steps
        if self.events:
            cov.update({'event_records': self.events, 'event_records_fully_specified': self.wf})
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
              'assumptions': models.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(self.violations)}
        d = os.path.join(HERE, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        tmp = os.path.join(d, '.%s.%d' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(d, self.prop + '.json'))
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s: %d sessions, %d calls judged, %d states, %d violations, %.1f s' % (
            self.prop, self.traces, self.calls, cov['states'], len(self.violations), time.time() - t0))
        return 1 if self.violations else 0


def main():
    prop = sys.argv[1]
    t0 = time.time()
    k = Check(prop)
    try:
        if '--replay' in sys.argv:
            with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
                k.run([json.load(f)['case']], 'replay')
            return k.finish(t0)
        for m in models.for_property(prop, TIER):
            # bounded model: its invariants, and the behaviours it exports
            r, cases = models.run(m, prop, k.work, TIER, SEED)
            k.models.append(r)
            k.run(cases, 'model ' + r['model'])
        if TIER == 'thorough':
            n = 0
            while time.time() - t0 < BUDGET and not k.violations:
                k.run(profiles.cases(prop, '%d.%d' % (SEED, n), 3), 'random %d' % n)
                n += 1
        else:
            k.run(profiles.cases(prop, SEED), 'generated')
        return k.finish(t0)
    except tlc.TlcError as e:
        shutil.rmtree(k.work, ignore_errors=True)
        print('error: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
