"""Sessions on the code under test, validated by TLC against a trace specification."""
import os
import json
import subprocess
import sys
import tempfile
import time
import binascii

from . import tlc
from .pml import LIMB

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.environ.get('VERIF_REPO', '/repo')
KEEP = {'do', 'op', 'f', 'r', 'i', 'a', 'b', 'c', 'st', 'de', 'x', 'y', 'field', 'fault', 'obs', 'parts', 'q', 'vals'}


def run_driver(script, cases, workdir, shards, seconds):
    """-> (results by case id, list of (case, what) the code under test did not survive)"""
    groups = [cases[i::shards] for i in range(shards)]
    procs = []
    for g in groups:
        if g:
            procs.append([g, None, None, None])
    results, crashed = {}, []
    pending = [g for g in groups if g]
    running = []
    n = 0
    while pending or running:
        while pending:
            g = pending.pop()
            n += 1
            plan = os.path.join(workdir, 'plan%d' % n)
            outp = os.path.join(workdir, 'out%d' % n)
            with open(plan, 'w') as f:
                for c in g:
                    f.write(json.dumps(c) + '\n')
            env = dict(os.environ)
            env.update({'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'})
            p = subprocess.Popen([PYTHON, '-B', '-X', 'utf8', os.path.join(HERE, script), REPO, plan, outp], env=env,
                                 cwd=workdir, stdout=subprocess.DEVNULL, stderr=open(outp + '.err', 'w'))
            running.append((p, g, plan, outp, time.time() + seconds))
        p, g, plan, outp, end = running.pop(0)
        late = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            p.kill()
            p.wait()
        begun, finished, ended = None, set(), False
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        break
                    if 'begin' in d:
                        begun = d['begin']
                    elif 'end' in d:
                        ended = True
                    else:
                        results[d['id']] = d
                        finished.add(d['id'])
        if not ended:
            with open(outp + '.err') as f:
                err = f.read()[-2000:]
            bad = [c for c in g if c['id'] == begun and begun not in finished]
            if not bad:
                bad = [g[0]]
            crashed.append((bad[0], ('hung' if late else 'exit status %s' % p.returncode) + '\n' + err))
            rest = [c for c in g if c['id'] not in finished and c['id'] != bad[0]['id']]
            if rest and len(crashed) < 3 and not late:
                pending.append(rest)
    return results, crashed


def to_tla(res):
    files = []
    for f in res['files']:
        files.append([{'hi': o // LIMB, 'lo': o % LIMB, 'b': list(bytearray(binascii.a2b_hex(h)))}
                      for o, h in f['segs']])
    calls = []
    for c in res['calls']:
        d = {k: v for k, v in c.items() if k in KEEP}
        if 'i' in d:
            d['i'] = max(-10 ** 8, min(10 ** 8, d['i']))
        for k in 'abc':
            if k in d and d[k] != 999999999:
                d[k] = max(-10 ** 8, min(10 ** 8, d[k]))
        if d['obs'].get('k') == 'raise':
            d['obs'] = {'k': 'raise', 'mro': d['obs']['mro']}
        calls.append(d)
    return {'id': res['id'], 'files': files, 'calls': calls}


def to_tla_pmc(res):
    calls = []
    for c in res['calls']:
        d = {k: v for k, v in c.items() if k in ('op', 'opts', 'b', 'p', 's', 'at', 'c', 'r', 'v', 'a', 'x', 'y', 'e', 'part', 'obs')}
        if d['obs'].get('k') == 'raise':
            d['obs'] = {'k': 'raise'}
        calls.append(d)
    return {'id': res['id'], 'calls': calls}


def weight_pmc(case):
    return 500 + sum(200 + len(c.get('b', ())) + 60 * len(c.get('opts', ())) for c in case['calls'])


def weight(case):
    return 2000 + sum(len(h) // 2 for f in case.get('files', ()) for _, h in f['segs']) \
        + 3000 * len(case.get('calls', ())) + case.get('weight', 0)


def validate(module, cfg, docs, weights, workdir, shards=None, seconds=800, heap='3g'):
    """-> (bad verdicts, number of cases, number of steps, TLC states, per-case facts)"""
    shards = min(shards or tlc.CORES, max(1, len(docs)))
    chars = os.path.join(workdir, 'chars.json')
    if not os.path.exists(chars):
        tlc.chars_file(chars)
    bins = [[0, []] for _ in range(shards)]
    for w, d in sorted(zip(weights, docs), key=lambda x: -x[0]):
        b = min(bins, key=lambda x: x[0])
        b[0] += w
        b[1].append(d)
    runs = []
    for k, (_, group) in enumerate(bins):
        if not group:
            continue
        path = os.path.join(workdir, 'trace%d.json' % k)
        with open(path, 'w') as f:
            json.dump(group, f)
        runs.append((group, tlc.start(module, cfg, {'VERIF_TRACE': path, 'VERIF_CHARS': chars}, workdir, heap=heap)))
    bad, cases, steps, states, info = [], 0, 0, 0, []
    end = time.time() + seconds
    for group, p in runs:
        rc, text = tlc.finish(p, max(1, end - time.time()))
        b, done = tlc.verdicts(text)
        if done is None or done[0] != len(group):
            with open(os.path.join(workdir, 'tlc-failure.txt'), 'w') as f:
                f.write(text)
            raise tlc.TlcError('trace validation did not complete:\n' + text[-3000:])
        bad += b
        info += tlc.case_lines(text)
        cases += done[0]
        steps += done[1]
        states += tlc.stats(text)[1]
    return bad, cases, steps, states, info
