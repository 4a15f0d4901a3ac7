"""Development aid: random sessions over random logs, all clauses reported."""
import sys, time, tempfile, json, shutil
sys.path.insert(0, '/verif')
from harness import gen, trace, tlc
from harness.gen import G
from harness.pml import build
from collections import Counter
seed, ncases, nev = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
kinds = sys.argv[4:] or ['any_event']
g = G(seed)
cases = []
for i in range(ncases):
    c = gen.content(g)
    for j in range(nev):
        c.events.append(gen.event(g, c, getattr(gen, g.choice(kinds))))
    segs = build(c, gen.layout(g))
    cases.append({'id': 'c%d' % i, 'tz': g.choice(['UTC0', 'EST5EDT', '<+0545>-5:45']), 'files': [gen.plan_file(segs)], 'calls': [
        {'op': 'open', 'f': 1, 'st': True, 'de': True, 'kind': g.choice(['bytes', 'file', 'raw', 'mmap', 'gzip', 'only', 'sparse', 'sparsebuf'])},
        {'op': 'len', 'r': 1}, {'op': 'procs', 'r': 1}, {'op': 'sys', 'r': 1},
        {'op': 'drain', 'r': 1, 'csv': [None], 'dt': True}, {'op': 'next', 'r': 1}]
        + [{'op': 'index', 'r': 1, 'i': k, 'csv': [None]} for k in range(nev)]})
w = tempfile.mkdtemp(prefix='smk')
t = time.time()
res, crashed = trace.run_driver('driver.py', cases, w, 4, 600)
print('driver', time.time() - t, crashed[:1])
t = time.time()
docs = [trace.to_tla(res[c['id']]) for c in cases if c['id'] in res]
bad, n, steps, states, info = trace.validate('PmlTrace', 'PmlTrace.cfg', docs, [trace.weight(c) for c in cases], w)
print('tlc', time.time() - t, n, steps, states, len(bad))
print(Counter(x for b in bad for x in b[2]).most_common(40))
print(info[:6])
seen = set()
for b in bad:
    if tuple(b[2]) in seen or len(seen) > 8:
        continue
    seen.add(tuple(b[2]))
    c = res[b[0]]['calls'][b[1] - 1]
    print(b, json.dumps({k: v for k, v in c.items()})[:1500] if c['op'] == 'index' else json.dumps(c)[:700])
if '-k' in sys.argv:
    print(w)
else:
    shutil.rmtree(w)
