#!/usr/bin/env python3
"""Development aid: the specification against records Procmon wrote.

Takes event records out of the captured logs in /repo/tests/resources (one or a few of every shape), puts them into small logs
and has TLC judge what the code delivers of them. The repository's tests compare the same answers with Procmon's own exports of
these logs, so agreement here means that the specification says what Procmon says. With a number of mutations per record, the
bytes of details and extra blocks are altered at random: records close to real ones, which nobody thought of.

usage: real_logs.py [seed [mutations per record [records per shape]]]
"""
import os
import sys
import struct
import tempfile
import shutil
import zlib
from collections import Counter, defaultdict
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from harness import gen, trace  # noqa: E402
from harness.gen import G  # noqa: E402
from harness.pml import build, Content, Proc, Mod, Ev  # noqa: E402

RES = os.path.join(trace.REPO, 'tests', 'resources')
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
mutations = int(sys.argv[2]) if len(sys.argv) > 2 else 0
per = int(sys.argv[3]) if len(sys.argv) > 3 else 2
g = G(seed)


def log(path):
    raw = open(path, 'rb').read()
    for d in (lambda b: zlib.decompress(b, 47), lambda b: __import__('bz2').decompress(b), lambda b: __import__('lzma').decompress(b), lambda b: b):
        try:
            b = d(raw)
        except Exception:
            continue
        if b[:4] == b'PML_':
            return b
    raise SystemExit('cannot read ' + path)


def shapes(b):
    """-> {shape: [(event offset)]}"""
    n, = struct.unpack_from('<I', b, 0x234)
    at, = struct.unpack_from('<Q', b, 0x248)
    pv = 8 if struct.unpack_from('<I', b, 8)[0] else 4
    out = defaultdict(list)
    for i in range(n):
        o, = struct.unpack_from('<I', b, at + 5 * i)
        cls, op = struct.unpack_from('<IH', b, o + 8)
        depth, _, dsize, xoff = struct.unpack_from('<HHII', b, o + 40)
        d = o + 52 + depth * pv
        sub = b[d] if cls == 3 else 0
        info = 0
        if cls == 2 and dsize >= 16:
            info = b[d + 8]
        elif cls == 3:
            info = b[d + 4 + 0x18 + (pv == 8) * 4]
        out[(cls, op, sub, info, bool(xoff), min(struct.unpack_from('<I', b, o + 36)[0], 1))].append(o)
    return out, pv


def take(b, offs, pv):
    """A small log with these records."""
    c = Content(pv == 8)
    so, = struct.unpack_from('<Q', b, 0x258)
    ns, = struct.unpack_from('<I', b, so)
    c.strings = []
    keep = {}

    def string(i):
        if i not in keep:
            o, = struct.unpack_from('<I', b, so + 4 + 4 * i)
            k, = struct.unpack_from('<I', b, so + o)
            keep[i] = len(c.strings)
            c.strings.append(b[so + o + 4:so + o + 4 + k])
        return keep[i]
    po, = struct.unpack_from('<Q', b, 0x250)
    np_, = struct.unpack_from('<I', b, po)
    used = {struct.unpack_from('<I', b, o)[0] for o in offs}
    P = '<Q' if pv == 8 else '<I'
    for k in range(np_):
        o = po + struct.unpack_from('<I', b, po + 4 + 4 * np_ + 4 * k)[0]
        idx, pid, ppid, _, auth, session, _, start, end, virt, is64 = struct.unpack_from('<IIIIQIIQQII', b, o)
        if idx not in used:
            continue
        strs = [string(i) for i in struct.unpack_from('<8I', b, o + 0x38)]
        nm, = struct.unpack_from('<I', b, o + 0x60 + pv)
        q, mods = o + 0x64 + pv, []
        for _ in range(nm):
            base, = struct.unpack_from(P, b, q + pv)
            v = struct.unpack_from('<6I', b, q + 2 * pv)
            if len(mods) < 3:
                mods.append(Mod(base, v[0], string(v[1]), string(v[2]), string(v[3]), string(v[4]), v[5]))
            q += 2 * pv + 24 + 24
        c.procs.append(Proc(idx, pid, ppid, auth, session, start, end, virt, is64, strs, mods))
    ho, = struct.unpack_from('<Q', b, 0x3a0)
    n, = struct.unpack_from('<I', b, ho)
    q = ho + 4
    hosts, ports = [], []
    for _ in range(n):
        k, = struct.unpack_from('<I', b, q + 16)
        hosts.append((b[q:q + 16], b[q + 20:q + 20 + k]))
        q += 20 + k
    n, = struct.unpack_from('<I', b, q)
    q += 4
    for _ in range(n):
        port, tcp, k = struct.unpack_from('<HHI', b, q)
        ports.append((port, tcp, b[q + 8:q + 8 + k]))
        q += 8 + k
    c.hosts, c.ports = hosts[:60], ports[:60]
    for o in offs:
        p, tid, cls, op, _, _, dur, date, res, depth, _, dsize, xoff = struct.unpack_from('<IIIHHIQQIHHII', b, o)
        stack = struct.unpack_from('<%d%s' % (depth, P[1]), b, o + 52)
        det = b[o + 52 + depth * pv:o + 52 + depth * pv + dsize]
        extra = None
        if xoff:
            k, = struct.unpack_from('<H', b, o + xoff)
            extra = b[o + xoff + 2:o + xoff + 2 + k]
        c.events.append(Ev(p, cls, op, det, extra, tid, dur, date, res, stack[:6]))
    return c


def mutate(e):
    e = Ev(e.proc, e.cls, e.op, e.det, e.extra, e.tid, e.dur, e.date, e.res, e.stack)
    for _ in range(g.choice([1, 1, 1, 2, 3])):
        which = 'extra' if e.extra and g.random() < .4 else 'det'
        x = bytearray(getattr(e, which))
        if not x:
            continue
        i = g.randrange(min(len(x), 100) if g.random() < .8 else len(x))
        kind = g.randrange(5)
        if kind == 0:
            x[i] ^= 1 << g.randrange(8)
        elif kind == 1:
            x[i] = g.randrange(256)
        elif kind == 2:
            x[i] = g.choice([0, 1, 255, 128, 127])
        elif kind == 3 and len(x) > 4:
            i = min(i & ~3, len(x) - 4)
            x[i:i + 4] = struct.pack('<I', g.choice([0, 1, 2, 0xffffffff, 0x7fffffff, 1 << g.randrange(32)]))
        else:
            x = x[:i] if g.random() < .5 else x + bytearray(g.randrange(256) for _ in range(g.randrange(9)))
        setattr(e, which, bytes(x))
    return e


cases, what = [], {}
for name in sorted(os.listdir(RES)):
    if not name.endswith('PML'):
        continue
    b = log(os.path.join(RES, name))
    sh, pv = shapes(b)
    offs = []
    for s in sorted(sh):
        offs += g.sample(sh[s], min(per, len(sh[s])))
    print(name, len(b), 'bytes', len(sh), 'shapes', len(offs), 'records')
    step = 24
    for k in range(0, len(offs), step):
        c = take(b, offs[k:k + step], pv)
        if mutations:
            c.events = [mutate(e) for e in c.events for _ in range(mutations)]
        n = len(c.events)
        cid = '%s-%d' % (name, k)
        what[cid] = c
        cases.append({'id': cid, 'tz': 'UTC0', 'files': [gen.plan_file(build(c))], 'calls': [
            {'op': 'open', 'f': 1, 'st': True, 'de': True, 'kind': 'bytes'}, {'op': 'procs', 'r': 1}, {'op': 'sys', 'r': 1}]
            + [{'op': 'index', 'r': 1, 'i': i, 'csv': [None], 'dt': True, 'txt': True} for i in range(n)]})
w = tempfile.mkdtemp(prefix='real')
res, crashed = trace.run_driver('driver.py', cases, w, 8, 600)
print('did not survive:', crashed[:1])
bad, n, steps, states, info = trace.validate('PmlTrace', 'PmlTrace.cfg', [trace.to_tla(res[c['id']]) for c in cases if c['id'] in res],
                                             [trace.weight(c) for c in cases if c['id'] in res], w)
evs, wf = sum(sum(x[2]) for x in info), sum(sum(x[3]) for x in info)
print('%d sessions, %d calls judged; %d records, %d fully specified; %d disagreements' % (n, steps, evs, wf, len(bad)))
print(Counter(x for b in bad for x in b[2]).most_common(40))
for cid, li, cls in bad[:int(os.environ.get('SHOW', 6))]:
    e = what[cid].events[li - 4] if li > 3 else None
    print(cid, li, cls, str(res[cid]['calls'][li - 1])[:1200])
    if e:
        print('   ', e.cls, e.op, e.det.hex()[:300], e.extra and e.extra.hex()[:300])
shutil.rmtree(w)
