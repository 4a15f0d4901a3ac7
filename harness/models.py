"""Bounded models checked exhaustively by TLC, and the behaviours exported from them for replay.

A model is a spec/MC_*.tla with its parameters.  run() checks its invariants and turns what it printed into sessions;
what those sessions must show is again decided by the trace specifications.
"""
import binascii
import json
import os
import re
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import tlc, gen, profiles
from . import gen_pmc as P
from . import vocab as V
from .gen import G
from .pml import Content, Layout, Proc, Ev, build, u16, u32, u64

ASSUMPTIONS = [
    'the character table handed to TLC lists the 65536 UTF-16 code units in order',
    'the Python standard library and construct behave as documented',
]

TID = 0x80003039
FAMILIES = {'C08': ['key', 'value', 'create', 'dir', 'proc', 'net'], 'C13': ['net'], 'C14': ['key', 'open'], 'C15': ['value', 'oddvalue'], 'C16': ['create', 'rw'],
            'C17': ['dir', 'control'], 'C18': ['proc'],
            'C20': ['net', 'proc', 'key', 'open', 'value', 'create', 'rw', 'dir', 'control'],
            'C21': ['net', 'proc', 'key', 'open', 'value', 'create', 'rw', 'dir', 'control'], 'C22': ['net', 'proc', 'value', 'dir', 'create'],
            'C23': ['text'], 'C24': ['key', 'open', 'value', 'create', 'rw', 'dir', 'control'], 'C25': ['open', 'create', 'rw', 'dir']}


class Failed(Exception):
    """An invariant of a model does not hold: the specification itself is wrong."""


def check(module, workdir, env, cfg=None, seconds=600, heap='3g', args=()):
    """Runs a model to the end -> what it printed."""
    e = {'VERIF_CHARS': os.path.join(workdir, 'chars.json')}
    if not os.path.exists(e['VERIF_CHARS']):
        tlc.chars_file(e['VERIF_CHARS'])
    e.update(env)
    p = tlc.start(module, (cfg or module) + '.cfg', e, workdir, heap=heap, args=args)
    rc, text = tlc.finish(p, seconds)
    if rc != 0 or ('No error has been found' not in text and '-simulate' not in args):
        raise tlc.TlcError('model %s %s: exit status %d\n%s' % (module, env, rc, text[-3000:]))
    return text


WIRE = re.compile(r'<<\s*"W",\s*(\d+),\s*(\d+),\s*(\d+),\s*"([0-9a-f]*)",\s*"([-+])([0-9a-f]*)",\s*([01])\s*>>')


def wires(text):
    for c, op, pv, b, has, x, known in WIRE.findall(text):
        yield int(c), int(op), int(pv), binascii.a2b_hex(b), binascii.a2b_hex(x) if has == '+' else None, known == '1'


def host_tables(text):
    m = re.search(r'<<\s*"HOSTS",\s*<<(.*?)>>\s*,\s*<<\s*(<<.*?>>)\s*>>\s*>>', text, re.S)
    hosts = [(binascii.a2b_hex(a), binascii.a2b_hex(b) + b'\0\0') for a, b in re.findall(r'<<"([0-9a-f]*)",\s*"([0-9a-f]*)">>', m.group(1) + '>>')]
    ports = [(int(p), int(t), binascii.a2b_hex(b) + b'\0\0') for p, t, b in re.findall(r'<<(\d+),\s*(\d+),\s*"([0-9a-f]*)">>', m.group(2))]
    return hosts, ports


def wire_model(prop, families, workdir, tier, seed):
    g = G('%s/wires/%s' % (prop, seed))
    quick = tier != 'thorough'
    stride = 1 if not quick else 8
    if prop in ('C20', 'C21', 'C22', 'C23', 'C24', 'C25') and quick:
        stride = 0
    jobs = [(f, stride) for f in families]
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(lambda j: check('MC_Wires', workdir, {'VERIF_FAMILY': j[0], 'VERIF_STRIDE': str(j[1]), 'VERIF_PHASE': str(abs(hash_of(seed)) % max(1, j[1]))}), jobs))
    states = trans = 0
    base, near = [], []
    for (f, _), t in zip(jobs, texts):
        s = tlc.stats(t)
        states += s[1]
        trans += s[0]
        for w in wires(t):
            (base if w[5] or f in ('oddvalue', 'text') else near).append((f, w))
    # wires whose meaning is not written down are either single-bit words (kept) or neighbours (sampled)
    limit = {'C20': 2500, 'C21': 1200, 'C22': 500, 'C08': 1500, 'C24': 3500}.get(prop, 5000) if quick else 10 ** 9
    extra = 2500 if quick else 12000
    total = len(base) + len(near)
    base = base if len(base) <= limit else g.sample(base, limit)
    near = near if len(near) <= extra else g.sample(near, extra)
    picked = base + near
    g.shuffle(picked)
    hosts, ports = host_tables(texts[0])
    cases = wire_cases(prop, g, picked, hosts, ports)
    return {'model': 'MC_Wires(%s)' % ','.join(families), 'states': states, 'transitions': trans, 'exhaustive': True,
            'invariants': ['RoundTrip', 'Total'], 'wires': total, 'wires_replayed': len(picked)}, cases


def hash_of(seed):
    n = 0
    for ch in str(seed):
        n = (n * 131 + ord(ch)) % 1000003
    return n


def wire_cases(prop, g, picked, hosts, ports, per=40):
    cases = []
    for pv in (4, 8):
        group = [w for _, w in picked if w[2] == pv]
        for k in range(0, len(group), per):
            c = Content(pv == 8)
            c.strings = ['', 'p.exe', 'C:\\p.exe']
            c.procs = [Proc(7, 100, 4, 0x3e7, 1, 131000000000000000, 0, 0, 1, [0, 1, 1, 2, 1, 0, 0, 0])]
            c.hosts, c.ports = hosts, ports
            for j, (cls, op, _, b, x, _) in enumerate(group[k:k + per]):
                c.events.append(Ev(7, cls, op, b, x, TID, 10 * j, 131000000000000000 + 1234567 * j, g.choice([0, 0x103, 0xc0000034, g.u32()]),
                                   [] if g.maybe(.7) else [g.pv(pv) for _ in range(g.choice([1, 2]))]))
            n = len(c.events)
            lay = Layout(g, noise=g.maybe(), extra_where=g.choice(['after', 'end'])) if g.maybe(.3) else Layout()
            base = prop in profiles.ALWAYS
            calls = [dict(profiles.open_(), base=True) if base else profiles.open_()]
            for j in range(n):
                call = {'op': 'next', 'r': 1} if not base else {'op': 'index', 'r': 1, 'i': j, 'base': True}
                if prop == 'C20' or prop == 'C22':
                    call['csv'] = [None]
                calls.append(call)
            if prop == 'C21':
                for r, (st, de) in enumerate([(True, False), (False, True), (False, False)]):
                    calls += [profiles.open_(st=st, de=de, explicit=True)] + profiles.nexts(n, r + 2)
            if prop == 'C22':
                calls += [profiles.open_()] + profiles.nexts(n, 2) + [{'op': 'eq', 'x': j + 1, 'y': n + j + 1} for j in range(n)]
                calls += [{'op': 'stable', 'x': j + 1, 'how': ['str', 'hash', 'csv', 'eq']} for j in range(n)]
                calls += [{'op': 'look', 'x': j + 1, 'csv': [None]} for j in range(n)]
                calls += [{'op': 'eq', 'x': g.randrange(n) + 1, 'y': g.randrange(n) + 1} for j in range(n)]
            if prop == 'C08':
                # forward, backward and at random: nothing read may depend on what was read before
                calls += [profiles.open_()] + profiles.nexts(n, 2)
                calls += [{'op': 'index', 'r': 2, 'i': n - 1 - j} for j in range(n)]
                calls += [{'op': 'index', 'r': 2, 'i': g.randrange(n)} for _ in range(n // 2)]
            cases.append({'id': '%s-wires-%d-%d' % (prop.lower(), pv, k), 'files': [profiles.plain_file(g, c, lay)], 'calls': calls})
    return cases


# ---------------------------------------------------------------------------------------------------- sessions

LETTER = re.compile(r'<<\s*"(\w+)",\s*(\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\s*>>')
HIST = re.compile(r'<<"S", <<([\d, ]*)>>>>')


def session_calls(g, letters, hist, a, b, regs, pos, logs=1):
    """The calls of one behaviour; a and b are the numbers its two readers have, regs the objects delivered before."""
    out, mine = [], []
    rn = {1: a, 2: b}
    for j in hist:
        op, r, i, x, y, z = letters[j - 1]
        f = min(r, logs)
        r = rn[r]
        if op in ('next', 'index', 'nextfault', 'indexfault'):
            regs += 1
            mine.append(regs)
        if op == 'next':
            out.append({'op': 'next', 'r': r})
        elif op == 'nextfault':
            out.append({'op': 'next', 'r': r, 'faultat': g.choice([0, 1, 2, 4])})
        elif op == 'index':
            out.append({'op': 'index', 'r': r, 'i': i})
        elif op == 'indexfault':
            out.append({'op': 'index', 'r': r, 'i': i, 'faultat': g.choice([0, 1, 2, 4])})
        elif op == 'slice':
            out.append({'op': 'slice', 'r': r, 'a': x, 'b': y, 'c': z})
        elif op in ('len', 'drain', 'reversed', 'procs', 'sys'):
            out.append({'op': op, 'r': r})
        elif op == 'badindex':
            out.append({'op': op, 'r': r, 'v': g.choice(['str', 'float', 'None', 'list', 'tuple'])})
        elif op == 'readall':
            out.append({'op': 'readall', 'f': f, 'how': g.choice(['path', 'stream'])})
        elif op == 'seek':
            out.append({'op': 'quiet', 'do': 'seek', 'r': r, 'pos': g.choice(pos)})
        elif op in ('iter', 'abandon', 'proclist', 'sysdict'):
            out.append({'op': 'quiet', 'do': op, 'r': r})
        elif mine:
            # the caller alters or renders an object it was given
            how = {'do': 'mutate', 'what': g.choice(['all', 'all', 'details', 'stack', 'lists', 'fields', 'process'])} if op == 'mutate' else \
                {'do': 'render', 'how': g.sample(profiles.HOWS, 3)}
            out.append(dict({'op': 'quiet', 'x': g.choice(mine)}, **how))
    return out, regs


def session_model(prop, workdir, tier, seed):
    quick = tier != 'thorough'
    g = G('%s/sessions/%s' % (prop, seed))
    faults = prop == 'C08'
    runs = [(3, 3, 0), (2, 0, 0), (2, 1, 0), (2, 2, 0)] + ([(3, 3, 2), (2, 1, 1), (2, 2, 1)] if faults else [])
    if prop == 'C21':
        runs = [(3, 2, 0), (2, 3, 0)]
    logs = 1
    if prop == 'C27':
        runs, logs = [(3, 2, 0), (2, 1, 0)], 2
    jobs = [(d, n, b, ()) for d, n, b in runs]
    sims = [(8, 3, 0), (12, 4, 0), (12, 4, 3)][:3 if faults else 2]
    jobs += [(d, n, b, ('-simulate', 'num=%d' % (60 if quick else 1500), '-depth', str(d + 1), '-seed', str(hash_of(seed) + 1))) for d, n, b in sims]

    def go(j):
        d, n, b, args = j
        e = {'VERIF_DEPTH': str(d), 'VERIF_EVENTS': str(n), 'VERIF_BAD': str(b), 'VERIF_FAULTS': '1' if faults else '0', 'VERIF_LOGS': str(logs)}
        return check('MC_Session', workdir, e, args=args)
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(go, jobs))
    states = trans = total = replayed = 0
    cases = []
    for (d, n, b, args), t in zip(jobs, texts):
        st = tlc.stats(t)
        trans, states = trans + st[0], states + st[1]
        letters = [(m[0],) + tuple(int(v) for v in m[1:]) for m in LETTER.findall(t[t.index('"LETTERS"'):])]
        hists = [[int(v) for v in h.split(',')] for h in HIST.findall(t)]
        if args:
            # of one walk TLC prints every last step
            hists = list({tuple(h[:-1]): h for h in g.sample(hists, len(hists))}.values())
        total += len(hists)
        limit = len(hists) if not quick else {'C07': 700, 'C08': 500}.get(prop, 250)
        if len(hists) > limit:
            hists = g.sample(hists, limit)
        g.shuffle(hists)
        replayed += len(hists)
        per = 40
        for k in range(0, len(hists), per):
            c = profiles.simple_content(g, n)
            if b:
                profiles.damage(g, c)
            pos = [0, 1, 4, 0x3a8, 100000]
            calls = profiles.with_reader(profiles.baseline(1, n), 1) + [{'op': 'procs', 'r': 1, 'base': True}, {'op': 'sys', 'r': 1, 'base': True}]
            cs, readers, regs = [c], 1, n
            if logs == 2:
                cs = [c, gen.sibling(g, c)]
                calls, readers, regs = profiles.side_by_side(g, cs, []), 2, 2 * n
            for h in hists[k:k + per]:
                kind = 'faulty' if faults and g.maybe(.8) else g.choice(profiles.KINDS)
                o = [{'st': True, 'de': True}] * 2
                if prop == 'C21' or (faults and g.maybe(.2)):
                    o = [{'st': g.maybe(), 'de': g.maybe()} for _ in '12']
                calls.append(profiles.open_(kind=kind, **o[0]))
                calls.append(profiles.open_(f=2, kind=g.choice(profiles.KINDS)) if logs == 2 else profiles.open_(kind=kind, share=readers + 1, **o[1]) if g.maybe(.6) else profiles.open_(kind=g.choice(profiles.KINDS), **o[1]))
                more, regs = session_calls(g, letters, h, readers + 1, readers + 2, regs, pos, logs)
                readers += 2
                calls += more
            cases.append({'id': '%s-sessions-%d-%d-%d-%d' % (prop.lower(), d, n, b, k), 'files': [profiles.plain_file(g, x) for x in cs], 'calls': calls, 'apart': logs == 2})
    return {'model': 'MC_Session', 'states': states, 'transitions': trans, 'exhaustive': True, 'invariants': ['InOrder', 'Functional', 'NoInterference', 'OfThatLog', 'SliceSeq = Declared'],
            'bounds': ['depth %d, %d events, undecodable %d%s' % (d, n, b, ' (random walks)' if a else '') for d, n, b, a in jobs], 'behaviours': total, 'behaviours_replayed': replayed}, cases


# ---------------------------------------------------------------------------------------------------- edits

def edit_model(prop, workdir, tier, seed):
    quick = tier != 'thorough'
    g = G('%s/edits/%s' % (prop, seed))
    jobs = [(2, ()), (3, ())] + [(d, ('-simulate', 'num=%d' % (n if quick else 20 * n), '-depth', str(d + 1), '-seed', str(hash_of(seed) + 1))) for d, n in ((6, 8), (14, 8))]
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(lambda j: check('MC_Confs', workdir, {'VERIF_DEPTH': str(j[0])}, args=j[1]), jobs))
    states = trans = total = replayed = 0
    cases = []
    for (d, args), t in zip(jobs, texts):
        st = tlc.stats(t)
        trans, states = trans + st[0], states + st[1]
        letters, start = [json.loads(json.loads('"%s"' % x)) for x in re.search(r'<<\s*"LETTERS",\s*"(.*?)",\s*"(.*?)"\s*>>', t, re.S).groups()]
        hists = [[int(v) for v in h.split(',')] for h in HIST.findall(t)]
        if args:
            hists = list({tuple(h[:-1]): h for h in g.sample(hists, len(hists))}.values())
        total += len(hists)
        hists = g.sample(hists, min(len(hists), 500 if quick else 10 ** 9))
        replayed += len(hists)
        b = P.lst(P.encode(start))
        for k in range(0, len(hists), 10):
            calls, n = [], 0
            for h in hists[k:k + 10]:
                a = n
                n += 2
                calls += [{'op': 'loadconf', 'b': b, 'how': g.choice(['bytes', 'bytesio', 'file'])} if g.maybe(.8) else {'op': 'conf', 'opts': start} for _ in '12']
                for j in h:
                    what, x, e = letters[j - 1]
                    if what == 'edit':
                        calls.append({'op': 'edit', 'x': a + x, 'e': e})
                    elif what == 'load':
                        calls.append({'op': 'loadconf', 'b': b})
                        n += 1
                    else:
                        calls.append({'op': {'dump': 'dumpconf', 'look': 'lookconf'}.get(what, what), 'x': a + x})
                        n += what == 'reload'
                calls += [{'op': o, 'x': a + x} for x in (1, 2) for o in ('lookconf', 'dumpconf')]
            cases.append({'id': '%s-edits-%d-%d' % (prop.lower(), d, k), 'calls': calls})
    return {'model': 'MC_Confs', 'states': states, 'transitions': trans, 'exhaustive': True, 'invariants': ['Sound', 'Apart', 'Narrow'],
            'bounds': ['depth %d%s' % (d, ' (random walks)' if a else '') for d, a in jobs], 'behaviours': total, 'behaviours_replayed': replayed}, cases


# ---------------------------------------------------------------------------------------------------- objects

def object_model(prop, workdir, tier, seed):
    quick = tier != 'thorough'
    g = G('%s/objects/%s' % (prop, seed))
    jobs = [(2, ()), (3, ())] + [(d, ('-simulate', 'num=%d' % (n if quick else 20 * n), '-depth', str(d + 1), '-seed', str(hash_of(seed) + 1))) for d, n in ((6, 6), (12, 6))]
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(lambda j: check('MC_Objects', workdir, {'VERIF_DEPTH': str(j[0])}, args=j[1]), jobs))
    states = trans = total = replayed = 0
    cases = []
    for (d, args), t in zip(jobs, texts):
        st = tlc.stats(t)
        trans, states = trans + st[0], states + st[1]
        letters = json.loads(json.loads('"%s"' % re.search(r'<<\s*"LETTERS",\s*"(.*?)"\s*>>', t, re.S).group(1)))
        hists = [[int(v) for v in h.split(',')] for h in HIST.findall(t)]
        if args:
            hists = list({tuple(h[:-1]): h for h in g.sample(hists, len(hists))}.values())
        total += len(hists)
        hists = g.sample(hists, min(len(hists), {2: 250, 3: 200}.get(d, 100) if quick else 20000))
        replayed += len(hists)
        for k in range(0, len(hists), 10):
            c = profiles.object_content(g, 3)
            calls, n, within = profiles.deliveries(g, 1, 1, 3), 3, g.maybe()
            for h in hists[k:k + 10]:
                # three events of its own, delivered anew
                own = [n + 1, n + 2, n + 3]
                calls += [{'op': 'index', 'r': 1, 'i': i} for i in range(3)]
                n += 3
                res = lambda x: n if x == 4 else own[x - 1]
                for j in h:
                    l = letters[j - 1]
                    if l['k'] == 'again':
                        calls.append({'op': 'index', 'r': 1, 'i': l['i'] - 1})
                    elif l['k'] == 'build':
                        calls.append(profiles.object_call(g, {'k': 'build', 'from': {q: x and res(x) for q, x in l['from'].items()}}, within))
                    elif l['k'] == 'copy':
                        calls.append(profiles.object_call(g, {'k': 'copy', 'x': res(l['x'])}, within))
                    else:
                        calls.append(profiles.object_call(g, {'k': 'set', 'x': res(l['x']), 'q': l['q'], 'y': res(l['y'])}, within))
                    n += l['k'] != 'set'
                calls += [dict({'op': 'look', 'x': x}, **profiles.shown(g)) for x in g.sample(range(own[0], n + 1), 2)]
                calls += [dict({'op': 'eq', 'x': g.randrange(own[0], n + 1), 'y': g.randrange(own[0], n + 1)}) for _ in '12']
            cases.append({'id': '%s-objects-%d-%d' % (prop.lower(), d, k), 'files': [profiles.plain_file(g, c)], 'calls': calls})
    return {'model': 'MC_Objects', 'states': states, 'transitions': trans, 'exhaustive': True, 'invariants': ['Whole', 'Apart', 'Born'],
            'bounds': ['depth %d%s' % (d, ' (random walks)' if a else '') for d, a in jobs], 'behaviours': total, 'behaviours_replayed': replayed}, cases


# ---------------------------------------------------------------------------------------------------- captures

FILE = re.compile(r'<<\s*"F",\s*"([0-9a-f]*)"\s*>>')
PLAIN = {4: 6, 8: 7}          # the layouts without anything remarkable


def capture_model(prop, workdir, tier, seed):
    quick = tier != 'thorough'
    g = G('%s/captures/%s' % (prop, seed))
    lays = list(range(64))
    some = lambda n: g.sample([x for x in lays if x not in PLAIN.values()], n)
    if prop == 'C06':
        jobs = [('crash', 0, 0)]
    elif prop == 'C09':
        jobs = [('layout', x, 0) for x in [6, 7] + (some(6) if quick else [x for x in lays if x not in (6, 7)])]
    else:
        jobs = [('capture', x, 3 if quick else 4) for x in ([6, 7] + some(3) if quick else [6, 7] + some(14))]

    def go(j):
        return check('MC_Capture', workdir, {'VERIF_MODE': j[0], 'VERIF_STRIDE': '64', 'VERIF_PHASE': str(j[1]), 'VERIF_DEPTH': str(j[2])}, seconds=1500)
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(go, jobs))
    states = trans = total = replayed = 0
    cases, plain = [], {}
    for j, t in zip(jobs, texts):
        st = tlc.stats(t)
        trans, states = trans + st[0], states + st[1]
        files = sorted(set(FILE.findall(t)))
        total += len(files)
        if prop == 'C09' and j[1] in (6, 7):
            plain[4 if j[1] == 6 else 8] = files[0]
        limit = {'C09': 40, 'C10': 50, 'C11': 50}.get(prop, 10 ** 9) if quick else 600
        files = files if len(files) <= limit else g.sample(files, limit)
        g.shuffle(files)
        replayed += len(files)
        for k in range(0, len(files), 12):
            group = files[k:k + 12]
            calls, fs, readers = [], [], 0
            if prop == 'C09':
                group = [plain[8 if binascii.a2b_hex(group[0])[8:12] != b'\0\0\0\0' else 4]] + group
            for n, h in enumerate(group):
                fs.append({'segs': [[0, h]]})
                readers += 1
                calls.append(profiles.open_(f=n + 1, kind=g.choice(['bytes', 'file', 'raw', 'sparsebuf', 'only', 'mmap', 'gzip'])))
                raw = binascii.a2b_hex(h)
                base = {'base': True} if prop == 'C09' and n == 0 else {}
                nev = raw[564]
                calls += [dict({'op': 'index', 'r': readers, 'i': i}, **base) for i in range(nev)]
                calls += [dict({'op': 'procs', 'r': readers}, **base), dict({'op': 'sys', 'r': readers}, **base)]
                if prop == 'C06' and g.maybe(.3):
                    calls.append({'op': 'readall', 'f': n + 1, 'how': g.choice(['path', 'stream'])})
            cases.append({'id': '%s-captures-%s-%d-%d' % (prop.lower(), j[0], j[1], k), 'files': fs, 'calls': calls})
    return {'model': 'MC_Capture', 'states': states, 'transitions': trans, 'exhaustive': True, 'invariants': ['Openable', 'Faithful', 'NeverShort'],
            'bounds': ['%s, layout %d, depth %d' % j for j in jobs], 'files': total, 'files_replayed': replayed}, cases


# ---------------------------------------------------------------------------------------------------- configurations

PRINTED = {k: re.compile(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % k) for k in 'PBQ'}
TYPED = re.compile(r'<<\s*"R",\s*(\d+),\s*"([^"]*)"\s*>>')


def printed(kind, text):
    return [json.loads(json.loads('"%s"' % m)) for m in PRINTED[kind].findall(text)]


def conf_model(prop, workdir, tier, seed):
    """Configurations built, cut and altered; rules typed and put together."""
    quick = tier != 'thorough'
    g = G('%s/configurations/%s' % (prop, seed))
    ph = hash_of(seed)
    jobs = []            # module, mode, stride, phase, depth, extra arguments
    walk = lambda n, d: ('-simulate', 'num=%d' % n, '-depth', str(d + 1), '-seed', str(ph + 1))
    if prop in ('C01', 'C02', 'C03'):
        jobs.append(('MC_Pmc', 'build', 1, 0, 2, ()))
        jobs += [('MC_Pmc', 'build', 1, 0, d, walk(n if quick else 20 * n, d)) for d, n in ((6, 12), (25, 3))]
        jobs.append(('MC_Rules', 'typing', 1, 0, 3 if quick else 4, ()))
    elif prop == 'C04':
        n = 3 if quick else 16
        for mode in ('cut', 'alter'):
            st = 16 if quick else 8
            jobs += [('MC_Pmc', mode, st, p % st, 2, ()) for p in range(ph, ph + min(n, st))]
            jobs.append(('MC_Pmc', mode, 64 if quick else 20, ph % 20, 3, ()))
    else:
        jobs += [('MC_Rules', 'parts', 1, 0, 0, ()), ('MC_Rules', 'typing', 1, 0, 2 if quick else 4, ())]
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(lambda j: check(j[0], workdir, dict(zip(('VERIF_MODE', 'VERIF_STRIDE', 'VERIF_PHASE', 'VERIF_DEPTH'), map(str, j[1:5]))), args=j[5]), jobs))
    states = trans = total = replayed = 0
    cases = []

    def add(what, calls, per=40):
        for k in range(0, len(calls), per):
            cases.append({'id': '%s-%s-%d' % (prop.lower(), what, len(cases)), 'calls': calls[k:k + per]})
    for (module, mode, st, p, d, args), t in zip(jobs, texts):
        r = tlc.stats(t)
        trans, states = trans + r[0], states + r[1]
        if mode == 'build':
            got = printed('P', t)
            limit = 1200 if quick else 10 ** 9
            total += len(got)
            got = g.sample(got, min(limit, len(got)))
            replayed += len(got)
            if prop == 'C01':
                add(mode, [{'op': 'roundtrip', 'opts': c} if g.maybe(.8) else {'op': 'roundtrip', 'opts': c, 'how': g.choice(['bytesio', 'file', 'raw']), 'before': []} for c in got])
            elif prop == 'C02':
                add(mode, [{'op': 'redump', 'b': P.lst(P.encode(c))} for c in got])
            else:
                add(mode, [{'op': 'dumps', 'opts': c} for c in got[::2]])
                for k in range(1, len(got), 40):
                    add(mode, [{'op': 'sink', 'b': P.lst(g.bytes(g.choice([0, 7, 400]))), 'p': g.choice([0, 0, 3]), 'kind': g.choice(['bytesio', 'file', 'raw'])}]
                        + [{'op': 'dump', 's': 1, 'opts': c} for c in got[k:k + 40:2]])
        elif mode == 'typing':
            got = [(int(c), json.loads(u)) for c, u in TYPED.findall(t)]
            limit = 3000 if quick else 40000
            total += len(got)
            got = g.sample(got, min(limit, len(got)))
            replayed += len(got)
            rules = [P.rule(g, col=c, val=u) for c, u in got]
            confs = [[{'n': P.us(g.choice(P.RULES)), 'v': {'t': 'rules', 'r': rules[k:k + 30]}}] for k in range(0, len(rules), 30)]
            if prop == 'C05':
                calls = [[{'op': 'rule', 'c': {'k': 'member', 'v': c}, 'r': {'k': 'member', 'v': 0}, 'a': {'k': 'member', 'v': 1}, 'v': {'k': 'text', 'u': u}} for c, u in got[k:k + 30]]
                         for k in range(0, len(got), 30)]
                for cs in calls:
                    add(mode, cs + [{'op': 'ruleeq', 'x': g.randrange(len(cs)) + 1, 'y': g.randrange(len(cs)) + 1} for _ in range(20)], per=100)
            else:
                add(mode, [{'op': 'roundtrip', 'opts': c} if prop == 'C01' else {'op': 'redump', 'b': P.lst(P.encode(c))} if prop == 'C02' else {'op': 'dumps', 'opts': c}
                           for c in confs], per=8)
        elif mode == 'parts':
            got = printed('Q', t)
            total += len(got)
            # those with two wrong parts are many
            n = 4000 if quick else 60000
            got = g.sample(got, min(n, len(got)))
            replayed += len(got)
            for q in got:
                for x in q.values():
                    if x['k'] == 'name' and x['n'] == x['n'].upper():
                        x['style'] = g.choice(['lower', 'upper', 'cap', g.randrange(1 << 16)])
            calls = [dict(q, op='rule', v={'k': 'absent'} if g.maybe(.1) else {'k': 'text', 'u': g.choice([[], [97], [52]])}, kw=g.maybe()) for q in got]
            for k in range(0, len(calls), 40):
                m = min(40, len(calls) - k)
                add(mode, calls[k:k + 40] + [{'op': 'ruleeq', 'x': g.randrange(m) + 1, 'y': g.randrange(m) + 1} for _ in range(20)], per=100)
        else:
            got = [bytes(bytearray(b)) for b in printed('B', t)]
            total += len(got)
            got = g.sample(got, min(len(got), 1500 if quick else 20000))
            replayed += len(got)
            add(mode, [{'op': 'loads', 'b': P.lst(b)} if g.maybe(.8) else {'op': 'loads', 'b': P.lst(b), 'how': g.choice(['bytesio', 'file', 'raw'])} for b in got])
    return {'model': 'MC_Rules' if prop == 'C05' else 'MC_Pmc' if prop == 'C04' else 'MC_Pmc, MC_Rules', 'states': states, 'transitions': trans, 'exhaustive': True,
            'invariants': ['RoundTrip', 'Prefix', 'Refused', 'Local', 'Numbered', 'Stored', 'Built'],
            'bounds': ['%s %s, 1 in %d options, depth %d%s' % (j[0], j[1], j[2], j[4], ' (random walks)' if j[5] else '') for j in jobs],
            'behaviours': total, 'behaviours_replayed': replayed}, cases


# ---------------------------------------------------------------------------------------------------- time

STAMP = re.compile(r'<<\s*"T",\s*"([0-9a-f]{16})",\s*"([0-9a-f]{16})"\s*>>')


def time_model(prop, workdir, tier, seed):
    quick = tier != 'thorough'
    g = G('%s/clock/%s' % (prop, seed))
    ph = hash_of(seed)
    if quick:
        jobs = [('days', 499, (ph * 7 + k * 61) % 499) for k in range(4)] + [('seconds', 60, (ph + k * 30) % 60) for k in range(2)]
    else:
        jobs = [('days', 40, k) for k in range(40)] + [('seconds', 12, k) for k in range(12)]
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(lambda j: check('MC_Time', workdir, dict(zip(('VERIF_MODE', 'VERIF_STRIDE', 'VERIF_PHASE'), map(str, j))), seconds=3000), jobs))
    states = trans = total = 0
    got = []
    for j, t in zip(jobs, texts):
        r = tlc.stats(t)
        trans, states = trans + r[0], states + r[1]
        x = STAMP.findall(t)
        total += len(x)
        got += g.sample(x, min(len(x), 500 if quick else 1500))
    num = lambda h: int.from_bytes(binascii.a2b_hex(h), 'little')
    cases = []
    for k in range(0, len(got), 40):
        c = Content(g.maybe())
        c.strings = ['', 'p.exe', 'C:\\p.exe']
        c.procs = [Proc(7, 100, 4, 0x3e7, 1, 131000000000000000, 0, 0, 1, [0, 1, 1, 2, 1, 0, 0, 0])]
        calls = [profiles.open_()]
        for n, (stamp, span) in enumerate(got[k:k + 40]):
            stamp, span = num(stamp), num(span)
            exits = g.maybe(.3)
            # the stopwatch is shown as a duration, as thread times, and as the time since the first event
            dur = g.choice([span, 0, g.span()]) if stamp + span < 2650467743999999999 else g.span()
            det = u64(span) + u64(g.choice([0, span])) if exits else u32(77)
            c.events.append(Ev(7, 1, V.code(V.PROCESS, 'Thread_Exit' if exits else 'Thread_Create'), u32(0) + det if exits else det, None, TID, dur, stamp, 0, []))
            calls.append({'op': 'next', 'r': 1, 'txt': True} if prop == 'C26' else
                         {'op': 'next', 'r': 1, 'dt': True, 'csv': [None if g.maybe(.2) else str(max(1, stamp - span))]})
        cases.append({'id': '%s-clock-%d' % (prop.lower(), k), 'files': [profiles.plain_file(g, c)], 'calls': calls, 'tz': g.choice(profiles.ZONES)})
    return {'model': 'MC_Time', 'states': states, 'transitions': trans, 'exhaustive': True, 'invariants': ['Right', 'Joined', 'Spans'],
            'bounds': ['%s, 1 in %d, phase %d' % j for j in jobs], 'moments': total, 'moments_replayed': len(got)}, cases


# ---------------------------------------------------------------------------------------------------- threads

ORDER = re.compile(r'<<\s*"S",\s*<<([\d,\s]+)>>\s*>>')


def thread_model(prop, workdir, tier, seed):
    """Two readers in threads of their own: every order of the operations on their streams."""
    quick = tier != 'thorough'
    g = G('%s/threads/%s' % (prop, seed))
    jobs = [('all', 2 if quick else 3, 0), ('export', 2, 3 if quick else 5)]
    with ThreadPoolExecutor(tlc.CORES) as ex:
        texts = list(ex.map(lambda j: check('MC_Threads', workdir, dict(zip(('VERIF_MODE', 'VERIF_THREADS', 'VERIF_DEPTH'), map(str, j)))), jobs))
    states = trans = 0
    for t in texts:
        r = tlc.stats(t)
        trans, states = trans + r[0], states + r[1]
    orders = [[int(x) for x in m.split(',')] for m in ORDER.findall(texts[1])]
    total = len(orders)
    orders = g.sample(orders, min(total, 600 if quick else 6000))
    cases, per = [], 30
    makers = [lambda g, c: gen.read_write(g, c, g.choice(['ReadFile', 'WriteFile'])), gen.create_file, lambda g, c: gen.query_dir(g, c, extra=True),
              lambda g, c: gen.registry(g, c, extra=True), gen.file_event, gen.registry]
    for k in range(0, len(orders), per):
        cs = []
        for _ in (1, 2):
            c = profiles.small_content(g, is64=g.maybe())
            while len(c.events) < 12:
                e = profiles.make_event(g, c, g.choice(makers)(g, c))
                if e.extra is not None or g.maybe(.2):
                    c.events.append(e)
            cs.append(c)
        if g.maybe(.3):
            cs[1] = cs[0]
        files = [profiles.plain_file(g, c) for c in cs]
        nevs = [len(c.events) for c in cs]
        calls, rounds = profiles.alone(2, nevs, {}), [{'grain': 'io'}, {'grain': 'io', 'seed': g.getrandbits(30), 'most': 3}]
        calls += [dict(profiles.open_(f=t, kind=g.choice(profiles.KINDS), step=True), w=1, t=t) for t in (1, 2)]
        at = [0, 0]
        for order in orders[k:k + per]:
            bursts = []
            for t in order:
                if bursts and bursts[-1][0] == t:
                    bursts[-1][1] += 1
                else:
                    bursts.append([t, 1])
            rounds.append({'grain': 'io', 'bursts': bursts})
            for t in (1, 2):
                nxt = at[t - 1] < nevs[t - 1] and g.maybe(.5)
                at[t - 1] += nxt
                calls.append(dict({'op': 'next', 'r': 2 + t} if nxt else {'op': 'index', 'r': 2 + t, 'i': g.randrange(nevs[t - 1])}, w=len(rounds) - 1, t=t))
        cases.append({'id': '%s-threads-%d' % (prop.lower(), k), 'files': files, 'calls': calls, 'rounds': rounds})
    return {'model': 'MC_Threads', 'states': states, 'transitions': trans, 'exhaustive': True, 'invariants': ['Own', 'NeverMixed', 'Linear', 'Telling'],
            'bounds': ['%d threads, three calls each, every order' % jobs[0][1], '2 threads, one call each, %d takeovers' % jobs[1][2]],
            'behaviours': total, 'behaviours_replayed': len(orders)}, cases


def for_property(prop, tier):
    out = []
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05'):
        out.append(('configurations',))
    if prop in ('C19', 'C26'):
        out.append(('clock',))
    if prop == 'C28':
        out.append(('edits',))
    if prop == 'C29':
        out.append(('objects',))
    if prop == 'C30':
        out.append(('threads',))
    if prop in ('C06', 'C09', 'C10', 'C11'):
        out.append(('captures',))
    if prop in ('C07', 'C08', 'C21', 'C27'):
        out.append(('sessions',))
    if prop in FAMILIES:
        out.append(('wires', FAMILIES[prop]))
    return out


def run(model, prop, workdir, tier, seed):
    """-> (what was checked, sessions to replay)"""
    if model[0] == 'wires':
        return wire_model(prop, model[1], workdir, tier, seed)
    if model[0] == 'configurations':
        return conf_model(prop, workdir, tier, seed)
    if model[0] == 'edits':
        return edit_model(prop, workdir, tier, seed)
    if model[0] == 'objects':
        return object_model(prop, workdir, tier, seed)
    if model[0] == 'threads':
        return thread_model(prop, workdir, tier, seed)
    if model[0] == 'clock':
        return time_model(prop, workdir, tier, seed)
    if model[0] == 'captures':
        return capture_model(prop, workdir, tier, seed)
    if model[0] == 'sessions':
        return session_model(prop, workdir, tier, seed)
    raise KeyError(model)
