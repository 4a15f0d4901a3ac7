"""What each property's check tries: generated cases, and which disagreements with the specification concern it.

A profile yields cases; a case is {id, files, calls[, tz]} for a PML session or {id, calls} for a configuration session.
What the calls must answer is decided by TLC against spec/PmlTrace.tla and spec/PmcTrace.tla alone.
"""
import copy
from . import vocab as V
from . import gen, gen_pmc
from .gen import G
from .pml import Content, Layout, Proc, Mod, Ev, build, units, u16, u32, u64

KINDS = ['bytes', 'file', 'raw', 'smallbuf', 'mmap', 'gzip', 'only', 'sparse', 'sparsebuf']
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', '<+0545>-5:45', '<-12>12', '<+14>-14', 'NZST-12NZDT,M9.5.0,M4.1.0/3', '<-0330>3:30']
NONE = 999999999
HOWS = ['str', 'repr', 'hash', 'date', 'localdate', 'csv', 'csv1', 'process', 'modules', 'eq']


class Bag(object):
    def __init__(self, prefix):
        self.cases, self.prefix = [], prefix

    def add(self, files, calls, tz=None, **info):
        c = {'id': '%s%d' % (self.prefix, len(self.cases)), 'calls': calls}
        if files is not None:
            c['files'] = files
        if tz:
            c['tz'] = tz
        c.update(info)
        self.cases.append(c)
        return c


def open_(f=1, st=True, de=True, kind='bytes', **kw):
    return dict({'op': 'open', 'f': f, 'st': st, 'de': de, 'kind': kind}, **kw)


def nexts(n, r=1, **kw):
    return [dict({'op': 'next', 'r': r}, **kw) for _ in range(n)]


def plain_file(g, c, lay=None):
    return gen.plan_file(build(c, lay or gen.layout(g)))


def small_content(g, **kw):
    kw.setdefault('nprocs', 2)
    kw.setdefault('nstrings', 6)
    kw.setdefault('nmods', 1)
    return gen.content(g, **kw)


def make_event(g, c, parts, **kw):
    """parts: what a details generator returns."""
    dated = kw.pop('dated', True)
    res = kw.pop('res', None)
    e = gen.event(g, c, lambda g_, c_: parts, dated=dated, **kw)
    if res is not None:
        e.res = res
    return e


def spread(g, bag, makers, per=24, csv=None, dt=False, tz=None, content=None, kinds=('bytes',), sys=False, procs=False, **evkw):
    """One event per maker(g, content), in files of both pointer sizes; every event read once."""
    makers = decided(makers)
    flip = g.maybe()
    for k in range(0, len(makers), per):
        flip = not flip
        c = (content or small_content)(g, is64=flip)
        for m in makers[k:k + per]:
            p = m(g, c)
            c.events.append(p if isinstance(p, Ev) else make_event(g, c, p, **evkw))
        for _ in range(g.choice([0, 1, 2])):
            c.events.append(echo(g, c))
        cs = [c]
        if g.maybe(.3):
            d = gen.sibling(g, c)
            d.events = d.events[:10]
            cs.append(d)
        calls = []
        for i, c in enumerate(cs):
            calls.append(open_(f=i + 1, kind=g.choice(kinds)))
            if procs:
                calls.append({'op': 'procs', 'r': i + 1})
            if sys:
                calls.append({'op': 'sys', 'r': i + 1})
            for e in c.events:
                call = {'op': 'next', 'r': i + 1}
                if csv:
                    call['csv'] = csv(g, e)
                if dt:
                    call['dt'] = True
                calls.append(call)
        bag.add([plain_file(g, c) for c in cs], calls, tz=tz(g) if tz else None)


SPECIALS = (0, 0xffffffffffffffff, None, 1, 0x8000000080008080, 0x7fffffff7fff7f7f, 0x10000, 0xffff, 0x100000000)


def decided(makers, share=.7):
    """The makers and, beside them, variations in which one number of the record is decided beforehand; which one and how
    takes turns for every operation."""
    makers, seen = list(makers), {}

    def vary(m):
        def make(g, c):
            state, at = g.getstate(), g.drawn
            p = m(g, c)
            if isinstance(p, Ev) or g.drawn == at:
                return p
            key = seen.setdefault(p[:2], {})
            k = min(((k, v) for k in range(g.drawn - at) for v in range(len(SPECIALS))), key=lambda x: (key.get(x, 0), g.random()))
            key[k] = key.get(k, 0) + 1
            g.setstate(state)
            g.force = (g.drawn + 1 + k[0], SPECIALS[k[1]])
            try:
                return m(g, c)
            finally:
                g.force = None
        return make
    out = []
    for i, m in enumerate(makers):
        out.append(m)
        if int((i + 1) * share) > int(i * share):
            out.append(vary(m))
    return out


def echo(g, c):
    """An event again, but for a part taken from another one."""
    e, f = copy.deepcopy(g.choice(c.events)), g.choice(c.events)
    kin = [x for x in c.events if (x.cls, x.op) == (e.cls, e.op)]
    what = g.choice(['det', 'det', 'none', 'when', 'proc', 'tid', 'stack', 'res'])
    if what == 'det':
        x = copy.deepcopy(g.choice(kin))
        e.det, e.extra, e.dsize, e.xoff, e.xsize, e.depth = x.det, x.extra, x.dsize, x.xoff, x.xsize, e.depth
    elif what == 'when':
        e.date, e.dur = f.date, f.dur
    elif what == 'proc':
        e.proc = g.choice(c.procs).idx
    elif what == 'tid':
        e.tid = f.tid
    elif what == 'stack':
        e.stack, e.depth = list(f.stack), f.depth
    elif what == 'res':
        e.res = f.res
    return e


def lone(g, bag, makers, **kw):
    """One event per maker, each in a log of its own."""
    for m in makers:
        c = small_content(g, is64=g.maybe(), **kw)
        c.events.append(make_event(g, c, m(g, c)))
        bag.add([plain_file(g, c)], [open_(), {'op': 'next', 'r': 1}])


def times(n, f):
    return [f] * n


# ---------------------------------------------------------------------------------------------------- configurations

def c01(g, bag, k):
    P = gen_pmc

    def trip(opts, **kw):
        return dict({'op': 'roundtrip', 'opts': opts}, **kw)

    def where(g):
        return {'how': g.choice(['bytesio', 'file', 'raw']), 'before': P.lst(g.bytes(g.choice([0, 1, 7, 16, 100, 1000])))}
    for name in P.KNOWN:
        n = 6 if name in P.RULES else 4
        bag.add(None, [trip([{'n': P.us(name), 'v': P.value(g, name)}], **(where(g) if g.maybe(.3) else {})) for _ in range(n * k)])
    edges = [[{'n': P.us(x), 'v': {'t': 'int', 'b': P.le(v, 4)}} for x in P.INTS] for v in
             [0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff] + [1 << i for i in range(3, 32, 3)]]
    bag.add(None, [trip(o) for o in edges])
    bag.add(None, [trip([{'n': P.us('Columns'), 'v': {'t': 'widths', 'l': l}}]) for l in
                   ([], [0], [65535], [0, 0], [1, 256, 32767, 32768], list(range(100, 140)))])
    for rules in ([P.rule(g, col=c) for c in P.COLS], [P.rule(g, rel=r) for r in P.RELS for _ in range(2)],
                  [P.rule(g, act=a) for a in P.ACTS for _ in range(3)], [P.rule(g, val=P.us(v)) for v in P.NUMBERS],
                  [P.rule(g, val=P.us(P.good(v))) for v in P.ODD], [P.rule(g, col=P.ARCH, val=P.us(P.good(v))) for v in P.NUMBERS + P.ODD]):
        bag.add(None, [trip([{'n': P.us(g.choice(P.RULES)), 'v': {'t': 'rules', 'r': rules}}], **(where(g) if g.maybe() else {}))])
    for n in (P.us(x) for x in P.NEAR + [u'']):
        bag.add(None, [trip([{'n': n, 'v': {'t': 'bytes', 'b': P.lst(g.bytes(m))}}]) for m in (0, 1, 2, 5)])
    near = [x for name in P.KNOWN for x in (name.lower(), name.upper(), P.nearby(g, name)) if x not in P.KNOWN]
    for n in (P.us(x) for x in near):
        bag.add(None, [trip([{'n': n, 'v': {'t': 'bytes', 'b': P.lst(g.bytes(m))}}]) for m in (1, g.choice([0, 2, 4, 12]))])
    for _ in range(30 * k):
        bag.add(None, [trip(P.config(g), **(where(g) if g.maybe() else {})) for _ in range(3)])
    for _ in range(3 * k):
        bag.add(None, [trip(P.config(g, all_known=True), **where(g))])
    big = {'t': 'rules', 'r': [P.rule(g) for _ in range(300)]}
    bag.add(None, [trip([{'n': P.us('FilterRules'), 'v': big}])])
    for name, n in long_ones(g, k, 5):
        bag.add(None, [trip([{'n': P.us('Autoscroll'), 'v': P.value(g, 'Autoscroll')}, P.long_option(g, n, name), {'n': P.us('Profiling'), 'v': P.value(g, 'Profiling')}])])
    bag.add(None, [trip([{'n': P.us('zz'), 'v': P.value(g, 'zz')}, {'n': P.us('y'), 'v': P.value(g, 'y')}]) for _ in range(40 * k)])
    bag.add(None, [trip([{'n': P.us('SymbolPath'), 'v': {'t': 'text', 'u': P.text(g, 3000)}},
                         {'n': P.us('x'), 'v': {'t': 'bytes', 'b': P.lst(g.bytes(5000))}}], how='file', before=[1])])


def long_ones(g, k, any_):
    """Names and lengths of long values: every kind at its longest and at some other length."""
    return [(x, 33000) for x in gen_pmc.LONG] + [(x, None) for x in gen_pmc.LONG * k] + [(None, None)] * any_ * k


def c02(g, bag, k):
    P = gen_pmc
    for _ in range(40 * k):
        bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode(P.config(g)))} for _ in range(3)])
    for name in P.KNOWN:
        bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode([{'n': P.us(name), 'v': P.value(g, name)}]))} for _ in range(5 * k)])
    for _ in range(4 * k):
        bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode(P.config(g, all_known=True)))}])
    for rules in ([P.rule(g, val=P.us(v)) for v in P.NUMBERS], [P.rule(g, col=P.ARCH, val=P.us(P.good(v))) for v in P.ODD],
                  [P.rule(g, col=c) for c in P.COLS], [P.rule(g, rel=r) for r in P.RELS], [P.rule(g, act=a) for a in P.ACTS]):
        bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode([{'n': P.us(n), 'v': {'t': 'rules', 'r': rules}}]))} for n in P.RULES])
    for n in (P.us(x) for x in P.NEAR + [u'']):
        bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode([{'n': n, 'v': {'t': 'bytes', 'b': P.lst(g.bytes(m))}}]))} for m in (0, 1, 2, 5)])
    bag.add(None, [{'op': 'redump', 'b': []}])
    bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode([{'n': P.us('HighlightRules'), 'v': {'t': 'rules', 'r': [P.rule(g) for _ in range(300)]}}]))}])
    for name, n in long_ones(g, k, 1):
        bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode([{'n': P.us('Autoscroll'), 'v': P.value(g, 'Autoscroll')}, P.long_option(g, n, name), {'n': P.us('zz'), 'v': P.value(g, 'zz')}]))}])
    bag.add(None, [{'op': 'redump', 'b': P.lst(P.encode([{'n': P.us('zz'), 'v': P.value(g, 'zz')}, {'n': P.us('y'), 'v': P.value(g, 'y')}]))} for _ in range(30 * k)])


def c03(g, bag, k):
    P = gen_pmc
    for name in P.KNOWN:
        bag.add(None, [{'op': 'dumps', 'opts': [{'n': P.us(name), 'v': P.value(g, name)}]} for _ in range(5 * k)])
    for _ in range(20 * k):
        bag.add(None, [{'op': 'dumps', 'opts': P.config(g)} for _ in range(3)])
    bag.add(None, [{'op': 'dumps', 'opts': [{'n': P.us('HighlightRules'), 'v': {'t': 'rules', 'r': [P.rule(g) for _ in range(300)]}}]}])
    for name, n in long_ones(g, k, 1):
        bag.add(None, [{'op': 'dumps', 'opts': [{'n': P.us('Autoscroll'), 'v': P.value(g, 'Autoscroll')}, P.long_option(g, n, name), {'n': P.us('zz'), 'v': P.value(g, 'zz')}]}])
    for rules in ([P.rule(g, val=P.us(v)) for v in P.NUMBERS], [P.rule(g, col=P.ARCH, val=P.us(v)) for v in P.NUMBERS],
                  [P.rule(g, val=P.us(P.good(v))) for v in P.ODD], [P.rule(g, col=P.ARCH, val=P.us(P.good(v))) for v in P.ODD],
                  [P.rule(g, col=c) for c in P.COLS], [P.rule(g, rel=r) for r in P.RELS], [P.rule(g, act=a) for a in P.ACTS]):
        bag.add(None, [{'op': 'dumps', 'opts': [{'n': P.us(g.choice(P.RULES)), 'v': {'t': 'rules', 'r': rules}}]}])
    for _ in range(30 * k):
        calls, sinks = [], g.choice([1, 1, 2])
        for _ in range(sinks):
            before = P.lst(g.bytes(g.choice([0, 0, 1, 5, 16, 64, 300])))
            p = g.choice([0, len(before), len(before) // 2, max(0, len(before) - 3), len(before) + g.choice([0, 1, 9])])
            calls.append({'op': 'sink', 'b': before, 'p': p, 'kind': g.choice(['bytesio', 'file', 'raw'])})
        for _ in range(g.choice([1, 2, 3])):
            calls.append({'op': 'dump', 's': g.randrange(sinks) + 1, 'opts': P.config(g, g.choice([0, 1, 2, 3, 5]))})
        bag.add(None, calls)
    # sinks that already hold much
    for n in [4095, 4096, 4097, g.randrange(4098, 9000), 65535 + g.randrange(3)] * k:
        before = P.lst(g.bytes(n))
        calls = [{'op': 'sink', 'b': before, 'p': g.choice([n, n, n - 3, n // 2, n - g.randrange(n // 8), n + 5]), 'kind': g.choice(['bytesio', 'file', 'raw'])}]
        bag.add(None, calls + [{'op': 'dump', 's': 1, 'opts': P.config(g, g.choice([1, 2, 3]))} for _ in range(2)])


def corruptions(g, b, recs):
    """Damaged copies of a record sequence: each size field of each record, several ways."""
    import struct
    for o in recs:
        total, head, hn, data = struct.unpack_from('<IIII', b, o)
        for at, vals in ((0, [total + 1, total - 1, total + 2, total ^ 0x100, 0, 16, 0xffffffff, total + 0x10000, total | 0x80000000]),
                         (4, [0, 15, 17, 32, 0x10000010, 16 << 8, 0xffffffff]),
                         (8, [hn + 2, hn - 2, hn + 16, 0, 0xffffffff, hn + 1]),
                         (12, [data + 1, data - 1, data + 4, 0xffffffff, data + 0x1000000, data ^ 2])):
            for v in vals:
                d = bytearray(b)
                d[o + at:o + at + 4] = u32(v)
                yield bytes(d)


def starts(b):
    import struct
    o, out = 0, []
    while o < len(b):
        out.append(o)
        o += struct.unpack_from('<I', b, o)[0]
    return out


def c04(g, bag, k):
    P = gen_pmc
    hows = ['bytes', 'bytesio', 'file', 'raw']
    for i in range(14 * k):
        if i < 4:
            opts = [{'n': P.us(n), 'v': P.value(g, n)} for n in [('FilterRules', 'Columns'), ('LogFont', 'SourcePath', 'Logfile'),
                                                                ('ColumnMap', 'HighlightRules', 'zz'), ('AdvancedMode', 'BoookmarkFont')][i]]
        else:
            opts = P.config(g, g.choice([1, 2, 3]))
        b = P.encode(opts, g, noise=g.maybe(.3))
        cuts = list(range(len(b) + 1))
        if len(b) > 400:
            keep = set(x + d for x in starts(b) for d in (-2, -1, 0, 1, 2, 15, 16, 17)) | set(g.sample(cuts, 150)) | {len(b)}
            cuts = [x for x in cuts if x in keep]
        for j in range(0, len(cuts), 60):
            bag.add(None, [{'op': 'loads', 'b': P.lst(b[:x]), 'how': g.choice(hows) if g.maybe(.2) else 'bytes'} for x in cuts[j:j + 60]])
    for name in P.LONG * k:
        b = P.encode([P.long_option(g, g.choice([1030, 2050, 2050, 4100]), name)] + [{'n': P.us(n), 'v': P.value(g, n)} for n in g.sample(['Autoscroll', 'zz', 'LogFont'], 2)], g)
        ends = starts(b)
        cuts = [len(b)] + g.sample([x + d for x in ends for d in (-1, 0, 1, 15) if 0 <= x + d < len(b)], 4) + [g.randrange(len(b)) for _ in range(3)]
        bag.add(None, [{'op': 'loads', 'b': P.lst(b[:x]), 'how': 'bytes'} for x in cuts])
    for _ in range(5 * k):
        b = P.encode(P.config(g, g.choice([1, 2, 3])), g)
        if len(b) > 1500:
            continue
        bad = list(corruptions(g, b, starts(b)))
        for j in range(0, len(bad), 60):
            bag.add(None, [{'op': 'loads', 'b': P.lst(x), 'how': g.choice(hows) if g.maybe(.2) else 'bytes'} for x in bad[j:j + 60]])
        # damaged and cut
        bag.add(None, [{'op': 'loads', 'b': P.lst(x[:g.randrange(len(x) + 1)])} for x in g.sample(bad, min(40, len(bad)))])
        # cut and continued by something else
        bag.add(None, [{'op': 'loads', 'b': P.lst(b + x)} for x in (b'\0' * 16, b'\0' * 40, u32(16) * 4, g.bytes(16), g.bytes(40), b'\x10', u32(48) + u32(16) + u32(32) + u32(16))])


ENUMS = [('c', 'COLUMNS'), ('r', 'RELATIONS'), ('a', 'ACTIONS')]
TABLES = {'c': V.COLUMNS, 'r': V.RELATIONS, 'a': V.ACTIONS}


def part(g, which, code, form=None):
    form = g.choice(['name', 'member', 'number']) if form is None else form
    if form == 'name':
        return {'k': 'name', 'n': TABLES[which][code], 'style': g.choice(['lower', 'upper', 'cap', g.getrandbits(16)])}
    return {'k': form, 'v': code}


def bad_part(g, which):
    t = TABLES[which]
    name = g.choice(sorted(t.values()))
    r = g.randrange(4)
    if r == 0:
        n = g.choice([name + 'X', name[:-1], ' ' + name, name + ' ', '', name + '_', name.replace('_', ' ') if '_' in name else name + 'S',
                      name + name, '40052', '0', 'NAME', '__CLASS__', 'MEMBERS', 'VALUE'])
        if n.upper() in t.values():
            n = ''
        return {'k': 'name', 'n': n, 'style': g.choice(['lower', 'upper'])}
    if r == 1:
        while True:
            v = g.choice([min(t) - 1, max(t) + 1, -1, 0x10000 + min(t), min(t) + 256 * 256 * 256, g.choice(sorted(t)) ^ 0x8000,
                          g.choice(sorted(t)) + 0x100, 99999, -g.choice(sorted(t)) - 2])
            if v not in t:
                return {'k': 'number', 'v': v}
    if r == 2:
        return {'k': 'bad', 'what': g.choice(['None', 'list', 'float', 'bytes', 'object'])}
    other = [x for x in 'cra' if x != which]
    n = g.choice(sorted(TABLES[g.choice(other)].values()))
    if n in t.values():
        n = 'NOPE'
    return {'k': 'name', 'n': n, 'style': 'upper'}


def c05(g, bag, k):
    P = gen_pmc

    def rule(g, c, r, a, u, **kw):
        return {'op': 'rule', 'c': part(g, 'c', c, kw.get('form')), 'r': part(g, 'r', r, kw.get('form')),
                'v': {'k': 'text', 'u': u}, 'a': part(g, 'a', a, kw.get('form')), 'kw': g.maybe(.3)}

    def eqs(g, n, m):
        return [{'op': 'ruleeq', 'x': g.randrange(n) + 1, 'y': g.randrange(n) + 1} for _ in range(m)]
    # every name of every vocabulary, every way of saying it
    for c in P.COLS:
        u = P.rule_value(g)
        r, a = g.choice(P.RELS), g.choice(P.ACTS)
        rs = [rule(g, c, r, a, u, form=f) for f in ('name', 'name', 'member', 'number')]
        bag.add(None, rs + [{'op': 'ruleeq', 'x': x, 'y': y} for x in range(1, 5) for y in range(1, 5)])
    for c, r, a in [(g.choice(P.COLS), r, a) for r in P.RELS for a in P.ACTS]:
        u = P.rule_value(g)
        rs = [rule(g, c, r, a, u, form=f) for f in ('name', 'member', 'number')]
        rs += [rule(g, g.choice([x for x in P.COLS if x != c]), r, a, u), rule(g, c, g.choice([x for x in P.RELS if x != r]), a, u),
               rule(g, c, r, g.choice([x for x in P.ACTS if x != a]), u), rule(g, c, r, a, u + [120])]
        rs.append(rule(g, c, r, a, u[:-1] if u else [0x41]))
        bag.add(None, rs + [{'op': 'ruleeq', 'x': 1, 'y': y} for y in range(1, 9)] + [{'op': 'ruleeq', 'x': y, 'y': 2} for y in range(4, 9)]
                + [{'op': 'rulevs', 'x': 1, 'what': w} for w in ('None', 'str', 'tuple', 'dict', 'object', 'int', 'column')])
    for _ in range(40 * k):
        pool = [(g.choice(P.COLS[:3] + P.COLS[-2:]), g.choice(P.RELS[:3]), g.choice(P.ACTS), g.choice([P.us('x'), P.us('X'), P.us(''), P.us('x '), P.us(u'\u00e9')]))
                for _ in range(3)]
        rs = [rule(g, *g.choice(pool)) for _ in range(6)]
        bag.add(None, rs + eqs(g, 6, 10))
    # parts that are given anew
    for _ in range(12 * k):
        pool = [(g.choice(P.COLS), g.choice(P.RELS), g.choice(P.ACTS), g.choice([P.us('x'), P.us('y'), P.us(''), P.rule_value(g)])) for _ in range(2)]
        calls = [rule(g, *g.choice(pool)) for _ in range(3)] + [rule(g, *q) for q in pool]
        calls += [{'op': 'ruleeq', 'x': x, 'y': y} for x in range(1, 6) for y in range(x, 6)]
        for _ in range(6):
            x, y = g.randrange(5) + 1, g.randrange(5) + 1
            calls.append({'op': 'ruleset', 'x': x, 'y': y, 'part': g.choice(['column', 'relation', 'value', 'action'])})
            calls += [{'op': 'ruleeq', 'x': x, 'y': z} for z in range(1, 6)]
        # part by part into the other
        calls += [c for part in ('column', 'relation', 'value', 'action') for c in (
            {'op': 'ruleset', 'x': 4, 'y': 5, 'part': part}, {'op': 'ruleeq', 'x': 4, 'y': 5}, {'op': 'ruleeq', 'x': 5, 'y': 4})]
        bag.add(None, calls)
    # parts that are not given
    for _ in range(12 * k):
        u = g.choice([P.us('64-bit'), P.us('32-bit'), P.us('x')])
        full = rule(g, P.ARCH if g.maybe() else g.choice(P.COLS), g.choice(P.RELS[:2]), g.choice(P.ACTS), u)
        rs = [full]
        for bits in g.sample(range(1, 16), 6):
            q = dict(full)
            for i, w in enumerate('crva'):
                if bits >> i & 1:
                    q[w] = {'k': 'absent'}
            rs.append(q)
        bag.add(None, rs + [{'op': 'ruleeq', 'x': x, 'y': y} for x in range(1, 8) for y in range(x, 8)])
    # values that differ in next to nothing
    near = [[u'x', u'X', u'x ', u' x', u'xx', u'x\0x', u''], [u'Procmon.exe', u'procmon.exe', u'PROCMON.EXE', u'Procmon.exe ', u'Procmon,exe'],
            [u'1', u'01', u'1 ', u'+1', u'1.0', u'\uff11', u'\u0661'], [u'\u00e9', u'e\u0301', u'\u00c9', u'e'], [u'\u00df', u'ss', u'SS', u'\u1e9e'],
            [u'C:\\a', u'C:/a', u'C:\\a\\', u'c:\\A'], [u'\U0001f600', u'\U0001f601', u'\ufffd'], [u'None', u'none', u''], [u'True', u'true', u'1'],
            [u'\u212a', u'k', u'K'], [u'\u0131', u'i', u'I', u'\u0130'], [u'a\nb', u'a\r\nb', u'a b'], [u'32', u'64', u'32-bit', u'64-bit']]
    near += [[u'ab'] + [x + u'ab' for x in P.ENDS[i:i + 4]] + [u'ab' + x for x in P.ENDS[i:i + 4]] for i in range(0, len(P.ENDS), 4)]
    near += [[u'ab', u'ab\0', u'\0ab', u'ab\0\0'], P.ENDS]
    for vs in near:
        for c in (g.choice(P.COLS), P.ARCH):
            r, a = g.choice(P.RELS), g.choice(P.ACTS)
            rs = [rule(g, c, r, a, P.us(v)) for v in vs]
            m = len(rs)
            bag.add(None, rs + [{'op': 'ruleeq', 'x': x, 'y': y} for x in range(1, m + 1) for y in range(1, m + 1)])
    for _ in range(20 * k):
        calls = []
        for _ in range(8):
            q = rule(g, g.choice(P.COLS), g.choice(P.RELS), g.choice(P.ACTS), P.rule_value(g))
            w = g.choice('cra')
            q[w] = bad_part(g, w)
            calls.append(q)
        q = rule(g, g.choice(P.COLS), g.choice(P.RELS), g.choice(P.ACTS), [])
        for what in ('None', 'int', 'bytes', 'list', 'bool', 'column', 'bytearray', 'UserString', 'encodes'):
            q = dict(q)
            q['v'] = {'k': 'bad', 'what': what}
            calls.append(q)
        bag.add(None, calls)
    bad = []
    for n in P.RULES:
        for w in ('rule.int', 'rule.None', 'rule.bytes', 'rule.list', 'elem.str', 'elem.None', 'elem.int', 'elem.tuple', 'elem.dict',
                  'int', 'None', 'rule', 'float', 'object'):
            bad.append({'op': 'dumpbad', 'name': n, 'what': w, 'first': g.maybe(), 'second': g.maybe()})
    for n in P.TEXTS + P.CTEXTS:
        for w in ('int', 'None', 'bytes', 'list', 'rule', 'float', 'object', 'rulelist'):
            bad.append({'op': 'dumpbad', 'name': n, 'what': w, 'first': False, 'second': g.maybe()})
    bag.add(None, bad)


# ---------------------------------------------------------------------------------------------------- opening

def simple_content(g, n=3, is64=None, unique=True):
    """A small log of simple events, each with its own thread id and time."""
    c = gen.content(g, nprocs=2, nstrings=5, nmods=1, is64=is64, hosts=1, ports=1)
    for i in range(n):
        cls, op, det, x = g.choice([gen.process, gen.profiling, gen.registry, gen.network])(g, c)
        e = make_event(g, c, (cls, op, det, x))
        e.tid, e.date, e.dur = 100 + i, 131000000000000000 + 10 ** 7 * i + i, i
        c.events.append(e)
    return c


def patched(segs, at, raw):
    out = [(o, bytearray(b)) for o, b in segs]
    for o, b in out:
        if o <= at and at + len(raw) <= o + len(b):
            b[at - o:at - o + len(raw)] = raw
    return [(o, bytes(b)) for o, b in out]


OFFSETS = {'events': 576, 'index': 584, 'processes': 592, 'strings': 600, 'icons': 608, 'hosts': 928, 'headersize': 920}


def c06(g, bag, k):
    kinds = ['bytes', 'file', 'raw', 'sparsebuf', 'only', 'mmap', 'gzip']

    def tries(segs_list, g=g):
        files, calls = [], []
        for s in segs_list:
            files.append(gen.plan_file(s))
            calls.append(open_(f=len(files), kind=g.choice(kinds), st=g.maybe(.8), de=g.maybe(.8), explicit=g.maybe(.2)))
            if g.maybe(.2):
                calls.append({'op': 'readall', 'f': len(files), 'how': g.choice(['path', 'stream'])})
        bag.add(files, calls)
    for rep in range(2 * k):
        c = simple_content(g, g.choice([0, 1, 3]), is64=rep % 2 == 0)
        segs = build(c, gen.layout(g))
        flat = segs[0][1]
        tries([segs])
        # truncated anywhere in the header
        cuts = list(range(1, 937))
        if rep > 1:
            cuts = g.sample(cuts, 150)
        for i in range(0, len(cuts), 40):
            tries([[(0, flat[:x])] for x in cuts[i:i + 40]])
        # signature, version
        muts = []
        for i in range(4):
            for v in (0, 0xff, flat[i] ^ 0x20, flat[i] ^ 1, g.u8()):
                if v != flat[i]:
                    muts.append(patched(segs, i, bytes(bytearray([v]))))
        for v in [0, 1, 2, 8, 10, 11, 0x900, 0x90000, 0x9000000, 0x109, 0x10009, 0x80000009, 0xffffffff, 9 << 4]:
            muts.append(patched(segs, 4, u32(v)))
        # each required offset zero, or only part of it non-zero
        for name, at in sorted(OFFSETS.items()):
            if name != 'headersize':
                muts.append(patched(segs, at, u64(0)))
        both = list(OFFSETS)
        for _ in range(8):
            s = segs
            for name in g.sample(both, 2):
                s = patched(s, OFFSETS[name], u64(0))
            muts.append(s)
        for v in [0, 0x3a7, 0x3a9, 0x3a0, 0xa803, 0x1000003a8, 0x100000000000003a8 & (2 ** 64 - 1), 0x8000000000000000 | 0x3a8, 0x3a8 << 8, 0x400, 0x103a8, 0x2a8, 1]:
            muts.append(patched(segs, OFFSETS['headersize'], u64(v)))
        # several faults at once
        for _ in range(10):
            s = segs
            for f in g.sample(['sig', 'ver', 'size', 'zero', 'cut'], g.choice([2, 3])):
                if f == 'sig':
                    s = patched(s, g.randrange(4), b'\x01')
                elif f == 'ver':
                    s = patched(s, 4, u32(g.choice([0, 8, 10])))
                elif f == 'size':
                    s = patched(s, 920, u64(g.choice([0, 0x3a0])))
                elif f == 'zero':
                    s = patched(s, OFFSETS[g.choice(['events', 'index', 'processes', 'strings', 'icons', 'hosts'])], u64(0))
                else:
                    s = [(0, s[0][1][:g.choice([g.randrange(0, 936), g.randrange(0, 12)])])]
            muts.append(s)
        # not faults: everything else in the header may be anything
        for _ in range(12):
            at, n = g.choice([(8, 4), (12, 32), (44, 0x208), (564 + 4, 8), (616, 12), (628, 16), (644, 0x100), (900, 8), (908, 4), (912, 8)])
            muts.append(patched(segs, at, g.bytes(n) if at not in (8,) else u32(g.u32()) if False else g.bytes(0)))
        g.shuffle(muts)
        for i in range(0, len(muts), 30):
            tries(muts[i:i + 30])
    bag.add([gen.plan_file([(0, b'\0')])], [open_(kind='file')])
    # nothing at all, or no more than the first bytes
    bag.add([gen.plan_file([(0, flat[:x])]) for x in (0, 1, 2, 3)], [open_(f=x + 1, kind=kd) for x in range(4) for kd in kinds if x or kd != 'mmap']
            + [{'op': 'readall', 'f': x + 1, 'how': h} for x in range(4) for h in ('path', 'stream')])
    # far table offsets are non-zero whatever their low half
    for which in ('events', 'index', 'processes', 'strings', 'hosts'):
        c = simple_content(g, 2)
        order = [x for x in ['events', 'index', 'processes', 'strings', 'icons', 'hosts'] if x not in (which, 'hosts')]
        lay = Layout(g, order=order + ([which] if which != 'hosts' else []) + ['hosts'], noise=True)
        bag.add([gen.plan_file(align_table(c, lay, which, 1 << 32))], [open_(kind=g.choice(['sparse', 'sparsebuf'])), {'op': 'len', 'r': 1}] + nexts(2))


def align_table(c, lay, which, at):
    """The layout with one table moved to exactly the given offset."""
    segs = build(c, lay)
    import struct
    head = segs[0][1]
    off = struct.unpack_from('<Q', head, OFFSETS[which])[0]
    # the table and whatever follows it (the hosts, which are read up to the end of the file) move
    out = []
    for o, b in segs:
        if o + len(b) <= off:
            out.append((o, b))
        elif o >= off:
            out.append((o - off + at, b))
        else:
            out.append((o, b[:off - o]))
            out.append((at, b[off - o:]))
    for name in sorted(OFFSETS):
        o = struct.unpack_from('<Q', head, OFFSETS[name])[0]
        if name != 'headersize' and o >= off:
            out = patched(out, OFFSETS[name], u64(o - off + at))
    return out


# ---------------------------------------------------------------------------------------------------- sessions

def baseline(f, n, kind='bytes', **kw):
    """A fresh reader that reads every event once by index; the register numbers it takes are the first n."""
    return [open_(f=f, kind=kind, **kw)] + [{'op': 'index', 'r': 0, 'i': i, 'base': True} for i in range(n)]


def with_reader(calls, r):
    return [dict(c, r=r) if 'r' in c and c['op'] != 'open' else c for c in calls]


def random_session(g, nevs, steps, nfiles, kinds=KINDS, faults=False, quiet=True, options=False, share=True):
    """nevs: number of events per file.  Begins with a baseline reader per file."""
    calls, readers, regs = [], [], 0
    for f in range(nfiles):
        b = baseline(f + 1, nevs[f])
        calls += with_reader(b, len(readers) + 1)
        readers.append([f + 1, 'bytes', True])
        regs += nevs[f]
        for c in calls:
            if c['op'] == 'open':
                c.setdefault('base', True)

    def opener():
        f = g.randrange(nfiles) + 1
        o = {'st': True, 'de': True} if not options else {'st': g.maybe(), 'de': g.maybe(), 'explicit': g.maybe(), 'positional': g.maybe(.3)}
        c = open_(f=f, kind='faulty' if faults else g.choice(kinds), **o)
        same = [i + 1 for i, r in enumerate(readers) if r[0] == f and i >= nfiles]
        if share and same and g.maybe(.35):
            c['share'] = g.choice(same)
            c['kind'] = readers[c['share'] - 1][1]
        readers.append([f, c['kind'], True])
        return c
    calls.append(opener())
    if g.maybe():
        calls.append(opener())
    for _ in range(steps):
        r = g.randrange(nfiles, len(readers)) + 1
        f = readers[r - 1][0]
        n = nevs[f - 1]
        x = g.random()
        fault = {'faultat': g.choice([0, 0, 1, 2, 3, 4, 5, 6, 8])} if faults and readers[r - 1][1] == 'faulty' and g.maybe(.4) else {}
        if x < .33:
            calls.append(dict({'op': 'next', 'r': r}, **fault))
            regs += 1
        elif x < .6:
            i = g.choice([g.randrange(-n, n) if n else 0, 0, -1, n - 1, -n, g.randrange(-n, n) if n else -1] + ([n, -n - 1] if g.maybe(.3) else []))
            c = dict({'op': 'index', 'r': r, 'i': i}, **fault)
            if g.maybe(.04):
                big = g.choice([1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 64, -(1 << 31) - 1, -(1 << 32), -(1 << 64)])
                c = {'op': 'index', 'r': r, 'i': 10 ** 8 if big > 0 else -10 ** 8, 'big': str(big)}
            if g.maybe(.05):
                c['as'] = g.choice(['bool', 'member'])
            calls.append(c)
            regs += 1
        elif x < .72:
            p = lambda: g.choice([NONE, 0, 1, -1, n, -n, n + 1, -n - 1, n - 1, g.randrange(-n - 2, n + 3), 5 * n + 7, -5 * n - 7])
            calls.append({'op': 'slice', 'r': r, 'a': p(), 'b': p(), 'c': g.choice([NONE, NONE, 1, 2, 3, -1, -1, -2, n, -n, n + 1, 0 if g.maybe(.3) else 1])})
            if calls[-1]['c'] == 0 and not g.maybe(.5):
                calls[-1]['c'] = NONE
        elif x < .76:
            calls.append({'op': 'len', 'r': r})
        elif x < .79:
            calls.append({'op': 'drain', 'r': r})
        elif x < .81:
            calls.append({'op': 'reversed', 'r': r})
        elif x < .83:
            calls.append({'op': 'procs', 'r': r})
        elif x < .85:
            calls.append({'op': 'sys', 'r': r})
        elif x < .87:
            calls.append({'op': 'badindex', 'r': r, 'v': g.choice(['str', 'float', 'None', 'list', 'tuple'])})
        elif x < .89:
            c = {'op': 'readall', 'f': f, 'how': g.choice(['path', 'stream'])}
            if c['how'] == 'stream':
                c['kind'] = g.choice(kinds)
            calls.append(c)
        elif x < .92 and len(readers) < nfiles + 5:
            calls.append(opener())
        elif quiet:
            y = g.random()
            if y < .4:
                calls.append({'op': 'quiet', 'do': 'seek', 'r': r, 'pos': g.choice([0, 1, 936, 5, 4096, 10 ** 6, 60])})
            elif y < .5:
                calls.append({'op': 'quiet', 'do': 'iter', 'r': r})
            elif y < .6:
                calls.append({'op': 'quiet', 'do': 'abandon', 'r': r})
            elif y < .65 and regs:
                calls.append({'op': 'look', 'x': g.randrange(regs) + 1})
            elif regs:
                calls.append({'op': 'quiet', 'do': 'mutate', 'x': g.randrange(regs) + 1, 'what': g.choice(['details', 'stack', 'lists', 'fields', 'process', 'all'])}
                             if quiet == 'mutate' else {'op': 'quiet', 'do': 'proclist', 'r': r})
            else:
                calls.append({'op': 'quiet', 'do': 'sysdict', 'r': r})
    return calls


def c07(g, bag, k):
    for i in range(45 * k):
        nfiles = g.choice([1, 1, 2])
        cs = [simple_content(g, g.choice([0, 1, 2, 3, 4, 5])) for _ in range(nfiles)]
        if nfiles == 2 and g.maybe(.4):
            cs[1] = cs[0]
        files = [plain_file(g, c) for c in cs]
        bag.add(files, random_session(g, [len(c.events) for c in cs], 16, nfiles))
    for _ in range(6 * k):
        c = repeated(g, simple_content(g, g.choice([2, 3, 4, 5])))
        n = len(c.events)
        bag.add([plain_file(g, c)], random_session(g, [n], 8, 1) + [{'op': 'readall', 'f': 1, 'how': h} for h in ('path', 'stream')])
    # every index and every slice of small logs
    for n in (0, 1, 2, 3):
        c = simple_content(g, n)
        f = [plain_file(g, c)]
        base = with_reader(baseline(1, n), 1) + [open_(kind=g.choice(KINDS))]
        bag.add(f, base + [{'op': 'index', 'r': 2, 'i': i} for i in range(-n - 2, n + 3)])
        parts = [NONE] + list(range(-n - 2, n + 3))
        sl = [{'op': 'slice', 'r': 2, 'a': a, 'b': b, 'c': s} for a in parts for b in parts for s in (NONE, 1, 2, -1, -2, n + 1, -n - 1)]
        if n > 1:
            sl = g.sample(sl, 220)
        g.shuffle(sl)
        bag.add(f, base + sl)
    # a longer log, iterated to the end and beyond
    c = simple_content(g, 80)
    f = [plain_file(g, c)]
    calls = with_reader(baseline(1, 80), 1) + [open_(kind='file'), open_(kind='raw', share=2)]
    for i in range(84):
        calls += [{'op': 'next', 'r': 2}, {'op': 'index', 'r': 3, 'i': g.randrange(80)}]
        if i % 9 == 0:
            calls.append({'op': 'next', 'r': 3})
    bag.add(f, calls + [{'op': 'drain', 'r': 2}, {'op': 'next', 'r': 2}, {'op': 'len', 'r': 2}, {'op': 'drain', 'r': 3}, {'op': 'next', 'r': 3}])


def repeated(g, c):
    """The same record more than once in the index."""
    n = len(c.events)
    for i in range(n):
        if g.maybe(.5):
            j = g.randrange(n)
            if j != i and j not in c.again and i not in c.again.values():
                c.again[i] = j
    return c


def damage(g, c):
    """Turns one event of the content into one whose record cannot be decoded."""
    i = g.randrange(len(c.events))
    e = c.events[i]
    r = g.randrange(7)
    if r == 0:
        e.proc = 0xdeadbeef
    elif r == 1:
        e.cls = g.choice([0, 6, 7, 0xffffffff])
    elif r == 2:
        e.op = g.choice([200, 0xffff])
    elif r == 3:
        e.cls, e.op, e.det, e.extra = 3, V.code(V.FILE, 'CreateFile'), g.bytes(g.choice([0, 3, 30])), None
    elif r == 4:
        e.cls, e.op, e.det, e.extra = 2, V.code(V.REGISTRY, 'RegOpenKey'), u16(500) + g.bytes(2) + u32(1) + b'ab', None
    elif r == 5:
        e.cls, e.op, e.det, e.extra = 2, V.code(V.REGISTRY, 'RegQueryKey'), u16(0x8001) + g.bytes(2) + u32(1) + u32(3) + b'k', b'\0' * g.choice([0, 1, 20])
    else:
        e.dsize = g.choice([0x7fffffff, 0xffffffff, 0x100000])
    return i


def c08(g, bag, k):
    for i in range(50 * k):
        c = simple_content(g, g.choice([2, 3, 4, 6]))
        faults = i % 2 == 0
        if i % 3 == 0 or not faults:
            for _ in range(g.choice([1, 1, 2])):
                damage(g, c)
        lay = gen.layout(g)
        calls = random_session(g, [len(c.events)], 22, 1, faults=faults, quiet='mutate', share=True)
        bag.add([plain_file(g, c, lay)], calls)
    # every fault point of one access, then the same event and the others again
    for i in range(6 * k):
        c = simple_content(g, 3)
        how = g.choice(['next', 'index'])
        for at in range(0, 14):
            calls = with_reader(baseline(1, 3), 1) + [open_(kind='faulty')]
            if how == 'next':
                calls += [{'op': 'next', 'r': 2, 'faultat': at}] + nexts(3, 2)
            else:
                calls += [{'op': 'index', 'r': 2, 'i': 1, 'faultat': at}, {'op': 'index', 'r': 2, 'i': 1}]
            calls += [{'op': 'index', 'r': 2, 'i': j} for j in range(3)] + [{'op': 'procs', 'r': 2}]
            bag.add([plain_file(g, c)], calls)
    # delivered objects are changed in every way, then everything is read again
    for i in range(10 * k):
        c = simple_content(g, 3)
        p = gen.process(g, c, V.code(V.PROCESS, 'Process_Start'))
        c.events.append(make_event(g, c, p))
        c.events.append(make_event(g, c, gen.set_value(g, c)))
        for e in c.events[:2]:
            e.stack = []
        n = len(c.events)
        calls = with_reader(baseline(1, n), 1) + [open_(kind=g.choice(KINDS))]
        for j in range(n):
            calls.append({'op': 'index', 'r': 2, 'i': j})
            calls.append({'op': 'quiet', 'do': 'mutate', 'x': n + j + 1, 'what': g.choice(['details', 'stack', 'lists', 'fields', 'process', 'all', 'all'])})
        calls += [{'op': 'index', 'r': 2, 'i': j} for j in range(n)]
        calls += nexts(n, 2) + [{'op': 'index', 'r': 1, 'i': j} for j in range(n)] + [{'op': 'readall', 'f': 1}]
        bag.add([plain_file(g, c)], calls)
    # events with nothing in them, twice each: what one of them is made to hold does not show in another
    for i in range(4 * k):
        c = small_content(g)
        ms = [t for t, n in V.REGTYPES.items() if n == 'REG_MULTI_SZ'][0]
        pi, pb = gen.reg_path(g)
        empty = [(1, V.code(V.PROCESS, 'Process_Start'), u32(g.u32()) + u16(0) * 2 + u32(0), None),
                 (1, V.code(V.PROCESS, 'Process_Start'), u32(g.u32()) + u16(0) * 2 + u32(2) + b'\0' * 4, None),
                 (2, V.code(V.REGISTRY, 'RegSetValue'), u16(pi) + b'\0\0' + u32(ms) + u32(2) * 2 + pb + b'\0\0', None),
                 (2, V.code(V.REGISTRY, 'RegSetValue'), u16(pi) + b'\0\0' + u32(ms) + u32(4) * 2 + pb + b'\0' * 4, None),
                 gen.query_dir(g, c, names=[]),
                 gen.network(g, c), gen.read_write(g, c, 'ReadFile'), gen.profiling(g, c)]
        for parts in empty:
            for _ in (0, 1):
                c.events.append(make_event(g, c, parts))
                c.events[-1].stack = []
        n = len(c.events)
        calls = with_reader(baseline(1, n), 1) + [open_(kind=g.choice(KINDS))]
        for j in range(n):
            calls.append({'op': 'index', 'r': 2, 'i': j})
            calls.append({'op': 'quiet', 'do': 'mutate', 'x': n + j + 1, 'what': 'lists' if i % 2 else 'all'})
        bag.add([plain_file(g, c)], calls + nexts(n, 2) + [{'op': 'readall', 'f': 1}])


# ---------------------------------------------------------------------------------------------------- layout

def rich_content(g, is64=None, n=None):
    c = gen.content(g, nprocs=g.choice([1, 3, 5]), nstrings=g.choice([1, 6, 20]), nmods=3, is64=is64, hosts=3, ports=3)
    for _ in range(g.choice([0, 2, 4, 6]) if n is None else n):
        c.events.append(gen.event(g, c, gen.any_event))
    return c


def content_calls(n, r, base=False, **kw):
    b = {'base': True} if base else {}
    return [dict({'op': 'index', 'r': r, 'i': i}, **b) for i in range(n)] + [dict({'op': 'procs', 'r': r}, **b), dict({'op': 'sys', 'r': r}, **b)]


def c09(g, bag, k):
    orders = ['events', 'index', 'processes', 'strings', 'icons', 'hosts']
    for i in range(26 * k):
        c = rich_content(g, is64=i % 2 == 0)
        n = len(c.events)
        lays = [Layout()]
        for _ in range(3):
            lays.append(gen.layout(g, noise=True))
        order = orders[:]
        g.shuffle(order)
        lays.append(Layout(g, order=order, noise=True, permute=True, gaps=g.choice([1, 7, 100]), share_strings=g.maybe(), extra_where='end', first=g.choice(['index', 'record', 'region'])))
        files = [plain_file(g, c, l) for l in lays]
        calls = []
        for f in range(len(files)):
            calls.append(dict(open_(f=f + 1, kind='bytes'), base=f == 0))
            calls += content_calls(n, f + 1, base=f == 0)
        bag.add(files, calls)
    # far away: 2 GiB, 4 GiB and more
    fars = [(1 << 31) - 60, 1 << 31, (1 << 31) + 4096, (1 << 32) - 10000]
    for i in range(8 * k):
        c = rich_content(g, is64=i % 2 == 0, n=4)
        if not any(e.extra for e in c.events):
            c.events.append(make_event(g, c, gen.read_write(g, c, 'ReadFile')))
        n = len(c.events)
        files = [plain_file(g, c, Layout())]
        lays = [Layout(g, noise=True, permute=True, far=fars[i % 4], order=['index', 'processes', 'strings', 'events', 'icons', 'hosts']),
                Layout(g, noise=True, table_far=g.choice([1 << 31, 1 << 32, (1 << 33) + 5, 1 << 40]), order=['events', 'index', 'processes', 'strings', 'icons', 'hosts'] if g.maybe() else
                       ['events', 'strings', 'icons', 'index', 'processes', 'hosts']),
                Layout(g, noise=True, extra_where='end', xgap=g.choice([(1 << 31) - 5000, 1 << 31, (1 << 31) + 12345, (1 << 32) - 20000]))]
        for l in lays:
            files.append(plain_file(g, c, l))
        calls = []
        for f in range(len(files)):
            calls.append(dict(open_(f=f + 1, kind='bytes' if f == 0 else g.choice(['sparse', 'sparsebuf'])), base=f == 0))
            calls += content_calls(n, f + 1, base=f == 0)
        bag.add(files, calls)
    # tables that are long
    for i in range(2 * k):
        c = gen.content(g, nprocs=2, nstrings=3, nmods=2, is64=i % 2 == 0, hosts=2, ports=2)
        what = ['hosts', 'strings'][i % 2]
        for ip, _ in c.hosts:
            c.events.append(make_event(g, c, gen.network(g, c, to=ip)))
        for _ in range(3):
            c.events.append(make_event(g, c, gen.network(g, c)))
        n, files = len(c.events), [plain_file(g, c, Layout())]
        if what == 'hosts':
            # names of addresses no event speaks of
            c.hosts[:0] = [(b'\xfe\xed' + g.bytes(14), units(u'h%d' % j) * 22000 + b'\0\0') for j in range(4)]
        else:
            # entries that nothing refers to
            for _ in range(3):
                c.strings.insert(0, units(g.choice(u'xyz') + u'\u0416') * 33000)
            for q in c.procs:
                q.strs = [x + 3 for x in q.strs]
                for m in q.mods:
                    m.strs = [x + 3 for x in m.strs]
        files += [plain_file(g, c, Layout(g, permute=True, noise=True))]
        bag.add(files, [dict(open_(f=1), base=True)] + content_calls(n, 1, True) + [open_(f=2, kind=g.choice(KINDS))] + content_calls(n, 2))
    # the order of the index, with records shared or listed twice
    for i in range(6 * k):
        c = repeated(g, simple_content(g, 5)) if i % 2 else simple_content(g, 5)
        files = [plain_file(g, c, Layout()), plain_file(g, c, Layout(g, permute=True, noise=True, order=['strings', 'index', 'events', 'processes', 'icons', 'hosts']))]
        bag.add(files, [dict(open_(f=1), base=True)] + content_calls(5, 1, True) + [open_(f=2)] + content_calls(5, 2) + nexts(6, 2))


# ---------------------------------------------------------------------------------------------------- common fields

def simple_parts(g, c, name=None):
    if name is None:
        return gen.profiling(g, c)
    return gen.process(g, c, V.code(V.PROCESS, name))


def c10(g, bag, k):
    def with_fields(**fields):
        def make(g, c):
            e = make_event(g, c, gen.profiling(g, c) if g.maybe() else gen.process(g, c, V.code(V.PROCESS, 'Thread_Create')), dated=g.maybe())
            for n, v in fields.items():
                setattr(e, n, v(c) if callable(v) else v)
            return e
        return make
    makers = []
    for b in range(32):
        makers += [with_fields(tid=1 << b), with_fields(res=1 << b)]
    for b in range(64):
        makers += [with_fields(date=1 << b), with_fields(dur=1 << b), with_fields(stack=lambda c, b=b: [1 << (b % (8 * c.pv))] * 1 + [5])]
    for v in gen.EDGE64:
        makers += [with_fields(dur=v, date=v, tid=v & 0xffffffff, res=v & 0xffffffff)]
    makers += [with_fields(res=r) for r in sorted(V.RESULTS)]
    spread(g, bag, makers, per=40, content=lambda g, **kw: small_content(g, nprocs=1, nstrings=2, **kw))
    # the whole vocabulary of every class
    ops = [lambda g, c, o=o: gen.process(g, c, o) for o in sorted(V.PROCESS)]
    ops += [lambda g, c, o=o: gen.profiling(g, c, o) for o in sorted(V.PROFILING)]
    ops += [lambda g, c, o=o: gen.registry(g, c, o) for o in sorted(V.REGISTRY)]
    ops += [lambda g, c, o=o: gen.network(g, c, o) for o in sorted(V.NETWORK)]
    ops += [lambda g, c, o=o: gen.plain_file(g, c, o, 0) for o in sorted(V.FILE)]
    for _ in range(2 * k):
        g.shuffle(ops)
        spread(g, bag, ops, kinds=KINDS)
    # stacks of every depth, both pointer sizes
    depths = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 255, 256, 257]
    spread(g, bag, [with_fields(stack=lambda c, d=d: [g.pv(c.pv) for _ in range(d)]) for d in depths for _ in (0, 1)], per=15)
    spread(g, bag, [with_fields(stack=lambda c, d=d: [g.getrandbits(8 * c.pv) for _ in range(d)]) for d in (1000, 4097)], per=1)
    # the process an event refers to
    for idxs in ('dense', 'any', 'rev', 'sparse'):
        for is64 in (False, True):
            c = small_content(g, nprocs=7, idxs=idxs, is64=is64)
            for p in c.procs + g.sample(c.procs, 4):
                e = make_event(g, c, gen.profiling(g, c))
                e.proc = p.idx
                c.events.append(e)
            bag.add([plain_file(g, c)], [open_()] + nexts(len(c.events)))
    spread(g, bag, times(150 * k, gen.any_event), dated=False, kinds=KINDS)
    long_logs(g, bag, ('stack',), per=3)


def c11(g, bag, k):
    for i in range(26 * k):
        c = gen.content(g, nprocs=g.choice([0, 1, 2, 6, 15]), nstrings=g.choice([1, 2, 10, 60]), nmods=g.choice([0, 1, 4]),
                        idxs=['dense', 'any', 'rev', 'sparse'][i % 4], is64=i % 2 == 0, hosts=1, ports=1)
        ev = []
        for p in c.procs[:6]:
            e = make_event(g, c, gen.profiling(g, c))
            e.proc = p.idx
            c.events.append(e)
        cs = [c] + ([gen.sibling(g, c)] if g.maybe(.4) else [])
        calls = []
        for j, d in enumerate(cs):
            calls += [open_(f=j + 1, kind=g.choice(KINDS)), {'op': 'procs', 'r': j + 1}] + nexts(len(d.events), j + 1) + [{'op': 'procs', 'r': j + 1}]
        bag.add([plain_file(g, d) for d in cs], calls)
    # every bit of every number
    for is64 in (False, True):
        c = gen.content(g, nprocs=0, nstrings=3, is64=is64, hosts=0, ports=0)
        for b in range(64):
            v, w = 1 << b, 1 << (b % 32)
            c.procs.append(Proc(b * 3 + 1, w, w ^ 1, v, w, v, v ^ 1, w, w if b % 3 else 0, [b % 3] * 8,
                                [Mod(1 << (b % (8 * c.pv)), w, b % 3, 0, 1, 2, w)]))
        bag.add([plain_file(g, c)], [open_(), {'op': 'procs', 'r': 1}])
    # many strings and many processes; index values at the edges
    c = gen.content(g, nprocs=0, nstrings=300, is64=True, hosts=0, ports=0)
    for idx in [0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff] + list(range(1000, 1040)):
        c.procs.append(Proc(idx, strs=[g.randrange(300) for _ in range(8)], mods=[Mod(1, 2, *[g.randrange(300) for _ in range(4)]) for _ in range(g.choice([0, 0, 2]))]))
    for p in c.procs:
        e = make_event(g, c, gen.profiling(g, c))
        e.proc = p.idx
        c.events.append(e)
    bag.add([plain_file(g, c)], [open_(), {'op': 'procs', 'r': 1}] + nexts(len(c.events)))
    # events of a process that is not in the table: nobody stands in for it
    for idxs in ('dense', 'any', 'rev', 'sparse'):
        c = gen.content(g, nprocs=g.choice([1, 3, 6]), nstrings=3, is64=g.maybe(), idxs=idxs, hosts=0, ports=0)
        c.procs.append(Proc(0 if g.maybe() else 1, strs=[0] * 8))
        c.procs = list({q.idx: q for q in c.procs}.values())
        have = {q.idx for q in c.procs}
        near = [f(q.idx) & 0xffffffff for q in c.procs for f in (
            lambda x: x + 1, lambda x: x - 1, lambda x: x + 256, lambda x: x + 65536, lambda x: x | 0x10000, lambda x: x ^ 0x80000000, lambda x: -x, lambda x: x << 1,
            lambda x: x & 0xff, lambda x: x & 0xffff)] + [0, 1, 2, 0x7fffffff, 0xffffffff, len(have), len(have) - 1] + [q.pid for q in c.procs]
        near = sorted(set(near) - have)
        for idx in g.sample(near, min(len(near), 30)):
            c.events.append(make_event(g, c, gen.profiling(g, c)))
            c.events[-1].proc = idx
            c.events.append(make_event(g, c, gen.profiling(g, c)))
        n = len(c.events)
        bag.add([plain_file(g, c)], [open_(kind=g.choice(KINDS))] + [{'op': 'index', 'r': 1, 'i': i} for i in range(n)])
    # more strings than 16 bits count, more modules than anyone expects
    c = gen.content(g, nprocs=0, nstrings=0, is64=True, hosts=0, ports=0)
    kinds = [units(x) for x in (u'', u'one', u'two', u'\u05d0\u05d1', u'four', u'five', u'six')]
    c.strings = [kinds[0]] * 65536 + [g.choice(kinds[1:]) for _ in range(40)]
    c.strings[0], c.strings[255:258], c.strings[32767:32769] = units(u'zero'), [units(u'b1'), units(u'b2'), units(u'b3')], [units(u'h1'), units(u'h2')]
    high = lambda: g.choice([0, 255, 256, 257, 32767, 32768, 65535, 65536] + list(range(65536, 65576)) * 2)
    for j in range(8):
        c.procs.append(Proc(j, strs=[high() for _ in range(8)], mods=[Mod(1, 2, *[high() for _ in range(4)]) for _ in range(3)]))
        c.events.append(make_event(g, c, gen.profiling(g, c)))
        c.events[-1].proc = j
    bag.add([plain_file(g, c, Layout(g, share_strings=True))], [open_(), {'op': 'procs', 'r': 1}] + nexts(8))
    for n in [513, 1025, g.randrange(600, 1400)]:
        c = gen.content(g, nprocs=2, nstrings=4, nmods=0, is64=n != 513, hosts=0, ports=0)
        c.procs[0].mods = [Mod(j, g.u32(), g.randrange(4), g.randrange(4), g.randrange(4), g.randrange(4), g.u32()) for j in range(n)]
        bag.add([plain_file(g, c)], [open_(), {'op': 'procs', 'r': 1}])
    # shared strings, many modules
    c = gen.content(g, nprocs=1, nstrings=4, is64=False, hosts=0, ports=0)
    c.procs[0].mods = [Mod(g.u32(), g.u32(), g.randrange(4), g.randrange(4), g.randrange(4), g.randrange(4), g.u32()) for _ in range(120)]
    bag.add([plain_file(g, c, Layout(g, share_strings=True, noise=True))], [open_(), {'op': 'procs', 'r': 1}])


def c12(g, bag, k):
    def one(**kw):
        c = gen.content(g, nprocs=1, nstrings=2, hosts=0, ports=0, is64=kw.pop('is64', None))
        for n, v in kw.items():
            setattr(c, n, v)
        return plain_file(g, c)
    files = []
    for major, minor in [(6, 0), (6, 1), (6, 2), (6, 3), (10, 0)]:
        for sp in (u'', u'Service Pack 1', u'S' * 127, u'S' * 128, u'\u05d0\U0001f600'):
            files.append(one(win=(major, minor, g.choice([0, 7601, 19041, 0xffffffff, g.u32()]), g.choice([0, 1, 0x80000000, g.u32()])), sp=units(sp)))
    for n in range(0, 17):
        files.append(one(computer=units(g.choice([u'C', u'\u05d0', u'\uffff']) * n)))
    for n in [0, 1, 2, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 259, 260]:
        files.append(one(root=units(g.choice([u'R', u'\u0100', u'\\']) * n)))
    for n in [1, 2, 15, 63, 64, 65, 100, 119, 120, 121, 126, 127, 128]:
        files.append(one(sp=units(u's' * n)))
    for b in range(32):
        files.append(one(cpus=1 << b))
    for b in range(64):
        files.append(one(ram=(1 << b) - g.choice([0, 0, 1]) if b else 1))
    gb = 1 << 30
    for r in [0, gb - 1, gb, gb + 1, 4 * gb - 1, int(1.01 * gb), int(15.93 * gb), 17179869184, 17179869183, 34225520640, 100 * gb, 1023 * gb + 999999999, (1 << 63) - 1, (1 << 64) - 1]:
        files.append(one(ram=r))
    for w in (1, 2, 0x100, 0x10000, 0x80000000, 0xffffffff):
        c = gen.content(g, nprocs=1, nstrings=2, hosts=0, ports=0, is64=True)
        c.is64_word = w
        files.append(plain_file(g, c))
    files.append(one(is64=False))
    for _ in range(60 * k):
        files.append(one(computer=g.text()[:32], root=g.text(), sp=g.text(), win=g.choice([(6, 0), (6, 1), (6, 2), (6, 3), (10, 0)]) + (g.u32(), g.u32()),
                         cpus=g.u32(), ram=g.getrandbits(g.randrange(1, 65))))
    g.shuffle(files)
    for i in range(0, len(files), 8):
        fs = files[i:i + 8]
        calls = []
        for f in range(len(fs)):
            calls += [open_(f=f + 1, kind=g.choice(KINDS)), {'op': 'sys', 'r': f + 1}]
        bag.add(fs, calls)


# ---------------------------------------------------------------------------------------------------- event classes

def host_content(g, **kw):
    kw.setdefault('nprocs', 1)
    kw.setdefault('nstrings', 2)
    return gen.content(g, hosts=g.choice([0, 1, 3, 12]), ports=g.choice([0, 1, 4, 12]), nmods=0, **kw)


def long_names(g, **kw):
    """Names of hosts and ports, and strings, that are long; the longest of each first in its table."""
    c = gen.content(g, hosts=0, ports=0, nmods=1, nprocs=1, nstrings=2, **kw)
    for n in g.sample([128, 255, 256, 257, 511, 512, 1024, 2000], 3):
        c.hosts.append((g.bytes(16), units(g.wide(n)) + g.choice([b'', b'\0\0'])))
        c.ports.append((g.u16(), g.choice([0, 1]), units(g.wide(n)) + g.choice([b'', b'\0\0'])))
        c.strings.append(units(g.wide(n)) + b'\0\0')
    c.hosts.append((g.bytes(16), units(u'last') + b'\0\0'))
    c.procs[0].strs = [g.randrange(len(c.strings)) for _ in range(8)]
    return c


def c13(g, bag, k):
    ms = [lambda g, c, o=o, f=f: gen.network(g, c, o, f) for o in sorted(V.NETWORK) for f in range(8)]
    ms += [lambda g, c, b=b, t=t: gen.network(g, c, None, (1 << b) | t) for b in range(3, 16) for t in (0, 3, 4, 7)]
    ms += times(260 * k, gen.network)
    g.shuffle(ms)
    spread(g, bag, ms, per=16, content=host_content)
    spread(g, bag, times(24, gen.network), per=12, content=long_names)
    long_logs(g, bag, ('net',))


def c14(g, bag, k):
    op = lambda n: V.code(V.REGISTRY, n)
    ms = []
    for o in ('RegQueryKey', 'RegEnumKey'):
        for kl in sorted(V.KEYCLASSES):
            for x in (True, True, False):
                ms.append(lambda g, c, o=o, kl=kl, x=x: gen.registry(g, c, op(o), klass=kl, extra=x))
    for o in ('RegOpenKey', 'RegCreateKey'):
        for d in (0, 1, 2, 3, 0x101, 0x10002, 0xffffffff):
            ms.append(lambda g, c, o=o, d=d: gen.registry(g, c, op(o), extra=True, disp=d, mask=g.choice([0x2000000, 0x20019, 0xf003f, 0])))
        for m in [1 << b for b in range(32)] + [0, 0x2000000, 0x20019, 0xf003f, 0xffffffff]:
            ms.append(lambda g, c, o=o, m=m: gen.registry(g, c, op(o), mask=m))
        for b in range(32):
            ms.append(lambda g, c, o=o, b=b: granted(g, c, op(o), 1 << b))
            ms.append(lambda g, c, o=o, b=b: gen.registry(g, c, op(o), mask=0x2000000 | 1 << b, extra=True))
    for s in [0, 1, 2, 3, 4, 5, 6, 255, 256, 0x100000000 - 1, 0x10001]:
        for l in (0, 4, 8, 0xffff, 1):
            ms.append(lambda g, c, s=s, l=l: gen.registry(g, c, op('RegSetInfoKey'), setclass=s, length=l))
    for o in sorted(V.REGISTRY):
        if V.REGISTRY[o] not in ('RegQueryValue', 'RegEnumValue', 'RegSetValue'):
            ms += times(9 * k, lambda g, c, o=o: gen.registry(g, c, o))
    g.shuffle(ms)
    spread(g, bag, ms)
    long_logs(g, bag, ('key',))


def granted(g, c, o, mask):
    pi, pb = gen.reg_path(g)
    return 2, o, u16(pi) + g.bytes(2) + u32(0x2000000) + pb, u32(mask) + u32(g.choice([1, 2]))


def typed_set(g, c, t, data, n, cap):
    pi, pb = gen.reg_path(g)
    return 2, V.code(V.REGISTRY, 'RegSetValue'), u16(pi) + g.bytes(2) + u32(t) + u32(n) + u32(cap) + pb + data, None


def typed_value(g, c, op, klass, t, data, n, name=None):
    pi, pb = gen.reg_path(g)
    d = u16(pi) + g.bytes(2) + u32(g.u32()) + (u32(g.u32()) if op == 'RegEnumValue' else b'') + u32(klass) + pb
    if V.VALUECLASSES[klass] == 'KeyValueFullInformation':
        nm = g.text() if name is None else name
        pad = g.choice([b'', b'', g.bytes(4), b'\0\0'])
        x = u32(g.u32()) + u32(t) + u32(20 + len(nm) + len(pad)) + u32(n) + u32(len(nm)) + nm + pad + data
    elif V.VALUECLASSES[klass] == 'KeyValuePartialInformation':
        x = u32(g.u32()) + u32(t) + u32(n) + data
    else:
        x = u32(g.u32()) + u32(t) + g.bytes(g.choice([0, 8]))
    return 2, V.code(V.REGISTRY, op), d, x


def c15(g, bag, k):
    ms = []
    types = sorted(V.REGTYPES) + [12, 13, 255, 256, 0x104, 0x10001, 0x80000003, 0xffffffff]
    for t in types:
        name = V.REGTYPES.get(t)
        for _ in range(3 * k):
            ms.append(lambda g, c, t=t: (lambda d: typed_set(g, c, t, d, len(d), len(d)))(gen.reg_data(g, t)))
            for o in ('RegQueryValue', 'RegEnumValue'):
                for kl in sorted(V.VALUECLASSES):
                    if V.VALUECLASSES[kl] in ('KeyValueFullInformation', 'KeyValuePartialInformation') or g.maybe(.2):
                        ms.append(lambda g, c, o=o, kl=kl, t=t: (lambda d: typed_value(g, c, o, kl, t, d, len(d)))(gen.reg_data(g, t)))
        # numbers of every length
        if name in ('REG_DWORD', 'REG_QWORD', 'REG_DWORD_BIG_ENDIAN'):
            for ln in range(0, 10):
                ms.append(lambda g, c, t=t, ln=ln: typed_set(g, c, t, g.bytes(ln), ln, ln))
                ms.append(lambda g, c, t=t, ln=ln: typed_value(g, c, 'RegQueryValue', V.code(V.VALUECLASSES, 'KeyValuePartialInformation'), t, g.bytes(ln), ln))
            for b in range(0, 64, 1 if name == 'REG_QWORD' else 2):
                ms.append(lambda g, c, t=t, b=b: typed_set(g, c, t, u64(1 << b) if V.REGTYPES[t] == 'REG_QWORD' else u32(1 << (b % 32)), 8 if V.REGTYPES[t] == 'REG_QWORD' else 4, 8))
        if name == 'REG_BINARY':
            for ln in (0, 1, 2, 15, 16, 17, 255, 256, 257, 1000):
                for n in (ln, ln + 1, max(0, ln - 1), 0, 5):
                    ms.append(lambda g, c, t=t, ln=ln, n=n: typed_set(g, c, t, g.bytes(ln), n, g.choice([n, ln, 0xffff])))
                    ms.append(lambda g, c, t=t, ln=ln, n=n: typed_value(g, c, 'RegEnumValue', V.code(V.VALUECLASSES, 'KeyValueFullInformation'), t, g.bytes(ln), n))
    for o in ('RegQueryValue', 'RegEnumValue'):
        for kl in sorted(V.VALUECLASSES):
            ms += times(4, lambda g, c, o=o, kl=kl: gen.registry(g, c, V.code(V.REGISTRY, o), klass=kl, extra=False))
            ms += times(12 * k, lambda g, c, o=o, kl=kl: gen.registry(g, c, V.code(V.REGISTRY, o), klass=kl))
    ms += times(120 * k, gen.set_value)
    g.shuffle(ms)
    spread(g, bag, ms)
    long_logs(g, bag, ('value',))


def long_makers(g):
    """family -> records one part of which is long: once about as long as it can be, and once of some length between."""
    op = lambda n: V.code(V.REGISTRY, n)
    mid = lambda top: g.choice([n for n in (130, 260, 300, 520, 1030, 1100, 2100, 4200, 8300, 17000) if n < top])
    sizes = lambda top: [top, mid(top)]
    out = {x: [] for x in ('net', 'key', 'value', 'file', 'dir', 'proc', 'stack')}
    lists = lambda n, size: b''.join(units(g.choice(u'abc') + u'%d' % i + u'l' * size) + b'\0\0' for i in range(n)) + b'\0\0'

    def counted(n, wide):
        return (n, units(u'w' * (n - 1) + u'\u05d0')) if wide else (0x8000 | n, b'b' * (n - 1) + b'z')
    for n in sizes(600):
        out['net'].append(lambda g, c, n=n: gen.network(g, c)[:2] + (
            u16(g.randrange(8)) + g.bytes(2) + u32(5) + g.bytes(36) + b''.join(units(u'k%d' % i) + b'\0\0' + units(u'v%d' % (i * 3)) + b'\0\0' for i in range(n)) + b'\0\0', None))
    for n in sizes(33000):
        out['net'].append(lambda g, c, n=n: gen.network(g, c)[:2] + (
            u16(g.randrange(8)) + g.bytes(2) + u32(5) + g.bytes(36) + units(u'k' * n) + b'\0\0' + units(u'v' * n) + b'\0\0\0\0', None))
    for n in sizes(32750):
        out['key'].append(lambda g, c, n=n: (2, op('RegQueryKey'), u16(0x8001) + b'\0\0' + u32(7) + u32(V.code(V.KEYCLASSES, 'Name')) + b'k', u32(2 * n) + units(u'n' * (n - 1) + u'z')))
        for w in (True, False):
            out['key'].append(lambda g, c, n=n, w=w: (lambda a, b: (2, op(g.choice(['RegRenameKey', 'RegLoadKey'])), u16(a[0]) + u16(b[0]) + a[1] + b[1], None))(counted(n, w), counted(n - 3, not w)))
    for n in sizes(70000):
        out['value'].append(lambda g, c, n=n: typed_set(g, c, 3, g.bytes(n), n, n))
        out['value'].append(lambda g, c, n=n: typed_set(g, c, g.choice([1, 2]), units(u's' * (n // 2) + u'z') + b'\0\0', n + 4, n + 4))
    for n in sizes(60000):
        klass = lambda x: V.code(V.VALUECLASSES, x)
        out['value'].append(lambda g, c, n=n: typed_value(g, c, g.choice(['RegQueryValue', 'RegEnumValue']), klass('KeyValuePartialInformation'), 3, g.bytes(n), n))
        out['value'].append(lambda g, c, n=n: typed_value(g, c, g.choice(['RegQueryValue', 'RegEnumValue']), klass('KeyValueFullInformation'), 3, g.bytes(40), 40, units(u'n' * (n // 2 - 1) + u'z')))
    for n in sizes(900):
        out['value'].append(lambda g, c, n=n: (lambda d: typed_set(g, c, 7, d, len(d), len(d)))(lists(n, g.choice([3, 40]))))
    for n in sizes(32767):
        for w in (True, False):
            out['file'].append(lambda g, c, n=n, w=w: (3, V.code(V.FILE, g.choice(['CloseFile', 'LockUnlockControl' if 'LockUnlockControl' in V.FILE.values() else 'CloseFile'])),
                                                       gen.file_det(g, c, 0, [], b'', counted(n, w)), None))
        out['dir'].append(lambda g, c, n=n: gen.query_dir(g, c, filt=counted(n, g.maybe()), extra=False))
    for n in sizes(700):
        out['dir'].append(lambda g, c, n=n: gen.query_dir(g, c, klass=V.code(V.FILECLASSES, 'FileNamesInformation'), names=[units(u'n%d' % i) for i in range(n)], extra=True, filt=(0x8001, b'*')))
    for n in sizes(450):
        out['dir'].append(lambda g, c, n=n: gen.query_dir(g, c, klass=V.code(V.FILECLASSES, g.choice(['FileDirectoryInformation', 'FileBothDirectoryInformation', 'FileIdBothDirectoryInformation',
                                                          'FileFullDirectoryInformation', 'FileIdFullDirectoryInformation'])), names=[units(u'n%d' % i) for i in range(n)], extra=True))
    for n in sizes(32767):
        a, b = (True, False) if g.maybe() else (False, True)
        out['proc'].append(lambda g, c, n=n, a=a, b=b: (lambda x, y: (1, V.code(V.PROCESS, g.choice(['Process_Create', 'Process_Defined'])), g.bytes(4) + u32(g.u32()) + g.bytes(36) + b'\0\0' + u16(x[0]) + u16(y[0]) + b'\0\0' + x[1] + y[1],
                                                                      None))(counted(n, a), counted(n - 1, b)))
        out['proc'].append(lambda g, c, n=n, a=a, b=b: (lambda x, y: (1, V.code(V.PROCESS, 'Process_Start'), u32(3) + u16(x[0]) + u16(y[0]) + u32(5) + x[1] + y[1] + units(u'A=1') + b'\0\0\0\0', None))(counted(n, b), counted(n - 1, a)))
        out['proc'].append(lambda g, c, n=n, a=a: (lambda x: (1, V.code(V.PROCESS, 'Load_Image'), (u64 if c.pv == 8 else u32)(1) + u32(1) + u16(x[0]) + b'\0\0' + x[1], None))(counted(n, a)))
    for n in sizes(700):
        out['proc'].append(lambda g, c, n=n: (lambda e: (1, V.code(V.PROCESS, 'Process_Start'), u32(3) + u16(0) + u16(0) + u32(len(e) // 2) + e, None))(lists(n, g.choice([3, 90]))))

    def deep(n):
        def make(g, c):
            e = make_event(g, c, gen.any_event(g, c))
            m = (1 << 8 * c.pv) - 1
            e.stack = [(0x7ff612340000 + 977 * i) & m for i in range(n)]
            return e
        return make
    out['stack'] = [deep(n) for n in (255, 256, 257, g.choice([300, 512, 1030]), g.choice([4100, 8200]), 65535)]
    return out


def long_logs(g, bag, families, per=5, options=False, **kw):
    """Logs of long records, with ordinary ones between them; kw: what is asked of each event."""
    ms = [m for f in families for m in long_makers(g)[f]]
    g.shuffle(ms)
    for i in range(0, len(ms), per):
        c = small_content(g, is64=g.maybe())
        for m in ms[i:i + per]:
            p = m(g, c)
            c.events.append(p if isinstance(p, Ev) else make_event(g, c, p))
            c.events.append(make_event(g, c, gen.any_event(g, c)))
        n = len(c.events)
        calls = [dict(open_(kind=g.choice(KINDS)), **({'base': True} if options else {}))] + [dict(x, **({'base': True} if options else kw)) for x in nexts(n)]
        if options:
            for r, (st, de) in enumerate([(True, False), (False, True), (False, False)]):
                calls += [open_(st=st, de=de, explicit=True, kind=g.choice(KINDS))] + nexts(n, r + 2)
        bag.add([plain_file(g, c)], calls)


FILE_PLAIN = None


def c16(g, bag, k):
    ms = []
    F = gen
    for d in [0, 1, 2, 3, 4, 5, 6, 7, 255]:
        for r in [None, 0, 1, 2, 3, 4, 5, 6, 0x100, 0x80000000]:
            ms.append(lambda g, c, d=d, r=r: F.create_file(g, c, disp=d, result=r))
    for tab, kw, bits in ((V.FILEACCESS, 'access', 32), (V.OPTIONS, 'opts', 24), (V.ATTRIBUTES, 'attr', 16), (V.SHARES, 'share', 16)):
        for b in range(bits):
            ms.append(lambda g, c, kw=kw, b=b: F.create_file(g, c, **{kw: 1 << b}))
        for m, _ in tab:
            ms.append(lambda g, c, kw=kw, m=m, bits=bits: F.create_file(g, c, **{kw: m & ((1 << bits) - 1)}))
        ms.append(lambda g, c, kw=kw: F.create_file(g, c, **{kw: 0}))
    for o in ('ReadFile', 'WriteFile'):
        for b in range(32):
            ms.append(lambda g, c, o=o, b=b: F.read_write(g, c, o, 1 << b))
        for p in range(8):
            ms.append(lambda g, c, o=o, p=p: F.read_write(g, c, o, p << 17))
        ms += times(20 * k, lambda g, c, o=o: F.read_write(g, c, o))
    for s in [0, 1, 2, 3, 0x101, 0x80000000, 0xffffffff]:
        ms.append(lambda g, c, s=s: F.mapping(g, c, sync=s))
    for b in range(32):
        ms.append(lambda g, c, b=b: F.mapping(g, c, prot=1 << b))
        ms.append(lambda g, c, b=b: F.mapping(g, c, prot=(1 << b) | 0x200))
    ms += [lambda g, c, v=v: F.disposition(g, c, v) for v in (0, 1, 2, 3, 0x7f, 0x80, 0xff)]
    for o in sorted(V.FILE):
        n = V.FILE[o]
        subs = list(range(0, 64)) + [127, 128, 254, 255] if n in V.SUBS else [0, 0, 1, 77]
        for s in subs:
            ms.append(lambda g, c, o=o, s=s: F.plain_file(g, c, o, s))
    ms += times(60 * k, F.create_file)
    ms += times(60 * k, F.file_event)
    g.shuffle(ms)
    spread(g, bag, ms)
    long_logs(g, bag, ('file',))


def c17(g, bag, k):
    ms = []
    F = gen
    for layout in sorted(F.LAYOUTS):
        kl = V.code(V.FILECLASSES, layout)
        for n in (1, 1, 2, 2, 3, 4, 12):
            for _ in range(2 * k):
                ms.append(lambda g, c, kl=kl, n=n: F.query_dir(g, c, kl, [g.text() for _ in range(n)], extra=True))
        ms += times(8 * k, lambda g, c, kl=kl: F.query_dir(g, c, kl, extra=True))
        ms.append(lambda g, c, kl=kl: F.query_dir(g, c, kl, extra=False))
        for ln in (0, 1, 2, 7, 8, 127, 128, 255):
            ms.append(lambda g, c, kl=kl, ln=ln: F.query_dir(g, c, kl, [units(u'n' * ln), units(u'z')], extra=True))
    for kl in sorted(V.FILECLASSES):
        ms.append(lambda g, c, kl=kl: F.query_dir(g, c, kl))
    for path in (u'', u'C:', u'C:\\', u'C:\\d', u'\\', u'C:\\d\\\\'):
        for filt in (u'', u'*', u'*.txt', u'\\', u'a\\b', u'<"*'):
            for wide in (True, False):
                enc = lambda s, w=wide: (len(s), units(s)) if w else (0x8000 | len(s), s.encode('ascii'))
                ms.append(lambda g, c, p=path, f=filt, enc=enc: F.query_dir(g, c, None, None, enc(f), None, enc(p)))
    for b in range(32):
        ms.append(lambda g, c, b=b: F.notify(g, c, 1 << b))
    ms += times(25 * k, F.notify)
    for ctl in sorted(V.CONTROLS):
        for o in ('FileSystemControl', 'DeviceIoControl'):
            ms.append(lambda g, c, o=o, ctl=ctl: F.control(g, c, o, ctl))
    for b in range(32):
        ms.append(lambda g, c, b=b: F.control(g, c, None, 1 << b))
    for n in ('FSCTL_PIPE_INTERNAL_WRITE', 'FSCTL_PIPE_INTERNAL_READ', 'FSCTL_PIPE_TRANSCEIVE', 'FSCTL_PIPE_INTERNAL_TRANSCEIVE',
              'FSCTL_OFFLOAD_READ', 'FSCTL_OFFLOAD_WRITE'):
        for o in ('FileSystemControl', 'DeviceIoControl'):
            ms += times(4 * k, lambda g, c, o=o, n=n: F.control(g, c, o, V.code(V.CONTROLS, n)))
    ms += times(50 * k, F.control)
    ms += times(90 * k, F.query_dir)
    g.shuffle(ms)
    spread(g, bag, ms)
    long_logs(g, bag, ('dir',))


def c18(g, bag, k):
    ms = []
    for o in sorted(V.PROCESS):
        ms += times(45 * k, lambda g, c, o=o: gen.process(g, c, o))

    def stat(name, field, v):
        def make(g, c):
            cls, op, det, x = gen.process(g, c, V.code(V.PROCESS, name))
            b = bytearray(det)
            at, n = field
            b[at:at + n] = u64(v)[:n]
            return cls, op, bytes(b), None
        return make
    for b in range(64):
        for f in ((4, 8), (12, 8), (20, 8), (28, 8), (36, 8), (44, 8)):
            if (b + f[0] // 4) % 4 == 0 or k > 1:
                ms.append(stat(g.choice(['Process_Exit', 'Process_Statistics']), f, 1 << b))
        if b % 2 == 0:
            ms.append(stat('Thread_Exit', (4 if b % 4 else 12, 8), 1 << b))
    for b in range(32):
        ms += [stat('Process_Exit', (0, 4), 1 << b), stat('Thread_Create', (0, 4), 1 << b), stat('Process_Start', (0, 4), 1 << b),
               stat('Process_Create', (4, 4), 1 << b)]

    def image(g, c, b):
        base = (u64 if c.pv == 8 else u32)(1 << (b % (8 * c.pv)))
        pi, pb = g.counted()
        return 1, V.code(V.PROCESS, 'Load_Image'), base + u32(1 << (b % 32)) + u16(pi) + g.bytes(2) + pb, None
    ms += [lambda g, c, b=b: image(g, c, b) for b in range(64)]

    def start(n, env=None, command=None, cwd=None):
        def make(g, c):
            ci, cb = g.counted() if command is None else command
            di, db = g.counted() if cwd is None else cwd
            e = b''.join(units(u'V%d=' % i) + g.text() + b'\0\0' for i in range(n)) + g.choice([b'\0\0', b''])
            return 1, V.code(V.PROCESS, 'Process_Start'), u32(g.u32()) + u16(ci) + u16(di) + u32(len(e) // 2) + cb + db + e, None
        return make
    ms += [start(n) for n in (0, 1, 2, 3, 10, 60)]

    def huge(n, size):
        def make(g, c):
            e = b''.join(units(u'V%d=' % i + u'h' * size) + b'\0\0' for i in range(n)) + b'\0\0'
            return 1, V.code(V.PROCESS, 'Process_Start'), u32(g.u32()) + u16(0) + u16(0) + u32(len(e) // 2) + e, None
        return make
    lone(g, bag, [huge(1, 66000), huge(700, 95)])
    for n in (0, 1, 2, 127, 128, 255, 256, 300, 1000):
        for w in (True, False):
            enc = (n, units(u'c' * n)) if w else (0x8000 | n, b'c' * n)
            ms += [start(1, command=enc), start(1, cwd=enc)]
    g.shuffle(ms)
    spread(g, bag, ms)
    long_logs(g, bag, ('proc',))


# ---------------------------------------------------------------------------------------------------- renderings

def c19(g, bag, k):
    def at(date, dur=None, res=None):
        def make(g, c):
            e = make_event(g, c, gen.profiling(g, c) if g.maybe() else gen.process(g, c, V.code(V.PROCESS, 'Thread_Create')))
            e.date = date
            e.dur = g.span() if dur is None else dur
            e.res = g.choice([0, 0, 0x103, g.choice(sorted(V.RESULTS))]) if res is None else res
            return e
        return make
    E, D = gen.EPOCH, gen.DAY
    days = [0, 1, 58, 59, 60, 364, 365, 366, 424, 425, 789, 790, 1095, 1096, 10956, 10957, 11015, 11016, 11017, 11322, 11323, 16070, 18261, 18262, 24836,
            24837, 24855, 24856, 47481, 47482, 47540, 47541, 84005, 84006, 120529, 157113, 248609, 376200, 744018, 2932895, 2932894]
    secs = [0, 1, 59, 60, 3599, 3600, 43199, 43200, 43259, 43260, 46799, 46800, 82799, 86340, 86399]
    ticks = [0, 1, 9, 10, 11, 99, 100, 999999, 1000000, 9999989, 9999990, 9999999, 1234567, 5000000]
    ms = [at(E + d * D + g.choice(secs) * 10 ** 7 + g.choice(ticks)) for d in days for _ in range(2)]
    ms += [at(E + g.choice(days) * D + s * 10 ** 7 + g.choice(ticks)) for s in secs for _ in range(3)]
    ms += [at(E + g.choice(days) * D + g.choice(secs) * 10 ** 7 + t) for t in ticks for _ in range(3)]
    spans = [0, 1, 9, 10, 9999999, 10 ** 7, 10 ** 7 + 1, 599999999, 36 * 10 ** 9 - 1, 36 * 10 ** 9, D - 1, D, D + 1, 99 * 36 * 10 ** 9, 100 * 36 * 10 ** 9 - 1,
             100 * 36 * 10 ** 9, 100 * D, 1000 * D + 1, 2 ** 53 + 1]
    ms += [at(g.when(), s) for s in spans for _ in range(3)]
    ms += [at(g.choice([g.when(), E + g.randrange(20000) * D]), s) for s in [10 ** n - 1 for n in range(8, 20)] + [2 ** n - d for n in range(50, 64) for d in (0, 1)]]
    ms += [at(E + g.randrange(20000) * D, g.longspan()) for _ in range(60)]
    ms += [at(g.when(), None, r) for r in sorted(V.RESULTS)]
    # spans and times among the details
    edges = spans + [10 ** n - 1 for n in range(8, 20)] + [2 ** n - d for n in range(31, 65) for d in (0, 1) if n < 64 or d]
    ms += [lambda g, c, x=x: (1, V.code(V.PROCESS, 'Thread_Exit'), g.bytes(4) + u64(x) + u64(g.choice(edges)), None) for x in edges]
    ms += [lambda g, c, x=x: (1, V.code(V.PROCESS, 'Thread_Exit'), g.bytes(4) + u64(g.longspan()) + u64(x), None) for x in edges]
    ms += [lambda g, c, d=d: (2, V.code(V.REGISTRY, 'RegSetInfoKey'), u16(0x8001) + g.bytes(2) + u32(0) + g.bytes(4) + u16(8) + g.bytes(2) + b'k'
                              + u64(E + d * D + g.choice(secs) * 10 ** 7 + g.choice(ticks)), None) for d in days]
    ms += times(250 * k, lambda g, c: at(g.when())(g, c))
    g.shuffle(ms)

    def firsts(g, e):
        out = [None] if g.maybe(.3) else []
        for _ in range(2):
            d = g.choice(spans + [g.span(), g.span()])
            out.append(max(1, e.date - d))
        return [None if x is None else str(x) for x in out]
    spread(g, bag, ms, per=20, csv=firsts, dt=True, tz=lambda g: g.choice(ZONES), content=lambda g, **kw: small_content(g, nprocs=1, nstrings=2, **kw))


def c20(g, bag, k):
    ms = []
    for f in (gen.network, gen.process, gen.registry, gen.file_event, gen.plain_file, gen.query_dir, gen.set_value, gen.read_write and (lambda g, c: gen.read_write(g, c, g.choice(['ReadFile', 'WriteFile'])))):
        ms += times(55 * k, f)
    for o in sorted(V.REGISTRY):
        ms += times(10 * k, lambda g, c, o=o: gen.registry(g, c, o))
    for o in sorted(V.PROCESS):
        ms += times(6 * k, lambda g, c, o=o: gen.process(g, c, o))
    op = lambda n: V.code(V.REGISTRY, n)
    for o in ('RegQueryKey', 'RegEnumKey'):
        for kl in sorted(V.KEYCLASSES):
            ms += times(2, lambda g, c, o=o, kl=kl: gen.registry(g, c, op(o), klass=kl, extra=True))
    for t in sorted(V.REGTYPES):
        for o in ('RegQueryValue', 'RegEnumValue'):
            ms.append(lambda g, c, o=o, t=t: (lambda d: typed_value(g, c, o, V.code(V.VALUECLASSES, 'KeyValueFullInformation'), t, d, len(d)))(gen.reg_data(g, t)))
        ms.append(lambda g, c, t=t: (lambda d: typed_set(g, c, t, d, len(d), len(d)))(gen.reg_data(g, t)))

    def res(r):
        def make(g, c):
            return make_event(g, c, gen.any_event(g, c), res=r)
        return make
    ms += [res(r) for r in sorted(V.RESULTS)] + [res(r ^ (1 << g.randrange(32))) for r in sorted(V.RESULTS)[::4]]

    def number(v):
        def make(g, c):
            which = g.choice('rsqe')
            if which == 'r':
                return 3, V.code(V.FILE, 'ReadFile'), gen.file_det(g, c, 0, [(12, u32(v)), (20 if c.pv == 4 else 28, u64(v)), (4, u32(0))], b''), None
            if which == 's':
                return typed_set(g, c, 4, u32(v), 4, 4)
            if which == 'q':
                return 2, op('RegQueryKey'), u16(0x8001) + g.bytes(2) + u32(v) + u32(0) + b'k', None
            return 2, op('RegEnumKey'), u16(0x8001) + g.bytes(2) + u32(v) + u32(v) + u32(0) + b'k', None
        return make
    # the control requests that say more than their code
    for name in ('FSCTL_PIPE_INTERNAL_WRITE', 'FSCTL_OFFLOAD_READ', 'FSCTL_OFFLOAD_WRITE', 'FSCTL_PIPE_INTERNAL_READ', 'FSCTL_PIPE_TRANSCEIVE', 'FSCTL_PIPE_INTERNAL_TRANSCEIVE'):
        code = [x for x in V.CONTROLS if V.CONTROLS[x] == name][0]
        for o in ('FileSystemControl', 'DeviceIoControl'):
            ms += [lambda g, c, code=code, o=o, v=v: gen.control(g, c, o, code, v) for v in (0, 999, 1000, 1234567, 0xffffffff)]
    ms += [number(v) for v in [0, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000, 99999, 100000, 999999, 1000000, 1234567, 0x7fffffff, 0x80000000, 0xffffffff,
                               10 ** 12, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 1000, (1 << 64) - 999] for _ in range(3)]
    g.shuffle(ms)
    spread(g, bag, ms, csv=lambda g, e: [g.choice([None, None, str(max(1, e.date - g.span()))])], tz=lambda g: g.choice(ZONES),
           content=lambda g, **kw: gen.content(g, nprocs=g.choice([1, 3]), nstrings=g.choice([3, 12]), nmods=1, hosts=2, ports=3, **kw))
    long_logs(g, bag, ('net', 'key', 'value', 'file', 'dir', 'proc'), csv=[None])


def c21(g, bag, k):
    for i in range(36 * k):
        c = rich_content(g, is64=i % 2 == 0, n=0)
        for _ in range(8):
            c.events.append(gen.event(g, c, g.choice([gen.any_event, gen.file_event, gen.registry, gen.process, gen.network, gen.query_dir, gen.profiling])))
        n = len(c.events)
        calls = [dict(open_(), base=True)] + [{'op': 'index', 'r': 1, 'i': j, 'base': True} for j in range(n)]
        r = 1
        for st, de in g.sample([(True, False), (False, True), (False, False), (True, True)], 3):
            calls.append(open_(st=st, de=de, explicit=True, positional=g.maybe(.3), kind=g.choice(KINDS)))
            r += 1
            calls += g.choice([nexts(n, r), [{'op': 'index', 'r': r, 'i': j} for j in range(n)], [{'op': 'slice', 'r': r, 'a': NONE, 'b': NONE, 'c': NONE}]])
            if g.maybe(.4):
                calls += [{'op': 'procs', 'r': r}, {'op': 'sys', 'r': r}, {'op': 'len', 'r': r}]
        bag.add([plain_file(g, c)], calls)
    # every operation
    makers = [lambda g, c, o=o: gen.process(g, c, o) for o in sorted(V.PROCESS)] + [lambda g, c, o=o: gen.registry(g, c, o) for o in sorted(V.REGISTRY)] \
        + [lambda g, c, o=o: gen.network(g, c, o) for o in sorted(V.NETWORK)] \
        + [lambda g, c, o=o: gen.plain_file(g, c, o) for o in sorted(V.FILE)] \
        + [lambda g, c, o=o, s=s: gen.plain_file(g, c, V.code(V.FILE, o), s) for o in sorted(V.SUBS) for s in sorted(V.SUBS[o])] \
        + times(20 * k, gen.query_dir) + times(8, gen.profiling)
    g.shuffle(makers)
    for i in range(0, len(makers), 20):
        c = small_content(g)
        for m in makers[i:i + 20]:
            c.events.append(make_event(g, c, m(g, c), depth=g.choice([0, 1, 3])))
        n = len(c.events)
        calls = [dict(open_(), base=True)] + [{'op': 'index', 'r': 1, 'i': j, 'base': True} for j in range(n)]
        calls += [open_(st=g.maybe(), de=False, explicit=True)] + nexts(n, 2) + [open_(st=False, de=True, explicit=True)] + nexts(n, 3)
        bag.add([plain_file(g, c)], calls)
    long_logs(g, bag, ('net', 'key', 'value', 'file', 'dir', 'proc', 'stack'), options=True)


VARY = ['Event.' + x for x in ('tid', 'operation', 'date_filetime', 'result', 'duration', 'stacktrace', 'category', 'path', 'details', 'details+',
                               'details-', 'event_class', 'process')] + \
       ['Process.' + x for x in ('pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity', 'user', 'process_name',
                                 'image_path', 'command_line', 'company', 'version', 'description', 'start_time', 'end_time', 'modules')] + \
       ['Module.' + x for x in ('base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp')] + \
       ['Foreign.' + x for x in ('None', 'str', 'tuple', 'dict', 'process', 'object', 'int')]


def c22(g, bag, k):
    for i in range(40 * k):
        c = gen.content(g, nprocs=2, nstrings=6, nmods=2, is64=i % 2 == 0)
        for _ in range(4):
            c.events.append(gen.event(g, c, gen.any_event))
        if i % 2:     # nearly the same event again
            e = copy.deepcopy(g.choice(c.events))
            what = g.choice(['none', 'tid', 'date', 'res', 'dur', 'stack', 'proc', 'det', 'det', 'det', 'echo'])
            if what == 'stack':
                e.stack = e.stack + [1]
            elif what == 'proc':
                e.proc = g.choice(c.procs).idx
            elif what == 'det':
                # the same moment of the same thread, with other details
                for _ in range(400):
                    f = gen.event(g, c, gen.any_event)
                    if (f.cls, f.op) == (e.cls, e.op) and (f.det, f.extra) != (e.det, e.extra):
                        e.det, e.extra = f.det, f.extra
                        break
                else:
                    e.cls, e.op, e.det, e.extra = f.cls, f.op, f.det, f.extra
            elif what == 'echo':
                e = echo(g, c)
            elif what != 'none':
                setattr(e, what, getattr(e, what) ^ 1)
            c.events.append(e)
            g.shuffle(c.events)
        n = len(c.events)
        csv = [None]
        # every event alone, in a process of its own
        calls = []
        for j in range(n):
            calls += [dict(open_(), base=True), {'op': 'index', 'r': j + 1, 'i': j, 'csv': csv, 'dt': True, 'base': True}]
        a, z = n + 1, n + 2
        calls += [open_(), open_(kind=g.choice(KINDS))]
        calls += [{'op': 'index', 'r': a, 'i': j, 'csv': csv, 'dt': True} for j in range(n)]
        calls += [{'op': 'next', 'r': z} for j in range(n)]
        x0 = n
        tail = []
        for _ in range(12):
            x = g.randrange(2 * n)
            y = (x + n) % (2 * n)
            tail.append(g.choice([
                {'op': 'quiet', 'do': 'render', 'x': x0 + x + 1, 'how': [g.choice(HOWS) for _ in range(g.choice([1, 3, 6]))]},
                {'op': 'stable', 'x': x0 + x + 1, 'how': g.sample(HOWS, g.choice([1, 4, len(HOWS)]))},
                {'op': 'look', 'x': x0 + x + 1, 'csv': csv, 'dt': True},
                {'op': 'eq', 'x': x0 + x + 1, 'y': x0 + 1 + g.choice([y, g.randrange(2 * n), x])},
                {'op': 'eq', 'x': x0 + x + 1, 'y': x0 + y + 1}]))
        for j in range(2 * n):
            tail.append({'op': 'look', 'x': x0 + j + 1, 'csv': csv, 'dt': True})
        tail += [{'op': 'eq', 'x': x0 + j + 1, 'y': x0 + j + 1 + n} for j in range(n)]
        if i % 2:
            tail += [{'op': 'eq', 'x': x0 + j + 1, 'y': x0 + q + 1} for j in range(n) for q in range(j)]
        tail += [{'op': 'index', 'r': a, 'i': j, 'csv': csv, 'dt': True} for j in range(n)] + [{'op': 'procs', 'r': a}]
        bag.add([plain_file(g, c)], calls + tail, tz=g.choice(ZONES), apart=True)
    for i in range(12 * k):
        c = gen.content(g, nprocs=2, nstrings=6, nmods=3, is64=i % 2 == 0)
        for p in c.procs:
            if not p.mods:
                p.mods = [Mod(1, 2, 0, 0, 0, 0, 3)]
        for _ in range(3):
            c.events.append(gen.event(g, c, gen.any_event))
        calls = [open_()] + nexts(3)
        vs = VARY[:]
        g.shuffle(vs)
        calls += [{'op': 'vary', 'x': g.randrange(3) + 1, 'field': v} for v in vs]
        calls += [{'op': 'eq', 'x': a, 'y': b} for a in (1, 2, 3) for b in (1, 2, 3)]
        bag.add([plain_file(g, c)], calls)


def c23(g, bag, k):
    # every code unit, in the string table, host names and paths
    per = 400
    ranges = [(a, min(a + per, 0x10000)) for a in range(1, 0x10000, per)]
    for chunk in [ranges[i:i + 6] for i in range(0, len(ranges), 6)]:
        if k == 1 and g.maybe(.62) and chunk[0][0] > 3000:
            continue
        c = gen.content(g, nprocs=1, nstrings=1, nmods=0, hosts=0, ports=0)
        for a, b in chunk:
            c.strings.append(b''.join(u16(x) for x in range(a, b)) + b'\0\0')
        c.procs[0].strs = [min(i, len(c.strings) - 1) for i in range(8)]
        bag.add([plain_file(g, c)], [open_(), {'op': 'procs', 'r': 1}])
    # texts of the greatest lengths
    for n in (16384, 32768, 40000)[:2 + k]:
        c = gen.content(g, nprocs=1, nstrings=1, nmods=1, hosts=1, ports=1)
        c.strings = [units(u'ab') + b'\0\0', units(g.wide(3) + u'y' * (n - 2) + u'zz') + b'\0\0', units(u'cd') + b'\0\0']
        c.procs[0].strs = [1, 0, 2, 0, 1, 2, 0, 2]
        c.hosts = [(b'\1\2\3\4' + b'\0' * 12, units(u'h' * n + u'.') + b'\0\0')]
        c.ports = [(443, 1, units(u'p' * n + u'.') + b'\0\0')]
        det = b'\7\0' + u16(7) + u32(1) + b'\1\2\3\4' + b'\0' * 12 + b'\5\6\7\x08' + b'\0' * 12 + u16(443) + u16(80) + b'\0\0'
        c.events.append(make_event(g, c, (5, V.code(V.NETWORK, 'Send'), det, None)))
        bag.add([plain_file(g, c)], [open_(), {'op': 'procs', 'r': 1}, {'op': 'next', 'r': 1}])
    img, long_ = V.code(V.PROCESS, 'Load_Image'), [16383, 16384, 20000, 32767]
    lone(g, bag, [lambda g, c, n=n, a=a: (1, img, (u64 if c.pv == 8 else u32)(1) + u32(1) + u16(n | a) + b'\0\0' + (b'q' * n if a else units(u'q' * (n - 1) + u'\u05d0')) + g.choice([b'', b'zz']), None)
                  for n in long_ for a in (0, 0x8000)])
    # counted texts in both forms, at every length
    ms = []
    img = V.code(V.PROCESS, 'Load_Image')

    def image(counted):
        def make(g, c):
            pi, pb = counted(g)
            return 1, img, (u64 if c.pv == 8 else u32)(1) + u32(1) + u16(pi) + g.bytes(2) + pb + g.choice([b'', g.text(), b'zz']), None
        return make
    for n in list(range(0, 20)) + [100, 127, 128, 254, 255, 256, 257, 511, 512, 1000]:
        ms.append(image(lambda g, n=n: g.counted(n=n)))
        ms.append(image(lambda g, n=n: (n, units((g.wide(n) + u'x' * n)[:n] if False else g.choice([u'w', u'\u05d0', u'\u0100', u'\uffff']) * n))))
        ms.append(image(lambda g, n=n: (0x8000 | n, g.ascii(n).encode('ascii'))))
    for b in range(1, 128):
        if b % 4 == 0:
            ms.append(image(lambda g, b=b: (0x8000 | 6, bytes(bytearray([b, b + 1 & 0x7f or 1, b + 2 & 0x7f or 1, b + 3 & 0x7f or 1, b, 0x41])))))
    hi, lo = u16(0xd83d), u16(0xde00)
    for raw in [hi, lo, hi + lo, lo + hi, hi + hi + lo, hi + lo + lo, units(u'a') + hi, units(u'a') + lo + units(u'b'), hi + units(u'b'), hi + b'\0\0' + lo,
                units(u'ab') + b'\0\0', units(u'ab') + b'\0\0' + units(u'cd'), b'\0\0', b'\0\0' + units(u'x'), u16(0xfeff) + units(u'b'), u16(0xfffe) + units(u'b'),
                units(u'\u0100\u0200'), u16(0x100) + b'\0\0' + units(u'q'), u16(0x0001) + u16(0x0100) + b'\0\0']:
        ms.append(image(lambda g, raw=raw: (len(raw) // 2, raw)))
    spread(g, bag, ms)
    # every kind of event that carries text
    R, P = (lambda n: V.code(V.REGISTRY, n)), (lambda n: V.code(V.PROCESS, n))
    ms = []
    for n, o in ((6, 'RegLoadKey'), (6, 'RegRenameKey'), (4, 'RegDeleteKey'), (4, 'RegOpenKey')):
        ms += times(n * k, lambda g, c, o=o: gen.registry(g, c, R(o)))
    for kl in ('Name', 'Basic', 'Node'):
        for o in ('RegQueryKey', 'RegEnumKey'):
            ms += times(6 * k, lambda g, c, o=o, kl=kl: gen.registry(g, c, R(o), klass=V.code(V.KEYCLASSES, kl), extra=True))
    for t in (1, 2, 7, 6):
        ms += times(8 * k, lambda g, c, t=t: (lambda d: typed_set(g, c, t, d, len(d), len(d)))(gen.reg_data(g, t)))
        for o in ('RegQueryValue', 'RegEnumValue'):
            for kl in ('KeyValueFullInformation', 'KeyValuePartialInformation'):
                ms += times(4 * k, lambda g, c, t=t, o=o, kl=kl: (lambda d: typed_value(g, c, o, V.code(V.VALUECLASSES, kl), t, d, len(d)))(gen.reg_data(g, t)))
    for o in ('Process_Defined', 'Process_Create', 'Process_Start', 'Load_Image'):
        ms += times(10 * k, lambda g, c, o=o: gen.process(g, c, P(o)))
    ms += times(40 * k, gen.query_dir) + times(40 * k, gen.network) + times(10 * k, gen.create_file)
    g.shuffle(ms)
    spread(g, bag, ms, content=lambda g, **kw: gen.content(g, nprocs=2, nstrings=10, nmods=1, hosts=5, ports=5, **kw), procs=True, sys=True)
    for _ in range(10 * k):
        c = gen.content(g, nprocs=4, nstrings=40, nmods=2, hosts=0, ports=0)
        c.computer, c.root, c.sp = g.text()[:32], g.text(), g.text()
        bag.add([plain_file(g, c)], [open_(kind=g.choice(KINDS)), {'op': 'procs', 'r': 1}, {'op': 'sys', 'r': 1}])
    spread(g, bag, times(36, gen.network), per=12, content=long_names, procs=True)
    # texts that fill their fixed field, next to noise
    for n in (0, 1, 14, 15, 16):
        for m in (0, 1, 258, 259, 260):
            c = gen.content(g, nprocs=1, nstrings=2, hosts=0, ports=0)
            c.computer, c.root, c.sp = units(u'N' * n), units(u'R' * m), units(u'S' * g.choice([0, 1, 126, 127, 128]))
            bag.add([plain_file(g, c, Layout(g, noise=True))], [open_(), {'op': 'sys', 'r': 1}])
    long_logs(g, bag, ('net', 'key', 'value', 'file', 'dir', 'proc'))


def c24(g, bag, k):
    ms = []
    F = gen
    for o in sorted(V.REGISTRY):
        ms += times(4, lambda g, c, o=o: F.registry(g, c, o))
    for o in ('RegOpenKey', 'RegCreateKey'):
        for d in (0, 1, 2, 3, 0x101, 0x10001, 0x1000001, 0xffffffff):
            for m in (0, 0x20019, 0x2000000):
                ms.append(lambda g, c, o=o, d=d, m=m: F.registry(g, c, V.code(V.REGISTRY, o), extra=True, disp=d, mask=m))
            ms.append(lambda g, c, o=o: F.registry(g, c, V.code(V.REGISTRY, o), extra=False))
    for d in [0, 1, 2, 3, 4, 5, 6, 7, 200, 255]:
        for r in [None, 0, 1, 2, 3, 4, 5, 6, 0x100, 0x10001, 0x80000000, 0xffffffff]:
            ms.append(lambda g, c, d=d, r=r: F.create_file(g, c, disp=d, result=r))
    for ctl in sorted(V.CONTROLS):
        for o in ('FileSystemControl', 'DeviceIoControl'):
            ms.append(lambda g, c, o=o, ctl=ctl: F.control(g, c, o, ctl))
    ms += times(20 * k, F.control)
    ms += [lambda g, c, v=v: F.disposition(g, c, v) for v in (0, 1, 2, 3, 4, 8, 0x7f, 0x80, 0xff) for _ in (0, 1)]
    for o in sorted(V.FILE):
        n = V.FILE[o]
        for s in (range(0, 256) if n in V.SUBS else (0, 0, 9)):
            if s < 90 or s > 250 or k > 1:
                ms.append(lambda g, c, o=o, s=s: F.plain_file(g, c, o, s))
    for o in sorted(V.NETWORK):
        ms += times(3, lambda g, c, o=o: F.network(g, c, o))
    for o in sorted(V.PROCESS):
        ms += times(2, lambda g, c, o=o: F.process(g, c, o))
    ms += times(4, F.profiling) + times(100 * k, F.any_event)
    g.shuffle(ms)
    spread(g, bag, ms)


def c25(g, bag, k):
    R = lambda n: V.code(V.REGISTRY, n)
    words = [
        (lambda g, c, m: gen.registry(g, c, R(g.choice(['RegOpenKey', 'RegCreateKey'])), mask=m, extra=False), 32, V.REGACCESS),
        (lambda g, c, m: granted(g, c, R(g.choice(['RegOpenKey', 'RegCreateKey'])), m), 32, V.REGACCESS),
        (lambda g, c, m: gen.create_file(g, c, access=m), 32, V.FILEACCESS),
        (lambda g, c, m: gen.create_file(g, c, opts=m), 24, V.OPTIONS),
        (lambda g, c, m: gen.create_file(g, c, attr=m), 16, V.ATTRIBUTES),
        (lambda g, c, m: gen.create_file(g, c, share=m), 16, V.SHARES),
        (lambda g, c, m: gen.read_write(g, c, g.choice(['ReadFile', 'WriteFile']), m), 32, V.IOFLAGS),
        (lambda g, c, m: gen.notify(g, c, m), 32, V.NOTIFY)]
    ms = []
    for f, bits, table in words:
        full = (1 << bits) - 1
        ws = set([0, full])
        for b in range(bits):
            ws |= {1 << b, full ^ (1 << b)}
        comps = [m & full for m, _ in table if bin(m).count('1') > 1]
        for m in comps:
            ws.add(m)
            for b in range(bits):
                ws.add(m ^ (1 << b))
            for m2 in comps:
                ws.add(m | m2)
        ws |= {sum(m for m, _ in table) & full, 0xf0000000 & full, 0x80000000 & full, 0xc0000000 & full}
        pairs = [(1 << a) | (1 << b) for a in range(bits) for b in range(a)]
        ws |= set(pairs if k > 1 else g.sample(pairs, min(len(pairs), 60)))
        ws |= set(g.getrandbits(bits) for _ in range(30 * k))
        known = [m & full for m, _ in table]
        for _ in range(25 * k):
            m = 0
            for x in g.sample(known, min(len(known), g.choice([2, 3, 5]))):
                m |= x
            ws.add(m)
        if len(ws) > 420 and k == 1:
            must = {1 << b for b in range(bits)} | {0, full} | set(comps)
            ws = must | set(g.sample(sorted(ws - must), 420 - len(must)))
        ms += [lambda g, c, f=f, m=m: f(g, c, m) for m in sorted(ws)]
    g.shuffle(ms)
    spread(g, bag, ms, per=30, content=lambda g, **kw: small_content(g, nprocs=1, nstrings=2, hosts=0, ports=0, **kw))


def c26(g, bag, k):
    E, D, H = gen.EPOCH, gen.DAY, 36 * 10 ** 9
    marks = [u'', u'{}', u'{0}', u'%s', u'100%', u'"', u'C:\\a "b"\\c', u'a, Pid=7', u'\\', u'\n', u'{Path}', u'%d%Y', u"it's", u'\U0001f600', u'\x00'[:0] + u'\xe9']
    when = [E, E + 1, E + 9, E + 10 ** 7 - 1, E + D - 1, E + D // 2, E + D // 2 - 1, E + 10 * H, E + 13 * H, E + 9 * D + H, E + 273 * D + 10 * H + 1,
            E + 59 * D, E + 11016 * D, E + 24855 * D + 11 * H, E + 2932895 * D + D - 1]
    for i in range(34 * k):
        c = gen.content(g, nprocs=g.choice([1, 2, 4]), nstrings=g.choice([4, 20]), nmods=g.choice([0, 1, 4]), is64=i % 2 == 0, hosts=2, ports=2)
        for s in range(len(c.strings)):
            if g.maybe(.3):
                c.strings[s] = units(g.choice(marks)) + (b'\0\0' if g.maybe(.8) else b'')
        for j in range(10):
            e = gen.event(g, c, g.choice([gen.any_event, gen.file_event, gen.registry, gen.process, gen.network, gen.query_dir, gen.profiling, gen.plain_file]))
            if j % 2:
                e.date = g.choice(when)
            c.events.append(e)
        n = len(c.events)
        st, de = g.choice([(True, True), (True, True), (False, True), (True, False), (False, False)])
        calls = [open_(st=st, de=de, kind=g.choice(KINDS))]
        calls += g.choice([[dict(x, txt=True) for x in nexts(n, 1)], [{'op': 'index', 'r': 1, 'i': j, 'txt': True} for j in range(n)],
                           [{'op': 'slice', 'r': 1, 'a': NONE, 'b': NONE, 'c': NONE, 'txt': True}] + nexts(n, 1)])
        for _ in range(4):
            if calls[1]['op'] != 'slice':
                x = g.randrange(n) + 1
                calls += [{'op': 'quiet', 'do': 'render', 'x': x, 'how': [g.choice(HOWS) for _ in range(2)]}, {'op': 'look', 'x': x, 'txt': True}]
        bag.add([plain_file(g, c)], calls, tz=g.choice(ZONES))
    long_logs(g, bag, ('file', 'proc', 'dir'), txt=True)


# ---------------------------------------------------------------------------------------------------- which disagreements concern which property

TEXTPROC = {'proc:integrity', 'proc:user', 'proc:process_name', 'proc:image_path', 'proc:command_line', 'proc:company', 'proc:version', 'proc:description', 'proc:modules'}
TIMECOLS = {'csv:Date & Time', 'csv:Time of Day', 'csv:Relative Time', 'csv:Duration', 'csv:Completion Time'}
CSV_FROM = {'csv:Path': ('path',), 'csv:Operation': ('op', 'class'), 'csv:Result': ('res',), 'csv:TID': ('tid',), 'csv:Event Class': ('class',),
            'csv:Category': ('cat',), 'csv:Date & Time': ('date',), 'csv:Time of Day': ('date',), 'csv:Relative Time': ('date',), 'csv:Duration': ('dur', 'res'),
            'csv:Completion Time': ('date', 'dur', 'res'), 'csv:Process Name': ('proc:process_name',), 'csv:PID': ('proc:pid',),
            'csv:Company': ('proc:company',), 'csv:Description': ('proc:description',), 'csv:Command Line': ('proc:command_line',), 'csv:User': ('proc:user',),
            'csv:Image Path': ('proc:image_path',), 'csv:Session': ('proc:session',), 'csv:Version': ('proc:version',),
            'csv:Authentication ID': ('proc:authentication_id',), 'csv:Virtualized': ('proc:virtualized',), 'csv:Integrity': ('proc:integrity',),
            'csv:Parent PID': ('proc:parent_pid',), 'csv:Architecture': ('proc:is_process_64bit',), 'csv:Detail': ('det:', 'op', 'class')}


# ---------------------------------------------------------------------------------------------------- configurations in the caller's hands

def edit(g, opts):
    """One edit of a configuration that began as opts."""
    P = gen_pmc
    names = [o['n'] for o in opts]
    text = lambda n: b''.join(u16(x) for x in n).decode('utf-16-le', 'surrogatepass')
    k = g.choice(['set', 'set', 'del', 'move', 'append', 'append', 'insert', 'pop', 'reverse', 'empty', 'elem', 'rule', 'rule', 'font'])
    if k == 'set':
        n = g.choice(names) if names and g.maybe(.6) else P.us(g.choice(P.KNOWN + P.NEAR))
        return {'k': k, 'n': n, 'v': P.value(g, text(n))}
    lists = [n for n in names if text(n) in P.RULES + ['Columns', 'ColumnMap']] or [P.us('FilterRules')]
    if k in ('del', 'move'):
        return {'k': k, 'n': g.choice(names) if names else P.us('Columns')}
    if k == 'font':
        fonts = [n for n in names if text(n) in P.FONTS] or [P.us('LogFont')]
        i = g.randrange(14) + 1
        v = P.value(g, 'LogFont')
        return {'k': k, 'n': g.choice(fonts), 'i': i, 'x': v['n'][i - 1] if i <= 5 else v['c'][i - 6] if i <= 13 else v['u']}
    n = g.choice(lists)
    x = {'Columns': lambda: g.u16(), 'ColumnMap': lambda: g.choice(P.COLS)}.get(text(n), lambda: P.rule(g))()
    if k == 'rule' and text(n) not in P.RULES:
        k = 'elem'
    if k in ('append', 'insert'):
        return {'k': k, 'n': n, 'x': x}
    if k in ('elem', 'rule'):
        return {'k': k, 'n': n, 'i': g.choice([1, 1, 2, 3]), 'x': x}
    return {'k': k, 'n': n}


def c28(g, bag, k):
    P = gen_pmc
    for i in range(60 * k):
        opts = P.config(g, g.choice([1, 2, 3, 5])) + ([{'n': P.us(g.choice(P.RULES + ['LogFont'])), 'v': None}] if g.maybe(.6) else [])
        opts = [o if o['v'] else dict(o, v=P.value(g, 'FilterRules' if o['n'] != P.us('LogFont') else 'LogFont')) for o in opts]
        opts = [o for j, o in enumerate(opts) if o['n'] not in [x['n'] for x in opts[:j]]]
        b = P.lst(P.encode(opts))
        calls, n = [], 0
        for _ in range(g.choice([1, 2, 2, 3])):
            calls.append({'op': 'loadconf', 'b': b, 'how': g.choice(['bytes', 'bytesio', 'file'])} if g.maybe(.8) else {'op': 'conf', 'opts': opts})
            n += 1
        for _ in range(14):
            r, x = g.random(), g.randrange(n) + 1
            if r < .5:
                calls.append({'op': 'edit', 'x': x, 'e': edit(g, opts)})
            elif r < .7:
                calls.append({'op': 'dumpconf', 'x': x, 'how': g.choice(['bytes', 'bytesio', 'file'])})
            elif r < .85:
                calls.append({'op': 'lookconf', 'x': x})
            elif n < 5:
                calls.append({'op': 'reload', 'x': x} if g.maybe() else {'op': 'loadconf', 'b': b})
                n += 1
        calls += [{'op': 'lookconf', 'x': x + 1} for x in range(n)] + [{'op': 'dumpconf', 'x': x + 1} for x in range(n)] \
            + [{'op': 'lookconf', 'x': x + 1} for x in range(n)]
        bag.add(None, calls)


# ---------------------------------------------------------------------------------------------------- logs side by side

def side_by_side(g, cs, calls, **kw):
    """A session in which the first readers, one per log, each answer in a process that saw no other log."""
    pre = []
    for f, c in enumerate(cs):
        pre.append(dict(open_(f=f + 1), base=True))
        pre += [{'op': 'index', 'r': f + 1, 'i': i, 'base': True} for i in range(len(c.events))]
        pre += [{'op': 'procs', 'r': f + 1, 'base': True}, {'op': 'sys', 'r': f + 1, 'base': True}]
    return pre + calls


def c27(g, bag, k):
    for i in range(40 * k):
        if i % 4 == 0:
            c = simple_content(g, g.choice([2, 3, 4]))
        else:
            c = gen.content(g, nprocs=g.choice([1, 2, 4]), nstrings=g.choice([1, 3, 6]), nmods=2, is64=i % 2 == 0, hosts=g.choice([0, 2, 4]), ports=g.choice([0, 2, 4]))
            kinds = [gen.any_event, gen.network, gen.registry, gen.file_event, gen.process]
            for _ in range(g.choice([2, 3, 5])):
                c.events.append(gen.event(g, c, g.choice(kinds)))
        cs = [c, (gen.cousin if g.maybe(.25) else gen.sibling)(g, c)] + ([gen.sibling(g, c)] if g.maybe(.3) else [])
        if g.maybe(.1):
            cs[1] = simple_content(g, 2)
        g.shuffle(cs)
        n = [len(x.events) for x in cs]
        calls, rs = [], []
        base = len(cs)

        def opener(f):
            calls.append(open_(f=f + 1, st=g.maybe(.8), de=g.maybe(.8), kind=g.choice(KINDS)))
            rs.append(f)
        first = list(range(len(cs)))
        g.shuffle(first)
        for f in first[:g.choice([1, 2, 3])]:
            opener(f)
        for _ in range(30):
            x = g.random()
            j = g.randrange(len(rs))
            r, m = base + j + 1, n[rs[j]]
            if x < .5 and m:
                calls.append({'op': 'index', 'r': r, 'i': g.randrange(m)})
            elif x < .7:
                calls.append({'op': 'next', 'r': r})
            elif x < .77:
                calls.append({'op': 'procs', 'r': r})
            elif x < .82:
                calls.append({'op': 'sys', 'r': r})
            elif x < .86:
                calls.append({'op': 'readall', 'f': g.randrange(len(cs)) + 1, 'how': g.choice(['path', 'stream'])})
            elif x < .9:
                calls.append({'op': 'drain', 'r': r})
            elif len(rs) < 6:
                opener(g.choice([f for f in range(len(cs)) if f not in rs] or list(range(len(cs)))))
        for f in range(len(cs)):
            if f not in rs:
                opener(f)
        for j, f in enumerate(rs):
            calls += [{'op': 'index', 'r': base + j + 1, 'i': i} for i in range(n[f])] + [{'op': 'procs', 'r': base + j + 1}, {'op': 'sys', 'r': base + j + 1}]
        bag.add([plain_file(g, x) for x in cs], side_by_side(g, cs, calls), apart=True)
    # one log after the other, the first one gone
    for i in range(12 * k):
        c = rich_content(g, is64=i % 2 == 0, n=4)
        cs = [c] + [gen.sibling(g, c) for _ in range(3)]
        calls = []
        for f in range(4):
            if g.maybe(.7):
                calls.append(open_(f=f + 1, kind=g.choice(KINDS)))
                calls += [{'op': g.choice(['next', 'next', 'index']), 'r': 0, 'i': g.randrange(4)} for _ in range(4)] + [{'op': 'procs', 'r': 0}, {'op': 'sys', 'r': 0}]
                calls = [dict(x, r=4 + sum(y['op'] == 'open' for y in calls)) if x.get('r') == 0 else x for x in calls]
            else:
                calls.append({'op': 'readall', 'f': f + 1, 'how': g.choice(['path', 'stream'])})
        bag.add([plain_file(g, x) for x in cs], side_by_side(g, cs, calls), apart=True)


OBJECT_PARTS = ('proc', 'tid', 'what', 'date', 'dur', 'res', 'stack', 'path', 'cat')


def shown(g):
    """What is asked of an object beside its fields."""
    return {'csv': [g.choice([None, None, '116444736000000001', '131000000000000000'])] if g.maybe(.7) else [], 'dt': g.maybe(.4), 'txt': g.maybe(.5)}


def building(g):
    return {'cls': g.choice(['name', 'member', 'number']), 'op': g.choice(['name', 'name', 'member']), 'proc': g.choice(['same', 'same', 'name', 'place', 'sparse']),
            'call': g.choice(['name', 'place', 'sparse'])}


def copying(g, within):
    return g.choice(['deepcopy', 'pickle', 'pickle2'] + ['copy', 'copy'] * (not within))


def object_call(g, l, within):
    """l: a letter of MC_Objects, the numbers of its objects resolved; within: objects are also altered from within, and therefore
    not copied but deeply."""
    if l['k'] == 'build':
        return dict({'op': 'build', 'parts': l['from'], 'how': building(g)}, **shown(g))
    if l['k'] == 'copy':
        return dict({'op': 'copy', 'x': l['x'], 'how': copying(g, within)}, **shown(g))
    return dict({'op': 'set', 'x': l['x'], 'q': l['q'], 'y': l['y'], 'within': within and g.maybe(.7)}, **shown(g))


def deliveries(g, r, f, n):
    """The events of log f, read plainly."""
    return [dict(open_(f=f), base=True)] + [{'op': 'index', 'r': r, 'i': i, 'base': True, 'csv': [None], 'dt': True, 'txt': True} for i in range(n)]


def object_content(g, n, is64=None):
    c = gen.content(g, nprocs=g.choice([1, 2, 3]), nstrings=g.choice([2, 5]), nmods=2, hosts=1, ports=1, is64=is64)
    kinds = [gen.any_event, gen.network, gen.registry, gen.file_event, gen.process, gen.create_file]
    alike = g.choice(kinds) if g.maybe(.4) else None
    for _ in range(n):
        c.events.append(gen.event(g, c, alike or g.choice(kinds)))
        if len(c.events) > 1 and g.maybe(.3):
            c.events[-1] = echo(g, c)
    return c


WIDE_PARTS = ('authentication_id', 'start_time', 'end_time', 'date_filetime', 'duration', 'base_address')
NUMBER_PARTS = ('pid', 'parent_pid', 'session', 'virtualized', 'size', 'timestamp', 'tid', 'result') + WIDE_PARTS


def given_value(g, part, v):
    """A value for a part, of those a record can hold."""
    if part in NUMBER_PARTS:
        top = (1 << 64) - 1 if part in WIDE_PARTS else 0xffffffff
        return 'int:%d' % [0, 0, 1, top, top - 1, top // 2 + 1, top // 2, 0xffff & top, 0x10000, 0x7fffffff, 0x80000000, 0xff][v] if v < 12 else 'int:%d' % (g.u64() & top)
    if part == 'is_process_64bit':
        return 'truth:' + str(v % 2 == 1)
    if part in ('modules', 'stacktrace'):
        return 'list:' + ' '.join(str(g.u64()) for _ in range(v % 4 if v else 1)) if part == 'stacktrace' or v % 2 else 'list:'
    pool = [u'', u' ', u'x', u'a b', u' a', u'a ', u'A', u'\t', u'a\n', u'0', u'None', u'a_b', u'"q"', u'%s', u'{}', u'\u05d0', u'C:\\a\\', u'\xe9']
    return u'text:' + (pool[v] if v % 3 == 0 else g.choice(pool))


def c29(g, bag, k):
    # objects of which only some parts are given
    names = {'Event': ['process', 'tid', 'operation', 'date_filetime', 'result', 'stacktrace', 'category', 'path', 'duration', 'details'],
             'Process': ['pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity', 'user', 'process_name', 'image_path',
                         'command_line', 'company', 'version', 'description', 'start_time', 'end_time', 'modules'],
             'Module': ['base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp']}
    calls = []
    for kind in sorted(names):
        l, one = names[kind], ['event_class'] * (kind == 'Event')
        sets = [[]] + [[n] for n in l] + [[m for m in l if m != n] for n in l] + [g.sample(l, g.randrange(1, len(l))) for _ in range(6)]
        calls += [{'op': 'bare', 'q': kind, 'parts': one + x, 'vals': []} for x in sets]
        # and what is given is kept as it is
        for v in range(18):
            some = l if v < 12 else g.sample(l, g.randrange(1, len(l)))
            calls.append({'op': 'bare', 'q': kind, 'parts': one, 'vals': [[m, given_value(g, m, v)] for m in sorted(some) if m not in ('process', 'details')]})
    g.shuffle(calls)
    c = object_content(g, 2)
    bag.add([plain_file(g, c)], deliveries(g, 1, 1, 2) + calls)
    for i in range(60 * k):
        two = g.maybe(.3)
        c = object_content(g, g.choice([2, 3, 5]), is64=i % 2 == 0)
        cs = [c] + ([gen.sibling(g, c) if g.maybe(.6) else object_content(g, 2)] if two else [])
        calls, n, within = [], 0, g.maybe()
        for f, x in enumerate(cs):
            calls += deliveries(g, f + 1, f + 1, len(x.events))
            n += len(x.events)
        any_ = lambda: g.randrange(n) + 1
        for _ in range(30):
            r = g.random()
            if r < .3:
                a, b = any_(), any_()
                mixed = g.maybe(.3)
                few = g.sample(OBJECT_PARTS, g.choice([0, 1, 1, 2, 4]))
                parts = {q: any_() if mixed else b if q in few else a for q in OBJECT_PARTS}
                for q in ('tid', 'dur', 'res'):
                    if g.maybe(.08):
                        parts[q] = 0
                calls.append(object_call(g, {'k': 'build', 'from': parts}, within))
                n += 1
            elif r < .4:
                calls.append(object_call(g, {'k': 'copy', 'x': any_()}, within))
                n += 1
            elif r < .6:
                calls.append(object_call(g, {'k': 'set', 'x': any_(), 'q': g.choice(OBJECT_PARTS), 'y': any_()}, within))
            elif r < .75:
                calls.append(dict({'op': 'look', 'x': any_()}, **shown(g)))
            elif r < .95:
                calls.append({'op': 'eq', 'x': any_(), 'y': any_()})
            else:
                f = g.randrange(len(cs))
                calls.append(dict({'op': 'index', 'r': f + 1, 'i': g.randrange(len(cs[f].events))}, **shown(g)))
                n += 1
        calls += [dict({'op': 'look', 'x': x}, **shown(g)) for x in g.sample(range(1, n + 1), min(n, 8))]
        bag.add([plain_file(g, x) for x in cs], calls, tz=g.choice(ZONES) if g.maybe(.3) else None)


# ---------------------------------------------------------------------------------------------------- threads

def turns(g, n):
    """Who goes on after whom: from a seed, after a few bursts that are written down."""
    return {'grain': g.choice(['io', 'line', 'line', 'op', 'deep']), 'seed': g.getrandbits(32), 'most': g.choice([0, 3, 5, 8]),
            'bursts': [[g.randrange(n) + 1, g.choice([1, 2, 3, 7, 20])] for _ in range(g.choice([0, 4, 12]))]}


def alone(nfiles, nevs, csv):
    """Everything, read plainly before the threads begin."""
    calls = []
    for f in range(nfiles):
        calls += [dict(c, base=True, **(csv if c['op'] in ('next', 'index') else {})) for c in with_reader(baseline(f + 1, nevs[f]), f + 1)]
    return [dict(c, w=0, t=1) for c in calls]


def threaded(g, files, nevs, nthreads, nrounds, csv):
    """Calls of several threads, each with readers of its own."""
    calls, rounds = alone(len(files), nevs, csv), [{'grain': 'io'}]
    readers, regs = len(files), sum(nevs)
    first = regs
    own = {t: [] for t in range(1, nthreads + 1)}       # reader, file
    held = {t: [] for t in own}
    for w in range(1, nrounds + 1):
        plan = turns(g, nthreads)
        rounds.append(plan)
        for t in sorted(own):
            for _ in range(g.choice([1, 1, 2, 4])):
                x = g.random()
                if not own[t] or x < .1:
                    f = g.randrange(len(files)) + 1
                    readers += 1
                    c = open_(f=f, kind=g.choice(KINDS), st=g.maybe(.8), de=g.maybe(.8), step=plan['grain'] == 'io')
                    own[t].append((readers, f))
                else:
                    r, f = g.choice(own[t][-2:])
                    n = nevs[f - 1]
                    if x < .4:
                        c = dict({'op': 'next', 'r': r}, **csv)
                    elif x < .65:
                        c = dict({'op': 'index', 'r': r, 'i': g.randrange(-n - 1, n + 1)}, **csv)
                    elif x < .73:
                        c = {'op': 'slice', 'r': r, 'a': g.choice([NONE, 0, 1, -2]), 'b': NONE, 'c': g.choice([NONE, -1, 2])}
                    elif x < .77:
                        c = {'op': g.choice(['drain', 'reversed']), 'r': r}
                    elif x < .83:
                        c = {'op': g.choice(['procs', 'sys', 'len']), 'r': r}
                    elif x < .86:
                        c = {'op': 'readall', 'f': f, 'how': g.choice(['path', 'stream'])}
                    elif x < .92 and held[t]:
                        c = dict({'op': 'look', 'x': g.choice(held[t])}, **csv)
                    elif x < .96 and held[t]:
                        c = {'op': 'stable', 'x': g.choice(held[t]), 'how': g.sample(HOWS, 2)}
                    else:
                        c = {'op': 'eq', 'x': g.choice(held[t] or [1]), 'y': g.randrange(first) + 1} if first else {'op': 'len', 'r': r}
                    if c['op'] in ('next', 'index'):
                        regs += 1
                        held[t].append(regs)
                calls.append(dict(c, w=w, t=t))
    return calls, rounds


def c30(g, bag, k):
    for i in range(30 * k):
        nfiles = g.choice([1, 2, 2, 3])
        cs = [simple_content(g, g.choice([2, 3, 5])) for _ in range(nfiles)]
        if nfiles > 1 and g.maybe(.4):
            cs[1] = gen.sibling(g, cs[0])
        for c in cs:
            for _ in range(g.choice([1, 3])):
                c.events.append(gen.event(g, c, gen.any_event))
        csv = {'csv': [None], 'txt': True, 'dt': True} if g.maybe(.3) else {}
        files = [plain_file(g, c) for c in cs]
        calls, rounds = threaded(g, files, [len(c.events) for c in cs], g.choice([2, 2, 3, 4]), g.choice([3, 6]), csv)
        bag.add(files, calls, rounds=rounds)
    # readers opened at the same time, of logs that have everything in other places
    for i in range(10 * k):
        c = rich_content(g, n=3)
        cs = [c, gen.sibling(g, c), c, rich_content(g, n=2)][:g.choice([2, 3, 4])]
        files = [plain_file(g, x, gen.layout(g, noise=True) if g.maybe() else None) for x in cs]
        nevs = [len(x.events) for x in cs]
        calls, rounds, readers = alone(len(files), nevs, {}), [{'grain': 'io'}], len(files)
        for w in range(1, 4):
            plan = turns(g, len(files))
            rounds.append(plan)
            for t in range(1, len(files) + 1):
                readers += 1
                f = g.randrange(len(files)) + 1 if w == 3 else t
                for c in [open_(f=f, kind=g.choice(KINDS), step=plan['grain'] == 'io')] + content_calls(nevs[f - 1], readers):
                    calls.append(dict(c, w=w, t=t))
        bag.add(files, calls, rounds=rounds)
    # configurations
    P = gen_pmc
    for i in range(30 * k):
        n = g.choice([2, 2, 3, 4])
        mine = {t: [] for t in range(1, n + 1)}
        for t in mine:
            for _ in range(g.choice([1, 2, 3])):
                conf = P.config(g, g.choice([1, 2, 4, 8]))
                how = g.choice(['bytes', 'bytesio', 'file', 'raw'])
                mine[t].append(g.choice([
                    {'op': 'roundtrip', 'opts': conf, 'how': how, 'before': P.lst(g.bytes(g.choice([0, 3, 40])))}, {'op': 'dumps', 'opts': conf},
                    {'op': 'loads', 'b': P.lst(P.encode(conf)), 'how': how}, {'op': 'redump', 'b': P.lst(P.encode(conf))}]))
        calls = [dict(c, base=True, w=0, t=1) for t in sorted(mine) for c in mine[t]]
        rounds = [{'grain': 'io'}]
        sinks = 0
        for t in sorted(mine):
            before = P.lst(g.bytes(g.choice([0, 5, 300])))
            calls.append({'op': 'sink', 'b': before, 'p': g.choice([0, len(before)]), 'kind': g.choice(['bytesio', 'file', 'raw']), 'w': 0, 't': 1})
        for w in range(1, 4):
            rounds.append(turns(g, n))
            for t in sorted(mine):
                calls += [dict(c, w=w, t=t) for c in mine[t]]
                if g.maybe(.5):
                    calls.append({'op': 'dump', 's': t, 'opts': P.config(g, g.choice([1, 2])), 'w': w, 't': t})
        bag.add(None, calls, rounds=rounds)


def starts_with(*prefixes):
    return lambda cl, all_: any(cl.startswith(p) for p in prefixes)


def csv_scope(cl, all_):
    if not cl.startswith('csv:'):
        return False
    return not any(x.startswith(p) for p in CSV_FROM.get(cl, ()) for x in all_)


C25KEYS = ('Desired Access', 'Granted Access', 'Options', 'Attributes', 'ShareMode', 'I/O Flags', 'Filter')

SCOPE = {
    'C01': starts_with('roundtrip:', 'timeout'), 'C02': starts_with('redump:', 'timeout'),
    'C03': lambda cl, a: cl.startswith('dump:') and cl != 'dump:accepted' or cl == 'timeout',
    'C04': starts_with('load:', 'timeout'),
    'C05': lambda cl, a: cl.startswith(('rule:', 'eq', 'ne', 'hash', 'text', 'foreign:')) or cl == 'dump:accepted',
    'C06': starts_with('open', 'raise:', 'timeout'),
    'C07': lambda cl, a: not cl.startswith(('csv:', 'datetime', 'localtime')),
    'C08': lambda cl, a: not cl.startswith(('csv:', 'datetime', 'localtime')),
    'C09': lambda cl, a: True,
    'C10': lambda cl, a: cl in ('exception', 'proc:pid', 'tid', 'class', 'op', 'dur', 'date', 'res', 'stack', 'datetime', 'timeout', 'open'),
    'C11': starts_with('proc:', 'procs:', 'raise:', 'exception', 'open', 'timeout'),
    'C12': starts_with('sys:', 'timeout', 'open'),
    'C13': starts_with('exception', 'op', 'path', 'det:', 'timeout', 'open'),
    'C14': starts_with('exception', 'path', 'det:', 'timeout'),
    'C15': starts_with('exception', 'path', 'det:', 'timeout'),
    'C16': lambda cl, a: cl.startswith(('exception', 'path', 'det:', 'timeout')) or cl == 'op',
    'C17': lambda cl, a: cl.startswith(('exception', 'path', 'det:', 'timeout')) or cl == 'op',
    'C18': lambda cl, a: cl.startswith(('exception', 'path', 'det:', 'timeout')) or cl == 'op',
    'C19': lambda cl, a: cl in ('datetime', 'localtime') and 'date' not in a or (cl in TIMECOLS or cl == 'csv:Detail' or cl == 'csv:exception') and csv_scope(cl, a),
    'C20': csv_scope,
    'C21': lambda cl, a: not cl.startswith(('csv:', 'datetime', 'localtime')),
    'C22': lambda cl, a: True,
    'C23': lambda cl, a: cl in TEXTPROC or cl.startswith(('exception', 'path', 'det:', 'procs:', 'sys:Comp', 'sys:System Root', 'sys:Oper', 'sys:exc', 'open', 'timeout')),
    'C24': lambda cl, a: cl == 'cat',
    'C25': lambda cl, a: cl in ('exception', 'det:order') or any(cl in ('det:' + x, 'det:-' + x, 'det:+' + x) for x in C25KEYS),
    'C26': starts_with('str:', 'timeout'),
    'C28': starts_with('conf:', 'timeout'),
    'C29': lambda cl, a: True, 'C30': lambda cl, a: True,
    'C27': lambda cl, a: not cl.startswith(('csv:', 'datetime', 'localtime')),
}
# Clauses that count even when the same event already disagrees when it is read plainly.
ALWAYS = {'C07': ('raise:', 'len', 'stop', 'count', 'repeat', 'timeout', 'same'), 'C08': ('raise:', 'stop', 'count', 'repeat', 'isolation', 'timeout'),
          'C09': (), 'C21': ('raise:', 'len'), 'C22': ('eq', 'ne', 'hash', 'stable', 'same'), 'C27': ('stop', 'count', 'repeat', 'timeout'), 'C29': ('eq', 'ne', 'hash', 'same', 'timeout'),
          'C30': ('raise:', 'len', 'stop', 'count', 'repeat', 'timeout', 'eq', 'ne', 'hash', 'same')}
PMC = {'C01', 'C02', 'C03', 'C04', 'C05', 'C28'}
MAKE = {'C%02d' % i: globals()['c%02d' % i] for i in range(1, 31)}


def concerns(prop, case, bads):
    """bads: [(call number, [clauses])] of one case.  -> [(call number, [clauses that concern the property])]"""
    scope, calls = SCOPE[prop], case['calls']
    known = set()
    if prop in ALWAYS:
        for li, cls in bads:
            if calls[li - 1].get('base'):
                known |= set(cls)
    out = []
    for li, cls in bads:
        call = calls[li - 1]
        mine = [c for c in cls if scope(c, cls)]
        if prop in ALWAYS:
            if call.get('base'):
                # a fresh reader, plain indexing: only another event's identity is a matter of access
                mine = [c for c in mine if c.startswith(ALWAYS[prop])] if prop != 'C07' else \
                    [c for c in mine if c.startswith(ALWAYS[prop]) or {'tid', 'date'} <= set(cls)]
            else:
                mine = [c for c in mine if c.startswith(ALWAYS[prop]) or c not in known or (prop == 'C07' and {'tid', 'date'} <= set(cls))]
        if mine:
            out.append((li, mine))
    return out


def cases(prop, seed, scale=1):
    g = G('%s/%s' % (prop, seed))
    bag = Bag('%s-%s-' % (prop.lower(), seed))
    MAKE[prop](g, bag, scale)
    return bag.cases
