"""Builds PML files from content and layout.  No code of the repository is used."""
import struct

HEADER_SIZE = 0x3a8
LIMB = 1 << 24


def u16(v): return struct.pack('<H', v & 0xffff)
def u32(v): return struct.pack('<I', v & 0xffffffff)
def u64(v): return struct.pack('<Q', v & 0xffffffffffffffff)


def units(text):
    """UTF-16 code units of a str, lone surrogates included."""
    return text.encode('utf-16-le', 'surrogatepass')


class Mod(object):
    def __init__(self, base=0, size=0, path=0, version=0, company=0, description=0, timestamp=0):
        self.base, self.size, self.timestamp = base, size, timestamp
        self.strs = [path, version, company, description]


class Proc(object):
    def __init__(self, idx, pid=0, ppid=0, auth=0, session=0, start=0, end=0, virt=0, is64=0, strs=None, mods=()):
        self.idx, self.pid, self.ppid, self.auth, self.session = idx, pid, ppid, auth, session
        self.start, self.end, self.virt, self.is64 = start, end, virt, is64
        self.strs = strs or [0] * 8
        self.mods = list(mods)


class Ev(object):
    def __init__(self, proc, cls, op, det=b'', extra=None, tid=0, dur=0, date=0, res=0, stack=()):
        self.proc, self.cls, self.op, self.det, self.extra = proc, cls, op, det, extra
        self.tid, self.dur, self.date, self.res, self.stack = tid, dur, date, res, list(stack)
        self.raw = None            # (record bytes up to and excluding details are still generated)
        self.depth = None          # overrides
        self.dsize = None
        self.xoff = None
        self.xsize = None


class Content(object):
    def __init__(self, is64=True):
        self.is64 = is64
        self.procs, self.events, self.strings = [], [], ['']
        self.hosts, self.ports = [], []      # (16 bytes, text), (port, tcp, text)
        self.computer = u'HOST'
        self.root = u'C:\\Windows'
        self.sp = u''
        self.win = (10, 0, 19041, 0)
        self.cpus, self.ram = 4, 8 << 30
        self.is64_word = 1
        self.again = {}                      # entries of the index that point to the record of another one

    @property
    def pv(self):
        return 8 if self.is64 else 4


class Layout(object):
    """How content is laid out: everything a reader must not depend on."""
    def __init__(self, rng=None, order=None, noise=False, permute=False, far=0, extra_far=False, gaps=0,
                 table_far=0, share_strings=False, extra_where='after', xgap=0, first='region'):
        self.rng, self.noise, self.permute, self.gaps = rng, noise, permute, gaps
        self.order = order or ['events', 'index', 'processes', 'strings', 'icons', 'hosts']
        self.far = far                  # offset at which event records start (sparse)
        self.table_far = table_far      # offset at which tables start
        self.extra_where = extra_where  # 'after' each event, 'end' of the region, 'mixed'
        self.xgap = xgap                # distance to move the extra blocks away (sparse)
        self.share_strings = share_strings
        self.first = first              # what the header says of where the events are: the region, or one of the records

    def fill(self, n):
        if self.noise and self.rng is not None:
            return bytes(bytearray(self.rng.getrandbits(8) for _ in range(n)))
        return b'\0' * n

    def gap(self):
        if not self.gaps or self.rng is None:
            return b''
        return self.fill(self.rng.randrange(self.gaps + 1))


def fixed_text(raw, size, lay):
    """A fixed header field: text, terminator, then anything."""
    if len(raw) >= size:
        return raw[:size]
    rest = size - len(raw)
    return raw + b'\0\0' + lay.fill(rest - 2)


def string_table(c, lay):
    n = len(c.strings)
    order = list(range(n))
    if lay.permute and lay.rng:
        lay.rng.shuffle(order)
    body, offs, seen = b'', [0] * n, {}
    start = 4 + 4 * n
    for i in order:
        s = c.strings[i]
        raw = s if isinstance(s, bytes) else units(s) + b'\0\0'
        if lay.share_strings and raw in seen:
            offs[i] = seen[raw]
            continue
        body += lay.gap()
        offs[i] = seen[raw] = start + len(body)
        body += u32(len(raw)) + raw
    return u32(n) + b''.join(u32(o) for o in offs) + body + lay.gap()


def process_record(p, c, lay):
    pv = (lambda v: u64(v)) if c.is64 else (lambda v: u32(v))
    f = lay.fill
    b = u32(p.idx) + u32(p.pid) + u32(p.ppid) + f(4) + u64(p.auth) + u32(p.session) + f(4) + u64(p.start) + u64(p.end)
    b += u32(p.virt) + u32(p.is64) + b''.join(u32(s) for s in p.strs) + f(8) + f(c.pv) + u32(len(p.mods))
    for m in p.mods:
        b += f(c.pv) + pv(m.base) + u32(m.size) + b''.join(u32(s) for s in m.strs) + u32(m.timestamp) + f(24)
    return b


def process_table(c, lay):
    n = len(c.procs)
    order = list(range(n))
    if lay.permute and lay.rng:
        lay.rng.shuffle(order)
    start = 4 + 8 * n
    body, offs = b'', [0] * n
    for i in order:
        body += lay.gap()
        offs[i] = start + len(body)
        body += process_record(c.procs[i], c, lay)
    idx = b''.join(u32(p.idx) for p in c.procs)
    return u32(n) + idx + b''.join(u32(o) for o in offs) + body + lay.gap()


def hosts_table(c, lay):
    b = u32(len(c.hosts))
    for ip, name in c.hosts:
        raw = name if isinstance(name, bytes) else units(name) + b'\0\0'
        b += ip + u32(len(raw)) + raw
    b += u32(len(c.ports))
    for port, tcp, name in c.ports:
        raw = name if isinstance(name, bytes) else units(name) + b'\0\0'
        b += u16(port) + u16(tcp) + u32(len(raw)) + raw
    return b


def event_parts(e, c, lay):
    pv = u64 if c.is64 else u32
    f = lay.fill
    depth = len(e.stack) if e.depth is None else e.depth
    dsize = len(e.det) if e.dsize is None else e.dsize
    head = u32(e.proc) + u32(e.tid) + u32(e.cls) + u16(e.op) + f(2) + f(4) + u64(e.dur) + u64(e.date) + u32(e.res)
    head += u16(depth) + f(2) + u32(dsize)
    tail = b''.join(pv(a) for a in e.stack) + e.det
    return head, tail


def build(c, lay=None):
    """-> list of (offset, bytes), the header first."""
    lay = lay or Layout()
    rng = lay.rng
    # event records and extra blocks, relative to the start of the events region
    order = list(range(len(c.events)))
    if lay.permute and rng:
        rng.shuffle(order)
    region = lay.gap()
    segs_x = []
    offs = [0] * len(c.events)
    later = []
    for i in order:
        e = c.events[i]
        head, tail = event_parts(e, c, lay)
        offs[i] = len(region)
        size = 52 + len(tail)
        if e.xoff is not None:
            region += head + u32(e.xoff) + tail
            if e.extra is not None:
                region += u16(len(e.extra) if e.xsize is None else e.xsize) + e.extra
        elif e.extra is None:
            region += head + u32(0) + tail
        else:
            where = lay.extra_where
            if where == 'mixed':
                where = rng.choice(['after', 'end'])
            block = u16(len(e.extra) if e.xsize is None else e.xsize) + e.extra
            if where == 'after':
                g = lay.gap()
                region += head + u32(size + len(g)) + tail + g + block
            else:
                at = len(region)
                region += head + b'XXXX' + tail
                later.append((i, at, block))
        region += lay.gap()
    xbase = lay.xgap
    if not xbase:
        for i, at, block in later:
            region += lay.gap()
            region = region[:at + 48] + u32(len(region) - at) + region[at + 52:]
            region += block
        region += lay.gap()
    else:
        xreg = b''
        start = len(region) + xbase
        for i, at, block in later:
            xreg += lay.gap()
            region = region[:at + 48] + u32(start + len(xreg) - at) + region[at + 52:]
            xreg += block
        segs_x.append((start, xreg))
    for i in c.again:
        offs[i] = offs[c.again[i]]
    index_flags = (lambda: lay.fill(1))
    parts = {
        'strings': string_table(c, lay), 'processes': process_table(c, lay), 'icons': u32(0) + lay.gap(),
        'hosts': hosts_table(c, lay), 'index': None, 'events': region,
    }
    index_len = 5 * len(c.events)
    pos = HEADER_SIZE + len(lay.gap())
    where, out = {}, []
    pos = max(pos, lay.table_far) if lay.table_far else pos
    for name in lay.order:
        g = lay.gap()
        if g:
            out.append((pos, g))
        pos += len(g)
        if name == 'events' and lay.far:
            where[name] = max(lay.far, pos)
            out.append((where[name], region))
            pos2 = where[name] + len(region)
            if segs_x:
                out.append((where[name] + segs_x[0][0], segs_x[0][1]))
                pos2 = where[name] + segs_x[0][0] + len(segs_x[0][1])
            pos = pos if lay.table_far and lay.table_far > lay.far else pos2
            continue
        where[name] = pos
        if name == 'index':
            pos += index_len
            continue
        out.append((pos, parts[name]))
        pos += len(parts[name])
        if name == 'events' and segs_x:
            out.append((where[name] + segs_x[0][0], segs_x[0][1]))
            pos = where[name] + segs_x[0][0] + len(segs_x[0][1])
    idx = b''.join(u32(where['events'] + o) + index_flags() for o in offs)
    out.append((where['index'], idx))
    f = lay.fill
    h = b'PML_' + u32(9) + u32(c.is64_word if c.is64 else 0)
    h += fixed_text(c.computer if isinstance(c.computer, bytes) else units(c.computer), 0x20, lay)
    h += fixed_text(c.root if isinstance(c.root, bytes) else units(c.root), 0x208, lay)
    h += u32(len(c.events)) + f(8)
    h += u64(where['events'] + (offs[0] if lay.first == 'index' and offs else min(offs) if lay.first == 'record' and offs else 0)) + u64(where['index']) + u64(where['processes']) + u64(where['strings']) + u64(where['icons'])
    h += f(12) + b''.join(u32(v) for v in c.win)
    h += fixed_text(c.sp if isinstance(c.sp, bytes) else units(c.sp), 0x100, lay)
    h += f(8) + u32(c.cpus) + u64(c.ram) + u64(HEADER_SIZE) + u64(where['hosts'])
    assert len(h) == HEADER_SIZE, len(h)
    out.append((0, h))
    return merge(out)


def merge(parts):
    """Sorted segments; neighbours less than 4 KiB apart become one."""
    parts = sorted((o, bytearray(b)) for o, b in parts if len(b))
    out = []
    for o, b in parts:
        if out and o - (out[-1][0] + len(out[-1][1])) <= 4096:
            po, pb = out[-1]
            assert o >= po + len(pb), 'overlapping parts'
            pb.extend(b'\0' * (o - po - len(pb)))
            pb.extend(b)
        else:
            out.append((o, bytearray(b)))
    return [(o, bytes(b)) for o, b in out]


def tla_segs(segs):
    return [{'hi': o // LIMB, 'lo': o % LIMB, 'b': list(bytearray(b))} for o, b in segs]
