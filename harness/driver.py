"""Executes planned sessions against the code under test and records what every call returned.

usage: driver.py REPO PLAN OUT   (JSON lines in, JSON lines out)

Only the public interface is used; nothing here knows what the answers should be.
"""
import sys
import os
import io
import json
import copy
import pickle
import time
import signal
import enum
import binascii
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from threads import Rounds, Stepping, forked  # noqa: E402

warnings.simplefilter('ignore')
NONE = 999999999
CALL_SECONDS = float(os.environ.get('VERIF_CALL_SECONDS', '20'))


class Timeout(BaseException):
    pass


class Injected(IOError):
    pass


def on_alarm(signum, frame):
    raise Timeout()


class Sparse(io.RawIOBase):
    """A read-only file of segments; everything else reads as zero."""
    def __init__(self, segs):
        super(Sparse, self).__init__()
        self.segs, self.pos = segs, 0
        self.size = max(o + len(b) for o, b in segs)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        base = 0 if whence == 0 else self.pos if whence == 1 else self.size
        if base + offset < 0:
            raise OSError(22, 'Invalid argument')
        self.pos = base + offset
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        n = max(0, min(len(buf), self.size - self.pos))
        start, end = self.pos, self.pos + n
        data = bytearray(n)
        for o, b in self.segs:
            lo, hi = max(o, start), min(o + len(b), end)
            if lo < hi:
                data[lo - start:hi - start] = b[lo - o:hi - o]
        buf[:n] = data
        self.pos += n
        return n


class Faulty(io.BufferedIOBase):
    """Delegates to another stream; the n-th operation after arm(n) fails."""
    def __init__(self, inner):
        super(Faulty, self).__init__()
        self.inner, self.left, self.fired = inner, None, False

    def arm(self, n):
        self.left, self.fired = n, False

    def _op(self):
        if self.left is not None:
            if self.left == 0:
                self.left, self.fired = None, True
                raise Injected('injected')
            self.left -= 1

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, size=-1):
        self._op()
        return self.inner.read(size)

    def read1(self, size=-1):
        return self.read(size)

    def readinto(self, buf):
        data = self.read(len(buf))
        buf[:len(data)] = data
        return len(data)

    def seek(self, offset, whence=0):
        self._op()
        return self.inner.seek(offset, whence)

    def tell(self):
        self._op()
        return self.inner.tell()


class Only(object):
    """Nothing but read, seek and tell."""
    def __init__(self, inner):
        self.read, self.seek, self.tell = inner.read, inner.seek, inner.tell


class Files(object):
    def __init__(self, files, scratch):
        self.files, self.scratch, self.paths, self.open = files, scratch, {}, []
        self.segs = [[(o, binascii.a2b_hex(h)) for o, h in f['segs']] for f in files]

    def flat(self, i):
        segs = self.segs[i]
        b = bytearray(max(o + len(x) for o, x in segs))
        for o, x in segs:
            b[o:o + len(x)] = x
        return bytes(b)

    def path(self, i):
        if i not in self.paths:
            p = os.path.join(self.scratch, 'f%d.pml' % i)
            with open(p, 'wb') as f:
                for o, x in self.segs[i]:
                    f.seek(o)
                    f.write(x)
            self.paths[i] = p
        return self.paths[i]

    def stream(self, i, kind):
        if kind == 'bytes':
            s = io.BytesIO(self.flat(i))
        elif kind == 'file':
            s = open(self.path(i), 'rb')
        elif kind == 'raw':
            s = open(self.path(i), 'rb', buffering=0)
        elif kind == 'smallbuf':
            s = open(self.path(i), 'rb', buffering=7)
        elif kind == 'mmap':
            import mmap
            f = open(self.path(i), 'rb')
            s = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
            f.close()
        elif kind == 'gzip':
            import gzip
            s = gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(self.flat(i), 1)))
        elif kind == 'only':
            s = Only(io.BytesIO(self.flat(i)))
        elif kind == 'sparse':
            s = Sparse(self.segs[i])
        elif kind == 'sparsebuf':
            s = io.BufferedReader(Sparse(self.segs[i]))
        elif kind == 'faulty':
            s = Faulty(io.BufferedReader(Sparse(self.segs[i])))
        else:
            raise ValueError(kind)
        self.open.append(s)
        return s

    def close(self):
        for s in self.open:
            try:
                s.close()
            except Exception:
                pass
        for p in self.paths.values():
            os.unlink(p)


# ----------------------------------------------------------------------------- projections

def counted(i, how):
    """The number i, perhaps as a number of a derived type."""
    if how == 'bool' and i in (0, 1):
        return bool(i)
    if how:
        return enum.IntEnum('Place', {'here': i}).here
    return i


def hexint(v):
    if isinstance(v, bool) or not isinstance(v, int):
        return '?' + repr(v)
    return '%x' % v if v >= 0 else '-%x' % -v


def text(v):
    return str.__str__(v) if isinstance(v, str) and type(v) is str else '?' + repr(v)


def flag(v):
    return '1' if v is True else '0' if v is False else '?' + repr(v)


def module(m):
    return [hexint(m.base_address), hexint(m.size), text(m.path), text(m.version), text(m.company),
            text(m.description), hexint(m.timestamp)]


def process(p):
    return {'f': [hexint(p.pid), hexint(p.parent_pid), hexint(p.authentication_id), hexint(p.session),
                  hexint(p.virtualized), flag(p.is_process_64bit), text(p.integrity), text(p.user),
                  text(p.process_name), text(p.image_path), text(p.command_line), text(p.company), text(p.version),
                  text(p.description), hexint(p.start_time), hexint(p.end_time)],
            'mods': [module(m) for m in p.modules]}


def detail(k, v):
    d = {'k': text(k), 't': '?', 's': '', 'l': []}
    if isinstance(v, bool):
        d['t'] = '?' + repr(v)
    elif isinstance(v, int):
        d['t'], d['s'] = 'i', hexint(v)
    elif type(v) is str:
        d['t'], d['s'] = 's', v
    elif isinstance(v, (bytes, bytearray)):
        d['t'], d['s'] = 'b', binascii.b2a_hex(bytes(v)).decode('ascii')
    elif isinstance(v, (list, tuple)):
        d['t'], d['l'] = 'l', [text(x) for x in v]
    else:
        d['t'] = '?' + repr(v)
    return d


def iso(d):
    return d.strftime('%%04d-%m-%dT%H:%M:%S.%f') % d.year if d.year < 10000 else '?'


def printed(x):
    try:
        return text(str(x))
    except Exception as ex:
        return '!' + type(ex).__name__ + ': ' + str(ex)


FILETIME_1970 = 116444736000000000


def event(e, csv=(), dt=False, txt=False):
    o = {'k': 'event', 'proc': process(e.process), 'tid': hexint(e.tid), 'dur': hexint(e.duration),
         'date': hexint(e.date_filetime), 'res': hexint(e.result), 'cls': text(e.event_class.name),
         'op': text(e.operation), 'stack': [hexint(a) for a in e.stacktrace], 'path': text(e.path),
         'cat': text(e.category), 'det': [detail(k, v) for k, v in e.details.items()],
         'dt': '', 'dtl': '', 'tz': 0, 'csv': [], 'txt': []}
    if txt:
        o['txt'] = [printed(e), printed(e.process), [printed(m) for m in e.process.modules]]
    if dt:
        secs = (e.date_filetime - FILETIME_1970) // 10000000
        if 0 <= secs < 253402300800:
            o['dt'] = iso(e.date())
            if secs < 253402300800 - 172800:
                off = time.localtime(secs).tm_gmtoff
                if off % 60 == 0:
                    o['tz'] = off // 60
                    o['dtl'] = iso(e.date(is_utc=False))
    for first in csv:
        r = {'first': [], 'exc': '', 'rec': []}
        try:
            if first is None:
                rec = e.get_compatible_csv_info()
            else:
                r['first'] = list(bytearray(int(first).to_bytes(8, 'little')))
                rec = e.get_compatible_csv_info(int(first))
            r['rec'] = [[text(k), text(v)] for k, v in rec.items()]
        except Exception as ex:
            r['exc'] = type(ex).__name__ + ': ' + str(ex)
        o['csv'].append(r)
    return o


def mro(ex):
    return [c.__name__ for c in type(ex).__mro__]


# ----------------------------------------------------------------------------- calls

VARY_EVENT = ['tid', 'operation', 'date_filetime', 'result', 'duration', 'stacktrace', 'category', 'path', 'details',
              'details+', 'details-', 'event_class', 'process']
VARY_PROCESS = ['pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity',
                'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description',
                'start_time', 'end_time', 'modules']
VARY_MODULE = ['base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp']
FOREIGN = ['None', 'str', 'tuple', 'dict', 'process', 'object', 'int']


def other(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int) and not hasattr(v, 'name'):
        return v ^ 1
    if isinstance(v, str):
        return v + u'x'
    if isinstance(v, list):
        return v + [1]
    if hasattr(v, 'name'):
        return [m for m in type(v) if m is not v][0]
    return (v, 1)


def varied(e, field):
    """Pairs of objects that differ in exactly the named field."""
    kind, name = field.split('.', 1)
    if kind == 'Event':
        f = copy.copy(e)
        if name == 'details':
            f.details = e.details.copy()
            if not f.details:
                f.details['x'] = 1
            else:
                k = list(f.details)[len(f.details) // 2]
                f.details[k] = other(f.details[k])
        elif name == 'details+':
            f.details = e.details.copy()
            f.details['\x7fnew'] = 0
        elif name == 'details-':
            f.details = e.details.copy()
            if f.details:
                f.details.popitem()
            else:
                f.details['x'] = 1
        elif name == 'process':
            f.process = copy.copy(e.process)
            f.process.pid = e.process.pid ^ 1
        else:
            setattr(f, name, other(getattr(e, name)))
        return [(e, f), (f, e)]
    if kind == 'Process':
        p = copy.copy(e.process)
        if name == 'modules' and p.modules:
            p.modules = p.modules[:-1]
        else:
            setattr(p, name, other(getattr(p, name)))
        f = copy.copy(e)
        f.process = p
        return [(e.process, p), (p, e.process), (e, f)]
    if kind == 'Module':
        if not e.process.modules:
            return []
        m0 = e.process.modules[len(e.process.modules) // 2]
        m = copy.copy(m0)
        setattr(m, name, other(getattr(m, name)))
        p = copy.copy(e.process)
        p.modules = list(p.modules)
        p.modules[len(p.modules) // 2] = m
        return [(m0, m), (m, m0), (e.process, p)]
    x = {'None': None, 'str': str(e), 'tuple': (e.tid,), 'dict': dict(getattr(e, '__dict__', {})), 'process': e.process,
         'object': object(), 'int': 0}[name]
    pairs = [(e, x)]
    if name != 'process':
        pairs += [(e.process, x)] + [(m, x) for m in e.process.modules[:1]]
    else:
        pairs += [(e.process, e)] + [(m, e.process) for m in e.process.modules[:1]]
    return pairs


def render(e, how):
    if how == 'str':
        return str(e)
    if how == 'repr':
        return repr(e)
    if how == 'hash':
        return hash(e)
    if how == 'date':
        return repr(e.date())
    if how == 'localdate':
        return repr(e.date(is_utc=False))
    if how == 'csv':
        return repr(e.get_compatible_csv_info())
    if how == 'csv1':
        return repr(e.get_compatible_csv_info(e.date_filetime - 1))
    if how == 'process':
        return str(e.process) + repr(e.process) + str(hash(e.process))
    if how == 'modules':
        return ''.join(str(m) + repr(m) + str(hash(m)) for m in e.process.modules)
    if how == 'eq':
        return repr((e == e, e != e, e.process == e.process, e == None))  # noqa: E711
    raise ValueError(how)


def mutate(e, what):
    if what == 'details':
        e.details['\x7fmine'] = 'x'
        for k in list(e.details)[:-1]:
            del e.details[k]
    elif what == 'stack':
        e.stacktrace.append(1)
        e.stacktrace.insert(0, 2)
    elif what == 'lists':
        for v in e.details.values():
            if isinstance(v, list):
                v.append('mine')
    elif what == 'fields':
        e.tid, e.path, e.category, e.operation, e.result, e.duration, e.date_filetime = 7, 'mine', 'Mine', 'Op', 1, 2, 3
    elif what == 'process':
        e.process = None
    elif what == 'all':
        for w in ('lists', 'details', 'stack', 'fields', 'process'):
            mutate(e, w)


PARTS = ['process', 'tid', 'event_class', 'operation', 'duration', 'date_filetime', 'result', 'stacktrace', 'category', 'path', 'details']
PART = {'proc': ['process'], 'tid': ['tid'], 'what': ['event_class', 'operation', 'details'], 'date': ['date_filetime'], 'dur': ['duration'],
        'res': ['result'], 'stack': ['stacktrace'], 'path': ['path'], 'cat': ['category']}
PROCESS_PARTS = ['pid', 'parent_pid', 'authentication_id', 'session', 'virtualized', 'is_process_64bit', 'integrity', 'user', 'process_name',
                 'image_path', 'command_line', 'company', 'version', 'description', 'start_time', 'end_time', 'modules']
MODULE_PARTS = ['base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp']
DEFAULTS = {'start_time': None, 'end_time': None, 'is_process_64bit': False, 'modules': [], 'date_filetime': None, 'process': None, 'event_class': None,
            'operation': None, 'stacktrace': None, 'category': None, 'path': None, 'details': None}


def default(name, kind):
    texts = {'Process': PROCESS_PARTS[6:14], 'Module': ['path', 'version', 'company', 'description'], 'Event': []}[kind.__name__]
    return '' if name in texts else DEFAULTS.get(name, 0)


def construct(kind, names, values, how):
    """An object of the kind with these values, which are given by place or by name; how 'sparse': what is the default is left out."""
    if how == 'place':
        return kind(*values)
    if how == 'sparse':
        return kind(**{n: v for n, v in zip(names, values) if not (type(v) is type(default(n, kind)) and v == default(n, kind))})
    return kind(**dict(zip(names, values)))


def again(x, names, how):
    if how == 'sparse' and names is PROCESS_PARTS:
        construct(type(x), names, [default(n, type(x)) for n in names], how).modules.append(None)       # another one, altered
    values = {n: [again(m, MODULE_PARTS, how) for m in x.modules] if n == 'modules' else getattr(x, n) for n in names}
    if how == 'place' and 'pid' in values:
        values['is_process_64bit'] = [0, x.pid | 2][bool(values['is_process_64bit'])]       # any number that is true
    return construct(type(x), names, [values[n] for n in names], how)


def built(get, parts, how):
    """An event from parts of others, through the public constructors."""
    values = {}
    for q, x in parts.items():
        for name in PART[q] if x else []:
            v = getattr(get(x), name)
            values[name] = copy.deepcopy(v) if name in ('details', 'stacktrace') else v
    cls, op = values['event_class'], values['operation']
    if how['op'] == 'member':
        import procmon_parser.consts as K
        table = {'Process': K.ProcessOperation, 'Registry': K.RegistryOperation, 'File_System': K.FilesystemOperation, 'Profiling': K.ProfilingOperation,
                 'Network': K.NetworkOperation}[cls.name]
        values['operation'] = table.__members__.get(op, op)
    values['event_class'] = {'name': cls.name, 'number': int(cls.value), 'member': cls}[how['cls']]
    if how['proc'] != 'same':
        values['process'] = again(values['process'], PROCESS_PARTS, how['proc'])
    kind = type(get(parts['what']))
    names = [n for n in PARTS if n in values] if how['call'] != 'place' else PARTS
    return construct(kind, names, [values[n] if n in values else default(n, kind) for n in names], how['call'])


TOKENS = {'int': int, 'text': lambda t: t, 'none': lambda t: None, 'truth': lambda t: t == 'True', 'list': lambda t: [int(x) for x in t.split()]}


def token(v, truth=False):
    """What a part holds, as one text."""
    if truth:
        return 'truth:' + str(bool(v))
    if v is None:
        return 'none:'
    if isinstance(v, list):
        return 'list:' + ' '.join(str(x) for x in v)
    return ('int:%d' % v) if isinstance(v, int) else 'text:' + v


def bare(kind, given, vals=()):
    """An object of which only some parts are given, after another one like it was altered from within."""
    import procmon_parser.logs as logs
    cls = getattr(logs, kind)
    names = {'Event': PARTS, 'Process': PROCESS_PARTS, 'Module': MODULE_PARTS}[kind]
    values = {'modules': [logs.Module(1)], 'stacktrace': [1], 'details': {'x': 1}, 'event_class': 'Process', 'process': logs.Process(pid=4),
              'is_process_64bit': True, 'operation': 'Load_Image'}
    vals = dict(vals)
    for n in vals:
        t, _, rest = vals[n].partition(':')
        values[n] = TOKENS[t](rest)

    def make():
        return cls(**{n: values.get(n, 5 if type(default(n, cls)) is int or n in ('start_time', 'end_time', 'date_filetime') else 'x') for n in given + sorted(vals)})
    first = make()
    for n in names:
        v = getattr(first, n)
        if n not in given and n not in vals and isinstance(v, (list, dict)):
            v.append(1) if isinstance(v, list) else v.update(x=1)
    second, third = make(), make()
    copies = [COPIES[how](second) for how in sorted(COPIES)]
    return {'k': 'bare', 'f': [[n, repr(getattr(second, n))] for n in names if n not in given and n not in vals],
            'eq': second == third and not second != third and all(second == x and not x != second for x in copies),
            'h': [[n, token(getattr(x, n), n == 'is_process_64bit')] for x in [second] + copies for n in sorted(vals)]}


COPIES = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda x: pickle.loads(pickle.dumps(x)),
          'pickle2': lambda x: pickle.loads(pickle.dumps(x, 2))}


class Session(object):
    def __init__(self, pp, case, scratch):
        self.pp, self.case = pp, case
        self.files, self.scratch, self.rounds = Files(case['files'], scratch), scratch, None
        # every reader and every event has its place, by the order of the calls
        self.readers, self.streams, self.regs, self.place = [], [], [], []
        for c in case['calls']:
            if c['op'] == 'open':
                self.place.append(len(self.readers))
                self.readers.append(None)
                self.streams.append(None)
            elif c['op'] in ('next', 'index', 'build', 'copy'):
                self.place.append(len(self.regs))
                self.regs.append(None)
            else:
                self.place.append(None)

    def call(self, c, at):
        op = c['op']
        csv, dt, txt = c.get('csv', ()), c.get('dt', False), c.get('txt', False)
        if op == 'open':
            i = c['f'] - 1
            if c.get('share'):
                s = self.streams[c['share'] - 1]
                if isinstance(s, Faulty):
                    s.arm(None)
                s.seek(0)
            else:
                s = self.files.stream(i, c.get('kind', 'bytes'))
                if self.rounds is not None and c.get('step'):
                    s = Stepping(s, self.rounds)
            self.streams[at] = s
            if c['st'] and c['de'] and not c.get('explicit'):
                self.readers[at] = self.pp.ProcmonLogsReader(s)
            elif c.get('positional'):
                self.readers[at] = self.pp.ProcmonLogsReader(s, c['st'], c['de'])
            else:
                self.readers[at] = self.pp.ProcmonLogsReader(s, should_get_stacktrace=c['st'],
                                                             should_get_details=c['de'])
            return {'k': 'opened'}
        if op == 'readall':
            i = c['f'] - 1
            x = self.files.path(i) if c.get('how') == 'path' else self.files.stream(i, c.get('kind', 'bytes'))
            return {'k': 'events', 'e': [event(e, csv, dt, txt) for e in self.pp.read_all_events_from_pml(x)]}
        if op == 'quiet':
            if c['do'] == 'seek':
                s = self.streams[c['r'] - 1]
                if isinstance(s, Faulty):
                    s.arm(None)
                try:
                    s.seek(c['pos'])
                except (ValueError, OSError):
                    s.seek(0)
            elif c['do'] == 'mutate':
                if self.regs[c['x'] - 1] is not None:
                    mutate(self.regs[c['x'] - 1], c['what'])
            elif c['do'] == 'render':
                if self.regs[c['x'] - 1] is not None:
                    for how in c['how']:
                        try:
                            render(self.regs[c['x'] - 1], how)
                        except Exception:
                            pass        # judged by "look" and "stable"
            elif c['do'] == 'iter':
                iter(self.readers[c['r'] - 1])
            elif c['do'] == 'proclist':
                ps = self.readers[c['r'] - 1].processes()
                ps.reverse()
                del ps[:1]
            elif c['do'] == 'sysdict':
                self.readers[c['r'] - 1].system_details().clear()
            elif c['do'] == 'abandon':      # a for loop over a fresh slice, left early
                try:
                    for _ in self.readers[c['r'] - 1][0:2]:
                        break
                except Exception:
                    pass        # judged by "slice"
            else:
                raise ValueError(c['do'])
            return {'k': 'none'}
        if op == 'bare':
            return bare(c['q'], c['parts'], c['vals'])
        if op in ('build', 'copy', 'set'):
            def get(k):
                if self.regs[k - 1] is None:
                    raise LookupError('NoEvent')
                return self.regs[k - 1]
            if op == 'set':
                for name in PART[c['q']]:
                    v = getattr(get(c['y']), name)
                    if c.get('within') and name in ('details', 'stacktrace'):      # what is there is altered, not replaced
                        mine, v = getattr(get(c['x']), name), copy.deepcopy(v)
                        if name == 'details':
                            mine.clear()
                            mine.update(v)
                        else:
                            mine[:] = v
                        continue
                    setattr(get(c['x']), name, copy.deepcopy(v) if name in ('details', 'stacktrace') else v)
                return event(get(c['x']), csv, dt, txt)
            self.regs[at] = built(get, c['parts'], c['how']) if op == 'build' else COPIES[c['how']](get(c['x']))
            return event(self.regs[at], csv, dt, txt)
        if op in ('look', 'eq', 'vary', 'stable'):
            e = self.regs[c['x'] - 1]
            if e is None:
                return {'k': 'raise', 'mro': ['NoEvent']}
            if op == 'look':
                return event(e, csv, dt, txt)
            if op == 'eq':
                g = self.regs[c['y'] - 1]
                if g is None:
                    return {'k': 'raise', 'mro': ['NoEvent']}
                return {'k': 'eq', 'eq': (e == g) is True and (g == e) is True, 'ne': (e != g) is True,
                        'hash': hash(e) == hash(g) and hash(e.process) == hash(g.process)
                        and [hash(m) for m in e.process.modules] == [hash(m) for m in g.process.modules]}
            if op == 'vary':
                pairs = varied(e, c['field'])
                return {'k': 'eq', 'eq': any(a == b for a, b in pairs), 'ne': all((a != b) is True for a, b in pairs)}
            before = event(e)
            first = [render(e, h) for h in c['how']]
            again = [render(e, h) for h in c['how']]
            twin = copy.deepcopy(e)
            other_ = [render(twin, h) for h in reversed(c['how'])][::-1]
            after = event(e)
            same = first == again == other_ and before == after and e == twin and hash(e) == hash(twin)
            return {'k': 'stable' if same else 'unstable'}
        r = self.readers[c['r'] - 1]
        if op in ('next', 'index'):
            s = self.streams[c['r'] - 1]
            armed = c.get('faultat') is not None and isinstance(s, Faulty)
            if isinstance(s, Faulty):
                s.arm(c.get('faultat') if armed else None)
            try:
                e = next(r) if op == 'next' else r[int(c['big']) if 'big' in c else counted(c['i'], c.get('as'))]
            finally:
                c['fault'] = bool(armed and s.fired)
                if isinstance(s, Faulty):
                    s.arm(None)
            self.regs[at] = e
            return event(e, csv, dt, txt)
        if op == 'len':
            n = len(r)
            return {'k': 'count', 'n': str(n)}
        if op == 'badindex':
            v = {'str': '0', 'float': 0.0, 'None': None, 'list': [0], 'tuple': (0,)}[c['v']]
            return {'k': 'event?', 'v': repr(r[v])[:80]}
        if op == 'slice':
            a, b, s = [None if c[x] == NONE else c[x] for x in 'abc']
            return {'k': 'events', 'e': [event(e, csv, dt, txt) for e in r[a:b:s]]}
        if op == 'drain':
            return {'k': 'events', 'e': [event(e, csv, dt, txt) for e in list(r)]}
        if op == 'reversed':
            return {'k': 'events', 'e': [event(e, csv, dt, txt) for e in reversed(r)]}
        if op == 'procs':
            return {'k': 'procs', 'p': [process(p) for p in r.processes()]}
        if op == 'sys':
            return {'k': 'sys', 'd': [{x: y for x, y in detail(k, v).items() if x != 'l'}
                                      for k, v in r.system_details().items()]}
        raise ValueError(op)

    def apart(self):
        """The base calls of each reader, answered in a process of their own."""
        groups, r, told = {}, 0, {}
        for n, c in enumerate(self.case['calls']):
            if c['op'] == 'open':
                r += 1
            if c.get('base'):
                groups.setdefault(r if c['op'] == 'open' else c['r'], []).append(n)
        for ns in groups.values():
            calls = [dict(self.case['calls'][n], base=False) for n in ns]
            case = dict(self.case, apart=False, calls=[dict(c, r=1) if 'r' in c else c for c in calls])
            res = forked(lambda d: Session(self.pp, case, d).run(), case['id'], self.scratch)
            told.update((n, c['obs']) for n, c in zip(ns, res['calls']))
        return told

    def one(self, c, at):
        """One call, and what it answered."""
        try:
            c['obs'] = self.call(c, at)
        except StopIteration:
            c['obs'] = {'k': 'stop'}
        except Exception as ex:
            c['obs'] = {'k': 'raise', 'mro': mro(ex), 'msg': str(ex)[:200],
                        'at': traceback.format_exc().splitlines()[-3:-1]}

    def dead(self, c):
        return 'r' in c and c['op'] not in ('open', 'quiet') and self.readers[c['r'] - 1] is None

    def several(self):
        """The calls of each round in threads of their own, side by side; their answers thread by thread."""
        for i in range(len(self.files.files)):
            self.files.path(i)
        self.rounds = Rounds(self.case['repo'], 2 * CALL_SECONDS)
        out = [dict(c) for c in self.case['calls']]
        late = False
        for w in sorted({c['w'] for c in out}):
            ns = [n for n, c in enumerate(out) if c['w'] == w]

            def job(mine):
                def work():
                    for n in mine:
                        if self.dead(out[n]):
                            out[n]['obs'] = {'k': 'dead'}
                        else:
                            self.one(out[n], self.place[n])
                return work
            if not late:
                late = not self.rounds.go({t: job([n for n in ns if out[n]['t'] == t]) for t in {out[n]['t'] for n in ns}}, self.case['rounds'][w])
            for n in ns:
                out[n].setdefault('obs', {'k': 'timeout'})
                if out[n]['op'] in ('next', 'index'):
                    out[n]['fault'] = False
        return {'id': self.case['id'], 'files': self.case['files'], 'calls': [dict(c) for c in out], 'steps': self.rounds.steps}

    def run(self):
        if 'tz' in self.case:
            os.environ['TZ'] = self.case['tz']
            time.tzset()
        if 'rounds' in self.case:
            return self.several()
        out = []
        told = self.apart() if self.case.get('apart') else {}
        for n, c in enumerate(self.case['calls']):
            c = dict(c)
            if n in told:
                # answered by a process that saw nothing but this file
                c['obs'] = told[n]
            elif self.dead(c):
                c['obs'] = {'k': 'dead'}
            else:
                signal.setitimer(signal.ITIMER_REAL, CALL_SECONDS)
                try:
                    try:
                        self.one(c, self.place[n])
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except Timeout:
                    c['obs'] = {'k': 'timeout'}
            if c['op'] in ('next', 'index'):
                c.setdefault('fault', False)
            out.append(c)
        self.files.close()
        return {'id': self.case['id'], 'files': self.case['files'], 'calls': out}


def main():
    repo, plan, outp = sys.argv[1:4]
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    scratch = outp + '.d'
    os.mkdir(scratch)
    import procmon_parser as pp
    signal.signal(signal.SIGALRM, on_alarm)
    with open(plan) as f, open(outp, 'w') as out:
        for line in f:
            case = json.loads(line)
            if 'rounds' in case:
                case.update(apart=True, repo=repo)
            out.write(json.dumps({'begin': case['id']}) + '\n')
            out.flush()
            res = forked(lambda d: Session(pp, case, d).run(), case['id'], scratch) if case.get('apart') else Session(pp, case, scratch).run()
            out.write(json.dumps(res) + '\n')
        out.write(json.dumps({'end': True}) + '\n')


if __name__ == '__main__':
    main()
