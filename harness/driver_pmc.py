"""Executes planned configuration sessions against the code under test and records what every call returned.

usage: driver_pmc.py REPO PLAN OUT   (JSON lines in, JSON lines out)
"""
import sys
import os
import io
import json
import signal
import collections
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from threads import Rounds, Stepping, forked  # noqa: E402

warnings.simplefilter('ignore')
CALL_SECONDS = float(os.environ.get('VERIF_CALL_SECONDS', '20'))


class Timeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise Timeout()


def to_text(units):
    return b''.join(bytes(bytearray([u & 255, u >> 8])) for u in units).decode('utf-16-le', 'surrogatepass')


def to_units(s):
    b = bytearray(s.encode('utf-16-le', 'surrogatepass'))
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


FONT5 = ['height', 'width', 'escapement', 'orientation', 'weight']
FONT8 = ['italic', 'underline', 'strikeout', 'char_set', 'out_precision', 'clip_precision', 'quality', 'pitch_and_family']
INTS = {'ColumnCount', 'HighlightFG', 'HighlightBG', 'AdvancedMode', 'Autoscroll', 'HistoryDepth', 'Profiling',
        'DestructiveFilter', 'AlwaysOnTop', 'ResolveAddresses'}


class Encodes(object):
    """Not a text, but it has what a writer may ask of one."""
    def encode(self, *args):
        return b'x\0'


class Driver(object):
    def __init__(self, pp, scratch, case):
        self.pp, self.scratch, self.n, self.case, self.rounds = pp, scratch, 0, case, None
        # everything that is kept has its place, by the order of the calls
        self.sinks, self.rules, self.confs, self.place = [], [], [], []
        for c in case['calls']:
            kept = {'sink': self.sinks, 'rule': self.rules, 'conf': self.confs, 'loadconf': self.confs, 'reload': self.confs}.get(c['op'])
            self.place.append(None if kept is None else len(kept))
            if kept is not None:
                kept.append({} if kept is self.confs else None)

    # -- values from and to the plan
    def make_rule(self, r):
        return self.pp.Rule(self.pp.Column(r['col']), self.pp.RuleRelation(r['rel']), to_text(r['val']),
                            self.pp.RuleAction(r['act']))

    def value(self, v):
        t = v['t']
        if t == 'int':
            return sum(b << (8 * i) for i, b in enumerate(v['b']))
        if t == 'widths':
            return list(v['l'])
        if t == 'columns':
            return [self.pp.Column(c) for c in v['l']]
        if t == 'text':
            return to_text(v['u'])
        if t == 'font':
            from procmon_parser.configuration import Font
            kw = {k: sum(b << (8 * i) for i, b in enumerate(x)) for k, x in zip(FONT5, v['n'])}
            kw.update(zip(FONT8, v['c']))
            return Font(face_name=to_text(v['u']), **kw)
        if t == 'rules':
            return [self.make_rule(r) for r in v['r']]
        if t == 'bytes':
            return bytes(bytearray(v['b']))
        raise ValueError(t)

    def conf(self, opts):
        from collections import OrderedDict
        return OrderedDict((to_text(o['n']), self.value(o['v'])) for o in opts)

    def rule_out(self, r):
        pp = self.pp
        if type(r) is not pp.Rule or type(r.column) is not pp.Column or type(r.relation) is not pp.RuleRelation \
                or type(r.action) is not pp.RuleAction or type(r.value) is not str:
            return {'?': repr(r)[:100]}
        return {'col': int(r.column), 'rel': int(r.relation), 'act': int(r.action), 'val': to_units(r.value)}

    def out(self, name, v):
        from procmon_parser.configuration import Font
        pp = self.pp
        if type(v) is int and 0 <= v < 1 << 32:
            return {'t': 'int', 'b': le(v, 4)}
        if type(v) is str:
            return {'t': 'text', 'u': to_units(v)}
        if type(v) is bytes:
            return {'t': 'bytes', 'b': list(bytearray(v))}
        if type(v) is Font:
            n = [getattr(v, k) for k in FONT5]
            c = [getattr(v, k) for k in FONT8]
            if all(type(x) is int and 0 <= x < 1 << 32 for x in n) and all(type(x) is int and 0 <= x < 256 for x in c) \
                    and type(v.face_name) is str:
                return {'t': 'font', 'n': [le(x, 4) for x in n], 'c': c, 'u': to_units(v.face_name)}
            return {'t': '?' + repr(n + c)[:100]}
        if isinstance(v, list):
            if name in ('FilterRules', 'HighlightRules'):
                r = [self.rule_out(x) for x in v]
                return {'t': 'rules', 'r': r} if not any('?' in x for x in r) else {'t': '?' + repr(r)[:100]}
            if name == 'ColumnMap':
                ok = all(type(x) is pp.Column for x in v)
                return {'t': 'columns', 'l': [int(x) for x in v]} if ok else {'t': '?' + repr(v)[:100]}
            if name == 'Columns' and all(type(x) is int and 0 <= x < 65536 for x in v):
                return {'t': 'widths', 'l': list(v)}
        return {'t': '?' + repr(v)[:100]}

    def conf_out(self, c):
        return {'k': 'conf', 'opts': [{'n': to_units(k), 'v': self.out(k, v)} for k, v in c.items()]}

    # -- streams
    def stream(self, content, pos, kind):
        if kind == 'bytesio':
            s = io.BytesIO(content)
        else:
            p = os.path.join(self.scratch, 's%d' % self.n)
            self.n += 1
            with open(p, 'wb') as f:
                f.write(content)
            s = open(p, 'r+b', buffering=0) if kind == 'raw' else open(p, 'r+b')
            os.unlink(p)
        s.seek(pos)
        return s if self.rounds is None else Stepping(s, self.rounds)

    @staticmethod
    def content(s):
        s.flush()
        p = s.tell()
        s.seek(0)
        b = s.read()
        s.seek(p)
        return b, p

    # -- edits; one that does not apply does nothing
    def edit(self, conf, e):
        n, k = to_text(e['n']), e['k']
        if k == 'set':
            conf[n] = self.value(e['v'])
        elif n not in conf:
            return
        elif k == 'del':
            del conf[n]
        elif k == 'move':
            conf[n] = conf.pop(n)
        elif k == 'font':
            if hasattr(conf[n], 'face_name'):
                i = e['i'] - 1
                x = sum(b << (8 * j) for j, b in enumerate(e['x'])) if i < 5 else e['x'] if i < 13 else to_text(e['x'])
                setattr(conf[n], (FONT5 + FONT8 + ['face_name'])[i], x)
        elif isinstance(conf[n], list):
            l = conf[n]
            x = e.get('x')
            if isinstance(x, dict) and k != 'rule':
                x = self.make_rule(x)
            elif n == 'ColumnMap' and x is not None:
                x = self.pp.Column(x)
            if k == 'append':
                l.append(x)
            elif k == 'insert':
                l.insert(0, x)
            elif k == 'pop' and l:
                l.pop()
            elif k == 'reverse':
                l.reverse()
            elif k == 'empty':
                del l[:]
            elif k == 'elem' and e['i'] <= len(l):
                l[e['i'] - 1] = x
            elif k == 'rule' and e['i'] <= len(l):
                r, m = l[e['i'] - 1], self.make_rule(x)
                r.column, r.relation, r.value, r.action = m.column, m.relation, m.value, m.action

    # -- rules
    def part(self, p, enum):
        k = p['k']
        if k == 'name':
            n, style = p['n'], p.get('style', 0)
            if style == 'lower':
                return n.lower()
            if style == 'upper':
                return n
            if style == 'cap':
                return n.capitalize()
            return ''.join(ch.lower() if (style >> (i % 16)) & 1 else ch for i, ch in enumerate(n))
        if k == 'member':
            return enum(p['v'])
        if k == 'number':
            return p['v']
        if k == 'absent':
            return None
        return {'None': None, 'list': [], 'float': 0.5, 'bytes': b'PID', 'object': object()}[p['what']]

    def call(self, c, at):
        pp, op = self.pp, c['op']
        if op == 'loads':
            b = bytes(bytearray(c['b']))
            how = c.get('how', 'bytes')
            if how == 'bytes':
                return self.conf_out(pp.loads_configuration(b))
            s = self.stream(b, 0, how)
            try:
                return self.conf_out(pp.load_configuration(s))
            finally:
                s.close()
        if op == 'dumps':
            return {'k': 'bytes', 'b': list(bytearray(pp.dumps_configuration(self.conf(c['opts']))))}
        if op == 'roundtrip':
            conf = self.conf(c['opts'])
            if c.get('how', 'bytes') == 'bytes':
                return self.conf_out(pp.loads_configuration(pp.dumps_configuration(conf)))
            s = self.stream(bytes(bytearray(c['before'])), len(c['before']), c['how'])
            try:
                start = s.tell()
                pp.dump_configuration(conf, s)
                s.seek(start)
                return self.conf_out(pp.load_configuration(s))
            finally:
                s.close()
        if op == 'redump':
            return {'k': 'bytes', 'b': list(bytearray(pp.dumps_configuration(
                pp.loads_configuration(bytes(bytearray(c['b']))))))}
        if op == 'sink':
            self.sinks[at] = self.stream(bytes(bytearray(c['b'])), c['p'], c.get('kind', 'bytesio'))
            return {'k': 'none'}
        if op == 'dump':
            s = self.sinks[c['s'] - 1]
            pp.dump_configuration(self.conf(c['opts']), s)
            b, p = self.content(s)
            return {'k': 'sink', 'b': list(bytearray(b)), 'p': p}
        if op == 'load':
            s = self.sinks[c['s'] - 1]
            p = s.tell()
            s.seek(c['at'])
            try:
                return self.conf_out(pp.load_configuration(s))
            finally:
                s.seek(p)
        if op == 'conf':
            self.confs[at] = self.conf(c['opts'])
            return {'k': 'none'}
        if op == 'loadconf':
            b = bytes(bytearray(c['b']))
            if c.get('how', 'bytes') == 'bytes':
                conf = pp.loads_configuration(b)
            else:
                s = self.stream(b, 0, c['how'])
                try:
                    conf = pp.load_configuration(s)
                finally:
                    s.close()
            self.confs[at] = conf
            return self.conf_out(conf)
        if op == 'reload':
            self.confs[at] = pp.loads_configuration(pp.dumps_configuration(self.confs[c['x'] - 1]))
            return self.conf_out(self.confs[at])
        if op == 'lookconf':
            return self.conf_out(self.confs[c['x'] - 1])
        if op == 'dumpconf':
            conf = self.confs[c['x'] - 1]
            if c.get('how', 'bytes') == 'bytes':
                return {'k': 'bytes', 'b': list(bytearray(pp.dumps_configuration(conf)))}
            s = self.stream(b'', 0, c['how'])
            try:
                pp.dump_configuration(conf, s)
                return {'k': 'bytes', 'b': list(bytearray(self.content(s)[0]))}
            finally:
                s.close()
        if op == 'edit':
            self.edit(self.confs[c['x'] - 1], c['e'])
            return {'k': 'none'}
        if op == 'rule':
            v = to_text(c['v']['u']) if c['v']['k'] == 'text' else None if c['v']['k'] == 'absent' else \
                {'None': None, 'int': 5, 'bytes': b'x', 'list': ['x'], 'bool': True, 'column': pp.Column.PID,
                 'bytearray': bytearray(b'x'), 'UserString': collections.UserString('x'), 'encodes': Encodes()}[c['v']['what']]
            args = [self.part(c['c'], pp.Column), self.part(c['r'], pp.RuleRelation), v, self.part(c['a'], pp.RuleAction)]
            missing = [n for n, k in (('column', 'c'), ('relation', 'r'), ('value', 'v'), ('action', 'a')) if c[k]['k'] == 'absent']
            if missing:
                given = dict(zip(('column', 'relation', 'value', 'action'), args))
                for n in missing:
                    del given[n]
                # by position as far as there is no gap
                first = [] if c.get('kw') else args[:min(('column', 'relation', 'value', 'action').index(n) for n in missing)]
                for n in ('column', 'relation', 'value', 'action')[:len(first)]:
                    del given[n]
                r = pp.Rule(*first, **given)
            elif c.get('kw'):
                r = pp.Rule(column=args[0], relation=args[1], value=args[2], action=args[3])
            else:
                r = pp.Rule(*args)
            self.rules[at] = r
            o = self.rule_out(r)
            return {'k': 'rule', 'rule': o}
        if op == 'ruleset':
            a, b = self.rules[c['x'] - 1], self.rules[c['y'] - 1]
            setattr(a, c['part'], getattr(b, c['part']))
            return {'k': 'rule', 'rule': self.rule_out(a)}
        if op == 'ruleeq':
            a, b = self.rules[c['x'] - 1], self.rules[c['y'] - 1]
            return {'k': 'eq', 'eq': (a == b) is True and (b == a) is True, 'ne': (a != b) is True,
                    'hash': hash(a) == hash(b) and len({a, b}) == 1, 'text': str(a) == str(b) and repr(a) == repr(b)}
        if op == 'rulevs':
            a = self.rules[c['x'] - 1]
            x = {'None': None, 'str': str(a), 'tuple': (a.column, a.relation, a.value, a.action), 'dict': dict(getattr(a, '__dict__', {})),
                 'object': object(), 'int': int(a.column), 'column': a.column}[c['what']]
            return {'k': 'eq', 'eq': (a == x) is True or (x == a) is True, 'ne': (a != x) is True}
        if op == 'dumpbad':
            good = pp.Rule('PID', 'is', '4', 'include')
            w = c['what']
            if w.startswith('rule.'):
                setattr(good, 'value', {'int': 5, 'None': None, 'bytes': b'x', 'list': []}[w[5:]])
                v = [good]
            elif w.startswith('elem.'):
                v = [good, {'str': 'PID is 4', 'None': None, 'int': 5, 'tuple': (1, 2), 'dict': {}}[w[5:]]]
                if c.get('first'):
                    v.reverse()
            else:
                v = {'int': 5, 'None': None, 'bytes': b'x', 'list': ['x'], 'rule': good, 'float': 1.5, 'object': object(),
                     'str': 'x', 'rulelist': [good]}[w]
            from collections import OrderedDict
            conf = OrderedDict([('ColumnCount', 3), (c['name'], v)]) if c.get('second') else OrderedDict([(c['name'], v)])
            return {'k': 'bytes', 'b': list(bytearray(pp.dumps_configuration(conf)))}
        raise ValueError(op)

    def one(self, c, at):
        """One call, and what it answered."""
        try:
            c['obs'] = self.call(c, at)
        except Exception as ex:
            c['obs'] = {'k': 'raise', 'mro': [k.__name__ for k in type(ex).__mro__], 'msg': str(ex)[:200],
                        'at': traceback.format_exc().splitlines()[-3:-1]}

    def several(self):
        """The calls of each round in threads of their own, side by side; their answers thread by thread."""
        self.rounds = Rounds(self.case['repo'], 2 * CALL_SECONDS)
        out = [dict(c) for c in self.case['calls']]
        late = False
        for w in sorted({c['w'] for c in out}):
            ns = [n for n, c in enumerate(out) if c['w'] == w]

            def job(mine):
                return lambda: [self.one(out[n], self.place[n]) for n in mine]
            if not late:
                late = not self.rounds.go({t: job([n for n in ns if out[n]['t'] == t]) for t in {out[n]['t'] for n in ns}}, self.case['rounds'][w])
            for n in ns:
                out[n].setdefault('obs', {'k': 'timeout'})
        return {'id': self.case['id'], 'calls': [dict(c) for c in out], 'steps': self.rounds.steps}

    def run(self):
        if 'rounds' in self.case:
            return self.several()
        calls = []
        for n, c in enumerate(self.case['calls']):
            c = dict(c)
            signal.setitimer(signal.ITIMER_REAL, CALL_SECONDS)
            try:
                try:
                    self.one(c, self.place[n])
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except Timeout:
                c['obs'] = {'k': 'timeout'}
            calls.append(c)
        self.close()
        return {'id': self.case['id'], 'calls': calls}

    def close(self):
        for s in self.sinks:
            try:
                s.close()
            except Exception:
                pass


def main():
    repo, plan, outp = sys.argv[1:4]
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    scratch = outp + '.d'
    os.mkdir(scratch)
    import procmon_parser as pp
    signal.signal(signal.SIGALRM, on_alarm)
    with open(plan) as f, open(outp, 'w') as out:
        for line in f:
            case = json.loads(line)
            out.write(json.dumps({'begin': case['id']}) + '\n')
            out.flush()
            case['repo'] = repo
            res = forked(lambda d: Driver(pp, d, case).run(), case['id'], scratch) if 'rounds' in case else Driver(pp, scratch, case).run()
            out.write(json.dumps(res) + '\n')
        out.write(json.dumps({'end': True}) + '\n')


if __name__ == '__main__':
    main()
