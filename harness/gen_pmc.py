"""Generators of configurations and PMC bytes.  They decide only what is tried, never what it means."""
from . import vocab as V
from .pml import u16, u32, units

INTS = ['ColumnCount', 'HighlightFG', 'HighlightBG', 'AdvancedMode', 'Autoscroll', 'HistoryDepth', 'Profiling',
        'DestructiveFilter', 'AlwaysOnTop', 'ResolveAddresses']
TEXTS = ['DbgHelpPath', 'Logfile']
CTEXTS = ['SourcePath', 'SymbolPath']
FONTS = ['LogFont', 'BoookmarkFont']
RULES = ['FilterRules', 'HighlightRules']
KNOWN = ['Columns', 'ColumnMap'] + INTS + TEXTS + CTEXTS + FONTS + RULES
COLS, RELS, ACTS = sorted(V.COLUMNS), sorted(V.RELATIONS), sorted(V.ACTIONS)
ARCH = V.code(V.COLUMNS, 'ARCHITECTURE')


def us(s):
    b = bytearray(units(s))
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def trim(u):
    while u and u[-1] == 0:
        u = u[:-1]
    return u


def good(s):
    """A str without trailing NUL; surrogates only in pairs by construction."""
    return s.rstrip(u'\0')


def text(g, n=None):
    n = g.choice([0, 1, 1, 2, 3, 5, 8, 13]) if n is None else n
    r = g.random()
    if r < .25 and n:
        s = u'C:\\' + g.wide(n) + g.choice([u'\\x', u'.dll', u';srv*'])
    elif r < .35 and n > 2:
        s = g.wide(n // 2) + u'\0' + g.wide(n // 2)
    else:
        s = g.wide(n)
    if s and g.maybe(.15):
        c = g.choice(ENDS)
        s = c + s if g.maybe(.4) else s + c
    return us(good(s))


ENDS = [u'\n', u'\r\n', u'\r', u'\t', u' ', u'\\', u'/', u'"', u"'", u'.', u',', u';', u'*', u'%', u'=', u'\xa0', u'\u2028', u'\ufeff', u'\x7f', u'\x1a']


NUMBERS = [u'0', u'1', u'7', u'9', u'10', u'42', u'00', u'007', u'255', u'256', u'65535', u'65536', u'2147483647', u'2147483648',
           u'4294967295', u'4294967296', u'4294967297', u'9999999999', u'18446744073709551616', u'04294967295', u'32', u'64', u'3264']
ODD = [u'', u'-1', u'+5', u' 5', u'5 ', u'0x10', u'1_000', u'1.0', u'1e3', u'a1', u'1a', u'32-bit', u'64-bit', u'x86 32', u'3 2',
       u'23', u'bit', u'System', u'Procmon.exe', u'\u00b2', u'\u0663\u0662', u'\uff13\uff12', u'\u2460', u'\U0001d7d8', u'\n', u'\t5',
       u'\u0e53', u'5\0' + u'6', u'\u00e9', u'\U0001f600', u'"', u'IRP_MJ_', u'\ufeff', u'32', u'0032', u'132', u'bits: 32/64']


def rule_value(g):
    r = g.random()
    if r < .3:
        return us(g.choice(NUMBERS))
    if r < .6:
        return us(g.choice(ODD))
    if r < .7:
        return us(str(g.u64()))
    if r < .72:
        return us(u'1' * g.choice([20, 300, 4400]))
    return text(g)


def rule(g, col=None, rel=None, act=None, val=None):
    return {'col': g.choice(COLS + [ARCH] * 4) if col is None else col, 'rel': g.choice(RELS) if rel is None else rel,
            'act': g.choice(ACTS) if act is None else act, 'val': rule_value(g) if val is None else val}


def value(g, name):
    if name in INTS:
        return {'t': 'int', 'b': le(g.u32(), 4)}
    if name == 'Columns':
        return {'t': 'widths', 'l': [g.u16() for _ in range(g.choice([0, 1, 2, 3, 7, 20]))]}
    if name == 'ColumnMap':
        n = g.choice([0, 1, 2, 5, len(COLS)])
        return {'t': 'columns', 'l': [g.choice(COLS) for _ in range(n)] if n < len(COLS) else COLS}
    if name in TEXTS or name in CTEXTS:
        return {'t': 'text', 'u': text(g, g.choice([0, 1, 2, 5, 30]))}
    if name in FONTS:
        u = text(g, g.choice([0, 1, 5, 12]))
        if g.maybe(.25):
            u = us(u'F' * g.choice([30, 31]))
        u = u[:31]
        if u and 0xd800 <= u[-1] < 0xdc00:
            u = u[:-1]
        return {'t': 'font', 'n': [le(g.u32(), 4) for _ in range(5)], 'c': [g.u8() for _ in range(8)], 'u': trim(u)}
    if name in RULES:
        return {'t': 'rules', 'r': [rule(g) for _ in range(g.choice([0, 1, 1, 2, 3, 6]))]}
    return {'t': 'bytes', 'b': list(bytearray(blob(g)))}


def blob(g):
    """Bytes of an option nobody knows: anything, or a text, a number, padding, something that looks like a record."""
    b = g.choice([g.bytes(g.choice([0, 1, 2, 3, 4, 7, 16, 33])), g.bytes(g.choice([17, 64, 255, 256, 300])), units(u'text'), units(u'text\0'),
                  u32(16) * 4, u32(g.u32()), b'\0' * g.choice([1, 2, 4, 8, 17, 40]), b'\xff' * g.choice([1, 4, 20]), b'\r\n', b' \t'])
    pad = g.choice([b'', b'', b'\0', b'\0\0', b'\0' * 20, b'\xff', b' ', b'\n'])
    return b + pad if g.maybe(.7) else pad + b


LONG = TEXTS + CTEXTS + ['Columns', 'new', 'FilterRules']


def long_option(g, n=None, name=None):
    """An option with a long value."""
    n = g.choice([260, 520, 1030, 2050, 4100, 8200, 33000]) if n is None else n
    name = name or g.choice(LONG)
    if name in TEXTS + CTEXTS:
        v = {'t': 'text', 'u': us(good(g.wide(3)) + u'x' * n + good(g.wide(2)))}
    elif name == 'Columns':
        v = {'t': 'widths', 'l': [g.u16() for _ in range(n)]}
    elif name == 'FilterRules':
        v = {'t': 'rules', 'r': [rule(g), rule(g, val=us(u'y' * n)), rule(g)]}
    else:
        v = {'t': 'bytes', 'b': list(bytearray(g.bytes(2 * n)))}
    return {'n': us(name), 'v': v}


NEAR = [u'columns', u'Column', u'Columns ', u'ColumnCounts', u'LogFonts', u'BookmarkFont', u'FilterRule', u'SourcePath2', u'Logfile\0x',
        u'NewOption', u'\u05d0', u'\U0001f600', u'a', u'X' * 40, u'HighlightRules\u00e9']


def nearby(g, x):
    """A name that is nearly the name x."""
    return g.choice([x.lower(), x.upper(), x.swapcase(), x[:-1] + x[-1].upper(), x + u' ', u' ' + x, x + u'\0x', x + x, x[1:], x[:-1],
                     x.replace(u'i', u'\u0131').replace(u'I', u'\u0130').replace(u'k', u'\u212a')])


def names(g, n):
    out = []
    pool = KNOWN[:]
    g.shuffle(pool)
    while len(out) < n:
        r = g.random()
        if r < .75 and pool:
            x = pool.pop()
        elif r < .9:
            x = g.choice(NEAR) if g.maybe() else nearby(g, g.choice(KNOWN))
            if x in KNOWN:
                continue
        else:
            x = good(g.wide(g.choice([0, 1, 2, 6])))
        if x not in out:
            out.append(x)
    return out


def config(g, n=None, all_known=False):
    ns = (KNOWN if all_known else names(g, g.choice([0, 1, 2, 3, 5, 9, 14, 20]) if n is None else n))
    ns = ns[:]
    g.shuffle(ns)
    return [{'n': us(x), 'v': value(g, x)} for x in ns]


# ------------------------------------------------------------------ bytes
# An independent writer used only to obtain files to load; whether a file is in Procmon's layout, and what it
# means, is decided by the specification.

def ctext(u):
    return b''.join(u16(x) for x in u) + (b'\0\0' if u else b'')


def number(col, u):
    if u and all(48 <= x <= 57 for x in u) and len(u) < 4000:
        v = int(''.join(map(chr, u)))
        return v if v < 1 << 32 else 0
    if col == ARCH:
        return 32 if any(u[i:i + 2] == [51, 50] for i in range(len(u))) else 64
    return 0


def data_bytes(name, v, g=None, noise=False):
    t = v['t']
    if t in ('int', 'bytes'):
        return bytes(bytearray(v['b']))
    if t == 'widths':
        return b''.join(u16(x) for x in v['l'])
    if t == 'columns':
        return b''.join(u32(x) for x in v['l'])
    if t == 'text':
        return ctext(v['u']) if name in CTEXTS else b''.join(u16(x) for x in v['u'])
    if t == 'font':
        f = b''.join(u16(x) for x in v['u'])
        return bytes(bytearray(sum(v['n'], []) + v['c'])) + f + b'\0' * (64 - len(f))
    out = b'\x01' + u32(len(v['r']))
    for r in v['r']:
        t = ctext(r['val'])
        num = number(r['col'], r['val'])
        res = 0
        if noise:
            num, res = g.u32(), g.u32()
        out += u32(r['col']) + u32(r['rel']) + bytes(bytearray([r['act']])) + u32(len(t)) + t + u32(num) + u32(res)
    return out


def record(o, g=None, noise=False):
    raw = b''.join(u16(x) for x in o['n'])
    name = raw.decode('utf-16-le', 'surrogatepass')
    n = ctext(o['n'])
    d = data_bytes(name, o['v'], g, noise)
    return u32(16 + len(n) + len(d)) + u32(16) + u32(16 + len(n)) + u32(len(d)) + n + d


def encode(opts, g=None, noise=False):
    return b''.join(record(o, g, noise) for o in opts)


def lst(b):
    return list(bytearray(b))
