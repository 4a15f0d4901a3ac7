"""Generators of PML content.  They decide only what is in a file, never what it means."""
import copy
import random
from . import vocab as V
from .pml import Content, Layout, Proc, Mod, Ev, build, units, u16, u32, u64

EDGE32 = [0, 1, 2, 3, 4, 5, 7, 8, 9, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000,
          0x80000001, 0xfffffffe, 0xffffffff, 999, 1000, 999999, 1000000, 0x1fffffff, 0x20000000]
EDGE64 = EDGE32 + [0x100000000, 0x1ffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001,
                   0xffffffffffffffff, 0xffffffff00000000, 10 ** 15, 10 ** 15 - 1, 1 << 53, (1 << 53) + 1]
DAY = 864000000000
EPOCH = 116444736000000000
Y9999 = 2650467744000000000          # 9999-12-31 00:00 as ticks: 3067670 days
NAMES = [u'a', u'file.txt', u'Foo Bar', u'\u05d0\u05d1', u'\U0001f600', u'x' * 31, u'\u00e9', u'.', u'..', u'*', u'*.dll',
         u'C:', u'\ufeffbom', u'q"uote', u'com,ma', u"{}", u'%s', u'a\tb', u'line\r\nnext', u'\\', u'\uffff', u'\x7f', u' ',
         u'\x00'[:0], u'tab\n', u'0', u'123']


HEADS = [u'\\\\?\\', u'\\??\\', u'\\Device\\', u'\\\\.\\', u'\\SystemRoot\\', u'\\REGISTRY\\', u'UNC\\', u'\\\\', u'file://', u'C:', u'0x', u'(', u'<', u'[', u'{']
TAILS = [u'::$DATA', u':Zone.Identifier', u':$I30:$INDEX_ALLOCATION', u'\\.', u'\\..', u'\\*', u'.exe', u'.lnk', u'\\\\', u'...', u')', u'>', u']', u'}', u' (x86)', u'~1', u'?', u':', u'(Default)']
ENDS = u'\n\r\t \\/".,;:*%=\x7f\xa0\u2028\ufeff'      # what a text is sometimes stripped of


class G(random.Random):
    """Random choices with a bias towards boundaries."""
    drawn = 0       # numbers drawn so far
    before = 0      # the last but one of them
    force = None    # (which of them, value or None for the one before it): decided beforehand

    def take(self, bits, v):
        self.drawn += 1
        if self.force is not None and self.force[0] == self.drawn:
            v = (self.before if self.force[1] is None else self.force[1]) & ((1 << bits) - 1)
        self.before = v
        return v

    def u8(self):
        return self.take(8, self.choice([0, 1, 2, 3, 127, 128, 255]) if self.random() < .4 else self.getrandbits(8))

    def w(self, bits, edges):
        return self.take(bits, self.number(bits, edges))

    def number(self, bits, edges):
        r = self.random()
        if r < .35:
            return self.choice(edges) & ((1 << bits) - 1)
        if r < .5:
            return 1 << self.randrange(bits)
        return self.getrandbits(self.randrange(1, bits + 1))

    def u16(self):
        return self.w(16, EDGE32)

    def u32(self):
        return self.w(32, EDGE32)

    def u64(self):
        return self.w(64, EDGE64)

    def pv(self, size):
        return self.u64() if size == 8 else self.u32()

    def bytes(self, n):
        return bytes(bytearray(self.getrandbits(8) for _ in range(n)))

    def maybe(self, p=.5):
        return self.random() < p

    # -- texts
    def ascii(self, n):
        return u''.join(chr(self.choice([self.randrange(1, 128), self.randrange(32, 127)])) for _ in range(n))

    def wide(self, n):
        """About n code units, any of them but NUL; surrogates only in pairs."""
        out = u''
        while len(out) < n:
            r = self.random()
            if r < .5:
                out += chr(self.randrange(32, 127))
            elif r < .6:
                out += self.choice(NAMES)
            elif r < .8:
                c = self.randrange(1, 0xffff)
                out += chr(c) if not 0xd800 <= c < 0xe000 else u'\ue000'
            elif r < .9:
                out += chr(self.randrange(0x10000, 0x110000))
            else:
                out += self.choice(u'\\,\r\n:;_ <>\u0100\u0200\u2000\uff00\u0a00\u000a')
        if len(out) > 1 and self.random() < .15:
            c = self.choice(ENDS)
            out = c + out[1:] if self.random() < .4 else out[:-1] + c
        if out and self.random() < .03:
            out = self.choice(HEADS) + out
        if out and self.random() < .05:
            out += self.choice(TAILS)
        return out

    def length(self):
        if self.random() < .012:
            return self.choice([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 700])
        return self.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 21, 34])

    def text(self, broken=.1):
        """UTF-16 bytes of a text without NUL."""
        r = self.random()
        if r < .25:
            raw = units(self.choice(NAMES))
        elif r < .9:
            raw = units(self.wide(self.length()))
        else:
            raw = units(u'C:\\Windows\\' + self.wide(self.length()) + self.choice([u'', u'\\']))
        if broken and self.maybe(broken):
            k = 2 * self.randrange(len(raw) // 2 + 1)
            raw = raw[:k] + u16(self.choice([0xd800, 0xdbff, 0xdc00, 0xdfff])) + raw[k:]
        return raw

    def junk_after(self, raw):
        """A field that holds the text, a terminator and something else."""
        return raw + b'\0\0' + self.text()

    def counted(self, allow_nul=True, n=None):
        """-> (info word, bytes) of a counted text."""
        if self.maybe(.4):
            s = self.ascii(self.length() if n is None else n).encode('ascii')
            return 0x8000 | len(s), s
        raw = self.text() if n is None else units(u'w' * n)
        if allow_nul and self.maybe(.12):
            raw = self.junk_after(raw) if self.maybe() else raw + b'\0\0'
        return len(raw) // 2, raw

    def multisz(self, n=None, end=True):
        n = self.choice([0, 1, 2, 3, 5]) if n is None else n
        out = b''
        for _ in range(n):
            t = self.text()
            out += (t if t else units(u'v')) + b'\0\0'
        return out + (b'\0\0' if end else b'')

    def when(self):
        """A timestamp between 1970 and the end of 9998."""
        r = self.random()
        if r < .3:
            d = self.choice([0, 1, 58, 59, 364, 365, 789, 790, 10956, 10957, 11015, 11016, 11322, 11323, 47481, 47540,
                             47541, 18262, 20000, 157112, 2932896 - 366 - 134774 + 134774 - 1])
            d = min(d, 2932896 - 400)
        else:
            d = self.choice([self.randrange(0, 2932896 - 400), self.randrange(14000, 22000)])
        s = self.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 46799, 46800, 86399, self.randrange(86400)])
        t = self.choice([0, 1, 9, 10, 99, 5000000, 9999999, 9999990, 9999995, self.randrange(10 ** 7), 10 ** self.randrange(7)])
        return EPOCH + d * DAY + s * 10 ** 7 + t

    def span(self):
        return self.choice([0, 1, 9, 9999999, 10 ** 7, 599999999, 600000000, 36000000000 - 1, 36000000000, DAY - 1, DAY,
                            99 * 36000000000, 100 * 36000000000 - 1, 100 * 36000000000, 1234567890123, self.randrange(10 ** 9),
                            self.randrange(10 ** 12), self.randrange(10 ** 14), self.longspan()])

    def longspan(self):
        """A long time, often a tick away from whole seconds."""
        s = 10 ** self.choice([2, 5, 7, 8, 9, 10]) + self.randrange(10 ** self.choice([1, 7, 9]))
        return s * 10 ** 7 + self.choice([0, 1, 9999998, 9999999, 9999999, self.randrange(10 ** 7)])


# ----------------------------------------------------------------------------- details by class

SPECIAL_IPS = [b'\0' * 16, b'\0' * 15 + b'\x01', b'\xff' * 16, b'\0' * 12 + b'\x7f\0\0\x01', b'\0' * 10 + b'\xff\xff\x7f\0\0\x01',
               b'\0' * 10 + b'\xff\xff\x0a\x01\x02\x03', b'\0\x64\xff\x9b' + b'\0' * 8 + b'\x0a\0\0\x01', b'\xfe\x80' + b'\0' * 13 + b'\x01',
               b'\x20\x02\x0a\0\0\x01' + b'\0' * 10, b'\x7f\0\0\x01' + b'\0' * 12, b'\x7f\0\0\x01' + b'\xff' * 12, b'\x20\x01\x0d\xb8' + b'\0' * 11 + b'\x05',
               b'\xff\x02' + b'\0' * 13 + b'\xfb', b'\0' * 8 + b'\xff\xff\0\0\x01\x02\x03\x04']


def network(g, c, op=None, flags=None, to=None):
    op = g.choice(sorted(V.NETWORK)) if op is None else op
    flags = (g.randrange(8) | (g.getrandbits(13) << 3 if g.maybe(.3) else 0)) if flags is None else flags
    ips = []
    for bit in (1, 2):
        if c.hosts and g.maybe(.6):
            ip = g.choice(c.hosts)[0]
            if g.maybe(.25):      # nearly the same address
                k = g.randrange(16)
                ip = ip[:k] + bytes(bytearray([bytearray(ip)[k] ^ (1 << g.randrange(8))])) + ip[k + 1:]
        elif g.maybe(.2):
            ip = g.choice(SPECIAL_IPS)
        elif flags & bit and g.maybe(.8):
            ip = g.bytes(4) + b'\0' * 12
        else:
            ip = b''.join(g.choice([b'\0\0', b'\0\x01', b'\x10\0', g.bytes(2)]) for _ in range(8))
        ips.append(ip)
    if to is not None:
        ips[g.randrange(2)] = to
    prts = []
    for _ in range(2):
        if c.ports and g.maybe(.7):
            prts.append(g.choice(c.ports)[0] if g.maybe(.85) else kin(g, g.choice(c.ports)[0], 16))
        else:
            prts.append(g.u16())
    kv = b''
    r = g.random()
    if r < .75:
        keys = [u'startime', u'endtime', u'seqnum', u'connid', u'Length', u'mss', u'sackopt', u'tsopt', u'wsopt', u'k']
        for _ in range(g.choice([0, 1, 2, 3, 4])):
            k = units(g.choice(keys)) if g.maybe(.8) else (g.text() or units(u'k'))
            v = g.text() or units(u'0')
            kv += k + b'\0\0' + v + b'\0\0'
        if g.maybe(.2):
            kv += units(u'odd') + b'\0\0'
        if g.maybe(.7):
            kv += b'\0\0'
            if g.maybe(.2):
                kv += units(u'stray') + b'\0\0' + units(u'pair') + b'\0\0\0\0'
        elif kv and g.maybe(.4):
            kv = kv[:-2]
    elif r < .85:
        kv = b'\0\0' + (units(u'v') + b'\0\0' + units(u'k') + b'\0\0' if g.maybe() else b'')
    det = u16(flags) + g.bytes(2) + u32(g.u32()) + ips[0] + ips[1] + u16(prts[0]) + u16(prts[1]) + kv
    return 5, op, det, None


def process(g, c, op=None):
    op = g.choice(sorted(V.PROCESS)) if op is None else op
    name = V.PROCESS[op]
    pv = c.pv
    x = None
    if name in ('Process_Defined', 'Process_Create'):
        k1, k2 = g.choice([0, 0, 12, 28, 1, 255]), g.choice([0, 0, 12, 28, 1, 255])
        pi, pb = g.counted()
        ci, cb = g.counted()
        d = g.bytes(4) + u32(g.u32()) + g.bytes(36) + bytes(bytearray([k1, k2])) + u16(pi) + u16(ci) + g.bytes(2 + k1 + k2) \
            + pb + cb + g.bytes(g.choice([0, 0, 2, 5]))
    elif name == 'Process_Start':
        ci, cb = g.counted()
        di, db = g.counted()
        r = g.random()
        if r < .6:
            env = b''.join((units(g.choice([u'PATH=', u'=C:=', u'A=', u'X'])) + g.text()) + b'\0\0' for _ in range(g.choice([0, 1, 2, 5, 9])))
            env += g.choice([b'\0\0', b'', b'\0\0' + units(u'late') + b'\0\0'])
        else:
            env = g.multisz(end=g.maybe())
            if env and g.maybe(.4):
                env = env[:-2]
        n = len(env) // 2
        d = u32(g.u32()) + u16(ci) + u16(di) + u32(n) + cb + db + env
        if g.maybe(.3):
            d += units(u'beyond') + b'\0\0'
    elif name in ('Process_Exit', 'Process_Statistics'):
        d = u32(g.u32()) + b''.join(u64(g.u64()) for _ in range(6)) + g.bytes(g.choice([0, 0, 8]))
    elif name == 'Load_Image':
        pi, pb = g.counted()
        d = (u64 if pv == 8 else u32)(g.pv(pv)) + u32(g.u32()) + u16(pi) + g.bytes(2) + pb + g.bytes(g.choice([0, 0, 3]))
    elif name == 'Thread_Create':
        d = u32(g.u32()) + g.bytes(g.choice([0, 0, 4]))
    elif name == 'Thread_Exit':
        d = g.bytes(4) + b''.join(u64(g.longspan() if g.maybe(.4) else g.u64()) for _ in '12') + g.bytes(g.choice([0, 0, 4]))
    else:
        d = g.bytes(g.choice([0, 0, 4, 20]))
    if g.maybe(.1):
        x = g.bytes(g.choice([0, 4, 9]))
    return 1, op, d, x


def profiling(g, c, op=None):
    return 4, (g.choice(sorted(V.PROFILING)) if op is None else op), g.bytes(g.choice([0, 8, 16])), None


REG_ROOTS = [u'HKLM\\Software', u'HKCU', u'\\REGISTRY\\A\\{1}', u'HKLM\\System\\CurrentControlSet\\', u'']


def reg_path(g):
    if g.maybe(.7):
        s = g.choice(REG_ROOTS) + g.choice([u'', u'\\' + g.ascii(3).replace('\r', 'r'), u'\\' + g.wide(4)])
        if g.maybe(.5) and all(0 < ord(ch) < 128 for ch in s):
            return 0x8000 | len(s), s.encode('ascii')
        raw = units(s)
        return len(raw) // 2, raw
    return g.counted()


def access_mask(g, table):
    r = g.random()
    if r < .04:      # a word with a meaning of its own, and something else
        return g.choice([0x2000000, 0x1000000, 0x80000000, 0x40000000, 0x20000000, 0x10000000, 0x100000]) | g.choice(
            [1 << g.randrange(32), 0x4000000, 0x8000000, 0x400, 0x8000, 0x400000])
    if r < .15:
        return g.choice([0, 0x2000000, 0x2000000, 0x1000000, 0x80000000, 0x40000000, 0x20000000, 0x10000000, 0xf0000000,
                         0xffffffff, 0xfffff, 0x4000000, 0x400, 0x8000])
    if r < .4:
        m = 0
        for _ in range(g.choice([1, 2, 3])):
            m |= g.choice(table)[0]
        if g.maybe(.4):
            m ^= 1 << g.randrange(32)
        return m
    if r < .7:
        m = 0
        for _ in range(g.choice([1, 1, 2, 3, 4, 6])):
            m |= 1 << g.randrange(32)
        return m
    if r < .8:
        return 0xffffffff ^ (1 << g.randrange(32))
    return g.getrandbits(32)


def key_block(g, klass, name=None):
    n = V.KEYCLASSES[klass]
    raw = g.text() if name is None else name
    declared = len(raw)
    r = g.random()
    tail = b''
    if r < .15:
        raw = g.junk_after(raw)
        declared = len(raw)
    elif r < .3:
        tail = units(u'tail')          # bytes behind the declared name
    elif r < .38:
        declared = len(raw) + 2 * g.choice([1, 3, 1000])      # announces more than there is
    elif r < .5:
        declared = g.choice([0, 0, 2, 4, len(raw) // 4 * 2])  # or less
        declared, tail = min(declared, len(raw)), g.choice([b'', units(u'tail')])
    t = u64(g.u64()) + u32(g.u32())
    if n == 'Name':
        return u32(declared) + raw + tail
    if n in ('HandleTags', 'Flags'):
        return u32(g.u32()) + (g.bytes(4) if g.maybe(.2) else b'')
    if n == 'Cached':
        return t + b''.join(u32(g.u32()) for _ in range(5)) + (units(u'nm') if g.maybe(.3) else b'')
    if n == 'Basic':
        return t + u32(declared) + raw + tail
    if n == 'Full':
        return t + b''.join(u32(g.u32()) for _ in range(8)) + (units(u'class') if g.maybe(.3) else b'')
    if n == 'Node':
        return t + u32(g.u32()) + u32(g.u32()) + u32(declared) + raw + tail
    return g.bytes(g.choice([0, 0, 4, 8]))


def registry(g, c, op=None, klass=None, extra=None, mask=None, disp=None, setclass=None, length=None):
    op = g.choice(sorted(V.REGISTRY)) if op is None else op
    name = V.REGISTRY[op]
    pi, pb = reg_path(g)
    x = None
    if name in ('RegLoadKey', 'RegRenameKey'):
        ni, nb = g.counted()
        d = u16(pi) + u16(ni) + pb + nb + g.bytes(g.choice([0, 0, 3]))
        if g.maybe(.2):
            x = g.bytes(8)
    elif name in ('RegOpenKey', 'RegCreateKey'):
        m = access_mask(g, V.REGACCESS) if mask is None else mask
        d = u16(pi) + g.bytes(2) + u32(m) + pb
        if extra if extra is not None else g.maybe(.7):
            x = u32(access_mask(g, V.REGACCESS)) + u32(g.choice([1, 2, 1, 2, 0, 3, 257, g.u32()]) if disp is None else disp) \
                + g.bytes(g.choice([0, 0, 4]))
    elif name in ('RegQueryKey', 'RegEnumKey'):
        k = g.choice(sorted(V.KEYCLASSES)) if klass is None else klass
        d = u16(pi) + g.bytes(2) + u32(g.u32()) + (u32(g.u32()) if name == 'RegEnumKey' else b'') + u32(k) + pb
        if extra if extra is not None else g.maybe(.75):
            x = key_block(g, k)
    elif name in ('RegQueryValue', 'RegEnumValue'):
        k = g.choice(sorted(V.VALUECLASSES)) if klass is None else klass
        d = u16(pi) + g.bytes(2) + u32(g.u32()) + (u32(g.u32()) if name == 'RegEnumValue' else b'') + u32(k) + pb
        if extra if extra is not None else g.maybe(.8):
            x = value_block(g, k)
    elif name == 'RegSetInfoKey':
        k = g.choice([0, 1, 5, 0, 1, 5, 2, 3, 4, 6, g.u32()]) if setclass is None else setclass
        n = {0: 8, 1: 4, 5: 4}.get(k, 4)
        length = g.choice([n, n, 0, 4, 8, 0xffff]) if length is None else length
        d = u16(pi) + g.bytes(2) + u32(k) + g.bytes(4) + u16(length) + g.bytes(2) + pb + (u64(g.when()) if k == 0 else g.bytes(8))
        if g.maybe(.3):
            d += g.bytes(3)
        if g.maybe(.15):
            x = g.bytes(8)
    elif name == 'RegSetValue':
        return set_value(g, c)
    else:
        d = u16(pi) + (pb if g.maybe(.7) else pb + g.bytes(6))
        if g.maybe(.2):
            x = g.bytes(8)
    return 2, op, d, x


def reg_type(g):
    return g.choice(sorted(V.REGTYPES) * 3 + [1, 2, 3, 4, 7, 11] * 4 + [12, 255, 256, 0x1000004, 0xffffffff, g.u32()])


def reg_data(g, t):
    """Bytes of a value, more or less in the form of its type."""
    name = V.REGTYPES.get(t)
    r = g.random()
    if name in ('REG_DWORD', 'REG_DWORD_BIG_ENDIAN'):
        return u32(g.u32()) if r < .7 else g.bytes(g.choice([0, 1, 3, 4, 5, 8]))
    if name == 'REG_QWORD':
        return u64(g.u64()) if r < .7 else g.bytes(g.choice([0, 1, 4, 7, 8, 9]))
    if name in ('REG_SZ', 'REG_EXPAND_SZ', 'REG_LINK'):
        t = g.text()
        if g.maybe(.3):
            t += units(u'\r\nsecond') + g.choice([b'', units(u'\r\n'), units(u'\n'), units(u'\r')])
        if r < .6:
            return t + b'\0\0'
        if r < .8:
            return t
        return g.junk_after(t) + (b'\0\0' if g.maybe() else b'')
    if name == 'REG_MULTI_SZ':
        b = g.multisz(end=g.maybe(.8))
        if r < .2 and b:
            b = b[:-2]
        elif r < .35:
            b += units(u'after') + b'\0\0'
        elif r < .42:
            b = b'\0\0' + b
        elif r < .46:
            b = b'\0\0'
        elif r < .5:
            b = b'\0\0\0\0'
        return b
    return g.bytes(g.choice([0, 1, 2, 3, 15, 16, 17, 40]))


def value_block(g, klass):
    kn = V.VALUECLASSES[klass]
    t = reg_type(g)
    data = reg_data(g, t)
    n = len(data)
    multi = V.REGTYPES.get(t) == 'REG_MULTI_SZ'
    if g.maybe(.2):
        n = g.choice([0, n + 2, n + 100, max(0, n - 2), max(0, n // 2 * 2 - 2), 1, 4, 8])
    if multi and n % 2:
        n += 1
    if kn == 'KeyValueFullInformation':
        name = g.text() or (units(u'n') if g.maybe(.7) else b'')
        ln = len(name)
        r = g.random()
        if r < .12:
            name = g.junk_after(name)
            ln = len(name)
        pad = b''
        if g.maybe(.4):
            pad = g.choice([b'', b'\0\0', b'\0\0\0\0', units(u'gap'), g.bytes(4)])
        off = 20 + len(name) + len(pad)
        tail = g.choice([b'', b'', units(u'xx'), b'\0\0'])
        if g.maybe(.15):
            # the data placed before the end of the name, at its start or even before it
            ln = min(ln, len(name))
            at = 20 + 2 * g.randrange(len(name) // 2 + 1) if g.maybe(.8) else g.choice([0, 4, 8, 12, 16])
            return u32(g.u32()) + u32(t) + u32(at) + u32(g.choice([2, 4, 4, 8, 8, 20 + len(name) - at])) + u32(ln) + name + tail
        return u32(g.u32()) + u32(t) + u32(off) + u32(n) + u32(ln) + name + pad + data + tail
    if kn == 'KeyValuePartialInformation':
        return u32(g.u32()) + u32(t) + u32(n) + data + g.choice([b'', b'', b'', units(u'zz')])
    return u32(g.u32()) + u32(t) + g.bytes(g.choice([0, 4, 12]))


def set_value(g, c):
    pi, pb = reg_path(g)
    t = reg_type(g)
    data = reg_data(g, t)
    full = len(data)
    n = g.choice([full] * 4 + [full + 2, full + 1000, 0, 0xffffffff, max(0, full - 2)])
    cap = full if n >= full else n
    if g.maybe(.15):
        cap = g.choice([0, full, max(0, full - 2), 0xffffffff if n != 0xffffffff else full])
    if V.REGTYPES.get(t) == 'REG_MULTI_SZ' and min(n, cap) % 2:
        n += 1
        cap = n
    d = u16(pi) + g.bytes(2) + u32(t) + u32(n) + u32(cap) + pb + data
    if g.maybe(.2):
        d += units(u'more')
    return 2, V.code(V.REGISTRY, 'RegSetValue'), d, (g.bytes(4) if g.maybe(.1) else None)


def file_det(g, c, sub, params, tail, path=None):
    size = 5 * c.pv + 20
    p = bytearray(g.bytes(size))
    for off, b in params:
        p[off:off + len(b)] = b
    pi, pb = (g.counted() if g.maybe(.6) else g_path(g)) if path is None else path
    return bytes(bytearray([sub])) + g.bytes(3) + bytes(p) + u16(pi) + g.bytes(2) + pb + tail


def g_path(g):
    s = g.choice([u'C:\\', u'C:\\dir', u'C:\\a b\\c.txt', u'\\\\srv\\share', u'D:\\\u05d0\\', u''])
    if g.maybe(.5) and all(ord(ch) < 128 for ch in s):
        return 0x8000 | len(s), s.encode('ascii')
    raw = units(s)
    return len(raw) // 2, raw


def sid(g):
    r = g.random()
    if r < .2:
        return b''
    n = g.choice([0, 1, 2, 5, 14, 15, 16, 17, 31, 32, 61])
    auth = g.choice([b'\0\0\0\0\0\x05', b'\0\0\0\0\0\x01', g.bytes(6), b'\xff' * 6])
    s = bytes(bytearray([1, n])) + auth + b''.join(u32(g.u32()) for _ in range(n))
    if r < .3:
        s = bytes(bytearray([g.choice([0, 2, 255])])) + s[1:]
    elif r < .4:
        s = s + g.bytes(g.choice([1, 4])) if len(s) < 250 else s
    elif r < .45 and len(s) > 12:
        s = s[:-4]
    return s


def create_file(g, c, access=None, disp=None, opts=None, attr=None, share=None, result='?'):
    pv = c.pv
    o = (lambda a, b: b) if pv == 8 else (lambda a, b: a)
    acc = access_mask(g, V.FILEACCESS) if access is None else access
    dp = g.choice([0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 255, 128]) if disp is None else disp
    op_ = (access_mask(g, V.OPTIONS) & 0xffffff) if opts is None else opts
    at = (access_mask(g, V.ATTRIBUTES) & 0xffff) if attr is None else attr
    sh = g.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, g.u16()]) if share is None else share
    s = sid(g)
    params = [(o(16, 20), u32(dp << 24 | op_)), (o(20, 28), u16(at)), (o(22, 30), u16(sh)), (o(36, 52), u32(g.u32()))]
    tail = u32(acc) + bytes(bytearray([len(s)])) + g.bytes(3) + s + g.bytes(g.choice([0, 0, 4]))
    res = g.choice([None, 0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 0x100, 0x80000000, 0xffffffff]) if result == '?' else result
    x = None if res is None else u32(res) + g.bytes(g.choice([0, 0, 4]))
    return 3, V.code(V.FILE, 'CreateFile'), file_det(g, c, g.choice([0, 0, 0, 5]), params, tail), x


def read_write(g, c, op, flags=None):
    o = (lambda a, b: b) if c.pv == 8 else (lambda a, b: a)
    f = (g.choice([0, 1 << g.randrange(32), g.u32(), (1 << g.randrange(32)) | (1 << g.randrange(32)),
                   g.randrange(8) << 17, (g.randrange(8) << 17) | (1 << g.randrange(8)), 0xe000ff, 0xffffffff])
         if flags is None else flags)
    params = [(4, u32(f)), (12, u32(g.u32())), (o(20, 28), u64(g.u64()))]
    x = (u32(g.u32()) + g.bytes(g.choice([0, 0, 2, 4]))) if g.maybe(.6) else None
    return 3, V.code(V.FILE, op), file_det(g, c, g.choice([0, 0, 1]), params, g.bytes(g.choice([0, 0, 4]))), x


def mapping(g, c, sync=None, prot=None):
    s = g.choice([0, 1, 1, 2, 0x100, 0x80000000, 0xffffffff, g.u32()]) if sync is None else sync
    p = g.choice([0, 1 << g.randrange(12), (1 << g.randrange(12)) | (1 << g.randrange(12)), g.getrandbits(12), g.u32(),
                  0x200, 0x202]) if prot is None else prot
    return 3, V.code(V.FILE, 'CreateFileMapping'), file_det(g, c, g.choice([0, 0, 2]), [(12, u32(s)), (16, u32(p))],
                                                            g.bytes(g.choice([0, 4]))), None


def control(g, c, op=None, ctl=None, size=None):
    op = g.choice(['FileSystemControl', 'DeviceIoControl']) if op is None else op
    if ctl is None:
        ctl = g.choice(sorted(V.CONTROLS)) if g.maybe(.7) else g.choice([g.u32(), g.choice(sorted(V.CONTROLS)) ^ (1 << g.randrange(32))])
    o = (lambda a, b: b) if c.pv == 8 else (lambda a, b: a)
    params = [(8, u32(g.u32() if size is None else size)), (12, u32(g.u32() if size is None else size)), (o(20, 28), u32(ctl))]
    name = V.CONTROLS.get(ctl)
    tail = g.bytes(g.choice([0, 0, 4]))
    if name in ('FSCTL_OFFLOAD_READ', 'FSCTL_OFFLOAD_WRITE'):
        tail = u64(g.u64()) + u64(g.u64()) + tail
    x = g.bytes(g.choice([0, 4, 8])) if g.maybe(.2) else None
    return 3, V.code(V.FILE, op), file_det(g, c, g.choice([0, 0, 3]), params, tail), x


LAYOUTS = {'FileDirectoryInformation': (64, 60), 'FileFullDirectoryInformation': (68, 60),
           'FileIdFullDirectoryInformation': (80, 60), 'FileBothDirectoryInformation': (94, 60),
           'FileIdBothDirectoryInformation': (104, 60), 'FileNamesInformation': (12, 8)}


def dir_entries(g, layout, names, align=None, overrun=None):
    at, size_at = LAYOUTS[layout]
    out = b''
    for i, raw in enumerate(names):
        e = bytearray(g.bytes(at))
        e[size_at:size_at + 4] = u32(len(raw))
        e += raw
        last = i == len(names) - 1
        if not last:
            pad = g.choice([0, 0, -len(e) % 8, 2, 7, 40]) if align is None else (-len(e) % align)
            e += g.bytes(pad)
            e[0:4] = u32(len(e))
        else:
            e[0:4] = u32(0)
            if overrun == 'past':
                e[0:4] = u32(len(e) + g.choice([1, 2, 1000, 0x10000]))
            elif overrun == 'tail':
                e += g.bytes(g.choice([1, 8, 30]))
        out += bytes(e)
    return out


def query_dir(g, c, klass=None, names=None, filt=None, extra=None, path=None):
    if klass is None:
        klass = V.code(V.FILECLASSES, g.choice(sorted(LAYOUTS))) if g.maybe(.8) else g.choice(sorted(V.FILECLASSES))
    o = (lambda a, b: b) if c.pv == 8 else (lambda a, b: a)
    fi, fb = filt if filt is not None else ((0, b'') if g.maybe(.3) else g.counted())
    layout = V.FILECLASSES.get(klass)
    x = None
    if extra if extra is not None else g.maybe(.8):
        if layout in LAYOUTS:
            if names is None:
                names = [g.choice([g.text(), units(g.choice(NAMES)), units(g.wide(6)), g.junk_after(g.text())]) for _ in
                         range(g.choice([1, 1, 2, 3, 5, 11]))]
            x = dir_entries(g, layout, names, g.choice([None, 8, 1]), g.choice([None, None, None, 'past', 'tail']))
        else:
            x = g.bytes(g.choice([0, 8, 70]))
    tail = u16(fi) + fb + g.bytes(g.choice([0, 0, 5]))
    return 3, V.code(V.FILE, 'DirectoryControl'), file_det(
        g, c, V.code(V.SUBS['DirectoryControl'], 'QueryDirectory'), [(o(20, 28), u32(klass))], tail,
        path or (g_path(g) if g.maybe(.8) else None)), x


def notify(g, c, flags=None):
    f = (g.choice([0, 0x1000, 0xfff, 3, 0xffffffff, 1 << g.randrange(32), g.getrandbits(12), g.u32()])
         if flags is None else flags)
    o = 20 if c.pv == 8 else 16
    return 3, V.code(V.FILE, 'DirectoryControl'), file_det(
        g, c, V.code(V.SUBS['DirectoryControl'], 'NotifyChangeDirectory'), [(o, u32(f))], b''), (g.bytes(4) if g.maybe(.2) else None)


def disposition(g, c, val=None):
    v = g.choice([0, 1, 0, 1, 2, 0x80, 255]) if val is None else val
    return 3, V.code(V.FILE, 'SetInformationFile'), file_det(
        g, c, V.code(V.SUBS['SetInformationFile'], 'SetDispositionInformationFile'), [],
        bytes(bytearray([v])) + g.bytes(g.choice([0, 3, 3]))), None


def plain_file(g, c, op=None, sub=None):
    """Any operation with any sub-operation code; decoders that need more data are given it elsewhere."""
    op = g.choice(sorted(V.FILE)) if op is None else op
    name = V.FILE[op]
    if sub is None:
        sub = g.choice([0, 0, 1, 2, g.choice(sorted(V.SUBS[name])), g.u8()]) if name in V.SUBS else g.choice([0, 0, g.u8()])
    s = V.SUBS.get(name, {}).get(sub) if sub else None
    if name == 'CreateFile':
        return create_file(g, c)
    if name in ('ReadFile', 'WriteFile'):
        return read_write(g, c, name)
    if name == 'CreateFileMapping':
        return mapping(g, c)
    if name in ('FileSystemControl', 'DeviceIoControl'):
        return control(g, c, name)
    if s == 'QueryDirectory':
        return query_dir(g, c)
    if s == 'NotifyChangeDirectory':
        return notify(g, c)
    if s == 'SetDispositionInformationFile':
        return disposition(g, c)
    return 3, op, file_det(g, c, sub, [], g.bytes(g.choice([0, 0, 4, 12]))), (g.bytes(g.choice([0, 4, 24])) if g.maybe(.25) else None)


def file_event(g, c):
    r = g.random()
    if r < .25:
        return create_file(g, c)
    if r < .4:
        return read_write(g, c, g.choice(['ReadFile', 'WriteFile']))
    if r < .5:
        return query_dir(g, c)
    if r < .6:
        return control(g, c)
    if r < .65:
        return mapping(g, c)
    if r < .7:
        return notify(g, c)
    if r < .75:
        return disposition(g, c)
    return plain_file(g, c)


def any_event(g, c):
    r = g.random()
    if r < .3:
        return file_event(g, c)
    if r < .6:
        return registry(g, c)
    if r < .8:
        return process(g, c)
    if r < .95:
        return network(g, c)
    return profiling(g, c)


# ----------------------------------------------------------------------------- whole files

def make_strings(g, n):
    out = [u'']
    for _ in range(n - 1):
        r = g.random()
        t = g.text(broken=.08)
        if r < .7:
            out.append(t + b'\0\0')
        elif r < .8:
            out.append(t)                          # no terminator
        elif r < .9:
            out.append(g.junk_after(t) + b'\0\0')  # a second text behind the terminator
        else:
            out.append(t + b'\0\0\0\0')
    return out


def kin(g, v, bits):
    """A number easily taken for v: one half in common, bytes swapped, a neighbour, a bit more or less."""
    top = (1 << bits) - 1
    k = g.choice([bits // 4, bits // 2, bits // 2, 3 * bits // 4])
    low = (1 << k) - 1
    return g.choice([(v & low) | (g.getrandbits(bits) & ~low & top), (v & ~low & top) | (g.getrandbits(bits) & low), v & low, v ^ (1 << g.randrange(bits)),
                     (v + 1) & top, (v - 1) & top, v ^ top, int.from_bytes(v.to_bytes(bits // 8, 'little'), 'big'), v ^ (1 << (bits - 1))])


def content(g, nprocs=3, nstrings=12, nmods=2, is64=None, idxs='any', hosts=3, ports=4):
    c = Content(g.maybe() if is64 is None else is64)
    if c.is64:
        c.is64_word = g.choice([1, 1, 2, 0x100, 0x80000000, 0xffffffff])
    c.strings = make_strings(g, max(1, nstrings))
    n = len(c.strings)
    s = lambda: g.randrange(n)
    used = set()
    for i in range(nprocs):
        while True:
            idx = {'dense': i, 'any': g.u32(), 'rev': nprocs - i, 'sparse': i * 7 + 3}[idxs]
            if used and idxs == 'any' and g.maybe(.5):
                idx = kin(g, g.choice(sorted(used)), 32)
            if idx not in used:
                break
        used.add(idx)
        c.procs.append(Proc(idx, g.u32(), g.u32(), g.u64(), g.u32(), g.u64(), g.u64(), g.choice([0, 1, 2, g.u32()]),
                            g.choice([0, 1, 2, 0x100, g.u32()]), [s() for _ in range(8)],
                            [Mod(g.pv(c.pv), g.u32(), s(), s(), s(), s(), g.u32()) for _ in range(g.randrange(nmods + 1))]))
    for _ in range(hosts):
        ip = g.bytes(4) + b'\0' * 12 if g.maybe() else b''.join(g.choice([b'\0\0', g.bytes(2)]) for _ in range(8))
        if g.maybe(.15):
            ip = g.choice(SPECIAL_IPS)
        elif c.hosts and g.maybe(.3):
            k = g.choice([4, 4, 8, 12, 15])
            ip = g.choice(c.hosts)[0]
            ip = ip[:k] + g.choice([b'\0' * (16 - k), g.bytes(16 - k)]) if g.maybe(.7) else g.bytes(k) + ip[k:]
        t = g.text()
        if g.maybe(.2):
            t = b''
        elif g.maybe(.03):
            t = units(g.wide(g.choice([255, 256, 257, 400, 1025])))
        name = g.choice([t + b'\0\0', t + b'\0\0', t, g.junk_after(t), b''])
        c.hosts.append((ip, name))
        if g.maybe(.2):
            c.hosts.append((ip, units(u'again') + b'\0\0'))
    for _ in range(ports):
        t = g.text()
        name = g.choice([t + b'\0\0', t + b'\0\0', t, g.junk_after(t), b''])
        p = kin(g, g.choice(c.ports)[0], 16) if c.ports and g.maybe(.3) else g.choice([80, 443, 0, 65535, g.u16()])
        c.ports.append((p, g.choice([0, 1, 1, 2, 0x100]), name))
        if g.maybe(.3):
            c.ports.append((p, g.choice([0, 1]), units(u'other') + b'\0\0'))
    c.computer = units(g.choice([u'HOST', u'', u'W' * 15, u'W' * 16, u'\U0001f600' * 3, u'DESKTOP-1']))
    c.root = units(g.choice([u'C:\\Windows', u'', u'D' * 260, u'\u05d0' * 259]))
    c.sp = units(g.choice([u'', u'', u'Service Pack 1', u'S' * 127, u'S' * 128, u'\u00e9']))
    c.win = g.choice([(6, 0), (6, 1), (6, 2), (6, 3), (10, 0)]) + (g.u32(), g.u32())
    c.cpus, c.ram = g.u32(), g.choice([0, 1, 8 << 30, (16 << 30) - 1, 17076375552, g.getrandbits(36), g.getrandbits(44)])
    return c


def event(g, c, kind, dated=True, depth=None, **kw):
    cls, op, det, x = kind(g, c, **kw)
    e = Ev(g.choice(c.procs).idx, cls, op, det, x)
    e.tid = g.u32()
    if dated:
        e.date, e.dur = g.when(), g.span()
    else:
        e.date, e.dur = g.u64(), g.u64()
    e.res = g.choice([0, 0, 0x103, g.choice(sorted(V.RESULTS)), g.u32()])
    d = g.choice([0, 0, 1, 2, 5]) if depth is None else depth
    e.stack = [g.pv(c.pv) for _ in range(d)]
    return e


def sibling(g, c):
    """Another log that is easily taken for this one: the same numbers everywhere, other texts and other contents."""
    d = copy.deepcopy(c)
    what = g.choice(['texts', 'fields', 'events', 'all', 'all'])
    texts, fields, events = (what in (x, 'all') for x in ('texts', 'fields', 'events'))

    def text(t):
        t = t if isinstance(t, bytes) else units(t)
        t = t[:len(t) // 2 * 2]
        r = g.random()
        if r < .3:
            return t
        if r < .5 and not twin:
            return b''
        if (twin or r < .75) and len(t.rstrip(b'\0')) >= 2:        # as long as the other
            return units(g.choice(u'abcxyz0189')) + t[2:]
        return t if twin else g.text() + g.choice([b'', b'\0\0'])
    twin = g.maybe(.4)
    if texts:
        d.strings = [text(t) for t in d.strings]
        d.hosts = [(ip, text(t)) for ip, t in d.hosts if g.maybe(.8)]
        d.ports = [(p, k, text(t)) for p, k, t in d.ports if g.maybe(.8)]
        for n in ('computer', 'root', 'sp'):
            if g.maybe(.6):
                setattr(d, n, units(g.choice([u'', u'P', u'Q-1', u'R\u05d0', u'S2'])))
    if fields:
        s = lambda: g.randrange(len(d.strings))
        for p in d.procs:
            if g.maybe(.7):
                for n, v in (('pid', g.u32()), ('ppid', g.u32()), ('auth', g.u64()), ('session', g.u32()), ('start', g.u64()), ('end', g.u64()), ('virt', g.choice([0, 1])), ('is64', g.choice([0, 1]))):
                    if g.maybe(.5):
                        setattr(p, n, v)
            if g.maybe(.6):
                p.strs = [x if g.maybe(.4) else s() for x in p.strs]
            for m in p.mods:
                if g.maybe(.6):
                    m.strs = [x if g.maybe(.4) else s() for x in m.strs]
                if g.maybe(.4):
                    m.size = g.u32()
                if g.maybe(.4):
                    m.timestamp = g.u32()
            if p.mods and g.maybe(.2):
                p.mods.pop()
        d.win = g.choice([(6, 0), (6, 1), (6, 2), (6, 3), (10, 0)]) + d.win[2:]
        if g.maybe():
            d.cpus, d.ram = g.u32(), g.getrandbits(40)
    if events and d.events:
        for e in d.events:
            if g.maybe(.4):
                f = g.choice(c.events)
                e.cls, e.op, e.det, e.extra = f.cls, f.op, f.det, f.extra
                e.dsize, e.xoff, e.xsize = f.dsize, f.xoff, f.xsize
            if g.maybe(.3):
                e.stack = list(g.choice(c.events).stack)
            if g.maybe(.3):
                e.res = g.choice([0, g.choice(sorted(V.RESULTS)), g.u32()])
            if g.maybe(.3):
                f = g.choice(c.events)
                e.date, e.dur = f.date, f.dur
            if g.maybe(.3):
                e.tid = g.choice(c.events).tid
            if g.maybe(.3):
                e.proc = g.choice(c.procs).idx
    return d


def cousin(g, c):
    """A sibling from a machine of the other pointer width."""
    d = sibling(g, c)
    d.is64 = not c.is64
    d.is64_word = 1 if d.is64 else 0
    m = (1 << 8 * d.pv) - 1
    for p in d.procs:
        for x in p.mods:
            x.base &= m
    for e in d.events:
        e.stack = [x & m for x in e.stack]
        if e.det is not None:
            kind = {1: process, 2: registry, 3: file_event, 5: network}.get(e.cls)
            if kind:
                e.cls, e.op, e.det, e.extra = kind(g, d)
                e.dsize = e.xoff = e.xsize = None
    return d


def layout(g, **kw):
    order = ['events', 'index', 'processes', 'strings', 'icons', 'hosts']
    if g.maybe(.6):
        g.shuffle(order)
    lay = Layout(g, order=order, noise=g.maybe(.8), permute=g.maybe(.6), gaps=g.choice([0, 0, 3, 40]),
                 share_strings=g.maybe(), extra_where=g.choice(['after', 'end', 'mixed']))
    for k, v in kw.items():
        setattr(lay, k, v)
    return lay


def plan_file(segs):
    import binascii
    return {'segs': [[o, binascii.b2a_hex(b).decode('ascii')] for o, b in segs]}
