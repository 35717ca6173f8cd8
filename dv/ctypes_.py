"""C/C++ type strings -> small type terms."""
import re

INTS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
        'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'int8_t': (8, True), 'uint8_t': (8, False), 'int16_t': (16, True), 'uint16_t': (16, False),
        'int32_t': (32, True), 'uint32_t': (32, False), 'int64_t': (64, True), 'uint64_t': (64, False),
        'size_t': (64, False), 'ssize_t': (64, True), 'uintptr_t': (64, False), 'intptr_t': (64, True),
        'ptrdiff_t': (64, True), 'size_type': (64, False), 'difference_type': (64, True),
        'lid_t': (32, True), 'gid_t': (64, True), 'part_t': (32, True), 'etype': (32, True),
        'unsigned int32_t': (32, False), 'std::size_t': (64, False)}
CANON = {(8, True): 'char', (8, False): 'uchar', (16, True): 'short', (16, False): 'ushort', (32, True): 'int',
         (32, False): 'uint', (64, True): 'long', (64, False): 'ulong'}
REALS = {'double', 'float', 'wgt_t', 'long double'}
OPAQUE = {'GraphVertex', 'GraphEdge', 'VertexIterator', 'GhostIterator', 'VEVIterator', 'EVEIterator'}


class T:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int':
            return CANON[(self.a, self.b)]
        if self.k in ('ptr', 'ref'):
            return '%s(%r)' % (self.k, self.a)
        if self.k == 'arr':
            return 'arr(%r,%s)' % (self.a, self.b)
        if self.k == 'rec':
            return self.a + (('<' + ','.join(map(repr, self.b)) + '>') if self.b else '')
        return self.k

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


VOID, BOOL, REAL = T('void'), T('bool'), T('real')


def INT(bits=32, s=True):
    return T('int', bits, s)


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class TypeTab:
    def __init__(self):
        self.typedefs = {}
        self.cache = {}

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        r = self._parse(s)
        self.cache[s] = r
        return r

    def _parse(self, s):
        s = s.strip()
        s = re.sub(r'\b(const|volatile|struct|class|union|typename|restrict|__restrict)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        if s.endswith('&&'):
            return T('ref', self.parse(s[:-2]))
        if s.endswith('&'):
            return T('ref', self.parse(s[:-1]))
        m = re.match(r'^(.*)\((\*|&)\)\s*\[(\d*)\]$', s)
        if m:
            inner = T('arr', self.parse(m.group(1)), int(m.group(3) or 0))
            return T('ptr' if m.group(2) == '*' else 'ref', inner)
        if '(*' in s and s.endswith(')') and '<' not in s.split('(*')[0]:
            return T('ptr', T('func'))
        if s.endswith('*'):
            return T('ptr', self.parse(s[:-1]))
        if s.endswith(']'):
            i = s.index('[')
            m = re.match(r'^(.*?)\s*((?:\[\d*\])+)$', s)
            dims = [int(x or 0) for x in re.findall(r'\[(\d*)\]', m.group(2))]
            t = self.parse(m.group(1))
            for d in reversed(dims):
                t = T('arr', t, d)
            return t
        if s.endswith(')') and '(' in s and not s.startswith('('):
            return T('func')
        base = s
        if base in INTS:
            return T('int', *INTS[base])
        if base in ('bool', '_Bool'):
            return BOOL
        if base in REALS:
            return REAL
        if base in ('void',):
            return VOID
        # strip namespaces
        if '<' in base:
            i = base.index('<')
            name = base[:i].split('::')[-1]
            j = _match(base, i)
            rest = base[j + 1:]
            args = [self.parse(a) if not re.match(r'^\d+$', a) else T('lit', a) for a in split_args(base[i + 1:j])]
            if rest.startswith('::'):
                sub = rest.split('::')[-1]
                if sub in ('iterator', 'const_iterator', 'reverse_iterator'):
                    return T('rec', 'iterator', [T('rec', name, args)])
                if sub in ('size_type',):
                    return INT(64, False)
                if sub == 'value_type' or sub == 'reference':
                    return args[0]
                return T('rec', sub)
            return T('rec', name, args)
        name = base.split('::')[-1]
        if name in INTS:
            return T('int', *INTS[name])
        if name in REALS:
            return REAL
        for key in (base, name):
            d = self.typedefs.get(key)
            if d is not None and d not in (base, s):
                if re.sub(r'^(struct|class|union) ', '', d).split('::')[-1] == name:
                    return T('rec', name)
                return self.parse(d)
        if base.startswith('enum '):
            return INT(32, False)
        return T('rec', name)


def _match(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<':
            d += 1
        elif s[j] == '>':
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


def sizeof(t):
    if t.k == 'int':
        return t.a // 8
    if t.k == 'bool':
        return 1
    if t.k == 'real':
        return 8
    if t.k in ('ptr', 'ref'):
        return 8
    if t.k == 'arr':
        return sizeof(t.a) * t.b
    if t.k == 'void':
        return 1
    return None
