"""Contract of the parser of high-voltage configuration files (C29).

A line of the file is one of the kinds listed in KINDS, with any numbers in
it; the file is any number of lines.  In proofs a number stands in the line as
one character of its own, and regular expressions are matched against that:
this is exact as long as the expression takes numbers whole (digits only in
runs of one or more), which is checked."""
import re as _re
from pydv.registry import unit

M = 'CHECLabPy.utils.files'
NUM = ['\ue000', '\ue001', '\ue002']
# kinds of lines: (an entry of which array, text)
KINDS = [(None, '\n'), ('dac', 'M:{0}/F/S:{1}|HV={2}\n'), ('hvon', 'M:{0}/F/S:{1}|HVOn={2}\n'),
         ('dac', 'CHEC M:{0}/F/S:{1}|HV={2} # was higher\n'), ('hvon', '  M:{0}/F/S:{1}|HVOn={2} # on\n'),
         (None, '# M: module, S: superpixel\n'), (None, 'M:{0}/F|Temperature={2}\n'), (None, 'M:{0}/F/S:{1}|Current={2}\n'),
         (None, 'HVOnDelay={2}\n'), (None, 'M:{0}/F/S:{1}|HV=off\n')]
TEXT = ('regular expressions as Python matches them, numbers being runs of digits; open() gives the lines of the file in order')


class Missing:
    def __getattr__(self, k):
        if k.startswith(('_', 'pv_')) or k == 'cx':
            raise AttributeError(k)
        self.__dict__['cx'].cannot('%s.%s is not part of the contract' % (type(self).__name__, k))


class Digits(Missing):
    """A piece of text that is a number."""

    def __init__(self, cx, value):
        self.cx, self.value = cx, value

    def pv_int(self):
        return self.value


class Match(Missing):
    def __init__(self, line, m):
        self.cx, self.line, self.m = line.cx, line, m

    def piece(self, s):
        if s in NUM:
            return Digits(self.cx, self.line.numbers[NUM.index(s)])
        if s is not None and any(n in s for n in NUM):
            self.cx.cannot('a piece of text with numbers in it')
        return s

    def group(self, *ns):
        r = tuple(self.piece(self.m.group(n)) for n in ns or (0,))
        return r if len(r) > 1 else r[0]

    def groups(self):
        return tuple(self.piece(s) for s in self.m.groups())

    def __getitem__(self, n):
        return self.group(n)

    def pv_getitem(self, n):
        return self.group(n)


def rewritten(cx, pattern):
    """The expression with numbers taken as one character."""
    p = _re.sub(r'\\d\+|\[0-9\]\+', '\ue0ff', pattern)
    if _re.search(r'\\[dwDWSb1-9]|[0-9]|\[|\{|(?<!\\)\|', p) or _re.search('\ue0ff[?*+]', p):
        cx.cannot('regular expression %s' % pattern)
    p = _re.sub(r'(?<!\\)\.(?![*+])', '\ue0fe', p)
    if '\ue0fe' in p:
        cx.cannot('regular expression %s' % pattern)
    return p.replace('\ue0ff', '[%s]' % ''.join(NUM))


class Pattern(Missing):
    def __init__(self, cx, pattern):
        self.cx, self.pattern = cx, pattern
        self.compiled = _re.compile(rewritten(cx, pattern))

    def apply(self, how, line):
        if not isinstance(line, Line):
            return getattr(_re.compile(self.pattern), how)(line)
        text = line.text()
        m = getattr(self.compiled, how)(text)
        return None if m is None else Match(line, m)

    def search(self, line):
        return self.apply('search', line)

    def match(self, line):
        return self.apply('match', line)

    def fullmatch(self, line):
        return self.apply('fullmatch', line)


class Line(Missing):
    def __init__(self, cx, kind, numbers):
        self.cx, self.kind, self.numbers = cx, kind, numbers

    def texts(self):
        return [t.format(*NUM) for _, t in KINDS]

    def text(self):
        for i, t in enumerate(self.texts()[:-1]):
            if self.cx.decide(self.kind == i):
                return t
        return self.texts()[-1]

    def pv_contains(self, s):
        if not isinstance(s, str) or any(c.isdigit() for c in s):
            self.cx.cannot('substring test')
        return self.cx.or_(*[self.kind == i for i, t in enumerate(self.texts()) if s in t])

    def startswith(self, s):
        if not isinstance(s, str) or any(c.isdigit() for c in s):
            self.cx.cannot('substring test')
        return self.cx.or_(*[self.kind == i for i, t in enumerate(self.texts()) if t.startswith(s)])


class File(Missing):
    def __init__(self, cx, lines):
        self.cx, self.lines = cx, lines

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def pv_iter(self):
        return self.lines.pv_iter()

    def readlines(self):
        return self.lines


@unit('C29')
def hv_configuration(cx):
    m = cx.load(M)
    cx.assume_contract(TEXT)
    n = cx.int('lines', 0, conc=(0, 14))
    kind = cx.array('kind', (n,), 'i8', 0, len(KINDS) - 1)
    mod = cx.array('module', (n,), 'i8', 0, 31, gen=lambda r, s: r.choice([0, 1, 5, 12, 31], size=s))
    sp = cx.array('superpixel', (n,), 'i8', 0, 15, gen=lambda r, s: r.choice([0, 1, 10, 15], size=s))
    val = cx.array('value', (n,), 'i8', 0, 32767, gen=lambda r, s: r.choice([0, 1, 10, 255, 32767], size=s))
    path = cx.tmp('hv.cfg')
    if cx.symbolic:
        lines = cx.stream(n, lambda k: Line(cx, kind[k], (mod[k], sp[k], val[k])))
        cx.patch(m, 'open', lambda p, mode='r', **k: File(cx, lines) if p == path else cx.cannot('another file'))
        compiled = lambda p: p if isinstance(p, Pattern) else Pattern(cx, p)
        cx.patch(m, 're', cx.module('re', compile=compiled, search=lambda p, l: compiled(p).search(l),
                                    match=lambda p, l: compiled(p).match(l)))
    else:
        with open(path, 'w') as f:
            for k in range(n):
                f.write(KINDS[kind[k]][1].format(mod[k], sp[k], val[k]))
    dac, hvon = m.extract_hv_cfg(path)
    for name, a in (('dac', dac), ('hvon', hvon)):
        mine = [i for i, (w, _) in enumerate(KINDS) if w == name]
        cx.shape(name, a, (32, 16))

        def cell(i, j):
            sets = lambda k: cx.and_(cx.or_(*[kind[k] == x for x in mine]), mod[k] == i, sp[k] == j)
            return a[i, j], cx.at_first(n, lambda q: sets(n - 1 - q), lambda q: val[n - 1 - q], 0)
        cx.all(name + ': last entry of the cell', (32, 16), cell)
