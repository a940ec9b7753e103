"""Patterns and subjects.

Patterns are made as syntax trees and written out as text; what the text means is decided by the
specification (spec/Parser.tla), never by this module. The trees only serve to build subjects that
have a chance to match.

Nodes: ('t', text, samples)      one character, written text, matching e.g. samples
       ('seq', [x]) ('alt', [x]) ('eps',)
       ('rep', suffix, lo, hi, x)
       ('cap', x) ('ncap', name, x) ('grp', x) ('atom', x)
       ('look', op, x)           op in ?= ?! ?<= ?<!
       ('z', text)               zero-width assertion or mode switch
       ('ref', text, group)      back reference
"""
import random, re

SPECIAL = set('.[]{}()\\*+?|^$')


def lit(ch):
    return ('t', '\\' + ch if ch in SPECIAL else ch, ch)


def text(x):
    k = x[0]
    if k in ('t', 'z', 'ref'):
        return x[1]
    if k == 'eps':
        return ''
    if k == 'seq':
        return ''.join(group_if(y, ('alt', 'eps')) for y in x[1])
    if k == 'alt':
        out = []
        for i, y in enumerate(x[1]):
            # only the first and the last alternative can be empty
            out.append('(?:)' if y[0] == 'eps' and 0 < i < len(x[1]) - 1 else group_if(y, ('alt',)))
        if len(out) == 2 and out[0] == '' and out[1] == '':
            return '(?:)|'
        return '|'.join(out)
    if k == 'rep':
        return group_if(x[4], ('seq', 'alt', 'rep', 'eps')) + x[1]
    if k == 'cap':
        return '(' + text(x[1]) + ')'
    if k == 'ncap':
        return '(?<' + x[1] + '>' + text(x[2]) + ')'
    if k == 'grp':
        return '(?:' + text(x[1]) + ')'
    if k == 'atom':
        return '(?>' + text(x[1]) + ')'
    if k == 'look':
        return '(' + x[1] + text(x[2]) + ')'
    raise ValueError(k)


def group_if(x, kinds):
    return '(?:' + text(x) + ')' if x[0] in kinds and not (x[0] == 'seq' and len(x[1]) == 1) else text(x)


def sample(x, rng, caps=None, depth=0):
    """a string the tree could match (asserts and lookarounds ignored)"""
    if caps is None:
        caps = {'n': 0, 'v': {}}
    k = x[0]
    if k == 't':
        return rng.choice(x[2]) if x[2] else ''
    if k in ('z', 'eps'):
        return ''
    if k == 'ref':
        return caps['v'].get(x[2], '')
    if k == 'seq':
        return ''.join(sample(y, rng, caps, depth + 1) for y in x[1])
    if k == 'alt':
        return sample(rng.choice(x[1]), rng, caps, depth + 1)
    if k == 'rep':
        lo, hi = x[2], x[3]
        n = rng.choice([lo, lo, lo + 1, lo + 2])
        if hi is not None and hi >= lo:
            n = min(n, hi)
        return ''.join(sample(x[4], rng, caps, depth + 1) for _ in range(min(n, 6)))[:24]
    if k in ('cap', 'ncap'):
        caps['n'] += 1
        me = caps['n']
        s = sample(x[-1], rng, caps, depth + 1)
        caps['v'][me] = s
        if k == 'ncap':
            caps['v'][x[1]] = s
        return s
    if k in ('grp', 'atom'):
        return sample(x[1], rng, caps, depth + 1)
    if k == 'look':
        return ''
    raise ValueError(k)


def has(x, kinds):
    if x[0] in kinds:
        return True
    for y in x[1:]:
        if isinstance(y, tuple) and y and isinstance(y[0], str) and has(y, kinds):
            return True
        if isinstance(y, list) and any(has(z, kinds) for z in y):
            return True
    return False


def refs_ok(x):
    """every reference is to a group which is already opened"""
    st = dict(n=0, names=set(), ok=True, want=set())

    def walk(y):
        k = y[0]
        if k == 'ref':
            t = y[1]
            m = re.match(r'\\(\d+)$|\\g\{(-?\d+)\}$', t)
            if m:
                v = abs(int(m.group(1) or m.group(2)))
                st['ok'] = st['ok'] and 1 <= v <= st['n']
            else:
                st['want'].add(y[2])
        elif k in ('seq', 'alt'):
            for z in y[1]:
                walk(z)
        elif k in ('cap', 'ncap'):
            st['n'] += 1
            if k == 'ncap':
                st['names'].add(y[1])
            walk(y[-1])
        elif k in ('rep', 'grp', 'atom', 'look'):
            walk(y[-1])
    walk(x)
    return st['ok'] and st['want'] <= st['names']


QUANT = [('*', 0, None), ('+', 1, None), ('?', 0, 1)]
BRACED = [('{2}', 2, 2), ('{1,2}', 1, 2), ('{0,2}', 0, 2), ('{2,}', 2, None), ('{1,}', 1, None),
          ('{0,}', 0, None), ('{0,1}', 0, 1), ('{1}', 1, 1), ('{2,3}', 2, 3), ('{1,3}', 1, 3), ('{3}', 3, 3),
          ('{2,2}', 2, 2), ('{3,2}', 3, 2)]
CLASSES = [('.', 'abx'), ('[ab]', 'ab'), ('[^a]', 'bcx'), ('\\w', 'ab1_'), ('\\d', '19'), ('\\s', ' \n'), ('\\D', 'ab'),
           ('[a-c]', 'abc'), ('[^b-c]', 'adx'), ('\\W', ' -'), ('[[:alpha:]]', 'abZ'), ('[a\\d]', 'a1'), ('\\S', 'ab')]


class Profile:
    """weights of the constructs"""
    def __init__(self, alphabet='ab', classes=None, **w):
        self.alphabet = alphabet
        self.classes = classes or CLASSES
        self.w = dict(char=10, seq=6, alt=3, rep=4, cap=2, grp=1)
        self.w.update(w)

    def copy(self, **w):
        p = Profile(self.alphabet, self.classes, **self.w)
        p.w.update(w)
        return p


class Gen:
    def __init__(self, rng, prof):
        self.rng, self.p = rng, prof
        self.ncap = 0
        self.names = []
        self.in_behind = False

    def pick(self, names):
        ws = [self.p.w.get(n, 0) for n in names]
        return self.rng.choices(names, ws)[0]

    def tree(self, size):
        while True:
            self.ncap, self.names = 0, []
            x = self.node(size, True)
            if refs_ok(x):
                return x

    def leaf(self):
        r = self.rng
        names = ['char', 'lit', 'cls', 'assert', 'mode', 'ref', 'eps']
        if self.in_behind:
            names = ['char', 'lit', 'cls', 'assert', 'eps']
        k = self.pick(names)
        if k == 'ref' and self.ncap == 0:
            k = 'char'
        if k == 'char':
            return lit(r.choice(self.p.alphabet))
        if k == 'lit':
            return ('seq', [lit(r.choice(self.p.alphabet)) for _ in range(r.choice([2, 2, 3, 4, 6]))])
        if k == 'cls':
            return ('t',) + r.choice(self.p.classes)
        if k == 'assert':
            return ('z', r.choice(['^', '$', '\\A', '\\z', '\\Z', '\\b', '\\B']))
        if k == 'mode':
            return ('z', r.choice(['(?i)', '(?c)', '(?m)', '(?s)', '(?im)', '(?cs)']))
        if k == 'eps':
            return ('grp', ('eps',))
        if self.names and r.random() < 0.3:
            n = r.choice(self.names)
            return ('ref', '\\g{%s}' % n, n)
        i = r.randint(1, self.ncap)
        form = r.random()
        if form < 0.6 and i <= 9:
            # a digit behind \1 would not change its meaning, it has one digit
            return ('ref', '\\%d' % i, i)
        if form < 0.8:
            return ('ref', '\\g{%d}' % i, i)
        return ('ref', '\\g{-%d}' % (self.ncap + 1 - i), i)

    def quant(self):
        r = self.rng
        q = r.choice(QUANT) if r.random() > self.p.w.get('braced', 0.3) else r.choice(BRACED)
        suffix = ''
        if not (q[0].endswith('}') and ',' not in q[0]):
            x = r.random()
            if x < self.p.w.get('lazy', 0.2):
                suffix = '?'
            elif x < self.p.w.get('lazy', 0.2) + self.p.w.get('poss', 0.15):
                suffix = '+'
        return (q[0] + suffix, q[1], q[2])

    def node(self, size, top=False):
        r = self.rng
        if size <= 1:
            return self.leaf()
        kinds = ['seq', 'alt', 'rep', 'cap', 'ncap', 'grp', 'atom', 'look', 'behind']
        if self.in_behind:
            kinds = ['seq', 'alt', 'grp', 'look', 'behind']
        k = self.pick(kinds)
        if k == 'seq':
            n = r.choice([2, 2, 3]) if size > 2 else 2
            return ('seq', [self.node(s) for s in self.split(size, n)])
        if k == 'alt':
            n = r.choice([2, 2, 3, min(5, size)]) if size > 2 else 2
            xs = [self.node(s) for s in self.split(size, n)]
            if r.random() < 0.15:
                xs[r.choice([0, -1])] = ('eps',)
            return ('alt', xs)
        if k == 'rep':
            body = self.node(size - 1)
            q = self.quant()
            return ('rep', q[0], q[1], q[2], body)
        if k == 'cap':
            self.ncap += 1
            return ('cap', self.node(size - 1))
        if k == 'ncap':
            self.ncap += 1
            n = 'n%d' % self.ncap
            self.names.append(n)
            return ('ncap', n, self.node(size - 1))
        if k == 'grp':
            return ('grp', self.node(size - 1))
        if k == 'atom':
            return ('atom', self.node(size - 1))
        if k == 'look':
            return ('look', r.choice(['?=', '?!']), self.node(size - 1))
        if k == 'behind':
            was, self.in_behind = self.in_behind, True
            x = ('look', r.choice(['?<=', '?<!']), self.node(size - 1))
            self.in_behind = was
            return x
        raise ValueError(k)

    def split(self, size, n):
        out = [1] * n
        for _ in range(max(0, size - n)):
            out[self.rng.randrange(n)] += 1
        return out


def words(alphabet, n):
    out = ['']
    last = ['']
    for _ in range(n):
        last = [w + c for w in last for c in alphabet]
        out += last
    return out


def subjects_for(tree, rng, alphabet, k=14, small=2, maxlen=12):
    """every short word and mutated samples of the tree"""
    out = list(words(alphabet[:2], small))
    seen = set(out)
    extra = alphabet + 'x'
    tries = 0
    while len(out) < k and tries < 80:
        tries += 1
        s = sample(tree, rng)
        m = rng.random()
        if m < 0.15 and s:
            i = rng.randrange(len(s))
            s = s[:i] + s[i + 1:]
        elif m < 0.3:
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice(extra) + s[i:]
        elif m < 0.4 and s:
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(extra) + s[i + 1:]
        elif m < 0.55:
            s = ''.join(rng.choice(extra) for _ in range(rng.randint(1, 3))) + s
        elif m < 0.65:
            s = s + ''.join(rng.choice(extra) for _ in range(rng.randint(1, 3)))
        elif m < 0.75:
            s = s + sample(tree, rng)
        s = s[:maxlen]
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out
