"""Patterns and subjects of the checks: fixed families, every combination of a family or a sample of
it, random trees. What a pattern means is decided by the specification."""
import itertools

import gen
from gen import Profile, Gen, words
from rec import Job

ALL = dict(cls=2, lit=1, ref=2, eps=1, ncap=1, atom=1, look=1, behind=1, mode=1)


def all_w(**kw):
    d = dict(ALL)
    d['assert'] = 2
    d.update({('assert' if k == 'asrt' else k): v for k, v in kw.items()})
    return d


class D(str):
    """a text and the choices it was made of"""
    dims = ()

    def __new__(cls, text, *dims):
        x = str.__new__(cls, text)
        x.dims = tuple(enumerate(dims))
        return x


def choose(items, n, rng):
    """n of the items; where they are made of choices, as many pairs of choices as possible are covered"""
    items = list(items)
    if len(items) <= n:
        return items
    rng.shuffle(items)
    if not isinstance(items[0], D):
        return items[:n]
    out, rest, seen = [], items, set()
    k = max(len(x.dims) for x in items)
    for least in range(k * (k - 1) // 2, 0, -1):
        left = []
        for x in rest:
            new = [y for y in itertools.combinations(x.dims, 2) if y not in seen] if len(out) < n else ()
            if len(new) >= least:
                seen.update(new)
                out.append(x)
            else:
                left.append(x)
        rest = left
    return out + rest[:n - len(out)]


class Bag:
    """jobs without repetitions"""
    def __init__(self, rng):
        self.rng, self.jobs, self.seen = rng, [], set()

    def add(self, pat, ops, subj, **kw):
        key = (pat, kw.get('ct', 'char'))
        if key in self.seen or not pat:
            return False
        self.seen.add(key)
        self.jobs.append(Job(pat, ops, uniq(subj), **kw))
        return True

    def random(self, n, profiles, ops, size=(2, 9), k=14, small=2, subj=None):
        """n patterns of random trees; ops(rng) gives the calls"""
        tries = 0
        while n > 0 and tries < 20 * n + 200:
            tries += 1
            prof = self.rng.choice(profiles)
            g = Gen(self.rng, prof)
            t = g.tree(self.rng.randint(*size))
            s = gen.subjects_for(t, self.rng, prof.alphabet, k=k, small=small)
            if subj:
                s = s + subj(self.rng)
            if self.add(gen.text(t), ops(self.rng) if callable(ops) else ops, s):
                n -= 1

    def sample(self, items, n, ops, subj):
        for p in choose(items, n, self.rng):
            self.add(str(p), ops(self.rng) if callable(ops) else ops, subj(p) if callable(subj) else subj)


def uniq(xs):
    out, seen = [], set()
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def runs(c, *ns):
    return [c * n for n in ns]


W3 = words('ab', 3)
W4 = words('ab', 4)
W4C = words('ab', 3) + ['c', 'ac', 'bc', 'ca', 'cb', 'abc', 'acb', 'aac', 'abbc', 'aabc', 'abac', 'cabc', 'aaab', 'aaaa', 'abab', 'bbaa', 'baab']

QUANTS = ['*', '+', '?', '{2}', '{1,2}', '{0,2}', '{2,}', '{1,}', '{0,}', '{0,1}', '{2,3}', '{1,1}']
SUFFIX = ['', '?', '+']


def quants():
    return [q + s for q in QUANTS for s in SUFFIX if not (s and ',' not in q and q[0] == '{')]


ITEMS = ['a', 'b', '[ab]', '[^a]', '.', '\\w', '\\W', '\\d', '\\D', '\\s', '\\S', '[a-c]', '[^b-c]', '[[:alpha:]]', '[^[:digit:]]',
         '\\x61', '[\\d_]', '\\h', '\\N', '[[:upper:]a]']
# subjects over what the items tell apart
ITEM_SUBJ = uniq([x + y + z for x in ['', 'a', 'b', '1', ' '] for y in ['', 'a', 'b', '_'] for z in ['', 'a', 'b', '1', '\n', 'A']])


def follow(rng=None):
    """repeat of an item followed by something which can or cannot start alike"""
    out = []
    for x in ITEMS:
        for y in ITEMS:
            for q in ('*', '+', '?', '{1,2}'):
                for i, t in enumerate([x + q + y, '(' + x + q + ')(?:' + y + '|-)', x + q + y + '?' + x, '(' + x + q + ')' + '(?=' + y + ').',
                                       '(?:' + x + 'b|' + y + ')' + q + x, '(' + x + q + ')(' + y + '*)' + x]):
                    out.append(D(t, x, y, q, i))
    return out


SETS = ['b', '[bc]', '[b-d]', '[bd-e]', '[^c]', '[^b-d]', '[^bd]', '[^b-cf]', '[^a-f]', r'[^\x00-c]', r'[^c-\xff]', r'[\x00-b]', r'[e-\x7f]', '.', r'\w', r'\W', r'\d', r'[^\db]', r'[^\W]', r'[\dc]', '[[:lower:]]', '[^[:lower:]]', '[^[:alpha:]d]', r'\S', r'\N', '[^z-a]']
BODIES = ['(?:b|d)', '(?:bc|d)', '(?:b?c)', '(?:b*d)', '(c)', '(?:(?=[b-d]).)', '(?:(?![b-d]).)', '(?:|c)', '(?:[^b-d]|c)', '(?>[^b-d])', '(?:(?i)[^B-D])', '(?:b+c?)', '(?:[^c]b*)']


def collide():
    """a repeat of a set of characters followed by another set; all of them around the same characters"""
    out = []
    ends = ['a', 'c', 'd', 'e', 'f', ' ', r'\n']
    for xs, ys in [(SETS, SETS + ends), (BODIES, SETS[:12] + ends), (SETS[:12], BODIES + ['1', 'C', '\xe9', 'ad', '$', r'\b', '[ae]', '(?!c).', '(?<=d)', '(?i)C', '^', '(?:$|d)', 'e?c', 'e*?c'])]:
        for x in xs:
            for y in ys:
                for q in ['*', '+', '?', '{2,}', '{1,2}', '{0,3}']:
                    for i, t in enumerate(['%s%s%s', '(%s%s)%s', '%s%s(?:%s)', '(?:%s%s%s)*', '%s%s%s?.', '%s%s(?:%s)+g', '(?:(%s%s))%s']):
                        out.append(D(t % (x, q, y), x, y, q, i))
    return out


# every kind of node of a pattern; %s is a character it begins with, or has to do with
NODES = ['%s', '%sc', '%scd', '[%sc]', '[%s-d]', '[^a%s]', '[^ac-g]', '.', r'\w', '(?:%s|cd)', '(?:c|%s)', '(?:%sc|d)', '(?:%sc|%sd)', '(?:|%sc)', '(%s)', '(%sc)', '(?<n>%s)', '(?=%s)', '(?!%s)', '(?<=%s)', '(?<!%s)', '(?=%s)c', '(?=%s).', '(?!%s).', '(?<=%s)c', '(?<!%s)c', '(?>%s)', '(?>%sc|d)', '(?i)%s', '(?i)%s(?c)',
         r'\b', r'\B', '^', '$', r'\A', r'\Z', r'\z', '(?:)', '()', r'(%s)\g{-1}', r'(%s)?\g{-1}', r'(?<m>%s)\g{m}', r'(?:(%s)\g{-1}|c)']
REPS = ['*', '+', '?', '{2}', '{1,2}', '{0,2}', '{2,}', '{0,}', '{1,3}', '{0,3}', '{0,1}']


def nodes():
    """a repeat, a node of every kind with every repeat of its own, and something which begins otherwise"""
    out = []
    kinds = [(k, '') for k in NODES] + [(k, r + s) for k in ['%s', '(?:%sc)', '[%sc]', '(%s)', '(?:%s|c)', '(?>%s)', '(?:c?%s)', '(?:%s?c)'] for r in REPS for s in SUFFIX if not (s and r == '{2}')]
    for k in kinds:
        for x in ['b', '[b-d]', '[^ag]', 'c', '(?:b|c)', 'bc', '(?:bc)', '(b)', '.', 'e']:
            for q in ['', '*', '+', '?', '{2,}', '{0,2}', '*?', '+?', '*+', '??']:
                for z in ['', 'g', '(g)', '$', 'b', '[^b-d]', '(?:g|$)']:
                    n = k[0].replace('%s', 'b') + k[1]
                    out.append(D(x + q + n + z, k[0], k[1], x, q, z))
    return out


def skips():
    """a repeat, a repeated group which begins alike and can be left out or not, something which begins otherwise"""
    out = []
    for r in REPS:
        for u in SUFFIX:
            if u and r == '{2}':
                continue
            for y in ['(?:bc)', '(bc)', '(?>bc)', '(?:bc|d)', '(?:d|bc)', '(?:b?c)', '(?:b(?=c)c)', '(?:(?=b)bc)', '(?:[bf]c)', '(?<n>bc)', '(?:(?:bc))', '(?:(?:bc)?d)']:
                for x in ['b', '[be]', '[^ac-g]', '(?:b|f)', '(b)']:
                    for q in ['*', '+', '{1,}', '{0,3}', '{2,}']:
                        for z in ['g', '$', '(?:g|$)', 'a?g', '(?:ag)?', '(?=g).', '']:
                            out.append(D(x + q + y + r + u + z, r + u, y, x, q, z))
    return out


def between():
    """a repeat, something else which can be left out, and what the repeat has to give back"""
    out = []
    for q in ['*', '+', '{0,3}', '{1,}']:
        for y in [b + r + u for b in ['b', '(?:b)', '(b)', '[bc]', '(?:bc)'] for r in ['*', '?', '{0,2}', '{0,}'] for u in ['', '?', '+']] + ['(?:b|)', '(?:|b)', '(?:b?)', '(?:b*)', '(?:b?){2}', '(?:b??)+', '(?>b*)', '(?>b?)', '(?:b?c?)', '(?:b*+)*', '(b)?c*?', '(?i)b?', '(?=a)', '(?!b)']:
            for z in ['a', '[ab]', '(?:a)', 'a?$', '(?:b|a)']:
                out.append(D('a' + q + y + z, q, y, z))
    return out


BETWEEN_SUBJ = words('ab', 4) + ['aaaaa', 'aca', 'acb', 'abca', 'aabca', 'abcbca', 'aaca', 'abb', 'aabba', 'aabbb', 'aBa']


NODE_SUBJ = words('bcg', 3) + ['bd', 'bcd', 'bbd', 'bcdg', 'bcbc', 'bcbcg', 'bbbbg', 'bbbcg', 'cbcg', 'bccg', 'dg', 'ddg', 'bB', 'Bg', 'bBg', 'bbbb', 'bbcc', 'bbccg', 'bcbg', 'cccc', 'bcbcbc', 'e', 'eg', 'ebg', 'a', 'bag', 'cbbg', 'bbcbg', 'bbbbbg', 'cccg', 'cdg', 'bcdcdg']


def collide_subjects(rng):
    return lambda p: uniq([''.join(rng.choice('abcdefg') for _ in range(k)) for k in (0, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5)] + [''.join(rng.choice('abcdefgC1 \n\xe9') for _ in range(k)) for k in (1, 2, 2, 2, 3, 3, 3, 4, 4, 5)])


def fused():
    """adjacent repeats of the same"""
    qs = ['*', '+', '?', '{2}', '{1,2}', '{2,}', '*?', '+?', '*+', '++', '??', '?+', '{1,2}?', '{1,2}+', '{0,1}', '{2,3}', '{3,2}']
    out = []
    for x in ['a', '[ab]', '(?:ab)', '(?:a|b)', '(a)', '(?:a|)', '\\w']:
        for p in qs:
            for q in qs:
                for i, t in enumerate([x + p + x + q, x + p + x + q + 'b', '(' + x + p + ')' + x + q, '(?:' + x + p + x + q + '|b)' + x]):
                    out.append(D(t, x, p, q, i))
    return out


def fused_then():
    """adjacent repeats of the same, more behind them"""
    qs = ['*', '+', '?', '{1,2}', '*?', '+?', '??', '{1,2}?', '*+', '++', '?+', '{1,2}+']
    out = []
    for x in ['a', '[ab]', '(?:ab)', '[^b]']:
        for p in qs:
            for q in qs:
                for i, t in enumerate(['b?', 'b??a?', '(b|c)*', 'c?$', x + '?c?', x + '*?b?', '(?:b|)']):
                    out.append(D(x + p + x + q + t, x, p, q, i))
    return out


def anchors_in_places():
    out = []
    an = ['^', '\\A', '$', '\\z', '\\Z', '\\b', '\\B']
    for a in an:
        for f in ['%sa', 'a%s', '%s', '(?:%sa|b)', '(?:b|%sa)', '(?:%s)?a', '(?:%s|)a', '%s*a', '%s+a', '(%s)a', '(?:%s|c)a', 'a(?:%s|b)', '(?=%s)a',
                  '(?!%s)a', '(?<=%s)a', '(?<!%s)a', '(?:%sa)+', '(?:%sa)*b', '(?:%sa)?b', '(?>%s)a', '(?:a%s)*', 'a*%s', 'a*?%s', 'a*+%s', '%s%s', 'a?%sb?',
                  '(?:%sa|%sb)', '(?:%sa|ab)', '(?:(?:%sa|%sb)|%sc)', '(%sa)|(b)', '(?:%sa){2}', '(?:%sa){0,2}b', '%s|a', 'a|%s', '\\n%s', '%s\\n', '.%s.', '%s.+%s', '[^a]%s', '%s[^a]',
                  '(?i)%sa', '(?m)%sa', '(?m)a%s', '(?s)%sa', '(?m:%s)' , '(?:(?m)%s)a', '(?:%s{2})a', '(?:%s{0,3})a', '(?:a|%sb)+', '(?>%sa|b)', '(?<x>%s)a', '(?:%sa+)b', '(?:%s(?:%s(?:%sa)))']:
            n = f.count('%s')
            out.append(D(f % ((a,) * n), a, f))
        for b in an:
            for f in ['%s%s', '%sa%s', '(?:%sa|%sb)', '%s.*%s']:
                out.append(D(f % (a, b), a, f, b))
    # scoped mode groups are not in the grammar
    return [p for p in out if '(?m:' not in p]


def look_anchors():
    """anchors next to and inside of what a lookaround looks at"""
    an = ['^', '\\A', '$', '\\z', '\\Z', '\\b', '\\B']
    out = []
    for op in ['?=', '?!', '?<=', '?<!']:
        for a in an:
            for x in ['%s', '%sa', 'a%s', '%s\\n', '\\n%s', 'a%s|b', '%sa|\\n', '.%s', '%s.', 'a%s\\n', '\\n%sa', '(?=%s)', '(?!%s)', '(?<=%s).', '(?<!%s).', '(?!%s).']:
                for f in ['%s', '%sa', '%s\\n', 'a%s', '\\n%s', '%s.', '.%s.', '(?:%s|b)a', '(?:%s.)+']:
                    out.append(D(f % ('(' + op + x % a + ')'), op, a, x, f))
    return out


def anchored():
    """does the pattern begin with an anchor?"""
    out = []
    for a in ['^', '\\A']:
        for x in ['%sa', '%s', '%sa|%sb', '%sa|b', 'b|%sa', '%s|a', '(%sa)', '(?=%sa)', '(?!%sa)', '(?>%sa)', '(?<=%s)', '(?<!%s)', '(?:%sa)?', '(?:%sa)*', '(?:%sa){2}', '(?:%sa)b|%sa', '|%sa', '(?i)%sa', '(?s)%sa', '(?m)%sa', 'a{0,1}%s', '(?:)%sa', '\\b%s', '$%s', '%s+', '(?:(?:%sa)??)', '(?:a|b)%s', '\\n?%s', '(?:\\n|)%sa']:
            for q in ['', '*', '+', '?', '*?', '+?', '??', '*+', '++', '?+', '{2}', '{1,2}', '{0,1}', '{0,2}?', '{1,}+', '{0,2}+', '{1,2}?']:
                for i, t in enumerate(['(?:%s)%s', '(?:%s)%sb', '(?:%s)%s(?:%sb)', '(%s)%sb', '(?<n>%s)%s', '(?:(?:%s)%sa|%sb)', '(?:(?:%s)%sa|b)', '(?:(?:%s)%s){2}b', '(?>(?:%s)%s).']):
                    x1 = x.replace('%s', a)
                    y = t % ((x1, q, a) if t.count('%s') == 3 else (x1, q))
                    out.append(D(y, a, x, q, i))
    return out


LINES = uniq([x + y + z for x in ['', 'a', '\n', 'b', ' '] for y in ['', 'a', '\n', '-'] for z in ['', 'a', '\n', 'b']] +
             ['a\nb', 'a\n\nb', '\n\n', 'a\n\n', 'ab\nab\n', 'a_1', 'a b', '_', '1a', 'a-', '-a', ' a ', 'a\r\nb', '\ra'])


def captures_families():
    out = []
    bodies = ['a', 'b', 'a|b', 'a*', 'a*?', 'a+', 'a?', 'ab', 'a|ab', '[ab]', '', 'a|', '|a', '(a)', '(a)|b', 'a(b)', '(a)(b)?', '(?:a|(b))*', '(a|(b))+', '(?=(a))a', '(?>a|(b))', '(a*)(b*)']
    outer = ['(%s)', '(%s)*', '(%s)+', '(%s)?', '(%s){2}', '(%s){1,2}', '(%s)*?', '(%s)+?', '(%s)??', '(%s)*+', '(%s)++', '(%s)?+', '(?:(%s)|b)*', '(?:b|(%s))+', '(?=(%s))', '(?!(%s))a?', '(?>(%s))', '(?:(%s))', '(?:(%s)b)*', '(%s)|(b)', '(?<n>%s)', '(?:(%s)c|a)*', '(?:(%s)(?=b))?', '(?=(%s)b)a', '(?:(?=(%s))a)*', '((%s)b)*', '(?:(%s))+?b', '(?>(%s)|a)*']
    post = ['', 'b', 'a', '(b)', '(a*)', '$', '(?:a|b)*', '(b|c)?', 'c']
    for o in outer:
        for b in bodies:
            for p in post:
                out.append(D((o % b) + p, o, b, p))
    return out


def alternations():
    """ordered choice with shared prefixes, nesting, empty branches"""
    out = []
    alts = ['a', 'b', 'ab', 'aa', 'aab', 'abb', 'ba', 'abab', '[ab]', 'a*', 'a+', 'a?', '(?:a|ab)', '(?:ab|a)', '(?:)', '.', '\\w', 'bb', 'a|b']
    for x in alts:
        for y in alts:
            for i, t in enumerate(['{0}|{1}', '(?:{0}|{1})b', 'a(?:{0}|{1})', '(?:{0}|{1})(?:{1}|{0})', '(?:{0}|{1}|ba)a', '(?:(?:{0}|{1})|ab)b', '(?:{0}|){1}', '(?:|{0}){1}']):
                out.append(D(t.format(x, y), x, y, i))
    return out


def longs(rng, n):
    """long literals, many alternatives, deep nesting, long subjects: (pattern, subjects)"""
    out = []
    for k in [7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100]:
        s = ''.join(rng.choice('abcde') for _ in range(k))
        near = [s, s[:-1], s + 'a', s[1:], 'z' + s, s[:k // 2] + 'z' + s[k // 2 + 1:], s[:-1] + 'z', 'z' + s[1:], s[:k // 2], s + s, '']
        out.append((s, near))
        out.append(('(%s)' % s, near))
        out.append(('%s|%s' % (s[:-1] + 'q', s), near))
        out.append(('(?:%s)+' % s, near))
        out.append(('(?:%s|%s)*' % (s[:k // 2], s[k // 2:]), near))
        out.append(('.*%s' % s[k // 2:], near))
    for k in [2, 3, 5, 8, 10, 12, 16, 20, 26]:
        ws = [''.join(rng.choice('abc') for _ in range(rng.randint(1, 4))) for _ in range(k)]
        sub = uniq(ws + [w + rng.choice('abc') for w in ws] + [w[:-1] for w in ws])
        out.append(('|'.join(ws), sub))
        out.append(('(?:%s)(?:%s)' % ('|'.join(ws), '|'.join(ws[::-1])), sub + [a + b for a, b in zip(ws, ws[::-1])]))
        out.append(('(?:%s)*' % '|'.join(ws), sub + [''.join(rng.sample(ws, min(3, k)))]))
        out.append(('(%s)+c' % ')|('.join(ws) if False else '(?:(%s))c' % ')|('.join(ws), sub + [w + 'c' for w in ws]))
    for k in [3, 5, 8, 12, 20]:
        out.append(('(' * k + 'a' + ')' * k, ['a', '', 'aa', 'b']))
        out.append(('(?:' * k + 'a|b' + ')' * k + '*', W3))
        out.append(('(?:a' * k + ')?' * k, ['a' * i for i in range(k + 2)]))
        out.append(('(?:a(?:b' * k + ')?)*' * k, ['', 'a', 'ab', 'aba', 'abab', 'ababa', 'aab', 'abb', 'ab' * k]) if k < 6 else ('(?:ab)*', W3))
        out.append(('(?:a|b(?:' * (k // 2) + 'c' + '))' * (k // 2), ['a', 'ba', 'bc', 'bba', 'b' * (k // 2) + 'c', 'c', 'b' * (k // 2)]))
    for k in [4, 5, 7, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200]:
        sub = ['a' * i for i in (0, 1, k - 1, k, k + 1, k + 2, 2 * k)] + ['a' * k + 'b', 'a' * (k - 1) + 'b', 'b' + 'a' * k]
        out.append(('a{%d}' % k, sub))
        out.append(('a{%d,}' % k, sub))
        out.append(('a{2,%d}b?' % k, sub))
        out.append(('(a{1,%d}+)(a*+)' % k, sub))
        if k < 20:
            out.append(('(a{1,%d})(a*)' % k, sub))
            out.append(('(a{1,%d}?)(a*)' % k, sub))
            out.append(('(?:ab?){%d}' % k, sub))
        else:
            out.append(('[ab]{%d}' % k, sub))
        out.append(('(?:a|b){%d,%d}' % (k, k + 1), sub))
    rng.shuffle(out)
    return out[:n]


def backrefs():
    out = []
    groups = [('(a)', 1), ('(a*)', 1), ('(a|b)', 1), ('(ab)', 1), ('(a|ab)', 1), ('([ab]+)', 1), ('(a?)', 1), ('()', 1), ('(|a)', 1), ('(a)?', 1), ('(a)*', 1), ('(?:(a)|b)', 1), ('(a+?)', 1), ('((a)b)', 2), ('(a)(b)', 2),
              ('(?=(a))', 1), ('(?>(a|ab))', 1), ('(?!(a))', 1), ('((a)|b)', 2), ('(a)|b', 1), ('(?:(a)|(b))', 2), ('(a|(b))+', 2)]
    tails = ['%s', '%s%s', '%sb', 'b%s', '%s*', '%s+', '%s?', '(?:%s)?b', '%s|b', '(?:%s|b)', '(%s)', '(?=%s)a', '(?!%s).', '%s{2}', '[ab]*%s', '(?:b%s)*', '%s$', '(?>%s)', '%s+?b', '(?<x>c)?%s', 'a%sa', '(?i)%s', '.*?%s']
    for g, n in groups:
        for t in tails:
            k = t.count('%s')
            for i in range(1, n + 1):
                out.append(D(g + t % (('\\%d' % i,) * k), g, t, 'n'))
            out.append(D(g + t % (('\\g{%d}' % n,) * k), g, t, 'g'))
            if '(%s' not in t and '(?<x>c)?' not in t:
                out.append(D(g + t % (('\\g{-%d}' % 1,) * k), g, t, '-'))
            if g.startswith('(') and g[1] not in '?' :
                out.append(D('(?<nm>' + g[1:] + t % (('\\g{nm}',) * k), g, t, 'name'))
    # several digits, references inside of loops with their groups
    nine = '(a)(b)(c)(d)(e)(f)(g)(h)(i)'
    out += [D(x, x) for x in [nine + '(j)\\g{10}', nine + '(j)(k)\\g{11}\\g{-1}', nine + '(j)\\g{-10}', nine + '\\9', nine + '\\1\\2', nine + '(j)\\1\\g{1}0']]
    for x in ['(?:(a|b)\\1)+', '(?:(a|b)\\1)*b', '(?:(a)|b\\1)+', '(?:(a)|b\\1)*', '(?:(a|b)(?:\\1))*', '(?:(a*)\\1b)+', '(?:(?:(a)|(b))\\1)*', '(?:(a)\\1|(b)\\2)*', '(a|b\\1)+', '(a|b\\1)*', '(a\\1?)+', '(a\\1?){2,3}', '(?:(a)|(b)|\\1\\2)+',
              '([ab])([ab])\\2\\1', '(([ab])\\2)\\1', '(a(b?))\\1\\2', '(?<a>a)(?<b>b)\\g{b}\\g{a}', '(?<a>a)(?<aa>b)\\g{aa}\\g{a}', '(?<ab>a|b)\\g{ab}', '(a)(?:\\1|(b))*\\2', '(?:\\g{z}|(?<z>a))+', '(?:b\\g{z}|(?<z>a))*', '(.)(.)?\\2?\\1',
              '(?:(.)\\1)+', '^(.+)\\1$', '(.+)\\1', '(.*)\\1', '(.*?)\\1', '(.+?)\\1', '(a*)*\\1', '(?:(a)|b)\\1?', '(?<x>a*)b\\g{x}', '(?=(a+))\\1', '(?=(a+))a*b\\1', '(?i)(a)\\1', '(?i)(ab)\\1', '(a)(?i)\\1', '(?i)(a)(?c)\\1']:
        out.append(D(x, x))
    return out


BREF_SUBJ = uniq(W4 + ['aaaaa', 'aaaaaa', 'abab', 'ababab', 'abba', 'aabb', 'baa', 'aaab', 'aAa', 'aA', 'Aa', 'abAB', 'aBAb', 'AbaB', 'AA', 'ABab', 'c', 'ca', 'aca', 'abcdefghijj', 'abcdefghijkka', 'abcdefghijkkk', 'abcdefghija', 'abcdefghii', 'abcdefghiab', 'abcdefghijaa0', 'abcdefghi', 'bb', 'abbab', 'ababb', 'aabaab'])


def lookarounds():
    out = []
    body = ['a', 'b', 'ab', 'a|b', 'a|ab', '', 'a*', 'a+b', '(a)', '(a)|b', '.', '[ab]b', '^', '$', '\\b', '^a', 'b$', '(?=a)', '(?!a)', '(?<=a)', '(?<!b)', '(?:a|bb)', '.b', 'aab', '\\w\\w', '[^a]', '(?:)', '(?=a)a', 'a(?=b)', '(?>a|ab)', 'a*?b', 'a{2}', '(?:ab)+']
    behind_no = ('*', '+', '(a)', '{', '(?>')
    frames = ['%s', '%sa', '%sb', 'a%s', 'b%s', 'a%sb', '%s.', '.%s', '(?:%sa)*', '(?:a%s)*', '(?:%sa|b)+', 'a*%s', 'a*?%sb', 'a*+%s', '%s%s', '(%s)a', '(?:%s)?a', '.*%s.*', '(?>%s)a', '[ab]%s[ab]', '(?:%s|b)a', '^%s', '%s$', '(a)%s\\1', 'a+%sb', '(?:%s.)+', '.%s.%s.']
    for op in ['?=', '?!', '?<=', '?<!']:
        for b in body:
            if op.startswith('?<') and any(x in b for x in behind_no):
                continue
            x = '(%s%s)' % (op, b)
            for f in frames:
                out.append(D(f % ((x,) * f.count('%s')), op, b, f))
    # repeats around lookarounds
    return out


def empties():
    """loops whose bodies can be empty"""
    inner = ['', 'a*', 'a?', 'a|', '|a', 'a*?', 'a??', '(?:)', '^', '$', '\\b', '(?=a)', '(?!a)', '(?<=a)', 'a*b*', 'a?b?', '(a*)', '(a?)', '()', '(a|)', '(?>a*)', '(?:a*)*', '(?:a?)+', '(?:a|)*?', '(a*)\\1' if False else 'a{0,2}', '(?:a*){2}', '(?=a)|b', '(?:a|b*)', '(?:^a|$)', '(?i)', '(?:(?i))', 'a*+', 'a?+', '(?:a*)?', '(?:|a)b?', '(?:a*|b)']
    out = []
    for x in inner:
        g = '(?:%s)' % x
        for q in quants():
            for i, t in enumerate([g + q, g + q + 'b', '(' + x + ')' + q]):
                out.append(D(t, x, q, i))
            for q2 in ['*', '+', '?', '*?', '+?', '*+', '{2}', '{1,2}', '{2,}', '{2,2}?', '{1,2}+']:
                for i, t in enumerate(['(?:' + g + q + ')' + q2, '(?:' + g + q + '|b)' + q2 + 'a', '(?:' + g + q + 'b?)' + q2]):
                    out.append(D(t, x, q, i, q2))
    return out


def ref_loops():
    """loops whose bodies are back references, which are empty when their group is"""
    out = []
    groups = ['', 'a*', 'a?', 'a|', '|a', 'a??', 'b*?', '(?=a)', '^', 'a{0,2}', '[ab]?', '(?:a*)*', '(?i)a?']
    bodies = ['%s', '%s|b', 'b?%s', '%sa?', '%s%s', '(?:%s)', '(%s)', '(?>%s)', '(?=%s)', '(?:%s)*', '%s?', '\\b|%s', '%s{2}', '(?:|%s)', 'b|%s']
    for g in groups:
        for kind, head, ref in [('1', '(' + g + ')', '\\1'), ('g', '(' + g + ')', '\\g{1}'), ('name', '(?<n>' + g + ')', '\\g{n}')]:
            for x in bodies:
                t = x.replace('%s', ref)
                for q in ['*', '+', '*?', '+?', '*+', '++', '{2,}', '{1,3}', '{2}', '{1,}?', '{0,2}+']:
                    for i, u in enumerate(['%s(?:%s)%s', '%s(?:%s)%sb', '(?:%s(?:%s)%s|b)*a', '%s(?:%s)%s[ab]']):
                        out.append(D(u % (head, t, q), g, kind, x, q, i))
    return out


def classes():
    """class expressions for single characters"""
    e = ['a', 'Z', '0', '_', ' ', '\\.', '\\[', '\\]', '\\{', '\\}', '\\(', '\\)', '\\\\', '\\*', '\\+', '\\?', '\\|', '\\^', '\\$', '\\-', '\\/', '\\"', '\\<', '\\>', '/', ',', ':', '!', '=', '"', '-', ']', '<', '>', '#', '%', '&', "'", ';', '@', '`', '~', '\t', '\n', '\r', '\x01', '\x7f',
         '\\n', '\\t', '\\r', '\\0', '\\a', '\\e', '\\f', '\\x41', '\\x00', '\\x7f', '\\xff', '\\x80', '\\u0041', '\\u00e9', '\\u{41}', '\\x{7e}', '\\x{e9}', '\\x{0}', '\\u{000041}', '.']
    sh = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\h', '\\H', '\\v', '\\V', '\\N']
    names = ['alnum', 'alpha', 'ascii', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'word', 'xdigit']
    posix = ['[:%s:]' % n for n in names] + ['[:^%s:]' % n for n in names]
    out = e + sh
    out += ['[%s]' % s for s in sh] + ['[^%s]' % s for s in sh]
    out += ['[%s]' % p for p in posix] + ['[^%s]' % p for p in posix]
    rng = ['a-z', 'A-Z', '0-9', 'a-c', 'c-a', 'a-a', '!-/', '\\x00-\\x1f', '\\x00-\\xff', '\\x80-\\xff', '\\x20-\\x7e', '\\x41-\\x43', '\\[-\\]', '\\0-\\t', '\\a-\\r', 'X-c', '9-A', ' -~', '*-.', '+-/', '\\--9', '!-\\-', '%-\\/', '\\x7e-\\x81', '\\u0041-\\u{44}', '\\e-\\"', '=->', '<-=', '/-:', '_-a', 'Z-\\^', '.-.']
    out += ['[%s]' % r for r in rng] + ['[^%s]' % r for r in rng]
    atoms = ['a', 'b', 'x', '_', '0', '\\n', '\\]', '\\-', '\\^', '\\\\', '.', '*', '+', '(', ')', '{', '}', '|', '$', '?', '/', '<', '>', '"', '=', '!', ',', ':', ' ', '\\x41', '\\0', 'a-z', 'A-F', '0-9', '\\d', '\\w', '\\s', '\\W', '\\D', '\\S', '\\h', '\\v', '\\N', '[:alpha:]', '[:^digit:]', '[:punct:]', '[:space:]', '\\x80-\\xff', '#', '@', '\t']
    for i, x in enumerate(atoms):
        for y in atoms[i:]:
            out.append('[%s%s]' % (x, y))
            out.append('[^%s%s]' % (y, x))
    out += ['[a^]', '[^^]', '[^\\^a]', '[a\\^]', '[\\^]', '[]' if False else '[\\]]', '[^]', '[a^b]', '[.*]', '[(?:a)]', '[a|b]', '[${}]', '[a-zA-Z0-9_]', '[^a-zA-Z0-9_]', '[a-cx-z]', '[^a-cx-z]', '[\\w\\-]', '[[:alpha:]_]', '[[:alnum:][:space:]]', '[^[:alnum:][:space:]]', '[\\d\\s_]', '[a-c\\d[:punct:]]', '[^\\W_]', '[^\\D5]', '[^\\S\\n]', '[a-cb-d]', '[z-a]', '[^z-a]', '[aAbB]', '[\\x61\\x62]', '[a-z\\d_.]', '[+*?.]']
    return uniq(out)
