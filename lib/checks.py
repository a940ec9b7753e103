"""One function per property: what is enumerated, generated and validated for it."""
import random

import corpora as F
import core, gen, rec, tla
from corpora import Bag, all_w, uniq, words
from gen import Profile
from rec import Job


def plain(f, *names):
    """an operation chooser"""
    def ops(rng):
        return [(o, rng.choice(f) if not isinstance(f, int) else f) for o in names]
    return ops


def some(items, rng, n):
    return F.choose(items, n, rng)


def law(c, label, invariants, words='ab', maxlen=3, sizes=(3, 4), **profile):
    """the laws of the semantics on every pattern TLC can build from the given pieces; returns the patterns"""
    return c.enumerate(dict(profile, size=c.n(*sizes), words=words, maxlen=maxlen), ['ReadAsWritten'] + list(invariants), 'laws: ' + label,
                       timeout=700 if c.thorough else 300)


GENERAL = dict(F.ALL, **{'assert': 1})


def profiles(alphabets=('ab', 'abc'), **w):
    d = dict(GENERAL)
    d.update(w)
    return [Profile(a, **d) for a in alphabets]


# --- C01 whole-subject match ------------------------------------------------------------------
def C01(c):
    c.witnesses()
    pats = law(c, 'membership', ['GeneratedIsAccepted', 'WaysAreDistinct'], leaves=['a', 'b', '[^a]'], quants=['*', '+?', '?'], wraps=['(?:'])
    m0 = [('m', 0)]
    b = Bag(c.rng)
    b.sample(pats, c.n(350, 4000), m0, F.W4)
    b.sample(F.alternations(), c.n(350, 3000), m0, F.W4C)
    for p, s in F.longs(c.rng, c.n(60, 400)):
        b.add(p, m0, s)
    b.sample(F.fused(), c.n(80, 1500), m0, F.W4C)
    b.sample(F.follow(), c.n(150, 2000), m0, F.ITEM_SUBJ)
    b.sample(F.collide(), c.n(450, 6000), m0, F.collide_subjects(c.rng))
    b.sample(F.skips(), c.n(120, 2000), m0, lambda p: some(F.NODE_SUBJ, c.rng, 36))
    b.sample(F.nodes(), c.n(250, 5000), m0, lambda p: some(F.NODE_SUBJ, c.rng, 36))
    b.sample(F.captures_families(), c.n(80, 1500), m0, F.W4C)
    b.sample(F.lookarounds(), c.n(40, 600), m0, F.W4C)
    b.random(c.n(350, 5000), profiles(), m0, size=(2, 10))
    b.random(c.n(150, 3000), [Profile('ab', lit=3, eps=1)], m0, size=(6, 16))
    c.conform(b.jobs, proj='extent', label='match')


# --- C02 search, starts_with -------------------------------------------------------------------
def C02(c):
    c.witnesses()
    pats = law(c, 'search', ['SearchIsLeftmost'], leaves=['a', 'b', '^', '$'], quants=['*', '+?', '?'], wraps=['(?:', '(?='])
    sw = [('s', 0), ('w', 0)]
    b = Bag(c.rng)
    b.sample(pats, c.n(250, 3000), sw, F.W4)
    b.sample(F.anchors_in_places(), c.n(200, 600), lambda r: [('s', r.choice([0, 1])), ('w', r.choice([0, 1]))], F.LINES)
    b.sample(F.alternations(), c.n(120, 2000), sw, F.W4C)
    for p, s in F.longs(c.rng, c.n(30, 300)):
        b.add(p, [('s', 0)], uniq(s + ['zz' + x + 'yy' for x in s[:4]]))
    b.sample(F.lookarounds(), c.n(120, 2000), sw, F.W4C)
    b.sample(F.follow(), c.n(80, 1000), sw, F.ITEM_SUBJ)
    b.sample(F.backrefs(), c.n(60, 800), sw, F.BREF_SUBJ)
    b.random(c.n(300, 4000), profiles(**{'assert': 4}), lambda r: [('s', r.choice([0, 0, 1])), ('w', 0)], size=(2, 9))
    b.sample(F.anchored(), c.n(500, 5000), lambda r: [('s', r.choice([0, 0, 1]))], some(F.LINES, c.rng, 24))
    # anchors somewhere in the first items
    b.random(c.n(100, 2000), [Profile('ab', **{'assert': 8, 'look': 2, 'behind': 2, 'cap': 2, 'eps': 1})], [('s', 0), ('s', 1)], size=(2, 6), subj=lambda r: some(F.LINES, r, 12))
    c.conform(b.jobs, proj='extent', label='search, starts_with')


# --- C03 captures --------------------------------------------------------------------------------
def C03(c):
    c.witnesses()
    pats = law(c, 'captures', ['CapturesInside', 'CaptureIsTheText'], leaves=['a', 'b'], quants=['*', '?', '+?'], wraps=['(', '(?='], sizes=(4, 5))
    ms = lambda r: [(r.choice('ms'), 0), ]
    b = Bag(c.rng)
    b.sample([p for p in pats if '(' in p], c.n(350, 4000), [('m', 0), ('s', 0)], F.W3)
    b.sample(F.captures_families(), c.n(800, 5600), ms, F.W4C)
    b.random(c.n(350, 5000), profiles(cap=6, ncap=3, ref=2, look=2), [('m', 0), ('s', 0)], size=(3, 10))
    b.random(c.n(60, 500), profiles(cap=6, ncap=3), ['' and 0 or ('a', 0)], size=(3, 8))
    c.conform(b.jobs, proj='full', label='captures')


# --- C04 repetition --------------------------------------------------------------------------------
def repetition():
    """repeats whose share is visible in captures"""
    out = []
    for x in ['a', '[ab]', '.', '(?:ab)', '(?:a|b)', '(?:a|ab)', '(?:ab?)', '\\w', '(?:a*b)', '(?:a+)', '(?:ba?|a)']:
        for q in F.quants() + ['{3}', '{1,3}', '{3,5}', '{3,5}?', '{3,5}+', '{2,2}?', '{1,1}+', '{5,}', '{3,2}']:
            for y in ['', '(a*)', '(.*)', '(b?)', '(a|$)', 'ab', '(.*?)$', '(?=b)', '(a{1,2})', '\\b', 'a', '(?:b|ab)']:
                out.append(F.D('(' + x + q + ')' + y, x, q, y))
            for i, t in enumerate(['(?>' + x + q + ')(a*)', '(?>' + x + q + 'b?)(b*)', '(?:(' + x + q + ')b)*(.*)', '((' + x + ')' + q + ')(a*)', '(?:(' + x + q + ')|b)(.*)']):
                out.append(F.D(t, x, q, i))
    return out


def C04(c):
    c.witnesses()
    pats = law(c, 'repetition', ['CountsOfRepeats', 'GreedyAndLazyOrder'], leaves=['a', '[ab]'], quants=['*', '+?', '?+', '{2}'], wraps=['('], sizes=(3, 4), words='ab', maxlen=3)
    b = Bag(c.rng)
    sub = uniq(F.W4C + ['aaaaa', 'aaaaaa', 'aaaaaaa', 'ababab', 'aaaaab', 'baaa'])
    b.sample(pats, c.n(150, 2000), [('m', 0), ('s', 0)], F.W4)
    b.sample(repetition(), c.n(800, 7000), lambda r: [(r.choice('ms'), 0)], sub)
    b.sample([F.D(x + '(a*)', *[v for _, v in x.dims]) for x in F.fused()], c.n(150, 3000), lambda r: [(r.choice('ms'), 0)], sub)
    for p, s in F.longs(c.rng, 999):
        if '{' in p and (c.thorough or c.rng.random() < 0.4):
            b.add(p, [('m', 0), ('s', 0)], s)
    b.random(c.n(350, 5000), profiles(rep=8, cap=4, atom=3), [('m', 0), ('s', 0)], size=(3, 10))
    c.conform(b.jobs, proj='full', label='repetition')


# --- C05 back references ------------------------------------------------------------------------------
def C05(c):
    c.witnesses()
    pats = law(c, 'back references', ['ReferenceIsCopy'], leaves=['a', 'b', '(a)', '([ab])', '\\1'], quants=['*', '?'], wraps=['('], sizes=(3, 4))
    b = Bag(c.rng)
    b.sample([p for p in pats if '\\' in p], c.n(250, 3000), [('m', 0), ('s', 0)], F.W4)
    b.sample(F.backrefs(), c.n(500, 3000), lambda r: [(r.choice('ms'), r.choice([0, 0, 2]))], F.BREF_SUBJ)
    b.random(c.n(350, 5000), profiles(ref=10, cap=6, ncap=3), lambda r: [('m', r.choice([0, 0, 2])), ('s', 0)], size=(3, 10))
    b.random(c.n(100, 1500), [Profile('aAbB', ref=10, cap=6, ncap=3, mode=2)], lambda r: [('m', 2), ('s', r.choice([0, 2]))], size=(3, 8))
    c.conform(b.jobs, proj='extent', label='back references')


# --- C06 lookarounds -------------------------------------------------------------------------------------
def C06(c):
    c.witnesses()
    pats = law(c, 'lookarounds', ['LookaroundsAreTests'], leaves=['a', 'b', '(?<=a)', '(?!b)'], quants=['*', '?'], wraps=['(?=', '(?!', '(?<=', '(?<!'], sizes=(3, 4))
    b = Bag(c.rng)
    acc = [p for p in pats if '(' in p]
    b.sample(acc, c.n(300, 3000), [('m', 0), ('s', 0)], F.W4)
    b.sample(F.lookarounds(), c.n(650, 3500), lambda r: [(r.choice('msa'), 0)], F.W4C)
    b.sample(F.look_anchors(), c.n(300, 3500), lambda r: [(r.choice('sa'), r.choice([0, 0, 1])), (r.choice('ma'), 0)], F.LINES)
    b.random(c.n(350, 5000), profiles(look=8, behind=8), lambda r: [('m', 0), ('s', r.choice([0, 1]))], size=(3, 9))
    b.random(c.n(60, 1000), profiles(look=8, behind=8, ref=3, cap=3), [(o, 0) for o in 'at'], size=(3, 7))
    c.conform(b.jobs, proj='extent', label='lookarounds')


# --- C07 anchors, boundaries, line mode ----------------------------------------------------------------
ALLOPS = 'mswatp'


def C07(c):
    c.witnesses()
    law(c, 'assertions', ['AssertionsHold', 'LookaroundsAreTests'], leaves=['a', '^', '$', '\\b', '\\B', '\\A', '\\Z', '\\z', '.', '\\n'], quants=['*', '?'], wraps=['(?:'],
        sizes=(2, 3), words='a\n ', maxlen=3)
    b = Bag(c.rng)
    b.sample(F.anchors_in_places(), c.n(420, 600), lambda r: [(r.choice('ms'), 0), (r.choice('sw'), 1), (r.choice('atp'), r.choice([0, 1]))], F.LINES)
    prof = [Profile('a\nb', **{'assert': 10, 'cls': 1, 'look': 1, 'behind': 2, 'cap': 1}), Profile('a -\n', **{'assert': 10, 'eps': 1, 'look': 1, 'behind': 1}),
            Profile('ab\n', **{'assert': 8, 'mode': 4, 'lit': 2})]
    b.random(c.n(420, 6000), prof, lambda r: [('m', r.choice([0, 1])), ('s', r.choice([0, 1])), (r.choice('watp'), 1)], size=(2, 8), subj=lambda r: some(F.LINES, r, 16))
    # every character on either side of a boundary
    units = ''.join(map(chr, range(256)))
    near = [x + y for x in units for y in ('', 'a', '-')] + ['a' + x for x in units] + ['-' + x for x in units]
    for p in ['^.\\b', '^.\\B', '.\\b.', '.\\B.', '\\b.', '\\B.', '.\\b$', '.\\B$']:
        b.add(p, [('s', 0)], some(near, c.rng, c.n(500, 1500)) if not c.thorough else near)
    for p in ['^', '^.', '.$', '$', '.\\Z', '\\Z', '.^', '$.', '^[^]$', '.', '..', '\\A.', '.\\z']:
        b.add(p, [('s', 1), ('a', 1)], units_around(units, c.n(60, 256), c.rng))
    c.conform(b.jobs, proj='extent', label='assertions')


def units_around(units, n, rng):
    return uniq(['\n' + u for u in some(units, rng, n)] + [u + '\n' for u in some(units, rng, n)] + ['\n', '\r\n', '\n\r', '\r', '\x0b', '\x0c', '\x85', '\n\n', ''])


# --- C08 character classes ----------------------------------------------------------------------------------
def C08(c):
    c.witnesses()
    allu = [''.join(map(chr, range(256)))]
    wide = [''.join(map(chr, list(range(0x180)) + [0x2c0, 0x370, 0x5ff, 0x660, 0x1680, 0x180e, 0x2000, 0x200b, 0x2028, 0x2029, 0x205f, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]))]
    b = Bag(c.rng)
    fam = F.classes()
    b.sample(fam, c.n(700, 9999), lambda r: [('u', 0), ('u', 2)] if r.random() < 0.5 or c.thorough else [('u', 0)], allu)
    w = Bag(c.rng)
    w.sample(fam, c.n(220, 9999), [('u', 0)], wide, ct='char32_t') if False else None
    for p in some(fam, c.rng, c.n(220, 2900)):
        w.add(p, [('u', 0)], wide, ct='char32_t')
    for p in ['[\\u0100-\\u{10ffff}]', '[^\\u{100}]', '\\u0160', '\\u{1f600}', '[\\x{100}-\\x{ffff}]', '[^\\x{100}-\\x{ffff}]', '[\\u2028\\u2029]', '\\x{10ffff}', '[a\\u{10ffff}]', '[\\u{10000}-\\u{10ffff}]', '[^\\u{80}-\\u{10ffff}]', '\\u{0010ffff}']:
        w.add(p, [('u', 0), ('u', 2)], wide, ct='char32_t')
    # random sets of several items
    atoms = ['a', 'b', 'z', 'A', 'F', 'Z', '0', '5', '_', '\\n', '\\t', '\\]', '\\-', '\\^', '\\\\', '.', '*', ' ', '\\x41', '\\x7f', '\\xe9', 'a-f', 'c-x', 'A-M', 'N-z', '0-5', '3-8', '\\x00-\\x08', '\\x0b-\\x1f', '!-/', ':-@', '\\x80-\\xff', '\\d', '\\D', '\\w', '\\W', '\\s', '\\S',
             '\\h', '\\H', '\\v', '\\V', '\\N'] + ['[:%s%s:]' % (n, m) for n in ('', '^') for m in ['alnum', 'alpha', 'ascii', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'word', 'xdigit']]
    for _ in range(c.n(350, 4000)):
        p = '[' + c.rng.choice(['', '^']) + ''.join(c.rng.choice(atoms) for _ in range(c.rng.randint(1, 5))) + ']'
        b.add(p, [('u', c.rng.choice([0, 0, 2]))], allu)
    c.conform(b.jobs, label='units accepted by class expressions (char)')
    c.conform(w.jobs, label='units accepted by class expressions (char32_t)')
    # in a longer pattern the class accepts the same
    d = Bag(c.rng)
    d.random(c.n(100, 2000), [Profile('a1_ -\n', cls=10, lit=1)], [('m', 0), ('s', 0)], size=(2, 6))
    c.conform(d.jobs, proj='extent', label='classes in patterns')


# --- C09 case-insensitive mode and mode switches ---------------------------------------------------------------
CASES = words('aA', 3) + [x + y + z for x in ['a', 'B', 'b'] for y in ['A', 'b', '1', '\n'] for z in ['', 'B', 'b', '\xe4']] + ['\xc4', '\xe4', '@', '`', '[', '{', 'k', 'K', 'zZ', 'Zz', 'aBC', 'abC', 'ABc', 'AbC', 'a\nB', 'A\nb']


def mode_switches():
    out = []
    for m in ['i', 'c', 's', 'm', 'im', 'mi', 'ic', 'ci', 'sm', 'ms', 'is', 'cm', 'ism', 'icm', 'ii', 'ici']:
        g = '(?%s)' % m
        for f in ['%sab', 'a%sb', 'ab%s', '%s', '(%sa)b', 'a%s.b', '%s^b', 'a.%sb$', '(?:%sa|b)b', 'a(?=%sb)b', '%s[a-c]b', 'a%s(b)\\1', '(a)%s\\1', '%s[^a]b', '(?:%s)ab', 'a(?:%s|b)B', '%sa(?c)b', '(?i)a%sb', '(?m)a%s.b', '%s(?:a|B)*', '(?:a%sb)+', 'a|%sb|a', '%sa|b', '(?>a%s)b', '(?!%sb)a', '%s\\bab', '(?:%sa)?b', '(?:%sa){2}']:
            out.append(f % g)
    return out


def C09(c):
    c.witnesses()
    law(c, 'case', ['CaseDoesNotMatter'], leaves=['a', 'B', '[a-b]', '[^a]', '1', '(a)'], quants=['*', '?'], wraps=['(?:'], sizes=(3, 3), words='aAB', maxlen=3)
    b = Bag(c.rng)
    b.sample(mode_switches(), c.n(350, 999), lambda r: [(r.choice('ms'), r.choice([0, 2])), (r.choice('ms'), r.choice([1, 3]))], CASES)
    prof = [Profile('aAbB', mode=5, cls=2, ref=1, cap=2, look=1, behind=1, atom=1), Profile('aB1\xe4', mode=2, cls=3, lit=2), Profile('kK[{@', cls=2, lit=2, mode=1), Profile('aA\n', mode=4, **{'assert': 4})]
    b.random(c.n(500, 6000), prof, lambda r: [('m', r.choice([2, 2, 0])), ('s', r.choice([0, 2, 3]))], size=(2, 8), subj=lambda r: some(CASES, r, 16))
    c.conform(b.jobs, proj='full', label='modes')
    allu = [''.join(map(chr, range(256)))]
    u = Bag(c.rng)
    for p in some(F.classes(), c.rng, c.n(300, 2900)) + ['(?i)' + p for p in some(F.classes(), c.rng, c.n(100, 2900))]:
        u.add(p, [('u', 2)], allu)
    letters = 'azAZ@[`{mM09_'
    for x in letters:
        for y in letters:
            if c.thorough or c.rng.random() < 0.5:
                e = lambda ch: '\\' + ch if ch in '[]^-' else ch
                u.add('[%s-%s]' % (e(x), e(y)), [('u', 2)], allu)
    c.conform(u.jobs, label='units accepted in the case-insensitive mode')


# --- C10 the pattern language --------------------------------------------------------------------------------------
# places of a pattern where any character may come next: what is before and what is behind it
PLACES = [('', ''), ('a', ''), ('a', 'b'), ('(', ')'), ('(', 'a)'), ('(?', 'a)'), ('(?', ')'), ('(?:', ')'), ('(?i', ')'), ('(?i)', ''), ('(?<', 'a)'), ('(?<a', '>b)'), ('(?<a', 'b)'), ('(?<a>', ')'), ('(?<', 'x>b)'), ('(?=', ')'), ('(?!', ')'),
          ('(?>', ')'), ('(?<=', ')'), ('(?<!', ')'), ('(?:a)', ''), ('(a)', ''), ('(a|', ')'), ('(|', ')'), ('(a', 'b)'), ('a|', ''), ('|', ''), ('a|b|', ''), ('a||', ''), ('^', ''), ('$', ''), ('.', ''), ('[', ']'), ('[^', ']'), ('[', 'a]'),
          ('[a', ']'), ('[a', 'b]'), ('[a-', ']'), ('[a-b', ']'), ('[a-b-', ']'), ('[[', ']]'), ('[[', 'alpha:]]'), ('[[:', 'alpha:]]'), ('[[:alpha', ']]'), ('[[:alpha', ':]]'), ('[[:alpha:', ']'), ('[[:alpha:]', ']'), ('[[:^', 'digit:]]'), ('[[:di', 'it:]]'), ('[\\', ']'), ('[a\\', ']'), ('[a-\\', ']'),
          ('[\\n-', ']'), ('[\\d', ']'), ('[\\d-', ']'), ('[\\x', '1]'), ('[\\x1', ']'), ('[a-\\x1', ']'), ('[\\x{', '}]'), ('[]', ']'), ('[^]', ']'), ('[a]', ''), ('\\', ''), ('a\\', 'b'), ('\\x', '1'), ('\\x1', ''), ('\\x{', '}'), ('\\x{1', '}'), ('\\x{1', ''), ('\\u00', '1'), ('\\u001', ''),
          ('\\u{', '}'), ('\\u{1f60', '}'), ('\\u', '0000'), ('(a)\\', ''), ('(a)\\1', ''), ('(a)\\g', '1}'), ('(a)\\g{', '}'), ('(a)\\g{-', '}'), ('(a)\\g{1', '}'), ('(a)\\g{-1', '}'), ('(a)\\g{1', ''), ('(?<a>b)\\g{a', '}'), ('(?<a>b)\\g{', 'a}'), ('(?<ab>c)\\g{a', '}'), ('\\d', ''), ('\\b', ''), ('\\A', ''),
          ('a{', '}'), ('a{1', '}'), ('a{1,', '}'), ('a{1,2', '}'), ('a{', ',2}'), ('a{1', '2}'), ('a{1}', ''), ('a{1,}', ''), ('a{1,2}', ''), ('a{1,2}?', ''), ('a*', ''), ('a+', ''), ('a?', ''), ('a??', ''), ('a*?', ''), ('a++', ''), ('a', '*'), ('a', '{2}'), ('a|', '*'), ('(', '*)'), ('^*', ''), ('\\p', 'L}'), ('\\p{', ''), ('\\p{L', ''), ('\\P{L=', ''), ('(?im', ')'), ('(?:(?:', ')a)')]
TOKENS = 'ab()[]{}*+?|.^$\\-,:=!<>01Pxig"/ dn_'
LONG = ['(a|b)*c{2,3}?(?:d|)e', '^(?<y>\\d{4})-(?<m>\\d{1,2})$', '[^a-c\\d[:upper:]]+|x', '(?i)ab(?c)c(?=d)(?!e)', '(?<=a)b(?<!c)', '\\x41\\x{1F}\\u0042\\n\\t\\\\', '(?>a*+)(b)\\1\\g{1}\\g{-1}', '(?<n>a)\\g{n}{2}', '[\\x00-\\x1f\\]\\-^]', 'a??b*?c+?d?+', '\\Aa\\b\\Bb\\z|\\Z', '(((a)))\\3', '[[:^alpha:]_-]', 'a{2}{3}', '(?ims)a.$',
        '(?:)', '|a|', '(a|b|)', '[]a]', '[a-]', 'a]b', '"/a,b:c=d!e', 'a<b>c', '\\"\\/\\<\\>', '\\h\\H\\v\\V\\N\\s\\S\\w\\W']


def mutations(rng, n):
    out = []
    while len(out) < n:
        p = list(rng.choice(LONG))
        for _ in range(rng.choice([1, 1, 1, 2])):
            i = rng.randrange(len(p) + 1)
            k = rng.randrange(5)
            if k == 0:
                p.insert(i, rng.choice(TOKENS))
            elif k == 1 and p:
                del p[min(i, len(p) - 1)]
            elif k == 2 and p:
                p[min(i, len(p) - 1)] = rng.choice(TOKENS)
            elif k == 3:
                p = p[:i] if rng.random() < 0.5 else p[i:]
            else:
                q = rng.choice(LONG)
                j = rng.randrange(len(q) + 1)
                p = p[:i] + list(q[j:])
        out.append(''.join(p))
    return uniq(out)


def syntax(c, texts, label, unicode=False):
    """the library's parser on the texts, judged by the specification"""
    acc = rec.parse_all(texts, unicode)
    verdicts(c, [dict(id=i + 1, pat=rec.cps(t), acc=a, how='parse', **({'uni': 1} if unicode else {})) for i, (t, a) in enumerate(zip(texts, acc))], texts, label, unicode)


def verdicts(c, recs, texts, label, unicode=False):
    r = tla.validate(recs, 'SyntaxTrace.tla', 'SyntaxTrace.cfg')
    if not r.ok or r.distinct != 2 * len(recs):
        raise core.InternalError('%s: %s' % (label, r.error or 'not every text was looked at'))
    c.states += r.distinct
    c.impl_states += r.distinct
    c.transitions += r.generated
    c.traces += len(recs)
    c.part(label, texts=len(recs), accepted=sum(x['acc'] for x in recs))
    for t in c.rng.sample(range(len(recs)), min(2, len(recs))):
        c.samples.append(dict(part=label, text=texts[t], accepted=recs[t]['acc']))
    bad = [(texts[i - 1], a) for kind, i, a, v in r.reports if kind == 'accept']
    if bad:
        again = rec.parse_all([t for t, _ in bad[:60]], unicode, chunk=1) if recs[0]['how'] == 'parse' else [a for _, a in bad[:60]]
        for (t, a), b in zip(bad, again):
            if a == b:
                c.violation(dict(part=label, pattern=t, what='the text has to be %s as a pattern, the library %s it' % (('rejected', 'accepts') if a else ('accepted', 'rejects'))))


def C10(c):
    c.witnesses()
    # the specification's reading of every short text
    def short(alphabet, n, prefix='', suffix='', emit=False):
        import json, os, tempfile
        fd, f = tempfile.mkstemp(suffix='.json', prefix='vf-syn-')
        with os.fdopen(fd, 'w') as o:
            json.dump(dict(alphabet=rec.cps(alphabet), prefix=rec.cps(prefix), suffix=rec.cps(suffix), len=n), o)
        try:
            r = c.model('Syntax.tla', None, env={'SYNTAX': f}, label='short texts', cfgtext='SPECIFICATION Spec\nINVARIANTS ReadsBack Nests Numbered %s\nCHECK_DEADLOCK FALSE\n' % ('Emit' if emit else ''))
        finally:
            os.unlink(f)
        return {''.join(map(chr, v)): l for k, _, l, v in r.reports if k == 'text'}
    short('a()[]{}*+?|.^$\\-,:=!<>01xigd', c.n(3, 4))
    texts = {}
    for args in [('a(|)*?', c.n(4, 6)), ('a{1,}?+', c.n(4, 5), 'a', ''), ('a-\\[]^:d', c.n(3, 5), '[', ']'), ('?:<>=!ia', c.n(3, 4), '(', 'b)'), ('1g{-}a0', c.n(3, 5), '(?<a>b)\\', ''), ('x{}1fu0', c.n(4, 5), '\\', ''), ('a(|)*', c.n(3, 5), 'b', 'c')]:
        texts.update(short(*args, emit=True))
    good = [t for t, ok in texts.items() if ok and 0 < len(t) < 12]
    texts = list(texts)
    syntax(c, some(texts, c.rng, c.n(3200, 60000)), 'texts written by the specification')
    chars = [chr(i) for i in range(128)] + ['\x80', '\xa0', '\xe9', '\xff', '\u0100', '\u20ac', '\U0001f600']
    place = [a + x + b for a, b in PLACES for x in chars]
    syntax(c, some(place, c.rng, c.n(4200, 99999)), 'every character in every place')
    syntax(c, uniq([''.join(c.rng.choice(TOKENS) for _ in range(c.rng.randint(2, 6))) for _ in range(c.n(1500, 20000))]), 'random texts')
    syntax(c, mutations(c.rng, c.n(900, 15000)), 'mutated patterns')
    # the same through calls: what is accepted is read as the specification reads it
    pats = some(good, c.rng, c.n(300, 4000)) + mutations(c.rng, c.n(60, 800)) + some(place, c.rng, c.n(60, 1000))
    v = tla.accepted(pats)
    b = Bag(c.rng)
    for p, k in zip(pats, v):
        if k == 1:
            b.add(p, [(c.rng.choice('ms'), 0), (c.rng.choice('sa'), c.rng.choice([0, 0, 1, 2]))], reading_subjects(p, c.rng), ct='char32_t' if any(ord(x) > 127 for x in p) else 'char')
        elif k == 0 and c.rng.random() < c.n(0.06, 0.05):
            b.add(p, [('m', 0)], ['a'])
    c.conform(b.jobs, proj='full', label='readings')
    # operands of several digits
    d = Bag(c.rng)
    for n in [2, 3, 9, 10, 11, 19, 20, 21, 99, 100, 101, 123, 200, 255, 256, 257]:
        d.add('a{%d}' % n, [('m', 0)], ['a' * k for k in range(max(0, n - 2), n + 3)])
        d.add('a{%d,}' % n, [('m', 0)], ['a' * k for k in range(max(0, n - 2), n + 3)])
        d.add('a{%d,%d}' % (n, n + 3), [('m', 0)], ['a' * k for k in range(max(0, n - 2), n + 6)])
        d.add('a{0%d}' % n, [('m', 0)], ['a' * k for k in range(max(0, n - 2), n + 3)])
    for n in [9, 10, 11, 12]:
        for r in ['\\g{%d}' % n, '\\g{-%d}' % n, '\\g{0%d}' % n, '\\%d' % n]:
            d.add(''.join('(%s)' % x for x in 'abcdefghijkl'[:12]) + r, [('m', 0)], ['abcdefghijkl' + x for x in ['', 'a', 'b', 'c', 'd', 'i', 'j', 'k', 'l', 'a0', 'a1', 'a2']])
    for v in [0x41, 0x7f, 0x80, 0xff, 0x100, 0x20ac, 0xfffd, 0x10000, 0x1f600, 0x10ffff]:
        near = ''.join(chr(x) for x in range(max(0, v - 3), min(0x110000, v + 4)))
        for p in ['\\x{%x}' % v, '\\x{%X}' % v, '\\u{%x}' % v, '\\x{0%x}' % v, '[\\x{%x}]' % v, '[\\x{%x}-\\x{%x}]' % (v, v + 1 if v < 0x10ffff else v)] + (['\\u%04x' % v] if v < 0x10000 else []) + (['\\x%02X' % v] if v < 256 else []):
            d.add(p, [('u', 0)], [near], ct='char32_t')
    for p in ['(?<a>b)\\g{a}', '(?<a>b)\\g{ab}', '(?<ab>c)\\g{a}', '(a)\\g{-0}(b)', '\\g{a}', '(b\\g{1})', '\\g{a}(?<a>b)|b', '(?<a>b)(?<b>c)\\g{b}\\g{a}', '(?<A>b)\\g{a}', '(?<a1>b)\\g{a1}', '(?<_>b)\\g{_}', '(?<a>b)(?<a>c)?\\g{a}']:
        d.add(p, [('m', 0), ('s', 0)], ['', 'b', 'bb', 'bc', 'cc', 'bcb', 'bccb', 'bcc', 'bbc', 'abc'])
    c.conform(d.jobs, proj='full', label='operands')


def reading_subjects(p, rng):
    letters = ''.join(sorted(set(x for x in p if x.isalnum() or x in '-:,{}]<>=!"/_ '))) or 'a'
    letters = letters[:4]
    ws = [''] + [w for w in words(letters, 2)]
    return uniq(some(ws, rng, 10) + [''.join(rng.choice(letters) for _ in range(rng.randint(3, 6))) for _ in range(6)])


# --- C11 termination ----------------------------------------------------------------------------------------------
def C11(c):
    c.witnesses()
    c.model('IterModel.tla', 'IterModel.cfg', label='ranges over every matcher')
    b = Bag(c.rng)
    b.sample(F.empties(), c.n(600, 12000), lambda r: [(r.choice('ms'), 0), (r.choice('atp'), r.choice([0, 1]))], F.W3)
    b.sample(F.ref_loops(), c.n(360, 5000), lambda r: [(r.choice('ms'), r.choice([0, 0, 2])), (r.choice('atp'), 0)], F.W3)
    prof = [Profile('ab', eps=6, rep=10, cap=3, ncap=1, look=3, behind=2, ref=3, atom=2, mode=1, **{'assert': 5}), Profile('a', eps=6, rep=14, alt=6)]
    b.random(c.n(450, 6000), prof, lambda r: [('s', 0), (r.choice('matp'), 0)], size=(3, 10))
    c.conform(b.jobs, proj='extent', label='calls which could go on for ever')
    ps = some([p for p in F.empties() if len(p) < 20], c.rng, c.n(40, 400))
    machine(c, ps, maxlen=2 if not c.thorough else 3, live=True)


def machine(c, pats, maxlen=3, live=False, modes=(0,), label='machine'):
    """the small-step machine on the patterns: it refines the semantics, stays in bounds, ends"""
    import json, os, tempfile
    fd, f = tempfile.mkstemp(suffix='.ndjson', prefix='vf-pat-')
    with os.fdopen(fd, 'w') as o:
        for p in pats:
            o.write(json.dumps(dict(pat=rec.cps(p), modes=list(modes))) + '\n')
    cfg = ('SPECIFICATION Spec\nCONSTANTS Alphabet = {97, 98}\n MaxLen = %d\n Atomic = TRUE\n Leak = TRUE\n'
           'INVARIANTS InBounds CapturesAreSpans Refines ResultShape Progress\nCHECK_DEADLOCK FALSE\n' % maxlen)
    if live:
        cfg += 'PROPERTY Terminates\n'
    try:
        c.model('Machine.tla', None, env={'PATTERNS': f}, label=label, cfgtext=cfg)
    finally:
        os.unlink(f)


# --- C12, C13, C14: the result ranges --------------------------------------------------------------------------------
def tables(n):
    """every matcher on a subject of n different characters: the end of the match at each position or None"""
    import itertools
    return itertools.product(*[[None] + list(range(p, n + 1)) for p in range(n + 1)])


def table_pattern(t, n):
    s = 'abcdef'[:n]
    out = []
    for p, e in enumerate(t):
        if e is None:
            continue
        out.append(s[p:e] if e > p else '(?=%s)' % s[p] if p < n else '$')
    return '|'.join(out) if out else 'z'


def scripts(rng, k, length=12):
    out = ['n0' + 'd0e0i0' * 5 + 'e0', 'n0c01i0d0d1q01i1q01p02d2d0q02e0e1']
    for _ in range(k):
        s = 'n0'
        for _ in range(length):
            o = rng.choice('iiipppdddceqn')
            a, b = rng.randrange(3), rng.randrange(3)
            s += o + str(a) + (str(b) if o in 'cpq' else '')
        out.append(s + 'd0d1d2')
    return out


def histories(c, kind, fn, n, per, extra=()):
    """histories of operations on the iterators of a range"""
    b = Bag(c.rng)
    base = ['a', 'b*', '(a)|b', 'a|$', '\\b', '(?=a)', '', 'a?', '(a)(b)?', '^a', 'ab|', 'a|ab', '(?<=a)b?', '.', '(?!a)']
    jobs = []
    pats = [p or '(?:)' for p in base] + list(extra)
    bag = Bag(c.rng)
    bag.random(max(0, n - len(pats)), profiles(), [], size=(2, 6))
    for p in pats[:n] + [j.pat for j in bag.jobs]:
        sc = 'static const char * const sc[] = {%s, nullptr};' % ', '.join('"%s"' % x for x in scripts(c.rng, per))
        mode = c.rng.choice([0, 0, 0, 1, 2])
        jobs.append(Job(p, [], some(['', 'a', 'b', 'ab', 'aa', 'aab', 'aba', 'ba', 'bbabb', 'abab', 'aaa'], c.rng, 6),
                        code=[sc, 'rec::history("%s", %d, ctre::%s<P%s>, s, sc);' % (kind, mode, fn, rec.MODS[mode])], more=dict(multi=0)))
    c.conform(jobs, label='histories of iterators', module='History.tla', cfg='History.cfg')


def ranges(c, kind, fn):
    c.witnesses()
    c.model('IterModel.tla', 'IterModel.cfg', label='ranges over every matcher',
            cfgtext=None if not c.thorough else 'SPECIFICATION Spec\nCONSTANT MaxN = 5\nINVARIANTS Steps AllOf TokensOf SplitOf\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n')
    b = Bag(c.rng)
    t = []
    for n in range(0, 4):
        t += [(table_pattern(x, n), 'abcd'[:n]) for x in tables(n)]
    t += some([(table_pattern(x, 4), 'abcd') for x in tables(4)], c.rng, c.n(120, 720))
    by = {}
    for p, s in t:
        by.setdefault(p, []).append(s)
    for p, s in by.items():
        b.add(p, [(kind, 0)], s)
    if c.thorough:
        for x in some(list(tables(5)), c.rng, 1500):
            b.add(table_pattern(x, 5), [(kind, 0)], ['abcde'])
    c.conform(b.jobs, proj='full', label='every matcher of small subjects, replayed')
    b = Bag(c.rng)
    op = lambda r: [(kind, r.choice([0, 0, 0, 1, 2]))]
    b.sample(F.anchors_in_places(), c.n(120, 600), lambda r: [(kind, r.choice([0, 1]))], F.LINES)
    b.sample(F.captures_families(), c.n(120, 2000), op, F.W4C)
    b.sample(F.lookarounds(), c.n(100, 1500), op, F.W4C)
    b.sample(F.alternations(), c.n(60, 1000), op, F.W4C)
    b.sample(F.backrefs(), c.n(40, 600), op, F.BREF_SUBJ)
    b.random(c.n(300, 4000), profiles(cap=3, eps=2, **{'assert': 2}), op, size=(1, 8), subj=lambda r: [''.join(r.choice('ab') for _ in range(r.randint(5, 14))) for _ in range(6)])
    b.random(c.n(80, 1000), [Profile('a\n ', **{'assert': 6, 'cls': 2, 'cap': 1})], lambda r: [(kind, r.choice([0, 1, 1]))], size=(1, 6), subj=lambda r: some(F.LINES, r, 16))
    c.conform(b.jobs, proj='full', label=fn)
    histories(c, kind, fn, c.n(90, 900), c.n(3, 6))


def C12(c):
    ranges(c, 'a', 'search_all')


def C13(c):
    ranges(c, 'p', 'split')


def C14(c):
    ranges(c, 't', 'tokenize')


# --- C23 iterators of ranges -------------------------------------------------------------------------------------------
def pairs(n):
    """every pair of places in a range, compared with each other and with the end"""
    out = ''
    for i in range(n + 1):
        for j in range(n + 1):
            out += 'n0n1' + 'i0' * i + 'i1' * j + 'q01q10e0e1'
            if i == j:
                out += 'c12p20q02q12d1'
    return out


def C23(c):
    c.witnesses()
    for n in c.n((4,), (4, 5)):
        c.model('IterModel.tla', None, label='iterators over every matcher', cfgtext='SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANTS Apart Ordered OneEnd\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % n)
    t = {}
    for n in range(0, 4):
        for x in tables(n):
            t.setdefault(table_pattern(x, n), []).append('abcd'[:n])
    jobs = []
    kinds = {'a': 'search_all', 't': 'tokenize', 'p': 'split'}
    base = ['a', 'b*', '(a)|b', 'a|$', '\\b', '(?=a)', '(?:)', 'a?', '(a)(b)?', '^a', 'ab|', 'a|ab', '(?<=a)b?', '.', '(?!a)', 'a|(?=b)', 'a|\\b', '$', '[ab]', 'a+|']
    bag = Bag(c.rng)
    bag.random(c.n(120, 2000), profiles(eps=3, look=1, **{'assert': 2}), [], size=(2, 7))
    todo = [(p, some(['', 'a', 'ab', 'ba', 'aab', 'bab', 'abab'], c.rng, 4)) for p in base * c.n(1, 3) + [j.pat for j in bag.jobs]]
    todo += [(p, some(s, c.rng, 4)) for p, s in some(sorted(t.items()), c.rng, c.n(80, 100000))]
    for p, subj in todo:
        sc = ['"%s"' % pairs(c.n(3, 5))] + ['"%s"' % x for x in scripts(c.rng, c.n(2, 6), 20)[2:]]
        code = ['static const char * const sc[] = {%s, nullptr};' % ', '.join(sc)]
        for k in some(sorted(kinds), c.rng, 2):
            mode = c.rng.choice([0, 0, 0, 1, 2])
            code.append('rec::history_of<%d>("%s", %d, ctre::%s<P%s>, s, sc);' % (c.rng.choice([0, 0, 1, 2, 3, 4]), k, mode, kinds[k], rec.MODS[mode]))
        jobs.append(Job(p, [], subj, code=code, more=dict(multi=0)))
    c.conform(jobs, label='pairs of iterators', module='History.tla', cfg='History.cfg')
    jobs = []
    for p in base + [j.pat for j in bag.jobs][:c.n(20, 500)]:
        subj = [c.rng.choice(['', 'a', 'b', 'ab', 'ba', 'aab', 'c']) for _ in range(c.rng.choice([0, 1, 3, 5]))]
        op, fn = c.rng.choice([('m', 'match'), ('s', 'search'), ('w', 'starts_with')])
        code = ['static const char * const sc[] = {"%s", nullptr};' % pairs(c.n(3, 5)),
                'rec::multi<%d>("%s", 0, ctre::%s<P>, s, sc);' % (c.rng.choice([0, 1, 2, 3, 4, 5]), op, fn)]
        jobs.append(Job(p, [], subj, code=code, more=dict(multi=1)))
    c.conform(jobs, label='pairs of iterators over filtered ranges', module='History.tla', cfg='History.cfg')


# --- C22 optimisations ---------------------------------------------------------------------------------------------------
def equivalents(p):
    return ['(?:%s)' % p, '(?:%s|%s)' % (p, p), '(?:(?:%s)(?:))' % p, '(?:(?:)(?:%s))' % p, '(?:%s){1}' % p]


def C22(c):
    c.witnesses()
    pats = law(c, 'equivalences', ['EquivalentPatterns'], leaves=['a', 'b', '[^a]', '$'], quants=['*', '+', '??', '?+'], wraps=['('], sizes=(3, 3))
    b = Bag(c.rng)
    op = lambda r: [(r.choice('ms'), 0)]
    sub = uniq(F.W4C + ['aaaaa', 'aaaab', 'ababab'])
    b.sample(pats, c.n(150, 2500), op, F.W4)
    b.sample(F.follow(), c.n(200, 9600), lambda r: [(r.choice('ms'), r.choice([0, 0, 0, 1, 2]))], F.ITEM_SUBJ)
    b.sample(F.collide(), c.n(450, 6000), op, F.collide_subjects(c.rng))
    b.sample(F.skips(), c.n(200, 3000), op, lambda p: some(F.NODE_SUBJ, c.rng, 36))
    b.sample(F.nodes(), c.n(300, 8000), op, lambda p: some(F.NODE_SUBJ, c.rng, 36))
    b.sample(F.between(), c.n(300, 2000), op, F.BETWEEN_SUBJ)
    b.sample(F.fused(), c.n(300, 8000), op, sub)
    b.sample(F.fused_then(), c.n(240, 4000), lambda r: [(r.choice('mssw'), 0)], some(sub, c.rng, 40))
    b.sample(F.alternations(), c.n(100, 2000), op, F.W4C)
    for p, s in F.longs(c.rng, c.n(30, 300)):
        b.add(p, [('m', 0)], s)
    g = Bag(c.rng)
    g.random(c.n(80, 900), profiles(mode=0, ref=0), [], size=(2, 6))
    for j in g.jobs:
        for p in some(equivalents(j.pat), c.rng, 2):
            b.add(p, op(c.rng), j.subj)
    b.random(c.n(150, 3000), [Profile('ab', rep=10, cls=4, lit=2, eps=1, look=1, **{'assert': 2}), Profile('aA1\n', rep=10, cls=6)], op, size=(3, 9))
    # the switch which turns one of them off
    c.rng.shuffle(b.jobs)
    k = len(b.jobs) // 20
    c.conform(b.jobs[:k], proj='full', label='CTRE_DISABLE_GREEDY_OPT', flags=['-DCTRE_DISABLE_GREEDY_OPT'])
    # the other way to write a loop (it is there for MSVC, any compiler can use it)
    c.conform(b.jobs[k:2 * k], proj='full', label='CTRE_MSVC_GREEDY_WORKAROUND', flags=['-DCTRE_MSVC_GREEDY_WORKAROUND'])
    b.jobs = b.jobs[2 * k:]
    c.conform(b.jobs, proj='full', label='optimised patterns')


# --- C15 filtered ranges of subjects -----------------------------------------------------------------------------------
def C15(c):
    c.witnesses()
    for n in c.n((2,), (2, 3, 4)):
        c.model('FilterModel.tla', None, label='filters over every list of subjects', cfgtext='SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANTS Order Ends Agree\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n' % (n + 2))
    fns = [('m', 'match'), ('s', 'search'), ('w', 'starts_with')]
    base = ['a', 'b*', '(a)|b', 'a|$', '\\b', '(?=a)', 'a?', '(a)(b)?', '^a', 'ab|', 'a|ab', '(?<=a)b?', '.', '(?!a)', 'a+', '[^a]', '(?:)', 'z']
    bag = Bag(c.rng)
    bag.random(c.n(170, 2500), profiles(cap=3), [], size=(2, 6))
    jobs = []
    pool = ['', 'a', 'b', 'ab', 'aa', 'aab', 'aba', 'ba', 'bbabb', 'abab', 'aaa', 'bb', 'bab']
    for i, p in enumerate(base * 2 + [j.pat for j in bag.jobs]):
        sc = 'static const char * const sc[] = {%s, nullptr};' % ', '.join('"%s"' % x for x in scripts(c.rng, c.n(3, 6)))
        subj = [c.rng.choice(pool) for _ in range(c.rng.choice([0, 1, 2, 3, 4, 5, 6, 8]))]
        code = [sc]
        for op, fn in some(fns, c.rng, 2):
            mode = c.rng.choice([0, 0, 0, 1, 2, 3])
            kind = c.rng.choice([0, 0, 1, 2, 3, 4, 5])
            code.append('rec::multi<%d>("%s", %d, ctre::%s<P%s>, s, sc);' % (kind, op, mode, fn, rec.MODS[mode]))
        jobs.append(Job(p, [], subj, code=code, more=dict(multi=1)))
    c.conform(jobs, label='histories of iterators over filtered ranges', module='History.tla', cfg='History.cfg')


# --- C16 spellings of a call ----------------------------------------------------------------------------------------------
NAMES = {'m': 'match', 's': 'search', 'w': 'starts_with', 'a': 'search_all', 't': 'tokenize', 'p': 'split'}
MEMBER = dict(NAMES, a='range')


def lit(p, prefix=''):
    return rec.quote(rec.cps(p), prefix).replace('P', '\\120').replace('s', '\\163')


def spellings(p, rng, op, mode, k=3):
    """C++ statements which make the call in k other ways"""
    many = op in 'atp'
    K = 'rec::Many' if many else 'rec::Single'
    n, m = NAMES[op], MEMBER[op]
    out = []

    def add(form, expr):
        out.append('rec::spelled<%s>("%s", %d, "%s", [](auto v) { return %s; }, s);' % (K, op, mode, form, expr))
    mods = rec.MODS[mode]
    if mode == 0:
        add('_ctre', '%s_ctre.%s(v)' % (lit(p), m))
        add('_ctre iterators', '%s_ctre.%s(v.begin(), v.end())' % (lit(p), m))
        add('member of match', 'ctre::match<P>.%s(v)' % m)
        add('member of search, C++ string', 'ctre::search<P>.%s(v)' % m)
        add('single line modifier', 'ctre::%s<P, ctre::singleline>(v)' % n)
        add('modifiers which cancel', 'ctre::%s<P, ctre::multiline, ctre::singleline>(v)' % n)
        add('modifiers which cancel 2', 'ctre::%s<P, ctre::case_insensitive, ctre::case_sensitive>(v)' % n)
        add('multiline made single line', 'ctre::multiline_%s<P, ctre::singleline>(v)' % n)
    if mode == 1:
        add('multiline', 'ctre::multiline_%s<P>(v)' % n)
        add('multiline literal', '%s_ctre.multiline_%s(v)' % (lit(p), m))
        add('multiline twice', 'ctre::multiline_%s<P, ctre::multiline>(v)' % n)
        add('member', 'ctre::search<P>.multiline_%s(v)' % m)
    if mode == 2:
        add('modifier twice', 'ctre::%s<P, ctre::case_insensitive, ctre::case_insensitive>(v)' % n)
        add('modifiers', 'ctre::%s<P, ctre::case_sensitive, ctre::case_insensitive>(v)' % n)
        add('inline', 'ctre::%s<%s>(v)' % (n, lit('(?i)' + p)))
    if mode == 3:
        add('multiline', 'ctre::multiline_%s<P, ctre::case_insensitive>(v)' % n)
        add('modifiers', 'ctre::%s<P, ctre::case_insensitive, ctre::multiline>(v)' % n)
        add('inline', 'ctre::%s<%s>(v)' % (n, lit('(?im)' + p)))
    if mode in (0, 2):
        add('literal', 'ctre::%s<%s%s>(v)' % (n, lit(p), mods))
    add('constant object', 'std::integral_constant<const decltype(ctre::%s<P%s>) *, &ctre::%s<P%s>>::value->operator()(v)' % (n, mods, n, mods))
    add('type of it', 'std::remove_cv_t<decltype(ctre::%s<P%s>)>{}(v)' % (n, mods))
    if op == 'a':
        add('range', 'ctre::range<P%s>(v)' % mods)
        it = []
        it.append(('iterator', 'ctre::iterator<P%s>(v)' % mods, 'ctre::sentinel'))
        it.append(('iterator of iterators', 'ctre::iterator<P%s>(v.begin(), v.end())' % mods, 'ctre::sentinel'))
        it.append(('iterator and end', 'ctre::iterator<P%s>(v)' % mods, 'ctre::iterator<P%s>()' % mods))
        if mode % 2 == 1:
            it.append(('multiline_iterator', 'ctre::multiline_iterator<P%s>(v)' % (', ctre::case_insensitive' if mode == 3 else ''), 'ctre::multiline_sentinel'))
        if mode == 0:
            it.append(('member iterator', '%s_ctre.iterator(v)' % lit(p), 'ctre::sentinel'))
        if mode == 1:
            it.append(('member multiline_iterator', '%s_ctre.multiline_iterator(v)' % lit(p), 'ctre::multiline_sentinel'))
        for form, f, e in it:
            out.append('rec::walked("a", %d, "%s", [](auto v) { return %s; }, %s, s);' % (mode, form, f, e))
    return some(out, rng, k)


def constants(p, rng, op, mode, subj, k=2):
    """the call in constant expressions"""
    out = []
    for i in rng.sample(range(len(subj)), min(k, len(subj))):
        s = subj[i]
        text = 'static constexpr std::string_view v{%s, %d};' % (rec.quote(rec.cps(s)), len(s))
        if op in 'atp':
            out.append('{ %s constexpr auto f = rec::fix_all<%d>(ctre::%s<P%s>, v); rec::constants("%s", %d, %d, f); }' % (text, len(s) + 3, NAMES[op], rec.MODS[mode], op, mode, i))
        else:
            out.append('{ %s constexpr auto f = rec::fix(ctre::%s<P%s>(v), v); rec::constant("%s", %d, %d, f); }' % (text, NAMES[op], rec.MODS[mode], op, mode, i))
    return out


FORWARD, ALLFORMS = 4, 17


def C16(c):
    c.witnesses()
    pats = law(c, 'calls agree', ['SearchIsLeftmost'], leaves=['a', '(b)', '$'], quants=['*', '??'], wraps=['('], sizes=(3, 3))
    src = Bag(c.rng)
    src.sample(pats, c.n(40, 400), [], F.W3)
    src.sample(F.captures_families(), c.n(25, 400), [], F.W4C)
    src.sample(F.anchors_in_places(), c.n(25, 400), [], F.LINES)
    src.sample(F.lookarounds(), c.n(25, 400), [], F.W4C)
    src.sample(F.backrefs(), c.n(15, 300), [], F.BREF_SUBJ)
    src.sample(F.classes(), c.n(15, 200), [], ['', 'a', 'Z', '0', '\n', 'ab', ' ', '_a', '\xe9', '\xff', 'a\0', '\0'])
    src.random(c.n(130, 2500), profiles(cap=3, **{'assert': 3}) + [Profile('a\n\xe9', cls=4, **{'assert': 3}), Profile('aA1', mode=2, cls=3)], [], size=(2, 8),
               subj=lambda r: ['', 'a\0b'])
    jobs = []
    for j in src.jobs:
        subj = uniq(some(j.subj, c.rng, 10))
        code = []
        for op in some('mswatp', c.rng, 2):
            mode = c.rng.choice([0, 0, 1, 2, 3])
            forms = [f for f in range(ALLFORMS) if f != FORWARD or not any(x in j.pat for x in ('(?<', '\\b', '\\B'))]
            mask = sum(1 << f for f in some(forms, c.rng, 3))
            code.append('rec::forms<rec::%s, %#x>("%s", %d, ctre::%s<P%s>, s);' % ('Many' if op in 'atp' else 'Single', mask, op, mode, NAMES[op], rec.MODS[mode]))
            code += spellings(j.pat, c.rng, op, mode, 2)
            if c.rng.random() < 0.5:
                code += constants(j.pat, c.rng, op, mode, subj)
        jobs.append(Job(j.pat, [], subj, code=['using namespace ctre::literals;'] + code))
    c.conform(jobs, label='spellings', head='#include "forms.hpp"')
    # wide subjects
    w = Bag(c.rng)
    for a in ('a\u0100', 'b\u2000', '\u0161a', 'a\u0161\u0100'):
        w.random(c.n(12, 150), [Profile(a, **dict(GENERAL, cls=2))], [], size=(1, 7), k=10)
    wide = []
    for j in w.jobs:
        code = []
        for op in some('mswatp', c.rng, 2):
            mode = c.rng.choice([0, 0, 1, 2, 3])
            code.append('rec::wforms<rec::%s>("%s", %d, ctre::%s<P%s>, s);' % ('Many' if op in 'atp' else 'Single', op, mode, NAMES[op], rec.MODS[mode]))
        wide.append(Job(j.pat, [(c.rng.choice('mswatp'), 0)], uniq(some(j.subj, c.rng, 12) + ['\u0100', 'a\u0100', '\u0161\u0100a', 'b\u2000b', '\u2000']), ct=c.rng.choice(['wchar_t', 'char16_t', 'char32_t']), code=code))
    c.conform(wide, label='wide subjects', head='#include "forms.hpp"')
    # other compilers and language versions
    b = Bag(c.rng)
    b.sample(F.captures_families(), c.n(30, 400), lambda r: [(r.choice('msw'), 0), (r.choice('atp'), 0)], F.W3)
    b.sample(F.follow(), c.n(20, 300), lambda r: [(r.choice('ms'), 0)], F.ITEM_SUBJ)
    b.sample(F.backrefs(), c.n(10, 200), lambda r: [(r.choice('ms'), 0)], F.BREF_SUBJ)
    b.random(c.n(60, 900), profiles(), lambda r: [(r.choice('msw'), r.choice([0, 1, 2])), (r.choice('atp'), r.choice([0, 1]))], size=(2, 8))
    base = ['-w', '-ftemplate-depth=2000']
    third = max(1, len(b.jobs) // 4)
    for i, (label, cxx) in enumerate([('C++17', ['g++', '-O0', '-std=c++17', '-Dalways_inline=unused', '-Dflatten=unused']), ('clang, C++20', ['clang++', '-O0', '-std=c++20']),
                                      ('g++ -O2', ['g++', '-O2', '-std=c++20']), ('clang, C++17', ['clang++', '-O0', '-std=c++17'])]):
        c.conform([Job(j.pat, j.ops, j.subj) for j in b.jobs[i * third:(i + 1) * third]], label=label, cxx=cxx + base)


# --- C17 UTF-8 --------------------------------------------------------------------------------------------------------------
def units(s):
    """the code units of a text, as a text"""
    return s.encode('utf-8').decode('latin-1')


BYTES = 'A\n\x80\xbf\xc3\xe2\xf1\xff'
GLYPHS = 'a\xe9\u20ac\U0001f600'


def walks(c, texts, label, std='c++20'):
    """recorded walks of the iterator, validated"""
    import json, os
    with rec.Scratch() as d:
        src, exe, inp = os.path.join(rec.VERIF, 'harness', 'utf8.cpp'), os.path.join(d, 'walk'), os.path.join(d, 'in')
        ok, err = rec.compile_cpp(src, exe, ['-fsanitize=address'], cxx=['g++', '-O1', '-std=' + std, '-fchar8_t', '-w'])
        if not ok:
            c.violation(dict(part=label, what='the iterator does not compile', detail=rec.err_lines(err)))
            return
        with open(inp, 'w') as f:
            for t in texts:
                sc = 'sWR' + ''.join(c.rng.choice('fFpabBmc') for _ in range(6)) + 'eRW' if len(t) > 4 or c.rng.random() < 0.3 else 'sWR'
                f.write('%s %s\n' % (''.join('%02x' % ord(x) for x in t) or '-', sc))
        rc, out, err = rec.run_exe(exe, [inp])
        recs = []
        for line in out.split('\n'):
            try:
                recs.append(json.loads(line))
            except ValueError:
                continue
        if rc != 0 or len(recs) != len(texts):
            k = len(recs)
            c.violation(dict(part=label, what='the walk ended with %d' % rc, units=[ord(x) for x in texts[min(k, len(texts) - 1)]], detail=err[:600]))
        todo = [recs[i:i + 60000] for i in range(0, len(recs), 60000)]
        for part in todo:
            r = tla.validate(part, 'Utf8Trace.tla', 'Utf8Trace.cfg')
            bad = {}
            for kind, i, l, v in r.reports:
                if i not in bad or l < bad[i][0]:
                    bad[i] = (l, v)
            by = {x['id']: x for x in part}
            for i, (l, v) in list(bad.items())[:20]:
                c.violation(dict(part=label, what='step', units=by[i]['S'], events=by[i]['ev'][:l], expected=v))
            if not bad and (not r.ok or r.distinct != sum(1 + len(x['ev']) for x in part)):
                raise core.InternalError('%s: %s' % (label, r.error or 'not every step was looked at'))
            c.states += r.distinct
            c.impl_states += r.distinct
            c.transitions += r.generated
        c.traces += len(recs)
        c.part(label, walks=len(recs), steps=sum(len(x['ev']) for x in recs))
        for x in c.rng.sample(recs, min(3, len(recs))):
            c.samples.append(dict(part=label, units=x['S'], events=x['ev'][:8]))


def C17(c):
    c.witnesses()
    c.model('Utf8Model.tla', None, label='walks over every text', cfgtext='SPECIFICATION Spec\nCONSTANTS Alphabet = {65, 128, 195, 226, 241, 255}\n MaxN = %d\nINVARIANTS SamePositions BackUndoes Partition\nCHECK_DEADLOCK FALSE\n' % c.n(4, 6))
    # the iterator
    texts = words(BYTES, c.n(4, 5))
    for _ in range(c.n(3000, 40000)):
        if c.rng.random() < 0.5:
            texts.append(''.join(c.rng.choice(BYTES + '\xc2\xdf\xe1\xef\xf0\x90\x9f\xa0\xf4\x8f') for _ in range(c.rng.randint(5, 12))))
        else:
            t = list(units(''.join(c.rng.choice(GLYPHS + '\n\u07ff\u0800\uffff\U00010000\U0010ffff') for _ in range(c.rng.randint(1, 6)))))
            for _ in range(c.rng.choice([0, 1, 1, 2])):
                if t:
                    if c.rng.random() < 0.6:
                        del t[c.rng.randrange(len(t))]
                    else:
                        t.insert(c.rng.randrange(len(t) + 1), c.rng.choice(BYTES))
            texts.append(''.join(t))
    for v in list(range(0, 0x800, c.n(5, 1))) + list(range(0x800, 0xd800, c.n(101, 7))) + list(range(0xe000, 0x110000, c.n(1009, 61))) + [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfffd]:
        texts.append(units('a' + chr(v) + chr(v)))
    walks(c, uniq(texts), 'walks of the iterator')
    walks(c, some(uniq(texts), c.rng, c.n(3000, 40000)), 'walks of the iterator, C++17', 'c++17')
    # matching
    b = Bag(c.rng)
    op1 = lambda r: [(r.choice('msw'), r.choice([0, 0, 1, 2])), (r.choice('satp'), 0)]
    prof = [Profile(a, **dict(GENERAL, cls=2, ref=2, look=2)) for a in ('a\xe9', '\xe9\u20ac', 'a\U0001f600', '\u20ac\U0001f600b')] + [Profile('aA\xe9\xc9', mode=2, cls=2, ref=1), Profile('a\n\u20ac', behind=2, atom=1, **{'assert': 4})]
    b.random(c.n(330, 4500), prof, op1, size=(2, 9), k=12)
    for p in ['.', '.*', '(.)', '(.)(.)', '(.)*', '(.*)(.)', '(?:..)+', '[^a]', '[^a]+', '\\w', '\\W', '\\b', '\\B', '\\x{FFFD}', '\\x{fffd}+', '(\\x{fffd})', '[\\x{e9}-\\x{20ac}]', '\\x{1F600}', '\\u20ac', '[\\x{80}-\\x{10ffff}]+', '(.)\\1', '(?i)(.)\\1', '(.+)\\1', '(?<=.)a', '(?<=\\x{e9})a',
              '(?<!\\x{e9})a', '(?<!.)a', '(?<=a)\\x{20ac}', '(?<=\\x{20ac}a)', '.$', '^.', '.\\z', '\\A.', '.??', '.{2}', '.{2,3}', '[^\\x{e9}]', '\\N+', '.+?a', '(?>.+)', '(.)|a', '\\x{fffd}a', '(?=.)', '(?=(.))', '(?!.)', '', '\\xe9', '\\xc3', '\\x80', '[\\x80-\\xff]']:
        for _ in range(c.n(1, 3)):
            b.add(p or '(?:)', op1(c.rng) + [('a', 0)], [''] + [''.join(c.rng.choice(GLYPHS + 'a\n') for _ in range(c.rng.randint(1, 4))) for _ in range(8)] + ['a\xe9', '\xe9\xe9', '\xe9a', '\u20aca', 'a\u20ac', '\U0001f600\U0001f600', '\xe9\u20aca'])
    around = [x + q + y for x in ['(?:a.)', '(?:\xe9)', '(\xe9)', '(?:\xe9\u20ac)', '(?>\xe9)', '.', '\xe9', '[\xe9\u20ac]', '(?:a|\xe9)', '(?:\xe9|)', '(?=.).', '(?<=.).'] for q in ['*', '*?', '*+', '+', '+?', '++', '?', '??', '?+', '{2}', '{1,2}', '{1,2}?', '{1,2}+', '{2,}?'] for y in ['\u20ac', '(\u20ac)', '.', '\\b', '$', '(?=\u20ac)', 'a', '[^a]', '(?<=\xe9)', '(?<!\xe9)', '(.)\\g{-1}']]
    b.sample(around, c.n(150, 1800), op1, lambda p: [''.join(c.rng.choice('\xe9\xe9\u20aca') for _ in range(c.rng.randint(1, 6))) for _ in range(12)])
    jobs = []
    for j in b.jobs:
        subj = uniq([units(s) for s in some(j.subj, c.rng, 14)])
        # with mistakes in them
        for _ in range(4):
            t = list(c.rng.choice(subj))
            if t and c.rng.random() < 0.6:
                del t[c.rng.randrange(len(t))]
            else:
                t.insert(c.rng.randrange(len(t) + 1), c.rng.choice(BYTES))
            subj.append(''.join(t))
        subj += [''.join(c.rng.choice('a\n\x80\xbf\xc3\xe2\xf1\xff') for _ in range(c.rng.randint(1, 5))) for _ in range(3)]
        code = []
        op, mode = c.rng.choice('mswatp'), c.rng.choice([0, 0, 1, 2])
        if c.rng.random() < 0.3:
            code.append('rec::u8forms<rec::%s>("%s", %d, ctre::%s<P%s>, s);' % ('Many' if op in 'atp' else 'Single', op, mode, NAMES[op], rec.MODS[mode]))
        jobs.append(Job(j.pat, j.ops, uniq(subj), ct='char8_t', code=code, more=dict(u8=1)))
    old = jobs[:len(jobs) // 8]
    c.conform(old, label='UTF-8 subjects, C++17', head='#include "forms.hpp"', cxx=['g++', '-O0', '-std=c++17', '-fchar8_t', '-w', '-ftemplate-depth=2000', '-Dalways_inline=unused', '-Dflatten=unused'])
    c.conform(jobs[len(old):], label='UTF-8 subjects', head='#include "forms.hpp"')
    # the subject as a constant
    k = []
    for j in some(jobs, c.rng, c.n(40, 400)):
        code = []
        for i in c.rng.sample(range(len(j.subj)), min(3, len(j.subj))):
            op, mode = c.rng.choice('msw'), c.rng.choice([0, 0, 1, 2])
            code.append('{ static constexpr std::u8string_view v{%s, %d}; constexpr auto f = rec::fix(ctre::%s<P%s>(v), v); rec::constant("%s", %d, %d, f); }' % (rec.quote(rec.cps(j.subj[i]), 'u8'), len(j.subj[i]), NAMES[op], rec.MODS[mode], op, mode, i))
        k.append(Job(j.pat, [], j.subj, ct='char8_t', code=code, more=dict(u8=1)))
    c.conform(k, label='UTF-8 subjects in constant expressions', head='#include "forms.hpp"')


# --- C18 results ---------------------------------------------------------------------------------------
NUMBERS = ['0', '7', '-1', '-', '--1', '+1', '12', '007', '-007', '99', '127', '128', '-128', '-129', '255', '256', '32767', '32768', '65535', '65536', '-32769', '2147483647', '2147483648', '-2147483648',
           '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616',
           '99999999999999999999999', 'ff', 'FF', '-7f', '7fffffff', '80000000', 'ffffffffffffffff', '0x10', '377', '400', '1011', '12a', 'a12', 'zz', '1y2p0ij32e8e7', '1y2p0ij32e8e8', ' 1', '1 ', '', '1.5']


def name_list(p):
    import re
    out = uniq(re.findall(r'\(\?<([A-Za-z_]\w*)>', p))
    return 'rec::names<%s>{}' % ', '.join('"%s"' % n for n in out)


def looks(c, b, k, types, ct='char', more=None):
    """jobs which record every accessor of the results of some calls"""
    jobs = []
    for j in b.jobs:
        subj = uniq(some(j.subj, c.rng, k))
        code = []
        t = c.rng.choice(types)
        for op in ([c.rng.choice('mswatp')] if c.rng.random() < 0.6 else [c.rng.choice('msw'), c.rng.choice('atp')]):
            mode = c.rng.choice([0, 0, 0, 1, 2])
            code.append('rec::access<%d, %s>("%s", %d, ctre::%s<P%s>, s, %s);' % (t, 'true' if op in 'atp' else 'false', op, mode, NAMES[op], rec.MODS[mode], name_list(j.pat)))
        jobs.append(Job(j.pat, [], subj, ct=ct, code=code, more=more))
    return jobs


def C18(c):
    see = dict(module='AccessTrace.tla', cfg='AccessTrace.cfg', head='#include "access.hpp"')
    c.witnesses(lambda w: Job(w['pattern'], [], [w['subject']], kf=1, code=['rec::access<0, false>("%s", 0, ctre::%s<P>, s, rec::names<>{});' % (w['op'], NAMES[w['op']])]), **see)
    pats = law(c, 'captures are inside of the match', ['CapturesInside'], leaves=['a', '(b)', '(?<n>a)'], quants=['*', '??'], wraps=['('], sizes=(3, 4))
    # numbers
    b = Bag(c.rng)
    for p in ['.*', '(.*)', '(-?[0-9]+)', '(?<n>-?[0-9]+)', '(?<a>-?[0-9]*)(?<b>[0-9])', '(?<x>-)?(?<y>[0-9a-fA-F]+)', '([^ ]*)( )?', '(?<n>[a-z]*)|([0-9]+)']:
        for k in range(c.n(2, 12)):
            b.add(p, [], some(NUMBERS, c.rng, 22))
    c.conform(looks(c, b, 22, [0, 0, 1, 2]), label='numbers', **see)
    b = Bag(c.rng)
    b.sample(pats, c.n(60, 700), [], F.W3)
    b.sample(F.captures_families(), c.n(60, 700), [], F.W4C)
    b.sample(F.lookarounds(), c.n(20, 300), [], F.W4C)
    b.sample(F.backrefs(), c.n(20, 300), [], F.BREF_SUBJ)
    b.random(c.n(110, 1800), profiles(cap=5, alt=4) + [Profile('1-a', cap=4, cls=2, alt=3), Profile('a\n\xe9', cap=4)], [], size=(3, 10), subj=lambda r: ['', 'a\0b', '1-1'])
    for p in ['(?<n>a)|(?<m>b)', '(?<n>a)?(?<n2>b)?', '(?<aa>a(?<a>b))', '(?<a>a)(b)(?<c>c)', '(?<x>.)(?<y>.)(?<z>.)?', '((?<in>a)|b)*', '(?<_1>a)(?<_>b)', '(?<n>(?<n1>(?<n11>a)))', '(?<ab>a)(?<ba>b)', '(a)(b)(c)(?<d>a)?', '(?<A>a)(?<a>b)']:
        for _ in range(c.n(2, 8)):
            b.add(p, [], some(F.W4C, c.rng, 12) + ['ab', 'abc', 'a', 'b', 'abca'])
    c.conform(looks(c, b, 8, [0, 0, 1, 2, 3]), label='accessors', **see)
    # wide and UTF-8 subjects
    w = Bag(c.rng)
    w.random(c.n(40, 700), [Profile(a, **dict(GENERAL, cap=5)) for a in ('a\xe9', '\u20aca')], [], size=(2, 8))
    w.sample(F.captures_families(), c.n(20, 200), [], F.W4C)
    wide = looks(c, w, 8, [0, 1, 3])
    for j in wide:
        j.ct = c.rng.choice(['wchar_t', 'char32_t', 'char16_t'])
    c.conform(wide, label='accessors, wide subjects', **see)
    u = Bag(c.rng)
    u.random(c.n(50, 800), [Profile(a, **dict(GENERAL, cap=5)) for a in ('a\xe9', '\u20aca\U0001f600')], [], size=(2, 8))
    for p in ['(.)(?<n>.)', '(?<n>.)?(.)', '(.*)(\\x{20ac})', '(?<n>\\x{e9}+)|a']:
        for _ in range(c.n(2, 8)):
            u.add(p, [], [''.join(c.rng.choice('a\xe9\u20ac\U0001f600') for _ in range(c.rng.randint(0, 5))) for _ in range(10)])
    for j in u.jobs:
        j.subj = uniq([units(s) for s in j.subj])
    c.conform(looks(c, u, 8, [0, 1, 4], ct='char8_t', more=dict(u8=1)), label='accessors, UTF-8 subjects', **see)
    # in constant expressions
    jobs = []
    for j in some(b.jobs, c.rng, c.n(60, 600)):
        code = []
        for i in c.rng.sample(range(len(j.subj)), min(3, len(j.subj))):
            s = j.subj[i]
            probe = c.rng.choice([s, s[:1], s[1:], '', s + 'a', s[:-1]])
            op, mode = c.rng.choice('msw'), c.rng.choice([0, 0, 1, 2])
            code.append('{ static constexpr std::string_view v{%s, %d}, p{%s, %d}; constexpr auto f = rec::asked(ctre::%s<P%s>, v, p); rec::tell("%s", %d, %d, p, f); }' % (rec.quote(rec.cps(s)), len(s), rec.quote(rec.cps(probe)), len(probe), NAMES[op], rec.MODS[mode], op, mode, i))
        jobs.append(Job(j.pat, [], j.subj, code=code))
    c.conform(jobs, label='in constant expressions', **see)
# --- C19 bounds ------------------------------------------------------------------------------------------------------------
def exact(p, rng, op, mode, subj, i, u8=False):
    """the call in a constant expression, on an array which has the subject and nothing else"""
    s = subj[i]
    n, ct = len(s), 'char8_t' if u8 else 'char'
    items = ', '.join('static_cast<%s>(%d)' % (ct, ord(x)) for x in s)
    zero = '\0' not in s and not u8 and rng.random() < 0.4
    if zero:
        items = ', '.join(x for x in [items, '0'] if x)
    view = 'std::%s{d, %d}' % ('u8string_view' if u8 else 'string_view', n)
    text = 'static constexpr %s d[] = {%s}; static constexpr auto v = %s;' % (ct, items, view) if items else 'static constexpr %s o[] = {0}; static constexpr auto v = std::%s{o + 1, 0};' % (ct, 'u8string_view' if u8 else 'string_view')
    arg = 'static_cast<const char *>(d)' if zero else 'v'
    if op in 'atp':
        return '{ %s constexpr auto f = rec::fix_each<%d>(ctre::%s<P%s>, %s, v); rec::constants("%s", %d, %d, f); }' % (text, n + 3, NAMES[op], rec.MODS[mode], arg, op, mode, i)
    return '{ %s constexpr auto f = rec::fix(ctre::%s<P%s>(%s), v); rec::constant("%s", %d, %d, f); }' % (text, NAMES[op], rec.MODS[mode], arg, op, mode, i)


CLANG = ['clang++', '-O0', '-std=c++20', '-w', '-ftemplate-depth=2000', '-fconstexpr-steps=50000000', '-fbracket-depth=2000']


def C19(c):
    c.witnesses()
    c.model('BoundsModel.tla', None, label='a decoder, one unit at a time', cfgtext='SPECIFICATION Spec\nCONSTANTS Alphabet = {65, 128, 195, 226, 241, 255}\n MaxN = %d\nINVARIANTS AllLegal Kept AtMarks Decoded\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n' % c.n(4, 5))
    machine(c, some(F.lookarounds(), c.rng, c.n(10, 60)) + some(F.captures_families(), c.rng, c.n(10, 60)) + some(F.anchors_in_places(), c.rng, c.n(10, 60)), modes=(0, 1), label='machine: positions')
    kw = dict(head='#include "bounds.hpp"', module='BoundsTrace.tla', cfg='BoundsTrace.cfg')

    def source(k, u8=False):
        b = Bag(c.rng)
        b.sample(F.lookarounds(), k(50), [], F.W4C)
        b.sample(F.anchors_in_places(), k(40), [], F.LINES)
        b.sample(F.captures_families(), k(25), [], F.W4C)
        b.sample(F.backrefs(), k(30), [], F.BREF_SUBJ)
        b.sample(F.follow(), k(30), [], F.ITEM_SUBJ)
        b.sample(F.skips(), k(20), [], lambda p: some(F.NODE_SUBJ, c.rng, 20))
        b.sample(F.nodes(), k(30), [], lambda p: some(F.NODE_SUBJ, c.rng, 20))
        b.sample(F.empties(), k(10), [], F.W4C)
        b.sample(['\\b', '\\B', '\\ba', 'a\\b', '\\Ba', 'a\\B', '^', '$', '\\A', '\\Z', '\\z', '(?<=a)', '(?<!a)', '(?<=aa)', '(?<!ab)', '(?<=\\b)', '(?<=^)a', '(?<=^a)', '(?<=$)', '(?<=(?<!a)b)a', '(?=a)', '(?!a)', '(?=a$)', '(?=aa)',
                  '(a)\\1', '(?:(a)|b)\\1', '(a*)\\1', '(?<=[ab])[ab]', '(?<=a|bb)', '(?<=\\n)^', '$(?=\\n)', 'aaa', '(?>a*)', 'a*+a', 'a{2,3}', '.*', '.*?$', '\\R', '\\N', '(?i)AB', '(?i)(a)\\1'], k(30), [], F.W4C + ['\n', 'a\n', '\na'])
        b.random(k(70), profiles(behind=3, look=2, **{'assert': 3}) + [Profile('a\n', mode=1, **{'assert': 5})], [], size=(2, 9))
        return [(j.pat, uniq(['', 'a'] + some(j.subj, c.rng, 12))) for j in b.jobs]

    def call():
        op = c.rng.choice('mssswatp')
        return op, c.rng.choice([0, 0, 1, 1, 2]), 'rec::Many' if op in 'atp' else 'rec::Single'
    # iterators which write down what is done with them
    jobs = []
    for p, subj in source(lambda n: c.n(n * 6 // 5, n * 14)):
        code = []
        for _ in range(2):
            op, mode, kind = call()
            tag = c.rng.choice(['random_access', 'bidirectional', 'forward'] if not any(x in p for x in ('(?<', '\\b', '\\B')) else ['random_access', 'bidirectional'])
            code.append('rec::guard<%s, std::%s_iterator_tag, %d>("%s", %d, ctre::%s<P%s>, s, 5);' % (kind, tag, c.rng.randint(0, 2), op, mode, NAMES[op], rec.MODS[mode]))
        jobs.append(Job(p, [], subj, code=code))
    c.conform(jobs, label='recorded operations', **kw)
    # alone in a block; inside of a text
    jobs = []
    for p, subj in source(lambda n: c.n(n // 2, n * 5)):
        code = []
        for what in ('inside', 'alone'):
            op, mode, kind = call()
            code.append('rec::%s<%s>("%s", %d, ctre::%s<P%s>, s);' % (what, kind, op, mode, NAMES[op], rec.MODS[mode]))
        jobs.append(Job(p, [], subj, code=code, ct=c.rng.choice(['char', 'char', 'wchar_t', 'char32_t', 'char16_t'])))
    c.conform(jobs, label='surroundings (AddressSanitizer)', flags=['-fsanitize=address'], **kw)
    # UTF-8, also incomplete
    b = Bag(c.rng)
    prof = [Profile(a, **dict(GENERAL, behind=2, look=2, cls=2)) for a in ('a\xe9', '\xe9\u20ac', '\u20ac\U0001f600b')] + [Profile('a\n\xe9', **{'assert': 4})]
    b.random(c.n(70, 900), prof, [], size=(2, 8), k=10)
    for p in ['.', '.*', '(.)(.)', '\\b', '\\B', '(?<=.)a', '(?<=\\x{e9})a', '(?<!\\x{e9}).', '(?<=\\x{fffd})', '(?<!.)', '\\x{fffd}', '.$', '$', '^.', '(.)\\1', '\\w', '[^a]', '(?=.)', '(?!.)', '.\\b', '\\b.', '(?<=..)', '(?<=a.)']:
        b.add(p, [], ['', 'a', '\xe9', '\u20aca', 'a\U0001f600'])
    u8 = []
    for j in b.jobs:
        subj = uniq([units(x) for x in some(j.subj, c.rng, 8)])
        for t in some([x for x in subj if x], c.rng, 4):
            k = c.rng.randrange(len(t))
            subj += [t[:-1], t[1:], t[:k] + t[k + 1:]]
        subj += some(['\xf1', '\xe2', '\xc3', '\x80', 'a\xf1', 'a\xe2\x82', '\xf1\x80\x80', '\xe2\xe2', '\x80\x80\x80\x80', '\xff', '\xf1\x80a', '\xc3\xc3'], c.rng, 5)
        code = []
        for what in ('inside', 'alone'):
            op, mode, kind = call()
            code.append('rec::%s<%s>("%s", %d, ctre::%s<P%s>, s);' % (what, kind, op, mode, NAMES[op], rec.MODS[mode]))
        u8.append(Job(j.pat, [], uniq(subj), ct='char8_t', code=code, more=dict(u8=1)))
    c.conform(u8, label='surroundings, UTF-8 (AddressSanitizer)', flags=['-fsanitize=address'], **kw)
    # constant expressions: the compiler refuses what leaves the array
    jobs = []
    for p, subj in source(lambda n: c.n(n // 3, n * 3)):
        code = []
        for i in [0] + c.rng.sample(range(1, len(subj)), min(3, len(subj) - 1)):
            op, mode, kind = call()
            code.append(exact(p, c.rng, op, mode, subj, i))
        jobs.append(Job(p, [], subj, code=code))
    for j in some(u8, c.rng, c.n(40, 500)):
        code = []
        for i in c.rng.sample(range(len(j.subj)), min(4, len(j.subj))):
            op, mode, kind = call()
            code.append(exact(j.pat, c.rng, op if op in 'msw' else 's', mode, j.subj, i, True))
        jobs.append(Job(j.pat, [], j.subj, ct='char8_t', code=code, more=dict(u8=1)))
    c.conform([j for j in jobs if j.ct == 'char'], label='constant expressions (clang)', cxx=CLANG, **kw)
    c.conform([j for j in jobs if j.ct != 'char'], label='constant expressions, UTF-8 (clang)', cxx=CLANG, **kw)


# --- C20 literals ------------------------------------------------------------------------------------------
CORNERS = [0, 1, 9, 10, 0x41, 0x5c, 0x7f, 0x80, 0xa0, 0xbf, 0xc2, 0xe9, 0xff, 0x100, 0x3ff, 0x400, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfdff, 0xfe00, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fbff, 0x10fc00, 0x10ffff]


def encode(ty, t):
    """the units of a text (code points) in a type; how it is written, not what it means"""
    if ty in '8u':
        return list(''.join(map(chr, t)).encode('utf-8'))
    if ty == '16':
        b = ''.join(map(chr, t)).encode('utf-16-le')
        return [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]
    return list(t)


def literals(c, lines, label, flags=(), std='c++20'):
    """literals and comparisons of literals, decoded by the library and validated"""
    import json, os
    dots = lambda u: '.'.join('%x' % x for x in u) or '-'
    with rec.Scratch() as d:
        src, exe, inp = os.path.join(rec.VERIF, 'harness', 'literal.cpp'), os.path.join(d, 'lit'), os.path.join(d, 'in')
        ok, err = rec.compile_cpp(src, exe, ['-fsanitize=address', '-fchar8_t'] + list(flags), cxx=['g++', '-O0', '-std=' + std, '-w'])
        if not ok:
            c.violation(dict(part=label, what='the literals do not compile', detail=rec.err_lines(err)))
            return
        with open(inp, 'w') as f:
            for x in lines:
                f.write(('L %s %s\n' % (x[0], dots(x[1])) if len(x) == 2 else '= %s %s %s %s\n' % (x[0], dots(x[1]), x[2], dots(x[3]))))
        rc, out, err = rec.run_exe(exe, [inp])
        evs = [json.loads(x) for x in out.split('\n') if x.startswith('[') and x.endswith(']')]
        if rc != 0 or len(evs) != len(lines):
            x = lines[min(len(evs), len(lines) - 1)]
            c.violation(dict(part=label, what='decoding ended with %d' % rc, literal=[str(y) for y in x], detail=err[:600]))
        recs = [dict(id=i, ev=evs[i:i + 250]) for i in range(0, len(evs), 250)]
        for i in range(0, len(recs), 400):
            part = recs[i:i + 400]
            r = tla.validate(part, 'LiteralTrace.tla', 'LiteralTrace.cfg')
            if not r.ok or r.distinct != 2 * len(part) and not r.reports:
                raise core.InternalError('%s: %s' % (label, r.error or 'not every literal was looked at'))
            by = {x['id']: x for x in part}
            for kind, k, l, v in r.reports[:20]:
                ev = by[k]['ev'][l - 1]
                c.violation(dict(part=label, what='texts are compared wrongly' if ev[0] == '=' else 'the literal denotes another text', event=ev))
            c.states += r.distinct
            c.impl_states += r.distinct
            c.transitions += r.generated
        c.traces += len(recs)
        c.calls += len(evs)
        c.part(label, literals=len(evs))
        for ev in c.rng.sample(evs, min(3, len(evs))):
            c.samples.append(dict(part=label, event=ev))


def groups(p):
    """the capturing groups of a pattern in their order: their names, '' for none"""
    out, i, inset = [], 0, False
    while i < len(p):
        if p[i] == '\\':
            i += 1
        elif inset:
            inset = p[i] != ']'
        elif p[i] == '[':
            inset = True
            i += 1 if p[i + 1:i + 2] in '^]' else 0
        elif p[i] == '(' and p[i + 1:i + 2] != '?':
            out.append('')
        elif p[i] == '(' and p[i + 1:i + 3] == '?<' and p[i + 3:i + 4] not in '=!':
            out.append(p[i + 3:p.index('>', i)])
        i += 1
    return out


LITERAL_TYPES = ['8', '16', '32', 'w']
LPREFIX = {'n': '', 'u': '', '8': 'u8', '16': 'u', '32': 'U', 'w': 'L'}
LCHAR = {'n': 'char', 'u': 'char', '8': 'char8_t', '16': 'char16_t', '32': 'char32_t', 'w': 'wchar_t'}


def literal(ty, p):
    return rec.quote(encode(ty, rec.cps(p)) if ty in '8u' else rec.cps(p), LPREFIX[ty])


def C20(c):
    import itertools
    c.witnesses()
    c.model('LiteralModel.tla', None, label='texts written in every type', cfgtext='SPECIFICATION Spec\nCONSTANT MaxN = %d\nINVARIANTS ReadsBack Prefixes NeverBad OneText\nCHECK_DEADLOCK FALSE\n' % c.n(2, 3))
    # every code point (a part of them), alone and among others
    lines, same, r = [], [], c.rng
    cp = [v for v in list(range(0, 0x900)) + list(range(0x900, 0x11000, c.n(37, 3))) + list(range(0x11000, 0x110000, c.n(997, 41))) + CORNERS if not 0xd800 <= v < 0xe000]
    for v in cp:
        for ty in ['8', '16', '32', 'w']:
            lines.append((ty, encode(ty, [v])))
        if v < 256:
            lines.append(('n', [v]))
    for _ in range(c.n(6000, 100000)):
        ty = r.choice(['n', '8', '8', '16', '16', '32', 'w'])
        t = [r.choice(CORNERS + [r.randrange(0xd800), r.randrange(0xe000, 0x110000), r.randrange(128)]) for _ in range(r.randint(1, 5))]
        if ty == 'n':
            t = [x % 256 for x in t]
        u = encode(ty, t)
        k = r.random()
        # damaged ones
        if k < 0.12 and u:
            del u[r.randrange(len(u))]
        elif k < 0.24 and ty in ('8', '16'):
            u.insert(r.randrange(len(u) + 1), r.choice([0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0x41] if ty == '8' else [0xd800, 0xdbff, 0xdc00, 0xdfff, 0x41]))
        if len(u) <= 12:
            lines.append((ty, u))
    for n in range(0, c.n(4, 5)):
        lines += [('8', list(u)) for u in itertools.product([0x41, 0x80, 0xbf, 0xc3, 0xe2, 0xf1], repeat=n)]
        lines += [('16', list(u)) for u in itertools.product([0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000], repeat=n)]
    for _ in range(c.n(4000, 60000)):
        t = [r.choice(CORNERS) for _ in range(r.randint(0, 3))]
        k = r.random()
        t2 = list(t)
        if k < 0.4 and t:
            i = r.randrange(len(t))
            t2[i] = r.choice([r.choice(CORNERS), max(0, t[i] - 1), min(0x10ffff, t[i] + 1), t[i] ^ 0x10000 if t[i] ^ 0x10000 < 0x110000 else t[i], t[i] & 0xff, t[i] & 0xffff])
        elif k < 0.6:
            t2 = t + [r.choice(CORNERS)]
        elif k < 0.7:
            t2 = [r.choice(CORNERS)] + t
        if any(0xd800 <= x < 0xe000 for x in t2):
            continue
        a, b = r.choice(LITERAL_TYPES + (['n'] if all(x < 256 for x in t) else [])), r.choice(LITERAL_TYPES + (['n'] if all(x < 256 for x in t2) else []))
        u, w = encode(a, t), encode(b, t2)
        if len(u) <= 12 and len(w) <= 12:
            same.append((a, u, b, w) if r.random() < 0.5 else (b, w, a, u))
    literals(c, lines + same, 'literals')
    narrow = [('u', x[1]) for x in lines if x[0] == '8']
    literals(c, narrow + [tuple('u' if isinstance(y, str) and y == '8' else y for y in x) for x in same if 'n' not in (x[0], x[2])], 'narrow literals as UTF-8', ['-DCTRE_STRING_IS_UTF8'])
    # patterns as literals
    b = Bag(r)
    for a in ('a\xe9', '\u20acb', '\U0001f600\xff', '\u0100\u2000', '\U00010000\uffff', '\U0010ffff\ue000', '\u07ff\u0800'):
        b.random(c.n(22, 260), [Profile(a, **dict(GENERAL, cls=2, lit=2, ncap=2))], [], size=(2, 8), k=8)
    for x in ['[\u0100-\u2000]', '[^\u0100-\uffff]+', '(?<n>\U0001f600)\\g{n}', '\U0001f600{2}', '[\U00010000-\U0010ffff]*', '\u20ac|\xe9', '\xe9\u20ac\U0001f600', '[\xe9\u20ac\U0001f600]+', '(?i)\xe9a', '\u212a', '\ufffd', '(?<n>a)(?<m>\u20ac)?', '\U0001f600\U0001f601', '[\U0001f600-\U0001f64f]', 'a\u0301', '\u2028$', '\xa0', '\x7f\x80']:
        b.add(x, [], uniq([y + z for y in ['', 'a', '\u20ac', '\U0001f600', x[0]] for z in ['', '\xe9', '\u2000', '\uffff', '\U0001f600', x[-1], x]]))
    jobs, utf8 = [], []
    for j in b.jobs:
        code = []
        g = groups(j.pat)
        for ty in some(LITERAL_TYPES, r, 2):
            op = r.choice('mswatp')
            how = r.randrange(4)
            text = literal(ty, j.pat)
            if how == 0:
                code.append('rec::%s("%s", 0, [](auto v) { return (%s_ctre).%s(v); }, s);' % (rec.OPS[op][0], op, text, MEMBER[op]))
            elif how == 1:
                u = encode(ty, rec.cps(j.pat))
                code.append('{ static constexpr std::array<%s, %d> a{%s}; static constexpr ctll::fixed_string q{a}; rec::%s("%s", 0, ctre::%s<q>, s); }' % (LCHAR[ty], len(u), ', '.join('static_cast<%s>(%d)' % (LCHAR[ty], x) for x in u), rec.OPS[op][0], op, NAMES[op]))
            elif how == 2:
                code.append('{ static constexpr ctll::fixed_string q = %s; rec::%s("%s", 0, ctre::%s<q>, s); }' % (text, rec.OPS[op][0], op, NAMES[op]))
            else:
                code.append('rec::%s("%s", 0, ctre::%s<%s>, s);' % (rec.OPS[op][0], op, NAMES[op], text))
        if any(g):
            show = ''.join('rec::line += \',\'; rec::span(r.template get<%s>(), b); ' % (literal(r.choice(LITERAL_TYPES + ['n']), n) if n else i + 1) for i, n in enumerate(g))
            op = r.choice('ms')
            code.append('rec::named("%s", 0, "names", ctre::%s<P>, [](const auto & r, auto b) { %s}, s);' % (op, NAMES[op], show))
        code = [x.replace('P>', 'P >') for x in code]
        jobs.append(Job(j.pat, [], some(j.subj, r, 14), ct='char32_t', code=['using namespace ctre::literals;'] + code))
        if r.random() < 0.4:
            op = r.choice('mswatp')
            utf8.append(Job(j.pat, [], some(j.subj, r, 14), ct='char32_t', code=['rec::%s("%s", 0, ctre::%s<%s>, s);' % (rec.OPS[op][0], op, NAMES[op], literal('u', j.pat)), 'using namespace ctre::literals; rec::many("a", 0, [](auto v) { return (%s_ctre).range(v); }, s);' % literal('u', j.pat)]))
    head = '#include "literal.hpp"'
    c.conform(jobs, label='patterns in literals of each type', head=head)
    c.conform(utf8, label='patterns in narrow UTF-8 literals', head=head, flags=['-DCTRE_STRING_IS_UTF8'])
    # narrow literals are bytes
    n = Bag(r)
    n.random(c.n(50, 600), [Profile(a, **dict(GENERAL, cls=2, ncap=2)) for a in ('a\xe9', '\xc3\xa9', '\xff\x80', '\xf0\x9f')], lambda q: [(q.choice('mswatp'), 0)], size=(2, 8), k=8)
    c.conform(n.jobs, label='narrow literals')
    old = []
    for j in some(b.jobs, r, c.n(40, 500)):
        ty = r.choice(LITERAL_TYPES)
        op = r.choice('mswatp')
        old.append(Job(j.pat, [], some(j.subj, r, 12), ct='char32_t', code=['{ static constexpr ctll::fixed_string q = %s; rec::%s("%s", 0, ctre::%s<q>, s); }' % (literal(ty, j.pat), rec.OPS[op][0], op, NAMES[op])]))
    c.conform(old, label='patterns in constants', head=head, cxx=['clang++', '-O0', '-std=c++20', '-w', '-ftemplate-depth=2000'])


class Ucd:
    """the reference data, for choosing names and code points (the specification says what they mean)"""
    def __init__(self):
        import json, os
        with open(os.path.join(tla.SPEC, 'data', 'unicode.json')) as f:
            d = json.load(f)
        self.segs, self.profiles, self.ages = d['segs'], d['profiles'], d['ages']
        self.names = {k: {v: a for v, a in t.items()} for k, t in d['aliases'].items()}
        lack = set('''qaac qaai nag_mundari nagm ecomp emod ebase epres extpict cntrl combining_mark digit punct cyrillic_supplementary
            combining_marks_for_symbols latin_1 private_use canadian_syllabics kawi hrkt katakana_or_hiragana zzzz unknown nb no_block'''.split())
        self.lack = lack - {'zzzz', 'unknown'}
        ok = lambda k, v, typed: [a for a in self.names[k][v] if a not in (lack if typed or k != 'sc' else self.lack)
                                  and not (k == 'gc' and a in ('private_use',))]
        # groups of texts which mean the same property
        self.groups = []
        for v in self.names['gc']:
            self.groups.append([a for a in self.names['gc'][v] if a not in ('cntrl', 'combining_mark', 'digit', 'punct')])
        for v in self.names['bin']:
            self.groups.append(ok('bin', v, False))
        for v in self.names['sc']:
            if ok('sc', v, False):
                self.groups.append(ok('sc', v, False))
            if ok('sc', v, True):
                self.groups.append([t + '=' + a for t in ('script', 'sc') for a in ok('sc', v, True)])
                self.groups.append([t + '=' + a for t in ('script_extension', 'scx') for a in ok('sc', v, True)])
        for v in self.names['blk']:
            if ok('blk', v, True):
                self.groups.append(['block=' + a for a in ok('blk', v, True)])
        self.groups += [['age=' + a] for a in self.ages] + [['any'], ['ascii'], ['assigned']]
        self.groups = [g for g in self.groups if g]


def spell(name, rng):
    """any case"""
    k = rng.random()
    return name if k < 0.3 else name.upper() if k < 0.4 else name.title() if k < 0.6 else ''.join(rng.choice([x.lower(), x.upper()]) for x in name)


def sweeps(c, pats, label, other=False, cxx=('g++', '-O1', '-std=c++20', '-w', '-fconstexpr-ops-limit=1000000000')):
    """all code points with patterns of one character"""
    import os
    from concurrent.futures import ThreadPoolExecutor
    got = {}
    chunk = max(1, min(60, -(-len(pats) // 16)))
    if not cxx[0].startswith('g++'):
        cxx = [x for x in cxx if not x.startswith('-fconstexpr-ops')] + ['-fconstexpr-steps=1000000000']
    with rec.Scratch() as d:
        def one(ids):
            n = ids[0]
            src, exe = os.path.join(d, 's%d_%d.cpp' % (n, len(ids))), os.path.join(d, 's%d_%d' % (n, len(ids)))
            with open(src, 'w') as f:
                f.write('#include "props.hpp"\nint main() {\n' + ''.join('\t%s<%s>(%d);\n' % ('others' if other else 'points', rec.quote(rec.cps(pats[i]), ''), i) for i in ids) + '}\n')
            ok, err = rec.compile_cpp(src, exe, cxx=list(cxx))
            os.unlink(src)
            if not ok:
                return ids, err
            rc, out, err = rec.run_exe(exe)
            os.unlink(exe)
            for line in out.split('\n'):
                x = line.split()
                if len(x) >= 2:
                    got.setdefault(x[1], {})[int(x[0])] = [tuple(int(y, 16) for y in z.split('-')) for z in x[2:]]
            return None if rc == 0 else (ids, 'ended with %d %s' % (rc, err[:300]))
        todo = [list(range(i, min(i + chunk, len(pats)))) for i in range(0, len(pats), chunk)]
        with ThreadPoolExecutor(rec.JOBS) as ex:
            bad = [x for x in ex.map(one, todo) if x]
            while bad and len(bad) < 60:
                nxt = []
                for ids, err in bad:
                    if len(ids) == 1:
                        c.violation(dict(part=label, pattern=pats[ids[0]], what='the pattern has to be accepted, it does not compile', detail=rec.err_lines(err)))
                    else:
                        k = max(1, len(ids) // 4)
                        nxt += [ids[i:i + k] for i in range(0, len(ids), k)]
                if len(c.violations) > 10:
                    break
                bad = [x for x in ex.map(one, nxt) if x]
    recs = []
    for form, by in sorted(got.items()):
        ids = sorted(by)
        for b in range(0, len(ids), 140):
            recs.append((form, ids[b:b + 140], by))
    last = {'16': 0xffff, 'c': 0xff, '32': 0x1103ff}

    def build(form, ids, by):
        cuts = {0}
        for i in ids:
            for lo, hi in by[i]:
                cuts.add(lo)
                cuts.add(hi + 1)
        if form == '8':
            cuts |= {0xd800, 0xe000}
        if form == '32':
            cuts.add(0x110000)
        top = last.get(form, 0x10ffff)
        cuts = sorted(x for x in cuts if x <= top) + [top + 1]
        on = [[] for _ in cuts]
        pos = {x: k for k, x in enumerate(cuts)}
        for n, i in enumerate(ids):
            for lo, hi in by[i]:
                for k in range(pos[lo], pos[hi + 1]):
                    on[k].append(n + 1)
        ons, segs, index = [], [], {}
        for k in range(len(cuts) - 1):
            if form == '8' and cuts[k] == 0xd800:
                continue
            key = tuple(on[k])
            if key not in index:
                ons.append(list(key))
                index[key] = len(ons)
            segs.append([cuts[k], cuts[k + 1] - 1, index[key]])
        return dict(pats=[rec.cps(pats[i]) for i in ids], ons=ons, segs=segs)
    built = []
    for form, ids, by in recs:
        built.append((form, ids, build(form, ids, by)))
    # a few at a time, for the memory of TLC
    per = max(1, -(-len(built) // 4))
    groups_ = [built[i:i + per] for i in range(0, len(built), per)]
    def run(part):
        rs = [dict(x, id=k + 1) for k, (_, _, x) in enumerate(part)]
        return part, tla.validate(rs, 'UnicodeTrace.tla', 'UnicodeTrace.cfg')
    with ThreadPoolExecutor(4) as ex:
        done = list(ex.map(run, groups_))
    listed = {w['property'] for w, _ in core.findings(c.prop)}
    known = set()
    for part, r in done:
        want = sum(1 + len(x['segs']) for _, _, x in part)
        if not r.ok or r.distinct != want:
            raise core.InternalError('%s: %s' % (label, r.error or 'looked at %d segments, not %d' % (r.distinct, want)))
        c.states += r.distinct
        c.impl_states += r.distinct
        c.transitions += r.generated
        seen = set()
        for what, k, p, v in r.reports:
            form, ids, x = part[k - 1]
            text = pats[ids[p - 1]]
            if what == 'known':
                hit = {n for n in listed if any('{%s}' % a in text.lower() for a in c.ucd.names['bin'][n])}
                if hit:
                    known |= hit
                    continue
            if (form, text) in seen:
                continue
            seen.add((form, text))
            c.violation(dict(part=label, pattern=text, form=form, code_point='U+%04X' % v[0], what='the code point is %s' % ('matched' if v[1] else 'not matched')))
    c.traces += len(built)
    c.calls += sum({'16': 0x10000, 'c': 0x100, '8': 0x10f800}.get(f, 0x110000) * len(ids) for f, ids, _ in built)
    c.part(label, patterns=len(pats), segments=sum(len(x['segs']) for _, _, x in built))
    for form, ids, x in built[:3]:
        s = c.rng.choice(x['segs'])
        c.samples.append(dict(part=label, form=form, first=s[0], last=s[1], matched_by=[pats[ids[n - 1]] for n in x['ons'][s[2] - 1]][:8]))
    return known


def C21(c):
    c.ucd = u = Ucd()
    r = c.rng
    c.model('UnicodeModel.tla', 'UnicodeModel.cfg', label='the laws of properties over all code points')
    name = lambda g=None: spell(r.choice(g or r.choice(u.groups)), r)
    one = lambda: r.choice(['\\p{%s}', '\\p{%s}', '\\P{%s}']) % name()
    if c.thorough:
        pats = ['\\p{%s}' % spell(a, r) for g in u.groups for a in g] + ['\\P{%s}' % name(g) for g in u.groups]
    else:
        pats = [r.choice(['\\p{%s}'] * 5 + ['\\P{%s}']) % name(g) for g in u.groups]
    sets = []
    for _ in range(c.n(60, 600)):
        n = r.randint(1, 3)
        sets.append('[%s%s]' % (r.choice(['', '^']), ''.join(one() for _ in range(n))))
    known = sweeps(c, uniq(pats), 'every property at every code point')
    known |= sweeps(c, uniq(sets), 'sets of properties')
    few = ['\\p{%s}' % name(g) for g in some([g for g in u.groups if '=' not in g[0]], r, c.n(10, 60)) + some([g for g in u.groups if '=' in g[0]], r, c.n(10, 60))] + sets[:c.n(4, 30)]
    known |= sweeps(c, uniq(few + ['\\P{any}', '\\p{age=3.1}', '\\P{script=latin}']), 'properties in subjects of other types', other=True)
    for w, text in core.findings(c.prop):
        if w['property'] in known:
            print('KNOWN-FINDING: property=%s %s' % (c.prop, text))
            c.known.append(w['property'])
    # names
    good = [a for g in u.groups for a in g]
    bad = []
    for _ in range(c.n(500, 6000)):
        n = r.choice(good)
        k = r.random()
        i = r.randrange(len(n))
        if k < 0.2:
            n = n[:i] + n[i + 1:]
        elif k < 0.4:
            n = n[:i] + r.choice('abz_019.=') + n[i:]
        elif k < 0.6:
            n = n[:i] + r.choice('abcxyz_01.') + n[i + 1:]
        elif k < 0.75:
            n = n + r.choice(good)[-2:]
        elif k < 0.9:
            n = r.choice(['script=', 'sc=', 'scx=', 'script_extension=', 'block=', 'age=', 'gc=', 'general_category=', 'blk=', 'is=', 'scripts=', 's=', '']) + n.split('=')[-1]
        else:
            n = n.replace('_', '') if '_' in n else n.replace('=', '')
        bad.append(spell(n, r))
    forms = ['\\p{%s}', '\\p{%s}', '\\P{%s}', '[\\p{%s}]', '[^a\\P{%s}]']
    texts = uniq([r.choice(forms) % x for x in bad + [spell(a, r) for a in some(good, r, c.n(160, 3000))]] +
                 [f % n for f in ('\\p{%s}', '\\P{%s}', '[\\P{%s}]') for n in ('foo', 'script=foo', 'foo=latin', 'scx=', 'age=', 'age=1', 'age=99.0', 'age=0.0', 'age=unassigned', 'block=foo', 'block=', '', '=', 'a=b=c', 'l_', '_l', 'lu lu', 'script_extensions=latn', 'script:latn', '^lu', 'Lu&', 'reject', 'script=Latin1')])
    syntax(c, texts, 'names of properties', unicode=True)
    # in the midst of other things
    b = Bag(r)
    def points(n):
        out = []
        for _ in range(n):
            s = r.choice(u.segs)
            out.append(r.choice([s[0], s[1]]))
        return [chr(x) for x in out if not 0xd800 <= x < 0xe000]
    wide = [g for g in u.groups if g[0] in ('l', 'lu', 'll', 'nd', 'p', 's', 'm', 'alpha', 'upper', 'any', 'ascii', 'z', 'cn', 'assigned', 'cased', 'idc', 'wspace', 'latn', 'grek', 'hani', 'zyyy', 'pd', 'ci')] + [['script=latin'], ['scx=grek'], ['block=ascii'], ['age=4.0'], ['age=1.1'], ['scx=deva']]
    SHAPES = ['A+B', '(A)(B)?', 'A*B', 'A|BA', '^A{2}B', '(?:A|B)*C', 'A*?B', 'A++B', '(A)\\1', '(?=A)B', '(?<!A)B', '(?<=A)B+', '(?!A)[^B]', '(A*)(B*)', '(?:AB)+', 'A{2,3}C', '(?>A*)B', 'A?+B', '(?<n>A+)\\g{n}', 'A+$', '(A|B)+?C', 'xA*y', 'A*x', '[^a-z]*A', 'A*[a-z]', '\\bA', 'A\\B', '(?i)aA', 'A*\\d', '\\w*A', 'A*.B', '(?:A?B)*']
    for k in range(c.n(130, 2500)):
        shape = SHAPES[k % len(SHAPES)]
        def atom():
            g = name(r.choice(wide) if r.random() < 0.7 else None)
            return r.choice(['\\p{%s}', '\\p{%s}', '\\P{%s}', '[\\p{%s}a-c]', '[^\\p{%s}x]', '[\\P{%s}0]', '[^\\P{%s}]', '[\\p{%s}\\p{nd}]', '[[:alpha:]\\p{%s}]']) % g
        p = shape
        for x in 'ABC':
            p = p.replace(x, '\x01' + x) if x in p and '\\' + x not in p else p
        for x in 'ABC':
            t = atom()
            p = p.replace('\x01' + x, t)
        al = points(7) + list('aA0x_- \u0391\u03b1\u4e00\u0300')
        subj = uniq([''.join(r.choice(al[:5] + al) for _ in range(r.randint(0, 6))) for _ in range(c.n(16, 30))])
        t = r.random()
        if '\\b' in p or '\\B' in p or '(?i)' in p:
            t = 0
        op = [(r.choice('ms'), 0), (r.choice('swatp'), 0)]
        if t < 0.6:
            b.add(p, op, subj, ct='char32_t')
        elif t < 0.8:
            from_u8 = [''.join(map(chr, s.encode('utf-8'))) for s in subj]
            b.add(p, op, from_u8, ct='char8_t', more=dict(u8=1))
        else:
            b.add(p, op, [''.join(x for x in s if ord(x) < 256) for s in subj] + ['\xe9\xc0', '\xb5\xaa1', '\xa0\xff'], ct='char')
    head = '#include <ctre-unicode.hpp>'
    c.conform(b.jobs, label='properties inside of patterns', head=head)
    c.conform(some(b.jobs, r, c.n(16, 200)), label='properties inside of patterns, clang', head=head, cxx=['clang++', '-O0', '-std=c++20', '-w', '-ftemplate-depth=2000', '-fconstexpr-steps=100000000'])


# two of the characters are special ones, other ones for every grammar
LL1_CHARS = ["'a'", "'b'", "'c'", None, None]
LL1_SPECIAL = ((0x78, 0x78, 0x7a, 0x7e, 0x7f), (0x80, 0xff, 0x100, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff))


def grammar(r):
    """nonterminals of alternatives of items ("t": characters 1..5, "n": nonterminal, "x": action)"""
    n = r.randint(1, 4)
    sets = [[1], [1], [2], [2], [3], [4], [5], [1, 2], [2, 3], [1, 2, 3], [1, 3], [1, 5], [2, 3, 4, 5], [1, 2, 3, 5], [1, 2, 3, 4, 5]]
    out = []
    for i in range(n):
        alts, free = [], [1, 2, 3, 4, 5]
        for k in range(r.randint(1, 3)):
            alt = []
            for j in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4]) if i else r.choice([1, 2, 2, 3])):
                x = r.random()
                # most alternatives begin with characters of their own
                if x < 0.45 or j == 0 and x < 0.65:
                    s = r.choice(sets)
                    if j == 0:
                        s = [v for v in s if v in free] or s
                        free = [v for v in free if v not in s]
                    alt.append(['t', s])
                elif x < 0.72:
                    alt.append(['n', r.randint(1, n)])
                else:
                    alt.append(['x', r.choice([1, 1, 2, 3, 4, 5])])
            alts.append(alt)
        out.append(alts)
    return out


def some_word(r, g, most=7):
    """a word of the grammar, perhaps"""
    out, stack, steps = [], [['n', 1]], 0
    while stack and len(out) < most and steps < 60:
        steps += 1
        x = stack.pop(0)
        if x[0] == 't':
            out.append(r.choice(x[1]))
        elif x[0] == 'n':
            stack = r.choice(g[x[1] - 1]) + stack
    return out


def spelled(r, chars, top):
    """characters 1..5 as a terminal of the engine; at the top of a rule or within it"""
    s = lambda vs: ', '.join(LL1_CHARS[v - 1] for v in vs)
    rest = [v for v in range(1, 6) if v not in chars]
    ways = ['ctll::set<%s>' % s(r.sample(chars, len(chars)))]
    if len(chars) == 1:
        ways += ['ctll::term<%s>' % s(chars)] * 3
    if not rest:
        ways += ['ctll::anything'] * 3
    else:
        ways += ['ctll::neg_set<%s>' % s(r.sample(rest, len(rest)))]
    for a, b in ([1, 2], [1, 3], [2, 3], [1, 1]):
        if chars == list(range(a, b + 1)):
            ways += ['ctll::range<%s, %s>' % (LL1_CHARS[a - 1], LL1_CHARS[b - 1])] * 2
    if chars == [1, 2, 3, 4]:
        ways.append("ctll::range<'a', %s>" % LL1_CHARS[3])
    if chars == [5]:
        ways.append('ctll::range<%s, %s>' % (LL1_CHARS[4], LL1_CHARS[4]))
    return r.choice(ways)


def grammar_cpp(r, name, g, table):
    """the table as the engine is given tables: a struct of rules"""
    nt = lambda k: 'n%d' % k
    out = ['struct %s {' % name]
    for k in range(len(g)):
        out.append('\tstruct n%d {};' % (k + 1))
    out.append('\tusing _start = n1;')
    for k, alts in enumerate(g):
        for j, alt in enumerate(alts):
            on = [c for c in range(6) if table[k][c] == j + 1]
            def production(first):
                items = [spelled(r, x[1], False) if x[0] == 't' else nt(x[1]) if x[0] == 'n' else 'act<%d>' % x[1] for x in alt]
                # the first character is known to be right
                if first and alt and alt[0][0] == 't':
                    if len(alt) == 1 and r.random() < 0.4:
                        return 'ctll::pop_input'
                    if r.random() < 0.6:
                        items[0] = 'ctll::anything'
                if not items:
                    return r.choice(['ctll::epsilon', 'ctll::epsilon', 'ctll::push<>'])
                return 'ctll::push<%s>' % ', '.join(items)
            if 0 in on:
                out.append('\tstatic constexpr auto rule(n%d, ctll::epsilon) -> %s;' % (k + 1, production(False)))
            on = [c for c in on if c]
            while on:
                part = on if r.random() < 0.6 else [on[0]]
                on = [c for c in on if c not in part]
                out.append('\tstatic constexpr auto rule(n%d, %s) -> %s;' % (k + 1, spelled(r, part, True), production(True)))
        no = [c for c in range(1, 6) if table[k][c] == 0]
        if no and r.random() < 0.3:
            out.append('\tstatic constexpr auto rule(n%d, %s) -> ctll::reject;' % (k + 1, spelled(r, no, True)))
    out.append('};')
    return '\n'.join(out)


def published_grammar():
    """spec/data/pcre.gram as nonterminals of alternatives of items, see GramTrace.tla; actions are left out"""
    import os, re
    sets, rules, order = {}, {}, ['S']
    def split(s, sep):
        out, cur, depth, i = [], '', 0, 0
        while i < len(s):
            if s[i] == '\\' and i + 1 < len(s):
                cur += s[i:i + 2]
                i += 2
                continue
            if s[i] in '<[{"' and not (s[i] == '"' and depth):
                depth += 1
            elif s[i] in '>]}"':
                depth -= 1
            if s[i] == sep and depth <= 0:
                out.append(cur)
                cur = ''
            else:
                cur += s[i]
            i += 1
        return out + [cur]
    plain = lambda x: x[1:] if len(x) == 2 and x[0] == '\\' else x
    for line in open(os.path.join(rec.VERIF, 'spec', 'data', 'pcre.gram')):
        line = line.strip()
        m = re.match(r'(\w+)=\{(.*)\}$', line)
        if m:
            body, vals, i = m.group(2), [], 0
            while i < len(body):
                n = 2 if body[i] == '\\' else 1
                vals.append(ord(plain(body[i:i + n])))
                assert i + n == len(body) or body[i + n] == ','
                i += n + 1
            sets[m.group(1)] = vals
            continue
        m = re.match(r'(\w+)\s*->(.*)$', line)
        if m and not line.startswith('#'):
            rules.setdefault(m.group(1), [])
            if m.group(1) not in order:
                order.append(m.group(1))
            rules[m.group(1)] += [[x.strip() for x in split(alt, ',')] for alt in split(m.group(2), '|')]
    nts, mentioned = [], set()
    for name in order:
        alts = []
        for alt in rules[name]:
            items = []
            for x in alt:
                if x == 'epsilon' or x.startswith('['):
                    continue
                if x == 'other':
                    items.append([2])
                elif x.startswith('<'):
                    items.append([1, order.index(x[1:-1]) + 1])
                elif x.startswith('"'):
                    items += [[0, ord(y)] for y in x[1:-1]]
                elif x in sets:
                    items.append([0] + sets[x])
                else:
                    assert len(plain(x)) == 1, x
                    items.append([0, ord(plain(x))])
            alts.append(items)
            for x in items:
                if x[0] == 0:
                    mentioned.update(x[1:])
        nts.append(alts)
    return dict(nts=nts, mentioned=sorted(mentioned))


def positions(c, texts, label):
    """texts read by the engine with the library's table, against the published grammar"""
    import json, os
    from concurrent.futures import ThreadPoolExecutor
    part = 400
    with rec.Scratch() as d:
        gf = os.path.join(d, 'gram.json')
        with open(gf, 'w') as f:
            json.dump(published_grammar(), f)
        units = [list(range(len(texts)))[k:k + part] for k in range(0, len(texts), part)]
        def one(u):
            src = os.path.join(d, 'p%d.cpp' % u)
            with open(src, 'w') as f:
                f.write('#include <ctre.hpp>\n#include <cstdio>\ntemplate <ctll::fixed_string P> void one(int id) { using out = typename ctll::parser<ctre::pcre, P>::template output<>; std::printf("{\\"id\\":%d,\\"c\\":%d,\\"p\\":%d}\\n", id, int(out::is_correct), int(out::position)); }\nint main() {\n')
                for k in units[u]:
                    f.write('\tone<%s>(%d);\n' % (rec.quote(rec.cps(texts[k]), 'U'), k))
                f.write('}\n')
            cxx = [['g++', '-std=c++20', '-O0', '-w'], ['clang++', '-std=c++20', '-O0', '-w', '-fbracket-depth=4000']][u % 8 == 7]
            ok, err = rec.compile_cpp(src, src[:-4], cxx=cxx)
            return (0, rec.run_exe(src[:-4])) if ok else (1, rec.err_lines(err))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, range(len(units))))
        recs = []
        for u, (bad, out) in enumerate(outs):
            if bad:
                c.violation(dict(part=label, what='the texts cannot be read', detail=out))
                continue
            for line in out[1].split('\n'):
                if line.startswith('{'):
                    x = json.loads(line)
                    recs.append(dict(x, w=rec.cps(texts[x['id']])))
        v = tla.validate(recs, 'GramTrace.tla', 'GramTrace.cfg', env={'GRAM': gf})
        if not v.ok or len(v.reports) != len(recs):
            raise core.InternalError('%s: %s' % (label, v.error or 'not every text was looked at'))
        by = {x['id']: x for x in recs}
        for kind, k, p, val in v.reports:
            if kind == 'disagree':
                raise core.InternalError('%s: Parser.tla and the published grammar do not agree on %r' % (label, texts[k]))
            if kind == 'differs':
                c.violation(dict(part=label, what='a text is not read as the published grammar says', text=texts[k], engine=dict(correct=by[k]['c'], position=by[k]['p']), specification=dict(correct=val, position=p)))
        c.states += v.distinct
        c.impl_states += v.distinct
        c.transitions += v.generated
        c.traces += len(recs)
        c.calls += len(recs)
        c.part(label, texts=len(recs), accepted=sum(x['c'] for x in recs))
        for x in c.rng.sample(recs, min(3, len(recs))):
            c.samples.append(dict(part=label, text=texts[x['id']], correct=x['c'], position=x['p']))


def C24(c):
    import json, os, itertools
    from concurrent.futures import ThreadPoolExecutor
    c.witnesses()
    r = c.rng
    gs = []
    while len(gs) < c.n(500, 3000):
        g = grammar(r)
        if g not in gs:
            gs.append(g)
    with rec.Scratch() as d:
        gf = os.path.join(d, 'grammars.json')
        with open(gf, 'w') as f:
            json.dump(gs, f)
        res = c.model('LL1Model.tla', None, env={'GRAMMARS': gf}, label='the machine and its grammars', cfgtext='SPECIFICATION Spec\nCONSTANTS NC = 5\nMaxN = %d\nMaxG = %d\nINVARIANTS Language FirstError Consumed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % (c.n(3, 4), c.n(60, 150)))
        tables = {i: v for kind, i, _, v in res.reports if kind == 'table'}
        c.part('the machine and its grammars', grammars=len(tables))
        if len(tables) < 20:
            raise core.InternalError('only %d of the grammars are LL(1)' % len(tables))
        ids = sorted(tables)[:c.n(120, 600)]
        units, runs = [], []
        for u in range(0, len(ids), 15):
            for cxx in (['g++', '-std=c++20', '-O0', '-w'], [['clang++', '-std=c++17', '-O0', '-w'], ['g++', '-std=c++17', '-O0', '-w'], ['clang++', '-std=c++20', '-O0', '-w']][u // 15 % 3]):
                text, body = ['#include "ll1.hpp"'], []
                for i in ids[u:u + 15]:
                    g = gs[i - 1]
                    words = [list(w) for n in range(2) for w in itertools.product(range(1, 6), repeat=n)]
                    while len(words) < c.n(34, 60):
                        w = some_word(r, g, r.choice([3, 5, 8]))
                        if r.random() < 0.5:
                            k = r.randint(0, len(w))
                            w = w[:k] + r.choice([[], [r.randint(1, 5)]]) + w[k + r.choice([0, 1]):]
                        words.append(w)
                    four, five = (r.choice(x) for x in LL1_SPECIAL)
                    LL1_CHARS[3:] = ["'\\x%x'" % four, "U'\\x%x'" % five]
                    text.append(grammar_cpp(r, 'g%d' % i, g, tables[i]))
                    for w in words:
                        lit = rec.quote([[0, 97, 98, 99, four, five][v] for v in w], 'U')
                        runs.append(dict(id=len(runs), g=i, w=w, four=four, five=five))
                        k = len(runs) - 1
                        sel = r.choice(['selector, true', 'full_selector, false', 'full_selector'])
                        text.append('static constexpr auto w%d = ctll::fixed_string{%s};' % (k, lit))
                        body.append('\trun<ctll::parser<g%d, w%d, %s>>(%d);' % (i, k, sel, k))
                src = os.path.join(d, 'u%d.cpp' % len(units))
                with open(src, 'w') as f:
                    f.write('\n'.join(text) + '\nint main() {\n' + '\n'.join(body) + '\n}\n')
                units.append((src, cxx))
        def one(x):
            src, cxx = x
            ok, err = rec.compile_cpp(src, src[:-4], cxx=cxx)
            return (0, rec.run_exe(src[:-4])) if ok else (1, rec.err_lines(err))
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, units))
        recs = []
        for (src, cxx), (bad, out) in zip(units, outs):
            if bad:
                c.violation(dict(part='grammars run by the engine', what='the grammars do not compile', compiler=cxx[:2], detail=out))
                continue
            for line in out[1].split('\n'):
                if line.startswith('{'):
                    x = json.loads(line)
                    run = runs[x['id']]
                    back = {0: 0, 97: 1, 98: 2, 99: 3, run['four']: 4, run['five']: 5}
                    recs.append(dict(run, c=x['c'], p=x['p'], x=[[a, back.get(v, v)] for a, v in x['x']]))
            if out[0] != 0:
                c.violation(dict(part='grammars run by the engine', what='the run ended with %d' % out[0], detail=out[2][:500]))
        v = tla.validate(recs, 'LL1Trace.tla', 'LL1Trace.cfg', env={'GRAMMARS': gf})
        done = [x for x in v.reports if x[0] in ('fine', 'differs')]
        if not v.ok or len(done) != len(recs):
            raise core.InternalError('runs of the engine: %s' % (v.error or 'not every run was looked at'))
        by = {x['id']: x for x in recs}
        for kind, k, p, val in done:
            if kind == 'differs':
                x = by[k]
                c.violation(dict(part='grammars run by the engine', what='the engine does not do what the grammar says', grammar=gs[x['g'] - 1], word=x['w'],
                                 engine=dict(correct=x['c'], position=x['p'], noted=x['x']), specification=dict(decision=val[0], position=p, noted=val[1])))
        c.states += v.distinct
        c.impl_states += v.distinct
        c.transitions += v.generated
        c.traces += len(recs)
        c.calls += len(recs)
        c.part('grammars run by the engine', grammars=len(ids), runs=len(recs), accepted=sum(x['c'] == 1 for x in recs))
        for x in r.sample(recs, min(4, len(recs))):
            c.samples.append(dict(part='grammars run by the engine', grammar=gs[x['g'] - 1], run=x))
    chars = [chr(i) for i in range(128)] + ['\x80', '\xe9', '\u0100', '\U0001f600']
    place = some([a + x + b for a, b in PLACES for x in chars], r, c.n(1500, 8000))
    words = uniq([''.join(r.choice(TOKENS) for _ in range(r.randint(1, 7))) for _ in range(c.n(800, 8000))])
    positions(c, uniq(place + words + mutations(r, c.n(500, 6000)) + ['']), 'texts read with the published grammar')


COMPOSED_HEAD = '''#include "forms.hpp"
// composing in a scope which has operators of its own
namespace elsewhere {
	struct own {};
	constexpr int operator|(own, own) { return 1; }
	constexpr int operator>>(own, own) { return 2; }
	template <typename A, typename B> constexpr auto either(A a, B b) { return a | b; }
	template <typename A, typename B> constexpr auto both(A a, B b) { return a >> b; }
}'''


def C25(c):
    """expressions composed with | and >>"""
    c.witnesses()
    r = c.rng
    law(c, 'compositions', ['Composes'], leaves=['a', '(b)', '$', '(?:a|ab)'], quants=['*', '??'], wraps=['('], sizes=(3, 3))
    leaves = ['a', 'b', 'ab', 'a*', 'b+', 'a?', 'a|b', 'a|ab', 'ab|a', '[ab]', '.', '^', '$', '^a', 'b$', '(?=a)', '(?!b)', '(?<=a)', '\\b', '(?>a*)', 'a*+', 'a*?', 'a{2}', 'a{1,2}?', '[^b]', '(?:a|)', 'aa|a', '']
    bag = Bag(r)
    bag.random(c.n(60, 1000), profiles(cap=0, bref=0, eps=2, look=1, **{'assert': 2}), [], size=(1, 5))
    leaves += [j.pat for j in bag.jobs if '(?i' not in j.pat and '(?m' not in j.pat and '(?s' not in j.pat and '(?c' not in j.pat and not groups(j.pat) and '\\g' not in j.pat]
    caps = ['(a)', '(a)|(b)', '(a)*', '(a)b?', '(?<n>a|ab)', '(a|b)\\1', '((a)b?)', '(a?)(b)?', '(?<x>b)\\g{x}', '(?=(a))']

    def build(k, cap):
        """text of a composition of k parts, C++ expression"""
        if k == 1:
            p = r.choice(caps) if cap else r.choice(leaves)
            return p, lit(p) + '_ctre'
        n = r.randint(1, k - 1)
        left = cap and r.random() < 0.5
        (a, x), (b, y) = build(n, cap and left), build(k - n, cap and not left)
        op = r.choice(['|', '>>'])
        e = '(%s %s %s)' % (x, op, y) if r.random() < 0.75 else 'elsewhere::%s(%s, %s)' % ({'|': 'either', '>>': 'both'}[op], x, y)
        return ('(?:%s)|(?:%s)' if op == '|' else '(?:%s)(?:%s)') % (a, b), e
    jobs = []
    for _ in range(c.n(220, 3000)):
        p, e = build(r.choice([2, 2, 2, 3, 3, 4]), r.random() < 0.4)
        subj = some(['', 'a', 'b', 'ab', 'ba', 'aa', 'bb', 'aab', 'aba', 'abb', 'bab', 'abab', 'aabb', 'a\nb', 'ac', 'cab', 'aaa', 'bba'], r, 12)
        code = ['using namespace ctre::literals;', 'static constexpr auto e = %s;' % e]
        for op in some('mswatp', r, 3):
            mode = r.choice([0, 0, 1])
            code.append('rec::spelled<rec::%s>("%s", %d, "composed", [](auto v) { return e.%s%s(v); }, s);' % ('Many' if op in 'atp' else 'Single', op, mode, 'multiline_' if mode else '', MEMBER[op]))
        jobs.append(Job(p, [(r.choice('mswa'), 0)], subj, code=code))
    c.conform(jobs, label='composed expressions', head=COMPOSED_HEAD)
    c.conform(some(jobs, r, c.n(30, 400)), label='composed expressions, clang', head=COMPOSED_HEAD, cxx=CLANG)


def C26(c):
    """the functions of the Unicode database"""
    import json, os
    u = Ucd()
    r = c.rng
    c.model('ValuesModel.tla', 'ValuesModel.cfg', label='numbers in order, walks over script extensions')
    have = lambda k: sorted({p[k] for p in u.profiles})
    two, scripts, blocks = have('gc'), sorted(set(have('sc')) | {s for p in u.profiles for s in p['scx']}), have('blk')
    cats = sorted(u.names['gc'])
    ages = [('unassigned', 'na')] + [('v' + a.replace('.', '_'), a) for a in u.ages]
    table = lambda t, names: 'std::string name_of(uni::%s v) {\n\tswitch (v) {\n%s\t\tdefault: return "?";\n\t}\n}\n' % (t, ''.join('\t\tcase uni::%s::%s: return "%s";\n' % (t, a, b) for a, b in names))
    same = lambda q: [(x, x) for x in q]
    asked = lambda t, f, names: 'std::string %s(char32_t c) {\n\tstd::string s;\n%s\treturn s;\n}\n' % (f, ''.join('\tif (uni::cp_%s_is<uni::%s::%s>(c)) s += s.empty() ? "\\"%s\\"" : ",\\"%s\\"";\n' % (t, t, x, x, x) for x in names))
    head = '#include "ucd.hpp"\n' + table('category', same(two)) + table('script', same(scripts)) + table('version', ages) + table('block', same(blocks)) + asked('category', 'categories_of', cats) + asked('script', 'scripts_of', scripts)
    # code points: where the segments of the reference begin and end, and above the last one
    edge = sorted({x for s in u.segs for x in s[:2]})
    many = [s for s in u.segs if len(u.profiles[s[2] - 1]['scx']) > 1]
    sets = {}
    for s in many:
        sets.setdefault(tuple(u.profiles[s[2] - 1]['scx']), []).append(s)
    walked = [r.choice(q)[0] for q in sets.values()] + [r.randint(s[0], s[1]) for s in some(many, r, c.n(60, 600))] + [r.choice(edge) for _ in range(c.n(60, 600))] + [0, 0x41, 0x300, 0x378, 0x10ffff, 0x110000]
    walks = [(x, ''.join(r.choice('de+p2') for _ in range(r.choice([4, 12, 40])))) for x in walked] + [(q[0][0], ops * 24) for q in sets.values() for ops in ('dp', 'd+', 'e+', 'p', '2')]
    above = sorted({0x110000 + x for x in some(edge, r, c.n(200, 2000))} | {(1 << k) + d for k in range(21, 31) for d in (-1, 0, 1, 65)} | {0x110000 * k for k in range(1, 40)} | {0x7fffffff})
    above = [x for x in above if x > 0x112fff]
    runs = [('at run time', list(rec.CXX[:1]) + ['-O2', '-std=c++20', '-w'], '\tSweep s;\n\ts.range(0, 0x10ffff);\n\ts.range(0x110000, 0x112fff);\n' + ''.join('\ts.range(%dul, %dul);\n' % (x, x) for x in above)
             + ''.join('\twalk(%d, %dul, "%s");\n' % (k + 1, x, ops) for k, (x, ops) in enumerate(walks))),
            ('as constants', ['clang++', '-O0', '-std=c++20', '-w', '-fconstexpr-steps=1000000000'],
             '\tSweep s;\n' + ''.join('\ts.constant<%d>();\n' % x for x in sorted(set(some(edge, r, c.n(150, 1500)) + [q[0][0] for q in some(list(sets.values()), r, c.n(40, 200))] + [0x110000, 0x11fffe, 0x7fffffff]))))]
    for label, cxx, body in runs:
        with rec.Scratch() as d:
            src, exe = os.path.join(d, 'u.cpp'), os.path.join(d, 'u')
            with open(src, 'w') as f:
                f.write(head + 'int main() {\n' + body + '}\n')
            ok, err = rec.compile_cpp(src, exe, cxx=cxx)
            if not ok:
                c.violation(dict(part=label, what='the calls do not compile', detail=rec.err_lines(err)))
                continue
            rc, out, err = rec.run_exe(exe)
            if rc != 0:
                c.violation(dict(part=label, what='the calls end with %d' % rc, detail=err[:300]))
                continue
        vals, segs, recs = [], [], []
        for line in out.split('\n'):
            if line.startswith('v '):
                vals.append(json.loads(line[2:]))
            elif line.startswith('s '):
                segs.append([int(x) for x in line.split()[1:]])
            elif line.startswith('w '):
                _, k, x, rest = line.split(' ', 3)
                order, ev = json.loads('[' + rest.replace('] [', '],[', 1) + ']')
                recs.append(dict(t='walk', c=int(x), order=order, ev=ev))
        part = max(1, -(-len(segs) // 6))
        recs += [dict(t='sweep', vals=vals, segs=segs[k:k + part]) for k in range(0, len(segs), part)]
        for k, x in enumerate(recs):
            x['id'] = k + 1
        # (what is above the last code point is never in one segment with what is below)
        v = tla.validate(recs, 'ValuesTrace.tla', 'ValuesTrace.cfg')
        want = sum(1 + len(x['segs'] if x['t'] == 'sweep' else x['ev']) for x in recs)
        if not v.ok or v.distinct != want:
            raise core.InternalError('%s: %s' % (label, v.error or 'looked at %d, not %d' % (v.distinct, want)))
        seen = set()
        for what, k, n, _ in v.reports:
            x = recs[k - 1]
            if (what, x['t']) in seen:
                continue
            seen.add((what, x['t']))
            if x['t'] == 'sweep':
                a = next(x['vals'][s[2] - 1] for s in x['segs'] if s[0] <= n <= s[1])
                c.violation(dict(part=label, code_point='U+%04X' % n, what='the answer is wrong: %s' % what, answer=a))
            else:
                c.violation(dict(part=label, code_point='U+%04X' % x['c'], what='a walk over script extensions: %s' % what, scripts=x['order'], walk=x['ev'][:max(n, 1)]))
        c.states += v.distinct
        c.impl_states += v.distinct
        c.transitions += v.generated
        c.traces += len(recs)
        c.calls += sum(s[1] - s[0] + 1 for s in segs) * (9 + len(cats) + len(scripts)) + sum(len(x['ev']) for x in recs if x['t'] == 'walk')
        c.part(label, code_points=sum(s[1] - s[0] + 1 for s in segs), segments=len(segs), answers=len(vals), walks=sum(x['t'] == 'walk' for x in recs))
        s = r.choice(segs)
        c.samples.append(dict(part=label, first=s[0], last=s[1], answer=vals[s[2] - 1]))
