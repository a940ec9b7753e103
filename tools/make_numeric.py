#!/usr/bin/env python3
"""Authoring-time generator of spec/data/numeric.json: [code point, m, e, d], the numeric value
m * 10^e / d of the code points of Unicode 14.0 which have one.

Source: the Unicode Character Database of Python (15.0), an implementation which shares nothing with
include/unicode-db, without the code points which were assigned later.  No check runs this."""
import json
import os
import unicodedata
from fractions import Fraction

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'data')


def main():
    ucd = json.load(open(os.path.join(DATA, 'unicode.json')))
    out = []
    for first, last, k in ucd['segs']:
        if ucd['profiles'][k - 1]['age'] == 'na':
            continue
        for c in range(first, last + 1):
            v = unicodedata.numeric(chr(c), None)
            if v is None:
                continue
            v = Fraction(v).limit_denominator(1000)
            m, e = v.numerator, 0
            while m and m % 10 == 0:
                m //= 10
                e += 1
            out.append([c, m, e, v.denominator])
    with open(os.path.join(DATA, 'numeric.json'), 'w') as f:
        f.write('[' + ',\n'.join(json.dumps(x, separators=(',', ':')) for x in sorted(out)) + ']\n')


if __name__ == '__main__':
    main()
