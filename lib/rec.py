"""Recording: patterns and calls are compiled against the library's current sources and run; every
call's result is written down (harness/h.hpp)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

OPS = {'u': ('units', 'match'), 'm': ('one', 'match'), 's': ('one', 'search'), 'w': ('one', 'starts_with'),
       'a': ('many', 'search_all'), 't': ('many', 'tokenize'), 'p': ('many', 'split')}
MODS = {0: '', 1: ', ctre::multiline', 2: ', ctre::case_insensitive', 3: ', ctre::multiline, ctre::case_insensitive'}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def quote(units, prefix=''):
    """C++ literal; every unit printable or as an escape that cannot swallow the next character"""
    out = [prefix, '"']
    for u in units:
        if prefix == 'u8':
            # code units as they are
            out.append(chr(u) if chr(u).isalnum() and u < 127 else '\\%03o' % u)
            continue
        if u > 0xff:
            out.append('\\U%08x' % u if u > 0xffff else '\\u%04x' % u)
        elif 32 <= u < 127 and chr(u) not in '"\\?':
            out.append(chr(u))
        elif prefix and u > 127:
            out.append('\\u%04x' % u if u >= 0xa0 else '\\%03o' % u)
        else:
            out.append('\\%03o' % u)
    out.append('"')
    return ''.join(out)


def cps(s):
    return [ord(c) for c in s]


class Job:
    """one pattern with its calls. pat: text; ops: [(op, mode)]; subj: list of strings"""
    __slots__ = ('id', 'pat', 'ops', 'subj', 'kf', 'ct', 'code', 'more')

    def __init__(self, pat, ops, subj, kf=0, ct='char', code=(), more=None):
        """code: further C++ statements, P stands for the pattern, s for the subjects;
        more: further fields of the record"""
        self.id = 0
        self.pat, self.ops, self.subj, self.kf, self.ct, self.code, self.more = pat, ops, subj, kf, ct, code, more or {}

    def desc(self):
        d = dict(pattern=self.pat, ops=self.ops, subjects=self.subj, char=self.ct)
        if self.code:
            d['code'] = list(self.code)
        return d


PREFIX = {'char': '', 'char8_t': 'u8', 'char32_t': 'U', 'char16_t': 'u', 'wchar_t': 'L'}


def source(jobs, head=''):
    out = ['#include "h.hpp"', head, 'namespace {']
    tables = {}
    for j in jobs:
        t = tables.setdefault(j.ct, {})
        for s in j.subj:
            t.setdefault(s, len(t))
    for ct, t in tables.items():
        out.append('const std::basic_string_view<%s> S_%s[] = {' % (ct, ct))
        for s in t:
            out.append('\t{%s, %d},' % (quote(cps(s), PREFIX[ct]), len(s)))
        out.append('\t{}};')
    for n, j in enumerate(jobs):
        p = cps(j.pat)
        pre = 'U' if any(c > 255 for c in p) else ''
        out.append('constexpr ctll::fixed_string P%d = %s;' % (n, quote(p, pre)))
        out.append('const int I%d[] = {%s};' % (n, ','.join([str(tables[j.ct][s]) for s in j.subj] + ['0'])))
        out.append('void f%d() {' % n)
        out.append('\trec::begin(%d);' % j.id)
        out.append('\trec::subjects<%s> s{S_%s, I%d, %d};' % (j.ct, j.ct, n, len(j.subj)))
        for op, mode in j.ops:
            fn, name = OPS[op]
            out.append('\trec::%s("%s", %d, ctre::%s<P%d%s>, s);' % (fn, op, mode, name, n, MODS[mode]))
        for c in j.code:
            out.append('\t' + re.sub(r'\bP\b', 'P%d' % n, c))
        out.append('\trec::end();')
        out.append('}')
    out.append('using F = void (*)();')
    out.append('const F all[] = {%s};' % ', '.join('f%d' % n for n in range(len(jobs))))
    out.append('}')
    out.append('int main(int, char ** argv) { rec::setup(); for (size_t i = static_cast<size_t>(atoi(argv[1])); i < sizeof(all) / sizeof(all[0]); ++i) all[i](); }')
    return '\n'.join(out) + '\n'


CXX = ['g++', '-O0', '-std=c++20', '-w', '-ftemplate-depth=2000', '-Dalways_inline=unused', '-Dflatten=unused']


def compile_cpp(src, exe, flags=(), cxx=None, timeout=600):
    cmd = list(cxx or CXX) + list(flags) + ['-I' + REPO + '/include', '-I' + VERIF + '/harness', '-o', exe, src]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
        return r.returncode == 0, r.stderr
    except subprocess.TimeoutExpired:
        return False, 'the compiler did not end in %d s' % timeout


def run_exe(exe, args=(), timeout=300):
    try:
        r = subprocess.run([exe] + list(args), capture_output=True, timeout=timeout)
        return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b'').decode('utf-8', 'replace'), 'timeout'


class Failure:
    """a pattern whose calls could not be recorded"""
    def __init__(self, job, kind, detail):
        self.job, self.kind, self.detail = job, kind, detail


def run_unit(jobs, exe, failures, results):
    start = 0
    while start < len(jobs):
        rc, out, err = run_exe(exe, [str(start)])
        got = []
        crash = None
        for line in out.split('\n'):
            if not line.startswith('{'):
                continue
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if 'crash' in d:
                crash = d
            else:
                got.append(d)
        for d in got:
            results[d['id']] = d['ev']
        start += len(got)
        if start >= len(jobs):
            return
        j = jobs[start]
        if crash:
            what = 'does not end' if crash['crash'] == 'hang' else 'crashes'
            failures.append(Failure(j, crash['crash'], 'call %s (mode %d) on %r %s' % (crash['op'], crash['mode'], j.subj[crash['s']] if crash['s'] < len(j.subj) else '?', what)))
        else:
            failures.append(Failure(j, 'signal', 'process ended with %d: %s' % (rc, err[:300])))
        start += 1


def record(jobs, per_unit=None, flags=(), cxx=None, head=''):
    """returns (records, failures); records are dicts for the trace specification"""
    for i, j in enumerate(jobs):
        j.id = i + 1
    failures, results = [], {}
    if not jobs:
        return [], []
    if per_unit is None:
        per_unit = max(1, min(25, (len(jobs) + JOBS - 1) // JOBS))
    units = [jobs[i:i + per_unit] for i in range(0, len(jobs), per_unit)]
    with Scratch() as d:
        def one(arg):
            n, unit = arg
            src = os.path.join(d, 'u%s.cpp' % n)
            exe = os.path.join(d, 'u%s' % n)
            with open(src, 'w') as f:
                f.write(source(unit, head))
            ok, err = compile_cpp(src, exe, flags, cxx)
            if ok:
                run_unit(unit, exe, failures, results)
                os.unlink(exe)
            os.unlink(src)
            return None if ok else (n, unit, err)

        def split(bad):
            """find the patterns which do not compile"""
            todo = [(str(n), unit, err) for n, unit, err in bad]
            while todo:
                nxt = []
                for n, unit, err in todo:
                    if len(unit) == 1:
                        failures.append(Failure(unit[0], 'compile', err_lines(err)))
                    else:
                        k = max(1, len(unit) // 4)
                        nxt += [(n + '_%d' % i, unit[i:i + k]) for i in range(0, len(unit), k)]
                with ThreadPoolExecutor(JOBS) as ex:
                    todo = [r for r in ex.map(one, nxt) if r]
                if len(failures) > 12:
                    # enough is known, the remaining ones are not looked for
                    for n, unit, err in todo:
                        for j in unit:
                            failures.append(Failure(j, 'skipped', ''))
                    return
        with ThreadPoolExecutor(JOBS) as ex:
            bad = [r for r in ex.map(one, enumerate(units)) if r]
        split(bad)
    recs = []
    for j in jobs:
        if j.id in results:
            recs.append(dict(id=j.id, pat=cps(j.pat), acc=1, kf=j.kf, subj=[cps(s) for s in j.subj], ev=results[j.id], **j.more))
    return recs, failures


def err_lines(err):
    keep = [l for l in err.split('\n') if 'error' in l or 'static assertion' in l]
    return '\n'.join(keep[:4])[:800] or err[:400]


def parse_all(texts, unicode=False, chunk=120, cxx=None):
    """does the library's parser accept the texts? list of 1, 0 (rejected), 0 as well if the compiler
    stops at the text"""
    out = {}
    todo = [texts[i:i + chunk] for i in range(0, len(texts), chunk)]
    head = ('#include <%s.hpp>\n#include <cstdio>\nnamespace { template <ctll::fixed_string P> constexpr bool ok() {\n'
            '\treturn ctll::parser<ctre::pcre, P, ctre::pcre_actions>::template output<ctre::pcre_context<>>::is_correct; }\n'
            'constexpr bool r[] = {\n' % ('ctre-unicode' if unicode else 'ctre'))

    with Scratch() as d:
        def one(arg):
            n, part = arg
            src, exe = os.path.join(d, 'p%s.cpp' % n), os.path.join(d, 'p%s' % n)
            with open(src, 'w') as f:
                f.write(head + ''.join('\tok<%s>(),\n' % quote(cps(t), 'U' if any(ord(c) > 255 for c in t) else '') for t in part))
                f.write('};\n}\nint main() { for (bool b: r) putchar(b ? 49 : 48); }\n')
            ok, err = compile_cpp(src, exe, cxx=cxx)
            os.unlink(src)
            if ok:
                rc, o, _ = run_exe(exe)
                os.unlink(exe)
                if len(o) != len(part):
                    return arg
                for t, c in zip(part, o):
                    out[t] = int(c)
                return None
            if len(part) == 1:
                out[part[0]] = 0
                return None
            return arg
        with ThreadPoolExecutor(JOBS) as ex:
            work = list(enumerate(todo))
            k = len(work)
            while work:
                bad = [r for r in ex.map(one, work) if r]
                work = []
                for _, part in bad:
                    h = max(1, len(part) // 5)
                    for i in range(0, len(part), h):
                        work.append((k, part[i:i + h]))
                        k += 1
    return [out[t] for t in texts]
