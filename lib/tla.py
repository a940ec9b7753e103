"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')


class Result:
    ok = False
    error = ''
    generated = 0
    distinct = 0
    reports = ()
    out = ''


def tlc(module, cfg, env=None, workers=8, timeout=600, xmx='8g', extra=()):
    r = Result()
    md = tempfile.mkdtemp(prefix='vf-tlc-')
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xss64m -Xmx%s -XX:+UseParallelGC -Djava.io.tmpdir=%s' % (xmx, md)
    try:
        p = subprocess.run(['tlc', '-workers', str(workers), '-config', cfg, '-metadir', md, '-nowarning', '-noGenerateSpecTE'] + list(extra) + [module],
                           cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        r.out = p.stdout
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        r.ok = p.returncode == 0 and 'No error has been found' in p.stdout
        if not r.ok:
            i = p.stdout.find('Error:')
            r.error = (p.stdout[i:i + 3000] if i >= 0 else p.stdout[-2000:] + p.stderr[-1000:])
        r.reports = parse_reports(p.stdout)
    except subprocess.TimeoutExpired:
        r.error = 'TLC did not end in %d s' % timeout
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r


# PrintT(<<"REPORT", kind, id, l, json>>) may be broken over lines
REPORT = re.compile(r'<<\s*"REPORT",\s*"(\w+)",\s*(-?\d+),\s*(-?\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)


def parse_reports(out):
    res = []
    for kind, i, l, js in REPORT.findall(out):
        js = js.replace('\\"', '"').replace('\\\\', '\\')
        try:
            v = json.loads(js)
        except ValueError:
            v = js
        res.append((kind, int(i), int(l), v))
    return res


def validate(recs, module='Trace.tla', cfg='Trace.cfg', timeout=800, env=None):
    """trace validation of records; returns Result; checks that all of them were looked at"""
    d = tempfile.mkdtemp(prefix='vf-tr-')
    try:
        f = os.path.join(d, 'trace.ndjson')
        with open(f, 'w') as o:
            for x in recs:
                o.write(json.dumps(x, separators=(',', ':')) + '\n')
        r = tlc(module, cfg, env=dict(env or {}, TRACE=f), timeout=timeout)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def accepted(texts):
    """what the specification says about texts as patterns: 0 rejected, 1 accepted, 2 accepted (known
    gap of lookbehinds), 3 accepted and needs the Unicode tables, 4 a property which does not exist,
    5 a property which need not be known"""
    if not texts:
        return []
    d = tempfile.mkdtemp(prefix='vf-ac-')
    try:
        f = os.path.join(d, 'texts.ndjson')
        with open(f, 'w') as o:
            for t in texts:
                o.write(json.dumps([ord(c) for c in t], separators=(',', ':')) + '\n')
        r = tlc('Accept.tla', 'Accept.cfg', env={'TEXTS': f})
        if not r.ok:
            raise RuntimeError('Accept: ' + r.error)
        out = [None] * len(texts)
        for _, i, l, _ in r.reports:
            out[i - 1] = l
        assert None not in out
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
