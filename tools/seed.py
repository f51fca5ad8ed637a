"""
Planting bugs (development only, no check uses this).

  seed.py new ID < SPEC      make seeded/ID from a specification (see below)
  seed.py try ID [CXX ...]   in a scratch copy that is mounted over /repo in a namespace of its own: build, demo, stable tests, checks

SPEC: lines "property: CXX", "needs: ...", "breaks: ...", then blocks
@@@ file-in-openleadr / <<<< / old / ==== / new / >>>>, then "%%% demo.py" and the demonstration.
"""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'f65fe86'
DEMO = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
export PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def git(*a, **kw):
    return subprocess.check_output(['git', '-C', kw.pop('cwd', '/repo')] + list(a), text=True, **kw)


def new(id_, src):
    head, demo = src.split('%%% demo.py\n', 1)
    meta = {k: re.search(r'^%s: (.*)$' % k, head, re.M).group(1) for k in ('property', 'needs', 'breaks')}
    copy = '/tmp/w/seednew-%s' % id_
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', copy])
    n = 0
    for m in re.finditer(r'@@@ (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', head, re.S):
        f = '%s/openleadr/%s' % (copy, m.group(1))
        s = open(f).read()
        assert s.count(m.group(2)) == 1, (f, s.count(m.group(2)), m.group(2))
        open(f, 'w').write(s.replace(m.group(2), m.group(3)))
        n += 1
    assert n
    patch = git('diff', cwd=copy)
    # removed lines must come from the original repository
    for f in git('diff', '--name-only', cwd=copy).split():
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', git('diff', '-U0', f, cwd=copy), re.M):
            lo, cnt = int(m.group(1)), int(m.group(2) or 1)
            if not cnt:
                print('note: pure addition in', f, 'at', lo)
                continue
            for line in git('blame', '-s', '-L', '%d,+%d' % (lo, cnt), 'HEAD', '--', f, cwd=copy).splitlines():
                c = line.split()[0].lstrip('^')
                r = subprocess.call(['git', '-C', '/repo', 'merge-base', '--is-ancestor', c, BASE])
                assert r == 0, 'not an original line: ' + line
    shutil.rmtree(copy)
    d = os.path.join(ROOT, 'seeded', id_)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=meta['property'], needs=meta['needs'], what_it_breaks=meta['breaks']), open(d + '/meta.json', 'w'), indent=1)


def inside(copy, script, timeout=880):
    full = 'ip link set lo up; mount --bind %s /repo; cd /repo; %s' % (copy, script)
    p = subprocess.run(['unshare', '-Urnm', 'bash', '-c', full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


TESTS = r'''unset PYTHONPATH; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors --forked --timeout=15 -o timeout_func_only=true \
  --session-timeout=780 -o junit_family=xunit2 --junitxml=%s/junit.xml test >/dev/null 2>&1; /usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml'''


def attempt(id_, checks, tests=True):
    d = os.path.join(ROOT, 'seeded', id_)
    prop = json.load(open(d + '/meta.json'))['property']
    copy = '/tmp/w/seed-%s' % id_
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    out = []
    demo = 'rm -rf /tmp/w/demo-%s; cp -r %s /tmp/w/demo-%s; bash /tmp/w/demo-%s/demo.sh' % (id_, d, id_, id_)
    rc, o = inside(copy, demo)
    out.append('demo clean: %s%s' % (rc, '' if rc == 0 else ' BAD\n' + o[-1500:]))
    subprocess.check_call(['git', '-C', copy, 'apply', d + '/patch.diff'])
    rc, o = inside(copy, 'bash /opt/vp/build.sh')
    out.append('build: %s' % rc)
    rc, o = inside(copy, demo)
    out.append('demo patched: %s%s' % (rc, '' if rc else ' BAD') + ' ' + ' | '.join(o.strip().splitlines()[-1:])[:200])
    if tests:
        w = copy + '-w'
        os.makedirs(w, exist_ok=True)
        rc, o = inside(copy, TESTS % (w, w, w))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        import xml.etree.ElementTree as E
        ok = set()
        for c in E.parse(w + '/junit.xml').getroot().iter('testcase'):
            if not [x for x in c if x.tag in ('failure', 'error', 'skipped')]:
                ok.add('%s::%s' % (c.get('classname'), c.get('name')))
        lost = stable - ok
        out.append('stable tests: %s' % ('ok' if not lost else 'LOST %s' % sorted(lost)[:5]))
        shutil.rmtree(w)
    for c in checks or [prop]:
        rc, o = inside(copy, 'cd %s && VERIF_SEED=1 VERIF_TIER=quick ./run.sh %s' % (ROOT, c))
        lines = [x for x in o.strip().splitlines()]
        out.append('check %s: %s %s' % (c, {0: 'NOT CAUGHT', 1: 'caught'}.get(rc, 'ERROR %s' % rc), lines[-1] if rc != 1 else [x for x in lines if x.startswith(c)][:1]))
    shutil.rmtree(copy)
    shutil.rmtree('/tmp/w/demo-%s' % id_, ignore_errors=True)
    print('%s (%s)\n   ' % (id_, prop) + '\n   '.join(out), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        new(sys.argv[2], sys.stdin.read())
    else:
        attempt(sys.argv[2], [a for a in sys.argv[3:] if a != '--no-tests'], '--no-tests' not in sys.argv)
