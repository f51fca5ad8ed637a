"""
Mutation testing of the checks themselves (a development tool; no registered command uses it).
  mutate.py lines              which lines of openleadr each check executes -> /tmp/w/mut/lines.json
  mutate.py list [file...]     the mutants -> /tmp/w/mut/mutants.json
  mutate.py run [from [to]]    run the relevant checks on every mutant -> /tmp/w/mut/results.jsonl
  mutate.py again FILE:LINE[:kind] CXX,CXX [share]   run these checks at their full numbers on the mutants of a line
  mutate.py one DIR CXX,CXX    (internal) run checks in this process against the copy in DIR
"""
import ast
import concurrent.futures
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = '/tmp/w/mut'
PY = '/opt/venv/bin/python'
FILES = ['client.py', 'server.py', 'messaging.py', 'utils.py', 'preflight.py', 'objects.py', 'enums.py', 'errors.py', 'hooks.py', 'fingerprint.py'] + \
        ['service/%s' % f for f in ('__init__.py', 'event_service.py', 'poll_service.py', 'registration_service.py', 'report_service.py', 'vtn_service.py', 'opt_service.py', 'decorators.py')]


def checks():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(ROOT + '/pbt/checks/c[0-9]*.py'))


def search(mod, share, limit, each=None):
    """Run the suites of a module in this process. Returns the first failure message or None."""
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, Verbosity
    from pbt import runner
    for s in mod.SUITES:
        n = max(5, int(s.quick * share))
        bad, t0 = [], time.time()

        @hseed(1)
        @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate], verbosity=Verbosity.quiet)
        @given(s.strategy)
        def test(case):
            if bad or time.time() - t0 > limit:
                return
            try:
                runner.execute(s, case)
            except BaseException as e:
                try:
                    runner.execute(s, case)
                except BaseException as e2:
                    bad.append(runner.describe(e2))
        test()
        if bad:
            return '%s: %s' % (s.name, bad[0][:300])


def one(props, share, limit):
    sys.path.insert(0, ROOT)
    from pbt import runner
    for p in props.split(','):
        try:
            mod = runner.load(p)
            msg = search(mod, float(share), float(limit))
        except BaseException as e:
            msg = 'import: %r' % e
        if msg:
            sys.__stdout__.write('KILLED %s %s\n' % (p, msg.replace('\n', ' ')))
            sys.__stdout__.flush()
            os._exit(0)
    sys.__stdout__.write('SURVIVED\n')
    sys.__stdout__.flush()
    os._exit(0)


def trace(prop):
    sys.path.insert(0, ROOT)
    from pbt import runner
    hit = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'lines')
    base = os.path.join(runner.REPO, 'openleadr') + '/'

    def line(code, n):
        if code.co_filename.startswith(base):
            hit.add('%s:%d' % (code.co_filename[len(base):], n))
        return mon.DISABLE
    mod = runner.load(prop)
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    search(mod, 0.06, 15)
    sys.__stdout__.write(json.dumps(sorted(hit)))
    sys.__stdout__.flush()
    os._exit(0)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8')


def lines():
    os.makedirs(OUT, exist_ok=True)

    def go(p):
        r = subprocess.run([PY, '-W', 'ignore', __file__, 'trace', p], env=ENV, capture_output=True, text=True)
        return p, json.loads(r.stdout)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(go, checks()))
    json.dump(res, open(OUT + '/lines.json', 'w'))
    for p, v in res.items():
        print(p, len(v))


# ---- mutants

CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*'}


def is_log(node):
    src = ast.unparse(node)
    return src.startswith(('logger.', 'print(', 'warnings.', 'logging.'))


def mutants_of(path, rel):
    text = open(path).read()
    tree = ast.parse(text)
    starts = [0]
    for l in text.encode().split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)
    raw = text.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def add(n, new, kind, s=None):
        a, b = s or span(n)
        old = raw[a:b].decode()
        if old != new:
            out.append(dict(file=rel, line=n.lineno, a=a, b=b, old=old, new=new, kind=kind))

    def visit(n, skip):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.stmt) and isinstance(n, ast.Expr) and is_log(n):
            return
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'delete raise')
            return
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not skip:
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, 'return None', 'return None')
        elif isinstance(n, ast.Return):
            add(n, 'pass', 'delete return')
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '(%s %s %s)' % (ast.get_source_segment(text, n.left), CMP[type(n.ops[0])], ast.get_source_segment(text, n.comparators[0])), 'compare')
        if isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            add(n, '(' + (' %s ' % op).join('(%s)' % ast.get_source_segment(text, v) for v in n.values) + ')', 'boolop')
            for i, v in enumerate(n.values):
                rest = [w for w in n.values if w is not v]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o.join('(%s)' % ast.get_source_segment(text, w) for w in rest) + ')', 'drop operand')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, '(not (%s))' % ast.get_source_segment(text, n.test), 'negate')
        if isinstance(n, ast.If):
            add(n.test, 'True', 'always')
            add(n.test, 'False', 'never')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, '(%s %s %s)' % (ast.get_source_segment(text, n.left), BIN[type(n.op)], ast.get_source_segment(text, n.right)), 'arithmetic')
        if isinstance(n, ast.Constant) and not skip:
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'constant')
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), 'constant')
        if isinstance(n, ast.keyword) and n.arg:
            pass
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and c in n.decorator_list:
                continue
            if isinstance(c, ast.JoinedStr):
                continue
            visit(c, skip)
    visit(tree, False)
    return out


TEMPLATES = 'templates'


def template_mutants(path, rel):
    """Elements that are left out, and conditions that always or never hold."""
    import re
    raw = open(path, 'rb').read()
    out, pos = [], 0
    for no, l in enumerate(raw.split(b'\n'), 1):
        s = l.decode()
        if re.search(r'<[^/!].*\{\{.*</', s):
            out.append(dict(file=rel, line=no, a=pos, b=pos + len(l), old=s, new='', kind='leave out'))
        for m in re.finditer(r'\{% (el)?if (.*?) %\}', s):
            for new in ('false', 'true'):
                out.append(dict(file=rel, line=no, a=pos + len(s[:m.start(2)].encode()), b=pos + len(s[:m.end(2)].encode()), old=m.group(2), new=new, kind='condition'))
        for m in re.finditer(r'\|(\w+)(\([^)]*\))?', s):
            out.append(dict(file=rel, line=no, a=pos + len(s[:m.start()].encode()), b=pos + len(s[:m.end()].encode()), old=m.group(), new='', kind='filter'))
        pos += len(l) + 1
    return out


def listing(which):
    base = '/repo/openleadr/'
    cov = json.load(open(OUT + '/lines.json'))
    out = []
    for f in which or FILES + ['templates']:
        if f.startswith('templates'):
            paths = sorted(glob.glob(base + 'templates/**/*.xml', recursive=True)) if f == 'templates' else [base + f]
            for p in paths:
                ms = template_mutants(p, p[len(base):])
                for m in ms:
                    m['checks'] = ['C01', 'C02', 'C13', 'C18', 'C31', 'C22', 'C33', 'C19', 'C34', 'C07']
                out += ms
            continue
        if not os.path.exists(base + f):
            continue
        ms = mutants_of(base + f, f)
        for m in ms:
            key = '%s:%d' % (f, m['line'])
            # the most specific checks first
            m['checks'] = [p for _, p in sorted((len(v), p) for p, v in cov.items() if key in v)]
        out += ms
    json.dump(out, open(OUT + '/mutants.json', 'w'), indent=0)
    from collections import Counter
    print(len(out), Counter(m['file'] for m in out), 'uncovered', sum(not m['checks'] for m in out))


def run(lo, hi, share='0.06', limit='12', seed=0):
    ms = json.load(open(OUT + '/mutants.json'))
    order = list(range(len(ms)))
    random.Random(seed).shuffle(order)
    done = set()
    if os.path.exists(OUT + '/results.jsonl'):
        done = {(r['file'], r['a'], r['b'], r['new']) for r in map(json.loads, open(OUT + '/results.jsonl'))}
    out = open(OUT + '/results.jsonl', 'a')

    def go(i):
        m = ms[i]
        if (m['file'], m['a'], m['b'], m['new']) in done or not m['checks']:
            return
        d = '%s/copy%d' % (OUT, i)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs', 'build', '__pycache__', 'test'))
        try:
            p = '%s/openleadr/%s' % (d, m['file'])
            raw = open(p, 'rb').read()
            raw = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
            open(p, 'wb').write(raw)
            if p.endswith('.py'):
                try:
                    compile(raw, p, 'exec')
                except SyntaxError:
                    return
            t = time.time()
            try:
                r = subprocess.run([PY, '-W', 'ignore', __file__, 'one', ','.join(m['checks']), share, limit], env=dict(ENV, VERIF_REPO=d), capture_output=True, text=True, timeout=1500)
                res = (r.stdout.strip().splitlines() or ['DIED ' + r.stderr[-300:]])[-1]
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT'
            out.write(json.dumps(dict({k: m[k] for k in ('file', 'line', 'a', 'b', 'old', 'new', 'kind')}, res=res, t=round(time.time() - t))) + '\n')
            out.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(go, order[lo:hi]))


def again(where, props, share='1'):
    """The mutants of a line against the given checks."""
    f, line, kind = (where.split(':') + [''])[:3]
    for m in json.load(open(OUT + '/mutants.json')):
        if m['file'] != f or m['line'] != int(line) or kind not in m['kind']:
            continue
        d = '%s/again%d' % (OUT, os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'docs', 'build', '__pycache__', 'test'))
        p = '%s/openleadr/%s' % (d, f)
        raw = open(p, 'rb').read()
        raw = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        open(p, 'wb').write(raw)
        r = subprocess.run([PY, '-W', 'ignore', __file__, 'one', props, share, '300'], env=dict(ENV, VERIF_REPO=d), capture_output=True, text=True, timeout=1500)
        print(f, line, m['kind'], repr(m['old'][:60]), '->', repr(m['new'][:60]), (r.stdout.strip().splitlines() or ['DIED'])[-1][:200], flush=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'again':
        again(*a[1:])
    elif a[0] == 'one':
        one(*a[2 - 1:])
    elif a[0] == 'trace':
        trace(a[1])
    elif a[0] == 'lines':
        lines()
    elif a[0] == 'list':
        listing(a[1:])
    elif a[0] == 'run':
        run(int(a[1]) if len(a) > 1 else 0, int(a[2]) if len(a) > 2 else None)
