"""dbg.py CXX n [seed] [suite]: search in one process; prints the first failure (not shrunk) and the tags."""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from pbt import runner
MOD = runner.load(sys.argv[1])
from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, Verbosity
mod = MOD
n, seed = int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 0
for s in mod.SUITES:
    if len(sys.argv) > 4 and s.name != sys.argv[4]:
        continue
    tags, nt, bad, slow = {}, [0, 0], [], [0, None]

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate], verbosity=Verbosity.quiet)
    @given(s.strategy)
    def test(case):
        if bad:
            return
        t = time.time()
        try:
            info = runner.execute(s, case)
        except BaseException as e:
            bad.append((case, runner.describe(e), traceback.format_exc()))
            return
        t = time.time() - t
        if t > slow[0]:
            slow[:] = [t, case]
        nt[0] += 1
        nt[1] += info.is_nontrivial
        for x in set(info.tags):
            tags[x] = tags.get(x, 0) + 1
    t = time.time()
    test()
    print(s.name, 'cases %d nontrivial %d' % tuple(nt), '%.1f s, slowest %.2f s' % (time.time() - t, slow[0]), json.dumps(tags, indent=0, sort_keys=True, ensure_ascii=False).replace('\n', ' '))
    if bad:
        m = bad[0][2]; print(m if len(m) < 3500 else m[:1000] + "\n ...\n" + m[-2500:])
        print(json.dumps(bad[0][0], ensure_ascii=False))
        json.dump(dict(suite=s.name, case=bad[0][0]), open('/tmp/w/case.json', 'w'))
