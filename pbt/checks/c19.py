"""C19: the VEN reports every collected sample exactly once."""
from pbt import venoverlap, venreports
from pbt.runner import Suite

RULE = 'at least three values are sent; for overlapping: two callbacks waited at once'
ASSUMPTIONS = ['sampling intervals are those for which a regular schedule exists', 'one callback is not in use for two requests with the same firing times and different content']


def samples(case, info):
    w = venreports.run(case, info)
    info.nontrivial(w.sent >= 3)


KW = dict(good=20, wide=True, weights=(2, 3, 1, 1, 0), initial=(1, 3), ticks=6)
SUITES = [Suite('samples', venreports.strategy(**KW), samples, 2000), Suite('volume', venreports.volume(**KW), samples, 80, 480),
          Suite('overlapping', venoverlap.CASE, venoverlap.run, 700, 6000)]
