"""C33: cancelling reports and registrations stops exactly those."""
from pbt import venoverlap, venreports
from pbt.runner import Suite

RULE = 'a report of at least two, or a registration with reports, is cancelled; for overlapping: two callbacks waited at once'
ASSUMPTIONS = ['a report that is to be followed may be sent once or twice after its cancellation']


def cancel(case, info):
    w = venreports.run(case, info)
    info.nontrivial(('cancelled' in info.tags or any(t.startswith('registration cancelled') for t in info.tags)) and w.serial > 1)


KW = dict(good=15, wide=True, weights=(3, 4, 4, 3, 1), initial=(1, 3), ticks=4)
SUITES = [Suite('cancellations', venreports.strategy(**KW), cancel, 2000), Suite('volume', venreports.volume(**KW), cancel, 70, 400),
          Suite('overlapping', venoverlap.CASE, venoverlap.run, 600, 6000)]
