"""C20: report data reaches the callback that asked for it."""
from pbt import overlap, vtnreports
from pbt.runner import Suite

RULE = 'an update with at least two values for requested data points; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['a VEN uses the report request ids that were given to it', 'payloads are numbers (payloadFloat) with their own start time']


def values(case, info):
    vtnreports.run(case, info, {'values'})


SUITES = [Suite('updates', vtnreports.strategy(True), values, 2500), Suite('volume', vtnreports.volume(True), values, 80, 480),
          Suite('overlapping', overlap.strategy(['register', 'update', 'update'], outcomes=['ok']), overlap.run, 800, 12000)]
