"""C41: requests that overlap at a VTN are answered as if each were alone."""
from pbt import overlap
from pbt.runner import Suite

RULE = 'at least two requests waited in their handlers at the same time and the answers came in another order than the requests'
ASSUMPTIONS = ['handlers, callbacks and lookups are coroutine functions that wait']
SUITES = [Suite('overlapping', overlap.strategy(sorted(overlap.SERVICE)), overlap.run, 3000)]
