"""C18: the VTN requests exactly the reports that its handler asked for."""
from pbt import overlap, vtnreports
from pbt.runner import Suite

RULE = 'a registration of several reports or data points of which at least one is requested; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['the members that the compact form of the handler gets (measurement, sampling rate) are present', 'data points are unique within a report',
               'when the data points of a report get different reporting intervals, any of them is accepted']


def requests(case, info):
    vtnreports.run(case, info, {'requests'})


SUITES = [Suite('register', vtnreports.strategy(False), requests, 3000), Suite('volume', vtnreports.volume(False), requests, 80, 480),
          Suite('overlapping', overlap.strategy(['register']), overlap.run, 600, 12000)]
