"""C32: the VEN forgets finished events, and only those."""
from pbt import env, venevents
from pbt.runner import Suite

RULE = 'a history in which the housekeeping removes at least one event while it keeps another, or a removed event is distributed again'
ASSUMPTIONS = ['versions of an event are distinguished by their modification number: the same number means the same content']


def run(case, info):
    w = venevents.World(case, info)
    env.run(w.run())
    info.nontrivial((w.stats['forgotten'] and w.held) or w.stats['again'])
    info.tag('forgotten %d' % min(w.stats['forgotten'], 3), 'again %d' % min(w.stats['again'], 3))


SUITES = [Suite('housekeeping', venevents.strategy(housekeeping=True), run, 5000), Suite('volume', venevents.volume(housekeeping=True), run, 80, 400)]
