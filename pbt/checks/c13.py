"""C13: the VEN processes each event version once."""
from pbt import env, venevents
from pbt.runner import Suite

RULE = 'a history with at least one repeated and one changed version of an event'
ASSUMPTIONS = ['versions of an event are distinguished by their modification number: the same number means the same content',
               'VTN ids contain a capital (the client treats others as invalid)']


def run(case, info):
    w = venevents.World(case, info)
    env.run(w.run())
    info.nontrivial(w.stats['repeats'] and w.stats['updates'])
    info.tag('repeats %d' % min(w.stats['repeats'], 3), 'updates %d' % min(w.stats['updates'], 3))


SUITES = [Suite('events', venevents.strategy(), run, 5000), Suite('volume', venevents.volume(), run, 90, 480)]
