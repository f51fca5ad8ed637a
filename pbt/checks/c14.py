"""C14: the VEN opts out of exactly the events that its handler failed on."""
from pbt import env, venevents
from pbt.runner import Suite

RULE = 'a history in which a handler fails on at least one event and at least one version is repeated or changed'
ASSUMPTIONS = ['handlers fail by raising an Exception or by returning something else than optIn and optOut',
               'versions of an event are distinguished by their modification number: the same number means the same content']


def run(case, info):
    w = venevents.World(case, info)
    env.run(w.run())
    info.nontrivial(w.stats['faults'] and (w.stats['repeats'] or w.stats['updates']))
    info.tag('faults %d' % min(w.stats['faults'], 4))


SUITES = [Suite('failing', venevents.strategy(faults=True), run, 5000), Suite('volume', venevents.volume(faults=True), run, 80, 400)]
