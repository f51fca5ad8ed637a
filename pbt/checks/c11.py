"""C11: the VTN's event queue."""
from pbt import env, overlap, vtnqueue
from pbt.runner import Suite

RULE = 'a history with at least two distributions of events and a cancellation or completed event in between; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['event ids are unique per VEN; different VENs may have events with the same id', 'the VTN runs without ven_lookup (see C08)']


def run(case, info):
    w = vtnqueue.World(case, ['queue'], info)
    env.run(w.run())
    info.nontrivial(info.tags.count('distributed') > 1 and (any(w.completed.values()) or any(w.gone.values()) or any(o['op'] == 'cancel' for o in case['ops'])))


SUITES = [Suite('queue', vtnqueue.strategy(False), run, 5000), Suite('volume', vtnqueue.volume(False), run, 90, 480),
          Suite('overlapping', overlap.strategy(['poll', 'request', 'created'], modes=['internal']), overlap.run, 600, 12000)]
