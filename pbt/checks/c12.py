"""C12: response and delivery callbacks."""
from pbt import env, overlap, vtnqueue
from pbt.runner import Suite

RULE = 'a history in which at least two response callbacks are called, or one after a cancellation or a response to something else; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['event ids are unique per VEN; different VENs may have events with the same id', 'callbacks do not raise exceptions']


def run(case, info):
    w = vtnqueue.World(case, ['callbacks'], info)
    env.run(w.run())
    info.nontrivial(info.tags.count('callback') > 1 or ('callback' in info.tags and any(o['op'] == 'cancel' for o in case['ops'])))


SUITES = [Suite('callbacks', vtnqueue.strategy(True), run, 5000), Suite('volume', vtnqueue.volume(True), run, 90, 480),
          Suite('overlapping', overlap.strategy(['poll', 'request', 'created'], modes=['internal']), overlap.run, 800, 12000)]
