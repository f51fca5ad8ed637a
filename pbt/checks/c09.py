"""C09: the order of distributed events."""
import copy
from dataclasses import asdict
from pbt import clock, gen, events, env, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'at least three events, of which at least two are active and the given order differs from the required one, or a tie'
NOW = events.T0 * 1000000


def key(s, now):
    status = events.status_at(s, now, cancelled=s['status'] == 'cancelled')
    prio = s['priority'] if s['priority'] not in ('absent', None, 0) else 10 ** 9
    return (0, prio, s['start']) if status == 'active' else (1, 0, s['start'])


def plain(event, kind):
    d = copy.deepcopy(event) if kind == 'dict' else asdict(event)
    d['event_descriptor'].pop('event_status')
    d['event_descriptor'].pop('created_date_time')
    return d


def order(case, info):
    from openleadr import utils
    specs = case['events']
    now = NOW + case['offset'] * 1000000
    with clock.virtual(NOW):
        objs = [(events.as_dict if k == 'dict' else events.as_object)(s) for s, k in zip(specs, case['kinds'])]
    kinds = case['kinds']
    before = [plain(o, k) for o, k in zip(objs, kinds)]
    created = [utils.getmember(o, 'event_descriptor.created_date_time') for o in objs]
    want = sorted(range(len(specs)), key=lambda i: key(specs[i], now))      # stable
    active = [s for s in specs if key(s, now)[0] == 0]
    info.nontrivial(len(specs) > 2 and len(active) > 1 and want != list(range(len(specs))))
    info.tag('active%d' % min(len(active), 4))
    single = case['single'] and len(objs) == 1
    arg = objs[0] if single else list(objs)
    if single:
        info.tag('single')
    with clock.virtual(now):
        got = utils.order_events(arg)
    check(isinstance(got, (list, tuple)), 'order_events did not return a list', got)
    index = [next((i for i, o in enumerate(objs) if o is g), None) for g in got]
    eq(index, want, 'the events are not in the OpenADR order')
    for i, (o, k) in enumerate(zip(objs, kinds)):
        eq(plain(o, k), before[i], 'event %d was altered' % i)
        status = utils.getmember(o, 'event_descriptor.event_status')
        eq(status, events.status_at(specs[i], now, cancelled=specs[i]['status'] == 'cancelled'), 'status of event %d' % i)
        if status == specs[i]['status']:
            eq(utils.getmember(o, 'event_descriptor.created_date_time'), created[i], 'creation time of event %d' % i)


def wire_order(case, info):
    """The order in which a real server distributes the events of its queue."""
    specs = case['events']
    for i, s in enumerate(specs):
        s['event_id'] = 'e%d' % i
        if s['status'] == 'cancelled':
            s['status'] = 'far'

    async def go():
        async with env.VTN() as vtn:
            for s, k in zip(specs, case['kinds']):
                vtn.server.add_raw_event('ven', (events.as_dict if k == 'dict' else events.as_object)(s))
            for now in [NOW + o * 1000000 for o in case['offsets']]:
                clock.Clock.now_us = now
                msg = await vtn.request_event('ven')
                left = [i for i in range(len(specs)) if i not in done]
                want = sorted(left, key=lambda i: key(specs[i], now))
                got = [e['event_id'] for e in wire.read_events(msg)]
                eq(got, ['e%d' % i for i in want], 'order of the distributed events')
                done.update(i for i in left if events.status_at(specs[i], now) == 'completed')
                act = [i for i in left if events.status_at(specs[i], now) == 'active']
                info.nontrivial(len(left) > 2 and len(act) > 1 and want != left)
    done = set()
    with clock.virtual(NOW):
        env.run(go())


kind = st.sampled_from(['dict', 'object'])


def with_kinds(lists):
    return lists.flatmap(lambda l: st.lists(kind, min_size=len(l), max_size=len(l)).map(lambda k: (l, k)))


many = st.lists(events.spec(start=st.one_of(st.sampled_from([-600, -300, -1, 0, 1, 300]), st.integers(-4000, 4000))), max_size=8)
def bulk(case, n):
    """Many events, with many different start times."""
    evs = gen.cycle(case['events'], n, lambda s, k: dict(s, start=(k * 7919 + s['start']) % 8001 - 4000, duration=[600, 3600, 7200][k % 3]))
    return dict(case, events=evs, kinds=gen.cycle(case['kinds'], n))


some = st.lists(events.spec(start=st.integers(-4000, 4000)), min_size=2, max_size=7)
SUITES = [
    Suite('order', st.builds(lambda lk, o, s: dict(events=lk[0], kinds=lk[1], offset=o, single=s), with_kinds(many),
                             st.one_of(st.just(0), st.integers(-4000, 4000)), st.booleans()), order, 16000),
    Suite('distribute', st.builds(lambda lk, o: dict(events=lk[0], kinds=lk[1], offsets=o), with_kinds(many),
                                  st.lists(st.integers(0, 2000), min_size=1, max_size=3).map(sorted)), wire_order, 1600),
    Suite('volume', st.builds(lambda lk, o, n: bulk(dict(events=lk[0], kinds=lk[1], offset=o, single=False), n), with_kinds(some), st.integers(-4000, 4000), gen.SIZES), order, 400),
    Suite('distribute volume', st.builds(lambda lk, o, n: bulk(dict(events=lk[0], kinds=lk[1], offsets=o), n), with_kinds(some),
                                         st.lists(st.integers(0, 2000), min_size=1, max_size=2).map(sorted), gen.SIZES), wire_order, 40, 400),
]
