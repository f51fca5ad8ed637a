"""C30: custom VTN handlers are called with, and answered by, what they return."""
import asyncio
from pbt import clock, env, gen, messages, overlap, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'at least two handler results of different kinds with content, or a result that is returned again; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['handlers return well-formed events and messages', 'handlers are functions or coroutine functions']
T0 = 1600000000 * 1000000
VENS = ['ven0', 'Ven-1', 'ven 2']
KINDS = ['oadrResponse', 'oadrCreateReport', 'oadrRegisterReport', 'oadrCancelReport', 'oadrUpdateReport', 'oadrCancelPartyRegistration', 'oadrRequestReregistration', 'oadrDistributeEvent']


def unique(es):
    return [dict(e, event_id='%s-%d' % (e['event_id'], i)) for i, e in enumerate(es)]


def build(r):
    """The Python value that the handler returns."""
    k = r['kind']
    if k in ('none', 'raise'):
        return None
    if k in ('event', 'list'):
        es = [messages.event_kwargs(e, how) for e, how in zip(unique(r['events']), r['hows'])]
        return es[0] if k == 'event' else es
    t = messages.TYPES[r['type']]
    p = {a: b for a, b in t.kwargs(r['spec']).items() if a not in r['drop']}
    return r['type'], p


def no_current(e):
    """Without what follows from the clock."""
    return messages.clean(dict(e, status=None, created=None, signals=[dict(s, current=None if s['name'] == 'SIMPLE' else s.get('current')) for s in e['signals']]))


def expect_reply(msg, r, ven, vtn_id, what, clocked=False):
    eq(wire_vtn(msg), vtn_id if wire_vtn(msg) is not None else None, 'the vtnID in ' + what)
    k = r['kind']
    if k == 'none':
        eq(msg.type, 'oadrResponse', 'the type of the ' + what)
        eq(msg.text('ei:eiResponse/ei:responseCode'), '200', 'the code of the ' + what)
        eq(msg.text('ei:venID'), ven, 'the venID of the ' + what)
        return
    if k in ('event', 'list'):
        eq(msg.type, 'oadrDistributeEvent', 'the type of the ' + what)
        want = [messages.clean(messages.event_expect(e, how)) for e, how in zip(unique(r['events']), r['hows'])][:1 if k == 'event' else None]
        got = [messages.clean(messages.event_read(n)) for n in msg.all('oadr:oadrEvent')]
        if clocked:     # on_request_event: ordered, with the status of the moment
            key = lambda e: ((0, e.get('priority') or 1000, e['start']) if e['status'] == 'active' else (1, 0, e['start']))
            eq([key(e) for e in got], sorted(key(e) for e in got), 'the order of the events in the ' + what)
            want, got = ([no_current(e) for e in sorted(x, key=lambda e: e['event_id'])] for x in (want, got))
        eq(got, want, 'the events in the ' + what)
        return
    eq(msg.type, r['type'], 'the type of the ' + what)
    t = messages.TYPES[r['type']]
    want, got = t.want(r['spec']), messages.clean(t.read(msg))
    if 'vtn_id' in want:
        want['vtn_id'] = vtn_id
    for m in set(r['drop']) | {m for m, v in r['spec'].items() if v is None}:
        if m not in r['spec']:
            continue
        if m == 'ven_id':
            want[m] = ven
        elif m == 'request_id':
            check(got.get(m), 'there is no request id in the ' + what)
            want[m] = got[m]
        elif m == 'response':
            eq((got.get(m) or {}).get('response_code'), 200, 'the response code in the ' + what)
            want[m] = got[m]
    if 'response' in got and 'response' not in want:
        eq(got.pop('response')['response_code'], 200, 'the response code in the ' + what)
    eq(got, want, 'the ' + what)


def wire_vtn(msg):
    return msg.text('ei:vtnID') if msg.type == 'oadrDistributeEvent' else None


async def play(case, info):
    log, current = [], {}
    made = {}       # index of the operation -> the value that was returned

    def make(name):
        def sync(*args, **kw):
            log.append((name, args, kw))
            if current.get('raise'):
                raise RuntimeError('injected')
            return current.get(name)

        async def coro(*args, **kw):
            await asyncio.sleep(0)
            return sync(*args, **kw)
        return coro if case['coro'][name] else sync
    kinds = set()
    again = False
    with clock.virtual(T0) as now:
        async with env.VTN(vtn_id=case['vtn_id']) as vtn:
            s = vtn.server
            for name in case['order']:
                s.add_handler(name, make(name))
            for i, op in enumerate(case['ops']):
                kind, ven = op['op'], VENS[op['ven']]
                now.advance(op['wait'])
                log.clear()
                current.clear()
                what = 'reply to the %s of operation %d' % (kind, i)
                if kind == 'add_event':
                    got = s.add_event(ven, 'SIMPLE', 'level', [dict(dtstart=clock.at(T0 + 10**9), duration=clock.secs(60), signal_payload=1)], event_id='added')
                    eq(got, None, 'the result of add_event with a custom on_poll handler')
                    check(not any(s.events.values()) and not any(s.events_updated.values()), 'add_event queued an event although there is a custom on_poll handler')
                    continue
                if kind == 'created':
                    xml = wire.created_event(ven, [dict(event_id=e, modification_number=n, opt_type=o, code=200, request_id='q') for e, n, o in op['responses']], 'q')
                    current['raise'] = False
                    r = await vtn.ask('EiEvent', xml)
                    eq([(n, kw) for n, _, kw in log], [('on_created_event', dict(ven_id=ven, event_id=e, opt_type=o)) for e, _, o in op['responses']] if 'on_created_event' in case['order'] else [],
                       'the handler calls for the event responses of operation %d' % i)
                    eq(r.type, 'oadrResponse', 'the type of the ' + what)
                    kinds.add('created')
                    continue
                name = dict(poll='on_poll', request='on_request_event')[kind]
                r = op['result']
                if kind == 'request' and r['kind'] == 'message':
                    r = dict(r, kind='none')
                back = op['again']
                if back in made and made[back][0] == kind:
                    r, value = made[back][1:]
                    again = True
                else:
                    value = build(r)
                    made[i] = (kind, r, value)
                current[name] = value
                current['raise'] = r['kind'] == 'raise'
                if kind == 'poll':
                    reply = await vtn.post('OadrPoll', wire.poll(ven))
                else:
                    reply = await vtn.post('EiEvent', wire.request_event(ven, 'q'))
                if name in case['order']:
                    eq([(n, kw) for n, _, kw in log], [(name, dict(ven_id=ven))], 'the handler calls for the %s of operation %d' % (kind, i))
                else:
                    eq(log, [], 'the handler calls for the %s of operation %d' % (kind, i))
                    r = dict(r, kind='none')
                if r['kind'] == 'raise':
                    continue
                eq(reply.status, 200, 'the HTTP status of the ' + what)
                expect_reply(reply.msg, r, ven, case['vtn_id'], what, clocked=kind == 'request')
                kinds.add(r.get('type') if r['kind'] == 'message' else r['kind'])
                info.tag(kind + ':' + (r['type'] if r['kind'] == 'message' else r['kind']))
    info.nontrivial(again or len(kinds - {'none', 'raise'}) > 1)
    if again:
        info.tag('again')


def run(case, info):
    env.run(play(case, info))


EV = messages.event_spec()
HOW = st.sampled_from(messages.HOW)
RESULT = st.one_of(
    st.just(dict(kind='none')), st.sampled_from([dict(kind='raise'), dict(kind='none')]),
    rec(kind=st.just('event'), events=st.lists(EV, min_size=1, max_size=1), hows=st.lists(HOW, min_size=1, max_size=1)),
    rec(kind=st.just('list'), events=st.lists(EV, max_size=3), hows=st.lists(HOW, min_size=3, max_size=3)),
    *[rec(kind=st.just('message'), type=st.just(t), spec=messages.TYPES[t].strategy, drop=st.lists(st.sampled_from(['ven_id', 'request_id', 'response']), max_size=3, unique=True))
      for t in KINDS])
RESPONSES = st.lists(st.tuples(gen.ident(), st.integers(0, 9), st.sampled_from(['optIn', 'optOut'])).map(list), max_size=3)


def op(kind, result=st.none(), responses=st.none()):
    return rec(op=st.just(kind), ven=st.integers(0, 2), wait=st.sampled_from([0, 0, 5, 3600]), result=result, again=st.one_of(st.none(), st.integers(0, 5)), responses=responses)


POLL, REQUEST, CREATED = op('poll', RESULT), op('request', RESULT), op('created', responses=RESPONSES)
OP = st.one_of(POLL, POLL, POLL, REQUEST, REQUEST, CREATED, op('add_event'))
NAMES = ['on_poll', 'on_created_event', 'on_request_event']
CASE = rec(vtn_id=gen.ident(), coro=rec(**{n: st.booleans() for n in NAMES}), order=st.sampled_from([NAMES, NAMES, NAMES[::-1], NAMES[:2], NAMES[:1], ['on_request_event', 'on_poll']]), ops=st.lists(OP, min_size=1, max_size=8))
SUITES = [Suite("handlers", CASE, run, 2000, 20000),
          Suite('overlapping', overlap.strategy(['poll', 'request', 'created'], modes=['custom']), overlap.run, 900, 18000)]
