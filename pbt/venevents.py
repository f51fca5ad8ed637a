"""
A reference model of how the VEN treats distributed events, and the driver that runs a history against
both a real client and the model. Used for C13 (responses), C14 (failing handlers) and C32 (forgetting).
"""
import asyncio
from pbt import clock, env, events, gen, wire
from pbt.gen import st, rec
from pbt.runner import check, eq

T0 = events.T0 * 1000000
SEC = 10 ** 6


class HandlerError(Exception):
    pass


GARBAGE = {'none': None, 'lower': 'optin', 'upper': 'OPTIN', 'int': 1, 'true': True, 'empty': '', 'dict': {'opt_type': 'optIn'}, 'list': ['optIn'],
           'tuple': ('optIn',), 'bytes': b'optIn', 'space': 'optIn '}


def outcome(o):
    """What the handler does: returns (raises, value)"""
    if o in ('optIn', 'optOut'):
        return False, o
    if o.startswith('raise'):
        return True, {'raise': HandlerError('no'), 'raise key': KeyError('x'), 'raise value': ValueError(), 'raise assertion': AssertionError('a'),
                      'raise cancelled event': RuntimeError('é {} %s')}[o]
    return False, GARBAGE[o]


class World:
    def __init__(self, case, info):
        self.case, self.info = case, info
        self.content = {}       # (id, modification number) -> event content
        self.held = {}          # id -> (modification number, content)
        self.opts = {}          # id -> the result given before
        self.expected, self.calls = [], []
        self.plan = []
        self.stats = dict(repeats=0, updates=0, faults=0, forgotten=0, again=0)
        self.was_forgotten = set()

    def handler(self, name, is_async):
        def f(event):
            d = event['event_descriptor']
            self.calls.append((name, d['event_id'], d['modification_number'], clock.us(event['active_period']['dtstart']),
                               [float(i['signal_payload']) for i in event['event_signals'][0]['intervals']]))
            check(self.plan, 'a handler was called too often', self.calls)
            raises, value = outcome(self.plan.pop(0))
            if raises:
                raise value
            return value

        async def af(event):
            await asyncio.sleep(0)
            return f(event)
        return af if is_async else f

    def resolve(self, occ):
        """The content of an occurrence of an event; the same version always has the same content."""
        ids = self.case['ids']
        eid = ids[occ['event'] % len(ids)]
        cur = self.held.get(eid)
        last = max([m for (i, m) in self.content if i == eid], default=-1)
        how = occ['version']
        if cur is None or how == 'first':
            mod = last if last >= 0 and how != 'newer' else last + 1
        elif how == 'same':
            mod = cur[0]
        elif how == 'older':
            mod = max(0, cur[0] - 1)
        else:
            mod = last + occ['step']
        c = self.content.get((eid, mod))
        if c is None:
            c = self.content[(eid, mod)] = dict(occ['content'], event_id=eid, modification_number=mod)
        return eid, mod, c

    def wire_event(self, c):
        start = T0 + c['start'] * SEC
        d = c['duration']
        return dict(event_id=c['event_id'], modification_number=c['modification_number'], status=c['status'], created=T0, start=start, duration=d,
                    ramp_up=c['ramp_up'], market_context='http://c', response_required=c['response_required'], targets=[dict(ven_id='ven0')],
                    signals=[dict(name=n, intervals=[(start, d, c['value'])]) for n in c['signals']])

    def finished(self, c):
        return c['duration'] > 0 and clock.Clock.now_us >= T0 + (c['start'] + c['duration']) * SEC

    async def distribute(self, fake, ven, op):
        update_handler = self.case['update_handler']
        wired, responses, self.plan, planned = [], [], [], 0
        rid = op['request_id']
        for occ in op['events']:
            eid, mod, c = self.resolve(occ)
            if any(e['event_id'] == eid for e in wired) and not op['twice']:
                continue
            wired.append(self.wire_event(c))
            cur = self.held.get(eid)
            required = c['response_required'] == 'always'
            if cur is not None and cur[0] == mod:
                result = self.opts.get(eid)
                self.stats['repeats'] += 1
            else:
                name = 'on_event' if cur is None else 'on_update_event'
                if cur is None and eid in self.was_forgotten:
                    self.stats['again'] += 1
                if cur is not None:
                    self.stats['updates'] += 1
                if name == 'on_update_event' and not update_handler:
                    result = self.opts.get(eid)
                else:
                    self.expected.append((name, eid, mod, T0 + c['start'] * SEC, [float(c['value'])]))
                    self.plan.append(occ['outcome'])
                    raises, result = outcome(occ['outcome'])
                    if raises:
                        result = 'optOut'
                    if raises or result not in ('optIn', 'optOut'):
                        self.stats['faults'] += 1
                self.held.pop(eid, None)
                self.held[eid] = (mod, c)
            if not (isinstance(result, str) and result in ('optIn', 'optOut')) and required:
                result = 'optOut'
            self.opts[eid] = result
            if required and not self.finished(c):
                code = 200 if all(not n.startswith('x-') for n in c['signals']) else 460
                responses.append(dict(event_id=eid, modification_number=mod, opt_type=result, code=code, request_id=rid))
        if not wired:
            return
        reply = wire.distribute_event(wired, self.case['vtn_id'], rid)
        what = 'a distribution of %s' % [(e['event_id'], e['modification_number'], e['response_required']) for e in wired]
        if op['via'] == 'poll':
            fake.polls.append(reply)
            await ven.poll()
        else:
            fake.replies['oadrRequestEvent'] = [reply]
            await ven.client.sync_events()
        got = fake.take()
        created = [m for m in got if m.type == 'oadrCreatedEvent']
        eq([m.type for m in got], ['oadrPoll' if op['via'] == 'poll' else 'oadrRequestEvent'] + (['oadrCreatedEvent'] if responses else []),
           'the messages that the VEN sends for ' + what)
        eq(self.calls, self.expected, 'the handler calls for ' + what)
        if responses:
            m = created[0]
            eq(wire.read_event_responses(m), responses, 'the responses to ' + what)
            eq(m.text('pyld:eiCreatedEvent/ei:venID'), 'ven0', 'the venID of the response to ' + what)
            eq(m.text('pyld:eiCreatedEvent/ei:eiResponse/ei:responseCode'), '200', 'the response code for ' + what)
        self.calls.clear()
        self.expected.clear()

    def check_held(self, ven, what, status=False):
        got = [(e['event_descriptor']['event_id'], e['event_descriptor']['modification_number']) for e in ven.client.received_events]
        eq(sorted(got), sorted((i, m) for i, (m, _) in self.held.items()), 'the events that the VEN holds after ' + what)
        if status:
            for e in ven.client.received_events:
                c = self.held[e['event_descriptor']['event_id']][1]
                want = 'cancelled' if c['status'] == 'cancelled' else (
                    'completed' if self.finished(c) else 'active' if clock.Clock.now_us >= T0 + c['start'] * SEC else None)
                got = e['event_descriptor']['event_status']
                if want is None:
                    check(got in ('far', 'near'), 'status %r of event %r that has not started' % (got, c['event_id']))
                else:
                    eq(got, want, 'the status of event %r (start %d, duration %d) at %d s' % (c['event_id'], c['start'], c['duration'], (clock.Clock.now_us - T0) // SEC))

    async def run(self):
        with clock.virtual(T0):
            async with env.FakeVTN() as fake, env.VEN(fake.url, events_clean_up_period=env.CLEANUP) as ven:
                fake.vtn_id = self.case['vtn_id']
                ven.client.add_handler('on_event', self.handler('on_event', self.case['async']))
                if self.case['update_handler']:
                    ven.client.add_handler('on_update_event', self.handler('on_update_event', self.case['async']))
                await ven.start()
                fake.take()
                for op in self.case['ops']:
                    if op['op'] == 'distribute':
                        await self.distribute(fake, ven, op)
                        self.check_held(ven, 'a distribution')
                    elif op['op'] == 'advance':
                        clock.Clock.advance(op['s'])
                    elif op['op'] == 'empty':
                        fake.polls.append(wire.oadr_response('ven0', 'x') if op['what'] == 'response' else dict(body=b''))
                        await ven.poll()
                        eq([m.type for m in fake.take()], ['oadrPoll'], 'the messages sent around an empty poll')
                        check(not self.calls, 'a handler was called without an event', self.calls)
                    elif op['op'] == 'cleanup':
                        await ven.cleanup()
                        for eid in list(self.held):
                            c = self.held[eid][1]
                            if c['status'] == 'cancelled' or self.finished(c):
                                del self.held[eid]
                                self.opts.pop(eid, None)
                                self.stats['forgotten'] += 1
                                self.was_forgotten.add(eid)
                        self.check_held(ven, 'the clean-up at %d s' % ((clock.Clock.now_us - T0) // SEC))
                        check(not fake.take(), 'the clean-up sends messages')
                    elif op['op'] == 'log':
                        await ven.status_log()
                        self.check_held(ven, 'the status log', status=True)
                        check(not fake.take(), 'the status log sends messages')
                check(not self.calls, 'a handler was called', self.calls)


def strategy(faults=False, housekeeping=False):
    good = st.sampled_from(['optIn', 'optOut'])
    bad = st.sampled_from(['raise', 'raise key', 'raise value', 'raise assertion', 'raise cancelled event'] + sorted(GARBAGE))
    content = rec(start=st.sampled_from([-200, -50, -10, 0, 10, 50, 200, 5000]), duration=st.sampled_from([0, 10, 60, 100, 300, 10000]), value=st.integers(0, 3),
                  ramp_up=st.sampled_from([None, None, 5, 60]), status=st.sampled_from(['far', 'near', 'active', 'far', 'cancelled'] + (['cancelled', 'completed'] if housekeeping else [])),
                  response_required=st.sampled_from(['always', 'always', 'always', 'never']),
                  signals=st.sampled_from([['SIMPLE']] * 5 + [['SIMPLE', 'ELECTRICITY_PRICE'], ['x-mine'], ['SIMPLE', 'x-a'], ['x-a', 'SIMPLE']]))
    occ = rec(event=st.integers(0, 4), version=st.sampled_from(['same', 'same', 'newer', 'newer', 'first', 'older']), step=st.sampled_from([1, 1, 1, 2, 10]), content=content,
              outcome=st.one_of(good, bad, bad) if faults else good)
    dist = rec(op=st.just('distribute'), events=st.lists(occ, min_size=1, max_size=4), via=st.sampled_from(['poll', 'poll', 'poll', 'request']),
               request_id=st.sampled_from(['r', '1', '007', 'true', 'a b', 'x&y']), twice=st.sampled_from([False, False, False, True]))
    advance = rec(op=st.just('advance'), s=st.sampled_from([0, 1, 10, 40, 50, 100, 300]))
    other = [rec(op=st.just('empty'), what=st.sampled_from(['response', 'body']))]
    clean, log = rec(op=st.just('cleanup')), rec(op=st.just('log'))
    alts = [dist, dist, dist, advance] + ([clean, clean, log, advance] if housekeeping else other)
    return rec(vtn_id=st.sampled_from(['VTN', 'Vtn 1', 'TH_VTN']), ids=st.sampled_from([['a', 'b', 'c'], ['1', '01', '1.0'], ['true', 'e/1', 'é'], ['a', 'A', 'a1', 'b', 'c']]),
               update_handler=st.sampled_from([True, True, False]), ops=st.lists(st.one_of(*alts), min_size=3, max_size=16), **{'async': st.booleans()})


def bulk(case, n, shift, lasting):
    """The same history, with many events in each distribution."""
    ids = case['ids'] + ['%s.%d' % (case['ids'][k % len(case['ids'])], k) for k in range(n)]
    ops = []
    for i, op in enumerate(case['ops']):
        if op['op'] == 'distribute':
            first = op['events']
            more = [dict(x, content=dict(x['content'], start=5000, status='far')) for x in first] if lasting else first
            op = dict(op, events=first + [dict(more[k % len(more)], event=(k + i * shift) % len(ids)) for k in range(n)])
        ops.append(op)
    return dict(case, ids=ids, ops=ops)


def volume(**kw):
    return st.tuples(strategy(**kw), st.sampled_from([6, 9, 12, 21, 33, 52, 65, 101, 130]), st.sampled_from([0, 0, 1, 5, 50]), st.booleans()).map(lambda x: bulk(*x))
