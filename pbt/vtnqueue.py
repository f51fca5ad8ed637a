"""
A reference model of the VTN's event queue, and the driver that runs a history against both a real
server and the model. Used for the queue (C11) and for the callbacks (C12).
"""
import asyncio
from pbt import clock, env, events, gen, wire
from pbt.gen import st, rec
from pbt.runner import check, eq

T0 = events.T0 * 1000000
SEC = 10 ** 6


class Entry:
    def __init__(self, eid, op):
        self.id, self.mod, self.cancelled, self.op = eid, 0, False, op
        self.pending = op['callback']       # the response callback still to be called


class World:
    def __init__(self, case, aspects, info):
        self.case, self.aspects, self.info = case, aspects, info
        self.vens = case['vens']
        self.queue = {v: {} for v in self.vens}
        self.completed = {v: {} for v in self.vens}
        self.updated = {v: False for v in self.vens}
        self.calls, self.expected, self.futures = [], [], []
        self.n = 0

    # -- operations on both sides

    def callback(self, ven, eid, kind):
        def f(ven_id, event_id, opt_type):
            self.calls.append(('response', ven, eid, ven_id, event_id, opt_type))

        async def af(ven_id, event_id, opt_type):
            await asyncio.sleep(0)
            f(ven_id, event_id, opt_type)
        if kind == 'future':
            fut = asyncio.get_running_loop().create_future()
            self.futures.append((fut, ven, eid))
            fut.add_done_callback(lambda x: self.calls.append(('response', ven, eid, ven, eid, x.result())))
            return fut
        return {None: None, 'function': f, 'coroutine': af}[kind]

    def delivery(self, ven, eid, kind):
        def f():
            self.calls.append(('delivery', ven, eid))

        async def af():
            await asyncio.sleep(0)
            f()
        return {None: None, 'function': f, 'coroutine': af}[kind]

    def add(self, server, op):
        from openleadr import objects
        ven = self.vens[op['ven']]
        eid = self.case['ids'][self.n % len(self.case['ids'])] + ('' if self.n < len(self.case['ids']) else str(self.n))
        if op['same_as']:       # the same event id as an event of another VEN
            others = [e for v in self.vens if v != ven for e in list(self.queue[v]) + list(self.completed[v])]
            free = [e for e in others if e not in self.queue[ven] and e not in self.completed[ven] and e not in self.removed(ven)]
            if free:
                eid = free[op['same_as'] % len(free)]
        self.n += 1
        start = T0 + op['start'] * SEC
        iv = dict(dtstart=clock.at(start), duration=clock.secs(op['duration']), signal_payload=op['value'])
        kw = dict(callback=self.callback(ven, eid, op['callback']), delivery_callback=self.delivery(ven, eid, op['delivery']))
        if op['via'] == 'add_event':
            got = server.add_event(ven, 'LOAD_DISPATCH', 'setpoint', [iv], event_id=eid, market_context='http://c',
                                   response_required=op['response_required'], targets=[dict(ven_id=ven)], **kw)
            eq(got, eid, 'the event id that add_event returns')
        else:
            ev = dict(event_descriptor=dict(event_id=eid, modification_number=0, market_context='http://c', event_status='far', created_date_time=clock.at(T0)),
                      active_period=dict(dtstart=clock.at(start), duration=clock.secs(op['duration'])),
                      event_signals=[dict(intervals=[dict(iv, uid=0)], signal_name='LOAD_DISPATCH', signal_type='setpoint', signal_id='s')],
                      targets=[dict(ven_id=ven)], response_required=op['response_required'])
            if op['via'] == 'object':
                ev = objects.Event(event_descriptor=objects.EventDescriptor(**ev['event_descriptor']), active_period=objects.ActivePeriod(**ev['active_period']),
                                   event_signals=[objects.EventSignal(intervals=[objects.Interval(**iv)], signal_name='LOAD_DISPATCH', signal_type='setpoint', signal_id='s')],
                                   targets=[objects.Target(ven_id=ven)], response_required=op['response_required'])
            server.add_raw_event(ven, ev, **kw)
        self.queue[ven][eid] = Entry(eid, op)
        self.updated[ven] = True

    def removed(self, ven):
        return self.gone.setdefault(ven, set())

    gone = None

    def status(self, e):
        start, end = T0 + e.op['start'] * SEC, T0 + (e.op['start'] + e.op['duration']) * SEC
        now = clock.Clock.now_us
        if e.cancelled:
            return 'cancelled'
        if e.op['duration'] and now >= end:
            return 'completed'
        return 'active' if now >= start else 'far'

    def target(self, ven, which):
        """The id of an event: in the queue, completed, removed, of another VEN or unknown."""
        q = list(self.queue[ven])
        kinds = dict(queue=q, completed=list(self.completed[ven]), gone=sorted(self.removed(ven)),
                     other=[e for v in self.vens if v != ven for e in self.queue[v] if e not in self.queue[ven]], unknown=[self.unknown(ven, which[1])])
        pool = kinds[which[0]] or q or [self.unknown(ven, which[1])]
        return pool[which[1] % len(pool)]

    def unknown(self, ven, n):
        """An id that no event has or had, but that looks like that of one."""
        taken = {e for v in self.vens for e in list(self.queue[v]) + list(self.completed[v]) + list(self.removed(v))}
        return gen.near(sorted(taken)[n % len(taken)], n, taken) if taken else 'unknown'

    def distributed(self, ven):
        """What a request for events of this VEN returns now."""
        out = []
        for e in list(self.queue[ven].values()):
            s = self.status(e)
            start = T0 + e.op['start'] * SEC
            out.append((e.id, e.mod, s, start, e.op['duration'], [(start, e.op['duration'], float(e.op['value']))], [dict(ven_id=ven)], e.op['response_required']))
            if e.op['delivery']:
                self.expected.append(('delivery', ven, e.id))
            if s == 'completed':
                self.completed[ven][e.id] = self.queue[ven].pop(e.id)
        return sorted(out)

    def check_events(self, msg, want, what):
        got = sorted((e['event_id'], e['modification_number'], e['status'], e['start'], e['duration'], e['signals'][0]['intervals'], e['targets'], e['response_required'])
                     for e in wire.read_events(msg))
        if 'queue' in self.aspects:
            eq(msg.type, 'oadrDistributeEvent' if want else 'oadrResponse', 'the reply to ' + what)
            eq(got, want, 'the events in reply to ' + what)

    def check_calls(self, what):
        if 'callbacks' in self.aspects:
            eq(sorted(self.calls), sorted(self.expected), 'the callbacks called during ' + what)
        self.calls.clear()
        self.expected.clear()

    async def request(self, vtn, op):
        ven = self.vens[op['ven']]
        what = '%s of %r at +%d us' % (op['op'], ven, clock.Clock.now_us - T0)
        if op['op'] == 'poll':
            want = self.distributed(ven) if self.updated[ven] else []
            self.updated[ven] = False
            msg = await vtn.poll(ven)
        else:
            want = self.distributed(ven)
            msg = await vtn.request_event(ven, **({'reply_limit': op['limit']} if op.get('limit') else {}))
        self.check_events(msg, want, what)
        if want:
            self.info.tag('distributed')
        return what

    async def respond(self, vtn, op):
        ven = self.vens[op['ven']]
        responses, code = [], 200
        for r in op['responses']:
            eid = self.target(ven, r['event'])
            e = self.queue[ven].get(eid)
            done = self.completed[ven].get(eid)
            mod = (e or done).mod if (e or done) else 0
            if r['wrong'] and not done:
                mod = max(0, mod + r['wrong'])
            responses.append(dict(event_id=eid, modification_number=mod, opt_type=r['opt']))
            if e is not None and e.mod == mod:
                hit = e
                if e.cancelled:
                    del self.queue[ven][eid]
                    self.removed(ven).add(eid)
                    self.info.tag('cancellation confirmed')
            elif e is None and done is not None:
                hit = done
            else:
                code, hit = 452, None
                # a pending callback of an event that is gone cannot be answered any more
            if hit is not None and hit.pending:
                hit.pending = None
                self.expected.append(('response', ven, eid, ven, eid, r['opt']))
                self.info.tag('callback')
        msg = await vtn.created_event(ven, responses)
        for _ in range(3):
            await asyncio.sleep(0)
        what = 'an oadrCreatedEvent of %r with %r' % (ven, responses)
        if 'callbacks' in self.aspects:
            eq(msg.code, code, 'the response code to ' + what)
        return what

    async def run(self):
        self.gone = {}
        ops_seen = set()
        with clock.virtual(T0):
            async with env.VTN() as vtn:
                s = vtn.server
                for n, op in enumerate(self.case['ops']):
                    what = op['op']
                    if op['op'] == 'add':
                        self.add(s, op)
                    elif op['op'] == 'cancel':
                        ven = self.vens[op['ven']]
                        eid = self.target(ven, op['event'])
                        await env.maybe(s.cancel_event(ven if op['known'] else gen.near(ven, len(eid) + n, self.vens), eid))
                        e = self.queue[ven].get(eid) if op['known'] else None
                        if e:
                            e.cancelled, e.mod = True, e.mod + 1
                            self.updated[ven] = True
                    elif op['op'] == 'advance':
                        clock.Clock.advance(op['s'])
                    elif op['op'] in ('poll', 'request'):
                        what = await self.request(vtn, op)
                    elif op['op'] == 'respond':
                        what = await self.respond(vtn, op)
                    elif op['op'] == 'together':
                        # simultaneous requests of all VENs; they are independent of each other
                        await asyncio.gather(*[self.request(vtn, dict(op=o, ven=v)) for v, o in enumerate(op['what'][:len(self.vens)])])
                    self.check_calls('operation %d: %s' % (n, what))
                    ops_seen.add(op['op'])
                # in the end everything that is left is still there
                for v in self.vens:
                    what = await self.request(vtn, dict(op='request', ven=self.vens.index(v)))
                    self.check_calls(what)


VEN_I = st.integers(0, 1)
WHICH = st.tuples(st.sampled_from(['queue', 'queue', 'queue', 'queue', 'completed', 'gone', 'other', 'unknown']), st.integers(0, 5)).map(list)


def strategy(callbacks):
    some = ['function', 'coroutine', 'future'] + ([] if callbacks else [None])
    add = rec(op=st.just('add'), ven=VEN_I, start=st.sampled_from([-100, -10, 0, 10, 50, 100, 1000]), duration=st.sampled_from([0, 10, 60, 100, 1000]), value=st.integers(0, 3),
              via=st.sampled_from(['add_event', 'dict', 'object']), callback=st.sampled_from(some + ['function', None]),
              delivery=st.sampled_from(['function', 'coroutine', None] if callbacks else [None, 'function']),
              response_required=st.sampled_from(['always', 'always', 'never']), same_as=st.sampled_from([0, 0, 1, 2]))
    cancel = rec(op=st.just('cancel'), ven=VEN_I, event=WHICH, known=st.sampled_from([True] * 5 + [False]))
    response = rec(event=WHICH, opt=st.sampled_from(['optIn', 'optOut']), wrong=st.sampled_from([0, 0, 0, 0, 1, -1]))
    respond = rec(op=st.just('respond'), ven=VEN_I, responses=st.lists(response, min_size=1, max_size=4))
    poll, request = rec(op=st.just('poll'), ven=VEN_I), rec(op=st.just('request'), ven=VEN_I, limit=st.sampled_from([None, None, 1000]))
    advance = rec(op=st.just('advance'), s=st.sampled_from([1, 9, 10, 40, 60, 100, 500]))
    together = rec(op=st.just('together'), what=st.lists(st.sampled_from(['poll', 'request']), min_size=3, max_size=3))
    alts = [add, add, cancel, poll, request, respond, respond, advance] + ([together] if not callbacks else [respond])
    return rec(vens=st.sampled_from([['v1', 'v2'], ['1', '01'], ['ven', 'VEN'], ['x', 'x1']]), ids=st.sampled_from([['a', 'b', 'c', 'd'], ['1', '01', '1.0', '10'], ['true', 'False', 'e/1', 'é']]),
               ops=st.lists(st.one_of(*alts), min_size=6, max_size=30))


def bulk(case, n, where):
    """The same history, in which many events are added, distributed and answered at once."""
    adds = [op for op in case['ops'] if op['op'] == 'add']
    if not adds:
        return case
    ven = adds[0]['ven']
    many = [dict(adds[k % len(adds)], ven=ven, start=adds[k % len(adds)]['start'] + k // len(adds), value=k % 100, same_as=0) for k in range(n)]
    answers = dict(op='respond', ven=ven, responses=[dict(event=['queue', k], opt=['optIn', 'optOut'][k % 2], wrong=0) for k in range(n)])
    at = where % (len(case['ops']) + 1)
    return dict(case, ops=case['ops'][:at] + many + [dict(op=['poll', 'request'][where % 2], ven=ven, limit=None)] + case['ops'][at:] + [answers, dict(op='advance', s=[1, 500][n % 2])])


def volume(callbacks):
    return st.tuples(strategy(callbacks), st.sampled_from([9, 12, 21, 33, 52, 65, 101, 130]), st.integers(0, 30)).map(lambda x: bulk(*x))
