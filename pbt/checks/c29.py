"""C29: a real VTN and real VENs converge on the same events and opt decisions, over a network that loses messages."""
import asyncio
import aiohttp
from aiohttp import web
from pbt import clock, env, gen, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail
from pbt.env import HANG

RULE = 'an event is distributed and answered, and a message is lost, an event is changed after its distribution, or a VEN is restarted'
ASSUMPTIONS = ['the clocks of VTN and VEN agree', 'a VEN has one exchange under way at a time']
T0 = 1600000000 * 1000000
SEC = 10 ** 6


class Link:
    """The network between one VEN and the VTN: an HTTP proxy that loses what the plan says."""

    def __init__(self, vtn):
        self.vtn, self.plan, self.log = vtn, [], []

    async def __aenter__(self):
        self.runner = web.ServerRunner(web.Server(self.handle))
        await self.runner.setup()
        site = web.TCPSite(self.runner, '127.0.0.1', 0)
        await site.start()
        self.session = aiohttp.ClientSession()
        self.url = 'http://127.0.0.1:%s%s' % (self.runner.addresses[0][1], self.vtn.prefix)
        return self

    async def __aexit__(self, *exc):
        await self.session.close()
        await self.runner.cleanup()

    async def handle(self, request):
        raw = await request.read()
        msg = wire.Msg(raw)
        fault = self.plan.pop(0) if self.plan else 'ok'
        self.log.append((msg.type, fault))
        if fault == 'lost request':
            request.transport.abort()
            return web.Response(status=500)
        if fault == 'unavailable':
            return web.Response(status=503, text='try again later')
        async with self.session.post('http://127.0.0.1:%s%s' % (self.vtn.port, request.path), data=raw, headers={'content-type': 'application/xml'}) as r:
            body, status = await r.read(), r.status
        if status != 200:
            fail('HTTP %s in reply to %s of the VEN' % (status, msg.type), raw.decode(), body.decode())
        err = wire.schema_errors(raw) or (body and wire.schema_errors(body))
        if err:
            fail('an invalid message between VTN and VEN: %s' % err, raw.decode(), body.decode())
        if fault == 'lost reply':
            request.transport.abort()
            return web.Response(status=500)
        if fault == 'cut reply':
            r = web.StreamResponse(headers={'content-type': 'application/xml'})
            r.content_length = len(body) + 1
            await r.prepare(request)
            await r.write(body[:len(body) // 2])
            request.transport.abort()
            return r
        if fault == 'garbled reply':
            body = body[:len(body) // 2]
        return web.Response(body=body, content_type='application/xml')


REACHES = ('ok', 'lost reply', 'cut reply', 'garbled reply')


class Event:
    def __init__(self, n, eid, ven, spec):
        self.n, self.id, self.ven, self.spec = n, eid, ven, spec
        self.mod, self.cancelled, self.pending = 0, False, spec['callback']
        self.child, self.issued = None, False
        self.start, self.end = T0 + spec['start'] * SEC, T0 + (spec['start'] + spec['duration']) * SEC

    def finished(self):
        return self.spec['duration'] > 0 and clock.Clock.now_us >= self.end

    def version(self):
        return self.mod, self.cancelled


class World:
    def __init__(self, case, info):
        self.case, self.info = case, info
        n = len(case['vens'])
        self.events = {}                                # (ven, id) -> Event
        self.queue = [[] for _ in range(n)]             # what the VTN has to distribute
        self.done = [set() for _ in range(n)]           # ids distributed as completed
        self.updated = [False] * n
        self.held = [{} for _ in range(n)]              # VEN: id -> (version, Event)
        self.decision = [{} for _ in range(n)]          # VEN: id -> opt type
        self.calls, self.expected = [], []
        self.seen = set()

    def ven_id(self, v):
        return 'ven%d' % v

    def outcome(self, e_n, mod, v):
        o = self.case['outcomes']
        return o[(e_n + 3 * mod + v) % len(o)]

    # -- the VTN

    def add(self, v, spec):
        self.issue(self.create(v, spec))

    def create(self, v, spec):
        n = len(self.events)
        eid = 'e%d' % (n % 97) if self.case['short_ids'] else 'event %s of %s' % (n, self.ven_id(v))
        if spec['shared']:      # an id that another VEN's event has
            other = [i for (w, i) in self.events if w != v and (v, i) not in self.events]
            if other:
                eid = other[spec['shared'] % len(other)]
        if (v, eid) in self.events:
            eid += '-%d' % n
        e = self.events[(v, eid)] = Event(n, eid, v, spec)
        self.queue[v].append(e)
        self.updated[v] = True
        return e

    def issue(self, e):
        v, spec, eid = e.ven, e.spec, e.id

        def callback(ven_id, event_id, opt_type):
            self.calls.append(('response', ven_id, event_id, opt_type))
            self.eager(e, 'response')

        async def acallback(ven_id, event_id, opt_type):
            await asyncio.sleep(0)
            callback(ven_id, event_id, opt_type)

        def delivered():
            self.calls.append(('delivery', self.ven_id(v), eid))
            self.eager(e, 'delivery')
        kw = dict(callback={None: None, 'function': callback, 'coroutine': acallback}[spec['callback']], delivery_callback=delivered)
        iv = [dict(dtstart=clock.at(e.start), duration=clock.secs(spec['duration']), signal_payload=e.n)]
        with env.quiet():
            self.vtn.server.add_event(self.ven_id(v), 'LOAD_DISPATCH', 'setpoint', iv, event_id=eid, response_required=spec['response_required'], **kw)

    def eager(self, e, when):
        """A callback of the application that itself adds another event."""
        if e.spec['chain'] == when and e.child is not None and not e.issued:
            e.issued = True
            self.issue(e.child)
            self.info.tag('event added from a callback')

    def foresee(self, e, when):
        if e.spec['chain'] == when and e.child is None:
            e.child = self.create(e.ven, dict(e.spec, chain=None, shared=0))

    def cancel(self, v, which):
        live = [e for e in self.queue[v] if not e.cancelled]
        if not live:
            return
        e = live[which % len(live)]
        self.vtn.server.cancel_event(self.ven_id(v), e.id)
        e.mod, e.cancelled = e.mod + 1, True
        self.updated[v] = True
        if e.id in self.held[v]:
            self.seen.add('change')

    # -- one exchange between a VEN and the VTN: what it should do

    def predict(self, v, kind, plan):
        """The messages, the calls and the new state."""
        plan = list(plan)
        types = [kind]
        fault = plan.pop(0) if plan else 'ok'
        distribution = []
        if fault in REACHES:
            if kind == 'oadrRequestEvent' or self.updated[v]:
                distribution = list(self.queue[v])
            if kind == 'oadrPoll':
                self.updated[v] = False
            for e in distribution:
                self.expected.append(('delivery', self.ven_id(v), e.id))
                self.foresee(e, 'delivery')
                if e.finished() and not e.cancelled:
                    self.queue[v].remove(e)
                    self.done[v].add(e.id)
        if fault != 'ok':
            self.seen.add('loss')
            self.info.tag(fault)
            return types
        responses = []
        for e in distribution:
            old = self.held[v].get(e.id)
            if old is None or (old[0] != e.version() and self.case['vens'][v]['update_handler']):
                self.expected.append(('on_event' if old is None else 'on_update_event', v, e.id, e.mod))
                o = self.outcome(e.n, e.mod, v)
                self.decision[v][e.id] = o if o in ('optIn', 'optOut') or (o == 'none' and e.spec['response_required'] == 'never') else 'optOut'
            self.held[v][e.id] = (e.version(), e)
            if e.spec['response_required'] == 'always' and not e.finished():
                responses.append(e)
        if not responses:
            return types
        types.append('oadrCreatedEvent')
        fault = plan.pop(0) if plan else 'ok'
        if fault != 'ok':
            self.seen.add('loss')
            self.info.tag('response: ' + fault)
        if fault in REACHES:
            for e in responses:
                if e.pending:
                    e.pending = None
                    self.expected.append(('response', self.ven_id(v), e.id, self.decision[v][e.id]))
                    self.seen.add('answer')
                    self.foresee(e, 'response')
                if e.cancelled:
                    self.queue[v].remove(e)
        return types

    async def exchange(self, v, kind, plan):
        link = self.links[v]
        link.plan, link.log = list(plan), []
        types = self.predict(v, kind, plan)
        if kind == 'oadrPoll':
            await self.vens[v].poll(self.case['poll_freq'])
        else:
            async with asyncio.timeout(HANG):
                await self.vens[v].client.sync_events()
        eq([t for t, _ in link.log], types, 'the messages that %s sends' % self.ven_id(v))

    async def restart(self, v, fresh):
        """A new VEN process takes the place of the old one, which is gone without a word."""
        if self.vens[v] is not None:
            await self.vens[v].__aexit__()
            self.seen.add('restart')
            self.info.tag('restart')
        link = self.links[v]
        cfg = self.case['vens'][v]
        ven = self.vens[v] = env.VEN(link.url, ven_name='name of ven%d' % v, **(dict(ven_id=self.ven_id(v)) if cfg['own_id'] else {}))

        def handler(name):
            def f(event):
                d = event['event_descriptor']
                self.calls.append((name, v, d['event_id'], d['modification_number']))
                e = self.events[(v, d['event_id'])]
                o = self.outcome(e.n, d['modification_number'], v)
                if o == 'raise':
                    raise RuntimeError('no')
                return None if o == 'none' else o

            async def af(event):
                await asyncio.sleep(0)
                return f(event)
            return af if cfg['async'] else f
        ven.client.add_handler('on_event', handler('on_event'))
        if cfg['update_handler']:
            ven.client.add_handler('on_update_event', handler('on_update_event'))
        link.plan, link.log = [], []
        self.held[v], self.decision[v] = {}, {}
        # it registers, asks for all events, and then polls
        types = ['oadrQueryRegistration', 'oadrCreatePartyRegistration', 'oadrRegisterReport'] + self.predict(v, 'oadrRequestEvent', []) + self.predict(v, 'oadrPoll', [])
        await ven.start()
        eq([t for t, _ in link.log], types, 'the messages that %s sends when it starts' % self.ven_id(v))
        eq(ven.client.ven_id, self.ven_id(v), 'the id of the VEN after registration')

    async def check(self, what):
        await env.settle()
        eq(sorted(self.calls, key=repr), sorted(self.expected, key=repr), 'the calls of the handlers and callbacks during ' + what)
        self.calls.clear()
        self.expected.clear()
        for v, ven in enumerate(self.vens):
            got = sorted((e['event_descriptor']['event_id'], e['event_descriptor']['modification_number'], e['event_descriptor']['event_status'] == 'cancelled', clock.us(e['active_period']['dtstart']),
                          [float(i['signal_payload']) for s in e['event_signals'] for i in s['intervals']]) for e in ven.client.received_events)
            want = sorted((i, mod, cancelled, e.start, [float(e.n)]) for i, ((mod, cancelled), e) in self.held[v].items())
            eq(got, want, 'the events that %s holds after %s' % (self.ven_id(v), what))

    async def run(self):
        case = self.case
        with clock.virtual(T0):
            async with env.VTN(requested_poll_freq=clock.secs(case['poll_freq'])) as self.vtn:
                names = {'name of ven%d' % v: 'ven%d' % v for v in range(len(case['vens']))}

                def on_create_party_registration(info):
                    return names[info['ven_name']], 'reg of ' + names[info['ven_name']]

                def on_register_report(*a, **kw):
                    return None
                self.vtn.server.add_handler('on_create_party_registration', on_create_party_registration)
                self.vtn.server.add_handler('on_register_report', on_register_report)
                self.vens = [None] * len(case['vens'])
                self.links = []
                try:
                    for v in range(len(case['vens'])):
                        self.links.append(await Link(self.vtn).__aenter__())
                    for spec in case['before']:
                        self.add(spec['ven'] % len(self.vens), spec)
                    for v in range(len(case['vens'])):
                        await self.restart(v, True)
                    await self.check('the start')
                    await self.steps()
                finally:
                    for ven in self.vens:
                        if ven is not None:
                            await ven.__aexit__()
                    for link in self.links:
                        await link.__aexit__()

    async def steps(self):
        n = len(self.vens)
        for i, (op, arg) in enumerate(self.case['ops']):
            v = arg['ven'] % n if 'ven' in arg else None
            if op == 'add':
                self.add(v, arg)
            elif op == 'cancel':
                self.cancel(v, arg['which'])
            elif op == 'advance':
                clock.Clock.advance(arg['s'])
            elif op == 'exchange':
                await self.exchange(v, arg['kind'], arg['faults'])
            elif op == 'together':
                await asyncio.gather(*[self.exchange(w, 'oadrPoll', f) for w, f in zip(range(n), arg['faults'])])
            elif op == 'restart':
                await self.restart(v, False)
            elif op == 'cleanup':
                await self.vens[v].cleanup()
                for eid, ((_, cancelled), e) in list(self.held[v].items()):
                    if cancelled or e.finished():
                        del self.held[v][eid]
                        self.decision[v].pop(eid, None)
            elif op == 'log':
                await self.vens[v].status_log()
            await self.check('operation %d: %s %s at %d s' % (i, op, arg, (clock.Clock.now_us - T0) // SEC))
        # whatever happened: after new changes and polls that get through, both sides agree
        for v in range(n):
            self.add(v, dict(start=10 ** 7, duration=60, callback='function', response_required='always', chain=None, shared=0))
            before = dict(self.held[v])
            current = [e for e in self.queue[v]]
            while self.updated[v]:
                await self.exchange(v, 'oadrPoll', [])
                await self.check('a poll at the end')
            for e in current + self.queue[v]:
                eq(self.held[v].get(e.id, (None,))[0], e.version(), 'the version of %s in the end' % e.id)
                if e.spec['response_required'] == 'always' and not e.finished():
                    check(e.pending is None, '%s never got an answer' % e.id)
        self.info.nontrivial('answer' in self.seen and self.seen & {'loss', 'change', 'restart'})


def run(case, info):
    env.run(World(case, info).run())


V = st.integers(0, 1)
TIMES = [-3600, -60, 0, 1, 30, 60, 600, 3600, 10 ** 6]
SPEC = rec(ven=V, start=st.sampled_from(TIMES), duration=st.sampled_from([0, 1, 59, 60, 600, 3600, 7200, 10 ** 6]), callback=st.sampled_from(['function', 'function', 'coroutine', None]),
           response_required=st.sampled_from(['always', 'always', 'always', 'never']), chain=st.sampled_from([None, None, None, None, 'response', 'delivery']), shared=st.sampled_from([0, 0, 0, 1, 2]))
BAD = ['lost request', 'unavailable', 'lost reply', 'cut reply', 'garbled reply']
FAULTS = st.one_of(st.just([]), st.just([]), st.sampled_from(BAD).map(lambda f: ['ok', f]), st.sampled_from(BAD).map(lambda f: ['ok', f]), st.lists(st.sampled_from(['ok'] + BAD), max_size=2))


def tup(op, arg):
    return st.tuples(st.just(op), arg).map(list)


EXCHANGE = tup('exchange', rec(ven=V, kind=st.sampled_from(['oadrPoll', 'oadrPoll', 'oadrPoll', 'oadrRequestEvent']), faults=FAULTS))
OPS = st.one_of(tup('add', SPEC), tup('add', SPEC), EXCHANGE, EXCHANGE, EXCHANGE, EXCHANGE, tup('cancel', rec(ven=V, which=st.integers(0, 5))), tup('cancel', rec(ven=V, which=st.integers(0, 5))),
                tup('advance', rec(s=st.sampled_from([1, 29, 30, 60, 599, 600, 3600, 10 ** 5]))), tup('together', rec(faults=st.lists(FAULTS, min_size=2, max_size=2))), tup('restart', rec(ven=V)), tup('cleanup', rec(ven=V)),
                tup('cleanup', rec(ven=V)), tup('log', rec(ven=V)))
VEN = rec(update_handler=st.booleans(), own_id=st.booleans(), **{'async': st.booleans()})
CASE = rec(vens=st.lists(VEN, min_size=1, max_size=2), poll_freq=st.sampled_from([70007, 70009]), outcomes=st.lists(st.sampled_from(['optIn', 'optIn', 'optOut', 'optOut', 'raise', 'none']), min_size=1, max_size=7),
           short_ids=st.booleans(), before=st.lists(SPEC, max_size=2), ops=st.lists(OPS, min_size=5, max_size=26))
SUITES = [Suite('network', CASE, run, 700, 8000)]
