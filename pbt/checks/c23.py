"""C23: the VEN survives any faulty VTN response."""
import asyncio
import itertools
from pbt import certs, clock, env, events, gen, messages, wire
from pbt.checks import c05, c07
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'at least one faulty reply is followed by a healthy one that has an effect (an event or a report request)'
ASSUMPTIONS = ['error replies carry no events', 'the VEN may wait for up to half a minute for a reply that does not come']
T0 = events.T0 * 1000000
SEC = 10 ** 6
FREQ = 70007
NONCES = itertools.count()     # never used twice, not even in different cases
# valid messages that a VTN has no business sending in reply to a poll, or that are without effect for this VEN
UNEXPECTED = sorted(set(messages.TYPES) - {'oadrDistributeEvent', 'oadrCreateReport', 'oadrRequestReregistration', 'oadrCancelPartyRegistration'})


class World:
    def __init__(self, case, info):
        self.case, self.info = case, info
        self.calls, self.serial, self.requests, self.held = [], 0, 0, {}
        self.faults, self.last_signed = 0, None

    # events and signatures

    def on_event(self, event):
        self.calls.append((event['event_descriptor']['event_id'], event['event_descriptor']['modification_number']))
        return 'optIn'

    def event(self, eid, mod=0):
        return dict(event_id=eid, modification_number=mod, status='far', created=T0, start=T0 + 10 ** 5 * SEC, duration=60, targets=[dict(ven_id='ven0')],
                    signals=[dict(intervals=[(T0 + 10 ** 5 * SEC, 60, 1)])])

    def sign(self, xml, stamp=0, cert=1):
        old = certs.generated
        try:
            certs.generated = lambda n: old(cert)
            out = c05.forge(xml, wire.ts(clock.Clock.now_us + stamp * SEC), 'nonce-%d' % next(NONCES))
        finally:
            certs.generated = old
        return out

    def state(self, ven):
        c = ven.client
        return dict(ids=(c.ven_id, c.registration_id), events=sorted((e['event_descriptor']['event_id'], e['event_descriptor']['modification_number']) for e in c.received_events),
                    opts=sorted(c.responded_events.items()), reports=[(r.report_specifier_id, [d.r_id for d in r.report_descriptions]) for r in c.reports],
                    requests=[(r['report_request_id'], r['r_ids']) for r in c.report_requests], jobs=sorted(str(j.trigger) for j in ven.jobs()), running=c.scheduler.running)

    # what can go wrong

    def body(self, spec):
        """Some valid reply as XML, which would have an effect."""
        k = spec['base']
        self.serial += 1
        if k == 'event':
            return wire.distribute_event([self.event('faulty %d' % self.serial)])
        if k == 'update' and self.held:
            eid = sorted(self.held)[0]
            return wire.distribute_event([self.event(eid, self.held[eid] + 1)])
        if k == 'report':
            return wire.create_report('ven0', [self.request('faulty %d' % self.serial)])
        if k == 'cancel':
            return wire.cancel_report('ven0', 'rq1', True)
        if k == 'reregister':
            return wire.request_reregistration('ven0')
        return wire.oadr_response('ven0', 'x')

    def request(self, rid):
        return dict(report_request_id=rid, report_specifier_id='s', granularity=60, report_back_duration=60, payloads=[dict(r_id='r')])

    def fault(self, spec, service='poll'):
        """(reply, what it is)"""
        from openleadr.messaging import create_message
        k, xml = spec['kind'], self.body(spec)
        raw = xml.encode('utf-8')
        if self.case['signed'] and k not in ('unsigned', 'other certificate', 'tampered', 'stale', 'replayed'):
            raw = self.sign(xml).encode('utf-8')
        if k == 'http':
            return dict(status=spec['status'], body=raw if spec['flag'] else spec['text'])
        if k == 'redirect':
            where = LOCATIONS[spec['at'] % len(LOCATIONS)]
            return dict(status=[301, 302, 303, 307, 308][spec['at'] // 7 % 5], body=raw if spec['flag'] else b'', headers={} if where is None else {'location': where})
        if k == 'no http':
            return dict(bytes=NOT_HTTP[spec['at'] % len(NOT_HTTP)].replace(b'BODY', raw))
        if k == 'empty':
            return dict(body=b'' if spec['flag'] else b' \n')
        if k == 'drop':
            return dict(drop=True)
        if k == 'partial':
            return dict(body=raw, partial=spec['at'] % len(raw), chunked=spec['flag'])
        if k == 'garbage':
            return dict(body=spec['raw'].encode('utf-8', 'surrogatepass') or b'\xff')
        if k == 'truncated':
            return dict(body=raw[:spec['at'] % len(raw)] or b'<')
        if k == 'encoding':
            return dict(body=raw, headers={'content-encoding': ['gzip', 'deflate'][spec['flag']]})
        if k == 'schema':
            for muts in (spec['muts'], spec['muts'] + [dict(kind='drop', at=spec['at'], n=0, bytes='')], [dict(kind='insert', at=len(raw) - 30, n=0, bytes='<')]):
                bad = c07.mutate(raw, muts)
                try:
                    err = wire.schema_errors(bad)
                except Exception as e:
                    err = str(e)
                if err:
                    return dict(body=bad)
        if k == 'code':
            i = spec['flag']
            bad = wire.oadr_response('ven0', 'x', spec['code'], spec['text']) if i else wire.doc('oadrDistributeEvent', wire.response(spec['code'], spec['text'], 'x'), wire.el('pyld:requestID', 'x'), wire.el('ei:vtnID', 'VTN'))
            return dict(body=self.sign(bad) if self.case['signed'] else bad)
        if k == 'unexpected':
            t = spec['message']
            bad = create_message(t['type'], **messages.TYPES[t['type']].kwargs(t['spec']))
            return dict(body=self.sign(bad) if self.case['signed'] else bad)
        if k == 'silence':      # before, between or after the headers and some of the body
            return dict(body=raw, hold=True, partial=None if spec['at'] % 3 == 0 else spec['at'] % len(raw) if spec['at'] % 3 == 1 else 0, chunked=spec['flag'])
        # only with a configured fingerprint
        if not self.case['signed']:
            return dict(status=500, body=raw)
        if k == 'unsigned':
            return dict(body=raw)
        if k == 'other certificate':
            return dict(body=self.sign(xml, cert=2))
        if k == 'stale':
            return dict(body=self.sign(xml, stamp=-3600))
        if k == 'replayed' and self.last_signed is not None:
            return dict(body=self.last_signed)
        signed = self.sign(xml)
        bad = signed.replace('>ven0<', '>ven1<').replace('>x<', '>y<')
        if bad == signed:
            bad = signed.replace('>VTN<', '>VTM<')
        return dict(body=bad)

    def wrap(self, xml):
        self.last_signed = self.sign(xml)
        return self.last_signed

    # operations

    async def faulty_poll(self, fake, ven, spec):
        reply = self.fault(spec)
        fake.polls.append(reply)
        before = self.state(ven)
        what = 'a poll that was answered with a fault (%s): %r' % (spec['kind'], reply)
        await self.poll(ven, what)
        got = fake.take()
        check(got and got[0].type == 'oadrPoll', 'the VEN does not poll', [m.type for m in got])
        eq(self.state(ven), before, 'the state of the VEN after ' + what)
        check(not self.calls, 'an event handler was called because of ' + what, self.calls)
        self.faults += 1
        self.info.tag(spec['kind'])

    async def poll(self, ven, what):
        try:
            await ven.poll(FREQ)
        except env.Violation:
            raise
        except Exception as err:
            raise env.Violation('%s raises %s: %s' % (what, type(err).__name__, err))

    async def healthy(self, fake, ven, op, fault=None):
        """A healthy reply to a poll; the answer to what the VEN sends because of it may be faulty."""
        self.serial += 1
        before = self.state(ven)
        want = dict(before)
        types, calls = ['oadrPoll'], []
        follow = None
        if op['what'] == 'event':
            eid = 'event %d' % self.serial
            fake.polls.append(wire.distribute_event([self.event(eid)]))
            self.held[eid] = 0
            calls, follow = [(eid, 0)], 'oadrCreatedEvent'
            want.update(events=sorted(before['events'] + calls), opts=sorted(before['opts'] + [(eid, 'optIn')]))
        elif op['what'] == 'update' and self.held:
            eid = sorted(self.held)[-1]
            self.held[eid] += 1
            fake.polls.append(wire.distribute_event([self.event(eid, self.held[eid])]))
            calls, follow = [(eid, self.held[eid])], 'oadrCreatedEvent'
            want.update(events=sorted(self.held.items()))
        elif op['what'] == 'report':
            self.requests += 1
            rid = 'rq%d' % self.requests
            fake.polls.append(wire.create_report('ven0', [self.request(rid)]))
            follow = 'oadrCreatedReport'
            want.update(requests=before['requests'] + [(rid, ['r'])])
            want.pop('jobs')
        else:
            fake.polls.append(wire.oadr_response('ven0', 'x'))
        if follow:
            types.append(follow)
            if fault:
                fake.replies[follow] = [self.fault(fault)]
                self.info.tag('in reply to ' + follow)
        what = 'a healthy poll (%s) %s%s' % (op['what'], 'after %d faults' % self.faults, ', the reply to the %s being %r' % (follow, fake.replies[follow]) if follow and fault else '')
        await self.poll(ven, what)
        got = fake.take()
        eq([m.type for m in got][:len(types)], types, 'the messages that the VEN sends for ' + what)
        check(len(got) == len(types) or fault, 'the VEN sends further messages for ' + what, [m.type for m in got])
        eq(self.calls, calls, 'the event handler calls for ' + what)
        self.calls = []
        after = self.state(ven)
        eq({k: after[k] for k in want}, want, 'the state of the VEN after ' + what)
        if op['what'] == 'report':
            eq(len(after['jobs']), len(before['jobs']) + 1, 'the number of schedules after ' + what)
        self.info.nontrivial(self.faults and follow)

    async def run(self):
        with clock.virtual(T0):
            await self.live()

    async def live(self):
        case = self.case
        kw = dict(vtn_fingerprint=certs.fingerprint(certs.generated(1)[0])) if case['signed'] else {}
        async with env.FakeVTN(poll_freq=FREQ) as fake, env.VEN(fake.url, **kw) as ven:
            if case['signed']:
                fake.wrap = self.wrap
            ven.client.add_report(lambda: 1, 'res', 'voltage', report_specifier_id='s', r_id='r', sampling_rate=clock.secs(60))
            ven.client.add_handler('on_event', self.on_event)
            ven.client.add_handler('on_update_event', self.on_event)
            # faults while starting, after the registration itself
            start = case['start']
            if start:
                t = start['reply to']
                reply = self.fault(start['fault'])
                if t == 'oadrPoll':
                    fake.polls.append(reply)
                else:
                    fake.replies[t] = [reply]
                self.info.tag('start ' + t)
                try:
                    await ven.start()
                except env.Violation:
                    raise
                except Exception as err:
                    raise env.Violation('starting with a faulty reply to %s (%r) raises %s: %s' % (t, reply, type(err).__name__, err))
                self.faults += 1
            else:
                await ven.start()
            got = [m.type for m in fake.take()]
            if not start or start['fault']['kind'] not in ('code', 'unexpected'):
                eq(got, ['oadrQueryRegistration', 'oadrCreatePartyRegistration', 'oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll'], 'the messages at the start')
            eq((ven.client.ven_id, ven.client.registration_id), ('ven0', 'reg0'), 'the ids of the VEN')
            check(not self.calls, 'an event handler was called at the start', self.calls)
            fake.polls.clear()
            fake.replies.clear()
            for op in case['ops']:
                clock.Clock.advance(op['s'])
                if op['op'] == 'faults':
                    for spec in op['specs']:
                        await self.faulty_poll(fake, ven, spec)
                elif op['op'] == 'healthy':
                    await self.healthy(fake, ven, op)
                elif op['op'] == 'half':
                    await self.healthy(fake, ven, op, op['fault'])
                    self.faults += 1
            await self.healthy(fake, ven, dict(what='event'))


LOCATIONS = [None, 'http://', 'http://127.0.0.1:1/OpenADR2/Simple/2.0b/OadrPoll', 'https://127.0.0.1:1/', 'ftp://127.0.0.1/x', 'http://[', 'http://127.0.0.1:99999/']
NOT_HTTP = [b'BODY', b'HTTP/1.1 200 OK\r\ncontent-length: many\r\n\r\nBODY', b'HTTP/1.1 200 OK\r\ncontent-length: -1\r\n\r\nBODY', b'HTTP/1.1 OK\r\n\r\nBODY', b'HTTP/9.9 200 OK\r\n\r\n',
            b'HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\nzz\r\nBODY\r\n0\r\n\r\n', b'HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\ncontent-length: 5\r\n\r\n5\r\n', b'\x16\x03\x01\x02', b'\r\n',
            b'HTTP/1.1 200 OK\r\nx-long: ' + b'a' * 70000 + b'\r\nconnection: close\r\ncontent-length: 0\r\n\r\n', b'HTTP/1.1 200 OK\r\nno colon\r\n\r\nBODY', b'HTTP/1.1 503', b'SSH-2.0-OpenSSH_9\r\n', b'HTTP/1.1 204 No Content\r\nconnection: close\r\n\r\n', b'HTTP/1.1 304 Not Modified\r\nconnection: close\r\n\r\n']
KINDS = ['redirect', 'no http', 'http', 'empty', 'drop', 'partial', 'garbage', 'truncated', 'encoding', 'schema', 'code', 'unexpected']
SIGNED = ['unsigned', 'other certificate', 'tampered', 'stale', 'replayed']


def fault(kinds):
    return rec(kind=st.sampled_from(kinds), base=st.sampled_from(['event', 'event', 'update', 'report', 'response', 'cancel', 'reregister']), status=st.sampled_from([500, 503, 502, 400, 401, 403, 404, 406, 201, 202, 302]),
               flag=st.booleans(), text=gen.text(), at=st.integers(0, 5000), raw=st.one_of(st.text(max_size=30), st.sampled_from(['<', '<a/>', '{}', 'OK', '<html><body>502</body></html>', '\x00', 'null', '<?xml version="1.0"?>'])),
               muts=st.lists(c07.MUT, min_size=1, max_size=3), code=st.sampled_from([400, 404, 450, 451, 452, 453, 454, 459, 463, 469, 500, 503]), message=messages.case(UNEXPECTED))


def strategy(kinds, signed):
    f = fault(kinds)
    s = st.sampled_from([0, 1, 10])
    healthy = st.sampled_from(['event', 'event', 'update', 'report', 'nothing'])
    ops = st.lists(st.one_of(rec(op=st.just('faults'), specs=st.lists(f, min_size=1, max_size=4), s=s), rec(op=st.just('healthy'), what=healthy, s=s),
                             rec(op=st.just('half'), what=st.sampled_from(['event', 'update', 'report']), fault=f, s=s)), min_size=1, max_size=6)
    return rec(signed=st.just(signed), start=st.one_of(st.none(), rec(**{'reply to': st.sampled_from(['oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll']), 'fault': f})), ops=ops)


def run(case, info):
    env.run(World(case, info).run())


def silent(case, info):
    """Several VENs at once, as it takes a while until they give up waiting."""
    async def all_of_them():
        with clock.virtual(T0):
            await asyncio.gather(*[World(c, info).live() for c in case])
    env.run(all_of_them())


SILENCE = fault(['silence'])
QUIET = st.one_of(rec(op=st.just('faults'), specs=st.lists(SILENCE, min_size=1, max_size=1), s=st.just(0)),
                  rec(op=st.just('half'), what=st.sampled_from(['event', 'update', 'report']), fault=SILENCE, s=st.just(0)))
SILENT = rec(signed=st.just(False), start=st.one_of(st.none(), st.none(), rec(**{'reply to': st.sampled_from(['oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll']), 'fault': SILENCE})),
             ops=st.lists(QUIET, min_size=1, max_size=1))

SUITES = [Suite('faults', strategy(KINDS, False), run, 2400, 24000), Suite('signed', strategy(SIGNED * 2 + KINDS, True), run, 700, 7000),
          Suite('silence', st.lists(SILENT, min_size=4, max_size=8), silent, 8, 48)]
