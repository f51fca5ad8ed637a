"""
Requests that overlap in time at one VTN: every handler, callback and lookup waits at a gate, and the
case says which request arrives next or which waiting handler goes on. Every request must be answered
as if it were alone, from what its own handler calls returned.
"""
import asyncio

from pbt import certs, clock, env, gen, wire
from pbt.gen import rec, st
from pbt.runner import check, eq

VTN_ID = 'VTN'
T0 = 1600000000 * 1000000
SERVICE = dict(poll='OadrPoll', request='EiEvent', created='EiEvent', register='EiReport', update='EiReport', confirm='EiReport',
               join='EiRegisterParty', leave='EiRegisterParty', query='EiRegisterParty')
ERRORS = dict(OutOfSequenceError=450, NotAllowedError=451, InvalidDataError=454, ReportNotSupportedError=461, DeploymentError=469)
PATIENCE = 5        # seconds after which a request that does not get anywhere is left alone


class Overlap:
    def __init__(self, case, info, pki=None):
        self.case, self.info, self.pki = case, info, pki
        self.waiting, self.arrived = [], asyncio.Event()
        self.open, self.most, self.calls, self.serial = False, 0, [], 0
        self.returned = {}          # (kind, venID) -> what the polls and event requests are to be answered with
        self.delivered, self.values, self.opted = {}, [], []
        self.internal = case['mode'] == 'internal'
        self.vens = case['vens']
        self.strangers = self.vens[2:] if case['strangers'] and case['lookup'] and not pki else []

    async def gate(self, *what):
        if self.open:
            return
        f = asyncio.get_running_loop().create_future()
        self.waiting.append((what, f))
        self.most = max(self.most, len(self.waiting))
        self.arrived.set()
        await f

    # ---- what the VTN is given

    async def lookup(self, ven_id):
        await self.gate('lookup', ven_id)
        return dict(ven_id=ven_id, ven_name='n ' + ven_id, registration_id='reg', fingerprint=self.fingerprint(ven_id)) if ven_id in self.vens and ven_id not in self.strangers else None

    async def fingerprint_lookup(self, ven_id):
        await self.gate('fingerprint', ven_id)
        return self.fingerprint(ven_id)

    def fingerprint(self, ven_id):
        return certs.fingerprint(self.pki['clients'][self.vens.index(ven_id)][0]) if self.pki and ven_id in self.vens else None

    def event(self, ven_id, eid):
        return dict(event_descriptor=dict(event_id=eid, modification_number=0, modification_date_time=clock.at(T0), market_context='http://c', event_status='far',
                                          created_date_time=clock.at(T0), test_event=False, vtn_comment='for ' + ven_id),
                    active_period=dict(dtstart=clock.at(T0 + 10 ** 9), duration=clock.secs(60)), response_required='always', targets=[dict(ven_id=ven_id)],
                    event_signals=[dict(intervals=[dict(dtstart=clock.at(T0 + 10 ** 9), duration=clock.secs(60), signal_payload=1)],
                                        signal_name='SIMPLE', signal_type='level', signal_id='s')])

    def outcome(self, n):
        return self.case['requests'][n]['outcome'] if n < len(self.case['requests']) else 'ok'

    def raises(self, outcome, text):
        from openleadr import errors
        if outcome in ERRORS:
            raise getattr(errors, outcome)(text)
        if outcome == 'raise':
            raise ValueError(text)

    def asked(self, kind):
        async def handler(ven_id):
            k, self.serial = self.serial, self.serial + 1
            outcome = self.case['outcomes'][k % len(self.case['outcomes'])]
            await self.gate(kind, ven_id)
            text = '%s %d for %s' % (kind, k, ven_id)
            self.returned.setdefault((kind, ven_id), []).append((ERRORS[outcome], text) if outcome in ERRORS else 500 if outcome == 'raise' else None if outcome == 'nothing' else [text])
            self.raises(outcome, text)
            return None if outcome == 'nothing' else self.event(ven_id, text) if outcome == 'one' else [self.event(ven_id, text)]
        return handler

    async def on_created_event(self, ven_id, event_id, opt_type):
        self.calls.append(('created', ven_id, event_id, opt_type))
        await self.gate('created', ven_id)
        self.raises(self.outcome(int(event_id.split('.')[0])), 'created ' + event_id)

    def compact(self):
        async def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            n, i, j = map(int, resource_id.split('.'))
            self.calls.append(('register', ven_id, n, i, j, int(min_sampling_interval.total_seconds())))
            await self.gate('several', n)
            self.raises(self.outcome(n), 'register %d' % n)
            return (self.collector(ven_id, n, i, j), min_sampling_interval) if self.wants(n, i, j) else None
        return on_register_report

    def full(self):
        async def on_register_report(report):
            n, i = map(int, report['report_specifier_id'].split('.'))
            self.calls.append(('register', n, i, len(report['report_descriptions'])))
            await self.gate('register', n)
            self.raises(self.outcome(n), 'register %d' % n)
            out = []
            for rd in report['report_descriptions']:
                _, _, j = map(int, rd['report_data_source']['resource_id'].split('.'))
                if self.wants(n, i, j):
                    out.append((rd['r_id'], self.collector(None, n, i, j), rd['sampling_rate']['min_period']))
            return out
        return on_register_report

    def wants(self, n, i, j):
        return n >= len(self.case['requests']) or (self.case['requests'][n]['wants'] >> (2 * i + j)) & 1

    def collector(self, ven_id, n, i, j):
        async def collect(values):
            self.values.append((n, i, j, [v for _, v in values]))
            await self.gate('collect', n)
        return collect

    async def on_update_report(self, report):
        self.calls.append(('update', report['report_request_id'], len(report['intervals'])))
        await self.gate('update', None)
        self.raises(self.outcome(int(report['report_request_id'].split('.')[0])), 'update')

    async def on_created_report(self, payload):
        self.calls.append(('confirm', payload['ven_id'], [r['report_request_id'] if 'report_request_id' in r else r['request_id'] for r in payload['pending_reports']]))
        await self.gate('confirm', payload['ven_id'])
        self.raises(self.outcome(int(payload['pending_reports'][0].get('report_request_id') or payload['pending_reports'][0]['request_id'])), 'confirm')

    async def on_create_party_registration(self, payload):
        name, fp = payload['ven_name'], payload.get('fingerprint')
        n = int(name.split()[1])
        self.calls.append(('join', name, payload.get('ven_id'), fp))
        await self.gate('join', name)
        self.raises(self.outcome(n), 'join %d' % n)
        return False if self.outcome(n) == 'nothing' else ('id of ' + name, 'reg of ' + name)

    async def on_cancel_party_registration(self, payload):
        rid = payload['registration_id']
        self.calls.append(('leave', payload['ven_id'], rid))
        await self.gate('leave', rid)
        self.raises(self.outcome(int(rid.split()[1])), 'leave ' + rid)
        return 'oadrCanceledPartyRegistration', dict(registration_id=rid)

    async def on_query_registration(self, payload):
        n = int(payload['request_id'][1:])
        self.calls.append(('query', n))
        await self.gate('query', n)
        self.raises(self.outcome(n), 'query %d' % n)
        return 'oadrCreatedPartyRegistration', dict(request_id=payload['request_id'], profiles=[dict(profile_name='2.0b', transports=[dict(transport_name='simpleHttp')])],
                                                    requested_oadr_poll_freq=clock.secs(1000 + n))

    def install(self, s):
        c = self.case
        if not self.internal:
            s.add_handler('on_poll', self.asked('poll'))
            s.add_handler('on_request_event', self.asked('request'))
            s.add_handler('on_created_event', self.on_created_event)
        s.add_handler('on_register_report', self.compact() if c['compact'] else self.full())
        for name in ('on_update_report', 'on_created_report', 'on_create_party_registration', 'on_cancel_party_registration', 'on_query_registration'):
            s.add_handler(name, getattr(self, name))
        if self.internal:
            for v in self.vens:
                for i in range(2):
                    eid = '%d of %s' % (i, v)

                    async def response(ven_id, event_id, opt_type, key=(v, eid)):
                        self.opted.append((key, ven_id, event_id, opt_type))
                        await self.gate('response', ven_id)

                    async def delivery(key=(v, eid)):
                        self.delivered[key] = self.delivered.get(key, 0) + 1
                        await self.gate('delivery', key)
                    s.add_event(v, 'SIMPLE', 'level', [dict(dtstart=clock.at(T0 + 10 ** 9 + i), duration=clock.secs(60), signal_payload=1)], event_id=eid,
                                market_context='http://c', callback=response, delivery_callback=delivery)

    # ---- the requests

    def offers(self, n, reports):
        return [dict(report_specifier_id='%d.%d' % (n, i), report_name='METADATA_TELEMETRY_' + ('USAGE' if self.case['usage'] else 'STATUS'), duration=3600, descriptions=[
            dict(r_id='p%d' % j, resource_id='%d.%d.%d' % (n, i, j), min=10 + n, max=60 + n, reading_type=['Direct Read', 'Mean'][n % 2],
                 measurement=dict(ns='power', name='powerReal', description='RealPower', unit='W', scale='none', power=(50, 230, True))) for j in range(k)])
            for i, k in enumerate(reports)]

    def body(self, n, r):
        v, k, rid = self.vens[r['ven']], r['kind'], 'r%d' % n
        if k == 'poll':
            return wire.poll(v)
        if k == 'request':
            return wire.request_event(v, rid)
        if k == 'created':
            return wire.created_event(v, [dict(event_id='%d of %s' % (i, v) if self.internal else '%d.%d' % (n, i), modification_number=0, opt_type=o)
                                          for i, o in enumerate(r['opts'])], rid)
        if k == 'register':
            return wire.register_report(v, self.offers(n, r['reports']), rid)
        if k == 'update':
            return wire.update_report(v, [dict(report_request_id=self.rrids[v] if self.rrids else '%d.x' % n, report_specifier_id='s',
                                               values=[(T0 + 1000000 * i, 'p%d' % (i % 2), n * 100 + i) for i in range(r['values'])])], rid)
        if k == 'confirm':
            return wire.created_report(v, ['%d' % n, 'x'], rid)
        if k == 'join':
            return wire.create_party_registration('name %d' % n, ven_id=v if r['opts'][0] == 'optIn' else None, request_id=rid)
        if k == 'leave':
            return wire.cancel_party_registration(v, 'reg %d' % n, rid)
        return wire.query_registration(rid)

    def cert(self, r):
        if not self.pki:
            return None
        c = self.pki['clients'][r['tls']]
        return certs.as_file(c[0]), certs.as_file(c[1]), certs.as_file(self.pki['ca'][0])

    def refused(self, r):
        """Whether the VTN must not let this request through."""
        k = r['kind']
        if k == 'query' or k == 'join' and r['opts'][0] != 'optIn':
            return None
        if self.vens[r['ven']] in self.strangers and k != 'join':
            return 'stranger'
        return 'client' if self.pki and r['tls'] != r['ven'] else None

    async def progress(self, tasks):
        """Until a handler waits or a request is answered."""
        pending = [t for t in tasks if not t.done()]
        if not pending:
            return
        arrived = asyncio.ensure_future(self.arrived.wait())
        await asyncio.wait(pending + [arrived], timeout=PATIENCE, return_when=asyncio.FIRST_COMPLETED)
        arrived.cancel()
        for _ in range(3):
            await asyncio.sleep(0)

    def verdict(self, n, r, reply, calls):
        """Compares the reply and the handler calls with what this request alone leads to."""
        v, k, rid = self.vens[r['ven']], r['kind'], 'r%d' % n
        what = 'request %d (%r) of %r' % (n, r, v)
        if self.refused(r) == 'stranger':
            check(reply.status == 200 and reply.raw, 'the reply to ' + what, reply)
            eq([reply.type, reply.msg.text('ei:venID')], ['oadrRequestReregistration', v], 'the reply to ' + what + ', which the lookup does not know')
            return None
        if self.refused(r):
            check(reply.status >= 400 or reply.type == 'oadrRequestReregistration' or reply.msg.code not in (None, 200), 'no error in the reply to ' + what + ' from the wrong client', reply)
            return None
        outcome = r['outcome'] if not (self.internal and k in ('poll', 'request', 'created')) else 'ok'
        if k in ('poll', 'request'):
            if reply.status == 500:
                return 500
            check(reply.status == 200 and reply.raw, 'the reply to ' + what, reply)
            if reply.msg.code not in (None, 200):
                eq(reply.type, 'oadrDistributeEvent' if k == 'request' else 'oadrResponse', 'the type of the error in reply to ' + what)
                return reply.msg.code, reply.msg.text('ei:eiResponse/ei:responseDescription')
            if reply.msg.one('ei:venID') is not None:
                eq(reply.msg.text('ei:venID'), v, 'the venID in the reply to ' + what)
            if reply.msg.one('ei:vtnID') is not None:
                eq(reply.msg.text('ei:vtnID'), VTN_ID, 'the vtnID in the reply to ' + what)
            if k == 'request' and not (reply.type == 'oadrDistributeEvent'):
                eq(reply.msg.text('ei:eiResponse/pyld:requestID'), rid, 'the requestID in the reply to ' + what)
            if reply.type == 'oadrResponse':
                return None
            eq(reply.type, 'oadrDistributeEvent', 'the type of the reply to ' + what)
            es = wire.read_events(reply.msg)
            for e in es:
                eq([t.get('ven_id') for t in e['targets']], [v], 'the target of an event in the reply to ' + what)
            return [e['event_id'] for e in es]
        empty = k == 'created' and not r['opts'] or k == 'update' and self.rrids
        if outcome == 'raise' and not empty:
            eq(reply.status, 500, 'the status of the reply to ' + what)
            return None
        check(reply.status == 200 and reply.raw, 'the reply to ' + what, reply)
        m = reply.msg
        if outcome in ERRORS and not empty:
            eq(m.type, 'oadrResponse', 'the type of the error in reply to ' + what)
            eq(m.code, ERRORS[outcome], 'the code of the reply to ' + what)
            check((m.text('ei:eiResponse/ei:responseDescription') or '').startswith(k), 'the description in the reply to ' + what, reply)
            return None
        eq(m.type, dict(created='oadrResponse', register='oadrRegisteredReport', update='oadrUpdatedReport', confirm='oadrResponse', join='oadrCreatedPartyRegistration',
                        leave='oadrCanceledPartyRegistration', query='oadrCreatedPartyRegistration')[k], 'the type of the reply to ' + what)
        eq(m.code, 200, 'the code of the reply to ' + what)
        if k not in ('created', 'confirm'):
            eq(m.text('ei:eiResponse/pyld:requestID'), rid, 'the requestID in the reply to ' + what)
        if k in ('created', 'register', 'update', 'confirm') or k == 'leave' and m.one('ei:venID') is not None:
            eq(m.text('ei:venID'), v, 'the venID in the reply to ' + what)
        if k == 'join' and outcome != 'nothing':
            eq([m.text('ei:venID'), m.text('ei:registrationID')], ['id of name %d' % n, 'reg of name %d' % n], 'the ids in the reply to ' + what)
        if k == 'join' and outcome == 'nothing':
            check(not m.text('ei:registrationID'), 'the registrationID in the reply to ' + what)
        if k == 'leave':
            eq(m.text('ei:registrationID'), 'reg %d' % n, 'the registrationID in the reply to ' + what)
        if k == 'query':
            eq(wire.read_dur(m.text('oadr:oadrRequestedOadrPollFreq/xcal:duration')), 1000 + n, 'the poll frequency in the reply to ' + what)
        if k == 'register':
            got = [wire.read_report_request(x) for x in m.all('oadr:oadrReportRequest')]
            want = [('%d.%d' % (n, i), 10 + n, [('p%d' % j, ['Direct Read', 'Mean'][n % 2]) for j in range(p) if self.wants(n, i, j)]) for i, p in enumerate(r['reports'])]
            eq([(g['report_specifier_id'], g['granularity'], [(p['r_id'], p['reading_type']) for p in g['payloads']]) for g in got], [w for w in want if w[2]], 'the requested reports in the reply to ' + what)
            return got
        return None

    async def run(self):
        from openleadr import messaging     # noqa: F401
        case = self.case
        kw = {}
        if self.pki:
            kw.update(http_cert=certs.as_file(self.pki['server'][0]), http_key=certs.as_file(self.pki['server'][1]), http_ca_file=certs.as_file(self.pki['ca'][0]),
                      verify_message_signatures=False)
        if self.pki and case['lookup'] == 'fingerprint':
            kw['fingerprint_lookup'] = self.fingerprint_lookup
        elif self.pki or case['lookup']:
            kw['ven_lookup'] = self.lookup
        with clock.virtual(T0):
            async with env.VTN(VTN_ID, **kw) as vtn:
                self.install(vtn.server)
                requests, self.rrids = case['requests'], {}
                first = len(requests)
                if case['registered']:
                    self.open = True
                    for i, v in enumerate(self.vens):
                        if v in self.strangers:
                            self.rrids[v] = 'none'
                            continue
                        reply = await vtn.post('EiReport', wire.register_report(v, self.offers(first + i, [2]), 'r'), cert=self.cert(dict(tls=i)))
                        self.rrids[v] = wire.read_report_request(reply.msg.one('oadr:oadrReportRequest'))['report_request_id']
                    self.open = False
                else:
                    requests = [dict(r, kind='update') if r['kind'] == 'register' else r for r in requests]
                self.calls = []
                tasks, done, ended = [], [], set()
                for step in case['schedule'] + [0] * 200:
                    left = len(requests) - len(tasks)
                    options = ([None] if left else []) + self.waiting
                    if not options:
                        if all(t.done() for t in tasks):
                            break
                        await self.progress(tasks)
                        continue
                    # a late start keeps many in progress; higher numbers prefer what came last
                    chosen = options[step % len(options)]
                    self.arrived.clear()
                    if chosen is None:
                        n = len(tasks)
                        r = requests[n]
                        tasks.append(asyncio.ensure_future(vtn.post(SERVICE[r['kind']], self.body(n, r), cert=self.cert(r))))
                    else:
                        self.waiting.remove(chosen)
                        chosen[1].set_result(None)
                        what, n = chosen[0][:2]
                        if what == 'several':       # one of several handler calls for the same request
                            fails = self.outcome(n) in ERRORS or self.outcome(n) == 'raise'
                            if n in ended if fails else chosen[0] in [w for w, _ in self.waiting]:
                                await asyncio.sleep(0)
                                continue
                            ended.add(n)
                    await self.progress(tasks)
                    done += [i for i, t in enumerate(tasks) if t.done() and i not in done]
                self.open = True
                for _, f in self.waiting:
                    f.set_result(None)
                replies = await asyncio.gather(*tasks)
                asked, accepted = {}, []
                for n, (r, reply) in enumerate(zip(requests, replies)):
                    got = self.verdict(n, r, reply, None)
                    if r['kind'] in ('poll', 'request') and not self.refused(r):
                        asked.setdefault((r['kind'], self.vens[r['ven']]), []).append(got)
                    if r['kind'] == 'register' and got and not self.refused(r):
                        accepted += [(n, r, g) for g in got]
                self.totals(requests, asked)
                # the callbacks of all registrations still belong to them
                for n, r, g in accepted:
                    self.values = []
                    rids = [p['r_id'] for p in g['payloads']]
                    await vtn.post('EiReport', wire.update_report(self.vens[r['ven']], [dict(report_request_id=g['report_request_id'], report_specifier_id=g['report_specifier_id'],
                                                                  values=[(T0, x, 7 + i) for i, x in enumerate(rids)])]), cert=self.cert(r))
                    i = int(g['report_specifier_id'].split('.')[1])
                    eq(self.values, [(n, i, int(x[1:]), [7 + k]) for k, x in enumerate(rids)], 'the values that arrive for the report request in reply to request %d' % n)
                self.info.tag('%d waiting at once' % min(self.most, 6), 'answered in another order' if done != sorted(done) else 'answered in order', *sorted({r['kind'] for r in requests}))
                self.info.nontrivial(self.most > 1 and done != sorted(done))

    def totals(self, requests, asked):
        """What all requests together were answered with, and which handlers they reached."""
        if self.internal:
            for v in self.vens:
                all_events = ['%d of %s' % (i, v) for i in range(2)]
                for g in asked.get(('request', v), []):
                    eq(g, all_events, 'the events in reply to a request of %r' % v)
                polls = asked.get(('poll', v), [])
                if polls:
                    eq(sorted(p or [] for p in polls), [[]] * (len(polls) - 1) + [all_events], 'the events in reply to the polls of %r' % v)
                n = len(asked.get(('request', v), [])) + min(len(polls), 1)
                for eid in all_events:
                    eq(self.delivered.get((v, eid), 0), n, 'the number of calls of the delivery callback of %r' % eid)
                    given = [o for r in requests if r['kind'] == 'created' and self.vens[r['ven']] == v and not self.refused(r)
                             for i, o in enumerate(r['opts']) if '%d of %s' % (i, v) == eid]
                    got = [x for x in self.opted if x[0] == (v, eid)]
                    eq(len(got), min(len(given), 1), 'the number of calls of the response callback of %r' % eid)
                    for _, ven_id, event_id, opt in got:
                        check((ven_id, event_id) == (v, eid) and opt in given, 'the response callback of %r of %r' % (eid, v), got)
        else:
            for key in set(asked) | set(self.returned):
                eq(sorted(map(repr, asked.get(key, []))), sorted(map(repr, self.returned.get(key, []))), 'the replies to %s, and what the handler returned (or raised) for it' % (key,))
        want, may = [], []
        for n, r in enumerate(requests):
            v, k = self.vens[r['ven']], r['kind']
            if self.refused(r):
                continue
            fails = r['outcome'] in ERRORS or r['outcome'] == 'raise'
            if k == 'created' and not self.internal:
                cs = [('created', v, '%d.%d' % (n, i), o) for i, o in enumerate(r['opts'])]
                want += cs[:1] if fails else cs
            elif k == 'register':
                for i, p in enumerate(r['reports']):
                    if self.case['compact']:
                        want += [('register', v, n, i, j, 10 + n) for j in range(p)]
                    else:
                        want.append(('register', n, i, p))
                    if fails:
                        break
            elif k == 'update' and not self.rrids:
                want.append(('update', '%d.x' % n, r['values']))
            elif k == 'confirm':
                want.append(('confirm', v, ['%d' % n, 'x']))
            elif k == 'join':
                want.append(('join', 'name %d' % n, v if r['opts'][0] == 'optIn' else None, certs.fingerprint(self.pki['clients'][r['tls']][0]) if self.pki else None))
            elif k == 'leave':
                want.append(('leave', v, 'reg %d' % n))
            elif k == 'query':
                want.append(('query', n))
        eq(sorted(map(repr, self.calls)), sorted(map(repr, want)), 'the handler calls')
        first = len(requests)
        want = []
        for n, r in enumerate(requests):
            if r['kind'] == 'update' and self.rrids and not self.refused(r):
                for j in range(2):
                    values = [n * 100 + i for i in range(r['values']) if i % 2 == j]
                    if values:
                        want.append((first + r['ven'], 0, j, values))
        eq(sorted(self.values), sorted(want), 'the values that reached the report callbacks')


OUTCOMES = ['ok'] * 5 + ['nothing', 'raise'] + sorted(ERRORS)


def strategy(kinds, lookup=(False, False, True), modes=('custom', 'internal'), outcomes=OUTCOMES):
    # of a case mostly one or two kinds, so that the same code is entered again
    request = rec(kind=st.integers(0, 5), ven=st.sampled_from([0, 1, 2, 0, 1]), outcome=st.sampled_from(list(outcomes)), wants=st.sampled_from([15, 15, 3, 1, 2, 0, 14]),
                  reports=st.lists(st.integers(1, 2), min_size=1, max_size=2), opts=st.lists(st.sampled_from(['optIn', 'optOut']), min_size=1, max_size=2),
                  values=st.integers(1, 4), tls=st.integers(0, 5))

    def fill(c):
        chosen = c.pop('kinds')
        c['requests'] = [dict(r, kind=chosen[r['kind'] % len(chosen)], tls=r['ven'] if r['tls'] > 2 else r['tls']) for r in c['requests']]
        return c
    return rec(mode=st.sampled_from(list(modes)), lookup=st.sampled_from(list(lookup)), compact=st.booleans(), strangers=st.booleans(), usage=st.sampled_from([True, True, False]), registered=st.sampled_from([True, True, False]),
               vens=st.sampled_from([['v1', 'v2', 'v3'], ['1', '01', '10'], ['ven', 'Ven', 'ven1']]), outcomes=st.lists(st.sampled_from(['ok', 'ok', 'one'] + list(outcomes)), min_size=1, max_size=6),
               kinds=st.lists(st.sampled_from(list(kinds)), min_size=1, max_size=3), requests=st.lists(request, min_size=2, max_size=6),
               schedule=st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 7, 11]), min_size=4, max_size=30)).map(fill)


def run(case, info, pki=None):
    async def go():
        await Overlap(case, info, pki).run()
    env.run(go())
