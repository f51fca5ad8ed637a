"""C22: registration yields consistent identities on both sides."""
import asyncio
from pbt import clock, env, events, gen, overlap, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'a VEN that gets another venID than it was configured with, registers more than once, or is refused; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['VTNs return a venID whenever they return a registrationID to a VEN that has none configured', 'poll frequencies are whole seconds; above 24 hours the documented limit of 24 hours is used',
               'when a re-registration fails with an error (not a rejection), the VEN may stop or try again later']
T0 = events.T0 * 1000000
DAY = 86400
BAD = {'false': False, 'none': None, 'empty': (), 'one': ('v',), 'three': ('v', 'r', 'x'), 'number': 5, 'true': True, 'nothing in it': (None, None), 'no registration': ('v', None), 'raise': ValueError}


async def check_stopped(ven, seen, what):
    """It does not think that it is registered, and there is nothing left that makes it send requests."""
    c = ven.client
    check(not c.registration_id, 'the VEN considers itself registered after ' + what, c.registration_id)
    if c.scheduler.running:
        for job in ven.jobs():
            await ven.run_job(job)
    await env.settle()
    check(not seen(), 'the VEN still sends requests after ' + what, seen())


# ------------------------------------------------------------ real VTN

class World:
    def __init__(self, case, info):
        self.case, self.info = case, info
        self.seen, self.known, self.given = [], {}, 0
        self.plan, self.result = [], None
        self.vens = {}

    def handler(self, f):
        async def af(*a, **kw):
            await asyncio.sleep(0)
            return f(*a, **kw)
        return af if self.case['async'] else f

    def on_create(self, info):
        self.seen.append(('register', dict(info)))
        if not self.plan:
            self.seen.append('without a registration')
            return False
        self.result = self.plan.pop()
        if isinstance(self.result, tuple) and len(self.result) == 2 and self.result[0] and self.result[1]:
            self.known[self.result[0]] = self.result[1]
        if self.result is ValueError:
            raise ValueError('no')
        return self.result

    def lookup(self, ven_id):
        return dict(ven_id=ven_id, ven_name='x', fingerprint='x', registration_id=self.known[ven_id]) if ven_id in self.known else None

    def next_result(self, r):
        if r['kind'] != 'ok':
            return BAD[r['kind']]
        self.given += 1
        return ('%d%s' % (self.given, r['ven_id']), '%d%s' % (self.given, r['registration_id']))

    def expect_registration(self, seen, m, params, what):
        check(len(seen) == 1, 'the number of registrations the handler sees for ' + what, seen)
        got = {k: v for k, v in seen[0][1].items() if v is not None and k not in ('request_id', 'vtn_id', 'response')}
        want = dict(ven_name=m['name'], **params)
        if m['ven_id'] is not None:
            want['ven_id'] = m['ven_id']
        eq(got, {k: v for k, v in want.items() if v is not None}, 'what the registration handler is told about ' + what)

    def adopt(self, m):
        """The model of a VEN after the registration that just took place."""
        r = self.result
        if isinstance(r, tuple) and len(r) == 2 and r[0] and r[1]:
            if m['ven_id'] not in (None, r[0]) or m['registration_id'] is not None:
                self.info.nontrivial()
            m.update(ven_id=r[0], registration_id=r[1], on=True)
            return True
        self.info.nontrivial()
        self.info.tag('refused')
        return False

    def check_client(self, ven, m, what):
        eq(ven.client.ven_id, m['ven_id'], 'the venID that the VEN has after ' + what)
        eq(ven.client.registration_id, m['registration_id'], 'the registrationID that the VEN has after ' + what)
        check(ven.client.poll_frequency is not None, 'no poll frequency')
        eq(min(ven.client.poll_frequency.total_seconds(), DAY), min(self.case['poll_freq'], DAY) if m['on'] else None, 'the poll frequency after ' + what)

    def ids(self, m, what, *kinds):
        seen, self.seen = self.seen, []
        eq(seen, [(k, m['ven_id']) for k in kinds], 'the requests with their venIDs for ' + what)


PARAMS = dict(http_pull_model=True, xml_signature=False, report_only=False, profile_name='2.0b', transport_name='simpleHttp')


async def real(case, info):
    w = World(case, info)
    kw = dict(ven_lookup=w.handler(w.lookup)) if case['lookup'] else {}
    with clock.virtual(T0):
        async with env.VTN(case['vtn_id'], requested_poll_freq=clock.secs(case['poll_freq']), **kw) as vtn:
            s = vtn.server
            s.add_handler('on_create_party_registration', w.handler(w.on_create))
            s.add_handler('on_poll', w.handler(lambda ven_id: w.seen.append(('poll', ven_id))))
            s.add_handler('on_request_event', w.handler(lambda ven_id: w.seen.append(('request', ven_id))))
            s.add_handler('on_cancel_party_registration', w.handler(lambda m: w.seen.append(('cancel', m['ven_id'], m['registration_id']))))
            vens = {}
            try:
                for n, op in enumerate(case['ops']):
                    i = op['ven'] % len(case['vens'])
                    spec = case['vens'][i]
                    if i not in vens:
                        vens[i] = (env.VEN(vtn.base, spec['name'], ven_id=spec['ven_id']), dict(name=spec['name'], ven_id=spec['ven_id'], registration_id=None, on=False, stopped=False))
                    ven, m = vens[i]
                    if m['stopped']:
                        continue
                    what = 'operation %d (%s) of %r' % (n, op['op'], spec)
                    if not m['on']:
                        w.plan = [w.next_result(op['result'])]
                        await ven.start()
                        await env.settle()
                        seen, w.seen = w.seen, []
                        w.expect_registration([x for x in seen if x[0] == 'register'], m, PARAMS, what)
                        if w.adopt(m):
                            eq([x for x in seen if x[0] != 'register'], [('request', m['ven_id']), ('poll', m['ven_id'])], 'the requests after the registration, ' + what)
                            w.check_client(ven, m, what)
                        else:
                            eq([x for x in seen if x[0] != 'register'], [], 'the requests after a refused registration (%r), %s' % (w.result, what))
                            await check_stopped(ven, lambda: w.seen, 'the registration was answered with %r, %s' % (w.result, what))
                            m['stopped'] = True
                        continue
                    if op['op'] == 'poll':
                        await ven.poll(min(case['poll_freq'], DAY))
                        w.ids(m, what, 'poll')
                    elif op['op'] == 'request':
                        await ven.client.request_event()
                        w.ids(m, what, 'request')
                    elif op['op'] == 'register':
                        w.plan = [w.next_result(op['result'])]
                        p = op['params']
                        await ven.client.create_party_registration(**p)
                        seen, w.seen = w.seen, []
                        w.expect_registration(seen, m, p, what)
                        if not w.adopt(m):
                            if not isinstance(w.result, (bool, type(None), tuple)) or w.result in (ValueError, True):
                                break       # the VTN answered with an error: nothing is promised about the old registration
                            check(not ven.client.registration_id, 'the VEN considers itself registered: ' + what, ven.client.registration_id)
                            break
                        w.check_client(ven, m, what)
                    elif op['op'] == 'forget' and case['lookup']:
                        w.known.pop(m['ven_id'], None)
                        r = op['result']
                        if r['kind'] in ('number', 'true', 'raise'):
                            r = dict(r, kind='false')
                        w.plan = [w.next_result(r)]
                        await ven.poll(min(case['poll_freq'], DAY))
                        await env.settle()
                        seen, w.seen = w.seen, []
                        w.expect_registration([x for x in seen if x[0] == 'register'], m, dict(PARAMS, registration_id=m['registration_id']), what)
                        if w.adopt(m):
                            eq([x for x in seen if x[0] != 'register'], [('request', m['ven_id'])], 'the requests after the re-registration, ' + what)
                            w.check_client(ven, m, what)
                            info.tag('re-registered')
                        else:
                            eq([x for x in seen if x[0] != 'register'], [], 'the requests after a refused re-registration, ' + what)
                            await check_stopped(ven, lambda: w.seen, 'the re-registration was answered with %r, %s' % (w.result, what))
                            m['stopped'] = True
                    elif op['op'] == 'cancel':
                        await ven.client.cancel_party_registration()
                        seen, w.seen = w.seen, []
                        eq(seen, [('cancel', m['ven_id'], m['registration_id'])], 'the cancellation that the VTN sees, ' + what)
                info.tag('%d VENs' % len(vens))
                for ven, m in vens.values():    # nobody was affected by the others
                    if m['on'] and not m['stopped'] and not w.plan and w.result is not ValueError:
                        if ven.client.registration_id == m['registration_id']:
                            await ven.poll(min(case['poll_freq'], DAY))
                            if case['lookup'] and m['ven_id'] not in w.known:
                                continue
                            w.ids(m, 'the last poll', 'poll')
            finally:
                for ven, m in vens.values():
                    await ven.__aexit__()


# ------------------------------------------------------------ scripted VTN

UNREGISTERED = ['rejected', 'code', 'code with ids', 'response', 'response code', 'http', 'drop', 'empty', 'garbage', 'reregister', 'event']


def script(fake, r, n, freq):
    k = r['kind']
    rid = lambda m: m.text('pyld:requestID')    # noqa: E731
    if k == 'ok':
        return lambda m: wire.created_party_registration(r['registration_id'], r['ven_id'], fake.vtn_id, rid(m), freq)
    if k == 'rejected':
        return lambda m: wire.created_party_registration(None, None, fake.vtn_id, rid(m), freq)
    if k == 'code':
        return lambda m: wire.created_party_registration(None, None, fake.vtn_id, rid(m), freq, 452, 'no')
    if k == 'code with ids':
        return lambda m: wire.created_party_registration(r['registration_id'], r['ven_id'], fake.vtn_id, rid(m), freq, 463, 'no')
    if k == 'response':
        return lambda m: wire.oadr_response('v', rid(m))
    if k == 'response code':
        return lambda m: wire.oadr_response('v', rid(m), 451, 'no')
    if k == 'reregister':
        return lambda m: wire.request_reregistration('v')
    if k == 'event':
        return lambda m: wire.distribute_event([], fake.vtn_id, 'r')
    return dict(http=dict(status=r['status'], body='no'), drop=dict(drop=True), empty=dict(body=b''), garbage=dict(body=b'<x'))[k]


async def scripted(case, info):
    with clock.virtual(T0):
        async with env.FakeVTN() as fake, env.VEN(fake.url, case['name'], ven_id=case['preset']) as ven:
            if case['reports']:
                ven.client.add_report(lambda: 1, 'res', 'voltage', report_specifier_id='s', r_id='r', sampling_rate=clock.secs(10))
            q = case['query']
            if q is not None:
                fake.replies['oadrQueryRegistration'] = [script(fake, q, 0, 4711)]
            ven_id, reg = case['preset'], None
            freq = None
            for n, r in enumerate(case['registrations']):
                freq_n = None if r['freq'] is None else r['freq']
                fake.replies['oadrCreatePartyRegistration'] = [script(fake, r, n, freq_n)]
                what = 'registration %d answered with %r' % (n, r)
                if n == 0:
                    what += ' (the query with %r)' % q
                    await ven.start()
                else:
                    fake.polls.append(wire.request_reregistration(ven_id))
                    await ven.poll(freq)
                got = fake.take()
                creates = [m for m in got if m.type == 'oadrCreatePartyRegistration']
                if n == 0 and not creates:      # it gave up after the query failed
                    check(q is not None and q['kind'] not in ('ok', 'rejected'), 'the VEN does not register', [m.type for m in got])
                    await check_stopped(ven, fake.take, 'no registration')
                    return
                eq(len(creates), 1, 'the number of registration requests for ' + what)
                eq(creates[0].text('ei:venID'), ven_id, 'the venID in the registration request, ' + what)
                eq(creates[0].text('oadr:oadrVenName'), case['name'], 'the venName in the registration request, ' + what)
                if n:
                    answers = [m for m in got[:got.index(creates[0])] if m.type == 'oadrResponse']
                    eq([(m.text('ei:eiResponse/ei:responseCode'), m.text('ei:venID')) for m in answers], [('200', ven_id)], 'the answer to the request for ' + what)
                    eq(creates[0].text('ei:registrationID'), reg, 'the registrationID in the request for ' + what)
                after = got[got.index(creates[0]) + 1:]
                if r['kind'] != 'ok':
                    info.nontrivial()
                    info.tag(r['kind'])
                    if n and r['kind'] != 'rejected':
                        return
                    eq([m.type for m in after], [], 'the requests after ' + what)
                    await check_stopped(ven, fake.take, what)
                    return
                info.nontrivial(ven_id not in (None, r['ven_id']) or n)
                ven_id, reg, freq = r['ven_id'], r['registration_id'], min(r['freq'] if r['freq'] is not None else 10, DAY)
                want = (['oadrRegisterReport'] if case['reports'] or 'oadrRegisterReport' in [m.type for m in after] else []) + ['oadrRequestEvent'] + (['oadrPoll'] if n == 0 else [])
                eq([m.type for m in after], want, 'the requests after ' + what)
                for m in after:
                    x = m.text('pyld:eiRequestEvent/ei:venID') if m.type == 'oadrRequestEvent' else m.text('ei:venID')
                    eq(x, ven_id, 'the venID of the %s after %s' % (m.type, what))
                eq((ven.client.ven_id, ven.client.registration_id), (ven_id, reg), 'the ids that the VEN has after ' + what)
                eq(min(ven.client.poll_frequency.total_seconds(), DAY), freq, 'the poll frequency of the VEN after ' + what)
                await ven.poll(freq)
                got = fake.take()
                eq([(m.type, m.text('ei:venID')) for m in got], [('oadrPoll', ven_id)], 'the requests of a poll after ' + what)
                info.tag('registered %d' % n)


FREQ = st.one_of(st.sampled_from([1, 9, 10, 11, 3600, DAY - 1, DAY, DAY + 1, 7 * DAY, 70007]), st.integers(1, 2 * DAY)).filter(lambda x: x not in (env.STATUS_LOG, env.CLEANUP))
RESULT = rec(kind=st.sampled_from(['ok'] * 12 + sorted(BAD)), ven_id=gen.ident(), registration_id=gen.ident())
PARAM = rec(http_pull_model=st.booleans(), xml_signature=st.booleans(), report_only=st.booleans(), profile_name=st.sampled_from(['2.0a', '2.0b']), transport_name=st.sampled_from(['simpleHttp', 'xmpp']),
            transport_address=gen.maybe(gen.text()), registration_id=gen.maybe(gen.ident()))
OP = rec(ven=st.integers(0, 2), op=st.sampled_from(['poll', 'poll', 'request', 'register', 'forget', 'forget', 'cancel']), result=RESULT, params=PARAM)
REAL = rec(vtn_id=st.sampled_from(['VTN', 'Vtn 1']), poll_freq=FREQ, lookup=st.booleans(), vens=st.lists(rec(name=gen.text(), ven_id=gen.maybe(gen.ident())), min_size=1, max_size=3),
           ops=st.lists(OP, min_size=1, max_size=9), **{'async': st.booleans()})
REPLY = rec(kind=st.sampled_from(['ok'] * 12 + UNREGISTERED), ven_id=gen.ident(), registration_id=gen.ident(), freq=st.one_of(st.none(), FREQ), status=st.sampled_from([500, 403, 404, 401, 301, 204]))
SCRIPTED = rec(name=gen.text(), preset=gen.maybe(gen.ident()), reports=st.booleans(), query=st.one_of(st.none(), st.none(), REPLY), registrations=st.lists(REPLY, min_size=1, max_size=4))
SUITES = [Suite('real', REAL, lambda c, i: env.run(real(c, i)), 1200, 12000), Suite('scripted', SCRIPTED, lambda c, i: env.run(scripted(c, i)), 1500, 15000),
          Suite('overlapping', overlap.strategy(['join', 'join', 'leave', 'query']), overlap.run, 600, 12000)]
