"""C08: unknown VENs are told to re-register."""
from pbt import clock, env, events, gen, overlap, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'the same venID is both unknown (and refused) and known (and served) in the course of the history; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['plain HTTP; the authentication over TLS is property C06']
T0 = events.T0 * 1000000
SERVICES = dict(oadrPoll='OadrPoll', oadrRequestEvent='EiEvent', oadrCreatedEvent='EiEvent', oadrRegisterReport='EiReport', oadrUpdateReport='EiReport',
                oadrCreatedReport='EiReport', oadrCancelPartyRegistration='EiRegisterParty', oadrCreatePartyRegistration='EiRegisterParty',
                oadrQueryRegistration='EiRegisterParty')


def build(kind, ven, op, n):
    rid = 'r%d' % n
    if kind == 'oadrPoll':
        return wire.poll(ven)
    if kind == 'oadrRequestEvent':
        return wire.request_event(ven, rid)
    if kind == 'oadrCreatedEvent':
        return wire.created_event(ven, [dict(event_id='e%d' % op['event'], modification_number=op['mod'], opt_type='optIn')], rid)
    if kind == 'oadrRegisterReport':
        return wire.register_report(ven, [dict(report_specifier_id='s', report_name='METADATA_TELEMETRY_USAGE', duration=3600, descriptions=[
            dict(r_id='p', report_type='usage', reading_type='Direct Read', min=10, max=10)])], rid)
    if kind == 'oadrUpdateReport':
        return wire.update_report(ven, [dict(report_request_id='rr', report_specifier_id='s', values=[(T0, 'p', 1)])], rid)
    if kind == 'oadrCreatedReport':
        return wire.created_report(ven, ['x'], rid)
    if kind == 'oadrCancelPartyRegistration':
        return wire.cancel_party_registration(ven, 'reg', rid)
    if kind == 'oadrCreatePartyRegistration':
        return wire.create_party_registration('name', ven_id=ven, request_id=rid)
    return wire.query_registration(rid)


async def scenario(case, info):
    known, calls, lookups = dict(case['known']), [], []
    vens = case['vens']

    def lookup(ven_id):
        lookups.append(ven_id)
        k = known.get(ven_id)
        return {None: None, 'registered': dict(ven_id=ven_id, ven_name='n', registration_id='reg', fingerprint=None),
                'no id': dict(ven_id=ven_id, ven_name='n'), 'id none': dict(ven_id=ven_id, registration_id=None), 'empty': {}}[k]

    async def alookup(ven_id):
        return lookup(ven_id)

    def handler(name, result=None):
        def f(*a, **kw):
            calls.append(name)
            return result() if callable(result) else result

        async def af(*a, **kw):
            return f(*a, **kw)
        return af if case['async'] else f

    def callback(ven_id, event_id, opt_type):
        calls.append('callback')
    internal = case['mode'] == 'internal'
    # the reference: what the VTN has for each VEN
    have = {v: {} for v in vens}        # event -> [modification number, cancelled, callback pending]
    updated = {v: False for v in vens}
    with clock.virtual(T0):
        async with env.VTN(ven_lookup=alookup if case['async_lookup'] else lookup) as vtn:
            s = vtn.server
            if not internal:
                for name in ('on_poll', 'on_request_event', 'on_created_event'):
                    s.add_handler(name, handler(name))
            for name in ('on_register_report', 'on_update_report', 'on_created_report', 'on_cancel_party_registration'):
                s.add_handler(name, handler(name))
            s.add_handler('on_create_party_registration', handler('on_create_party_registration', lambda: ('new', 'reg')))
            refused, served = set(), set()
            n_events = 0
            for n, op in enumerate(case['ops']):
                ven = vens[op['ven'] % len(vens)]
                del calls[:]
                if op['op'] == 'lookup':
                    known[ven] = op['state']
                    continue
                if op['op'] == 'add':
                    if internal:
                        eid = 'e%d' % n_events
                        n_events += 1
                        s.add_event(ven, 'SIMPLE', 'level', [dict(dtstart=clock.at(T0 + 10 ** 12), duration=clock.secs(60), signal_payload=1)], event_id=eid,
                                    market_context='http://c', callback=callback, delivery_callback=handler('delivery'))
                        have[ven][eid] = [0, False, True]
                        updated[ven] = True
                    continue
                if op['op'] == 'cancel':
                    if internal:
                        eid = 'e%d' % op['event']
                        await env.maybe(s.cancel_event(ven, eid))
                        if eid in have[ven] and not have[ven][eid][1]:
                            have[ven][eid][:2] = [have[ven][eid][0] + 1, True]
                            updated[ven] = True
                    continue
                kind = op['kind']
                reply = await vtn.post(SERVICES[kind], build(kind, ven, op, n))
                what = '%s of %r (operation %d), which the lookup knows as %r' % (kind, ven, n, known.get(ven))
                check(reply.status == 200, 'HTTP %s: %s' % (reply.status, what), reply)
                if kind in ('oadrQueryRegistration', 'oadrCreatePartyRegistration'):
                    eq(reply.type, 'oadrCreatedPartyRegistration', 'reply to ' + what)
                    eq(reply.msg.code, 200, 'code of the reply to ' + what)
                    continue
                if known.get(ven) != 'registered':
                    eq(reply.type, 'oadrRequestReregistration', 'the reply to ' + what)
                    eq(reply.msg.text('ei:venID'), ven, 'the venID in the reply to ' + what)
                    check(not calls, 'a handler ran: ' + what, calls)
                    refused.add(ven)
                    continue
                served.add(ven)
                check(reply.type != 'oadrRequestReregistration', 'refused: ' + what, reply)
                want = []
                if kind in ('oadrPoll', 'oadrRequestEvent'):
                    if not internal:
                        want = ['on_poll' if kind == 'oadrPoll' else 'on_request_event']
                    events_due = have[ven] if kind == 'oadrRequestEvent' or updated[ven] else {}
                    if kind == 'oadrPoll':
                        updated[ven] = False
                    got = {e['event_id']: (e['modification_number'], e['status'] == 'cancelled') for e in wire.read_events(reply.msg)}
                    eq(got, {k: tuple(v[:2]) for k, v in events_due.items()}, 'the events in reply to ' + what)
                    want += ['delivery'] * len(events_due)
                elif kind == 'oadrCreatedEvent':
                    if not internal:
                        want = ['on_created_event']
                    else:
                        e = have[ven].get('e%d' % op['event'])
                        if e is None or e[0] != op['mod']:
                            eq(reply.msg.code, 452, 'the code of the reply to ' + what)
                        else:
                            eq(reply.msg.code, 200, 'the code of the reply to ' + what)
                            if e[2]:
                                want = ['callback']
                            e[2] = False
                            if e[1]:
                                del have[ven]['e%d' % op['event']]
                elif kind == 'oadrUpdateReport':
                    want = ['on_update_report']
                else:
                    want = [{'oadrRegisterReport': 'on_register_report', 'oadrCreatedReport': 'on_created_report',
                             'oadrCancelPartyRegistration': 'on_cancel_party_registration'}[kind]]
                eq(calls, want, 'the handlers that ran for ' + what)
            info.nontrivial(refused & served)
            info.tag('refused %d' % len(refused), 'served %d' % len(served), case['mode'])


STATE = st.sampled_from(['registered', 'registered', None, 'no id', 'id none', 'empty'])
VEN_I = st.integers(0, 2)
OP = st.one_of(
    rec(op=st.just('lookup'), ven=VEN_I, state=STATE), rec(op=st.just('lookup'), ven=VEN_I, state=STATE),
    rec(op=st.just('add'), ven=VEN_I), rec(op=st.just('cancel'), ven=VEN_I, event=st.integers(0, 2)),
    *[rec(op=st.just('send'), ven=VEN_I, kind=k, event=st.integers(0, 2), mod=st.integers(0, 1)) for k in
      (st.sampled_from(sorted(SERVICES)), st.sampled_from(['oadrPoll', 'oadrRequestEvent', 'oadrCreatedEvent']),
       st.just('oadrPoll'), st.just('oadrCreatedEvent'))])
CASE = rec(vens=st.sampled_from([['v1', 'v2', 'v3'], ['1', '01', '1.0'], ['ven', 'Ven', 'ven '.strip() + '1'], ['true', 'True', 'é']]),
           mode=st.sampled_from(['custom', 'internal', 'internal']), async_lookup=st.booleans(), ops=st.lists(OP, min_size=6, max_size=25),
           **{'async': st.booleans()}).flatmap(
               lambda c: st.fixed_dictionaries({v: STATE for v in c['vens']}).map(lambda k: dict(c, known=k)))
SUITES = [Suite('lookup', CASE, lambda c, i: env.run(scenario(c, i)), 9000),
          Suite('overlapping', overlap.strategy(sorted(overlap.SERVICE), lookup=[True], outcomes=['ok']), overlap.run, 1200, 24000)]
