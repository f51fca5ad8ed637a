"""C37: opts are sent as given, exactly once, and known until the VTN confirms their cancellation."""
import asyncio
from datetime import timedelta

from pbt import clock, env, gen, messages, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'an opt is cancelled, or a request is not acknowledged, or calls overlap'
ASSUMPTIONS = ['no opt id is used twice', 'an opt that was not acknowledged is not cancelled']

T, D = clock.at, clock.secs
REPLIES = ['ok'] * 6 + ['reject', 'reject', 'response', 'ven response', 'http', 'garbage', 'drop', 'empty', 'invalid']


def xml(type_, reply, opt_id, rid):
    done = 'oadrCreatedOpt' if type_ == 'oadrCreateOpt' else 'oadrCanceledOpt'
    kind, code = reply
    if kind in ('ok', 'reject'):
        return wire.doc(done, wire.response(200 if kind == 'ok' else code, 'OK', rid), wire.el('ei:optID', opt_id))
    if kind == 'response':
        return wire.oadr_response(None, rid, code, 'no')
    if kind == 'ven response':
        return wire.oadr_response('ven0', rid, 200, 'OK')
    return {'http': dict(status=code, body='no'), 'garbage': dict(body='<oadr'), 'drop': dict(drop=True), 'empty': dict(body=''),
            'invalid': dict(body=wire.doc(done, wire.el('ei:optID', opt_id)))}[kind]


def arguments(s, objects_):
    from openleadr import objects
    sub = s['subject']
    kw = dict(opt_type=s['opt_type'], opt_reason=s['opt_reason'],
              targets=[objects.Target(**x) for x in s['targets']] if objects_ else [dict(x) for x in s['targets']])
    for a, b in (('market_context', 'market_context'), ('mrid', 'signal_target_mrid')):
        if s[a] is not None:
            kw[b] = s[a]
    if 'components' in sub:
        c = [dict(dtstart=T(a), duration=D(x)) for a, x in sub['components']]
        kw['vavailability'] = objects.Vavailability([objects.VavailabilityComponent(**x) for x in c]) if objects_ else dict(components=c)
    else:
        kw['event_id'] = sub['event_id']
        if sub['modification_number'] is not None:
            kw['modification_number'] = sub['modification_number']
    if s['own_ids']:
        kw.update(opt_id=s['opt_id'], request_id=s['request_id'])
    return kw


def spoil(kw, how):
    from openleadr import objects
    kw = dict(kw)
    if how == 'type':
        kw['opt_type'] = 'optin'
    elif how == 'reason':
        kw['opt_reason'] = 'Economic'
    elif how == 'mrid':
        kw['signal_target_mrid'] = 'Own'
    elif how == 'neither':
        kw.pop('event_id', None), kw.pop('vavailability', None)
    elif how == 'both':
        kw.setdefault('event_id', 'event')
        kw.setdefault('vavailability', objects.Vavailability([objects.VavailabilityComponent(T(0), timedelta(1))]))
    return kw


class Model:
    def __init__(self):
        self.known, self.gone, self.used = [], [], set()


async def scenario(case, info, now):
    model = Model()
    async with env.FakeVTN() as fake:
        async with env.VEN(fake.url) as ven:
            await ven.start()
            fake.take()
            replies = {}

            def answer(msg):
                reply = replies[msg.text('ei:optID')] if msg.text('ei:optID') in replies else replies[None].pop(0)
                delay, reply = reply
                r = xml(msg.type, reply, msg.text('ei:optID'), msg.text('pyld:requestID') or '')
                if delay and len(replies) + len(replies[None]) > 2:
                    r = dict(dict(body=r) if isinstance(r, str) else r, stall=delay / 20)
                return r
            fake.replies = {'oadrCreateOpt': answer, 'oadrCancelOpt': answer}
            rids = set()
            for op in case['ops']:
                now.now_us += op['wait']
                if op['op'] == 'bad':
                    kw = spoil(arguments(op['opt'], op['objects']), op['how'])
                    try:
                        r = await ven.client.create_opt(**kw)
                    except ValueError:
                        pass
                    else:
                        fail('create_opt accepts an opt with %s' % op['how'], kw, r)
                    eq(fake.take(), [], 'what is sent for an opt with invalid %s' % op['how'])
                    info.tag('bad ' + op['how'])
                    continue
                calls, want = [], []
                replies.clear()
                replies[None] = []
                for part in op['parts']:
                    if part['op'] == 'create':
                        s = part['opt']
                        if s['opt_id'] in model.used and s['own_ids']:
                            continue
                        kw = arguments(s, part['objects'])
                        if s['own_ids']:
                            model.used.add(s['opt_id'])
                            replies[s['opt_id']] = (part['delay'], part['reply'])
                        elif any(w[0] == 'create' and not w[1]['own_ids'] for w in want):
                            continue
                        else:
                            replies[None].append((part['delay'], part['reply']))
                        want.append(('create', s, part['reply']))
                        calls.append(ven.client.create_opt(**kw))
                    else:
                        pool = {'known': model.known, 'gone': model.gone, 'unknown': [gen.near(i, part['n'], model.used) for i in sorted(model.used)] or ['no such opt']}[part['which']]
                        if not pool:
                            continue
                        i = pool[part['n'] % len(pool)]
                        if i in replies:
                            continue
                        replies[i] = (part['delay'], part['reply'])
                        want.append(('cancel', i, part['reply']))
                        calls.append(ven.client.cancel_opt(i))
                        info.tag('cancel ' + part['which'])
                if not calls:
                    continue
                try:
                    async with asyncio.timeout(env.HANG):
                        results = await asyncio.gather(*calls, return_exceptions=True)
                except asyncio.TimeoutError:
                    fail('a call hangs')
                sent = fake.take()
                if len(calls) > 1:
                    info.tag('overlapping')
                    info.nontrivial()
                for (kind, x, reply), result in zip(want, results):
                    if isinstance(result, BaseException):
                        fail('%s raises %r' % (kind, result), x, reply)
                    ok = reply[0] == 'ok'
                    info.nontrivial(not ok or kind == 'cancel')
                    if kind == 'create':
                        mine = [m for m in sent if m.type == 'oadrCreateOpt' and (
                            m.text('ei:optID') == x['opt_id'] if x['own_ids'] else m.text('ei:optID') not in model.used)]
                        eq(len(mine), 1, 'the number of oadrCreateOpt messages for one opt')
                        sent.remove(mine[0])
                        got = messages.opt_read(mine[0])
                        opt_id, rid = got['opt_id'], got['request_id']
                        check(opt_id and rid, 'an opt or request without an id', got)
                        expected = {k: x[k] for k in ('opt_type', 'opt_reason', 'market_context', 'mrid', 'subject')}
                        if 'event_id' in x['subject']:
                            expected['subject'] = dict(x['subject'], modification_number=x['subject']['modification_number'] or 0)
                        expected.update(targets=messages.by_type(x['targets']), ven_id='ven0', created=now.now_us,
                                        opt_id=x['opt_id'] if x['own_ids'] else opt_id, request_id=x['request_id'] if x['own_ids'] else rid)
                        eq(got, expected, 'the opt that is sent')
                        if not x['own_ids']:
                            check(rid not in rids, 'a request id that was used before', rid)
                        model.used.add(opt_id)
                        eq(result, opt_id if ok else False, 'the result of create_opt when the reply is %s' % (reply,))
                        if ok:
                            model.known.append(opt_id)
                        info.tag('create ' + reply[0])
                    else:
                        mine = [m for m in sent if m.type == 'oadrCancelOpt' and m.text('ei:optID') == x]
                        known = x in model.known
                        eq(len(mine), int(known), 'the number of oadrCancelOpt messages for %s opt' % ('a known' if known else 'an unknown or already cancelled'))
                        eq(result, known and ok, 'the result of cancel_opt for %s opt when the reply is %s' % ('a known' if known else 'an unknown', reply))
                        if known:
                            sent.remove(mine[0])
                            rid = mine[0].text('pyld:requestID')
                            check(rid and rid not in rids, 'a cancellation without a request id of its own', rid)
                            eq(mine[0].text('ei:venID'), 'ven0', 'the VEN id of a cancellation')
                            if ok:
                                model.known.remove(x)
                                model.gone.append(x)
                            info.tag('cancelled' if ok else 'cancel ' + reply[0])
                    if kind == 'create' or known:
                        rids.add(rid)
                eq(sent, [], 'further messages')


def run(case, info):
    with clock.virtual(case['now']) as now:
        env.run(scenario(case, info, now))


REPLY = st.tuples(st.sampled_from(REPLIES), st.sampled_from([400, 403, 450, 452, 454, 459, 500])).map(
    lambda x: [x[0], {'http': x[1] if x[1] in (400, 403, 500) else 404}.get(x[0], x[1])])
OPT = rec(opt_id=messages.I, request_id=messages.I, own_ids=st.booleans(), opt_type=st.sampled_from(['optIn', 'optOut']),
          opt_reason=st.sampled_from(['economic', 'emergency', 'mustRun', 'notParticipating', 'outageRunStatus', 'overrideStatus', 'participating', 'x-schedule']),
          market_context=gen.maybe(gen.context()),
          subject=st.one_of(rec(event_id=messages.I, modification_number=gen.maybe(st.integers(0, 50))),
                            rec(components=st.lists(st.tuples(gen.us(), gen.dur()).map(list), min_size=1, max_size=3))),
          targets=st.lists(st.tuples(st.sampled_from(messages.TARGETS), messages.I).map(lambda x: {x[0]: x[1]}), min_size=1, max_size=4),
          mrid=gen.maybe(st.sampled_from(['Thermostat', 'Strip_Heater', 'EVSE', 'x-own'])))
CREATE = rec(op=st.just('create'), opt=OPT, objects=st.booleans(), reply=REPLY, delay=st.sampled_from([0, 0, 0, 1, 2]))
CANCEL = rec(op=st.just('cancel'), which=st.sampled_from(['known', 'known', 'known', 'gone', 'unknown']), n=st.integers(0, 5), reply=REPLY, delay=st.sampled_from([0, 0, 0, 1, 2]))
WAIT = st.one_of(st.just(0), st.integers(0, 10 ** 11))
ONE = rec(op=st.just('go'), wait=WAIT, parts=st.one_of(
    st.lists(CREATE, min_size=1, max_size=1), st.lists(CANCEL, min_size=1, max_size=1), st.lists(st.one_of(CREATE, CANCEL), min_size=2, max_size=5)))
BAD = rec(op=st.just('bad'), wait=WAIT, opt=OPT, objects=st.booleans(), how=st.sampled_from(['type', 'reason', 'mrid', 'neither', 'both']))
CASE = rec(now=gen.us(), ops=st.lists(st.one_of(ONE, ONE, ONE, ONE, BAD), min_size=4, max_size=14))

SUITES = [Suite('opts', CASE, run, 600, 20000)]
