"""C28: hooks see every message in order and cannot break it."""
import asyncio
from pbt import clock, env, events, gen, messages, wire
from pbt.checks import c07
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'at least two hooks on one point, or a raising hook, or a request that does not reach every point'
ASSUMPTIONS = ['hooks of a VTN are coroutine functions (they are tasks; their order among each other is not defined)', 'when a request fails in the transport, later points are not reached']
T0 = events.T0 * 1000000
FREQ = 70007
POINTS = ['before_send_xml', 'after_receive_xml', 'before_schema_validation', 'before_parse_xml', 'after_parse_xml']
VTN_POINTS = ['before_parse', 'before_handle', 'after_handle', 'before_respond']


class HookError(Exception):
    pass


ERRORS = {'HookError': HookError('x'), 'KeyError': KeyError('x'), 'TypeError': TypeError(), 'AssertionError': AssertionError('é {} %s'), 'StopIteration': ValueError('v'), 'OSError': OSError(5, 'x')}


# ------------------------------------------------------------ VEN

class Ven:
    def __init__(self, case, info):
        self.case, self.info, self.log, self.serial = case, info, [], 0

    def hook(self, n, spec):
        def f(*a):
            self.log.append((spec['point'], n, a))
            if spec['raises']:
                raise ERRORS[spec['raises']]
            return 'ignored'

        async def af(*a):
            await asyncio.sleep(0)
            return f(*a)
        return {'function': f, 'coroutine': af, 'callable': Callable(f)}[spec['form']]

    def reply(self, op):
        """(reply, how far the request gets, payload)"""
        self.serial += 1
        k = op['reply']
        e = dict(event_id='e%d' % self.serial, start=T0 + 10 ** 11, duration=60, signals=[dict(intervals=[(T0 + 10 ** 11, 60, 1)])], targets=[dict(ven_id='ven0')])
        good = wire.distribute_event([e]) if op['event'] else wire.oadr_response('ven0', op['text'])
        if k == 'good':
            return good, good, 5
        if k == 'http':
            return dict(status=op['status'], body=good), good, 2
        if k == 'drop':
            return dict(drop=True), None, 1
        if k == 'empty':
            return dict(body=b''), '', 2
        if k == 'garbage':
            return dict(body=op['text'] + '<'), op['text'] + '<', 3
        if k == 'schema':
            bad = good.replace('ei:responseCode', 'ei:responseCode2')
            return dict(body=bad), bad, 3
        bad = wire.oadr_response('ven0', 'x', 452, op['text'])
        return bad, bad, 5

    async def run(self):
        case, seen = self.case, []
        with clock.virtual(T0):
            async with env.FakeVTN(poll_freq=FREQ) as fake, env.VEN(fake.url) as ven:
                ven.client.add_handler('on_event', lambda event: seen.append(event['event_descriptor']['event_id']) or 'optIn')
                hooks = case['hooks']
                early = hooks[:case['split']]
                for n, spec in enumerate(early):
                    ven.client.add_hook(spec['point'], self.hook(n, spec))
                self.refused(ven)
                await ven.start()
                reqs = fake.take()
                eq([m.type for m in reqs], ['oadrQueryRegistration', 'oadrCreatePartyRegistration', 'oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll'], 'the requests of the VEN at its start')
                self.compare(early, reqs, [None] * 5, [5] * 5, 'the start')
                for n, spec in enumerate(hooks[case['split']:], len(early)):
                    ven.client.add_hook(spec['point'], self.hook(n, spec))
                active = hooks
                for op in case['ops']:
                    reply, raw, depth = self.reply(op)
                    has_event = op['event'] and op['reply'] == 'good'
                    # the request is a poll, and a response to the event that it brought
                    fake.polls.append(reply)
                    before = len(seen)
                    await ven.poll(FREQ)
                    reqs = fake.take()
                    what = 'a poll answered with %r' % (reply if op['reply'] != 'good' else op['reply'])
                    eq([m.type for m in reqs], ['oadrPoll'] + (['oadrCreatedEvent'] if has_event else []), 'the requests of ' + what)
                    eq(len(seen) - before, int(has_event), 'the events that the handler saw during ' + what)
                    self.compare(active, reqs, [raw] + [None] * has_event, [depth] + [5] * has_event, what)
                    self.info.nontrivial(depth < 5)
                    self.info.tag(op['reply'])
                    if op['reply'] == 'good' and case['direct']:
                        r = await ven.client.poll()
                        eq(r[0], 'oadrResponse', 'the result of a poll')
                        self.compare(active, fake.take(), [None], [5], 'a direct poll', result=r)
        for p in POINTS:
            self.info.nontrivial(len([h for h in hooks if h['point'] == p]) > 1)
        self.info.nontrivial(any(h['raises'] for h in hooks))

    def refused(self, ven):
        try:
            ven.client.add_hook(self.case['bad'], lambda *a: None)
        except ValueError:
            return
        check(False, 'a hook for a point that does not exist is accepted', self.case['bad'])

    def compare(self, hooks, reqs, raws, depths, what, result=None):
        log, self.log = self.log, []
        i = 0
        for req, raw, depth in zip(reqs, raws, depths):
            for p in POINTS[:depth]:
                for n, spec in enumerate(hooks):
                    if spec['point'] != p:
                        continue
                    check(i < len(log), 'hook %d of %s is not called during %s' % (n, p, what), [x[:2] for x in log])
                    eq(log[i][:2], (p, n), 'the order of the hooks during %s: %r' % (what, [x[:2] for x in log]))
                    args = log[i][2]
                    where = 'hook %d of %s during %s' % (n, p, what)
                    if p == 'before_send_xml':
                        check(len(args) == 1 and isinstance(args[0], str), 'the argument of ' + where, args)
                        eq(args[0].encode('utf-8'), req.raw, 'the XML for ' + where)
                    elif p == 'after_parse_xml':
                        eq(len(args), 2, 'the number of arguments of ' + where)
                        if result is not None:
                            eq(args, result, 'the message for ' + where)
                        if raw:
                            m = wire.Msg(raw)
                            eq(args[0], m.type, 'the message type for ' + where)
                            check(isinstance(args[1], dict), 'no message for ' + where, args[1])
                            if m.type == 'oadrResponse':
                                eq(args[1]['response']['response_description'], m.text('ei:eiResponse/ei:responseDescription'), 'the message for ' + where)
                            else:
                                eq(args[1]['events'][0]['event_descriptor']['event_id'], m.text('oadr:oadrEvent/ei:eiEvent/ei:eventDescriptor/ei:eventID'), 'the message for ' + where)
                    else:
                        check(len(args) == 1 and isinstance(args[0], str), 'the argument of ' + where, args)
                        if raw is not None:
                            eq(args[0], raw, 'the XML for ' + where)
                    i += 1
        eq(len(log), i, 'the number of hook calls during %s: %r' % (what, [x[:2] for x in log]))


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


# ------------------------------------------------------------ VTN

def how_deep(op, reply, served):
    """The points that a request reaches."""
    if not op['content_type'].startswith('application/xml'):
        return []
    if op['what'] in ('garbage', 'schema'):
        return ['before_parse']
    if op['what'] == 'response' or op['what'] == 'unknown':
        return ['before_parse']
    if op['fault']:
        return ['before_parse', 'before_handle'] if served else ['before_parse', 'before_handle', 'after_handle']
    return ['before_parse', 'before_handle', 'after_handle']


async def vtn(case, info):
    from openleadr import errors, hooks
    log = []
    saved = {p: list(v) for p, v in hooks.HOOKS.items()}
    fault = [None]

    def hook(n, spec):
        async def f(*a):
            log.append((spec['point'], n, a))
            if spec['slow']:
                await asyncio.sleep(0)
            if spec['raises']:
                raise ERRORS[spec['raises']]
        return f

    def act(x):
        if fault[0] == 'error':
            raise RuntimeError('x')
        if fault[0] == 'protocol':
            raise errors.NotAllowedError('no')
    try:
        for n, spec in enumerate(case['hooks']):
            hooks.register(spec['point'], hook(n, spec))
        try:
            hooks.register(case['bad'], hook(0, dict(point='x', slow=False, raises=None)))
        except ValueError:
            pass
        else:
            check(False, 'a hook for a point that does not exist is accepted', case['bad'])

        def known(ven_id):
            return dict(ven_id=ven_id, registration_id=None if ven_id == 'unknown' else 'r')
        asyncio.get_running_loop().set_exception_handler(lambda loop, ctx: None)    # raising hooks are reported by asyncio
        async with env.VTN('VTN', ven_lookup=known) as v:
            v.server.add_handler('on_poll', lambda ven_id: act(ven_id))
            v.server.add_handler('on_create_party_registration', lambda m: act(m) or ('v', 'r'))
            for op in case['ops']:
                k, served = op['what'], True
                fault[0] = op['fault']
                if k == 'poll':
                    service, body = 'OadrPoll', wire.poll('ven')
                elif k == 'unknown':
                    service, body = 'OadrPoll', wire.poll('unknown')
                elif k == 'register':
                    service, body = 'EiRegisterParty', wire.create_party_registration(op['text'], None, 'q')
                elif k == 'misdirected':
                    service, body, served = 'EiReport', wire.request_event('ven', 'q'), False
                elif k == 'response':
                    service, body = 'OadrPoll', wire.oadr_response('ven', 'q')
                elif k == 'schema':
                    service, body = 'OadrPoll', wire.poll('ven').replace('venID', 'venIT')
                else:
                    service, body = 'OadrPoll', op['text'] + '<'
                del log[:]
                reply = await v.post(service, body, headers={'content-type': op['content_type']})
                await env.settle()
                points = how_deep(op, reply, served) + ['before_respond']
                what = '%s with handler fault %r and content type %r' % (k, op['fault'], op['content_type'])
                status = 400 if not op['content_type'].startswith('application/xml') or k in ('schema', 'garbage') else \
                    500 if op['fault'] == 'error' and served and k in ('poll', 'register') else 200
                eq(reply.status, status, 'the HTTP status of ' + what)
                want = sorted((p, n) for p in points for n, spec in enumerate(case['hooks']) if spec['point'] == p)
                eq(sorted(x[:2] for x in log), want, 'the hooks that are called for ' + what)
                for p, n, a in log:
                    where = 'hook %d of %s for %s' % (n, p, what)
                    if p == 'before_parse':
                        check(len(a) == 1 and (a[0].encode('utf-8') if isinstance(a[0], str) else a[0]) == body.encode('utf-8'), 'the content for ' + where, a)
                    elif p == 'before_respond':
                        eq([(x or '').encode('utf-8') if isinstance(x, str) or x is None else x for x in a], [reply.raw], 'the reply for ' + where)
                    elif p == 'before_handle':
                        eq(len(a), 2, 'the number of arguments of ' + where)
                        eq((a[0], a[1].get('ven_id')), (wire.Msg(body).type, dict(poll='ven', misdirected='ven').get(k)), 'the message for ' + where)
                        if k == 'register':
                            eq(a[1]['ven_name'], op['text'], 'the message for ' + where)
                    else:
                        eq(len(a), 2, 'the number of arguments of ' + where)
                        eq(a[0], reply.type, 'the reply type for ' + where)
                        if reply.type == 'oadrCreatedPartyRegistration':
                            eq((a[1]['ven_id'], a[1]['registration_id']), (reply.msg.text('ei:venID'), reply.msg.text('ei:registrationID')), 'the reply for ' + where)
                        eq(a[1]['response']['response_code'], reply.msg.code, 'the reply for ' + where)
                # the order of the points
                order = [VTN_POINTS.index(p) for p, n, a in log]
                eq(order, sorted(order), 'the order of the points for ' + what)
                info.tag(k)
                info.nontrivial(len(points) < 4)
        for p in VTN_POINTS:
            info.nontrivial(len([h for h in case['hooks'] if h['point'] == p]) > 1)
        info.nontrivial(any(h['raises'] for h in case['hooks']))
    finally:
        for p in list(hooks.HOOKS):
            hooks.HOOKS[p][:] = saved.get(p, [])


RAISES = st.sampled_from([None, None] + sorted(ERRORS))
HOOK = rec(point=st.sampled_from(POINTS), form=st.sampled_from(['function', 'coroutine', 'callable']), raises=RAISES)
OP = rec(reply=st.sampled_from(['good', 'good', 'http', 'drop', 'empty', 'garbage', 'schema', 'code']), event=st.booleans(), status=st.sampled_from([500, 404, 403, 202]), text=gen.text())
BADPOINT = st.sampled_from(['', 'before_send', 'before_parse', 'after_handle', 'AFTER_PARSE_XML', 'x'])
VEN = rec(hooks=st.lists(HOOK, min_size=1, max_size=8), split=st.integers(0, 8), ops=st.lists(OP, min_size=1, max_size=5), direct=st.booleans(), bad=BADPOINT)
VHOOK = rec(point=st.sampled_from(VTN_POINTS), slow=st.booleans(), raises=RAISES)
VOP = rec(what=st.sampled_from(['poll', 'poll', 'register', 'unknown', 'misdirected', 'response', 'schema', 'garbage']), fault=st.sampled_from([None, None, 'error', 'protocol']), text=gen.text(),
          content_type=st.sampled_from(['application/xml'] * 6 + ['application/xml; charset=utf-8', 'text/xml', 'application/json']))
VTN = rec(hooks=st.lists(VHOOK, min_size=1, max_size=8), ops=st.lists(VOP, min_size=1, max_size=6), bad=st.sampled_from(['', 'before', 'before_parse_xml', 'x']))
SUITES = [Suite('ven', VEN, lambda c, i: env.run(Ven(c, i).run()), 2400, 24000), Suite('vtn', VTN, lambda c, i: env.run(vtn(c, i)), 2400, 24000)]
