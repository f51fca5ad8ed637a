"""C07: the VTN answers every request, with the right protocol error."""
import asyncio
from pbt import clock, env, gen, messages, overlap, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'the request is refused or its handler raises, or the history goes on after such a request with a valid one; for mutated bodies: the body differs from the valid message; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['requests arrive by POST on an existing endpoint', 'handlers return values of the documented shapes or raise an exception']
VTN_ID = 'VTN-1'
SERVES = dict(EiEvent=['oadrRequestEvent', 'oadrCreatedEvent'], OadrPoll=['oadrPoll'],
              EiRegisterParty=['oadrQueryRegistration', 'oadrCreatePartyRegistration', 'oadrCancelPartyRegistration'],
              EiReport=['oadrRegisterReport', 'oadrUpdateReport', 'oadrCreatedReport', 'oadrRegisteredReport'])
REPLY = dict(oadrRequestEvent='oadrResponse', oadrCreatedEvent='oadrResponse', oadrPoll='oadrResponse',
             oadrQueryRegistration='oadrCreatedPartyRegistration', oadrCreatePartyRegistration='oadrCreatedPartyRegistration',
             oadrCancelPartyRegistration='oadrResponse', oadrRegisterReport='oadrRegisteredReport', oadrUpdateReport='oadrUpdatedReport',
             oadrCreatedReport='oadrResponse', oadrRegisteredReport='oadrResponse')
ERRORS = dict(OutOfSequenceError=450, NotAllowedError=451, InvalidIdError=452, NotRecognizedError=453, InvalidDataError=454,
              ComplianceError=459, SignalNotSupportedError=460, ReportNotSupportedError=461, TargetMismatchError=462,
              NotRegisteredOrAuthorizedError=463, DeploymentError=469)
OTHER = ['ValueError', 'KeyError', 'TypeError', 'AttributeError', 'RuntimeError', 'AssertionError', 'OSError', 'Exception', 'ZeroDivisionError']
HOME = {t: s for s, ts in SERVES.items() for t in ts}


class World:
    """A VTN with handlers whose behaviour follows the current request."""

    def __init__(self, case):
        self.case, self.fault, self.calls = case, None, []

    def handler(self, name, result=None):
        def act(*a, **kw):
            self.calls.append((name, a, kw))
            if self.fault is not None:
                kind, text = self.fault
                from openleadr import errors
                if kind in ERRORS:
                    raise getattr(errors, kind)(text) if text is not None else getattr(errors, kind)()
                raise dict(vars(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)[kind](text)
            return result() if callable(result) else result

        async def aact(*a, **kw):
            await asyncio.sleep(0)
            return act(*a, **kw)
        return aact if self.case['async'] else act

    def install(self, server):
        if self.case['mode'] == 'custom':
            server.add_handler('on_poll', self.handler('on_poll'))
            server.add_handler('on_request_event', self.handler('on_request_event'))
            server.add_handler('on_created_event', self.handler('on_created_event'))
        if self.case['query']:
            server.add_handler('on_query_registration', self.handler('on_query_registration', lambda: (
                'oadrCreatedPartyRegistration', dict(profiles=[dict(profile_name='2.0b', transports=[dict(transport_name='simpleHttp')])],
                                                     requested_oadr_poll_freq=clock.secs(10)))))
        server.add_handler('on_create_party_registration', self.handler('on_create_party_registration', lambda: ('newven', 'newreg')))
        server.add_handler('on_cancel_party_registration', self.handler('on_cancel_party_registration'))
        server.add_handler('on_register_report', self.handler('on_register_report'))
        server.add_handler('on_update_report', self.handler('on_update_report'))
        server.add_handler('on_created_report', self.handler('on_created_report'))


def reply_ids(msg, kind, spec, rid):
    """The parts of a reply that follow from the request."""
    if msg.one('ei:eiResponse') is not None and rid is not None:
        eq(msg.text('ei:eiResponse/pyld:requestID'), rid, 'the requestID in the reply to %s' % kind)
    if msg.one('ei:vtnID') is not None:
        eq(msg.text('ei:vtnID'), VTN_ID, 'the vtnID in the reply to %s' % kind)
    if kind == 'oadrCreatePartyRegistration':
        eq(msg.text('ei:venID'), 'newven', 'the venID in the reply')
        eq(msg.text('ei:registrationID'), 'newreg', 'the registrationID in the reply')
    elif spec.get('ven_id') is not None and kind != 'oadrQueryRegistration' and msg.one('ei:venID') is not None:
        eq(msg.text('ei:venID'), spec['ven_id'], 'the venID in the reply to %s' % kind)
    check(msg.type not in ('oadrResponse', 'oadrRegisteredReport', 'oadrUpdatedReport') or spec.get('ven_id') is None or msg.one('ei:venID') is not None,
          'no venID in the reply to %s' % kind, msg)


def calls_expected(kind, spec, case, xml):
    """How often a handler is to be called, if that follows."""
    custom = case['mode'] == 'custom'
    if kind in ('oadrPoll', 'oadrRequestEvent'):
        return 1 if custom else 0
    if kind == 'oadrCreatedEvent':
        return len(spec['event_responses'] or []) if custom else 0
    if kind == 'oadrQueryRegistration':
        return 1 if case['query'] else 0
    if kind in ('oadrCreatePartyRegistration', 'oadrCancelPartyRegistration', 'oadrCreatedReport'):
        return 1
    if kind == 'oadrUpdateReport':
        return len(spec['reports'])
    if kind == 'oadrRegisterReport':
        names = wire.Msg(xml).texts('oadr:oadrReport/ei:reportName')
        return len([n for n in names if n in ('METADATA_TELEMETRY_USAGE', 'METADATA_TELEMETRY_STATUS')])
    return 0


async def history(case, info):
    from openleadr.messaging import create_message
    w = World(case)
    bad = False
    async with env.VTN(VTN_ID) as vtn:
        w.install(vtn.server)
        for n, op in enumerate(case['ops']):
            t = messages.TYPES[op['type']]
            if op['type'] == 'oadrRegisterReport' and op['spec']['ven_id'] is None:
                op = dict(op, spec=dict(op['spec'], ven_id='anonymous'))
            spec, kind, service = op['spec'], op['type'], op['service'] or HOME.get(op['type'], 'EiEvent')
            kw = t.kwargs(spec)
            vtn_id = None
            if 'vtn_id' in kw:
                vtn_id = kw['vtn_id'] = VTN_ID if op['own'] else gen.near(VTN_ID, n + len(kw['vtn_id']))
            xml = create_message(kind, **kw)
            w.fault, w.calls = op['fault'], []
            headers = {'content-type': op['content_type']}
            reply = await vtn.post(service, xml, headers=headers)
            what = '%s on %s (request %d), handler fault %r, content type %r' % (kind, service, n, op['fault'], op['content_type'])
            if not op['content_type'].lower().startswith('application/xml'):
                check(reply.status == 400, 'HTTP %s instead of 400: %s' % (reply.status, what), xml)
                check(not w.calls, 'a handler ran: ' + what)
                info.tag('content type')
                bad = True
                continue
            if kind == 'oadrResponse':
                check(reply.status == 200 and not reply.raw, 'no empty reply: ' + what, reply)
                info.tag('empty')
                continue
            if vtn_id is not None and vtn_id != VTN_ID:
                want, desc = 452, None
            elif kind not in SERVES[service]:
                want, desc = 459, None
            else:
                expected_calls = calls_expected(kind, spec, case, xml)
                raises = op['fault'] is not None and expected_calls
                eq(len(w.calls), min(expected_calls, 1) if raises else expected_calls, 'the number of handler calls, ' + what)
                if raises:
                    if op['fault'][0] not in ERRORS:
                        check(reply.status == 500, 'HTTP %s instead of 500: %s' % (reply.status, what), reply, xml)
                        info.tag('handler error')
                        bad = True
                        info.nontrivial()
                        continue
                    want, desc = ERRORS[op['fault'][0]], op['fault'][1]
                elif kind == 'oadrCreatedEvent' and case['mode'] == 'internal' and spec['event_responses']:
                    want, desc = 452, None      # events that the VTN does not have
                else:
                    want, desc = 200, None
            check(reply.status == 200 and reply.raw, 'HTTP %s instead of a reply with code %s: %s' % (reply.status, want, what), reply, xml)
            r = reply.msg
            if want == 200:
                eq(r.type, REPLY[kind], 'the type of the reply, ' + what)
                if r.one('ei:eiResponse') is not None:
                    eq(r.code, 200, 'the code of the reply, ' + what)
                rid = spec.get('request_id')
                if kind in ('oadrCreatedReport', 'oadrRegisteredReport', 'oadrCreatedEvent'):
                    rid = None
                reply_ids(r, kind, spec, rid)
                info.nontrivial(bad)
                info.tag('handled')
            else:
                if kind == 'oadrRequestEvent' and want != 459 or kind == 'oadrRequestEvent' and kind in SERVES[service]:
                    eq(r.type, 'oadrDistributeEvent', 'the type of the reply, ' + what)
                    eq(wire.read_events(r), [], 'the events in the reply, ' + what)
                    eq(r.text('ei:vtnID'), VTN_ID, 'the vtnID in the reply, ' + what)
                else:
                    check(r.type in ('oadrResponse', REPLY.get(kind)), 'the type of the reply %s' % r.type, what, reply)
                eq(r.code, want, 'the code of the reply, ' + what)
                if desc is not None:
                    eq(r.text('ei:eiResponse/ei:responseDescription'), desc, 'the description in the reply, ' + what)
                info.tag('code %s' % want)
                if want not in (452, 459) or op['fault'] is not None:
                    info.nontrivial()
                bad = True


FAULT = st.one_of(st.none(), st.tuples(st.sampled_from(sorted(ERRORS)), st.one_of(st.none(), gen.text())).map(list),
                  st.tuples(st.sampled_from(OTHER), gen.text()).map(list))
TYPE_NAMES = sorted(messages.TYPES)
CT = st.sampled_from(['application/xml'] * 8 + ['application/xml; charset=utf-8', 'Application/XML', 'text/xml', 'application/json', 'text/plain', 'xml'])


def with_op(names, service):
    return st.tuples(messages.case(names), rec(service=service, fault=FAULT, own=st.booleans(), content_type=CT)).map(lambda x: dict(x[0], **x[1]))


OP = st.one_of(with_op(sorted(HOME), st.none()), with_op(sorted(HOME), st.none()), with_op(sorted(HOME), st.none()),
               with_op(None, st.sampled_from(sorted(SERVES))))
CASE = rec(mode=st.sampled_from(['custom', 'custom', 'internal']), query=st.booleans(), ops=st.lists(OP, min_size=2, max_size=6), **{'async': st.booleans()})


# ---- arbitrary bodies

SEEDS = {}


def seed_bodies():
    if not SEEDS:
        u = 1600000000 * 1000000
        SEEDS.update({
            'oadrPoll': wire.poll('ven'), 'oadrRequestEvent': wire.request_event('ven', 'r1', 5),
            'oadrCreatedEvent': wire.created_event('ven', [dict(event_id='e', modification_number=0, opt_type='optIn')], 'r1'),
            'oadrQueryRegistration': wire.query_registration('r1'),
            'oadrCreatePartyRegistration': wire.create_party_registration('name', 'ven', 'r1', 'reg', transport_address='http://x'),
            'oadrCancelPartyRegistration': wire.cancel_party_registration('ven', 'reg', 'r1'),
            'oadrRegisterReport': wire.register_report('ven', [dict(report_specifier_id='s', report_name='METADATA_TELEMETRY_USAGE', duration=3600, descriptions=[
                dict(r_id='p', report_type='usage', reading_type='Direct Read', sampling=(10, 10, False))])], 'r1', u),
            'oadrUpdateReport': wire.update_report('ven', [dict(report_request_id='rr', report_specifier_id='s', values=[(u, 'p', 1.5), (u + 10, 'q', 2)])], 'r1', u),
            'oadrCreatedReport': wire.created_report('ven', ['a', 'b']),
            'oadrResponse': wire.oadr_response('ven', 'r'),
            'oadrRequestReregistration': wire.request_reregistration('ven'),
            'oadrDistributeEvent': wire.distribute_event([dict(event_id='e', start=u, duration=60, signals=[dict(intervals=[(u, 60, 1)])], targets=[dict(ven_id='ven')])], VTN_ID)})
    return SEEDS


def mutate(raw, muts):
    for m in muts:
        i = m['at'] % (len(raw) + 1)
        j = min(len(raw), i + m['n'])
        k = m['kind']
        if k == 'delete':
            raw = raw[:i] + raw[j:]
        elif k == 'duplicate':
            raw = raw[:j] + raw[i:j] + raw[j:]
        elif k == 'truncate':
            raw = raw[:i]
        elif k == 'insert':
            raw = raw[:i] + m['bytes'].encode('utf-8', 'surrogatepass') + raw[i:]
        elif k == 'flip' and raw:
            i %= len(raw)
            raw = raw[:i] + bytes([raw[i] ^ (1 << m['n'] % 8)]) + raw[i + 1:]
        elif k in ('element', 'text', 'drop'):
            from lxml import etree
            try:
                root = etree.fromstring(raw)
            except Exception:
                continue
            els = [e for e in root.iter() if isinstance(e.tag, str)]
            e = els[m['at'] % len(els)]
            if k == 'text':
                leaves = [x for x in els if len(x) == 0]
                e = leaves[m['at'] % len(leaves)]
                e.text = ''.join(c for c in m['bytes'] if c.isprintable() or c in '\n\t') or None
            elif k == 'drop' and e.getparent() is not None:
                e.getparent().remove(e)
            elif k == 'element' and e.getparent() is not None:
                import copy
                e.addnext(copy.deepcopy(els[m['n'] % len(els)]))
            raw = etree.tostring(root)
    return raw


def wrap_encoding(raw, how):
    if how == 'utf-16':
        text = raw.decode('utf-8', 'replace')
        return ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode('utf-16')
    if how == 'latin-1':
        text = raw.decode('utf-8', 'replace')
        return ('<?xml version="1.0" encoding="ISO-8859-1"?>' + text).encode('latin-1', 'xmlcharrefreplace')
    if how == 'bom':
        return b'\xef\xbb\xbf' + raw
    if how == 'doctype':
        return b'<!DOCTYPE x [<!ENTITY a "b">]>' + raw
    if how == 'space':
        return b'\n  ' + raw + b'\n\n'
    if how == 'comment':
        return raw + b'<!-- -->'
    return raw


def odd_uid(raw):
    from lxml import etree
    for e in etree.fromstring(raw).iter('{urn:ietf:params:xml:ns:icalendar-2.0}text'):
        if not (e.text or '').strip().lstrip('+-').isdigit():
            return True
    return False


async def arbitrary(case, info):
    w = World(case)
    async with env.VTN(VTN_ID) as vtn:
        w.install(vtn.server)
        for op in case['ops']:
            seed = seed_bodies()[op['seed']].encode('utf-8') if op['seed'] else op['raw'].encode('utf-8', 'surrogatepass')
            raw = wrap_encoding(mutate(seed, op['muts']), op['encoding'])
            service = op['service'] or HOME.get(op['seed'], 'EiEvent')
            w.calls = []
            reply = await vtn.post(service, raw, headers={'content-type': op['content_type']})
            info.nontrivial(raw != seed)
            try:
                err = wire.schema_errors(raw)
            except Exception as e:
                err = str(e)
            if op['encoding'] == 'doctype':
                err = err or 'a document type declaration'
            if err or not op['content_type'].lower().startswith('application/xml'):
                check(reply.status == 400, 'HTTP %s instead of 400' % reply.status, op['content_type'], repr(raw), str(err), repr(reply))
                check(not w.calls, 'a handler ran', w.calls)
                info.tag('invalid')
            else:
                info.tag('valid')
                if reply.status == 500 and (odd_uid(raw) or any(m['kind'] not in ('text', 'flip') for m in op['muts'])):
                    # Outside the domain: an element that the schema does not require but the request cannot do without
                    # was left out, or an interval number is not an integer.
                    info.tag('incomplete')
                    continue
                check(reply.status == 200, 'HTTP %s in reply to a schema-valid message' % reply.status, repr(raw), repr(reply))
        # still alive and well
        w.calls = []
        r = await vtn.ask('OadrPoll', wire.poll('other ven'))
        eq((r.type, r.msg.code, r.msg.text('ei:venID')), ('oadrResponse', 200, 'other ven'), 'the reply to a later poll')
        eq(len(w.calls), 1 if case['mode'] == 'custom' else 0, 'handler calls for a later poll')


MUT = rec(kind=st.sampled_from(['delete', 'duplicate', 'truncate', 'insert', 'flip', 'element', 'text', 'text', 'drop', 'drop']), at=st.integers(0, 3000), n=st.integers(0, 40),
          bytes=st.one_of(gen.text(), st.sampled_from(['<', '>', '&', '\x00', '<x/>', '&x;', ']]>', '<![CDATA[x]]>', '<!-- x -->', '-1', '1e400', '99999999999999999999',
                                                      '2020-01-01T00:00:00Z', 'PT1H', 'P1M', 'PT0.5S', 'NaN', 'INF', 'true', ' x ', '24:00:00']), st.text(max_size=5)))
BODY = rec(seed=st.sampled_from(sorted(seed_bodies()) + [None]), raw=st.text(max_size=30), muts=st.lists(MUT, max_size=3),
           encoding=st.sampled_from(['plain'] * 6 + ['utf-16', 'latin-1', 'bom', 'doctype', 'space', 'comment']), content_type=CT,
           service=st.one_of(st.none(), st.none(), st.sampled_from(sorted(SERVES))))
BODIES = rec(mode=st.sampled_from(['custom', 'internal']), query=st.booleans(), ops=st.lists(BODY, min_size=1, max_size=8), **{'async': st.booleans()})

SUITES = [Suite('history', CASE, lambda c, i: env.run(history(c, i)), 3500),
          Suite('bodies', BODIES, lambda c, i: env.run(arbitrary(c, i)), 6000),
          Suite('overlapping', overlap.strategy(sorted(overlap.SERVICE)), overlap.run, 1500, 30000)]
