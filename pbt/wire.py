"""
An independent, hand-written encoder and reader for OpenADR 2.0b messages. It shares nothing with
the code under test (no templates, no xmltodict, no normalization).

Times are integers (microseconds since the epoch), durations integers (seconds).
"""
import os
import re
from xml.sax.saxutils import escape
from lxml import etree
from pbt import clock

NS = {
    'oadr': 'http://openadr.org/oadr-2.0b/2012/07',
    'ei': 'http://docs.oasis-open.org/ns/energyinterop/201110',
    'pyld': 'http://docs.oasis-open.org/ns/energyinterop/201110/payloads',
    'emix': 'http://docs.oasis-open.org/ns/emix/2011/06',
    'power': 'http://docs.oasis-open.org/ns/emix/2011/06/power',
    'scale': 'http://docs.oasis-open.org/ns/emix/2011/06/siscale',
    'xcal': 'urn:ietf:params:xml:ns:icalendar-2.0',
    'strm': 'urn:ietf:params:xml:ns:icalendar-2.0:stream',
    'ds': 'http://www.w3.org/2000/09/xmldsig#',
    'dsp': 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties',
}
_SCHEMA = etree.XMLSchema(etree.parse(os.path.join(os.path.dirname(__file__), 'schema', 'oadr_20b.xsd')))


def schema_errors(content):
    """None if the content is a valid OpenADR 2.0b document, a description of the problem otherwise."""
    if isinstance(content, str):
        content = content.encode('utf-8')
    try:
        tree = etree.fromstring(content)
    except etree.XMLSyntaxError as err:
        return 'not well-formed: %s' % err
    if not _SCHEMA.validate(tree):
        return str(_SCHEMA.error_log.last_error)
    return None


# ---------------------------------------------------------------- writing

class Raw(str):
    pass


def el(name, *children, **attrs):
    """el('ei:venID', 'x'): strings are escaped, None children left out."""
    inner = ''.join(c if isinstance(c, Raw) else escape(str(c)) for c in children if c is not None)
    a = ''.join(' %s="%s"' % (k.replace('__', ':'), escape(v)) for k, v in attrs.items())
    return Raw('<%s%s>%s</%s>' % (name, a, inner, name))


def opt(name, value, fmt=str):
    return None if value is None else el(name, fmt(value))


def boolean(v):
    return 'true' if v else 'false'


def ts(us):
    d = clock.at(us)
    return d.strftime('%Y-%m-%dT%H:%M:%S') + ('.%06dZ' % d.microsecond if d.microsecond else 'Z')


def dur(s):
    """Whole seconds as a duration."""
    if s < 0:
        return '-' + dur(-s)
    return 'PT%dS' % s


def doc(message_type, *children):
    xmlns = ''.join(' xmlns:%s="%s"' % i for i in NS.items())
    return ('<?xml version="1.0" encoding="utf-8"?>\n<oadr:oadrPayload%s><oadr:oadrSignedObject>'
            '<oadr:%s ei:schemaVersion="2.0b">%s</oadr:%s></oadr:oadrSignedObject></oadr:oadrPayload>'
            % (xmlns, message_type, ''.join(c for c in children if c is not None), message_type))


def response(code=200, description='OK', request_id=''):
    return el('ei:eiResponse', el('ei:responseCode', code), opt('ei:responseDescription', description),
              el('pyld:requestID', request_id))


# VEN -> VTN

def poll(ven_id):
    return doc('oadrPoll', el('ei:venID', ven_id))


def request_event(ven_id, request_id='req', reply_limit=None):
    return doc('oadrRequestEvent', el('pyld:eiRequestEvent', el('pyld:requestID', request_id),
                                      el('ei:venID', ven_id), opt('pyld:replyLimit', reply_limit)))


def created_event(ven_id, responses, request_id='req', code=200):
    """responses: list of dicts event_id, modification_number, opt_type"""
    return doc('oadrCreatedEvent', el(
        'pyld:eiCreatedEvent', response(code, 'OK', ''),
        el('ei:eventResponses', *[
            el('ei:eventResponse', el('ei:responseCode', r.get('code', 200)),
               el('ei:responseDescription', 'OK'), el('pyld:requestID', r.get('request_id', request_id)),
               el('ei:qualifiedEventID', el('ei:eventID', r['event_id']),
                  el('ei:modificationNumber', r['modification_number'])),
               el('ei:optType', r['opt_type'])) for r in responses]) if responses else None,
        el('ei:venID', ven_id)))


def query_registration(request_id='req'):
    return doc('oadrQueryRegistration', el('pyld:requestID', request_id))


def create_party_registration(ven_name, ven_id=None, request_id='req', registration_id=None,
                              profile_name='2.0b', transport_name='simpleHttp', transport_address=None,
                              report_only=False, xml_signature=False, http_pull_model=True):
    return doc('oadrCreatePartyRegistration', el('pyld:requestID', request_id),
               opt('ei:registrationID', registration_id), opt('ei:venID', ven_id),
               el('oadr:oadrProfileName', profile_name), el('oadr:oadrTransportName', transport_name),
               opt('oadr:oadrTransportAddress', transport_address),
               el('oadr:oadrReportOnly', boolean(report_only)),
               el('oadr:oadrXmlSignature', boolean(xml_signature)), el('oadr:oadrVenName', ven_name),
               el('oadr:oadrHttpPullModel', boolean(http_pull_model)))


def cancel_party_registration(ven_id, registration_id, request_id='req'):
    return doc('oadrCancelPartyRegistration', el('pyld:requestID', request_id),
               el('ei:registrationID', registration_id), opt('ei:venID', ven_id))


def canceled_party_registration(ven_id, registration_id, request_id='req', code=200):
    return doc('oadrCanceledPartyRegistration', response(code, 'OK', request_id),
               opt('ei:registrationID', registration_id), opt('ei:venID', ven_id))


def measurement(m):
    """m: dict name, ns, description, unit, scale, pulse_factor, power (hertz, voltage, ac)"""
    if m is None:
        return None
    ns = m['ns']
    return el('%s:%s' % (ns, m['name']), el(ns + ':itemDescription', m['description']),
              el(ns + ':itemUnits', m['unit']),
              el('oadr:pulseFactor', m['pulse_factor']) if m.get('pulse_factor') is not None
              else el('scale:siScaleCode', m.get('scale', 'none')),
              el('power:powerAttributes', el('power:hertz', m['power'][0]), el('power:voltage', m['power'][1]),
                 el('power:ac', boolean(m['power'][2]))) if m.get('power') else None)


def report_description(d):
    """d: dict r_id, resource_id, report_type, measurement, reading_type, market_context, min, max, on_change"""
    return el('oadr:oadrReportDescription', el('ei:rID', d['r_id']),
              el('ei:reportDataSource', el('ei:resourceID', d['resource_id'])) if d.get('resource_id') is not None else None,
              el('ei:reportType', d.get('report_type', 'reading')), measurement(d.get('measurement')),
              el('ei:readingType', d.get('reading_type', 'Direct Read')),
              opt('emix:marketContext', d.get('market_context')),
              el('oadr:oadrSamplingRate', el('oadr:oadrMinPeriod', dur(d['min'])),
                 el('oadr:oadrMaxPeriod', dur(d['max'])),
                 el('oadr:oadrOnChange', boolean(d.get('on_change', False)))) if d.get('min') is not None else None)


def register_report(ven_id, reports, request_id='req', created=0):
    """reports: list of dicts report_name, report_specifier_id, duration, descriptions"""
    return doc('oadrRegisterReport', el('pyld:requestID', request_id), *[
        el('oadr:oadrReport', el('xcal:duration', el('xcal:duration', dur(r.get('duration', 3600)))),
           *[report_description(d) for d in r['descriptions']],
           el('ei:reportRequestID', r.get('report_request_id', '0')),
           el('ei:reportSpecifierID', r['report_specifier_id']), el('ei:reportName', r['report_name']),
           el('ei:createdDateTime', ts(created))) for r in reports], el('ei:venID', ven_id))


def update_report(ven_id, reports, request_id='req', created=0):
    """reports: list of dicts report_request_id, report_specifier_id, report_name, values [(us, r_id, value)]"""
    def one(r):
        vals = r.get('values') or []
        groups = []     # with 'grouped', consecutive values with the same time share an interval
        for v in vals:
            if r.get('grouped') and groups and groups[-1][0][0] == v[0]:
                groups[-1].append(v)
            else:
                groups.append([v])
        ivs = el('strm:intervals', *[
            el('ei:interval', el('xcal:dtstart', el('xcal:date-time', ts(g[0][0]))), *[
                el('oadr:oadrReportPayload', el('ei:rID', rid), el('ei:payloadFloat', el('ei:value', v))) for _, rid, v in g])
            for g in groups]) if vals else None
        return el('oadr:oadrReport',
                  el('xcal:dtstart', el('xcal:date-time', ts(min(v[0] for v in vals)))) if vals else None,
                  ivs, el('ei:reportRequestID', r['report_request_id']),
                  el('ei:reportSpecifierID', r['report_specifier_id']),
                  el('ei:reportName', r.get('report_name', 'TELEMETRY_USAGE')),
                  el('ei:createdDateTime', ts(created)))
    return doc('oadrUpdateReport', el('pyld:requestID', request_id), *[one(r) for r in reports],
               el('ei:venID', ven_id))


def created_report(ven_id, pending, request_id='req', code=200):
    return doc('oadrCreatedReport', response(code, 'OK', request_id),
               el('oadr:oadrPendingReports', *[el('ei:reportRequestID', p) for p in pending]), el('ei:venID', ven_id))


def canceled_report(ven_id, pending, request_id='req', code=200):
    return doc('oadrCanceledReport', response(code, 'OK', request_id),
               el('oadr:oadrPendingReports', *[el('ei:reportRequestID', p) for p in pending]), el('ei:venID', ven_id))


def oadr_response(ven_id=None, request_id='', code=200, description='OK'):
    return doc('oadrResponse', response(code, description, request_id), opt('ei:venID', ven_id))


# VTN -> VEN

def created_party_registration(registration_id, ven_id, vtn_id='VTN', request_id='req', poll_freq=86399,
                               code=200, description='OK'):
    return doc('oadrCreatedPartyRegistration', response(code, description, request_id),
               opt('ei:registrationID', registration_id), opt('ei:venID', ven_id), el('ei:vtnID', vtn_id),
               el('oadr:oadrProfiles', el('oadr:oadrProfile', el('oadr:oadrProfileName', '2.0b'),
                                          el('oadr:oadrTransports', el('oadr:oadrTransport', el('oadr:oadrTransportName', 'simpleHttp'))))),
               el('oadr:oadrRequestedOadrPollFreq', el('xcal:duration', dur(poll_freq))) if poll_freq is not None else None)


def targets(tag, ts_):
    """ts_: list of {type: value}; OpenADR prescribes the order of the types"""
    order = ['group_id', 'group_name', 'resource_id', 'ven_id', 'party_id']
    names = dict(group_id='ei:groupID', group_name='ei:groupName', resource_id='ei:resourceID',
                 ven_id='ei:venID', party_id='ei:partyID')
    return el(tag, *[el(names[k], t[k]) for k in order for t in ts_ if k in t])


def event(e):
    """e: dict event_id, modification_number, status, created, start, duration, signals
    [dict name, type, id, intervals [(start, duration, payload)], current], targets, response_required,
    market_context, priority, test_event, vtn_comment, ramp_up, notification, recovery, modification_time"""
    return el(
        'oadr:oadrEvent',
        el('ei:eiEvent',
           el('ei:eventDescriptor', el('ei:eventID', e['event_id']),
              el('ei:modificationNumber', e.get('modification_number', 0)),
              opt('ei:modificationDateTime', e.get('modification_time'), ts),
              opt('ei:priority', e.get('priority')),
              el('ei:eiMarketContext', el('emix:marketContext', e.get('market_context', 'http://ctx'))),
              el('ei:createdDateTime', ts(e.get('created', 0))), el('ei:eventStatus', e.get('status', 'far')),
              opt('ei:testEvent', e.get('test_event')), opt('ei:vtnComment', e.get('vtn_comment'))),
           el('ei:eiActivePeriod',
              el('xcal:properties', el('xcal:dtstart', el('xcal:date-time', ts(e['start']))),
                 el('xcal:duration', el('xcal:duration', dur(e['duration']))),
                 *[el('ei:' + n, el('xcal:duration', dur(e[k]))) for n, k in
                   (('x-eiNotification', 'notification'), ('x-eiRampUp', 'ramp_up'), ('x-eiRecovery', 'recovery'))
                   if e.get(k) is not None]),
              el('xcal:components')),
           el('ei:eiEventSignals', *[
               el('ei:eiEventSignal',
                  el('strm:intervals', *[
                      el('ei:interval', el('xcal:dtstart', el('xcal:date-time', ts(s0))) if s0 is not None else None,
                         el('xcal:duration', el('xcal:duration', dur(d))),
                         el('xcal:uid', el('xcal:text', i)),
                         el('ei:signalPayload', el('ei:payloadFloat', el('ei:value', v))))
                      for i, (s0, d, v) in enumerate(s['intervals'])]),
                  el('ei:signalName', s.get('name', 'SIMPLE')), el('ei:signalType', s.get('type', 'level')),
                  el('ei:signalID', s.get('id', 'sig')),
                  el('ei:currentValue', el('ei:payloadFloat', el('ei:value', s.get('current', 0)))))
               for s in e['signals']]),
           targets('ei:eiTarget', e.get('targets', []))),
        el('oadr:oadrResponseRequired', e.get('response_required', 'always')))


def distribute_event(events, vtn_id='VTN', request_id='req', with_response=True):
    return doc('oadrDistributeEvent', response(200, 'OK', '') if with_response else None,
               el('pyld:requestID', request_id), el('ei:vtnID', vtn_id), *[event(e) for e in events])


def report_request(r):
    """r: dict report_request_id, report_specifier_id, granularity, report_back_duration, interval
    (start, duration), payloads [dict r_id, reading_type, measurement]"""
    return el(
        'oadr:oadrReportRequest', el('ei:reportRequestID', r['report_request_id']),
        el('ei:reportSpecifier', el('ei:reportSpecifierID', r['report_specifier_id']),
           el('xcal:granularity', el('xcal:duration', dur(r['granularity']))),
           el('ei:reportBackDuration', el('xcal:duration', dur(r['report_back_duration']))),
           el('ei:reportInterval', el('xcal:properties',
                                      el('xcal:dtstart', el('xcal:date-time', ts(r['interval'][0]))),
                                      el('xcal:duration', el('xcal:duration', dur(r['interval'][1])))))
           if r.get('interval') else None,
           *[el('ei:specifierPayload', el('ei:rID', p['r_id']), measurement(p.get('measurement')),
                el('ei:readingType', p.get('reading_type', 'Direct Read'))) for p in r['payloads']]))


def registered_report(ven_id, requests, request_id='req', code=200):
    return doc('oadrRegisteredReport', response(code, 'OK', request_id),
               *[report_request(r) for r in requests], el('ei:venID', ven_id))


def create_report(ven_id, requests, request_id='req'):
    return doc('oadrCreateReport', el('pyld:requestID', request_id),
               *[report_request(r) for r in requests], el('ei:venID', ven_id))


def updated_report(ven_id, request_id='req', cancel=None):
    """cancel: dict request_id, report_request_id, follow"""
    return doc('oadrUpdatedReport', response(200, 'OK', request_id),
               el('oadr:oadrCancelReport', el('pyld:requestID', cancel['request_id']),
                  el('ei:reportRequestID', cancel['report_request_id']),
                  el('pyld:reportToFollow', boolean(cancel['follow'])), el('ei:venID', ven_id)) if cancel else None,
               el('ei:venID', ven_id))


def cancel_report(ven_id, report_request_id, follow, request_id='req'):
    return doc('oadrCancelReport', el('pyld:requestID', request_id), el('ei:reportRequestID', report_request_id),
               el('pyld:reportToFollow', boolean(follow)), el('ei:venID', ven_id))


def request_reregistration(ven_id):
    return doc('oadrRequestReregistration', el('ei:venID', ven_id))


# ---------------------------------------------------------------- reading

class Node:
    """A thin reader over lxml elements; paths are namespace-prefixed child paths."""

    def __init__(self, e):
        self.e = e

    @property
    def tag(self):
        return etree.QName(self.e).localname

    def all(self, path):
        nodes = [self.e]
        for p in path.split('/'):
            pre, _, name = p.partition(':')
            want = '{%s}%s' % (NS[pre], name)
            nodes = [c for n in nodes for c in n if c.tag == want]
        return [Node(n) for n in nodes]

    def one(self, path):
        nodes = self.all(path)
        return nodes[0] if nodes else None

    def text(self, path=None):
        n = self.one(path) if path else self
        if n is None:
            return None
        return n.e.text or ''

    def texts(self, path):
        return [n.e.text or '' for n in self.all(path)]

    def children(self):
        return [Node(c) for c in self.e if isinstance(c.tag, str)]


class Msg(Node):
    """The message element inside the envelope."""

    def __init__(self, content):
        if isinstance(content, str):
            content = content.encode('utf-8')
        self.raw = content
        self.root = etree.fromstring(content)
        signed = self.root.find('{%s}oadrSignedObject' % NS['oadr'])
        super().__init__([c for c in signed if isinstance(c.tag, str)][0])

    @property
    def type(self):
        return self.tag

    @property
    def code(self):
        c = self.text('ei:eiResponse/ei:responseCode')
        return None if c is None else int(c)

    def __repr__(self):
        return self.raw.decode('utf-8', 'replace')


_TS = re.compile(r'^(-?\d{4,})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?$')


def read_ts(text):
    """Microseconds since the epoch."""
    import datetime
    m = _TS.match(text)
    if not m:
        raise ValueError('not a timestamp: %r' % text)
    y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
    us = int(((m.group(7) or '.0')[1:] + '000000')[:6])
    off = 0
    if m.group(8) and m.group(8) != 'Z':
        off = (int(m.group(8)[1:3]) * 60 + int(m.group(8)[4:6])) * (1 if m.group(8)[0] == '+' else -1)
    return clock.us(datetime.datetime(y, mo, d, h, mi, s, us, tzinfo=clock.UTC)) - off * 60000000


_DUR = re.compile(r'^([+-])?P(?:(\d+)W|(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?)$')


def read_dur(text):
    m = _DUR.match(text)
    if not m or text.lstrip('+-') in ('P', 'PT'):
        raise ValueError('not a duration: %r' % text)
    w, y, mo, d, h, mi, s = (int(x or 0) for x in m.groups()[1:])
    total = (w * 7 + y * 365 + mo * 30 + d) * 86400 + h * 3600 + mi * 60 + s
    return -total if m.group(1) == '-' else total


def read_event(n):
    """The oadrEvent element as a dict, in terms of event()"""
    e = n.one('ei:eiEvent')
    d = e.one('ei:eventDescriptor')
    props = e.one('ei:eiActivePeriod/xcal:properties')
    t = e.one('ei:eiTarget')
    names = dict(groupID='group_id', groupName='group_name', resourceID='resource_id', venID='ven_id',
                 partyID='party_id')

    def duration(node, path):
        x = node.text(path)
        return None if x is None else read_dur(x)

    return dict(
        event_id=d.text('ei:eventID'), modification_number=int(d.text('ei:modificationNumber')),
        priority=None if d.text('ei:priority') is None else int(d.text('ei:priority')),
        market_context=d.text('ei:eiMarketContext/emix:marketContext'),
        created=read_ts(d.text('ei:createdDateTime')), status=d.text('ei:eventStatus'),
        test_event=d.text('ei:testEvent'), vtn_comment=d.text('ei:vtnComment'),
        start=read_ts(props.text('xcal:dtstart/xcal:date-time')),
        duration=read_dur(props.text('xcal:duration/xcal:duration')),
        ramp_up=duration(props, 'ei:x-eiRampUp/xcal:duration'),
        notification=duration(props, 'ei:x-eiNotification/xcal:duration'),
        recovery=duration(props, 'ei:x-eiRecovery/xcal:duration'),
        signals=[dict(
            name=s.text('ei:signalName'), type=s.text('ei:signalType'), id=s.text('ei:signalID'),
            current=s.text('ei:currentValue/ei:payloadFloat/ei:value'),
            intervals=[(None if i.text('xcal:dtstart/xcal:date-time') is None else
                        read_ts(i.text('xcal:dtstart/xcal:date-time')),
                        read_dur(i.text('xcal:duration/xcal:duration')),
                        float(i.text('ei:signalPayload/ei:payloadFloat/ei:value')))
                       for i in s.all('strm:intervals/ei:interval')])
            for s in e.all('ei:eiEventSignals/ei:eiEventSignal')],
        targets=[] if t is None else [{names[c.tag]: c.text()} for c in t.children()],
        response_required=n.text('oadr:oadrResponseRequired'))


def read_events(msg):
    return [read_event(n) for n in msg.all('oadr:oadrEvent')]


def read_report_request(n):
    s = n.one('ei:reportSpecifier')
    back = s.text('ei:reportBackDuration/xcal:duration')
    return dict(report_request_id=n.text('ei:reportRequestID'),
                report_specifier_id=s.text('ei:reportSpecifierID'),
                granularity=read_dur(s.text('xcal:granularity/xcal:duration')),
                report_back_duration=None if back is None else read_dur(back),
                payloads=[dict(r_id=p.text('ei:rID'), reading_type=p.text('ei:readingType'))
                          for p in s.all('ei:specifierPayload')])


def read_update_report(msg):
    out = []
    for r in msg.all('oadr:oadrReport'):
        out.append(dict(
            report_request_id=r.text('ei:reportRequestID'), report_specifier_id=r.text('ei:reportSpecifierID'),
            report_name=r.text('ei:reportName'),
            dtstart=None if r.text('xcal:dtstart/xcal:date-time') is None else read_ts(r.text('xcal:dtstart/xcal:date-time')),
            values=[(read_ts(i.text('xcal:dtstart/xcal:date-time')), i.text('oadr:oadrReportPayload/ei:rID'),
                     float(i.text('oadr:oadrReportPayload/ei:payloadFloat/ei:value')))
                    for i in r.all('strm:intervals/ei:interval')]))
    return out


def read_event_responses(msg):
    return [dict(event_id=r.text('ei:qualifiedEventID/ei:eventID'),
                 modification_number=int(r.text('ei:qualifiedEventID/ei:modificationNumber')),
                 opt_type=r.text('ei:optType'), code=int(r.text('ei:responseCode')),
                 request_id=r.text('pyld:requestID'))
            for r in msg.all('pyld:eiCreatedEvent/ei:eventResponses/ei:eventResponse')]
