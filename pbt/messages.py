"""
Every message type: a strategy for specifications (plain data), the arguments for create_message that follow
from a specification, and two independent ways back to the specification: from the payload that parse_message
returns, and from the XML with the reader of pbt.wire.

In a specification times are microseconds since the epoch, durations seconds, None is absent.
"""
from pbt import clock, gen, wire, measurements
from pbt.gen import st, rec

I, TXT = gen.ident(), gen.text()
CODE = st.sampled_from([200, 200, 200, 450, 451, 452, 453, 454, 459, 460, 461, 462, 463, 469])
READING = ['Direct Read', 'Net', 'Allocated', 'Estimated', 'Summed', 'Derived', 'Mean', 'Peak', 'Hybrid', 'Contract', 'Projected',
           'x-RMS', 'x-notApplicable', 'x-own thing']
RTYPES = ['reading', 'usage', 'demand', 'setPoint', 'deltaUsage', 'baseline', 'operatingState', 'availableEnergyStorage',
          'x-resourceStatus', 'x-own']
RNAMES = ['TELEMETRY_USAGE', 'TELEMETRY_STATUS', 'HISTORY_USAGE', 'HISTORY_GREENBUTTON', 'x-own']
SIGNALS = ['SIMPLE', 'ELECTRICITY_PRICE', 'ENERGY_PRICE', 'DEMAND_CHARGE', 'BID_PRICE', 'BID_LOAD', 'BID_ENERGY',
           'CHARGE_STATE', 'LOAD_DISPATCH', 'LOAD_CONTROL', 'x-own']
STYPES = ['delta', 'level', 'multiplier', 'price', 'priceMultiplier', 'priceRelative', 'setpoint', 'x-loadControlCapacity',
          'x-loadControlLevelOffset', 'x-loadControlPercentOffset', 'x-loadControlSetpoint']
TARGETS = ['group_id', 'group_name', 'resource_id', 'ven_id', 'party_id']
HOW = ['omit', 'none', 'object']


def clean(x):
    """Without the absent members."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if v is not None}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


def t(us):
    return None if us is None else clock.at(us)


def d(s):
    return None if s is None else clock.secs(s)


def ut(x):
    return None if x is None else clock.us(x)


def ud(x):
    if x is None:
        return None
    assert x.microseconds == 0, x
    return x.days * 86400 + x.seconds


def rid(x):
    return None if x is None else str(x)


def bool_(x):
    return None if x is None else {'true': True, 'false': False}.get(x, x)


def int_(x):
    return None if x is None else int(x)


def float_(x):
    return None if x is None else float(x)


def some(how, **kw):
    """A dict of arguments in which absent members are left out or None."""
    return kw if how == 'none' else {k: v for k, v in kw.items() if v is not None}


class Type:
    def __init__(self, name, strategy, kwargs, project, read, expect=lambda spec: spec):
        self.name, self.kwargs, self.project, self.read, self.expect = name, kwargs, project, read, expect
        self.strategy = st.tuples(strategy, st.sampled_from(HOW)).map(lambda x: dict(x[0], how=x[1]))

    def want(self, spec):
        spec = {k: v for k, v in spec.items() if k != 'how'}
        return clean(self.expect(spec))


TYPES = {}


def flat(name, root='', **members):
    """A message with flat members: name -> (strategy, path, to argument, from parsed, from text)."""
    def kwargs(s):
        return some(s['how'], **{k: m[2](s[k]) for k, m in members.items()})

    def project(p):
        return clean({k: m[3](p.get(k)) for k, m in members.items()})

    def read(msg):
        return clean({k: m[4](msg.text(root + m[1])) for k, m in members.items()})
    TYPES[name] = Type(name, rec(**{k: m[0] for k, m in members.items()}), kwargs, project, read)


same_ = lambda x: x
def text_(path, strategy=I): return (strategy, path, same_, same_, same_)
def rid_(path='pyld:requestID', strategy=I): return (strategy, path, same_, rid, same_)


RESPONSE = rec(response_code=CODE, response_description=TXT, request_id=I)


def read_response(msg):
    r = msg.one('ei:eiResponse')
    return None if r is None else dict(response_code=int(r.text('ei:responseCode')),
                                       response_description=r.text('ei:responseDescription'), request_id=r.text('pyld:requestID'))


def project_response(p):
    r = p.get('response')
    return None if r is None else dict(r, request_id=rid(r.get('request_id')))


def responding(name, **members):
    """A message with a response and flat members."""
    def kwargs(s):
        r = s['response']
        if s['how'] == 'object':
            from openleadr import objects
            r = objects.Response(**r)
        return some(s['how'], response=r, **{k: m[2](s[k]) for k, m in members.items()})
    TYPES[name] = Type(name, rec(response=RESPONSE, **{k: m[0] for k, m in members.items()}), kwargs,
                       lambda p: clean(dict(response=project_response(p), **{k: m[3](p.get(k)) for k, m in members.items()})),
                       lambda msg: clean(dict(response=read_response(msg), **{k: m[4](msg.text(m[1])) for k, m in members.items()})))


BOOL = lambda path: (st.booleans(), path, same_, same_, bool_)
flat('oadrPoll', ven_id=text_('ei:venID'))
flat('oadrRequestEvent', 'pyld:eiRequestEvent/', request_id=rid_(), ven_id=text_('ei:venID'),
     reply_limit=(gen.maybe(st.integers(0, 1000)), 'pyld:replyLimit', same_, same_, int_))
flat('oadrQueryRegistration', request_id=rid_())
flat('oadrCreatePartyRegistration', request_id=rid_(), registration_id=text_('ei:registrationID', gen.maybe(I)),
     ven_id=text_('ei:venID', gen.maybe(I)), profile_name=text_('oadr:oadrProfileName', st.sampled_from(['2.0b', '2.0a'])),
     transport_name=text_('oadr:oadrTransportName', st.sampled_from(['simpleHttp', 'xmpp'])),
     transport_address=text_('oadr:oadrTransportAddress', gen.maybe(TXT)), report_only=BOOL('oadr:oadrReportOnly'),
     xml_signature=BOOL('oadr:oadrXmlSignature'), ven_name=text_('oadr:oadrVenName', TXT), http_pull_model=BOOL('oadr:oadrHttpPullModel'))
flat('oadrCancelPartyRegistration', request_id=rid_(), registration_id=text_('ei:registrationID'), ven_id=text_('ei:venID'))
responding('oadrCanceledPartyRegistration', registration_id=text_('ei:registrationID'), ven_id=text_('ei:venID'))
flat('oadrRequestReregistration', ven_id=text_('ei:venID'))
responding('oadrResponse', ven_id=text_('ei:venID'))
flat('oadrCancelReport', request_id=rid_(), report_request_id=rid_('ei:reportRequestID'),
     report_to_follow=BOOL('pyld:reportToFollow'), ven_id=text_('ei:venID'))
responding('oadrCreatedOpt', opt_id=text_('ei:optID'))
responding('oadrCanceledOpt', opt_id=text_('ei:optID'))
flat('oadrCancelOpt', request_id=rid_(), opt_id=text_('ei:optID'), ven_id=text_('ei:venID'))


def add(name, strategy, kwargs, project, read, expect=lambda s: s):
    TYPES[name] = Type(name, strategy, kwargs, lambda p: clean(project(p)), lambda m: clean(read(m)), expect)


# oadrCreatedPartyRegistration
add('oadrCreatedPartyRegistration',
    rec(response=RESPONSE, registration_id=gen.maybe(I), ven_id=gen.maybe(I), vtn_id=I,
        profiles=st.lists(st.tuples(st.sampled_from(['2.0a', '2.0b']), st.lists(st.sampled_from(['simpleHttp', 'xmpp']), min_size=1, max_size=2)).map(list),
                          min_size=1, max_size=2), poll_freq=gen.maybe(gen.dur())),
    lambda s: some(s['how'], response=s['response'], registration_id=s['registration_id'], ven_id=s['ven_id'], vtn_id=s['vtn_id'],
                   profiles=[dict(profile_name=n, transports=[dict(transport_name=x) for x in tr]) for n, tr in s['profiles']],
                   requested_oadr_poll_freq=d(s['poll_freq'])),
    lambda p: dict(response=project_response(p), registration_id=p.get('registration_id'), ven_id=p.get('ven_id'), vtn_id=p['vtn_id'],
                   profiles=[[x['profile_name'], [y['transport_name'] for y in x['transports']]] for x in p['profiles']],
                   poll_freq=ud(p.get('requested_oadr_poll_freq'))),
    lambda m: dict(response=read_response(m), registration_id=m.text('ei:registrationID') or None, ven_id=m.text('ei:venID') or None,
                   vtn_id=m.text('ei:vtnID'),
                   profiles=[[x.text('oadr:oadrProfileName'), x.texts('oadr:oadrTransports/oadr:oadrTransport/oadr:oadrTransportName')]
                             for x in m.all('oadr:oadrProfiles/oadr:oadrProfile')],
                   poll_freq=None if m.one('oadr:oadrRequestedOadrPollFreq') is None else
                   wire.read_dur(m.text('oadr:oadrRequestedOadrPollFreq/xcal:duration'))))

# oadrCreatedEvent
EV_RESPONSE = rec(response_code=CODE, response_description=gen.maybe(TXT), request_id=I, event_id=I,
                  modification_number=st.integers(0, 100), opt_type=st.sampled_from(['optIn', 'optOut']))
add('oadrCreatedEvent',
    rec(response=RESPONSE, ven_id=I, event_responses=gen.maybe(st.lists(EV_RESPONSE, min_size=1, max_size=3))),
    lambda s: some(s['how'], response=s['response'], ven_id=s['ven_id'],
                   event_responses=s['event_responses'] and [some(s['how'], **r) for r in s['event_responses']]),
    lambda p: dict(response=project_response(p), ven_id=p['ven_id'],
                   event_responses=p.get('event_responses') and [dict(r, request_id=rid(r['request_id'])) for r in p['event_responses']]),
    lambda m: dict(response=dict(read_response(m.one('pyld:eiCreatedEvent')),
                                 request_id=m.text('pyld:eiCreatedEvent/ei:eiResponse/pyld:requestID') or None),
                   ven_id=m.text('pyld:eiCreatedEvent/ei:venID'),
                   event_responses=[dict(response_code=int(r.text('ei:responseCode')), response_description=r.text('ei:responseDescription'),
                                         request_id=r.text('pyld:requestID'), event_id=r.text('ei:qualifiedEventID/ei:eventID'),
                                         modification_number=int(r.text('ei:qualifiedEventID/ei:modificationNumber')),
                                         opt_type=r.text('ei:optType'))
                                    for r in m.all('pyld:eiCreatedEvent/ei:eventResponses/ei:eventResponse')] or None),
    # OpenADR has the request id of the response empty when there are event responses
    lambda s: dict(s, response=dict(s['response'], request_id=None)) if s['event_responses'] else s)

# oadrDistributeEvent


def split(total, k):
    """A duration in k parts."""
    parts, left = [], total
    for i in range(k - 1):
        parts.append(left // 2)
        left -= left // 2
    return parts + [left]


@st.composite
def event_spec(draw, messages=True):
    total = draw(gen.dur(0, 3 * 86400))
    start = draw(gen.us())
    status = draw(st.sampled_from(['none', 'far', 'near', 'active', 'completed', 'cancelled']))
    signals = []
    for n in range(draw(st.integers(1, 3))):
        name = draw(st.sampled_from(SIGNALS))
        k = draw(st.integers(1, 4))
        value = st.integers(0, 3) if name == 'SIMPLE' else gen.number()
        ds = split(total, k)
        at, ivs = start, []
        for x in ds:
            ivs.append([at if draw(st.booleans()) or not ivs else None, x, draw(value)])
            at += x * 1000000
        current = None
        if name == 'SIMPLE' and status != 'active':
            current = 0         # as OpenADR prescribes
        elif draw(st.booleans()):
            current = draw(value)
        signals.append(dict(name=name, type=draw(st.sampled_from(STYPES)), id=draw(I), current=current, intervals=ivs,
                            measurement=draw(gen.maybe(measurements.spec()))))
    period = gen.maybe(gen.dur(1, 86400))
    return dict(event_id=draw(I), modification_number=draw(st.integers(0, 100)), modification_time=draw(gen.maybe(gen.us())),
                modification_reason=draw(gen.maybe(TXT)), priority=draw(gen.maybe(st.integers(0, 10))),
                market_context=draw(gen.context()), created=draw(gen.us()), status=status,
                test_event=draw(gen.maybe(st.booleans())), vtn_comment=draw(gen.maybe(TXT)), start=start, duration=total,
                tolerance=draw(gen.maybe(gen.dur(1, 86400))), ramp_up=draw(period), notification=draw(period), recovery=draw(period),
                signals=signals, response_required=draw(st.sampled_from(['always', 'never'])),
                targets=draw(st.lists(st.tuples(st.sampled_from(TARGETS), I).map(lambda x: {x[0]: x[1]}), min_size=1, max_size=5)))


def event_kwargs(e, how):
    from openleadr import objects
    desc = some(how, event_id=e['event_id'], modification_number=e['modification_number'], modification_date_time=t(e['modification_time']),
                modification_reason=e['modification_reason'], priority=e['priority'], market_context=e['market_context'],
                created_date_time=t(e['created']), event_status=e['status'], test_event=e['test_event'], vtn_comment=e['vtn_comment'])
    period = some(how, dtstart=t(e['start']), duration=d(e['duration']), tolerance=e['tolerance'] and {'startafter': d(e['tolerance'])},
                  ramp_up_period=d(e['ramp_up']), notification_period=d(e['notification']), recovery_period=d(e['recovery']))
    sigs = [some(how, signal_name=s['name'], signal_type=s['type'], signal_id=s['id'], current_value=s['current'],
                 intervals=[some(how, dtstart=t(a), duration=d(x), signal_payload=v) for a, x, v in s['intervals']],
                 measurement=s['measurement'] and (measurements.as_object if how == 'object' else measurements.as_dict)(s['measurement']))
            for s in e['signals']]
    if how != 'object':
        return dict(event_descriptor=desc, active_period=period, event_signals=sigs, targets=[dict(x) for x in e['targets']],
                    response_required=e['response_required'])
    ev = objects.Event(event_descriptor=objects.EventDescriptor(**{'priority': None, 'test_event': None, **{k: v for k, v in desc.items() if k != 'modification_reason'}}),
                       active_period=objects.ActivePeriod(**period), targets=[objects.Target(**x) for x in e['targets']],
                       event_signals=[objects.EventSignal(**dict(s, intervals=[objects.Interval(**dict(dict(dtstart=None), **i)) for i in s['intervals']])) for s in sigs],
                       response_required=e['response_required'])
    ev.event_descriptor.event_status = e['status']
    if e['modification_time'] is None:
        ev.event_descriptor.modification_date_time = None
    if e['modification_reason'] is not None:
        ev.event_descriptor.modification_reason = e['modification_reason']
    return ev


def by_type(targets):
    return sorted(targets, key=lambda x: TARGETS.index(list(x)[0]))


def event_expect(e, how):
    """Targets are sent in the order of their types; numbers come back as floats."""
    e = dict(e, targets=by_type(e['targets']), signals=[
        dict(s, intervals=[[a, x, float(v)] for a, x, v in s['intervals']], current=float_(s['current']),
             measurement=measurements.plain(s['measurement'])) for s in e['signals']])
    return dict(e, modification_reason=None) if how == 'object' else e


def event_project(e):
    desc, p = e['event_descriptor'], e['active_period']
    tol = p.get('tolerance')
    grouped = {}
    for x in e['targets']:
        for k, v in x.items():
            grouped.setdefault(k, []).append(v)
    assert grouped == e['targets_by_type'], e['targets_by_type']
    assert [i['uid'] for s in e['event_signals'] for i in s['intervals']] == [i for s in e['event_signals'] for i in range(len(s['intervals']))]
    return dict(event_id=desc['event_id'], modification_number=desc['modification_number'], modification_time=ut(desc.get('modification_date_time')),
                modification_reason=desc.get('modification_reason'), priority=desc.get('priority'),
                market_context=desc['market_context'], created=ut(desc['created_date_time']), status=desc['event_status'],
                test_event=desc.get('test_event'), vtn_comment=desc.get('vtn_comment'), start=ut(p['dtstart']), duration=ud(p['duration']),
                tolerance=tol and ud(tol['tolerate']['startafter']), ramp_up=ud(p.get('ramp_up')), notification=ud(p.get('notification')),
                recovery=ud(p.get('recovery')), response_required=e['response_required'], targets=[dict(x) for x in e['targets']],
                signals=[dict(name=s['signal_name'], type=s['signal_type'], id=s['signal_id'], current=s.get('current_value'),
                              intervals=[[ut(i.get('dtstart')), ud(i['duration']), i['signal_payload']] for i in s['intervals']],
                              measurement=s.get('measurement') and measurements.from_dict(s['measurement']))
                         for s in e['event_signals']])


def event_read(n):
    e = wire.read_event(n)
    descr = n.one('ei:eiEvent/ei:eventDescriptor')
    mt = descr.text('ei:modificationDateTime')
    tol = n.text('ei:eiEvent/ei:eiActivePeriod/xcal:properties/xcal:tolerance/xcal:tolerate/xcal:startafter')
    e.update(modification_time=None if mt is None else wire.read_ts(mt), modification_reason=descr.text('ei:modificationReason'),
             tolerance=None if tol is None else wire.read_dur(tol), test_event=bool_(e['test_event']))
    for s, node in zip(e['signals'], n.all('ei:eiEvent/ei:eiEventSignals/ei:eiEventSignal')):
        s['intervals'] = [list(i) for i in s['intervals']]
        s['current'] = float_(s['current'])
        s['measurement'] = measurements.read(node)
    return e


EVENTS = st.lists(event_spec(), max_size=3)
add('oadrDistributeEvent', rec(response=gen.maybe(RESPONSE), request_id=I, vtn_id=I, events=EVENTS),
    lambda s: some('omit', response=s['response'], request_id=s['request_id'], vtn_id=s['vtn_id'],
                   events=[event_kwargs(e, s['how']) for e in s['events']]),
    lambda p: dict(response=project_response(p), request_id=rid(p['request_id']), vtn_id=p['vtn_id'],
                   events=[event_project(e) for e in p.get('events', [])]),
    lambda m: dict(response=read_response(m), request_id=m.text('pyld:requestID'), vtn_id=m.text('ei:vtnID'),
                   events=[event_read(n) for n in m.all('oadr:oadrEvent')]))
TYPES['oadrDistributeEvent'].want = lambda s: clean(dict({k: v for k, v in s.items() if k != 'how'}, events=[event_expect(e, s['how']) for e in s['events']]))

# Reports
DESCRIPTION = rec(r_id=I, mrid=gen.maybe(I), source=gen.maybe(st.tuples(st.sampled_from(TARGETS), I).map(list)), report_type=st.sampled_from(RTYPES),
                  measurement=gen.maybe(measurements.spec()), reading_type=st.sampled_from(READING), market_context=gen.maybe(gen.context()),
                  sampling=gen.maybe(st.tuples(gen.dur(), gen.dur(), st.booleans()).map(list)))


def description_kwargs(x, how):
    from openleadr import objects
    m = x['measurement'] and (measurements.as_object if how == 'object' else measurements.as_dict)(x['measurement'])
    src = x['source'] and {x['source'][0]: x['source'][1]}
    smp = x['sampling'] and dict(min_period=d(x['sampling'][0]), max_period=d(x['sampling'][1]), on_change=x['sampling'][2])
    if how == 'object':
        return objects.ReportDescription(
            r_id=x['r_id'], market_context=x['market_context'], reading_type=x['reading_type'], report_type=x['report_type'],
            report_subject=x['mrid'] and objects.Target(end_device_asset=objects.EndDeviceAsset(x['mrid'])),
            report_data_source=src and objects.Target(**src), sampling_rate=smp and objects.SamplingRate(**smp), measurement=m)
    return some(how, r_id=x['r_id'], market_context=x['market_context'], reading_type=x['reading_type'], report_type=x['report_type'],
                report_subject=x['mrid'] and dict(end_device_asset=dict(mrid=x['mrid'])), report_data_source=src, sampling_rate=smp, measurement=m)


def description_project(x):
    src = x.get('report_data_source')
    smp = x.get('sampling_rate')
    sub = x.get('report_subject')
    return dict(r_id=x['r_id'], mrid=sub and sub['end_device_asset']['mrid'], source=src and [list(src)[0], src[list(src)[0]]],
                report_type=x['report_type'], measurement=x.get('measurement') and measurements.from_dict(x['measurement']),
                reading_type=x['reading_type'], market_context=x.get('market_context'),
                sampling=smp and [ud(smp['min_period']), ud(smp['max_period']), smp['on_change']])


_TNAMES = dict(groupID='group_id', groupName='group_name', resourceID='resource_id', venID='ven_id', partyID='party_id')


def description_read(n):
    src = n.one('ei:reportDataSource')
    smp = n.one('oadr:oadrSamplingRate')
    return dict(r_id=n.text('ei:rID'), mrid=n.text('ei:reportSubject/power:endDeviceAsset/power:mrid'),
                source=src and [_TNAMES[src.children()[0].tag], src.children()[0].text()], report_type=n.text('ei:reportType'),
                measurement=measurements.read(n), reading_type=n.text('ei:readingType'), market_context=n.text('emix:marketContext'),
                sampling=smp and [wire.read_dur(smp.text('oadr:oadrMinPeriod')), wire.read_dur(smp.text('oadr:oadrMaxPeriod')),
                                  bool_(smp.text('oadr:oadrOnChange'))])


REPORT = rec(report_specifier_id=I, report_name=st.sampled_from(RNAMES), report_request_id=gen.maybe(I), duration=gen.maybe(gen.dur()),
             created=gen.us(), descriptions=st.lists(DESCRIPTION, min_size=1, max_size=3))


def report_kwargs(r, how):
    from openleadr import objects
    kw = some(how, report_specifier_id=r['report_specifier_id'], report_name=r['report_name'], report_request_id=r['report_request_id'],
              duration=d(r['duration']), created_date_time=t(r['created']), report_descriptions=[description_kwargs(x, how) for x in r['descriptions']])
    return objects.Report(**kw) if how == 'object' else kw


def report_expect(r):
    name = r['report_name'] if r['report_name'].startswith('x-') else 'METADATA_' + r['report_name']
    return dict(r, report_name=name, report_request_id=r['report_request_id'] if r['report_request_id'] is not None else '0',
                descriptions=[dict(x, measurement=measurements.plain(x['measurement'])) for x in r['descriptions']])


add('oadrRegisterReport', rec(request_id=I, ven_id=gen.maybe(I), reports=st.lists(REPORT, min_size=1, max_size=3)),
    lambda s: some(s['how'], request_id=s['request_id'], ven_id=s['ven_id'], reports=[report_kwargs(r, s['how']) for r in s['reports']]),
    lambda p: dict(request_id=rid(p['request_id']), ven_id=p.get('ven_id'), reports=[
        dict(report_specifier_id=r['report_specifier_id'], report_name=r['report_name'], report_request_id=rid(r['report_request_id']),
             duration=ud(r.get('duration')), created=ut(r['created_date_time']),
             descriptions=[description_project(x) for x in r['report_descriptions']]) for r in p['reports']]),
    lambda m: dict(request_id=m.text('pyld:requestID'), ven_id=m.text('ei:venID'), reports=[
        dict(report_specifier_id=r.text('ei:reportSpecifierID'), report_name=r.text('ei:reportName'), report_request_id=r.text('ei:reportRequestID'),
             duration=None if r.one('xcal:duration') is None else wire.read_dur(r.text('xcal:duration/xcal:duration')),
             created=wire.read_ts(r.text('ei:createdDateTime')), descriptions=[description_read(x) for x in r.all('oadr:oadrReportDescription')])
        for r in m.all('oadr:oadrReport')]),
    lambda s: dict(s, reports=[report_expect(r) for r in s['reports']]))

PAYLOAD = rec(r_id=I, reading_type=st.sampled_from(READING))
REQUEST = rec(report_request_id=I, report_specifier_id=I, granularity=gen.dur(), back=gen.dur(),
              interval=gen.maybe(st.tuples(gen.us(), gen.dur()).map(list)), payloads=st.lists(PAYLOAD, min_size=1, max_size=3))


def request_kwargs(r, how):
    from openleadr import objects
    iv = r['interval'] and dict(dtstart=t(r['interval'][0]), duration=d(r['interval'][1]))
    if how == 'object':
        return objects.ReportRequest(r['report_request_id'], objects.ReportSpecifier(
            r['report_specifier_id'], d(r['granularity']), [objects.SpecifierPayload(**x) for x in r['payloads']],
            report_interval=iv and objects.Interval(signal_payload=None, **iv), report_back_duration=d(r['back'])))
    return dict(report_request_id=r['report_request_id'], report_specifier=some(
        how, report_specifier_id=r['report_specifier_id'], granularity=d(r['granularity']), report_back_duration=d(r['back']), report_interval=iv,
        specifier_payloads=[dict(x) for x in r['payloads']]))


def request_project(r):
    s = r['report_specifier']
    iv = s.get('report_interval')
    return dict(report_request_id=rid(r['report_request_id']), report_specifier_id=s['report_specifier_id'], granularity=ud(s['granularity']),
                back=ud(s['report_back_duration']), interval=iv and [ut(iv['dtstart']), ud(iv['duration'])],
                payloads=[dict(x) for x in s['specifier_payloads']])


def request_read(n):
    r = wire.read_report_request(n)
    iv = n.one('ei:reportSpecifier/ei:reportInterval/xcal:properties')
    return dict(report_request_id=r['report_request_id'], report_specifier_id=r['report_specifier_id'], granularity=r['granularity'],
                back=r['report_back_duration'], payloads=r['payloads'],
                interval=iv and [wire.read_ts(iv.text('xcal:dtstart/xcal:date-time')), wire.read_dur(iv.text('xcal:duration/xcal:duration'))])


add('oadrRegisteredReport', rec(response=RESPONSE, ven_id=gen.maybe(I), report_requests=st.lists(REQUEST, max_size=3)),
    lambda s: some(s['how'], response=s['response'], ven_id=s['ven_id'], report_requests=[request_kwargs(r, s['how']) for r in s['report_requests']]),
    lambda p: dict(response=project_response(p), ven_id=p.get('ven_id'), report_requests=[request_project(r) for r in p.get('report_requests', [])]),
    lambda m: dict(response=read_response(m), ven_id=m.text('ei:venID'), report_requests=[request_read(n) for n in m.all('oadr:oadrReportRequest')]))
add('oadrCreateReport', rec(request_id=I, ven_id=I, report_requests=st.lists(REQUEST, min_size=1, max_size=3)),
    lambda s: some(s['how'], request_id=s['request_id'], ven_id=s['ven_id'], report_requests=[request_kwargs(r, s['how']) for r in s['report_requests']]),
    lambda p: dict(request_id=rid(p['request_id']), ven_id=p.get('ven_id'), report_requests=[request_project(r) for r in p['report_requests']]),
    lambda m: dict(request_id=m.text('pyld:requestID'), ven_id=m.text('ei:venID'), report_requests=[request_read(n) for n in m.all('oadr:oadrReportRequest')]))

for _name in ('oadrCreatedReport', 'oadrCanceledReport'):
    add(_name, rec(response=RESPONSE, ven_id=gen.maybe(I), pending=st.lists(I, max_size=3)),
        lambda s: some(s['how'], response=s['response'], ven_id=s['ven_id'], pending_reports=[dict(report_request_id=x) for x in s['pending']]),
        lambda p: dict(response=project_response(p), ven_id=p.get('ven_id'), pending=[x['report_request_id'] for x in p['pending_reports']]),
        lambda m: dict(response=read_response(m), ven_id=m.text('ei:venID'), pending=m.texts('oadr:oadrPendingReports/ei:reportRequestID')))

INTERVAL = rec(at=gen.us(), duration=gen.maybe(gen.dur()), r_id=I, value=gen.number(), confidence=gen.maybe(st.integers(0, 100)),
               accuracy=gen.maybe(st.integers(0, 100)))
UPDATE = rec(report_request_id=I, report_specifier_id=I, report_name=st.sampled_from(RNAMES), created=gen.us(), dtstart=gen.maybe(gen.us()),
             intervals=st.lists(INTERVAL, max_size=4))


def update_kwargs(r, how):
    from openleadr import objects
    ivs = [some(how, dtstart=t(i['at']), duration=d(i['duration']),
                report_payload=some(how, r_id=i['r_id'], value=i['value'], confidence=i['confidence'], accuracy=i['accuracy'])) for i in r['intervals']]
    kw = some(how, report_request_id=r['report_request_id'], report_specifier_id=r['report_specifier_id'], report_name=r['report_name'],
              created_date_time=t(r['created']), dtstart=t(r['dtstart']), intervals=ivs)
    if how == 'object':
        kw['intervals'] = [objects.ReportInterval(**dict(i, report_payload=objects.ReportPayload(**i['report_payload']))) for i in ivs]
        return objects.Report(**kw)
    return kw


def update_project(r):
    return dict(report_request_id=rid(r['report_request_id']), report_specifier_id=r['report_specifier_id'], report_name=r['report_name'],
                created=ut(r['created_date_time']), dtstart=ut(r.get('dtstart')),
                intervals=[dict(at=ut(i['dtstart']), duration=ud(i.get('duration')), r_id=i['report_payload']['r_id'], value=i['report_payload']['value'],
                                confidence=i['report_payload'].get('confidence'), accuracy=i['report_payload'].get('accuracy'))
                           for i in r.get('intervals') or []])


def update_read(n):
    ds = n.text('xcal:dtstart/xcal:date-time')
    return dict(report_request_id=n.text('ei:reportRequestID'), report_specifier_id=n.text('ei:reportSpecifierID'), report_name=n.text('ei:reportName'),
                created=wire.read_ts(n.text('ei:createdDateTime')), dtstart=None if ds is None else wire.read_ts(ds),
                intervals=[dict(at=wire.read_ts(i.text('xcal:dtstart/xcal:date-time')),
                                duration=None if i.one('xcal:duration') is None else wire.read_dur(i.text('xcal:duration/xcal:duration')),
                                r_id=i.text('oadr:oadrReportPayload/ei:rID'), value=float(i.text('oadr:oadrReportPayload/ei:payloadFloat/ei:value')),
                                confidence=int_(i.text('oadr:oadrReportPayload/ei:confidence')),
                                accuracy=None if i.text('oadr:oadrReportPayload/ei:accuracy') is None else int(float(i.text('oadr:oadrReportPayload/ei:accuracy'))))
                           for i in n.all('strm:intervals/ei:interval')])


add('oadrUpdateReport', rec(request_id=I, ven_id=gen.maybe(I), reports=st.lists(UPDATE, min_size=1, max_size=3)),
    lambda s: some(s['how'], request_id=s['request_id'], ven_id=s['ven_id'], reports=[update_kwargs(r, s['how']) for r in s['reports']]),
    lambda p: dict(request_id=rid(p['request_id']), ven_id=p.get('ven_id'), reports=[update_project(r) for r in p['reports']]),
    lambda m: dict(request_id=m.text('pyld:requestID'), ven_id=m.text('ei:venID'), reports=[update_read(n) for n in m.all('oadr:oadrReport')]))

CANCEL = rec(request_id=I, report_request_id=st.lists(I, min_size=1, max_size=3), report_to_follow=st.booleans(), ven_id=gen.maybe(I))


def _ids(x):
    return [rid(y) for y in x] if isinstance(x, list) else [rid(x)]


add('oadrUpdatedReport', rec(response=RESPONSE, ven_id=gen.maybe(I), cancel_report=gen.maybe(CANCEL)),
    lambda s: some(s['how'], response=s['response'], ven_id=s['ven_id'], cancel_report=s['cancel_report'] and dict(s['cancel_report'])),
    lambda p: dict(response=project_response(p), ven_id=p.get('ven_id'), cancel_report=p.get('cancel_report') and dict(
        p['cancel_report'], request_id=rid(p['cancel_report']['request_id']), report_request_id=_ids(p['cancel_report']['report_request_id']))),
    lambda m: dict(response=read_response(m), ven_id=m.text('ei:venID'), cancel_report=m.one('oadr:oadrCancelReport') and dict(
        request_id=m.text('oadr:oadrCancelReport/pyld:requestID'), report_request_id=m.texts('oadr:oadrCancelReport/ei:reportRequestID'),
        report_to_follow=bool_(m.text('oadr:oadrCancelReport/pyld:reportToFollow')), ven_id=m.text('oadr:oadrCancelReport/ei:venID'))))

# oadrCreateOpt
OPT = rec(request_id=I, ven_id=I, opt_id=I, opt_type=st.sampled_from(['optIn', 'optOut']),
          opt_reason=st.sampled_from(['economic', 'emergency', 'mustRun', 'notParticipating', 'outageRunStatus', 'overrideStatus', 'participating', 'x-schedule']),
          market_context=gen.maybe(gen.context()), created=gen.us(),
          subject=st.one_of(rec(event_id=I, modification_number=st.integers(0, 50)),
                            rec(components=st.lists(st.tuples(gen.us(), gen.dur()).map(list), min_size=1, max_size=3))),
          targets=st.lists(st.tuples(st.sampled_from(TARGETS), I).map(lambda x: {x[0]: x[1]}), min_size=1, max_size=4),
          mrid=gen.maybe(st.sampled_from(['Thermostat', 'Strip_Heater', 'EVSE', 'x-own'])))


def opt_kwargs(s):
    from dataclasses import asdict
    from openleadr import objects
    sub = s['subject']
    kw = some(s['how'], opt_id=s['opt_id'], opt_type=s['opt_type'], opt_reason=s['opt_reason'], market_context=s['market_context'],
              created_date_time=t(s['created']), signal_target_mrid=s['mrid'], event_id=sub.get('event_id'),
              modification_number=sub.get('modification_number'), targets=[dict(x) for x in s['targets']],
              vavailability=dict(components=[dict(dtstart=t(a), duration=d(x)) for a, x in sub['components']]) if 'components' in sub else None)
    if s['how'] == 'object':
        if 'components' in sub:
            kw['vavailability'] = objects.Vavailability([objects.VavailabilityComponent(**c) for c in kw['vavailability']['components']])
        kw = asdict(objects.Opt(**kw))
    return dict(kw, request_id=s['request_id'], ven_id=s['ven_id'])


def _components(v):
    c = v['components']
    c = c['available'] if isinstance(c, dict) else c        # how the parser gives them; a single one is not in a list
    c = [x.get('properties', x) for x in (c if isinstance(c, list) else [c])]
    return [[ut(x['dtstart']), ud(x['duration'])] for x in c]


def opt_project(p):
    dev = p.get('device_class')
    sub = dict(components=_components(p['vavailability'])) if p.get('vavailability') else \
        dict(event_id=p.get('event_id'), modification_number=p.get('modification_number'))
    return dict(request_id=rid(p['request_id']), ven_id=p['ven_id'], opt_id=p['opt_id'], opt_type=p['opt_type'], opt_reason=p['opt_reason'],
                market_context=p.get('market_context'), created=ut(p['created_date_time']), subject=sub, targets=p['targets'],
                mrid=dev and dev['end_device_asset']['mrid'])


def opt_read(m):
    av = m.all('xcal:vavailability/xcal:components/xcal:available/xcal:properties')
    sub = dict(components=[[wire.read_ts(x.text('xcal:dtstart/xcal:date-time')), wire.read_dur(x.text('xcal:duration/xcal:duration'))] for x in av]) \
        if av else dict(event_id=m.text('ei:qualifiedEventID/ei:eventID'), modification_number=int_(m.text('ei:qualifiedEventID/ei:modificationNumber')))
    return dict(request_id=m.text('pyld:requestID'), ven_id=m.text('ei:venID'), opt_id=m.text('ei:optID'), opt_type=m.text('ei:optType'),
                opt_reason=m.text('ei:optReason'), market_context=m.text('emix:marketContext'), created=wire.read_ts(m.text('ei:createdDateTime')),
                subject=sub, targets=[{_TNAMES[c.tag]: c.text()} for c in m.one('ei:eiTarget').children()],
                mrid=m.text('oadr:oadrDeviceClass/power:endDeviceAsset/power:mrid'))


add('oadrCreateOpt', OPT, opt_kwargs, opt_project, opt_read, lambda s: dict(s, targets=by_type(s['targets'])))


def case(names=None):
    """A case: message type and specification."""
    return st.sampled_from(sorted(names or TYPES)).flatmap(lambda n: rec(type=st.just(n), spec=TYPES[n].strategy))


def simple(spec):
    """Whether the specification is trivial: no special text, no list with several members."""
    import json
    s = json.dumps(spec, ensure_ascii=False)
    return not any(c in s for c in '<>&{}' if c not in '{}') and s.count('[') < 2


# Lists that are much longer than usual

GROWS = ('events', 'signals', 'intervals', 'targets', 'event_responses', 'reports', 'descriptions', 'report_requests', 'payloads', 'pending', 'report_request_id', 'components')
NAMED = ('event_id', 'report_specifier_id', 'r_id')


def _lists(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in GROWS and isinstance(v, list) and v:
                out.append((k, v, x))
            _lists(v, out)
    elif isinstance(x, list):
        for y in x:
            _lists(y, out)
    return out


def grow(case, which, n):
    """The same message with one of its lists grown to n different members."""
    import json
    case = json.loads(json.dumps(case))
    lists = _lists(case['spec'], [])
    if not lists:
        return case
    key, found, parent = lists[which % len(lists)]
    first = list(found)
    for k in range(len(found), n):
        x = json.loads(json.dumps(first[k % len(first)]))
        if isinstance(x, str):
            x = '%s.%d' % (x, k)
        elif key == 'targets':
            x = {a: '%s.%d' % (b, k) for a, b in x.items()}
        elif key == 'intervals' and isinstance(x, list):       # of a signal, the duration of which stays as it was
            x = [(first[0][0] + k * 1000000) % 4102444800000000, 0, x[2]]
        elif isinstance(x, list):
            x = [(x[0] + k * 1000000) % 4102444800000000] + x[1:]
        else:
            for name in NAMED:
                if name in x:
                    x[name] = '%s.%d' % (x[name], k)
            if 'at' in x:
                x['at'] = (x['at'] + k * 1000000) % 4102444800000000
        found.append(x)
    return dict(case, grown='%s %d' % (key, n))


def volume(names=None):
    names = names or ['oadrDistributeEvent', 'oadrCreatedEvent', 'oadrRegisterReport', 'oadrUpdateReport', 'oadrCreateReport', 'oadrRegisteredReport', 'oadrCreateOpt',
                      'oadrCreatedReport', 'oadrCanceledReport', 'oadrUpdatedReport']
    return st.tuples(case(names), st.integers(0, 20), st.sampled_from([8, 11, 17, 33, 65, 101, 129, 257, 300, 513])).map(lambda x: grow(*x))
