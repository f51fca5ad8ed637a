"""C40: arguments that OpenADR restricts to an enumeration are accepted exactly when the standard knows them."""
import functools
import os
import re
from datetime import timedelta
from lxml import etree

from pbt import clock, env, gen, measurements, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'a value that nearly is one of the enumeration, or belongs to another enumeration, or an extension token is among those given'
ASSUMPTIONS = ['values are strings', "whether 'x-' followed by white space or nothing is an extension is left open", 'white space around a value is not tested']

T0 = 1600000000 * 1000000
SITES = {       # what is given -> (type in the schema, extensions are allowed)
    'EventSignal signal_type': ('SignalTypeEnumeratedType', False), 'EventSignal signal_name': ('SignalNameEnumeratedType', True),
    'add_event signal_type': ('SignalTypeEnumeratedType', False), 'add_event signal_name': ('SignalNameEnumeratedType', True),
    'add_event response_required': ('ResponseRequiredType', False),
    'Opt opt_type': ('OptTypeType', False), 'Opt opt_reason': ('OptReasonEnumeratedType', False), 'Opt signal_target_mrid': ('device', True),
    'create_opt opt_type': ('OptTypeType', False), 'create_opt opt_reason': ('OptReasonEnumeratedType', False), 'create_opt signal_target_mrid': ('device', True),
    'add_report report_name': ('reportNameEnumeratedType', True), 'add_report report_type': ('ReportEnumeratedType', True),
    'add_report reading_type': ('ReadingTypeEnumeratedType', True), 'add_report scale': ('SiScaleCodeType', False)}
CLASSES = {'EVENT_STATUS': 'EventStatusEnumeratedType', 'SIGNAL_TYPE': 'SignalTypeEnumeratedType', 'SIGNAL_NAME': 'SignalNameEnumeratedType', 'SI_SCALE_CODE': 'SiScaleCodeType',
           'OPT': 'OptTypeType', 'OPT_REASON': 'OptReasonEnumeratedType', 'READING_TYPE': 'ReadingTypeEnumeratedType', 'REPORT_TYPE': 'ReportEnumeratedType',
           'REPORT_NAME': 'reportNameEnumeratedType', 'SIGNAL_TARGET_MRID': 'device', 'STATUS_CODES': 'code'}
DEVICES = ['Thermostat', 'Strip_Heater', 'Baseboard_Heater', 'Water_Heater', 'Pool_Pump', 'Sauna', 'Hot_tub', 'Smart_Appliance', 'Irrigation_Pump',
           'Managed_Commercial_and_Industrial_Loads', 'Simple_Residential_On_Off_Loads', 'Exterior_Lighting', 'Interior_Lighting', 'Electric_Vehicle', 'Generation_Systems',
           'Load_Control_Switch', 'Smart_Inverter', 'EVSE', 'RESU', 'Energy_Management_System', 'Smart_Energy_Module', 'Storage']
CODES = {'OUT_OF_SEQUENCE': 450, 'NOT_ALLOWED': 451, 'INVALID_ID': 452, 'NOT_RECOGNIZED': 453, 'INVALID_DATA': 454, 'COMPLIANCE_ERROR': 459, 'SIGNAL_NOT_SUPPORTED': 460,
         'REPORT_NOT_SUPPORTED': 461, 'TARGET_MISMATCH': 462, 'NOT_REGISTERED_OR_AUTHORIZED': 463, 'DEPLOYMENT_ERROR_OR_OTHER_ERROR': 469}


@functools.lru_cache(None)
def tables():
    """All enumerations of the schema, by name."""
    xs = '{http://www.w3.org/2001/XMLSchema}'
    out = {'device': DEVICES, 'code': sorted(CODES.values())}
    d = os.path.join(os.path.dirname(wire.__file__), 'schema')
    for f in sorted(os.listdir(d)):
        if f.endswith('.xsd'):
            for t in etree.parse(os.path.join(d, f)).iter(xs + 'simpleType'):
                values = [e.get('value') for e in t.iter(xs + 'enumeration')]
                name = t.get('name') or t.getparent().get('name')
                if values and name:
                    out.setdefault(name, values)
    out['ResponseRequiredType'] = ['always', 'never']
    return out


def value(spec, table):
    """(value, whether it is known; None if that is left open)"""
    known = tables()[table[0]]
    how, n = spec['how'], spec['n']
    base = known[n % len(known)]
    if how == 'known':
        return base, True
    if how == 'near':
        v = gen.near(base, spec['m'])
    elif how == 'case':
        v = [base.upper(), base.lower(), base.title(), base.replace('_', ' '), base.replace(' ', '_'), base.swapcase()][spec['m'] % 6]
    elif how == 'other':
        other = [k for k in sorted(tables()) if k not in ('code', table[0])]
        v = (lambda t: t[n % len(t)])(tables()[other[spec['m'] % len(other)]])
    elif how == 'token':
        t = [spec['text'], base][n % 2]
        v = ['x-' + t, 'x-' + t, 'x-x-' + t, 'X-' + t, 'x' + t, 'ax-' + t, 'x_' + t, t + 'x-', t + ' x-own', t[:2] + 'x-' + t[2:], base + 'x-' + base, '-x-' + t][spec['m'] % 12]
    else:
        v = spec['text']
    if v in known:
        return v, True
    if table[1] and v.startswith('x-'):
        return v, True if re.fullmatch(r'x-\S.*', v) else None
    return v, False


def attempt(call, ok, what):
    """Whether it was accepted, which has to be `ok`."""
    try:
        with env.quiet():
            call()
    except ValueError as err:
        check(not ok, what + ' is refused', str(err)[:200])
        return False
    check(ok, what + ' is accepted')
    return True


def interval():
    return dict(dtstart=clock.at(T0 + 10 ** 10), duration=timedelta(hours=1), signal_payload=1)


async def arguments(case, info):
    from openleadr import messaging, objects
    events, opts, reports = {}, [], {}
    with clock.virtual(T0):
        async with env.VTN() as vtn, env.FakeVTN() as fake, env.VEN(fake.url) as ven:
            rest = []
            for i, c in enumerate(case):
                site = SITES[c['site']]
                v, ok = value(c['value'], site)
                if ok is None:
                    continue
                where, arg = c['site'].split()
                what = '%s(%s=%r)' % (where, arg, v)
                info.tag('%s %s' % (where, 'accepted' if ok else 'refused'))
                info.nontrivial(c['value']['how'] in ('near', 'case', 'other', 'token'))
                if where == 'EventSignal':
                    kw = dict(intervals=[interval()], signal_name='x-own', signal_type='level', signal_id='s')
                    kw[arg] = v
                    made = []
                    if attempt(lambda: made.append(objects.EventSignal(**kw)), ok, what):
                        e = objects.Event(event_descriptor=objects.EventDescriptor(event_id='e', modification_number=0, market_context='http://x', event_status='far'),
                                          event_signals=made, targets=[objects.Target(ven_id='v')])
                        xml = messaging.create_message('oadrDistributeEvent', events=[e], vtn_id='VTN', request_id='r', response=dict(request_id='r', response_code=200, response_description='OK'))
                        check(wire.schema_errors(xml) is None, what + ' leads to an invalid message', wire.schema_errors(xml))
                        s, = wire.read_events(wire.Msg(xml.encode('utf-8')))[0]['signals']
                        eq((s['name'], s['type']), (kw['signal_name'], kw['signal_type']), 'the signal sent for ' + what)
                elif where == 'add_event':
                    kw = dict(signal_name='x-own', signal_type='level', response_required='always')
                    kw[arg] = v
                    if attempt(lambda: vtn.server.add_event('ven0', intervals=[interval()], event_id='e%d' % i, callback=lambda ven_id, event_id, opt_type: None, **kw), ok, what):
                        events['e%d' % i] = (kw['signal_name'], kw['signal_type'], kw['response_required'])
                elif where == 'Opt':
                    kw = dict(opt_type='optIn', opt_reason='economic', opt_id='o', event_id='e', modification_number=0, targets=[objects.Target(ven_id='v')])
                    kw[arg] = v
                    attempt(lambda: objects.Opt(**kw), ok, what)
                elif where == 'add_report':
                    kw = dict(report_name='TELEMETRY_USAGE', report_type='usage', reading_type='Direct Read', scale='none')
                    kw[arg] = v
                    if attempt(lambda: ven.client.add_report(lambda: 1, 'res', 'voltage', report_specifier_id='s%d' % i, r_id='r', **kw), ok, what):
                        reports['s%d' % i] = kw
                else:
                    rest.append((i, arg, v, ok, what))
            # what arrives
            got = {e['event_id']: (e['signals'][0]['name'], e['signals'][0]['type'], e['response_required']) for e in wire.read_events(await vtn.poll('ven0'))}
            eq(got, events, 'the events of the VTN')
            await ven.start()
            sent = [m for m in fake.take() if m.type == 'oadrRegisterReport']
            check(len(sent) == 1, 'the number of report registrations', len(sent))
            got = {}
            for r in sent[0].all('oadr:oadrReport'):
                d = r.one('oadr:oadrReportDescription')
                got[r.text('ei:reportSpecifierID')] = [r.text('ei:reportName'), d.text('ei:reportType'), d.text('ei:readingType'), (measurements.read(d) or {}).get('scale')]
            want = {k: [kw['report_name'] if kw['report_name'].startswith(('x-', 'METADATA_')) else 'METADATA_' + kw['report_name'], kw['report_type'], kw['reading_type'],
                        None if kw['report_name'] == 'TELEMETRY_STATUS' else kw['scale']] for k, kw in reports.items()}
            eq(got, want, 'the reports that are registered')
            for i, arg, v, ok, what in rest:
                kw = dict(opt_type='optIn', opt_reason='economic')
                kw[arg] = v
                fake.replies['oadrCreateOpt'] = [lambda m: wire.doc('oadrCreatedOpt', wire.response(200, 'OK', m.text('pyld:requestID') or ''), wire.el('ei:optID', m.text('ei:optID')))]
                try:
                    with env.quiet():
                        await ven.client.create_opt(event_id='e', modification_number=0, targets=[dict(ven_id='v')], opt_id='o%d' % i, **kw)
                except ValueError as err:
                    check(not ok, what + ' is refused', str(err)[:200])
                else:
                    check(ok, what + ' is accepted')
                got = [(m.type, m.text('ei:optType'), m.text('ei:optReason'), m.text('oadr:oadrDeviceClass/power:endDeviceAsset/power:mrid')) for m in fake.take()]
                eq(got, [('oadrCreateOpt', kw['opt_type'], kw['opt_reason'], kw.get('signal_target_mrid'))] if ok else [], 'what is sent for ' + what)


def run_arguments(case, info):
    env.run(arguments(case, info))


def enumeration(case, info):
    from openleadr import enums
    letters = lambda s: re.sub('[^a-z0-9]', '', str(s).lower())
    for c in case:
        cls, table = getattr(enums, c['class']), CLASSES[c['class']]
        if table == 'code':
            names = sorted(CODES)
            name = names[c['value']['n'] % len(names)]
            eq((cls[name], getattr(cls, name)), (CODES[name],) * 2, 'the status code %s' % name)
            eq(sorted(cls.values), sorted(CODES.values()), 'the status codes')
            continue
        v, ok = value(c['value'], (table, False))
        check((v in cls.values) == ok, '%r is %sa value of %s' % (v, '' if not ok else 'not ', c['class']))
        names = [m for m in cls.members if cls[m] == v]
        eq([letters(m) for m in names], [letters(v)] if ok else [], 'the names for %r in %s' % (v, c['class']))
        info.nontrivial(c['value']['how'] != 'known')


VALUE = rec(how=st.sampled_from(['known', 'known', 'near', 'case', 'other', 'token', 'token', 'token', 'text']), n=st.integers(0, 50), m=st.integers(0, 20), text=gen.text())
SUITES = [Suite('arguments', st.lists(rec(site=st.sampled_from(sorted(SITES)), value=VALUE), min_size=4, max_size=12), run_arguments, 3000, 24000),
          Suite('enumerations', st.lists(rec(**{'class': st.sampled_from(sorted(CLASSES)), 'value': VALUE}), min_size=3, max_size=20), enumeration, 400, 2000)]
