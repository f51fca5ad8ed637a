"""C34: report measurements are validated against OpenADR."""
import copy
from pbt import clock, gen, measurements, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'a measurement that must be corrected or refused, or that has another than its default unit or power attributes'
ASSUMPTIONS = ['members are absent or of their documented type', 'power attributes are given for power measurements only', 'unknown names do not contain "power" (for which the library asks power attributes)',
               'a pulse factor is given for pulse counts only']
UNITS = {k: measurements.all_currencies() if k.startswith('currency') else v[2] for k, v in measurements.TABLE.items()}


def verdict(m):
    """None if the definition must be refused, the accepted definition otherwise."""
    if not {'name', 'description', 'unit'} <= set(m):
        return None
    out = dict(m)
    if m['name'] in measurements.TABLE:
        _, description, _ = measurements.TABLE[m['name']]
        if m['description'].lower() != description.lower() or m['unit'] not in UNITS[m['name']]:
            return None
        out['description'] = description
    else:
        out['name'] = 'customUnit'
    if m['name'] in measurements.POWER and not (isinstance(m.get('power_attributes'), dict) and {'voltage', 'ac', 'hertz'} <= set(m['power_attributes'])):
        return None
    return out


def build(case):
    m = dict(name=case['name'], description=case['description'], unit=case['unit'])
    if case['name'] in measurements.TABLE:
        _, description, _ = measurements.TABLE[case['name']]
        m['unit'] = UNITS[case['name']][case['pick'] % len(UNITS[case['name']])] if case['unit_from'] == 'own' else UNITS[case['other']][0] if case['unit_from'] == 'other' else case['unit']
        m['description'] = {'own': description, 'upper': description.upper(), 'lower': description.lower(), 'swapped': description.swapcase(), 'prefix': description[:-1], 'longer': description + 's',
                            'other': measurements.TABLE[case['other']][1], 'text': case['description']}[case['description_from']]
    if case['name'] == 'pulseCount':
        m['pulse_factor'] = case['factor']
    elif case['scale'] is not None:
        m['scale'] = case['scale']
    if case['name'] in measurements.POWER:
        p = dict(hertz=case['power'][0], voltage=case['power'][1], ac=case['power'][2])
        if case['power_drop'] in p:
            del p[case['power_drop']]
        if case['power_drop'] != 'all':
            m['power_attributes'] = p
    for k in case['drop']:
        m.pop(k, None)
    return m


def wire_form(m):
    """What must be on the wire for an accepted definition."""
    out = {k: m[k] for k in ('name', 'description', 'unit')}
    if 'pulse_factor' in m:
        out['pulse_factor'] = m['pulse_factor']
    else:
        out['scale'] = m.get('scale') or 'none'
    if 'power_attributes' in m:
        p = m['power_attributes']
        out['power'] = [p['hertz'], p['voltage'], p['ac']]
    return out


def registration(m):
    """The oadrRegisterReport message with a given measurement."""
    from openleadr import messaging, objects
    rate = objects.SamplingRate(min_period=clock.secs(10), max_period=clock.secs(60), on_change=False)
    d = dict(r_id='r', report_type='usage', reading_type='Direct Read', measurement=m, sampling_rate=dict(min_period=rate.min_period, max_period=rate.max_period, on_change=False),
             report_data_source=dict(resource_id='x'), report_subject=None, market_context=None)
    if not isinstance(m, dict):
        d = objects.ReportDescription(r_id='r', market_context=None, reading_type='Direct Read', report_subject=None, report_data_source=objects.Target(resource_id='x'), report_type='usage', sampling_rate=rate, measurement=m)
    report = dict(report_specifier_id='s', report_name='TELEMETRY_USAGE', report_request_id='0', duration=clock.secs(60), created_date_time=clock.at(0), report_descriptions=[d])
    if not isinstance(m, dict):
        report = objects.Report(report_specifier_id='s', report_name='TELEMETRY_USAGE', report_request_id='0', duration=clock.secs(60), created_date_time=clock.at(0), report_descriptions=[d])
    return messaging.create_message('oadrRegisterReport', ven_id='v', request_id='q', reports=[report])


def check_message(xml, want, what):
    from openleadr import messaging
    err = wire.schema_errors(xml)
    check(err is None, 'the registration of %s is not schema-valid: %s' % (what, err), xml)
    eq(measurements.read(wire.Msg(xml).one('oadr:oadrReport/oadr:oadrReportDescription')), want, 'the measurement on the wire of ' + what)
    _, payload = messaging.parse_message(xml)
    eq(measurements.from_dict(payload['reports'][0]['report_descriptions'][0]['measurement']), want, 'the measurement that is parsed from the registration of ' + what)


def definitions(case, info):
    from openleadr import utils, objects
    m = build(case)
    want = verdict(m)
    what = 'the measurement %r' % m
    form = case['form']
    if form == 'object' and {'name', 'description', 'unit'} - set(m):
        form = 'message'
    try:
        if form == 'validate':
            g = copy.deepcopy(m)
            utils.validate_report_measurement_dict(g)
            if want is not None:
                eq({k: v for k, v in g.items() if k != 'ns'}, want, 'the accepted form of ' + what)
        elif form == 'message':
            xml = registration(copy.deepcopy(m))
        elif form == 'object':
            g = copy.deepcopy(m)
            pa = g.get('power_attributes')
            if pa and len(pa) < 3:
                return      # such objects cannot be made
            if pa:
                g['power_attributes'] = objects.PowerAttributes(**pa)
            xml = registration(objects.Measurement(**g))
        elif form == 'add_report':
            from openleadr import OpenADRClient
            c = OpenADRClient(ven_name='v', vtn_url='http://localhost:1', show_fingerprint=False)
            try:
                c.add_report(lambda: 1, 'x', measurement=copy.deepcopy(m), report_specifier_id='s', r_id='r')
            except BaseException:
                check(not c.reports and not c.report_callbacks, 'a refused report is added', what)
                raise
            if want is not None and 'pulse_factor' not in want:
                d = c.reports[0].report_descriptions[0]
                eq(measurements.from_dict(d.measurement), wire_form(want), 'the measurement of the report that was added with ' + what)
    except ValueError as err:
        check(want is None, '%s is refused (%s): %s' % (what, form, err))
        info.tag('refused')
        info.nontrivial()
        return
    check(want is not None, '%s is accepted (%s)' % (what, form))
    if form in ('message', 'object'):
        check_message(xml, wire_form(want), what)
    info.tag('accepted')
    if want != m:
        info.tag('corrected')
    info.nontrivial(want != m or len(UNITS.get(m['name'], [1])) > 1 or 'power_attributes' in m)


def predefined(case, info):
    from openleadr import enums
    key = case['key']
    name = measurements.PREDEFINED[key]
    _, description, _ = measurements.TABLE[name]
    m = copy.deepcopy(getattr(enums.MEASUREMENTS, key))
    unit = UNITS[name][case['pick'] % len(UNITS[name])]
    if case['set_unit']:
        check(unit in m.acceptable_units, 'a unit is missing among the acceptable units of ' + key, unit)
        m.unit = unit
    check(m.unit in UNITS[name], 'the default unit of ' + key, m.unit)
    want = dict(name=name, description=description, unit=m.unit)
    if name == 'pulseCount':
        want['pulse_factor'] = 1000
    else:
        want['scale'] = 'none'
    if name in measurements.POWER:
        want['power'] = [50, 230, True]
    if case['scale'] is not None and name != 'pulseCount':
        m.scale = want['scale'] = case['scale']
    check_message(registration(m), want, 'the predefined measurement ' + key)
    for u in m.acceptable_units:
        check(u in UNITS[name], 'an acceptable unit of %s is not one of the schema' % key, u)
    info.nontrivial(case['set_unit'] or name in measurements.POWER)
    info.tag(name)


NAMES = sorted(measurements.TABLE)
DEFINITION = rec(name=st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(measurements.POWER), st.sampled_from(['customUnit', 'Voltage', 'energy_real', 'therm', 'VOLTAGE', 'x']), gen.text().filter(lambda x: 'power' not in x.lower())),
                 description=gen.text(), unit=gen.text(), pick=st.integers(0, 300), other=st.sampled_from(NAMES), unit_from=st.sampled_from(['own'] * 6 + ['other', 'text']),
                 description_from=st.sampled_from(['own'] * 4 + ['upper', 'lower', 'swapped', 'prefix', 'longer', 'other', 'text']), factor=st.integers(1, 5000), scale=gen.maybe(st.sampled_from(measurements.SCALES)),
                 power=st.tuples(st.sampled_from([50, 60, 400]), st.sampled_from([110, 230, 400]), st.booleans()).map(list), power_drop=st.sampled_from([None] * 6 + ['hertz', 'voltage', 'ac', 'all']),
                 drop=st.one_of(*[st.just([])] * 5 + [st.lists(st.sampled_from(['name', 'description', 'unit', 'scale']), max_size=2)]), form=st.sampled_from(['validate', 'message', 'object', 'add_report']))
SUITES = [Suite('definitions', DEFINITION, definitions, 6000, 60000),
          Suite('predefined', rec(key=st.sampled_from(sorted(measurements.PREDEFINED)), pick=st.integers(0, 300), set_unit=st.booleans(), scale=gen.maybe(st.sampled_from(measurements.SCALES))), predefined, 2500, 25000)]
