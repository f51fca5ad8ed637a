"""C21: add_report builds exactly the offered reports, or refuses."""
import copy
from pbt import clock, env, gen, measurements, messages, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'at least two data points in one report, or additions to two clients, or a refused addition among accepted ones'
ASSUMPTIONS = ['a unit is given for measurements that are not predefined', 'the unit argument is not given along with a measurement that is a dict',
               'the power arguments are given along with the name of a predefined measurement only', 'no r_id is used twice in a report',
               'report_data_source, data_source and end_device_asset_mrid are not given', "the mode of collection of a report is that of its first data point"]
T0 = 1600000000 * 1000000
NAMES = ['TELEMETRY_USAGE', 'TELEMETRY_STATUS', 'HISTORY_USAGE', 'HISTORY_GREENBUTTON', 'METADATA_HISTORY_USAGE', 'x-own', 'x-a b']
RTYPES = ['reading', 'usage', 'demand', 'setPoint', 'deltaUsage', 'deltaSetPoint', 'deltaDemand', 'baseline', 'deviation', 'avgUsage', 'avgDemand', 'operatingState',
          'upRegulationCapacityAvailable', 'downRegulationCapacityAvailable', 'regulationSetpoint', 'storedEnergy', 'targetEnergyStorage', 'availableEnergyStorage',
          'price', 'level', 'powerFactor', 'percentUsage', 'percentDemand', 'x-resourceStatus', 'x-own']
BAD = {'report_name': ['', 'telemetry_usage', 'TELEMETRY', 'X-own', 'TELEMETRY_USAGE '], 'reading_type': ['direct read', '', 'Directread', 'X-RMS', 'DIRECT_READ'],
       'report_type': ['READING', '', 'Usage', 'xown'], 'scale': ['K', '', 'kilo', 'x', 'None'], 'data_collection_mode': ['Full', '', 'both', None],
       'callback': ['partial'], 'measurement': ['none', 'description', 'unit', 'nounit', 'nodescription', 'noname', 'nopower']}


def cb0(): return 1
async def cb1(): return 1
def cb2(date_from, date_to, sampling_interval): return []
async def cb3(*, date_from=None, sampling_interval=None, date_to=None): return []
def cb4(date_from, date_to): return []
def cb5(date_from, sampling_interval): return []
async def cb6(date_to, sampling_interval, extra=None): return []


CALLBACKS = dict(plain=cb0, coro=cb1, full=cb2, fullcoro=cb3, partial=cb4)


def make(a):
    """The arguments for add_report, and the resulting measurement on the wire."""
    from openleadr import enums, objects
    kw = {k: a[k] for k in ('report_specifier_id', 'r_id', 'market_context') if a[k] is not None}
    for k in ('report_name', 'reading_type', 'report_type'):
        if a[k] is not None:
            kw[k] = a[k]
    if a['scale'] is not None:
        kw['scale'] = a['scale']
    kw['callback'] = CALLBACKS[a['callback']]
    if a['callback'].startswith('full') and a['mode_given']:
        kw['data_collection_mode'] = 'full'
    elif a['mode_given']:
        kw['data_collection_mode'] = 'incremental'
    kw['resource_id'] = a['resource_id']
    if a['duration'] is not None:
        kw['report_duration'] = clock.secs(a['duration'])
    if a['sampling'] is not None:
        lo, hi, change, how = a['sampling']
        kw['sampling_rate'] = clock.secs(lo) if how else objects.SamplingRate(min_period=clock.secs(lo), max_period=clock.secs(hi), on_change=change)
    if a['dtstart'] is not None:
        kw['report_dtstart'] = clock.at(a['dtstart'])
    m, form = a['measurement'], a['form']
    scale = a['scale']
    own = None
    if form in ('name', 'predefined'):
        key = a['key']
        name = measurements.PREDEFINED[key]
        units = UNITS[name]
        want = dict(name=name, description=measurements.TABLE[name][1], unit=getattr(enums.MEASUREMENTS, key).unit)      # (C34 has the defaults)
        if a['unit'] == 'other':
            kw['unit'] = 'furlong'
        elif a['unit'] is not None:
            kw['unit'] = want['unit'] = units[a['unit'] % len(units)]
        if name == 'pulseCount':
            want['pulse_factor'] = 1000
        else:
            want['scale'] = scale or 'none'
        if name in measurements.POWER:
            want['power'] = [50, 230, True]
            if form == 'name' and a['power'] is not None:
                kw.update(power_hertz=a['power'][0], power_voltage=a['power'][1], power_ac=a['power'][2])
                want['power'] = list(a['power'])
        own = getattr(enums.MEASUREMENTS, key)
        kw['measurement'] = {'upper': key, 'lower': key.lower(), 'title': key.title()}[a['spelling']] if form == 'name' else own
    elif form == 'custom':
        kw.update(measurement=a['text'], unit=a['own_unit'])
        want = dict(name='customUnit', description=a['text'], unit=a['own_unit'], scale=scale or 'none')
    else:
        own = measurements.as_dict(m) if form == 'dict' else measurements.as_object(m)
        want = {k: v for k, v in m.items() if k != 'ns'}
        if 'scale' in m and a['drop_scale']:
            if form == 'dict':
                del own['scale']
            else:
                own.scale = None
            want['scale'] = 'none'
        if 'scale' in want and scale not in (None, 'none'):
            want['scale'] = scale
        kw['measurement'] = own
    if a['report_name'] == 'TELEMETRY_STATUS':
        want = None
        if a['drop_measurement']:
            del kw['measurement']
    return kw, want, own


def spoil(kw, bad, a):
    """Make the arguments invalid; returns a description of what is wrong."""
    what, i = bad
    v = BAD[what][i % len(BAD[what])]
    if what == 'callback':
        kw['callback'] = [cb4, cb0, cb1, cb5, cb6][i % 5]
        kw['data_collection_mode'] = 'full'
    elif what == 'measurement':
        if kw.get('report_name') == 'TELEMETRY_STATUS':
            kw['report_name'] = 'TELEMETRY_USAGE'
        good = dict(name='voltage', description='Voltage', unit='V', scale='none')
        power = dict(name='powerReal', description='RealPower', unit='W', scale='none', power_attributes=dict(hertz=50, voltage=230, ac=True))
        if v == 'description':
            good['description'] = 'Volt'
        elif v == 'unit':
            good['unit'] = 'kV'
        elif v == 'nopower':
            good = power
            if i % 2:
                del good['power_attributes']
            else:
                del good['power_attributes'][['hertz', 'voltage', 'ac'][i % 3]]
        elif v.startswith('no') and v != 'none':
            del good[v[2:]]
        kw['measurement'] = None if v == 'none' else good
        if v == 'none' and i % 2:
            del kw['measurement']
    else:
        kw[what] = v
    return '%s: %r' % (what, kw.get(what))


UNITS = {k: measurements.all_currencies() if k.startswith('currency') else v[2] for k, v in measurements.TABLE.items()}
SNAPSHOT = None


def predefined():
    from openleadr import enums
    return {k: repr(vars(getattr(enums.MEASUREMENTS, k))) for k in measurements.PREDEFINED}


def state(c):
    return ([(r.report_specifier_id, r.report_name, [d.r_id for d in r.report_descriptions]) for r in c.reports], dict(c.report_callbacks))


async def play(case, info):
    global SNAPSHOT
    if SNAPSHOT is None:
        SNAPSHOT = predefined()
    models = []     # per client: list of reports (dict)
    vens, fakes = [], []
    refused = 0
    with clock.timezone(case['tz']), clock.virtual(T0) as now:
        for i in range(case['clients']):
            f = await env.FakeVTN(ven_id='ven%d' % i).__aenter__()
            fakes.append(f)
            vens.append(env.VEN(f.url, ven_name='name%d' % i))
            models.append([])
        callbacks = [{} for _ in vens]
        for n, a in enumerate(case['additions']):
            i = a['client'] % len(vens)
            c, model = vens[i].client, models[i]
            a = dict(a, r_id=None if a['no_r_id'] else 'r%d' % n)
            kw, want, own = make(a)
            own_before = repr(own) if own is not None and not isinstance(own, dict) else None
            what = 'addition %d (%s)' % (n, kw)
            if a['bad'] is not None:
                wrong = spoil(kw, a['bad'], a)
                before = state(c)
                try:
                    with env.quiet():
                        got = c.add_report(**kw)
                except (ValueError, TypeError):
                    pass
                else:
                    fail('an addition with a wrong %s is accepted' % wrong, repr(kw), repr(got))
                eq(state(c), before, 'the reports after a refused addition with a wrong ' + wrong)
                refused += 1
                continue
            with env.quiet():
                got = c.add_report(**kw)
            if own_before is not None:
                eq(repr(own), own_before, 'the given measurement after ' + what)
            name, spec = a['report_name'] or 'TELEMETRY_USAGE', a['report_specifier_id']
            report = next((r for r in model if r['name'] == name and spec in (None, r['spec'])), None)
            if report is None:
                known = [r['spec'] for m in models for r in m]
                check(got[0] == spec if spec else got[0] and got[0] not in known, 'the report specifier id that is returned by ' + what, got)
                report = dict(name=name, spec=got[0], duration=3600 if a['duration'] is None else a['duration'], points=[])
                model.append(report)
            eq(got[0], report['spec'], 'the report specifier id that is returned by ' + what)
            check(got[1] == a['r_id'] if a['r_id'] else got[1] and got[1] not in [p['r_id'] for p in report['points']], 'the r_id that is returned by ' + what, got)
            smp = a['sampling']
            report['points'].append(messages.clean(dict(
                r_id=got[1], source=['resource_id', a['resource_id']], report_type=a['report_type'] or 'reading', reading_type=a['reading_type'] or 'Direct Read',
                market_context=a['market_context'], measurement=want, sampling=[10, 3600, False] if smp is None else [smp[0], smp[0], False] if smp[3] else smp[:3])))
            callbacks[i][(got[0], got[1])] = kw['callback']
            eq(dict(c.report_callbacks), callbacks[i], 'the callbacks after ' + what)
        eq(predefined(), SNAPSHOT, 'the predefined measurements afterwards')
        for i, (f, v, model) in enumerate(zip(fakes, vens, models)):
            now.advance(1)
            try:
                await v.start()
                got = f.take('oadrRegisterReport')
                t = messages.TYPES['oadrRegisterReport']
                reports = [r for m in got for r in messages.clean(t.read(m))['reports']]
                for m in got:
                    eq(m.text('ei:venID'), 'ven%d' % i, 'the venID of the report registration')
                want = [dict(report_specifier_id=r['spec'], report_name=r['name'] if r['name'].startswith(('x-', 'METADATA_')) else 'METADATA_' + r['name'], report_request_id='0',
                             duration=r['duration'], created=now.now_us, descriptions=r['points']) for r in model]
                eq(reports, want, 'the reports that client %d registers' % i)
            finally:
                await v.__aexit__()
                await f.__aexit__()
    many = any(len(r['points']) > 1 for m in models for r in m)
    info.nontrivial(many or sum(map(bool, models)) > 1 or refused and any(models))
    info.tag(*[x for x, y in (('several points', many), ('several reports', any(len(m) > 1 for m in models)), ('several clients', sum(map(bool, models)) > 1), ('refused', refused)) if y])


def run(case, info):
    env.run(play(case, info))


FORM = st.sampled_from(['name'] * 3 + ['predefined', 'custom', 'dict', 'object'])
ADD = rec(client=st.integers(0, 2), report_name=gen.maybe(st.sampled_from(NAMES)), report_specifier_id=gen.maybe(st.sampled_from(['s1', 's2', '漢 <&>'])), no_r_id=st.booleans(),
          resource_id=gen.ident(), form=FORM, measurement=measurements.spec().filter(lambda m: 'power' in m or 'power' not in m['name'].lower()),
          key=st.sampled_from(sorted(measurements.PREDEFINED) + ['REAL_POWER', 'CURRENCY', 'TEMPERATURE']), spelling=st.sampled_from(['upper', 'lower', 'title']),
          unit=st.one_of(st.none(), st.none(), st.integers(0, 300), st.just('other')), text=gen.text().filter(lambda x: x.upper() not in measurements.PREDEFINED), own_unit=gen.text(),
          scale=gen.maybe(st.sampled_from(measurements.SCALES)), drop_scale=st.booleans(), drop_measurement=st.booleans(), power=gen.maybe(st.tuples(st.sampled_from([50, 60, 400]), st.sampled_from([110, 230, 400]), st.booleans()).map(list)),
          reading_type=gen.maybe(st.sampled_from(messages.READING)), report_type=gen.maybe(st.sampled_from(RTYPES)), duration=gen.maybe(gen.dur()), dtstart=gen.maybe(gen.us()),
          sampling=gen.maybe(st.tuples(gen.dur(1), gen.dur(1), st.booleans(), st.booleans()).map(list)), market_context=gen.maybe(gen.context()),
          callback=st.sampled_from(['plain', 'coro', 'full', 'fullcoro']), mode_given=st.booleans(),
          bad=st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(sorted(BAD)), st.integers(0, 200)).map(list)))


def bulk(case, n):
    """Many data points, in few reports or in as many."""
    adds = [dict(a, bad=None) for a in case['additions']]
    return dict(case, additions=gen.cycle(adds, n, (lambda a, k: dict(a, report_specifier_id='s%d' % k)) if case['apart'] else None))


SUITES = [Suite('volume', st.builds(bulk, rec(tz=st.sampled_from(gen.TZ), clients=st.integers(1, 2), apart=st.booleans(), additions=st.lists(ADD, min_size=1, max_size=4)), gen.SIZES), run, 40, 300),
          Suite('reports', rec(tz=st.sampled_from(gen.TZ), clients=st.integers(1, 3), additions=st.lists(ADD, min_size=1, max_size=7)), run, 1000, 10000)]
