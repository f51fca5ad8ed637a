"""C16: outgoing events and report registrations are corrected or refused as documented."""
import copy
from dataclasses import asdict, is_dataclass
from pbt import clock, gen, measurements, messages, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'at least one correction applies, or the message must be refused'
ASSUMPTIONS = ['the members that the templates cannot do without are present', 'names of unknown measurements do not contain "power"']
NOW = 1600000000123456


# ---------------------------------------------------------------- events

def plain(x):
    """The given values as plain data."""
    if is_dataclass(x):
        x = asdict(x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def set_(o, k, v):
    if isinstance(o, dict):
        o[k] = v
    else:
        setattr(o, k, v)


def get(o, k):
    return o.get(k) if isinstance(o, dict) else getattr(o, k)


def drop(o, k):
    if isinstance(o, dict):
        o.pop(k, None)
    else:
        setattr(o, k, None)


def uncorrected(events):
    """What must be left of the given events: everything except the members that may be corrected."""
    out = copy.deepcopy(plain(events))
    for e in out:
        e.pop('response_required', None)
        e.pop('targets', None)
        e['active_period'].pop('duration', None)
        e['event_descriptor'].pop('created_date_time', None)
        for s in e['event_signals']:
            s.pop('current_value', None)
            if s.get('measurement'):
                s['measurement'].pop('ns', None)
    return out


def prepare(e, how, changes, tags):
    """The event as an argument, the event expected on the wire, and the reason to refuse it (or None)."""
    refuse = None
    want = messages.event_expect(copy.deepcopy(e), how)
    arg = messages.event_kwargs(e, how)
    sigs = get(arg, 'event_signals')
    for ch in changes:
        kind, i, val = ch['kind'], ch['signal'] % len(sigs), ch['value']
        spec = e['signals'][i]
        if kind == 'active':
            set_(get(arg, 'active_period'), 'duration', clock.secs(val))
        elif kind == 'interval':
            k = ch['index'] % len(spec['intervals'])
            spec['intervals'][k][1] = want['signals'][i]['intervals'][k][1] = val
            set_(get(sigs[i], 'intervals')[k], 'duration', clock.secs(val))
        elif kind == 'payload':
            k = ch['index'] % len(spec['intervals'])
            v = [4, -1, 0.5, 2.999, 100, 3.0, 1, 0.0][val % 8]
            want['signals'][i]['intervals'][k][2] = float(v)
            set_(get(sigs[i], 'intervals')[k], 'signal_payload', v)
        elif kind == 'current':
            v = [None, 0, 2, 1.5, -1, 0.0, 3][val % 7]
            set_(sigs[i], 'current_value', v)
            want['signals'][i]['current'] = None if v is None else float(v)
        elif kind == 'no current':
            drop(sigs[i], 'current_value')
            want['signals'][i]['current'] = None
        elif kind == 'required':
            v = ['sometimes', None, '', 'Always', 'NEVER', 0, True][val % 7]
            set_(arg, 'response_required', v)
            want['response_required'] = 'always'
            tags.add('response required')
        elif kind == 'no required' and how != 'object':
            drop(arg, 'response_required')
            want['response_required'] = 'always'
            tags.add('response required')
        elif kind == 'created':
            if val % 2:
                set_(get(arg, 'event_descriptor'), 'created_date_time', None)
            else:
                drop(get(arg, 'event_descriptor'), 'created_date_time')
            want['created'] = NOW
            tags.add('created')
        elif kind == 'measurement' and get(sigs[i], 'measurement') is not None:
            set_(get(sigs[i], 'measurement'), 'name', ['nope', 'PowerReal', '', 'powerreal'][val % 4])
            refuse = 'unknown measurement'
        elif kind == 'namespace' and get(sigs[i], 'measurement') is not None:
            set_(get(sigs[i], 'measurement'), 'ns', ['oadr', 'power', 'nope', None][val % 4])
            tags.add('namespace')
    # targets
    t = changes[0]['targets'] if changes else 'list'
    grouped = {}
    for x in e['targets']:
        for k, v in x.items():
            grouped.setdefault(k, []).append(v)
    if how != 'object' and t == 'by type':
        del arg['targets']
        arg['targets_by_type'] = grouped
        tags.add('targets by type')
    elif t == 'both':
        set_(arg, 'targets_by_type', grouped)
    elif t == 'inconsistent':
        v = changes[0]['value'] % 4
        wrong = copy.deepcopy(grouped)
        first = list(wrong)[0]
        if v == 0:
            wrong[first].append('another')
        elif v == 1:
            wrong[first][0] += 'x'
        elif v == 2:
            wrong = {}
        else:
            wrong['group_id' if 'group_id' not in wrong else 'nothing'] = ['x']
        set_(arg, 'targets_by_type', wrong)
        refuse = 'inconsistent targets'
    # the rules
    totals = [sum(iv[1] for iv in s['intervals']) for s in e['signals']]
    active = get(get(arg, 'active_period'), 'duration').total_seconds()
    want['duration'] = active
    if any(x != active for x in totals):
        if len(set(totals)) > 1:
            refuse = 'different durations'
        else:
            want['duration'] = totals[0]
            tags.add('active period')
    for s, w in zip(e['signals'], want['signals']):
        if s['name'] == 'SIMPLE':
            if any(iv[2] not in (0, 1, 2, 3) for iv in w['intervals']):
                refuse = 'SIMPLE payload'
            if e['status'] != 'active' and w['current']:
                tags.add('current value')
                w['current'] = 0.0
    return arg, want, refuse


def current_default(events):
    """An absent current value of a SIMPLE signal that is not active is as good as 0."""
    for e in events:
        for s in e['signals']:
            if s['name'] == 'SIMPLE' and e['status'] != 'active' and s['current'] is None:
                s['current'] = 0.0
    return events


def run_events(case, info):
    from openleadr.messaging import create_message
    tags, refuse, args, wants = set(), None, [], []
    with clock.virtual(NOW):
        for x in case['events']:
            arg, want, r = prepare(copy.deepcopy(x['event']), x['how'], x['changes'], tags)
            refuse = refuse or r
            args.append(arg)
            wants.append(want)
        before = uncorrected(args)
        message = dict(request_id='req', vtn_id='vtn', events=args)
        if refuse:
            info.tag('refused: ' + refuse)
            info.nontrivial()
            try:
                xml = create_message('oadrDistributeEvent', **message)
            except ValueError:
                pass
            else:
                fail('not refused (%s)' % refuse, xml)
        else:
            info.tag(*['corrected: ' + t for t in tags])
            info.nontrivial(tags)
            xml = create_message('oadrDistributeEvent', **message)
            err = wire.schema_errors(xml)
            check(not err, 'not schema-valid: %s' % err, xml)
            got = [messages.event_read(n) for n in wire.Msg(xml).all('oadr:oadrEvent')]
            eq(messages.clean(current_default(got)), messages.clean(current_default(wants)), 'the events that are sent')
        eq(uncorrected(args), before, 'the given events are changed in other respects')
        for x, arg in zip(case['events'], args):
            if x['how'] == 'object':
                for d in (arg.active_period, arg.event_descriptor, arg.event_signals[0], arg.event_signals[0].intervals[0], arg.targets[0]):
                    check(is_dataclass(d), 'a given object is replaced by something else', d)


CHANGE = rec(kind=st.sampled_from(['active', 'interval', 'payload', 'payload', 'current', 'current', 'current', 'no current', 'required', 'no required', 'created', 'created',
                                   'measurement', 'namespace', 'namespace', 'nothing']),
             signal=st.integers(0, 2), index=st.integers(0, 3), value=st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 60, 3600]),
             targets=st.sampled_from(['list', 'list', 'both', 'by type', 'by type', 'inconsistent']))


def simple(x):
    """The event with its first signal turned into a SIMPLE signal."""
    e = copy.deepcopy(x[0])
    if x[1]:
        s = e['signals'][0]
        s['name'] = 'SIMPLE'
        s['current'] = x[2] if e['status'] == 'active' else 0
        for n, iv in enumerate(s['intervals']):
            iv[2] = (x[2] + n) % 4
    return e


EVENT = rec(event=st.tuples(messages.event_spec(), st.booleans(), st.integers(0, 3)).map(simple), how=st.sampled_from(['omit', 'none', 'object']), changes=st.lists(CHANGE, max_size=3))


# ---------------------------------------------------------------- report registrations

def run_reports(case, info):
    from openleadr.messaging import create_message
    tags, refuse, args = set(), None, []
    spec = copy.deepcopy(case['reports'])
    how = case['how']
    for r in spec:
        if r['prefixed'] and not r['report_name'].startswith('x-'):
            r['report_name'] = 'METADATA_' + r['report_name']
    wants = [messages.report_expect(dict(r, report_name=r['report_name'].replace('METADATA_', ''))) for r in spec]
    for r, want in zip(spec, wants):
        arg = messages.report_kwargs(r, how)
        tags.add('prefix' if not r['prefixed'] else 'prefixed')
        for x, w, given in zip(r['descriptions'], want['descriptions'], get(arg, 'report_descriptions')):
            m, spoil = get(given, 'measurement'), x['spoil']
            if m is None:
                continue
            name = w['measurement']['name']
            if spoil == 'namespace':
                set_(m, 'ns', ['oadr', 'power', 'nope', None][x['value'] % 4])
                tags.add('namespace')
            elif spoil == 'case' and name in measurements.TABLE:
                d = get(m, 'description')
                set_(m, 'description', d.swapcase() if x['value'] % 2 else d.upper())
                tags.add('description')
            elif spoil == 'description' and name in measurements.TABLE:
                set_(m, 'description', ['nope', get(m, 'description') + 'x', '', get(m, 'description')[:-1]][x['value'] % 4])
                refuse = 'description'
            elif spoil == 'unit' and name in measurements.TABLE:
                set_(m, 'unit', ['nope', get(m, 'unit').swapcase(), '', get(m, 'unit') + 'x'][x['value'] % 4])
                refuse = 'unit'
            elif spoil == 'power' and name in measurements.POWER:
                if how == 'object':
                    continue
                if x['value'] % 4 == 3:
                    del m['power_attributes']
                else:
                    del m['power_attributes'][['hertz', 'voltage', 'ac'][x['value'] % 4]]
                refuse = 'power attributes'
            elif spoil == 'missing' and how != 'object':
                del m[['name', 'description', 'unit'][x['value'] % 3]]
                refuse = 'a member is missing'
            elif spoil == 'name' and how != 'object' and name not in measurements.POWER + ['pulseCount']:
                m['name'] = ['nope', 'Voltage', 'x y', 'customunit'][x['value'] % 4]
                w['measurement']['name'] = 'customUnit'
                tags.add('name')
        args.append(arg)
    message = dict(request_id='req', ven_id='ven', reports=args)
    if refuse:
        info.tag('refused: ' + refuse)
        info.nontrivial()
        try:
            xml = create_message('oadrRegisterReport', **message)
        except ValueError:
            return
        fail('not refused (%s)' % refuse, xml)
    info.tag(*['corrected: ' + t for t in tags])
    info.nontrivial(tags)
    before = copy.deepcopy(args) if how == 'object' else None
    xml = create_message('oadrRegisterReport', **message)
    err = wire.schema_errors(xml)
    check(not err, 'not schema-valid: %s' % err, xml)
    want = [{k: v for k, v in w.items() if k != 'prefixed'} for w in wants]
    for w in want:
        for x in w['descriptions']:
            x.pop('spoil'), x.pop('value')
    eq(messages.TYPES['oadrRegisterReport'].read(wire.Msg(xml))['reports'] and messages.clean(messages.TYPES['oadrRegisterReport'].read(wire.Msg(xml))['reports']),
       messages.clean(want), 'the reports that are registered\n' + xml)
    if before is not None:
        eq([plain(a) for a in args], [plain(a) for a in before], 'the given report objects are changed')
    # registering the same reports once more gives the same message
    again = create_message('oadrRegisterReport', **message)
    eq(again, xml, 'registering the same reports again')


@st.composite
def report(draw):
    r = dict(draw(messages.REPORT), prefixed=draw(st.booleans()))
    r['descriptions'] = [dict(x, measurement=draw(st.one_of(measurements.spec(), measurements.spec(), st.none())), value=draw(st.integers(0, 7)),
                              spoil=draw(st.sampled_from([None, None, 'namespace', 'namespace', 'case', 'case', 'name', 'description', 'unit', 'power', 'missing'])))
                         for x in r['descriptions']]
    return r


def bulk(events, n, intervals):
    """Many events of which the last are as generated, or many intervals in the signals of the last."""
    if not intervals:
        filler = copy.deepcopy(events[0])
        filler['changes'] = []
        return dict(events=gen.cycle([filler], n, lambda e, k: dict(e, event=dict(e['event'], event_id='filler%d' % k))) + events)
    last = copy.deepcopy(events[-1])
    last['event']['signals'] = last['event']['signals'][:1]
    for s in last['event']['signals']:
        s['intervals'] = gen.cycle(s['intervals'], n)
    last['changes'] = [dict(c, index=c['index'] - 3) for c in last['changes']]      # the last ones
    return dict(events=[last])


def bulk_reports(case, n, reports):
    r = case['reports'][0]
    if reports:
        return dict(case, reports=gen.cycle([dict(r, descriptions=[dict(x, spoil=None) for x in r['descriptions']])], n, lambda x, k: dict(x, report_specifier_id='r%d' % k)) + [r])
    head = gen.cycle([dict(r['descriptions'][0], spoil=None)], n, lambda x, k: dict(x, r_id='filler%d' % k))
    return dict(case, reports=[dict(r, descriptions=head + r['descriptions'])])


SUITES = [Suite('events', rec(events=st.lists(EVENT, min_size=1, max_size=3)), run_events, 3000),
          Suite('reports', rec(reports=st.lists(report(), min_size=1, max_size=2), how=st.sampled_from(['omit', 'none', 'object'])), run_reports, 2500),
          Suite('events volume', st.tuples(st.lists(EVENT, min_size=1, max_size=3), gen.SIZES, st.booleans()).map(lambda x: bulk(*x)), run_events, 60, 600),
          Suite('reports volume', st.tuples(rec(reports=st.lists(report(), min_size=1, max_size=1), how=st.sampled_from(['omit', 'none', 'object'])), gen.SIZES, st.booleans()).map(lambda x: bulk_reports(*x)), run_reports, 60, 600)]
