"""C15: add_event and add_raw_event deliver what was specified."""
import asyncio
import copy
from zoneinfo import ZoneInfo
from pbt import clock, env, events, gen, wire
from pbt.checks import c10
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'an accepted event with at least two intervals, a naive start, an explicit target or a period; or an event that must be refused'
ASSUMPTIONS = ['a ramp-up, notification or recovery period of zero is the same as none', 'intervals follow each other without gaps (otherwise the active period is adjusted, see C16)', 'at most one of target, targets and targets_by_type is given',
               'naive start times that do not exist in the local time zone (skipped by daylight saving) are left out']
T0 = events.T0 * 1000000
SEC = 10 ** 6
NAMES = ['SIMPLE', 'simple', 'ELECTRICITY_PRICE', 'ENERGY_PRICE', 'DEMAND_CHARGE', 'BID_PRICE', 'BID_LOAD', 'BID_ENERGY', 'CHARGE_STATE', 'LOAD_DISPATCH', 'LOAD_CONTROL']
TYPES = ['delta', 'level', 'multiplier', 'price', 'priceMultiplier', 'priceRelative', 'setpoint', 'x-loadControlCapacity', 'x-loadControlLevelOffset',
         'x-loadControlPercentOffset', 'x-loadControlSetpoint']
BAD = dict(signal_name=['', 'Simple', 'NO_SUCH', 'xmine', 'load_dispatch'], signal_type=['', 'Level', 'nope', 'x-mine'], response_required=['', 'sometimes', 'Always', True, None],
           intervals=['none', 'empty', 'text', 'dict', 'number'], callback=['no arguments', 'two arguments', 'other names'])


def good_callback(ven_id, event_id, opt_type):
    pass


async def good_coroutine(ven_id, event_id, opt_type, extra=None):
    pass


def callback(kind):
    if kind == 'future':
        return asyncio.get_running_loop().create_future()
    return {'function': good_callback, 'coroutine': good_coroutine, None: None, 'no arguments': lambda: None,
            'two arguments': lambda ven_id, event_id: None, 'other names': lambda a, b, c: None}[kind]


def timestamp(us, op, tz):
    if op['naive']:
        return c10.local(us, tz)[0]
    if op['other_tz']:
        return clock.at(us).astimezone(ZoneInfo(op['other_tz']))
    return clock.at(us)


def moment(us, op, tz):
    return c10.local(us, tz)[1] if op['naive'] else us


def build_intervals(sig, op, tz, form):
    from openleadr import objects
    start, wanted, given = T0 + op['start'], [], []
    t = start
    if op['naive']:     # keep the intervals contiguous on the time line
        start = t = moment(start, op, tz)
    for d, v in sig['intervals']:
        iv = dict(dtstart=timestamp(t, op, tz), duration=clock.secs(d), signal_payload=v)
        if op['naive'] and moment(t, op, tz) != t:
            return None, None, None
        wanted.append((t, d, float(v)))
        given.append(objects.Interval(**iv) if form == 'object' else iv)
        t += d * SEC
    return given, wanted, (start, (t - start) // SEC)


def target_args(op):
    """(arguments for the call, targets expected on the wire or None for the VEN itself)"""
    from openleadr import objects
    kind, ts_ = op['targets']['how'], op['targets']['list']
    if kind == 'none' or not ts_:
        return {}, None
    if kind == 'target':
        return dict(target=dict(ts_[0])), ts_[:1]
    if kind == 'target object':
        return dict(target=objects.Target(**ts_[0])), ts_[:1]
    if kind == 'targets':
        return dict(targets=[dict(t) for t in ts_]), ts_
    if kind == 'target objects':
        return dict(targets=[objects.Target(**t) for t in ts_]), ts_
    if kind == 'single':
        return dict(targets=dict(ts_[0])), ts_[:1]
    by = {}
    for t in ts_:
        for k, v in t.items():
            by.setdefault(k, []).append(v)
    return dict(targets_by_type=by), ts_


ORDER = ['group_id', 'group_name', 'resource_id', 'ven_id', 'party_id']


def wire_order(ts_):
    flat = [{k: v} for t in ts_ for k, v in t.items()]
    return [t for k in ORDER for t in flat if k in t]


async def scenario(case, info):
    from openleadr import objects
    pending = {}
    with clock.virtual(T0):
        async with env.VTN() as vtn:
            s, tz = vtn.server, case['tz']
            for n, op in enumerate(case['ops']):
                ven = case['vens'][op['ven']]
                bad = op['bad']
                value = dict(signal_name=op['signals'][0]['name'], signal_type=op['signals'][0]['type'], response_required=op['response_required'], callback=op['callback'], intervals=None)
                if op['via'] == 'raw' and bad and bad[0] != 'callback':
                    bad = None
                if bad:
                    value[bad[0]] = bad[1]
                    if bad[0] == 'callback':
                        value['response_required'] = 'always'
                targs, targets = target_args(op)
                eid = None if op['event_id'] is None and op['via'] == 'add_event' else '%s-%d' % (op['event_id'], n)
                kw = dict(callback=callback(value['callback']))
                sigs = op['signals'][:1] if op['via'] == 'add_event' else op['signals']
                wants, spans, givens = [], [], []
                for sig in sigs:
                    g, w, span = build_intervals(sig, op, tz, op['interval_form'] if op['via'] == 'add_event' else 'object' if op['form'] == 'object' else 'dict')
                    if g is None:
                        break
                    givens.append(g), wants.append(w), spans.append(span)
                if len(givens) < len(sigs) or len(set(spans)) > 1:
                    continue
                periods = {k: None if v is None else clock.secs(v) for k, v in op['periods'].items()}
                what = '%s %d: %r' % (op['via'], n, {k: v for k, v in op.items() if k not in ('via',)})
                try:
                    if op['via'] == 'add_event':
                        iv = givens[0]
                        if bad and bad[0] == 'intervals':
                            iv = dict(none=None, empty=[], text='abc', dict=iv[0], number=5)[bad[1]]
                        elif op['tuple']:
                            iv = tuple(iv)
                        got_id = s.add_event(ven, value['signal_name'], value['signal_type'], iv, event_id=eid, response_required=value['response_required'],
                                             market_context=op['market_context'], **targs, **periods, **kw)
                    else:
                        d = dict(event_descriptor=dict(event_id=eid, modification_number=0, market_context=op['market_context'], event_status='far', created_date_time=clock.at(T0)),
                                 event_signals=[dict(intervals=g, signal_name=sig['name'], signal_type=sig['type'], signal_id='sig%d' % i) for i, (g, sig) in enumerate(zip(givens, sigs))],
                                 response_required=value['response_required'])
                        if op['priority'] != 'absent':
                            d['event_descriptor']['priority'] = op['priority']
                        if op['active_period']:
                            d['active_period'] = dict(dtstart=timestamp(spans[0][0], op, tz), duration=clock.secs(spans[0][1]), **{k: v for k, v in periods.items() if v is not None})
                        tl = targets or [dict(ven_id=ven)]
                        if op['targets']['how'] == 'by type':
                            d['targets_by_type'] = targs.get('targets_by_type', dict(ven_id=[ven]))
                        else:
                            d['targets'] = [dict(t) for t in tl]
                        if op['form'] == 'object':
                            desc = d['event_descriptor']
                            d = objects.Event(event_descriptor=objects.EventDescriptor(**desc),
                                              event_signals=[objects.EventSignal(**x) for x in d['event_signals']],
                                              active_period=objects.ActivePeriod(**d['active_period']) if 'active_period' in d else None,
                                              targets=[objects.Target(**t) for t in d['targets']] if 'targets' in d else None,
                                              targets_by_type=d.get('targets_by_type'), response_required=d['response_required'])
                        elif op['no_status']:
                            del d['event_descriptor']['event_status']
                        got_id = s.add_raw_event(ven, d, **kw)
                except ValueError as err:
                    check(bad, 'refused: ' + what, str(err))
                    info.nontrivial()
                    info.tag('refused ' + bad[0])
                else:
                    check(not bad, 'accepted with an invalid %s: %s' % (bad and bad[0], what))
                    check(isinstance(got_id, str) and got_id, 'no event id returned: ' + what, got_id)
                    if eid is not None:
                        eq(got_id, eid, 'the event id that is returned for ' + what)
                    check(got_id not in [x['event_id'] for v in pending.values() for x in v], 'the event id is not unique: ' + what, got_id)
                    has_periods = op['via'] == 'add_event' or op['active_period']
                    pending.setdefault(ven, []).append(dict(
                        event_id=got_id, modification_number=0, market_context=op['market_context'], start=spans[0][0], duration=spans[0][1],
                        ramp_up=(op['periods']['ramp_up_period'] or None) if has_periods else None, notification=(op['periods']['notification_period'] or None) if has_periods else None,
                        recovery=(op['periods']['recovery_period'] or None) if has_periods else None,
                        signals=[(x['name'], x['type'], w) for x, w in zip(sigs, wants)], targets=wire_order(targets or [dict(ven_id=ven)]),
                        response_required=value['response_required'],
                        priority=op['priority'] if op['via'] == 'raw' and op['priority'] != 'absent' else 0))
                    info.tag('accepted ' + op['via'])
                    info.nontrivial(len(wants[0]) > 1 or op['naive'] or targets or any(op['periods'].values()))
            for ven in case['vens']:
                msg = await vtn.poll(ven)
                want = {e['event_id']: e for e in pending.get(ven, [])}
                if not want:
                    eq(msg.type, 'oadrResponse', 'the reply to a poll without events')
                got = {e['event_id']: e for e in wire.read_events(msg)}
                eq(sorted(got), sorted(want), 'the events for %r' % ven)
                for eid, e in got.items():
                    sigs = [(x['name'], x['type'], x['intervals']) for x in e['signals']]
                    ids = [x['id'] for x in e['signals']]
                    check(all(ids), 'a signal without an id', ids)
                    flat = dict({k: e[k] for k in want[eid] if k != 'signals'}, signals=sigs, priority=e['priority'] or 0)
                    w = dict(want[eid], priority=want[eid]['priority'] or 0)
                    eq(flat, w, 'the event %r as distributed' % eid)
                    check(e['vtn_comment'] is None and e['test_event'] in (None, 'false'), 'a VTN comment or test event that was not given', e)


def run(case, info):
    with clock.timezone(case['tz']):
        env.run(scenario(case, info))


@st.composite
def signals(draw):
    n = draw(st.integers(1, 4))
    durs = draw(st.lists(st.sampled_from([1, 60, 600, 3600, 86400]), min_size=n, max_size=n))
    out = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        name = draw(st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), gen.text(6).map(lambda x: 'x-' + x)))
        if draw(st.booleans()):
            durs = list(reversed(durs))
        values = draw(st.lists(st.integers(0, 3) if name.upper() == 'SIMPLE' else gen.number(), min_size=len(durs), max_size=len(durs)))
        out.append(dict(name=name, type=draw(st.sampled_from(TYPES)), intervals=[list(x) for x in zip(durs, values)]))
    return out


TARGET = st.sampled_from(ORDER).flatmap(lambda k: st.fixed_dictionaries({k: gen.ident()}))
TARGETS = rec(how=st.sampled_from(['none', 'none', 'target', 'target object', 'targets', 'target objects', 'single', 'by type']), list=st.lists(TARGET, min_size=1, max_size=4))
OP = rec(ven=st.integers(0, 1), via=st.sampled_from(['add_event', 'raw']), form=st.sampled_from(['dict', 'object']), interval_form=st.sampled_from(['dict', 'dict', 'object']), tuple=st.booleans(),
         signals=signals(), start=st.one_of(st.integers(-10 ** 5, 10 ** 7).map(lambda x: x * SEC), st.integers(0, 365 * 48).map(lambda x: x * 1800 * SEC), st.integers(0, 10 ** 12)),
         naive=st.booleans(), other_tz=st.sampled_from([None] + gen.TZ), targets=TARGETS, event_id=st.one_of(st.none(), gen.ident()),
         response_required=st.sampled_from(['always', 'always', 'never']), callback=st.sampled_from(['function', 'coroutine', 'future', None]), market_context=gen.context(),
         periods=rec(ramp_up_period=st.one_of(st.none(), gen.dur(0, 86400)), notification_period=st.one_of(st.none(), gen.dur(0, 86400)), recovery_period=st.one_of(st.none(), gen.dur(0, 86400))),
         priority=st.one_of(st.just('absent'), st.none(), st.integers(0, 4)), active_period=st.booleans(), no_status=st.booleans(),
         bad=st.one_of(st.none(), st.none(), st.none(), st.sampled_from(sorted(BAD)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(BAD[k])).map(list))))
CASE = rec(tz=st.sampled_from(gen.TZ), vens=st.sampled_from([['v1', 'v2'], ['1', '01'], ['é', 'x&y']]), ops=st.lists(OP, min_size=1, max_size=5))


def bulk(case, n, what):
    """One of the lists grows: intervals of a signal, targets, or additions."""
    if what == 'additions':
        return dict(case, ops=gen.cycle(case['ops'], n))
    op = dict(case['ops'][0], bad=None)
    if what == 'intervals':
        ivs = op['signals'][0]['intervals']
        ivs = gen.cycle(ivs, n, lambda x, k: [x[0], k % 4 if op['signals'][0]['name'].upper() == 'SIMPLE' else x[1]])
        op['signals'] = [dict(op['signals'][0], intervals=ivs)]
    elif what == 'signals' and op['via'] == 'raw':
        op['signals'] = gen.cycle(op['signals'], n)
    else:
        how = op['targets']['how']
        op['targets'] = dict(how=how if how in ('targets', 'target objects', 'by type') else 'targets', list=gen.cycle(op['targets']['list'], n, lambda t, k: {a: '%s.%d' % (v, k) for a, v in t.items()}))
    return dict(case, ops=[op])


SUITES = [Suite('add', CASE, run, 3000),
          Suite('volume', st.builds(bulk, CASE, gen.SIZES, st.sampled_from(['additions', 'intervals', 'intervals', 'targets', 'signals'])), run, 120, 1000)]
