"""C10: the event status follows the clock."""
import datetime
from zoneinfo import ZoneInfo
from pbt import clock, env, events, gen, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'the event is seen with at least two different statuses in the history'
ASSUMPTIONS = ['naive start times that do not exist in the local time zone (skipped by daylight saving) are left out']
T0 = events.T0 * 1000000
RANK = ['far', 'near', 'active', 'completed']


def oracle(start, duration, ramp, now):
    if duration > 0 and now >= start + duration:
        return 'completed'
    if now >= start:
        return 'active'
    if ramp is not None and now >= start - ramp:
        return 'near'
    return 'far'


def local(us, tz):
    """The naive local time of a moment, and the moment that it denotes (the earlier one if it is ambiguous)."""
    naive = clock.at(us).astimezone(ZoneInfo(tz)).replace(tzinfo=None, fold=0)
    return naive, clock.us(naive.replace(tzinfo=ZoneInfo(tz)))


def period(case, kind):
    from openleadr import objects
    start = T0 + case['start']
    dt = clock.at(start)
    if case['naive']:
        dt, start = local(start, case['tz'])
    elif case['other_tz']:
        dt = dt.astimezone(ZoneInfo(case['other_tz']))
    d = dict(dtstart=dt, duration=datetime.timedelta(microseconds=case['duration']))
    if case['ramp'] is not None:
        d['ramp_up_period'] = datetime.timedelta(microseconds=case['ramp'])
    elif case['ramp_none']:
        d['ramp_up_period'] = None
    return (d if kind == 'dict' else objects.ActivePeriod(**d)), start


def status(case, info):
    from openleadr import utils
    seen = []
    with clock.timezone(case['tz']):
        p, start = period(case, case['kind'])
        for off in case['moments']:
            # moments lie around the boundaries of the active period
            base = dict(start=start, end=start + case['duration'], ramp=start - (case['ramp'] or 0), now=T0)[off[0]]
            with clock.virtual(base + off[1]):
                got = utils.determine_event_status(p)
            eq(got, oracle(start, case['duration'], case['ramp'], base + off[1]),
               'the status of a period from %s us for %s us, ramp-up %s us, at %s us' % (start, case['duration'], case['ramp'], base + off[1]))
            seen.append(got)
        eq(clock.us(utils.getmember(p, 'dtstart')) if utils.getmember(p, 'dtstart').tzinfo else start, start, 'the start time of the period afterwards')
        eq(utils.getmember(p, 'duration') / datetime.timedelta(microseconds=1), case['duration'], 'the duration afterwards')
    info.nontrivial(len(set(seen)) > 1)
    info.tag(*set(seen), 'naive' if case['naive'] else 'aware')


# ---- as distributed by a real VTN

async def distribution(case, info):
    from openleadr import objects
    specs, live, seen = case['events'], {}, {}
    with clock.virtual(T0):
        async with env.VTN() as vtn:
            s = vtn.server
            handed = []
            if case['mode'] == 'handler':
                s.add_handler('on_poll', lambda ven_id: None)
                s.add_handler('on_request_event', lambda ven_id: handed)
            for i, e in enumerate(specs):
                p, start = period(e, 'dict')
                iv = dict(dtstart=p['dtstart'], duration=p['duration'], signal_payload=1)
                name = 'e%d' % i
                if case['mode'] == 'internal' and e['via'] == 'add_event':
                    s.add_event('ven', 'LOAD_DISPATCH', 'setpoint', [dict(iv)], event_id=name, ramp_up_period=p.get('ramp_up_period'), callback=lambda ven_id, event_id, opt_type: None)
                else:
                    ev = dict(event_descriptor=dict(event_id=name, modification_number=0, market_context='http://c', event_status=e['initial'],
                                                    created_date_time=clock.at(T0)),
                              active_period=p, event_signals=[dict(intervals=[dict(iv, uid=0)], signal_name='LOAD_DISPATCH', signal_type='setpoint', signal_id='s')],
                              targets=[dict(ven_id='ven')], response_required='always')
                    # without an active period it follows from the intervals
                    derive = e['derive'] and 'ramp_up_period' not in p and (e['via'] == 'object' or case['mode'] == 'internal') and e['duration'] > 0
                    if derive:
                        cut = min(e['duration'], e['derive'] * 1000000)
                        first = datetime.timedelta(microseconds=cut)
                        at = start + cut
                        second, denotes = (clock.at(at), at) if iv['dtstart'].tzinfo else local(at, case['tz'])
                        if cut < e['duration'] and denotes == at:
                            ivs = [dict(iv, duration=first), dict(iv, dtstart=second, duration=iv['duration'] - first)]
                        else:
                            ivs = [dict(iv)]
                        info.tag('derived period')
                    else:
                        ivs = [dict(iv)]
                    ev['event_signals'][0]['intervals'] = [dict(x, uid=i) for i, x in enumerate(ivs)]
                    if derive:
                        del ev['active_period']
                    if e['via'] == 'object':
                        ev = objects.Event(event_descriptor=objects.EventDescriptor(**ev['event_descriptor']), active_period=None if derive else objects.ActivePeriod(**p),
                                           event_signals=[objects.EventSignal(intervals=[objects.Interval(**x) for x in ivs], signal_name='LOAD_DISPATCH', signal_type='setpoint', signal_id='s')],
                                           targets=[objects.Target(ven_id='ven')], response_required='always')
                    if case['mode'] == 'internal':
                        s.add_raw_event('ven', ev)
                    else:
                        handed.append(ev)
                live[name] = [start, e['duration'], e['ramp'], False]
                seen[name] = []
            updated = True
            for op in case['ops']:
                if op['op'] == 'to':        # go to a boundary of one of the events, never back
                    start, duration, ramp, _ = list(live.values())[op['event'] % len(live)] if live else (0, 0, 0, 0)
                    to = dict(start=start, end=start + duration, ramp=start - (ramp or 0))[op['at']] + op['off']
                    clock.Clock.now_us = max(clock.Clock.now_us, to)
                    continue
                if op['op'] == 'cancel':
                    name = 'e%d' % (op['event'] % len(specs))
                    if case['mode'] == 'internal':
                        s.cancel_event('ven', name)
                        if name in live:
                            live[name][3] = updated = True
                    continue
                now = clock.Clock.now_us
                if op['op'] == 'poll':
                    if case['mode'] != 'internal':
                        continue
                    msg = await vtn.poll('ven')
                    want = live if updated else {}
                    updated = False
                else:
                    msg = await vtn.request_event('ven')
                    want = live
                got = {e['event_id']: e for e in wire.read_events(msg)}
                eq(sorted(got), sorted(want), 'the distributed events at %d us' % now)
                for name, e in got.items():
                    start, duration, ramp, cancelled = live[name]
                    st_ = 'cancelled' if cancelled else oracle(start, duration, ramp, now)
                    eq(e['status'], st_, 'the status of event %s (start %s, duration %s, ramp-up %s us) at %s us' % (name, start, duration, ramp, now))
                    eq(e['start'], start, 'the start of event %s' % name)
                    seen[name].append(st_)
                    if st_ == 'completed' and case['mode'] == 'internal':
                        del live[name]
            info.nontrivial(any(len(set(x)) > 1 for x in seen.values()))
            for x in seen.values():
                info.tag('->'.join(y for i, y in enumerate(x) if i == 0 or x[i - 1] != y) or 'unseen')


def run_distribution(case, info):
    with clock.timezone(case['tz']):
        for e in case['events']:
            e['tz'] = case['tz']
        env.run(distribution(case, info))


SEC = 10 ** 6
US = st.one_of(st.sampled_from([0, 1, SEC, 60 * SEC, 3600 * SEC, 86400 * SEC]), st.integers(0, 10 ** 11))
WHOLE = st.one_of(st.sampled_from([0, 1, 60, 600, 3600, 86400, 200000]), st.integers(0, 200000)).map(lambda x: x * SEC)
OFF = st.one_of(st.sampled_from([0, -1, 1, -SEC, SEC]), st.integers(-10 ** 10, 10 ** 10))
START = st.one_of(st.integers(-10 ** 11, 10 ** 11), st.integers(-10 ** 5, 10 ** 5).map(lambda x: x * SEC), st.sampled_from([0, 1, -1]),
                  st.integers(0, 365 * 48).map(lambda x: x * 1800 * SEC))     # through the seasons, for daylight saving
PERIOD = rec(start=START, duration=US, ramp=st.one_of(st.none(), US), naive=st.booleans(), other_tz=st.sampled_from([None] + gen.TZ), tz=st.sampled_from(gen.TZ),
             ramp_none=st.booleans(), kind=st.sampled_from(['dict', 'object']),
             moments=st.lists(st.tuples(st.sampled_from(['start', 'end', 'ramp', 'now']), OFF).map(list), min_size=2, max_size=8))
EV = rec(derive=st.sampled_from([0, 0, 1, 60, 3600]), start=START.map(lambda x: x), duration=WHOLE, ramp=st.one_of(st.none(), WHOLE), naive=st.booleans(), other_tz=st.sampled_from([None] + gen.TZ),
         ramp_none=st.booleans(), via=st.sampled_from(['add_event', 'dict', 'object']), initial=st.sampled_from(['far', 'near', 'active', 'completed', 'none']))
OPS = st.one_of(rec(op=st.just('to'), event=st.integers(0, 3), at=st.sampled_from(['start', 'end', 'ramp']), off=st.sampled_from([0, -1, 1, SEC])),
                rec(op=st.sampled_from(['request', 'request', 'poll'])), rec(op=st.sampled_from(['request', 'request', 'poll'])),
                rec(op=st.sampled_from(['cancel', 'request', 'request']), event=st.integers(0, 3)))
DIST = rec(tz=st.sampled_from(gen.TZ), mode=st.sampled_from(['internal', 'internal', 'handler']), events=st.lists(EV, min_size=1, max_size=4),
           ops=st.lists(OPS, min_size=4, max_size=16))
SUITES = [Suite('status', PERIOD, status, 16000), Suite('distribution', DIST, run_distribution, 2500)]
