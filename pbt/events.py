"""Event specifications (plain data) and the dict / dataclass forms of them for the code under test."""
import copy
from dataclasses import asdict
from pbt import clock, gen
from pbt.gen import st, rec, optional

T0 = 1600000000     # the reference moment of most histories (seconds)
STATUSES = ['far', 'near', 'active', 'completed', 'cancelled', 'none']


def spec(start=None, duration=None, ids=None, now=T0):
    """An event around the reference moment. Times relative to it in seconds."""
    start = start if start is not None else st.one_of(st.integers(-7200, 7200), st.sampled_from([-60, -1, 0, 1, 60, 3600]))
    duration = duration if duration is not None else st.sampled_from([0, 1, 60, 600, 3600, 7200])
    return rec(event_id=ids or gen.few(), modification_number=st.integers(0, 3),
               priority=st.one_of(st.just('absent'), st.none(), st.integers(0, 4)),
               status=st.sampled_from(STATUSES), start=start, duration=duration,
               ramp_up=st.sampled_from([None, None, 0, 1, 60, 900, 3600]),
               value=st.integers(0, 3))


def as_dict(s, now_us=T0 * 1000000, tz=None):
    start = clock.at(now_us + s['start'] * 1000000 + s.get('start_us', 0))
    d = dict(event_descriptor=dict(event_id=s['event_id'], modification_number=s['modification_number'],
                                   market_context=s.get('market_context', 'http://ctx'), event_status=s['status'],
                                   created_date_time=clock.at(now_us)),
             active_period=dict(dtstart=start, duration=clock.secs(s['duration'])),
             event_signals=[dict(intervals=[dict(dtstart=start, duration=clock.secs(s['duration']), uid=0,
                                                 signal_payload=s['value'])],
                                 signal_name='SIMPLE', signal_type='level', signal_id='sig')],
             targets=[dict(t) for t in s.get('targets', [{'ven_id': 'ven'}])],
             response_required=s.get('response_required', 'always'))
    if s['priority'] != 'absent':
        d['event_descriptor']['priority'] = s['priority']
    if s['ramp_up'] is not None:
        d['active_period']['ramp_up_period'] = clock.secs(s['ramp_up'])
    return d


def as_object(s, now_us=T0 * 1000000):
    """The dataclass form. The status is set after construction, which derives one itself."""
    from openleadr import objects
    d = as_dict(s, now_us)
    desc = dict(d['event_descriptor'])
    if s['priority'] == 'absent':
        desc['priority'] = 0
    e = objects.Event(event_descriptor=objects.EventDescriptor(**desc),
                      active_period=objects.ActivePeriod(**d['active_period']),
                      event_signals=[objects.EventSignal(intervals=[objects.Interval(**i) for i in s_['intervals']],
                                                         **{k: v for k, v in s_.items() if k != 'intervals'})
                                     for s_ in d['event_signals']],
                      targets=[objects.Target(**t) for t in d['targets']], response_required=d['response_required'])
    e.event_descriptor.event_status = s['status']
    return e


def status_at(s, now_us, ref_us=T0 * 1000000, cancelled=False):
    """The status that an event (spec) has at a moment."""
    if cancelled:
        return 'cancelled'
    start = ref_us + s['start'] * 1000000 + s.get('start_us', 0)
    end = start + s['duration'] * 1000000
    if s['duration'] > 0 and now_us >= end:
        return 'completed'
    if now_us >= start:
        return 'active'
    if s['ramp_up'] is not None and now_us >= start - s['ramp_up'] * 1000000:
        return 'near'
    return 'far'
