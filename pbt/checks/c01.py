"""C01: create/parse round trip of every message type."""
import copy
from pbt import messages, wire
from pbt.gen import st
from pbt.runner import Suite, check, eq, fail

RULE = ('the specification holds a text that could be taken for a number, boolean or markup, or a list with more than one member, or an '
        'absent optional member')
ASSUMPTIONS = ['texts without line breaks or surrounding white space, durations in whole seconds', 'request ids that are canonical integers may be returned as int']


def interesting(x):
    if isinstance(x, dict):
        return any(interesting(v) for v in x.values())
    if isinstance(x, list):
        return len(x) > 1 or any(interesting(v) for v in x)
    if isinstance(x, str):
        return x in ('true', 'false') or x.replace('.', '').replace('-', '').isdigit() or any(c in x for c in '<>&{}"\'')
    return x is None


def round_trip(case, info):
    from openleadr.messaging import create_message, parse_message
    t = messages.TYPES[case['type']]
    spec = case['spec']
    info.tag(case['type'], spec['how'])
    if case.get('grown'):
        info.tag('grown ' + case['grown'])
    info.nontrivial(interesting({k: v for k, v in spec.items() if k != 'how'}))
    xml = create_message(t.name, **t.kwargs(spec))
    for content in (xml, xml.encode('utf-8')):
        got_type, payload = parse_message(content)
        eq(got_type, t.name, 'the message type')
        got = t.project(payload)
        eq(got, t.want(spec), 'the payload of %s does not survive the round trip\n%s' % (t.name, xml))


def test_event(case, info):
    """Rule 6: a test event is marked by any value but 'false', also by those that OpenLEADR does not send itself."""
    from openleadr.messaging import parse_message
    info.nontrivial(any(x not in ('true', 'false') for x in case))
    events = [dict(event_id='e%d' % i, start=0, duration=60, signals=[dict(intervals=[(None, 60, 1)])], targets=[dict(ven_id='v')], test_event=x) for i, x in enumerate(case)]
    _, payload = parse_message(wire.distribute_event(events))
    eq([e['event_descriptor'].get('test_event', False) for e in payload['events']], [x is not None and x != 'false' for x in case], 'the test events of %r' % case)


SUITES = [Suite('test_event', st.lists(st.sampled_from([None, 'true', 'false', 'yes', 'no', '1', '0', '-1', '1.5', 'True', 'FALSE', 'test', '']), min_size=1, max_size=4), test_event, 300),
          Suite('round_trip', messages.case(), round_trip, 9000),
          Suite('events', messages.case(['oadrDistributeEvent']), round_trip, 1500),
          Suite('reports', messages.case(['oadrRegisterReport', 'oadrUpdateReport', 'oadrCreateReport', 'oadrRegisteredReport']), round_trip, 3500),
          Suite('volume', messages.volume(), round_trip, 120, 1200)]
