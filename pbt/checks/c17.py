"""C17: targets and targets_by_type always agree."""
import copy
from dataclasses import asdict, is_dataclass
from pbt import clock, gen, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'at least two targets, or a None member, or two forms that are given together'
ASSUMPTIONS = ['values are texts or nested objects, as in the OpenADR target types']
NESTED = dict(aggregated_p_node='node', end_device_asset='mrid', meter_asset='mrid', p_node='node', service_delivery_point='node', service_location='node')
CLASSES = dict(aggregated_p_node='AggregatedPNode', end_device_asset='EndDeviceAsset', meter_asset='MeterAsset', p_node='PNode',
               service_delivery_point='ServiceDeliveryPoint', service_location='ServiceLocation')
FLAT = ['group_id', 'group_name', 'resource_id', 'ven_id', 'party_id']


def grouped(targets):
    """The reference: type -> values in order."""
    out = {}
    for t in targets:
        for k, v in t.items():
            if v is not None:
                out.setdefault(k, []).append(v)
    return out


def plain(t):
    t = asdict(t) if is_dataclass(t) else t
    return {k: v for k, v in t.items() if v is not None}


def functions(case, info):
    from openleadr import utils
    targets = case['targets']
    before = copy.deepcopy(targets)
    ref = grouped(targets)
    info.nontrivial(len(targets) > 1 or any(v is None for t in targets for v in t.values()))
    by_type = utils.group_targets_by_type(targets)
    eq(by_type, ref, 'group_targets_by_type')
    eq(targets, before, 'group_targets_by_type changes its argument')
    flat = utils.ungroup_targets_by_type(by_type)
    eq(by_type, ref, 'ungroup_targets_by_type changes its argument')
    check(all(len(t) == 1 for t in flat), 'an ungrouped target with several types', flat)
    for k, vs in ref.items():
        eq([t[k] for t in flat if k in t], vs, 'the targets of type %s after grouping and ungrouping' % k)
    eq(len(flat), sum(len(v) for v in ref.values()), 'the number of targets after grouping and ungrouping')
    eq(utils.group_targets_by_type(flat), ref, 'grouping the ungrouped targets')
    for k, vs in ref.items():
        if len(vs) == 1 and isinstance(vs[0], str):
            eq(utils.ungroup_targets_by_type({k: vs[0]}), [{k: vs[0]}], 'ungrouping a single value')


def as_target(t, form):
    from openleadr import objects
    if form == 'dict':
        return copy.deepcopy(t)
    kw = {}
    for k, v in t.items():
        kw[k] = getattr(objects, CLASSES[k])(**v) if form == 'nested objects' and isinstance(v, dict) else copy.deepcopy(v)
    return objects.Target(**kw)


def spoil(ref, how):
    """A grouping that does not agree with the given one."""
    out = copy.deepcopy(ref)
    k = sorted(out)[0]
    if how == 'more':
        out[k] = out[k] + [out[k][0]]
    elif how == 'less':
        out[k] = out[k][:-1]
        if not out[k]:
            del out[k]
    elif how == 'other':
        out[k][-1] = 'another' if isinstance(out[k][-1], str) else {'mrid': 'another'}
    elif how == 'type':
        free = [f for f in FLAT if f not in out][:1]
        if not free:
            return None
        out[free[0]] = out.pop(k)
    elif how == 'extra':
        free = [f for f in FLAT if f not in out][:1]
        if not free:
            return None
        out[free[0]] = ['x']
    elif how == 'order':
        out[k] = list(reversed(out[k]))
    elif how == 'empty':
        out = {}
    return out if out != ref else None


def build(kind, targets, by_type):
    from openleadr import objects
    kw = {}
    if targets is not None:
        kw['targets'] = targets
    if by_type is not None:
        kw['targets_by_type'] = by_type
    if kind == 'event':
        return objects.Event(event_descriptor=objects.EventDescriptor(event_id='e', modification_number=0, market_context='http://c', event_status='far'),
                             event_signals=[objects.EventSignal(intervals=[objects.Interval(dtstart=clock.at(10 ** 15), duration=clock.secs(60), signal_payload=1)],
                                                                signal_name='SIMPLE', signal_type='level', signal_id='s')], **kw)
    if kind == 'signal':
        return objects.EventSignal(intervals=[objects.Interval(dtstart=clock.at(10 ** 15), duration=clock.secs(60), signal_payload=1)],
                                   signal_name='SIMPLE', signal_type='level', signal_id='s', **kw)
    return objects.Opt(opt_type='optIn', opt_reason='economic', opt_id='o', event_id='e', **kw)


def run_objects(case, info):
    ref = grouped(case['targets'])
    kind, forms = case['kind'], case['forms']
    info.tag(kind, forms)
    given = [as_target(t, case['form'][n % len(case['form'])]) for n, t in enumerate(case['targets'])]
    before = copy.deepcopy(given)
    info.nontrivial(len(given) > 1 or forms not in ('targets', 'by type'))
    targets = by_type = None
    refuse = False
    if forms in ('targets', 'both', 'contradiction'):
        targets = given
    if forms in ('by type', 'both'):
        by_type = dict(reversed(list(copy.deepcopy(ref).items())))
    if forms == 'contradiction':
        by_type = spoil(ref, case['spoil'])
        if by_type is None:
            return
        refuse = True
    if forms == 'neither':
        refuse = kind != 'signal'       # the targets of a signal are optional
    if kind == 'signal' and forms == 'targets' and len(ref) > 1:
        refuse = True                   # a signal has targets of one type
    try:
        obj = build(kind, targets, by_type)
    except ValueError as err:
        check(refuse, 'refused: %s with %s' % (kind, forms), given, by_type, str(err))
        info.tag('refused')
        return
    check(not refuse, 'accepted: %s with %s' % (kind, forms), given, by_type)
    eq([plain(t) for t in given], [plain(t) for t in before], 'the given targets are changed')
    if forms == 'neither' or kind == 'signal' and forms == 'targets':
        return      # a signal exposes what was given
    eq(obj.targets_by_type, ref, 'targets_by_type of the %s' % kind)
    eq(grouped([plain(t) for t in obj.targets]), ref, 'targets of the %s' % kind)
    if targets is not None:
        eq([plain(t) for t in obj.targets], [plain(t) for t in before], 'the targets of the %s' % kind)


def run_messages(case, info):
    """Dict events in a message, and what the receiver sees."""
    from openleadr.messaging import create_message, parse_message
    ref = grouped(case['targets'])
    forms = case['forms']
    info.tag(forms)
    info.nontrivial(sum(len(v) for v in ref.values()) > 1 or forms != 'targets')
    with clock.virtual(10 ** 15):
        ev = dict(event_descriptor=dict(event_id='e', modification_number=0, market_context='http://c', event_status='far', created_date_time=clock.at(0)),
                  active_period=dict(dtstart=clock.at(10 ** 15), duration=clock.secs(60)), response_required='always',
                  event_signals=[dict(intervals=[dict(dtstart=clock.at(10 ** 15), duration=clock.secs(60), signal_payload=1)],
                                      signal_name='SIMPLE', signal_type='level', signal_id='s')])
        refuse = forms == 'contradiction'
        if forms in ('targets', 'both', 'contradiction'):
            ev['targets'] = copy.deepcopy(case['targets'])
        if forms in ('by type', 'both'):
            ev['targets_by_type'] = copy.deepcopy(ref)
        if forms == 'contradiction':
            ev['targets_by_type'] = spoil(ref, case['spoil'])
            if ev['targets_by_type'] is None:
                return
        try:
            xml = create_message('oadrDistributeEvent', request_id='r', vtn_id='v', events=[ev])
        except ValueError as err:
            check(refuse, 'refused: %s' % forms, case['targets'], str(err))
            return
        check(not refuse, 'accepted: contradicting targets', ev)
        got = wire.read_events(wire.Msg(xml))[0]['targets']
        eq(grouped(got), ref, 'the targets in the message')
        _, payload = parse_message(xml)
        e = payload['events'][0]
        eq(e['targets_by_type'], ref, 'targets_by_type of the received event')
        eq(grouped(e['targets']), ref, 'targets of the received event')


VALUE = gen.ident()
ANY = st.one_of(st.sampled_from(FLAT).flatmap(lambda k: st.fixed_dictionaries({k: VALUE})), st.sampled_from(sorted(NESTED)).flatmap(
    lambda k: st.fixed_dictionaries({k: st.fixed_dictionaries({NESTED[k]: VALUE})})))
FEW = st.sampled_from(['ven_id', 'ven_id', 'group_id', 'resource_id']).flatmap(lambda k: st.fixed_dictionaries({k: st.sampled_from(['a', 'b', '1'])}))


@st.composite
def multi(draw):
    """Several types in one target, with None members."""
    keys = draw(st.lists(st.sampled_from(FLAT), min_size=1, max_size=4, unique=True))
    return {k: draw(gen.maybe(VALUE)) for k in keys}


def nonempty(ts):
    return bool(grouped(ts))


FORMS = st.sampled_from(['targets', 'by type', 'both', 'both', 'contradiction', 'contradiction', 'neither'])
SPOIL = st.sampled_from(['more', 'less', 'other', 'type', 'extra', 'order', 'empty'])


def BULK(cases):
    """The same with many targets."""
    def change(t, k):
        return {a: '%s.%d' % (v, k) if isinstance(v, str) else v for a, v in t.items()}
    return st.tuples(cases, gen.SIZES).map(lambda x: dict(x[0], targets=gen.cycle(x[0]['targets'], x[1], change)))


SUITES = [Suite('functions', rec(targets=st.lists(st.one_of(ANY, FEW, multi()), max_size=8)), functions, 4000),
          Suite('objects', rec(kind=st.sampled_from(['event', 'opt', 'event', 'opt', 'signal']), forms=FORMS, spoil=SPOIL, form=st.lists(st.sampled_from(['dict', 'object', 'nested objects']), min_size=1, max_size=3),
                               targets=st.lists(st.one_of(ANY, FEW, FEW, multi()), min_size=1, max_size=6).filter(nonempty)), run_objects, 4000),
          Suite('messages', rec(forms=st.sampled_from(['targets', 'by type', 'both', 'contradiction']), spoil=SPOIL,
                                targets=st.lists(st.one_of(st.sampled_from(FLAT).flatmap(lambda k: st.fixed_dictionaries({k: VALUE})), FEW), min_size=1, max_size=6)), run_messages, 1000),
          Suite('functions volume', BULK(rec(targets=st.lists(st.one_of(ANY, FEW, multi()), min_size=1, max_size=8))), functions, 200),
          Suite('objects volume', BULK(rec(kind=st.sampled_from(['event', 'opt', 'event', 'opt', 'signal']), forms=FORMS, spoil=SPOIL, form=st.lists(st.sampled_from(['dict', 'object', 'nested objects']), min_size=1, max_size=3),
                                           targets=st.lists(st.one_of(ANY, FEW, FEW, multi()), min_size=1, max_size=6).filter(nonempty))), run_objects, 200),
          Suite('messages volume', BULK(rec(forms=st.sampled_from(['targets', 'by type', 'both', 'contradiction']), spoil=SPOIL,
                                            targets=st.lists(st.sampled_from(FLAT).flatmap(lambda k: st.fixed_dictionaries({k: VALUE})), min_size=1, max_size=6))), run_messages, 60)]
