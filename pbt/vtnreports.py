"""
A model of the report service of the VTN: registrations with handler results of every kind, and updates.

aspects: 'requests' (which data points are requested, C18), 'values' (where the values arrive, C20)
"""
import copy
import datetime
from pbt import clock, env, gen, measurements, wire
from pbt.gen import st, rec
from pbt.runner import check, eq, fail

T0 = 1600000000 * 10 ** 6
TELEMETRY = ['TELEMETRY_USAGE', 'TELEMETRY_STATUS']
OTHER = ['HISTORY_USAGE', 'HISTORY_GREENBUTTON', 'x-custom']
VALID = ('3-tuple', '4-tuple')
INVALID = ('none', 'false', 'short', 'long', 'list', 'text', 'not callable', 'no interval', 'no reporting interval')


def metadata(name):
    return name if name.startswith('x-') else 'METADATA_' + name


class World:
    def __init__(self, case, aspects, info):
        self.case, self.aspects, self.info = case, aspects, info
        self.calls = []             # handler calls of the current registration
        self.got = {}               # token -> values delivered to the callback
        self.want = {}
        self.owner = {}             # (report_request_id, r_id) -> token
        self.requests = {}          # ven -> [(report_request_id, specifier, [r_id], [all offered r_ids])]
        self.all_ids = set()
        self.current = None

    def aspect(self, name):
        return name in self.aspects

    # the handlers

    def callback(self, token, kind):
        self.got[token], self.want[token] = [], []

        def note(values):
            self.got[token].append(list(values))

        async def anote(values):
            await env.settle()
            self.got[token].append(list(values))
        if kind == 'object':
            class Callable:
                def __call__(self, values):
                    return note(values)
            return Callable()
        return anote if kind == 'coroutine' else note

    def result(self, x, token, r_id=None):
        """The result of the handler for a data point; with an r_id as the full form wants it."""
        kind, first = x['kind'], () if r_id is None else (r_id,)
        cb, samp, rep = self.callback(token, x['callback']), clock.secs(x['sampling']), clock.secs(x['reporting'])
        return {'3-tuple': lambda: first + (cb, samp), '4-tuple': lambda: first + (cb, samp, rep), 'none': lambda: None, 'false': lambda: False,
                'short': lambda: first + (cb,), 'long': lambda: first + (cb, samp, rep, 5), 'list': lambda: [*first, cb, samp], 'text': lambda: 'nope',
                'not callable': lambda: first + ('cb', samp), 'no interval': lambda: first + (cb, x['sampling']),
                'no reporting interval': lambda: first + (cb, samp, x['reporting'])}[kind]()

    def compact(self, **kw):
        self.calls.append(kw)
        d = self.current.get(kw.get('resource_id'))
        if d is None:
            return None
        return self.result(d[0]['result'], d[1])

    def full(self, report):
        self.calls.append(report)
        spec = self.current[report['report_specifier_id']]
        if spec['whole'] in ('none', 'text', 'tuple', 'dict', 'empty'):
            return dict(none=None, text='nope', tuple=((1, 2, 3),), dict={}, empty=[])[spec['whole']]
        out = [self.result(d['result'], d['token'], d['r_id']) for d in spec['descriptions']]
        if spec['whole'] == 'reversed':
            out.reverse()
        elif spec['whole'] == 'missing':
            out = out[1:]
        elif spec['whole'] == 'unknown':
            unknown = gen.near(spec['descriptions'][0]['r_id'], len(self.all_ids) + len(out), [d['r_id'] for d in spec['descriptions']])
            out.insert(len(out) // 2, self.result(spec['descriptions'][0]['result'], unknown, unknown))
        return out

    def install(self, server):
        if self.case['mode'] == 'compact':
            if self.case['coroutine']:
                async def handler(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                    return self.compact(ven_id=ven_id, resource_id=resource_id, measurement=measurement, unit=unit, scale=scale, min=min_sampling_interval, max=max_sampling_interval)
            else:
                def handler(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
                    return self.compact(ven_id=ven_id, resource_id=resource_id, measurement=measurement, unit=unit, scale=scale, min=min_sampling_interval, max=max_sampling_interval)
        elif self.case['coroutine']:
            async def handler(report):
                await env.settle()
                return self.full(report)
        else:
            def handler(report):
                return self.full(report)
        server.add_handler('on_register_report', handler)

    # the operations

    async def register(self, vtn, n, op):
        ven = self.case['vens'][op['ven']]
        reports, self.current, self.calls = [], {}, []
        for i, r in enumerate(op['reports']):
            ds, seen = [], set()
            for j, d in enumerate(r['descriptions']):
                if d['r_id'] in seen:
                    continue
                seen.add(d['r_id'])
                ds.append(dict(d, resource_id='%s %d-%d-%d' % (d['resource'], n, i, j), token=(n, i, d['r_id'])))
            spec = '%s-%d' % (r['report_specifier_id'], i) if self.case['mode'] == 'full' else r['report_specifier_id']
            reports.append(dict(r, descriptions=ds, report_specifier_id=spec))
            if self.case['mode'] == 'full':
                self.current[spec] = reports[-1]
            else:
                for d in ds:
                    self.current[d['resource_id']] = (d, d['token'])
        wire_reports = [dict(report_name=metadata(r['name']), report_specifier_id=r['report_specifier_id'], duration=r['duration'], descriptions=[
            dict(r_id=d['r_id'], resource_id=d['resource_id'], report_type=d['report_type'], reading_type=d['reading_type'], measurement=self.measurement(r, d),
                 market_context=d['market_context'], min=d['min'], max=d['max'], on_change=d['on_change']) for d in r['descriptions']]) for r in reports]
        reply = (await vtn.ask('EiReport', wire.register_report(ven, wire_reports, 'req-%d' % n))).msg
        what = 'registration %d' % n
        eq(reply.type, 'oadrRegisteredReport', 'the reply to ' + what)
        eq((reply.code, reply.text('ei:eiResponse/pyld:requestID')), (200, 'req-%d' % n), 'the response code and request id of the reply to ' + what)
        self.check_calls(ven, reports, what)
        wants = []
        for r in reports:
            if r['name'] not in TELEMETRY:
                continue
            ds = list(r['descriptions'])
            if self.case['mode'] == 'full':
                if r['whole'] in ('none', 'text', 'tuple', 'dict', 'empty'):
                    continue
                if r['whole'] == 'reversed':
                    ds.reverse()
                elif r['whole'] == 'missing':
                    ds = ds[1:]
            ds = [d for d in ds if d['result']['kind'] in VALID]
            if ds:
                wants.append((r, ds))
                self.info.tag('requested')
            if len(ds) < len(r['descriptions']):
                self.info.tag('not requested')
        got = [wire.read_report_request(x) for x in reply.all('oadr:oadrReportRequest')]
        eq([(g['report_specifier_id'], [(p['r_id'], p['reading_type']) for p in g['payloads']]) for g in got],
           [(r['report_specifier_id'], [(d['r_id'], d['reading_type']) for d in ds]) for r, ds in wants], 'the data points that are requested in reply to ' + what)
        for g, (r, ds) in zip(got, wants):
            gran = min(d['result']['sampling'] for d in ds)
            back = {d['result']['reporting'] if d['result']['kind'] == '4-tuple' else gran for d in ds}
            if self.aspect('requests'):
                eq(g['granularity'], gran, 'the granularity requested in reply to ' + what)
                check(g['report_back_duration'] in back, 'the report-back duration requested in reply to ' + what, g['report_back_duration'], sorted(back))
            check(g['report_request_id'] and g['report_request_id'] not in self.all_ids, 'the report request id is not unique', g['report_request_id'])
            self.all_ids.add(g['report_request_id'])
            for d in ds:
                self.owner[(g['report_request_id'], d['r_id'])] = d['token']
            self.requests.setdefault(op['ven'], []).append((g['report_request_id'], r['report_specifier_id'], [d['r_id'] for d in ds], [d['r_id'] for d in r['descriptions']]))
        self.info.nontrivial(self.aspect('requests') and len(wants) > 0 and (len(reports) > 1 or len(reports[0]['descriptions']) > 1))

    def measurement(self, r, d):
        return None if r['name'] == 'TELEMETRY_STATUS' or d['measurement'] is None and r['name'] != 'TELEMETRY_USAGE' else d['measurement']

    def check_calls(self, ven, reports, what):
        if not self.aspect('requests'):
            return
        telemetry = [r for r in reports if r['name'] in TELEMETRY]
        if self.case['mode'] == 'full':
            key = str
            got = sorted(((c['report_specifier_id'], c['report_name'], [(x['r_id'], x['reading_type'], x['report_type'], clock.secs(0) + x['sampling_rate']['min_period'], x['sampling_rate']['max_period'])
                                                                        for x in c['report_descriptions']]) for c in self.calls), key=key)
            want = sorted(((r['report_specifier_id'], metadata(r['name']), [(d['r_id'], d['reading_type'], d['report_type'], clock.secs(d['min']), clock.secs(d['max'])) for d in r['descriptions']])
                           for r in telemetry), key=key)
        else:
            def offer(r, d):
                m = self.measurement(r, d)
                return dict(ven_id=ven, resource_id=d['resource_id'], measurement=m['description'] if m else 'Status', unit=m['unit'] if m else None,
                            scale=m.get('scale') if m else None, min=clock.secs(d['min']), max=clock.secs(d['max']))

            def key(c):
                return c['resource_id'] or ''
            got = sorted(self.calls, key=key)
            want = sorted([offer(r, d) for r in telemetry for d in r['descriptions']], key=key)
        eq(got, want, 'the calls of the on_register_report handler during ' + what)

    async def update(self, vtn, n, op):
        ven = self.case['vens'][op['ven']]
        mine = self.requests.get(op['ven'], [])
        reports, count = [], 0
        for r in op['reports']:
            if mine and r['request'] is not None:
                rid, spec, wanted, offered = mine[r['request'] % len(mine)]
            else:
                rid, spec, wanted, offered = 'no such request', 'no such report', [], ['a', 'b']
                if mine:
                    # nearly a known request, but not one
                    rid, spec, wanted, offered = mine[len(r['values']) % len(mine)]
                    rid, wanted = gen.near(rid, n + len(r['values']), self.all_ids), []
            values = []
            for v in r['values']:
                pool = wanted if v['which'] == 'requested' and wanted else offered if v['which'] == 'offered' else [gen.near(offered[v['index'] % len(offered)], v['index'] + n, offered)]
                r_id = pool[v['index'] % len(pool)]
                t = T0 + v['t']
                values.append((t, r_id, v['value']))
                token = self.owner.get((rid, r_id))
                if token is not None:
                    self.want[token].append((t, float(v['value'])))
                    count += 1
                else:
                    self.info.tag('value that nobody asked for')
            reports.append(dict(report_request_id=rid, report_specifier_id=spec, values=values, grouped=r.get('grouped')))
        reply = (await vtn.ask('EiReport', self.encode(ven, reports, 'upd-%d' % n))).msg
        what = 'update %d' % n
        eq((reply.type, reply.code, reply.text('ei:eiResponse/pyld:requestID')), ('oadrUpdatedReport', 200, 'upd-%d' % n), 'the reply to ' + what)
        got = {k: [(clock.us(t), v) for call in calls for t, v in call] for k, calls in self.got.items()}
        for k in self.want:
            eq(got[k], self.want[k], 'the values delivered to the callback for %r after %s' % (k, what))
        for k in got:
            check(k in self.want, 'a callback that was never registered is called', k)
        check(not any(isinstance(t, datetime.datetime) and t.tzinfo is None for calls in self.got.values() for call in calls for t, _ in call), 'a timestamp without time zone')
        if self.aspect('values'):
            self.info.nontrivial(count > 1)
            self.info.tag('update with %s values' % (count if count < 4 else 'many'))

    def encode(self, ven, reports, request_id):
        return wire.update_report(ven, reports, request_id)

    async def run(self):
        with clock.virtual(T0):
            async with env.VTN() as vtn:
                self.install(vtn.server)
                for n, op in enumerate(self.case['ops']):
                    await getattr(self, op['op'])(vtn, n, op)


def run(case, info, aspects):
    env.run(World(case, aspects, info).run())


IDS = st.one_of(st.sampled_from(['a', 'b', 'c', '1', '01', '1.0', 'true']), gen.ident())
RESULT = rec(kind=st.sampled_from(VALID * 7 + INVALID), callback=st.sampled_from(['function', 'coroutine', 'object']), sampling=gen.dur(1, 86400), reporting=gen.dur(1, 7 * 86400))
READING = st.sampled_from(['Direct Read', 'Net', 'Allocated', 'Estimated', 'Summed', 'Derived', 'Mean', 'Peak', 'Hybrid', 'Contract', 'Projected', 'x-RMS', 'x-notApplicable'])
DESCRIPTION = rec(r_id=IDS, resource=gen.ident(), report_type=st.sampled_from(['reading', 'usage', 'demand', 'x-resourceStatus']), reading_type=READING,
                  measurement=measurements.spec(), market_context=gen.maybe(gen.context()), min=gen.dur(0, 86400), max=gen.dur(0, 86400), on_change=st.booleans(), result=RESULT)
REPORT = rec(name=st.sampled_from(TELEMETRY * 6 + OTHER), report_specifier_id=IDS, duration=gen.dur(1), descriptions=st.lists(DESCRIPTION, min_size=1, max_size=4),
             whole=st.sampled_from(['as is'] * 5 + ['reversed', 'missing', 'unknown', 'none', 'text', 'tuple', 'dict', 'empty']))
VALUE = rec(which=st.sampled_from(['requested'] * 6 + ['offered', 'unknown']), index=st.integers(0, 3), t=st.one_of(st.integers(0, 3).map(lambda x: x * 10 ** 6), st.integers(0, 100).map(lambda x: x * 10 ** 6), st.integers(-10 ** 12, 10 ** 12)),
            value=gen.number())
REGISTER = rec(op=st.just('register'), ven=st.integers(0, 1), reports=st.lists(REPORT, min_size=1, max_size=3))
UPDATE = rec(op=st.just('update'), ven=st.integers(0, 1), reports=st.lists(rec(request=st.sampled_from([0, 1, 2, 3, 4, 5, 0, None]), grouped=st.booleans(), values=st.one_of(st.lists(VALUE, max_size=8), st.lists(VALUE, min_size=2, max_size=8))), min_size=1, max_size=3))


def good(op):
    """A registration with little that is refused."""
    for r in op['reports']:
        r['whole'] = 'as is'
    return op


def owners(ops):
    """The updates come from VENs that have registered something."""
    ops = copy.deepcopy(ops)
    vens = [o['ven'] for o in ops if o['op'] == 'register']
    for o in ops:
        if o['op'] == 'update' and o['ven'] not in vens:
            o['ven'] = vens[0]
    return ops


def strategy(updates):
    ops = st.lists(REGISTER, min_size=1, max_size=3) if not updates else st.tuples(
        st.lists(st.one_of(REGISTER, REGISTER.map(copy.deepcopy).map(good)), min_size=1, max_size=2), st.lists(st.one_of(UPDATE, UPDATE, UPDATE, REGISTER), min_size=1, max_size=6)).map(lambda x: x[0] + x[1])
    if updates:
        ops = ops.map(owners)
    return rec(mode=st.sampled_from(['compact', 'full']), coroutine=st.booleans(), vens=st.sampled_from([['v1', 'v2'], ['1', '01'], ['é', 'x&y']]), ops=ops)


def bulk(case, n, which):
    """The same history with many data points in the reports and many values in the updates."""
    def grown(r):
        d = r['descriptions']
        return dict(r, descriptions=d + [dict(d[k % len(d)], r_id='%s.%d' % (d[k % len(d)]['r_id'], k)) for k in range(n)])

    def filled(r):
        v = r['values'] or [dict(which='requested', index=0, t=0, value=1)]
        return dict(r, values=v + [dict(v[k % len(v)], index=k, t=k * 10 ** 6, value=k) for k in range(n)])
    ops, done = [], set()
    for op in case['ops']:
        i = which % len(op['reports'])
        f = grown if op['op'] == 'register' else filled
        if op['op'] not in done or which > 5:
            op = dict(op, reports=[f(r) if j == i else r for j, r in enumerate(op['reports'])])
            done.add(op['op'])
        ops.append(op)
    return dict(case, ops=ops)


def volume(updates):
    return st.tuples(strategy(updates), st.sampled_from([5, 9, 12, 21, 33, 52, 65, 101, 260]), st.integers(0, 8)).map(lambda x: bulk(*x))
