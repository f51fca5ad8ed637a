"""
A model of the reporting side of the VEN: which requested data points it accepts, when it calls their callbacks, what it sends
and how it is told to stop. A history is run against a real client (whose schedule is played in virtual time) and the model.

Used for C19 (collected samples), C31 (acceptance and confirmation) and C33 (cancellation).
"""
import asyncio
import datetime
from pbt import clock, env, gen, wire
from pbt.gen import st, rec
from pbt.runner import check, eq, fail

SEC = 10 ** 6
DAY = 86400
# every sampling interval for which a regular schedule exists
REGULAR = [1, 2, 5, 10, 15, 30, 60, 120, 300, 900, 1800, 3600, 7200, 6 * 3600, 12 * 3600, DAY]
PERIODS = [0, 1, 5, 10, 60, 900, 3600, 7200, DAY, 2 * DAY]
# name -> namespace, description, unit, another valid unit
MEASUREMENTS = {
    'voltage': ('power', 'Voltage', 'V', None), 'current': ('oadr', 'Current', 'A', None), 'energy_real': ('power', 'RealEnergy', 'Wh', None),
    'temperature': ('oadr', 'temperature', 'celsius', 'fahrenheit')}
WIRE_NAME = {'energy_real': 'energyReal'}


class Request:
    """A report request that the VEN has confirmed, as the model sees it."""

    def __init__(self, rid, report, points, gran, back):
        self.rid, self.report, self.points, self.gran, self.back = rid, report, points, gran, back
        self.every = None       # seconds between runs
        self.once = None        # moment of a later single run
        self.done = False       # a single run has happened
        self.held = []          # (r_id, time of the call) of every sample that is to be sent

    def collect(self, now):
        self.held.extend((p['r_id'], now) for p in self.points for _ in range(number(p)))

    def next(self, now):
        if self.once is not None:
            return self.once
        if self.every is not None:
            step = min(self.every, DAY) * SEC
            return (now // step + 1) * step


def number(point):
    """How many values one call gives."""
    return {'none': 0, 'raise': 0, 'one': 1, 'two': 2, 'five': 5}.get(point['gives'], 1)


class World:
    def __init__(self, case, info):
        self.case, self.info = case, info
        self.calls = []         # [(token, kwargs)] since the last look
        self.pool = {}          # token -> [(timestamp, value, time of the call)] that were returned and are not sent yet
        self.counter = 0
        self.active = {}        # report request id -> Request
        self.used = []          # ids in order of their request
        self.serial = 0
        self.sent = 0

    # the reports of the VEN

    def callback(self, token, point, mode):
        def produce(kw):
            self.calls.append((token, kw))
            self.counter += 1
            now = clock.Clock.now_us
            if point['gives'] == 'raise':
                raise [ValueError, KeyError, RuntimeError][len(token[1]) % 3]('no value')
            if mode == 'incremental' and point['gives'] in ('int', 'float'):
                v = self.counter if point['gives'] == 'int' else self.counter + 0.25
                self.pool.setdefault(token, []).append((now, float(v), now))
                return v
            n = number(point)
            out = [(now - (n - i) * 250001, float(self.counter * 100 + i)) for i in range(n)]
            self.pool.setdefault(token, []).extend((t, v, now) for t, v in out)
            return [(clock.at(t), v) for t, v in out]
        full = mode == 'full'
        if point['coroutine']:
            if full:
                async def f(date_from, date_to, sampling_interval):
                    await asyncio.sleep(0)
                    return produce(dict(date_from=date_from, date_to=date_to, sampling_interval=sampling_interval))
            else:
                async def f(*a):
                    await asyncio.sleep(0)
                    return produce(dict(args=a) if a else {})
        elif full:
            def f(date_from, date_to, sampling_interval):
                return produce(dict(date_from=date_from, date_to=date_to, sampling_interval=sampling_interval))
        else:
            def f(*a):
                return produce(dict(args=a) if a else {})
        return f

    def add_reports(self, client):
        from openleadr import objects
        self.reports = []
        for i, r in enumerate(self.case['reports']):
            spec = r['id'] + str(i)
            points, seen = [], set()
            for p in r['points']:
                if p['r_id'] in seen:
                    continue
                seen.add(p['r_id'])
                lo, hi = sorted((PERIODS[p['min']], PERIODS[p['max']]))
                rate = objects.SamplingRate(min_period=clock.secs(lo), max_period=clock.secs(hi), on_change=False)
                got = client.add_report(self.callback((i, p['r_id']), p, r['mode']), 'res', measurement=None if r['name'] == 'TELEMETRY_STATUS' else p['measurement'],
                                        data_collection_mode=r['mode'], report_specifier_id=spec, r_id=p['r_id'], report_name=r['name'], sampling_rate=rate,
                                        report_duration=clock.secs(3600))
                eq(tuple(got), (spec, p['r_id']), 'the ids of an added report')
                points.append(dict(p, lo=lo, hi=hi))
            self.reports.append(dict(r, index=i, spec=spec, points=points))

    # requests

    def new_id(self, flavour):
        self.serial += 1
        return {'plain': 'req-%d', 'number': '%d', 'zero': '0%d', 'text': 'é <&> %d'}[flavour] % self.serial

    def no_such_request(self):
        """An id that no request has or had, but that looks like that of one."""
        return gen.near(self.used[-1], self.serial, self.used) if self.used else 'no such request'

    def prepare(self, q, taken=()):
        """The wire form of a request and the Request that the model expects of it."""
        n = q['reuse']
        old = [i for i in self.used if i not in self.active and i not in taken]
        rid = old[n % len(old)] if n is not None and old else self.new_id(q['flavour'])
        report = self.reports[q['report'] % len(self.reports)] if q['report'] is not None else None
        payloads, accepted, seen = [], [], set()
        gran = q['granularity']
        for x in q['points']:
            p = report['points'][x['index'] % len(report['points'])] if report and x['index'] is not None else None
            r_id = p['r_id'] if p else gen.near(report['points'][0]['r_id'], self.serial + len(payloads), [y['r_id'] for y in report['points']]) if report else 'no such point'
            if r_id in seen:
                continue
            seen.add(r_id)
            m, ok = None, p is not None
            if not ok:
                self.info.tag('unknown data point' if report else 'unknown report')
            status = report is not None and report['name'] == 'TELEMETRY_STATUS'
            if x['measurement'] and p:
                name = p['measurement']
                ns, desc, unit, other = MEASUREMENTS[name]
                if x['measurement'] == 'unit' and other:
                    unit, ok = other, False
                elif x['measurement'] in ('unit', 'description'):
                    name = 'voltage' if name != 'voltage' else 'current'
                    ns, desc, unit, _ = MEASUREMENTS[name]
                    ok = False
                m = dict(name=WIRE_NAME.get(name, name), ns=ns, description=desc, unit=unit, scale='none')
                ok = ok and not status
                self.info.tag('requested with %s measurement' % ('matching' if ok else 'another'))
            if ok and gran and not p['lo'] <= gran <= p['hi']:
                ok = False
                self.info.tag('sampling interval out of range')
            if ok:
                accepted.append(p)
            payloads.append(dict(r_id=r_id, measurement=m))
        if report is None:
            accepted = []
        back = {'zero': 0, 'equal': gran, 'twice': 2 * gran, 'three': 3 * gran, 'odd': 2 * gran + max(1, gran // 2), 'half': gran // 2, 'hour': 3600}[q['back']]
        r = Request(rid, report, accepted, gran, back)
        start = clock.Clock.now_us + q['delay'] * SEC if q['delay'] is not None else None
        if not (gran and back):
            r.once = start
        else:
            r.every = gran
        self.used.append(rid)
        return dict(report_request_id=rid, report_specifier_id=report['spec'] if report else gen.near(self.reports[0]['spec'], self.serial, [y['spec'] for y in self.reports]), granularity=gran, report_back_duration=back,
                    interval=(start, 3600) if start is not None else None, payloads=payloads), r

    def prepare_all(self, requests):
        out = []
        for q in requests:
            out.append(self.prepare(q, [r.rid for _, r in out]))
        return out

    def expect_confirmation(self, vtn, what, rids, request_id):
        got = vtn.take('oadrCreatedReport')
        eq(len(got), 1 if rids is not None else 0, 'the number of oadrCreatedReport messages after ' + what)
        if rids is not None:
            m = got[0]
            eq(sorted(x.text() for x in m.all('oadr:oadrPendingReports/ei:reportRequestID')), sorted(rids), 'the requests that are confirmed after ' + what)
            eq(m.text('ei:eiResponse/pyld:requestID'), request_id, 'the request id that is confirmed after ' + what)
            eq(m.text('ei:venID'), vtn.ven_id, 'the venID of the confirmation after ' + what)
            eq(m.text('ei:eiResponse/ei:responseCode'), '200', 'the response code of the confirmation after ' + what)

    # what the VEN collects and sends

    def check_sent(self, r, values, want, what):
        """The values sent for a request are those that its callbacks returned in the given calls, and were never sent before."""
        got = []
        for t, r_id, v in values:
            pool = self.pool.get((r.report['index'], r_id), [])
            x = next((x for x in pool if x[:2] == (t, v)), None)
            check(x is not None, 'a value is sent that was not returned by the callback, or that was sent before, after ' + what, (r.rid, t, r_id, v), pool[:20])
            pool.remove(x)
            got.append((r_id, x[2]))
        eq(sorted(got), sorted(want), 'the samples (data point and time of the call) that are sent for request %r after %s' % (r.rid, what))
        self.sent += len(got)
        if got:
            self.info.tag('values sent')

    async def collect_updates(self, vtn, values, messages, what):
        """The updates that the VEN sends, once it has sent at least so many values and messages."""
        seen = []

        def more():
            for m in vtn.take('oadrUpdateReport'):
                eq(m.text('ei:venID'), vtn.ven_id, 'the venID of an oadrUpdateReport')
                seen.extend(wire.read_update_report(m))
            return sum(len(x['values']) for x in seen) >= values and len(seen) >= messages
        await env.until(more, 'the VEN sends %d values in %d messages after %s' % (values, messages, what), 10)
        await env.settle()
        more()
        return seen

    def empty(self, x):
        """An empty report for a request of which nothing was accepted."""
        r = self.active.get(x['report_request_id'])
        return not x['values'] and r is not None and not r.points

    async def account(self, vtn, runs, what):
        """Compare what happened with one run of each of the given requests."""
        rest, self.calls = self.calls, []
        got_calls = list(rest)
        now = clock.Clock.now_us
        for r in runs:
            for p in r.points:
                call = ((r.report['index'], p['r_id']), self.kwargs(r))
                check(call in rest, 'a callback was not called as it should be by ' + what, call, got_calls)
                rest.remove(call)
            r.collect(now)
        check(not rest, 'a callback was called that should not be by ' + what, rest)
        expected = {}
        for r in runs:
            bundled = r.gran and r.back > r.gran and r.report['mode'] == 'incremental'
            if not bundled or len(r.held) >= r.back // r.gran * len(r.points):
                expected[r.rid] = (r, r.held)
                if r.held and bundled:
                    self.info.tag('bundle of samples sent')
                r.held = []
        seen = await self.collect_updates(vtn, sum(len(v) for _, v in expected.values()), sum(1 for r, _ in expected.values() if r.points), what)
        messages = {}
        for x in seen:
            rid = x['report_request_id']
            if rid not in expected and self.empty(x):
                continue
            check(rid in expected, 'data is sent under a request for which none is due after ' + what, x)
            r = expected[rid][0]
            eq((x['report_specifier_id'], x['report_name']), (r.report['spec'], r.report['name']), 'the specifier and name of a sent report')
            messages[rid] = messages.get(rid, 0) + 1
        for rid, (r, want) in expected.items():
            self.check_sent(r, [v for x in seen if x['report_request_id'] == rid for v in x['values']], want, what)
            if r.points:
                eq(messages.get(rid, 0), 1, 'the number of oadrUpdateReport messages for request %r after %s' % (rid, what))

    def kwargs(self, r):
        if r.report['mode'] == 'incremental':
            return {}
        now = clock.at(clock.Clock.now_us)
        return dict(date_from=now - clock.secs(max(r.back, r.gran)), date_to=now, sampling_interval=clock.secs(r.gran))

    # the operations

    async def accept(self, vtn, ven, prepared, request_id, what):
        self.expect_confirmation(vtn, what, [r.rid for _, r in prepared], request_id)
        immediate = []
        for _, r in prepared:
            self.active[r.rid] = r
            if r.report is not None and r.every is None and r.once is None:
                r.done = True
                if r.points:
                    immediate.append(r)
                    self.info.tag('one-shot')
        await self.account(vtn, immediate, what)

    async def request(self, vtn, ven, op):
        prepared = self.prepare_all(op['requests'])
        request_id = 'poll-%d' % self.serial
        vtn.polls.append(wire.create_report(vtn.ven_id, [w for w, _ in prepared], request_id))
        await ven.poll()
        await self.accept(vtn, ven, prepared, request_id, 'requests %r' % [r.rid for _, r in prepared])

    def due(self):
        """The requests that run next, and when."""
        times = [(r.next(clock.Clock.now_us), r) for r in self.active.values() if r.points and r.next(clock.Clock.now_us) is not None]
        if not times:
            return None, []
        t = min(t for t, _ in times)
        return t, [r for x, r in times if x == t]

    def due_jobs(self, ven):
        now = clock.at(clock.Clock.now_us + 1)
        return [(clock.us(j.trigger.get_next_fire_time(None, now)), j) for j in ven.report_jobs()]

    async def tick(self, vtn, ven, op):
        """Let the schedule of the VEN run for a number of its firing times."""
        for _ in range(op['times']):
            t, runs = self.due()
            jobs = self.due_jobs(ven)
            first = min([x for x, _ in jobs], default=None)
            if t is None and first is None:
                return
            if t is None or (first is not None and first < t):
                # at most a run of a request of which no data point was accepted
                t, runs = first, []
            clock.Clock.now_us = t
            for x, job in jobs:
                if x == t:
                    if type(job.trigger).__name__ == 'DateTrigger':
                        job.remove()
                    try:
                        await ven.run_job(job)
                    except Exception as err:
                        if type(err).__name__ in ('Violation', 'HarnessError'):
                            raise
                        # the scheduler logs it
                        self.info.tag('job raised')
            for r in runs:
                if r.once is not None:
                    r.once, r.done = None, True
            self.info.tag('ticks')
            await self.account(vtn, runs, 'the run at %s' % clock.at(t))

    async def cancel(self, vtn, ven, op):
        known = list(self.active)
        rid = known[op['which'] % len(known)] if op['which'] is not None and known else self.no_such_request() if op['which'] is None or not self.used else self.used[op['which'] % len(self.used)]
        request_id = 'cancel-%d' % self.serial
        self.serial += 1
        before = [x for xs in self.pool.values() for x in xs]
        what = 'the cancellation of %r (follow: %s)' % (rid, op['follow'])
        r = self.active.get(rid)
        vtn.polls.append(wire.cancel_report(vtn.ven_id, rid, op['follow'], request_id))
        await ven.poll()
        await self.cancelled(vtn, ven, rid, r, op['follow'], request_id, what, before)

    async def cancelled(self, vtn, ven, rid, r, follow, request_id, what, before):
        await env.settle()
        got = vtn.take('oadrCanceledReport')
        eq(len(got), 1 if r else 0, 'the number of oadrCanceledReport messages after ' + what)
        if r is None:
            self.info.tag('cancelled unknown')
            await self.account(vtn, [], what)
            return
        m = got[0]
        eq(m.text('ei:eiResponse/pyld:requestID'), request_id, 'the request id of the oadrCanceledReport after ' + what)
        eq(m.text('ei:venID'), vtn.ven_id, 'the venID of the oadrCanceledReport after ' + what)
        eq(m.text('ei:eiResponse/ei:responseCode'), '200', 'the response code of the oadrCanceledReport after ' + what)
        eq([x.text() for x in m.all('oadr:oadrPendingReports/ei:reportRequestID')], [rid] if follow else [], 'the reports that are named as pending after ' + what)
        self.info.tag('cancelled')
        del self.active[rid]
        calls = self.calls
        tokens = [(r.report['index'], p['r_id']) for p in r.points] if r.report else []
        n = {t: len([1 for c, _ in calls if c == t]) for t in tokens}
        for token, _ in calls:
            check(token in tokens, 'a callback of another report is called by ' + what, token)
        lo, hi = (0 if r.done else 1), (2 if follow else 1)
        for token in tokens:
            check(lo <= n[token] <= hi, 'the number of calls of a callback by ' + what, token, n[token])
        self.calls = []
        if r.held:
            self.info.tag('cancelled with collected samples')
        # every value that the callbacks returned for this request is sent
        want = r.held + [(p['r_id'], x[2]) for p in r.points for x in self.pool.get((r.report['index'], p['r_id']), []) if x not in before]
        seen = await self.collect_updates(vtn, len(want), 0, what)
        seen = [x for x in seen if not self.empty(x)]
        for x in seen:
            eq((x['report_request_id'], x['report_specifier_id'] if r.report else None), (rid, r.report['spec'] if r.report else None), 'the request under which data is sent after ' + what)
        if r.report:
            self.check_sent(r, [v for x in seen for v in x['values']], want, what)

    async def update_cancel(self, vtn, ven, op):
        """The VTN cancels a report in reply to the next update."""
        t, runs = self.due()
        runs = [r for r in runs if not (r.gran and r.back > r.gran and r.report['mode'] == 'incremental')]
        if not runs or len(self.due()[1]) != 1 or any(x < t for x, _ in self.due_jobs(ven)):
            return
        known = [x for x in self.active if x != runs[0].rid or op['self']]
        rid = known[op['which'] % len(known)] if op['which'] is not None and known else self.no_such_request()
        request_id = 'cancel-%d' % self.serial
        self.serial += 1
        r = self.active.get(rid)
        if r is not None and r.report is not None and r is not runs[0] and any(p in runs[0].points for p in r.points):
            return
        what = 'the cancellation of %r in reply to an update (follow: %s)' % (rid, op['follow'])
        vtn.replies['oadrUpdateReport'] = [lambda m: wire.updated_report(vtn.ven_id, m.text('pyld:requestID'), dict(request_id=request_id, report_request_id=rid, follow=op['follow']))]
        clock.Clock.now_us = t
        before = [x for xs in self.pool.values() for x in xs]
        now = clock.at(t - 1)
        jobs = [j for j in ven.report_jobs() if clock.us(j.trigger.get_next_fire_time(None, now)) == t]
        for job in jobs:
            if type(job.trigger).__name__ == 'DateTrigger':
                job.remove()
            await ven.run_job(job)
        for x in runs:
            if x.once is not None:
                x.once, x.done = None, True
        self.info.tag('cancelled in reply to an update')
        if r is None:
            await self.account(vtn, runs, 'the run at %s' % clock.at(t))
            await env.settle()
            eq(vtn.take('oadrCanceledReport'), [], 'oadrCanceledReport messages after ' + what)
            return
        # the update by this run, and what follows from the cancellation
        await env.until(lambda: any(m.type == 'oadrCanceledReport' for _, m in vtn.requests), what + ' is confirmed', 10)
        await env.settle()
        run = runs[0]
        for token in [(run.report['index'], p['r_id']) for p in run.points]:
            call = next((c for c in self.calls if c[0] == token), None)
            check(call, 'a callback is not called by the run', token)
            self.calls.remove(call)
        run.collect(t)
        if run is r:
            # everything is sent under the same request: what was held and returned before
            r.held, r.done = [], False
        else:
            first = [x for _, m in vtn.requests if m.type == 'oadrUpdateReport' for x in wire.read_update_report(m) if x['report_request_id'] == run.rid]
            vtn.requests = [(s, m) for s, m in vtn.requests if not (m.type == 'oadrUpdateReport' and wire.read_update_report(m)[0]['report_request_id'] == run.rid)]
            self.check_sent(run, [v for x in first for v in x['values']], run.held, 'the run at %s' % clock.at(t))
            run.held = []
        await self.cancelled(vtn, ven, rid, r, op['follow'], request_id, what, before)

    async def deregister(self, vtn, ven, op):
        mine = op['how'] != 'other'
        own = vtn.registration_id
        near = [own + 'x', own[:-1], own[1:], own.swapcase(), own[::-1], 'x' + own, own[:1], own.replace(' ', ''), own + own]
        rid = own if mine else [n for n in near if n and n != own][op['near'] % 7]
        held = (len(ven.report_jobs()), len(ven.client.reports))
        if op['how'] in ('self', 'refused'):
            code = 200 if op['how'] == 'self' else 452
            vtn.replies['oadrCancelPartyRegistration'] = [lambda m: wire.canceled_party_registration(vtn.ven_id, m.text('ei:registrationID'), m.text('pyld:requestID'), code=code)]
            await ven.client.cancel_party_registration()
            got = vtn.take('oadrCancelPartyRegistration')
            eq([(m.text('ei:registrationID'), m.text('ei:venID')) for m in got], [(vtn.registration_id, vtn.ven_id)], 'the oadrCancelPartyRegistration messages of the VEN')
            mine = code == 200
        else:
            vtn.polls.append(wire.cancel_party_registration(vtn.ven_id, rid, 'dereg'))
            await ven.poll()
            got = vtn.take('oadrCanceledPartyRegistration')
            eq([(m.code, m.text('ei:eiResponse/pyld:requestID'), m.text('ei:venID'), m.text('ei:registrationID')) for m in got],
               [(200 if mine else 452, 'dereg', vtn.ven_id, vtn.registration_id)], 'the oadrCanceledPartyRegistration messages of the VEN')
        self.info.tag('registration cancelled: ' + op['how'])
        if mine:
            check(ven.client.registration_id is None, 'the VEN keeps its registration after it was cancelled')
            check(not ven.client.reports and not ven.client.report_requests, 'the VEN keeps its reports after its registration was cancelled')
            eq(len(ven.jobs()), 0, 'the number of schedules after the registration was cancelled')
            await self.account(vtn, [], 'the cancellation of the registration')
            return True
        eq((len(ven.report_jobs()), len(ven.client.reports)), held, 'the number of schedules and reports after a refused cancellation of the registration')
        eq(ven.client.registration_id, vtn.registration_id, 'the registration after a refused cancellation')

    async def run(self):
        case = self.case
        with clock.virtual(case['start'] * SEC):
            async with env.FakeVTN() as vtn, env.VEN(vtn.url) as ven:
                self.add_reports(ven.client)
                initial = self.prepare_all(case['initial'])
                vtn.replies['oadrRegisterReport'] = [lambda m: wire.registered_report(vtn.ven_id, [w for w, _ in initial], m.text('pyld:requestID'))]
                await ven.start()
                register = vtn.take('oadrRegisterReport')[0]
                if initial:
                    await self.accept(vtn, ven, initial, register.text('pyld:requestID'), 'the registration')
                else:
                    self.expect_confirmation(vtn, 'the registration', None, None)
                for n, op in enumerate(case['ops']):
                    if await getattr(self, op['op'])(vtn, ven, op):
                        break
                vtn.take()


def run(case, info):
    w = World(case, info)
    env.run(w.run())
    return w


def point(wide):
    return rec(r_id=gen.few('é', 'p'), measurement=st.sampled_from(sorted(MEASUREMENTS)), min=st.integers(0, 0 if wide else 4), max=st.integers(7 if wide else 4, len(PERIODS) - 1),
               coroutine=st.booleans(), gives=st.sampled_from(['int', 'float', 'int', 'float', 'none', 'one', 'two', 'five', 'raise']))


def report(wide):
    return rec(id=st.sampled_from(['rep', '0', 'x&', 'true']), name=st.sampled_from(['TELEMETRY_USAGE', 'TELEMETRY_USAGE', 'TELEMETRY_STATUS']),
               mode=st.sampled_from(['incremental', 'incremental', 'full']), points=st.lists(point(wide), min_size=1, max_size=4))


def request(good, wide):
    odds = [None] * good
    gran = [st.sampled_from(REGULAR), st.sampled_from([60, 10, 300, 900])]
    return rec(reuse=gen.maybe(st.integers(0, 9)), flavour=st.sampled_from(['plain', 'number', 'zero', 'text']), report=st.sampled_from([0, 1, 2] * good + [None]),
               points=st.lists(rec(index=st.sampled_from([0, 1, 2, 3] * good + [None]), measurement=st.sampled_from(odds + ['same', 'unit', 'description'])), min_size=1, max_size=4),
               granularity=st.one_of(*gran * (3 if wide else 1) + [st.just(0)]), back=st.sampled_from(['zero', 'equal', 'equal', 'twice', 'twice', 'three', 'three', 'odd', 'half', 'hour']),
               delay=st.one_of(st.none(), st.none(), st.integers(1, 20000)))


def history(ops, weights):
    one = st.one_of(*[o for o, w in zip(ops, weights) for _ in range(w)])
    return st.one_of(st.lists(st.tuples(one), min_size=1, max_size=8), st.lists(st.tuples(ops[1], one), min_size=2, max_size=5),
                     st.lists(st.tuples(one, ops[1]), min_size=2, max_size=5)).map(lambda xs: [x for t in xs for x in t])


def strategy(good=6, wide=False, weights=(2, 3, 1, 1, 0), initial=(0, 2), ticks=4):
    """weights: of requests, ticks, cancellations by poll, cancellations in reply to an update, cancellations of the registration"""
    q = request(good, wide)
    ops = [rec(op=st.just('request'), requests=st.lists(q, min_size=1, max_size=3)),
           rec(op=st.just('tick'), times=st.integers(1, ticks)),
           rec(op=st.just('cancel'), which=st.sampled_from([0, 1, 2, 3, 4, 0, 1, None]), follow=st.booleans()),
           rec(op=st.just('update_cancel'), which=st.sampled_from([0, 1, 2, 0, 1, None]), follow=st.booleans(), self=st.booleans()),
           rec(op=st.just('deregister'), near=st.integers(0, 6), how=st.sampled_from(['vtn', 'other', 'self', 'refused']))]
    return rec(start=st.one_of(st.sampled_from([1600000000, 1599955200, 1600041599]), st.integers(1600000000, 1600100000)), reports=st.lists(report(wide), min_size=1, max_size=3),
               initial=st.lists(q, min_size=initial[0], max_size=initial[1]), ops=history(ops, weights))


def bulk(case, n, ticks):
    """The same history with many data points in the reports and requests, and long runs."""
    reports = [dict(r, points=r['points'] + [dict(r['points'][k % len(r['points'])], r_id='%s.%d' % (r['points'][k % len(r['points'])]['r_id'], k)) for k in range(n if i == 0 else 0)])
               for i, r in enumerate(case['reports'])]

    def grown(q):
        return dict(q, points=q['points'] + [dict(q['points'][0], index=k) for k in range(n)])
    ops = [dict(op, requests=[grown(q) for q in op['requests'][:1]] + op['requests'][1:]) if op['op'] == 'request' else
           dict(op, times=ticks) if op['op'] == 'tick' and i == case['start'] % len(case['ops']) else op for i, op in enumerate(case['ops'])]
    initial = [grown(q) for q in case['initial'][:1]] + [dict(q, back='hour', granularity=60) for q in case['initial'][1:2]] + case['initial'][2:]
    return dict(case, reports=reports, initial=initial, ops=ops)


def volume(**kw):
    return st.tuples(strategy(**kw), st.sampled_from([0, 5, 9, 12, 21, 33, 52]), st.sampled_from([2, 12, 61, 125])).filter(lambda x: x[1] * x[2] < 2000).map(lambda x: bulk(*x))
