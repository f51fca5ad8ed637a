"""
Report callbacks of a VEN that take their time: they wait at a gate while other schedules fire, the VTN asks for more reports or
cancels some. Every value that a callback returns is sent once, under the request for which it was called.
"""
import asyncio
import contextvars

from pbt import clock, env, wire
from pbt.gen import rec, st
from pbt.runner import check, eq

SEC = 10 ** 6
T0 = 1600000000 * SEC
FOR = contextvars.ContextVar('the report request that is worked on', default=None)


class World:
    def __init__(self, case, info):
        self.case, self.info = case, info
        self.waiting, self.arrived, self.open, self.most = [], asyncio.Event(), False, 0
        self.counter, self.returned, self.calls = 0, {}, 0
        self.requests, self.busy, self.polling = {}, {}, None

    def callback(self, i, j, point):
        async def work():
            rid = FOR.get()
            self.calls += 1
            if point['waits'] and not self.open:
                f = asyncio.get_running_loop().create_future()
                self.waiting.append(f)
                self.most = max(self.most, len(self.waiting))
                self.arrived.set()
                await f
            out = []
            for _ in range(point['gives'] or 1):
                self.counter += 1
                out.append(float(self.counter))
            self.returned.setdefault(rid, []).extend((i, 'p%d' % j, v) for v in out)
            return [(clock.at(clock.Clock.now_us), v) for v in out] if point['gives'] or self.case['reports'][i]['full'] else out[0]
        if self.case['reports'][i]['full']:
            async def f(date_from, date_to, sampling_interval):
                return await work()
        else:
            async def f():
                return await work()
        return f

    def start(self, rid, coro):
        FOR.set(rid)
        task = asyncio.ensure_future(coro)
        FOR.set(None)
        return task

    async def progress(self, task):
        """Until the task ends or a callback waits; background work may be what goes on."""
        arrived = asyncio.ensure_future(self.arrived.wait())
        await asyncio.wait([arrived] + ([task] if task else []), timeout=5 if task else 0.003, return_when=asyncio.FIRST_COMPLETED)
        arrived.cancel()
        for _ in range(3):
            await asyncio.sleep(0)

    def jobs(self, ven):
        return set(j.id for j in ven.report_jobs())

    async def run(self):
        from openleadr import objects
        case = self.case
        with clock.virtual(T0):
            async with env.FakeVTN() as vtn, env.VEN(vtn.url) as ven:
                rate = objects.SamplingRate(min_period=clock.secs(0), max_period=clock.secs(7200), on_change=False)
                for i, r in enumerate(case['reports']):
                    for j, p in enumerate(r['points']):
                        ven.client.add_report(self.callback(i, j, p), 'res', measurement='voltage', data_collection_mode='full' if r['full'] else 'incremental',
                                              report_specifier_id='s%d' % i, r_id='p%d' % j, report_name='TELEMETRY_USAGE', sampling_rate=rate,
                                              report_duration=clock.secs(3600))
                await ven.start()
                owners = {}
                for step in case['steps'] + [None] * 300:
                    for rid, t in list(self.busy.items()):
                        if t.done():
                            t.result()
                            del self.busy[rid]
                    if self.polling and self.polling.done():
                        self.polling.result()
                        self.polling = None
                        if self.asked and self.asked in self.requests:
                            new = self.jobs(ven) - set(owners)
                            if self.requests[self.asked]['gran']:
                                eq(len(new), 1, 'the number of new schedules for %r' % self.asked)
                                owners[new.pop()] = self.asked
                            self.asked = None
                    if step is None:
                        if not (self.busy or self.polling or self.waiting):
                            break
                        kind, n = 'go on', 0
                    else:
                        kind, n = step
                    self.arrived.clear()
                    task = None
                    if kind == 'go on':
                        if self.waiting:
                            self.waiting.pop(n % len(self.waiting)).set_result(None)
                        # what goes on is one of these
                        await self.progress(None)
                        continue
                    if kind == 'run':
                        jobs = [j for j in ven.report_jobs() if j.id in owners and owners[j.id] not in self.busy]
                        if not jobs:
                            continue
                        job = jobs[n % len(jobs)]
                        rid = owners[job.id]
                        clock.Clock.now_us += SEC
                        task = self.busy[rid] = self.start(rid, ven.run_job(job))
                    elif self.polling:
                        continue
                    elif kind == 'ask':
                        r = case['requests'][n % len(case['requests'])]
                        i = r['report'] % len(case['reports'])
                        ps = ['p%d' % j for j in range(len(case['reports'][i]['points'])) if (r['points'] >> j) & 1] or ['p0']
                        gone = sorted(x for x in self.requests if self.requests[x]['gone'])
                        rid = 'r%d' % len(self.requests)
                        self.requests[rid] = dict(report=i, points=ps, gran=r['gran'], back=r['gran'] * r['times'], gone=False)
                        vtn.polls.append(wire.create_report(vtn.ven_id, [dict(report_request_id=rid, report_specifier_id='s%d' % i, granularity=r['gran'], report_back_duration=r['gran'] * r['times'],
                                                                             payloads=[dict(r_id=p) for p in ps])], 'q'))
                        self.asked = rid
                        task = self.polling = self.start(rid, ven.poll())
                        self.info.tag('asked')
                        del gone
                    else:
                        live = [x for x in self.requests if not self.requests[x]['gone'] and x != self.asked]
                        if not live:
                            continue
                        rid = live[n % len(live)]
                        self.requests[rid]['gone'] = True
                        vtn.polls.append(wire.cancel_report(vtn.ven_id, rid, kind == 'follow', 'c'))
                        self.info.tag('cancelled while it is sampled' if rid in self.busy else 'cancelled')
                        task = self.polling = self.start(rid, ven.poll())
                    await self.progress(task)
                self.open = True
                for f in self.waiting:
                    f.set_result(None)
                await env.settle()
                self.verdict = {}

                def all_sent():
                    self.sent = {}
                    for _, m in vtn.requests:
                        if m.type == 'oadrUpdateReport':
                            for x in wire.read_update_report(m):
                                i = int(x['report_specifier_id'][1:])
                                self.sent.setdefault(x['report_request_id'], []).extend((i, r_id, v) for _, r_id, v in x['values'])
                    return all(len(self.sent.get(rid, [])) >= self.least(rid) for rid in self.requests)
                for _ in range(200):
                    if all_sent():
                        break
                    await env.settle()
                await env.settle()
                all_sent()
                for rid, r in self.requests.items():
                    sent, returned = sorted(self.sent.get(rid, [])), sorted(self.returned.get(rid, []))
                    what = 'request %r (%r)' % (rid, r)
                    if self.bundled(rid) and not r['gone']:
                        check(len(set(sent)) == len(sent) and set(sent) <= set(returned), 'the values that are sent for ' + what, sent, returned)
                        check(len(sent) >= self.least(rid), 'the number of values that are sent for ' + what, sent, returned)
                    else:
                        eq(sent, returned, 'the values that are sent (got) and that the callbacks returned (want) for ' + what)
                    if r['gone']:
                        check(rid not in [owners[j.id] for j in ven.report_jobs() if j.id in owners], 'there still is a schedule for ' + what)
                    elif r['gran']:
                        check(rid in [owners.get(j.id) for j in ven.report_jobs()], 'there is no schedule any more for ' + what)
                check(set(self.sent) <= set(self.requests), 'updates for unknown requests', self.sent)
                eq(sorted(self.returned, key=str), sorted([x for x in self.returned if x in self.requests], key=str), 'the requests for which callbacks were called')
                eq(len([1 for _, m in vtn.requests if m.type == 'oadrCanceledReport']), len([1 for r in self.requests.values() if r['gone']]), 'the number of confirmed cancellations')
                self.info.tag('%d waiting at once' % min(self.most, 5))
                self.info.nontrivial(self.most > 1)

    asked = None

    def bundled(self, rid):
        r = self.requests[rid]
        return r['gran'] and r['back'] > r['gran'] and not self.case['reports'][r['report']]['full']

    def least(self, rid):
        """How many values must have been sent."""
        r, n = self.requests[rid], len(self.returned.get(rid, []))
        if r['gone'] or not self.bundled(rid):
            return n
        size = len(r['points']) * (r['back'] // r['gran'])
        return max(0, n - size + 1)


POINT = rec(waits=st.sampled_from([True, True, True, False]), gives=st.sampled_from([0, 0, 1, 2]))
CASE = rec(reports=st.lists(rec(full=st.sampled_from([False, False, True]), points=st.lists(POINT, min_size=1, max_size=3)), min_size=1, max_size=2),
           requests=st.lists(rec(report=st.integers(0, 1), points=st.integers(1, 7), gran=st.sampled_from([10, 60, 10, 60, 60, 0]), times=st.sampled_from([1, 2, 3, 3, 4])), min_size=1, max_size=3),
           steps=st.tuples(st.integers(0, 2), st.lists(st.tuples(st.sampled_from(['run', 'run', 'run', 'run', 'go on', 'go on', 'go on', 'go on', 'ask', 'cancel', 'follow']), st.integers(0, 5)).map(list), min_size=3, max_size=30))
           .map(lambda x: [['ask', k] for k in range(x[0] + 1)] + x[1]))


def run(case, info):
    async def go():
        await World(case, info).run()
    env.run(go())
