"""C31: the VEN accepts only the reports it can deliver and confirms each request."""
from pbt import clock, env, venreports, wire
from pbt.gen import st, rec
from pbt.runner import Suite, eq

RULE = 'a history in which something is refused and something is sent'
ASSUMPTIONS = ['sampling intervals are those for which a regular schedule exists', 'ids do not contain the text INVALID, which the library reserves']
REFUSED = {'requested with another measurement', 'sampling interval out of range', 'unknown report', 'unknown data point'}


def requests(case, info):
    w = venreports.run(case, info)
    info.nontrivial(w.sent >= 1 and REFUSED & set(info.tags))


def without_granularity(case, info):
    """The granularity can only be absent when a request is made in process."""
    async def go():
        with clock.virtual(case['start'] * 10 ** 6):
            async with env.FakeVTN() as vtn, env.VEN(vtn.url) as ven:
                from openleadr import objects
                calls = []
                hi = venreports.REGULAR[case['max']]
                rate = objects.SamplingRate(min_period=clock.secs(1), max_period=clock.secs(hi), on_change=False)
                for i in range(case['points']):
                    ven.client.add_report(lambda i=i: calls.append(i) or i, 'res', 'voltage', report_specifier_id='rep', r_id='p%d' % i, sampling_rate=rate)
                await ven.start()
                vtn.take()
                await ven.client.create_report(dict(request_id='q', report_requests=[dict(report_request_id='r', report_specifier=dict(
                    report_specifier_id='rep', granularity=None, report_back_duration=clock.secs(hi), specifier_payloads=[dict(r_id='p%d' % i, reading_type='Direct Read') for i in range(case['points'])]))]))
                eq([x.text() for m in vtn.take('oadrCreatedReport') for x in m.all('oadr:oadrPendingReports/ei:reportRequestID')], ['r'], 'the confirmed requests')
                for n in range(2):
                    now = clock.Clock.now_us
                    step = hi * 10 ** 6
                    jobs = ven.report_jobs()
                    eq(len(jobs), 1, 'the number of schedules')
                    t = clock.us(jobs[0].trigger.get_next_fire_time(None, clock.at(now + 1)))
                    eq(t, (now // step + 1) * step, 'the next run of the schedule at %s' % clock.at(now))
                    clock.Clock.now_us = t
                    await ven.run_job(jobs[0])
                    eq(sorted(calls), list(range(case['points'])), 'the callbacks that are called')
                    calls.clear()
                await env.until(lambda: sum(len(r['values']) for _, m in vtn.requests if m.type == 'oadrUpdateReport' for r in wire.read_update_report(m)) >= 2 * case['points'], 'the values are sent')
                info.tag('no granularity')
    env.run(go())


KW = dict(good=5, weights=(4, 4, 1, 0, 0), initial=(1, 3), ticks=3)
SUITES = [Suite('requests', venreports.strategy(**KW), requests, 2000), Suite('volume', venreports.volume(**KW), requests, 70, 400),
          Suite('no granularity', rec(start=st.integers(1600000000, 1600100000), max=st.integers(0, len(venreports.REGULAR) - 1), points=st.integers(1, 3)), without_granularity, 80)]
