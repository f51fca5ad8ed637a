"""C25: a report schedule fires at its sampling interval."""
from pbt import clock, env, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq

RULE = 'an interval of more than a second'
ASSUMPTIONS = ['the local time zone has a fixed offset']
DAY = 86400
SECONDS = [n for n in range(1, 60) if 60 % n == 0]
MINUTES = [n * 60 for n in range(1, 60) if 60 % n == 0]
HOURS = [n * 3600 for n in range(1, 24) if 24 % n == 0]
ZONES = {'UTC': 0, 'Asia/Kolkata': 19800, 'Asia/Tokyo': 32400, 'America/Phoenix': -25200, 'Asia/Kathmandu': 20700}
INTERVAL = st.one_of(st.sampled_from(SECONDS), st.sampled_from(MINUTES), st.sampled_from(HOURS), st.sampled_from(SECONDS + MINUTES + HOURS + [DAY]),
                     st.sampled_from([DAY, DAY + 1, DAY + 3600, 36 * 3600, 2 * DAY, 7 * DAY, 30 * DAY, 365 * DAY]))


def expected(interval, zone, after_us, n):
    """The n moments after the given one at which a schedule fires."""
    step = min(interval, DAY) * 10 ** 6
    off = ZONES[zone] * 10 ** 6
    first = ((after_us + off) // step + 1) * step - off
    return [first + i * step for i in range(n)]


def fire_times(trigger, after_us, n):
    out, now = [], clock.at(after_us + 1)
    prev = None
    for _ in range(n):
        prev = trigger.get_next_fire_time(prev, now)
        if prev is None:
            break
        out.append(clock.us(prev))
        now = prev + clock.secs(0.25)
    return out


def in_zone(name):
    import tzlocal

    class Zone:
        def __enter__(self):
            self.tz = clock.timezone(name)
            self.tz.__enter__()
            tzlocal.reload_localzone()

        def __exit__(self, *exc):
            self.tz.__exit__(*exc)
            tzlocal.reload_localzone()
    return Zone()


def schedule(case, info):
    async def go():
        async with env.FakeVTN() as vtn, env.VEN(vtn.url) as ven:
            from openleadr import objects
            rate = objects.SamplingRate(min_period=clock.secs(1), max_period=clock.secs(400 * DAY), on_change=False)
            ven.client.add_report(lambda **kw: [] if case['full'] else 1, 'res', 'voltage', report_specifier_id='rep', r_id='p', sampling_rate=rate)
            interval = case['interval']
            request = dict(report_request_id='r', report_specifier_id='rep', granularity=interval, report_back_duration=interval * case['bundle'], payloads=[dict(r_id='p')])
            if case['initial']:
                vtn.replies['oadrRegisterReport'] = [lambda m: wire.registered_report(vtn.ven_id, [request], m.text('pyld:requestID'))]
            await ven.start()
            if not case['initial']:
                vtn.polls.append(wire.create_report(vtn.ven_id, [request], 'q'))
                await ven.poll()
            jobs = ven.report_jobs()
            eq(len(jobs), 1, 'the number of schedules for a report with a sampling interval of %s seconds' % interval)
            n = 70
            eq(fire_times(jobs[0].trigger, case['now'], n), expected(interval, case['zone'], case['now'], n),
               'the firing times of a report with a sampling interval of %s seconds in %s' % (interval, case['zone']))
            vtn.take()
            info.nontrivial(interval > 1)
            info.tag('seconds' if interval < 60 else 'minutes' if interval < 3600 else 'hours' if interval < DAY else 'day' if interval == DAY else 'longer')
    with in_zone(case['zone']):
        env.run(go())


def jitter(case, info):
    from openleadr import utils
    from apscheduler.triggers.cron import CronTrigger
    interval = case['interval']
    config = utils.cron_config(clock.secs(interval), randomize_seconds=True)
    limit = min(interval / 10, 300)
    trigger = CronTrigger(timezone='UTC', **config)
    now = case['now']
    for want in expected(interval, 'UTC', now, 12):
        t = clock.us(trigger.get_next_fire_time(None, clock.at(now + 1)))
        check(abs(t - want) <= limit * 10 ** 6, 'a schedule for %s seconds is off by more than a tenth of that, or 300 seconds' % interval, str(clock.at(t)), str(clock.at(want)))
        now = want
    check(0 <= (config.get('jitter') or 0) <= limit, 'the jitter for %s seconds' % interval, config)
    without = utils.cron_config(clock.secs(interval))
    check(not without.get('jitter'), 'a schedule without randomization has jitter', without)
    info.nontrivial(interval >= 10)
    info.tag('jitter %s' % (config.get('jitter') if (config.get('jitter') or 0) in (0, 1, 300) else 'between'))


NOW = st.one_of(st.integers(1600000000, 1700000000).map(lambda s: s * 10 ** 6), st.integers(18500, 18600).map(lambda d: d * DAY * 10 ** 6), st.integers(18500, 18600).map(lambda d: d * DAY * 10 ** 6 - 1),
                st.integers(1600000000 * 10 ** 6, 1700000000 * 10 ** 6))
SUITES = [Suite('schedule', rec(interval=INTERVAL, zone=st.sampled_from(sorted(ZONES)), now=NOW, full=st.booleans(), bundle=st.integers(1, 4), initial=st.booleans()), schedule, 1200, 12000),
          Suite('jitter', rec(interval=st.one_of(INTERVAL, st.sampled_from(MINUTES)), now=NOW), jitter, 1500, 15000)]
