"""C36: stopping a VEN or VTN ends its activity, and only its own."""
import asyncio
import contextvars
import os
import time
from datetime import timedelta

from pbt import env, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'something is in progress when the stop happens, or it happens again, or another server goes on'
ASSUMPTIONS = ['what is in progress when stop() is called may be finished', 'a client has sent its first message before it is stopped']
WHO = contextvars.ContextVar('who', default=None)
T0 = 4070908800 * 10 ** 6


def tasks(who):
    """Tasks that run code of the library or its scheduler and that were started on behalf of this party."""
    import apscheduler
    from openleadr import client
    home = (os.path.dirname(client.__file__), os.path.dirname(apscheduler.__file__))
    return [t for t in asyncio.all_tasks() if not t.done() and t.get_context().get(WHO) == who and t is not asyncio.current_task()
            and getattr(t.get_coro(), 'cr_code', None) and t.get_coro().cr_code.co_filename.startswith(home)]


async def ven(i, case, out):
    """One VEN with its own VTN; problems go to out."""
    from openleadr import OpenADRClient, objects
    calls = []
    busy = [0]

    async with env.FakeVTN(ven_id='ven%d' % i, poll_freq=1) as fake:
        serial = [0]

        def slow(reply, t):
            return dict(body=reply, stall=t) if t else reply

        def on_poll(msg):
            serial[0] += 1
            kind, t = case['polls'][(serial[0] - 1) % len(case['polls'])]
            if kind == 'event':
                return slow(wire.distribute_event([dict(event_id='e%d-%d' % (serial[0], k), status='far', start=T0, duration=3600, response_required='always',
                                                        signals=[dict(intervals=[(T0, 3600, 1)])], targets=[{'ven_id': fake.ven_id}]) for k in range(2)]), t)
            if kind == 'report':
                return slow(wire.create_report(fake.ven_id, [request('r%d' % serial[0], case['back'])]), t)
            if kind == 'reregister':
                return slow(wire.request_reregistration(fake.ven_id), t)
            return slow(wire.oadr_response(fake.ven_id, ''), t)

        def request(rid, back):
            return dict(report_request_id=rid, report_specifier_id='spec', granularity=1, report_back_duration=back, payloads=[dict(r_id='r')])
        fake.replies = {'oadrPoll': on_poll}
        if case['report']:
            fake.replies['oadrRegisterReport'] = lambda m: wire.registered_report(fake.ven_id, [request('r0', case['back'])], m.text('pyld:requestID'))
        with env.quiet():
            client = OpenADRClient(ven_name='ven', vtn_url=fake.url, show_fingerprint=False, event_status_log_period=0.11, events_clean_up_period=0.13)

        async def work(what, result):
            calls.append((what, time.monotonic()))
            busy[0] += 1
            try:
                await asyncio.sleep(case['handler'])
            finally:
                busy[0] -= 1
            return result

        async def on_event(event):
            return await work('on_event', 'optIn')

        def on_event_sync(event):
            calls.append(('on_event', time.monotonic()))
            return 'optOut'

        async def sample():
            return await work('sample', 1.5)

        def sample_sync():
            calls.append(('sample', time.monotonic()))
            return 2
        client.add_handler('on_event', on_event if case['handler'] is not None else on_event_sync)
        client.add_handler('on_update_event', on_event if case['handler'] is not None else on_event_sync)
        if case['report']:
            client.add_report(sample if case['handler'] is not None else sample_sync, 'res', measurement='voltage', report_specifier_id='spec', r_id='r',
                              sampling_rate=objects.SamplingRate(min_period=timedelta(seconds=1), max_period=timedelta(hours=1), on_change=False))
        started = asyncio.get_running_loop().create_task(client.run())
        await env.until(lambda: fake.requests, 'the VEN sends its first message')
        if not case['during_start']:
            try:
                await asyncio.wait_for(asyncio.shield(started), 30)
            except asyncio.TimeoutError:
                fail('run() hangs')
        await asyncio.sleep(case['after'])
        active = bool(busy[0]) or not started.done()
        for n in range(case['stops']):
            try:
                await asyncio.wait_for(client.stop(), 30)
            except asyncio.TimeoutError:
                fail('stop() hangs')
        stopped = time.monotonic()
        # what is in progress may be finished: two handlers, or two samples
        await asyncio.sleep(0.3 + 3 * (case['handler'] or 0))
        for _ in range(100):        # a busy machine may need longer
            if not tasks(WHO.get()) and not busy[0]:
                break
            await asyncio.sleep(0.05)
        fake.requests.clear()
        n = len(calls)
        pending = tasks(WHO.get())
        if pending:
            out.append(('a stopped VEN leaves tasks behind', i, [repr(t) for t in pending]))
        await asyncio.sleep(1.25)
        if fake.requests:
            out.append(('a stopped VEN sends messages', i, [m.type for _, m in fake.requests]))
        if len(calls) > n:
            out.append(('a stopped VEN calls handlers', i, [(c, t - stopped) for c, t in calls[n:]]))
        if started.done() and not started.cancelled() and started.exception() and not case['during_start']:
            out.append(('run() failed', i, repr(started.exception())))
        started.cancel()
        if fake.errors:
            fail(fake.errors[0])
        return active, {c for c, _ in calls}, case


async def vens(case, info):
    out = []
    parts = []
    for i, c in enumerate(case['vens']):
        ctx = contextvars.copy_context()
        ctx.run(WHO.set, i)
        parts.append(asyncio.get_running_loop().create_task(ven(i, c, out), context=ctx))
    results = await asyncio.gather(*parts)
    for active, calls, c in results:
        info.nontrivial(active or c['stops'] > 1)
        info.tag('in progress' if active else 'idle')
        if c['during_start']:
            info.tag('during start')
        for x in calls:
            info.tag(x + ' was called')
    if out:
        fail(out[0][0], *['VEN %s: %s' % (o[1], o[2:]) for o in out if o[0] == out[0][0]])


# ---------------------------------------------------------------- VTNs

async def vtns(case, info):
    """Servers that start and stop in turn on a few ports, with requests in progress."""
    import aiohttp
    from openleadr import OpenADRServer
    ports, servers, seen, sessions = {}, {}, [], {}
    count = [0]
    headers = {'content-type': 'application/xml', }

    async def ask(k, name, expect_down=False):
        """(HTTP status or None, vtn id of the reply)"""
        if k not in sessions:
            sessions[k] = aiohttp.ClientSession()
        try:
            async with asyncio.timeout(env.HANG):
                async with sessions[k].post('http://127.0.0.1:%s/OpenADR2/Simple/2.0b/EiRegisterParty' % ports[k],
                                            data=wire.create_party_registration(name).encode(), headers=headers) as r:
                    return r.status, await r.read()
        except asyncio.TimeoutError:
            fail('the VTN does not answer')
        except (aiohttp.ClientError, OSError) as err:
            return None, repr(err)

    async def start(k):
        count[0] += 1
        vtn_id = 'VTN%d' % count[0]
        with env.quiet():
            s = OpenADRServer(vtn_id=vtn_id, show_fingerprint=False, http_port=ports.get(k, 0))

        async def register(info_):
            seen.append((vtn_id, info_['ven_name']))
            if info_['ven_name'].startswith('slow'):
                await asyncio.sleep(0.15)
            return 'ven', 'reg'
        s.add_handler('on_create_party_registration', register)
        try:
            with env.quiet():
                await s.run_async()
        except OSError as err:
            if k in ports:
                fail('the port of a stopped VTN cannot be used again: %s' % err)
            raise
        ports[k] = s.app_runner.addresses[0][1]
        servers[k] = (vtn_id, s)

    try:
        for n, (op, k, slow) in enumerate(case['ops']):
            k = k % case['ports']
            if op == 'toggle' and k in servers:
                vtn_id, s = servers.pop(k)
                pending = []
                if slow:
                    pending = [asyncio.create_task(ask(k, 'slow %d %d' % (n, j))) for j in range(slow)]
                    await env.until(lambda: sum(x[1].startswith('slow %d ' % n) for x in seen) == slow, 'the requests reach the handler')
                    info.tag('requests in progress')
                    info.nontrivial()
                try:
                    async with asyncio.timeout(env.HANG):
                        await s.stop()
                except asyncio.TimeoutError:
                    fail('stop() hangs')
                info.tag('stop')
                for p in pending:
                    status, raw = await p
                    if status is not None:
                        eq(status, 200, 'the HTTP status of a request that was in progress at the stop')
                        eq((wire.Msg(raw).text('ei:vtnID'), wire.Msg(raw).text('ei:venID')), (vtn_id, 'ven'), 'the reply to a request that was in progress')
            elif op == 'toggle':
                if k in ports:
                    info.tag('port used again')
                    info.nontrivial()
                await start(k)
            for j in range(case['ports']):
                if j not in ports:
                    continue
                seen.clear()
                status, raw = await ask(j, 'name %d' % n)
                if j in servers:
                    eq(status, 200, 'the HTTP status of a VTN that runs')
                    eq(wire.Msg(raw).text('ei:vtnID'), servers[j][0], 'the VTN that answers')
                    eq(seen, [(servers[j][0], 'name %d' % n)], 'the handler that is called')
                    if len(ports) > len(servers):
                        info.nontrivial()
                        info.tag('another one goes on')
                else:
                    if status is not None:
                        fail('a stopped VTN answers with HTTP %s' % status, repr(raw))
                    eq(seen, [], 'the handlers that are called after the stop')
    finally:
        for s in sessions.values():
            await s.close()
        for _, s in servers.values():
            await s.stop()


def run_vens(case, info):
    env.run(vens(case, info))


def run_vtns(case, info):
    env.run(vtns(case, info))


TIME = st.sampled_from([0, 0, 0.03, 0.1, 0.25, 0.4])
KIND = st.sampled_from(['event', 'event', 'report', 'nothing', 'nothing', 'reregister'])
ONE = rec(polls=st.lists(st.tuples(KIND, TIME).map(list), min_size=1, max_size=3), report=st.booleans(), back=st.sampled_from([1, 1, 2]),
          handler=st.sampled_from([None, None, 0.0, 0.05, 0.2, 0.4]), during_start=st.sampled_from([False, False, False, True]),
          after=st.one_of(st.floats(0, 1.6), st.sampled_from([0.0, 0.9, 1.0, 1.05])), stops=st.sampled_from([1, 1, 2]))
VENS = rec(vens=st.lists(ONE, min_size=16, max_size=32))
VTNS = rec(ports=st.integers(1, 3), ops=st.lists(st.tuples(st.sampled_from(['toggle', 'toggle', 'toggle', 'look']), st.integers(0, 2), st.sampled_from([0, 0, 0, 1, 3])).map(list), min_size=1, max_size=12))

SUITES = [Suite('ven', VENS, run_vens, 40, 800),
          Suite('vtn', VTNS, run_vtns, 240, 8000)]
