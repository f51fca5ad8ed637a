"""Harness environments: a real VTN on a loopback port, a scripted VTN, and a real VEN."""
import asyncio
import contextlib
import io
import ssl
import sys

import aiohttp
from aiohttp import web

from pbt import wire
from pbt.runner import HarnessError, Violation, fail

HANG = 30       # seconds without an answer before something is called hung


def run(coro):
    """Run a case in its own event loop, with everything it started cancelled at the end."""
    return asyncio.run(_guard(coro))


async def _guard(coro):
    try:
        return await asyncio.wait_for(coro, 240)
    except asyncio.TimeoutError:
        raise Violation('the system under test hangs')


_quiet = [0, None]


@contextlib.contextmanager
def quiet():
    """No output in the meantime; may overlap with others in concurrent tasks."""
    if not _quiet[0]:
        _quiet[1], sys.stdout = sys.stdout, io.StringIO()
    _quiet[0] += 1
    try:
        yield
    finally:
        _quiet[0] -= 1
        if not _quiet[0]:
            sys.stdout = _quiet[1]


async def maybe(result):
    if asyncio.iscoroutine(result) or asyncio.isfuture(result):
        return await result
    return result


def client_context(cert, key, ca):
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    ctx.load_verify_locations(ca)
    if cert:
        ctx.load_cert_chain(cert, key)
    return ctx


class Reply:
    def __init__(self, status, raw, headers):
        self.status, self.raw, self.headers = status, raw, headers
        self._msg = None

    @property
    def msg(self):
        if self._msg is None:
            try:
                self._msg = wire.Msg(self.raw)
            except Exception as err:
                fail('the reply is not an OpenADR message: HTTP %s' % self.status, repr(self.raw), str(err))
        return self._msg

    @property
    def type(self):
        return self.msg.type

    def __repr__(self):
        return 'HTTP %s %s' % (self.status, self.raw.decode('utf-8', 'replace'))


class VTN:
    """A real OpenADRServer, addressed through real HTTP requests."""

    def __init__(self, vtn_id='VTN', **kwargs):
        from openleadr import OpenADRServer
        self.prefix = kwargs.get('http_path_prefix', '/OpenADR2/Simple/2.0b').rstrip('/')
        self.tls = bool(kwargs.get('http_cert'))
        kwargs.setdefault('http_port', 0)
        with quiet():
            self.server = OpenADRServer(vtn_id=vtn_id, show_fingerprint=False, **kwargs)
        self.sessions = {}

    async def __aenter__(self):
        with quiet():
            await self.server.run_async()
        self.port = self.server.app_runner.addresses[0][1]
        self.base = '%s://127.0.0.1:%s%s' % ('https' if self.tls else 'http', self.port, self.prefix)
        return self

    async def __aexit__(self, *exc):
        for s in self.sessions.values():
            await s.close()
        await self.server.stop()

    def _session(self, cert):
        if cert not in self.sessions:
            kw = {}
            if self.tls:
                kw['connector'] = aiohttp.TCPConnector(ssl=client_context(*cert))
            self.sessions[cert] = aiohttp.ClientSession(**kw)
        return self.sessions[cert]

    async def post(self, service, content, headers=None, cert=None, valid=True):
        """POST to a service. With valid, a reply with status 200 and a body must be schema-valid."""
        if isinstance(content, str):
            content = content.encode('utf-8')
        headers = {'content-type': 'application/xml'} if headers is None else headers
        try:
            async with asyncio.timeout(HANG):
                async with self._session(cert).post('%s/%s' % (self.base, service), data=content,
                                                    headers=headers) as r:
                    reply = Reply(r.status, await r.read(), dict(r.headers))
        except asyncio.TimeoutError:
            fail('the VTN does not answer', service, repr(content[:2000]))
        except (aiohttp.ServerDisconnectedError, aiohttp.ClientOSError) as err:
            fail('the VTN dropped the connection instead of answering: %r' % err, service, repr(content[:2000]))
        if valid and reply.status == 200 and reply.raw:
            err = wire.schema_errors(reply.raw)
            if err:
                fail('the reply of the VTN is not schema-valid: %s' % err, repr(reply))
        return reply

    # Shorthands that insist on a proper message as an answer

    async def ask(self, service, content, **kw):
        r = await self.post(service, content, **kw)
        if r.status != 200:
            fail('HTTP %s in reply to a valid request' % r.status, content if isinstance(content, str) else repr(content),
                 repr(r.raw))
        return r

    async def poll(self, ven_id):
        return (await self.ask('OadrPoll', wire.poll(ven_id))).msg

    async def request_event(self, ven_id, request_id='req', **kw):
        return (await self.ask('EiEvent', wire.request_event(ven_id, request_id, **kw))).msg

    async def created_event(self, ven_id, responses, request_id='req'):
        return (await self.ask('EiEvent', wire.created_event(ven_id, responses, request_id))).msg


class FakeVTN:
    """A scripted VTN: records the requests of the VEN under test and plays prepared replies."""

    wrap = None     # applied to every valid reply (signing)

    def __init__(self, ven_id='ven0', registration_id='reg0', poll_freq=70007, vtn_id='VTN'):
        self.ven_id, self.registration_id, self.poll_freq, self.vtn_id = ven_id, registration_id, poll_freq, vtn_id
        self.requests = []      # (service, Msg)
        self.polls = []         # queue of replies to oadrPoll
        self.replies = {}       # message type -> list of replies, or a callable(msg)
        self.errors = []
        self.validate = True

    async def __aenter__(self):
        self.web = web.Server(self._handle)
        self.runner = web.ServerRunner(self.web)
        await self.runner.setup()
        site = web.TCPSite(self.runner, '127.0.0.1', 0)
        await site.start()
        self.port = self.runner.addresses[0][1]
        self.url = 'http://127.0.0.1:%s/OpenADR2/Simple/2.0b' % self.port
        return self

    async def __aexit__(self, *exc):
        await self.runner.cleanup()

    def default(self, msg):
        t = msg.type
        rid = msg.text('pyld:requestID') or ''
        if t == 'oadrQueryRegistration':
            return wire.created_party_registration(None, None, self.vtn_id, rid, self.poll_freq)
        if t == 'oadrCreatePartyRegistration':
            return wire.created_party_registration(self.registration_id, self.ven_id, self.vtn_id, rid, self.poll_freq)
        if t == 'oadrRegisterReport':
            return wire.registered_report(self.ven_id, [], rid)
        if t == 'oadrUpdateReport':
            return wire.updated_report(self.ven_id, rid)
        return wire.oadr_response(self.ven_id, rid)

    async def _handle(self, request):
        raw = await request.read()
        service = request.path.rsplit('/', 1)[-1]
        try:
            msg = wire.Msg(raw)
            err = wire.schema_errors(raw) if self.validate else None
        except Exception as e:
            err, msg = str(e), None
        if err:
            self.errors.append('the VEN sent an invalid message to %s: %s\n%s' % (service, err, raw.decode('utf-8', 'replace')))
            if msg is None:
                return web.Response(status=400)
        if request.headers.get('content-type', '').split(';')[0] != 'application/xml':
            self.errors.append('the VEN sent content-type %r' % request.headers.get('content-type'))
        self.requests.append((service, msg))
        reply = None
        if msg.type == 'oadrPoll' and self.polls:
            reply = self.polls.pop(0)
        elif callable(self.replies.get(msg.type)):
            reply = self.replies[msg.type](msg)
        elif self.replies.get(msg.type):
            reply = self.replies[msg.type].pop(0)
        if reply is None:
            reply = self.default(msg)
        if callable(reply):
            reply = reply(msg)
        if isinstance(reply, dict):     # dict(status=, body=, drop=)
            if reply.get('drop'):
                request.transport.abort()
                return web.Response(status=500)
            if reply.get('bytes'):      # whatever this is, instead of an HTTP response
                request.transport.write(reply['bytes'])
                await asyncio.sleep(0.005)
                request.transport.close()
                return web.Response(status=500)
            body = reply.get('body', b'')
            body = body.encode('utf-8') if isinstance(body, str) else body
            if reply.get('stall'):
                for _ in range(int(reply['stall'] * 20)):
                    await asyncio.sleep(0.05)
                    if request.transport is None or request.transport.is_closing():
                        break
            if reply.get('hold') and reply.get('partial') is None:
                await self.gone(request)
            headers = dict({'content-type': 'application/xml'}, **reply.get('headers', {}))
            if reply.get('partial') is not None:    # only a part of the announced body arrives
                r = web.StreamResponse(status=reply.get('status', 200), headers=headers)
                if not reply.get('chunked'):
                    r.content_length = len(body) + 1
                else:
                    r.enable_chunked_encoding()
                await r.prepare(request)
                await r.write(body[:reply['partial']])
                await asyncio.sleep(0)
                if reply.get('hold'):       # nothing further arrives, but the connection stays
                    await self.gone(request)
                request.transport.abort()
                return r
            return web.Response(status=reply.get('status', 200), headers=headers, body=body)
        if self.validate:
            err = wire.schema_errors(reply)
            if err:
                self.errors.append('HARNESS: invalid scripted reply: %s\n%s' % (err, reply))
        if self.wrap:
            reply = self.wrap(reply)
        return web.Response(body=reply.encode('utf-8'), content_type='application/xml')

    async def gone(self, request):
        while request.transport is not None and not request.transport.is_closing():
            await asyncio.sleep(0.05)

    def take(self, *types):
        """Remove and return the recorded requests (of the given types)."""
        if self.errors:
            if self.errors[0].startswith('HARNESS'):
                raise HarnessError(self.errors[0])
            fail(self.errors[0])
        got = [m for _, m in self.requests if not types or m.type in types]
        self.requests = [(s, m) for s, m in self.requests if types and m.type not in types]
        return got


STATUS_LOG, CLEANUP = 70001, 70003


class VEN:
    """A real OpenADRClient whose background schedules are driven by the harness."""

    def __init__(self, url, ven_name='ven_name', **kw):
        from openleadr import OpenADRClient
        kw.setdefault('event_status_log_period', STATUS_LOG)
        kw.setdefault('events_clean_up_period', CLEANUP)
        with quiet():
            self.client = OpenADRClient(ven_name=ven_name, vtn_url=url, show_fingerprint=False, **kw)
        scheduler_start = self.client.scheduler.start

        def start_paused(*a, **kw):
            kw['paused'] = True
            scheduler_start(**kw)
        self.client.scheduler.start = start_paused

    async def start(self):
        with quiet():
            await asyncio.wait_for(self.client.run(), HANG)
        return self

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        with contextlib.suppress(Exception):
            await self.client.stop()

    def jobs(self):
        return list(self.client.scheduler.get_jobs())

    def _interval_job(self, seconds):
        for j in self.jobs():
            iv = getattr(j.trigger, 'interval', None)
            if iv is not None and iv.total_seconds() == seconds:
                return j
        fail('the VEN has no periodic task with a period of %s seconds' % seconds, [str(j) for j in self.jobs()])

    def report_jobs(self):
        """The schedules for reports: everything that is not a plain interval."""
        return [j for j in self.jobs() if getattr(j.trigger, 'interval', None) is None]

    async def run_job(self, job):
        try:
            async with asyncio.timeout(HANG):
                with quiet():
                    await maybe(job.func(*job.args, **job.kwargs))
        except asyncio.TimeoutError:
            fail('a periodic task of the VEN hangs', str(job))

    async def poll(self, poll_freq=70007):
        await self.run_job(self._interval_job(poll_freq))

    async def cleanup(self):
        await self.run_job(self._interval_job(CLEANUP))

    async def status_log(self):
        await self.run_job(self._interval_job(STATUS_LOG))


async def until(cond, what, timeout=20):
    """Wait for background work of the system under test; a long time without effect is a failure."""
    for i in range(int(timeout / 0.002)):
        if cond():
            return
        await asyncio.sleep(0 if i < 20 else 0.002)
    fail('did not happen: ' + what)


async def settle():
    for _ in range(10):
        await asyncio.sleep(0)
    await asyncio.sleep(0.002)
