"""C26: servers and clients in one process do not influence each other."""
import functools
import os
import pickle
import re
import signal
import uuid
import jinja2
from openleadr import messaging
from pbt import certs, clock, env, gen, wire
from pbt.gen import st, rec
from pbt.runner import Hang, Suite, check, eq, fail
from pbt.checks import c05, c27

RULE = 'at least two parties with different settings, of which at least two perform operations'
ASSUMPTIONS = ['the module-wide hooks of openleadr.hooks are not used', 'no message is sent to two parties']
T0 = 1600000000 * 1000000
VENS = ['ven0', 'ven1']
UUID = re.compile('[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')


class Transcript:
    """What can be seen of a party, with generated ids numbered in the order of their appearance."""

    def __init__(self):
        self.lines, self.ids = [], {}

    def norm(self, text):
        return UUID.sub(lambda m: '#%d' % self.ids.setdefault(m.group(), len(self.ids)), text)

    def add(self, *what):
        self.lines.append(self.norm(' '.join(x if isinstance(x, str) else repr(x) for x in what)))


def describe(raw):
    """A message without the parts of its signature that differ every time."""
    text = raw.decode('utf-8', 'replace') if isinstance(raw, bytes) else raw
    m = re.search('X509Certificate>([^<]*)<', text)
    by = certs.fingerprint('-----BEGIN CERTIFICATE-----%s-----END CERTIFICATE-----' % m.group(1)) if m else 'nobody'
    return 'signed by %s: %s' % (by, re.sub(r'<(\w+:)?Signature .*</(\w+:)?Signature>', '', text, flags=re.S))


# ---- servers

def pki():
    return [c27.issued('rsa2048', n, 3 + n, 'ven') for n in (0, 1)]


class Server:
    def __init__(self, cfg, t):
        self.cfg, self.t = cfg, t
        kw = dict(vtn_id=cfg['vtn_id'], requested_poll_freq=clock.secs(cfg['poll_freq']), verify_message_signatures=cfg['verify'])
        if cfg['prefix'] is not None:
            kw['http_path_prefix'] = cfg['prefix']
        if cfg['cert'] is not None:
            kw['cert'], kw['key'] = (certs.as_file(x) for x in certs.generated(cfg['cert']))
        if cfg['lookup'] is not None:
            which, known = cfg['lookup']

            def ven_lookup(ven_id):
                t.add('ven_lookup', ven_id)
                return dict(ven_id=ven_id, registration_id='reg-' + ven_id, fingerprint=certs.fingerprint(pki()[known[ven_id]][0])) if ven_id in known else {}

            def fingerprint_lookup(ven_id):
                t.add('fingerprint_lookup', ven_id)
                return certs.fingerprint(pki()[known[ven_id]][0]) if ven_id in known else None
            if 'v' in which:
                kw['ven_lookup'] = ven_lookup
            if 'f' in which:
                kw['fingerprint_lookup'] = fingerprint_lookup
        self.client_cert = None
        if cfg['tls']:
            scert, skey = c27.server()
            ca = certs.as_file(c27.authority()[0][0])
            kw.update(http_cert=certs.as_file(scert), http_key=certs.as_file(skey), http_ca_file=ca)
            self.client_cert = tuple(certs.as_file(x) for x in pki()[0]) + (ca,)
        self.vtn = env.VTN(**kw)
        self.vtn.prefix = kw.get('http_path_prefix', '/OpenADR2/Simple/2.0b').rstrip('/')
        self.report_ids = []
        for name in cfg['handlers']:
            self.handler(name, 0)

    def handler(self, name, n):
        t, cfg = self.t, self.cfg

        def on_create_party_registration(info):
            t.add('handler', n, name, info)
            return [('ven0', 'reg%d' % n), False, (cfg['vtn_id'] + '-ven', 'r')][(n + cfg['variant']) % 3]

        def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
            t.add('handler', n, name, ven_id, resource_id, measurement, unit, scale)

            def callback(values):
                t.add('report callback', n, [(clock.us(a), v) for a, v in values])
            return (callback, clock.secs(10 + n)) if (n + cfg['variant']) % 2 == 0 else None

        def on_poll(ven_id):
            t.add('handler', n, name, ven_id)
            return None if n % 2 else ('oadrRequestReregistration', {'ven_id': ven_id})

        def on_created_event(ven_id, event_id, opt_type):
            t.add('handler', n, name, ven_id, event_id, opt_type)

        def on_update_report(report):
            t.add('handler', n, name, str(report.get('report_request_id')))
        self.vtn.server.add_handler(name, locals()[name])

    async def send(self, service, xml, signer=None):
        if signer is not None:
            xml = sign(xml, signer)
        r = await self.vtn.post(service, xml, cert=self.client_cert, valid=False)
        self.t.add('reply', r.status, describe(r.raw))
        return r

    async def do(self, op):
        kind, ven, n, opt, signer = op
        ven = VENS[ven]
        s = self.vtn.server
        signer = signer if self.cfg['tls'] else None
        if kind == 'query':
            await self.send('EiRegisterParty', wire.query_registration('q'))
        elif kind == 'register':
            await self.send('EiRegisterParty', wire.create_party_registration('name%d' % n))
        elif kind == 'poll':
            await self.send('OadrPoll', wire.poll(ven), signer)
        elif kind == 'request':
            await self.send('EiEvent', wire.request_event(ven, 'q'), signer)
        elif kind == 'add':
            def callback(ven_id, event_id, opt_type):
                self.t.add('event callback', ven_id, event_id, opt_type)

            def delivered():
                self.t.add('delivery callback', ven, 'e%d' % n)
            got = s.add_event(ven, 'SIMPLE', 'level', [dict(dtstart=clock.at(T0 + 600 * 1000000), duration=clock.secs(600), signal_payload=n)], event_id='e%d' % n if opt else None, callback=callback, delivery_callback=delivered)
            self.t.add('add_event', got)
        elif kind == 'cancel':
            self.t.add('cancel_event', s.cancel_event(ven, 'e%d' % n))
        elif kind == 'created':
            await self.send('EiEvent', wire.created_event(ven, [dict(event_id='e%d' % n, modification_number=0, opt_type='optIn' if opt else 'optOut')], 'q'), signer)
        elif kind == 'reports':
            r = await self.send('EiReport', wire.register_report(ven, [dict(report_name='METADATA_TELEMETRY_USAGE', report_specifier_id='s%d' % n, descriptions=[
                dict(r_id='r', resource_id='res%d' % n, min=1, max=100, measurement=dict(name='voltage', ns='power', description='Voltage', unit='V'))])]), signer)
            if r.status == 200 and r.raw:
                self.report_ids += [(x.text('ei:reportRequestID'), x.text('ei:reportSpecifier/ei:reportSpecifierID')) for x in r.msg.all('oadr:oadrReportRequest')]
        elif kind == 'update':
            # with the ids of the VTN, or those that any VTN could have
            rid, spec = self.report_ids[n % len(self.report_ids)] if self.report_ids and opt else ('unknown', 's%d' % n)
            await self.send('EiReport', wire.update_report(ven, [dict(report_request_id=rid, report_specifier_id=spec, values=[(T0, 'r', float(n))])]), signer)
        elif kind == 'handler':
            name = ['on_create_party_registration', 'on_register_report', 'on_created_event', 'on_poll', 'on_update_report'][n % 5]
            self.handler(name, n)
        self.t.add('events', {v: [e.event_descriptor.event_id for e in es] for v, es in s.events.items()}, 'updated', dict(s.events_updated), 'callbacks', list(s.event_callbacks),
                   list(s.event_delivery_callbacks), 'reports', list(s.registered_reports))


def sign(xml, signer):
    """The message signed by a VEN."""
    return c05.forge(xml, wire.ts(clock.Clock.now_us), uuid.uuid4().hex, pki()[signer])


async def servers(cases, ops):
    """Run the operations (time, server, operation) on the servers; cases maps numbers to settings in order of creation."""
    with clock.virtual(T0) as now:
        live = {}
        for i, cfg in cases:
            live[i] = Server(cfg, Transcript())
        try:
            for x in live.values():
                await x.vtn.__aenter__()
            for when, i, op in ops:
                now.now_us = T0 + when * 1000000
                live[i].t.add('operation', op[0])
                await live[i].do(op)
        finally:
            for x in live.values():
                if hasattr(x.vtn, 'port'):
                    await x.vtn.__aexit__()
        return {i: x.t.lines for i, x in live.items()}


@functools.lru_cache(None)
def warm():
    """What is used by all cases is made once and before any process is forked: files and, to save time, compiled templates."""
    templates = getattr(messaging, 'TEMPLATES', None)
    if isinstance(templates, jinja2.Environment):
        for name in templates.list_templates():
            templates.get_template(name)
    for n in (0, 1):
        for x in pki()[n] + tuple(certs.generated(n)) + tuple(c27.server()):
            certs.as_file(x)
        certs.fingerprint(pki()[n][0])
    certs.as_file(c27.authority()[0][0])


def isolated(play, cases, ops):
    """The transcripts, made in a process of its own: one that did not run any server or client before."""
    warm()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                out = ('ok', env.run(play(cases, ops)))
            except BaseException as e:
                out = ('error', '%s: %s' % (e.__class__.__name__, e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise Hang('the case does not end')
    kind, out = pickle.loads(data)
    if kind == 'error':
        fail('the case cannot be run', out)
    return out


def compare(case, info, play):
    """The transcripts of all parties together, and of each of them alone."""
    cases = list(enumerate(case['parties']))
    order = [x for x in sorted(cases, key=lambda c: case['creation'][c[0]])]
    ops = [(when, i % len(cases), op) for when, (i, op) in enumerate(case['ops'])]
    together = isolated(play, order, ops)
    for c in cases:
        alone = isolated(play, [c], [o for o in ops if o[1] == c[0]])[c[0]]
        both = together[c[0]]
        for n, (a, b) in enumerate(zip(both + ['(nothing)'], alone + ['(nothing)'])):
            if a != b:
                fail('party %d behaves differently next to %d others' % (c[0], len(cases) - 1), 'together: ' + a, 'alone:    ' + b, 'before:', *both[max(0, n - 4):n])
    info.nontrivial(len({repr(x) for x in case['parties']}) > 1 and len({o[1] for o in ops}) > 1)
    info.tag('%d parties' % len(cases))


def run_servers(case, info):
    compare(case, info, servers)


# ---- clients

class Client:
    def __init__(self, cfg, t):
        self.cfg, self.t = cfg, t

    async def start(self):
        cfg, t = self.cfg, self.t
        self.fake = await env.FakeVTN(ven_id=cfg['given_id'], registration_id='reg-%s' % cfg['given_id'], poll_freq=cfg['poll_freq'], vtn_id=cfg['vtn_id']).__aenter__()
        kw = dict(ven_name=cfg['name'], ven_id=cfg['ven_id'], disable_signature=cfg['disable_signature'])
        if cfg['cert'] is not None:
            kw['cert'], kw['key'] = (certs.as_file(x) for x in pki()[cfg['cert']])
            kw['ca_file'] = kw['cert']
        self.ven = env.VEN(self.fake.url, **kw)
        self.c = c = self.ven.client
        c.add_handler('on_event', self.event_handler('on_event', cfg['variant']))
        self.started = False

    def event_handler(self, name, n):
        async def coro(event):
            self.t.add(name, n, event['event_descriptor']['event_id'], event['event_descriptor']['event_status'])
            return 'optIn' if n % 2 else 'optOut'

        def sync(event):
            self.t.add(name, n, event['event_descriptor']['event_id'], event['event_descriptor']['event_status'])
            return 'optOut' if n % 2 else 'optIn'
        return coro if n > 1 else sync

    async def do(self, op, now):
        kind, n, opt = op
        c, t = self.c, self.t
        if kind in ('poll', 'reports', 'cleanup', 'status') and not self.started:
            kind = 'start'
        if kind == 'start':
            if self.started:
                return
            await self.ven.start()
            self.started = True
        elif kind == 'poll':
            ev = dict(event_id='e%d' % (n % 3), modification_number=n // 3, status='active' if opt else 'far', start=T0 + (600 if opt else 10 ** 6) * 1000000, duration=600, created=T0,
                      signals=[dict(intervals=[(None, 600, n)])], targets=[])
            replies = [wire.distribute_event([ev], vtn_id=self.cfg['vtn_id']), wire.oadr_response(c.ven_id), wire.create_report(c.ven_id, [
                dict(report_request_id='rr%d' % n, report_specifier_id='s%d' % (n % 2), granularity=60, report_back_duration=60, payloads=[dict(r_id='r')])]),
                wire.cancel_report(c.ven_id, 'rr%d' % n, False), wire.request_reregistration(c.ven_id)]
            self.fake.polls.append(replies[[0, 0, 0, 1, 2, 2, 3, 4][n % 8]])
            await self.ven.poll(self.cfg['poll_freq'])
        elif kind == 'reports':
            for job in self.ven.report_jobs():
                await self.ven.run_job(job)
            await env.settle()
        elif kind == 'cleanup':
            await self.ven.cleanup()
        elif kind == 'status':
            await self.ven.status_log()
        elif kind == 'add_report':
            if self.started:
                return

            def callback():
                t.add('report callback', n)
                return n
            with env.quiet():
                t.add('add_report', c.add_report(callback, 'res%d' % n, ['voltage', 'REAL_POWER', 'current'][n % 3], report_specifier_id='s%d' % (n % 2), r_id='r' if n < 2 else None, power_voltage=110 + n,
                                                 sampling_rate=clock.secs(60), report_duration=clock.secs(60 * n)))
        elif kind == 'hook':
            name = ['before_send_xml', 'after_receive_xml', 'before_parse_xml'][n % 3]
            c.add_hook(name, lambda xml: t.add('hook', n, name, describe(xml)))
        elif kind == 'handler':
            name = ['on_event', 'on_update_event'][n % 2]
            c.add_handler(name, self.event_handler(name, n % 4))
        await env.settle()
        for m in self.fake.take():
            t.add('request', describe(m.raw))
        t.add('ven', c.ven_id, c.registration_id, c.poll_frequency, 'events', [(e['event_descriptor']['event_id'], e['event_descriptor']['event_status']) for e in c.received_events], dict(c.responded_events),
              'reports', [(r.report_specifier_id, [d.r_id for d in r.report_descriptions]) for r in c.reports], len(c.report_callbacks), 'jobs', sorted(str(j.trigger) for j in self.ven.jobs()))


async def clients(cases, ops):
    with clock.virtual(T0) as now:
        live = {}
        try:
            for i, cfg in cases:
                live[i] = Client(cfg, Transcript())
                await live[i].start()
            for when, i, op in ops:
                now.now_us = T0 + when * 1000000
                live[i].t.add('operation', op[0])
                await live[i].do(op, now)
        finally:
            for x in live.values():
                if getattr(x, 'started', None):
                    await x.ven.__aexit__()
                if hasattr(x, 'fake'):
                    await x.fake.__aexit__()
        return {i: x.t.lines for i, x in live.items()}


def run_clients(case, info):
    compare(case, info, clients)


KNOWN = st.dictionaries(st.sampled_from(VENS), st.integers(0, 1), max_size=2)
HANDLERS = ['on_create_party_registration', 'on_register_report', 'on_created_event', 'on_update_report']
SERVER = rec(vtn_id=st.sampled_from(['VTN', 'Vtn2', 'x y']), cert=st.sampled_from([None, None, 0, 1]), lookup=gen.maybe(st.tuples(st.sampled_from(['v', 'v', 'f', 'vf']), KNOWN).map(list)), verify=st.booleans(),
             poll_freq=st.sampled_from([10, 60, 3600]), prefix=st.sampled_from([None, None, '/other', '/OpenADR2/Simple/2.0b/', '']), tls=st.sampled_from([False, False, False, True]),
             handlers=st.one_of(st.just(HANDLERS), st.lists(st.sampled_from(HANDLERS + ['on_poll']), max_size=4, unique=True)), variant=st.integers(0, 2))
SOP = st.tuples(st.sampled_from(['query', 'register', 'poll', 'poll', 'poll', 'request', 'add', 'add', 'cancel', 'created', 'created', 'reports', 'reports', 'update', 'update', 'handler']),
                st.integers(0, 1), st.integers(0, 5), st.booleans(), st.sampled_from([0, 0, 1, None])).map(list)
CLIENT = rec(name=st.sampled_from(['name', 'other']), ven_id=st.sampled_from([None, None, 'fixed']), given_id=st.sampled_from(['v0', 'v1', 'fixed']), poll_freq=st.sampled_from([70007, 70009]), vtn_id=st.sampled_from(['VTN', 'V2']),
             cert=st.sampled_from([None, None, None, 0, 1]), disable_signature=st.booleans(), variant=st.integers(0, 3))
COP = st.tuples(st.sampled_from(['start', 'poll', 'poll', 'poll', 'reports', 'cleanup', 'status', 'add_report', 'add_report', 'hook', 'handler']), st.integers(0, 7), st.booleans()).map(list)


def world(party, op, most):
    return rec(parties=st.lists(party, min_size=2, max_size=3), creation=st.permutations([0, 1, 2]), ops=st.lists(st.tuples(st.integers(0, 5), op).map(list), min_size=2, max_size=most))


SUITES = [Suite('servers', world(SERVER, SOP, 14), run_servers, 400, 5000), Suite('clients', world(CLIENT, COP, 12), run_clients, 250, 3000)]
