"""C35: over TLS the VEN only talks to servers that its ca_file vouches for, and the VTN only to clients that its http_ca_file vouches for."""
import asyncio
import functools
import ssl

import aiohttp
from pbt import certs, env, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'an identity other than the plain trusted one takes part'
ASSUMPTIONS = ['the host name localhost resolves to the loopback interface', 'the real date is used for the validity of certificates']
HOSTS = {'localhost': 'localhost', '127.0.0.1': '127.0.0.1', 'other': 'other.example.org', 'wild': '*.example.org'}


@functools.lru_cache(None)
def authority(name):
    """The authorities: A, B, an expired one, another one with the same name as A, and an intermediate one of A."""
    return {'A': lambda: certs.make('CA A', 'ec256', 80, 1),
            'B': lambda: certs.make('CA B', 'ec256', 81, 1),
            'A2': lambda: certs.make('CA A', 'ec256', 82, 1),
            'old': lambda: certs.make('CA old', 'ec256', 83, 1, days=400),
            'I': lambda: certs.make('CA I', 'ec256', 84, 7, issuer=authority('A'), ca=True)}[name]()


@functools.lru_cache(None)
def identity(role, issuer, names, period, kind='ec256'):
    """A certificate of a server or client: (certificate, key)."""
    days, since = {'valid': (36500, 2020), 'expired': (400, 2020), 'future': (3650, 2090)}[period]
    return certs.make(role + issuer, kind, {'server': 85, 'client': 86, 'stranger': 87}[role], 11,
                      domains=tuple(HOSTS[n] for n in names), issuer=None if issuer == 'self' else authority(issuer), days=days, since=since)


def bundle(names, own=()):
    return b''.join([authority(n)[0] for n in names] + list(own))


def vouched(issuer, chain, period, trusted, pinned):
    """Whether a certificate of this issuer, sent with its intermediate certificate if chain, is fine for this bundle."""
    if period != 'valid':
        return False
    if issuer == 'self':
        return pinned
    if issuer == 'I':
        return 'A' in trusted and (chain or 'I' in trusted)
    return issuer in trusted and issuer != 'old'


def named(names, host):
    return host in names


# ---------------------------------------------------------------- the VEN

class Server:
    """A VTN on a fixed port that can change its identity; counts what reaches it."""

    def __init__(self):
        self.fake = env.FakeVTN()
        self.port = 0
        self.runner = None
        self.peers = []

    async def start(self, cert, key, asks):
        from aiohttp import web
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(certs.as_file(cert), certs.as_file(key))
        if asks:
            ctx.load_verify_locations(cadata=(authority('A')[0] + authority('B')[0]).decode())
            ctx.verify_mode = ssl.CERT_OPTIONAL if asks == 'optional' else ssl.CERT_REQUIRED

        async def handle(request):
            self.peers.append(request.transport.get_extra_info('ssl_object').getpeercert(True))
            return await self.fake._handle(request)
        self.runner = web.ServerRunner(web.Server(handle))
        await self.runner.setup()
        for port in (self.port, 0):
            try:
                await web.TCPSite(self.runner, '127.0.0.1', port, ssl_context=ctx).start()
                break
            except OSError:
                pass
        self.port = self.runner.addresses[0][1]

    async def stop(self):
        if self.runner:
            await self.runner.cleanup()


async def act(client, what):
    """(whether a reply came back, the result)"""
    if what == 'query':
        t, p = await client.query_registration()
        return t == 'oadrCreatedPartyRegistration', (t, p)
    if what == 'poll':
        t, p = await client.poll()
        return t == 'oadrResponse', (t, p)
    client.registration_id = None
    await client.create_party_registration()
    return client.registration_id == 'reg0', client.registration_id


async def ven(case, info):
    from openleadr import OpenADRClient
    server = Server()
    kw, own = {}, None
    pins = [identity('server', 'self', tuple(x['names']), x['period'])[0] for x in case['steps'][:1]] if case['pin'] else []
    if case['client']:
        own = identity('client', case['client'], (), 'valid', 'rsa2048')
        key = own[1]
        if case['passphrase']:
            key = encrypted(case['passphrase'])
            kw['passphrase'] = case['passphrase']
        trusted = list(case['ca'])
        if not trusted and not pins:
            trusted = ['A']
        kw.update(cert=certs.as_file(own[0]), key=certs.as_file(key), ca_file=certs.as_file(bundle(trusted, pins)))
        if case['unsigned']:
            kw['disable_signature'] = True
    else:
        trusted, pins = [], []
    if case['check_hostname'] is not None:
        kw['check_hostname'] = case['check_hostname']
    with env.quiet():
        client = OpenADRClient(ven_name='ven', vtn_url='https://127.0.0.1:1/', ven_id='ven0', show_fingerprint=False, **kw)
    outcomes = set()
    try:
        for i, step in enumerate(case['steps']):
            issuer, names, period = step['issuer'], tuple(step['names']), step['period']
            cert, key = identity('server', issuer, names, period)
            if issuer == 'I' and step['chain']:
                cert += authority('I')[0]
            asks = step['asks']
            await server.start(cert, key, asks)
            client.vtn_url = 'https://%s:%s/OpenADR2/Simple/2.0b' % (case['host'], server.port)
            server.fake.requests.clear()
            server.peers.clear()
            pinned = bool(pins) and issuer == 'self' and cert in pins
            ok = bool(own) and vouched(issuer, step['chain'], period, trusted, pinned)
            if case['check_hostname'] is not False:
                ok = ok and named(names, case['host'])
            accepted = ok and (not asks or case['client'] in 'AB')
            what = 'a VEN with %s against a server with %s (step %d)' % (
                {k: v for k, v in kw.items() if k in ('check_hostname', 'passphrase')}, step, i)
            what += ', trusting %s%s, at %s' % (trusted, ' and a pinned certificate' if pins else '', case['host'])
            try:
                async with asyncio.timeout(env.HANG):
                    came, result = await act(client, step['act'])
            except asyncio.TimeoutError:
                fail('the VEN hangs', what)
            except Exception as err:
                fail('%s raises %r' % (step['act'], err), what)
            n = len(server.fake.requests)
            if not ok:
                eq(n, 0, 'the number of messages sent to a server that is not to be trusted: ' + what)
            if accepted:
                eq(n, 1, 'the number of messages sent to a trusted server: ' + what)
                check(came, 'the reply of a trusted server was not used: %r' % (result,), what)
                if asks:
                    eq(server.peers, [certs.der(own[0])], 'the certificate that the VEN presents')
            else:
                check(not came, 'a reply although the connection cannot be', what, result)
                if step['act'] != 'create':
                    eq(result, (None, {}), 'the result of %s when the connection is refused' % step['act'])
            outcomes.add(accepted)
            info.tag('%s:%s' % (issuer, 'accepted' if accepted else 'refused'))
            if not ok and own and vouched(issuer, step['chain'], period, trusted, pinned):
                info.tag('wrong name')
            await server.stop()
            server.runner = None
        server.fake.take()
    finally:
        await server.stop()
        if client.client_session:
            await client.client_session.close()
    info.nontrivial(outcomes != {True} or any(s['issuer'] != 'A' for s in case['steps']))
    info.tag('both' if len(outcomes) == 2 else 'same')


@functools.lru_cache(None)
def encrypted(passphrase):
    return certs.pem_key(certs.key('rsa2048', 86), passphrase.encode())


# ---------------------------------------------------------------- the VTN

async def vtn(case, info):
    seen = []
    pins = [identity('client', 'self', (), 'valid')[0]] if case['pin'] else []
    trusted = list(case['ca'])
    if not trusted and not pins:
        trusted = ['A']
    cert, key = identity('server', 'B', ('localhost', '127.0.0.1'), 'valid', 'rsa2048')
    kw = {}
    if case['passphrase']:
        kw['http_key_passphrase'] = case['passphrase']
        key = certs.pem_key(certs.key('rsa2048', 85), case['passphrase'].encode())
    vtn = env.VTN(http_cert=certs.as_file(cert), http_key=certs.as_file(key), http_ca_file=certs.as_file(bundle(trusted, pins)), **kw)

    def register(payload):
        seen.append(payload['ven_name'])
        return 'ven-%d' % len(seen), 'reg'
    vtn.server.add_handler('on_create_party_registration', register)
    outcomes = set()
    async with vtn:
        for i, c in enumerate(case['clients']):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.load_verify_locations(cadata=authority('B')[0].decode())
            if c['version'] == '1.2':
                ctx.maximum_version = ssl.TLSVersion.TLSv1_2
            ok = False
            if c['issuer'] not in ('none', 'plain'):
                mine, mkey = identity('client', c['issuer'], (), c['period'])
                if c['issuer'] == 'I' and c['chain']:
                    mine += authority('I')[0]
                ctx.load_cert_chain(certs.as_file(mine), certs.as_file(mkey))
                ok = vouched(c['issuer'], c['chain'], c['period'], trusted, bool(pins) and c['period'] == 'valid')
            name = 'client %d' % i
            url = vtn.base.replace('https', 'http' if c['issuer'] == 'plain' else 'https') + '/EiRegisterParty'
            seen.clear()
            what = '%s, the VTN trusts %s%s' % (c, trusted, ' and a pinned certificate' if pins else '')
            status, presented = None, None
            connector = aiohttp.TCPConnector() if c['issuer'] == 'plain' else aiohttp.TCPConnector(ssl=ctx)
            async with aiohttp.ClientSession(connector=connector) as s:
                try:
                    async with asyncio.timeout(env.HANG):
                        async with s.post(url, data=wire.create_party_registration(name).encode(), headers={'content-type': 'application/xml'}) as r:
                            status = r.status
                            if r.connection and c['issuer'] != 'plain':
                                presented = r.connection.transport.get_extra_info('ssl_object').getpeercert(True)
                            raw = await r.read()
                except asyncio.TimeoutError:
                    fail('the VTN does not answer', what)
                except (aiohttp.ClientError, OSError) as err:
                    result = repr(err)
            if ok:
                eq(status, 200, 'the HTTP status for a client with a certificate of a trusted authority (%s)' % what)
                eq(wire.Msg(raw).type, 'oadrCreatedPartyRegistration', 'the reply to a trusted client')
                eq(seen, [name], 'the registrations that reach the handler from a trusted client')
            else:
                eq(seen, [], 'what reaches the handler from a client that is not to be trusted: ' + what)
                check(status is None or c['issuer'] == 'plain' and status != 200, 'the VTN answers a client that is not to be trusted', what, status)
            if presented:
                eq(presented, certs.der(cert), 'the certificate that the VTN presents')
            outcomes.add(ok)
            info.tag('%s:%s' % (c['issuer'], 'accepted' if ok else 'refused'))
    info.nontrivial(outcomes != {True} or any(c['issuer'] != 'A' for c in case['clients']))


ISSUER = st.sampled_from(['A', 'A', 'A', 'B', 'self', 'A2', 'I', 'I', 'old'])
NAMES = st.sampled_from([['localhost', '127.0.0.1']] * 4 + [['localhost'], ['localhost', '127.0.0.1'], ['127.0.0.1'], ['other'], ['localhost', 'other'], ['wild']])
PERIOD = st.sampled_from(['valid'] * 6 + ['expired', 'future'])
CA = st.sampled_from([['A'], ['A'], ['A'], ['B'], ['A', 'B'], ['A', 'I'], ['I'], ['A2'], ['old'], ['B', 'A2'], ['A', 'old'], []])
PASS = st.sampled_from([None, None, 'secret', 'pä ss', '0'])
STEP = rec(issuer=ISSUER, names=NAMES, period=PERIOD, chain=st.booleans(), asks=st.sampled_from([None, 'required', 'required', 'optional']),
           act=st.sampled_from(['query', 'poll', 'create']))
GOOD = rec(issuer=st.just('A'), names=st.just(['localhost', '127.0.0.1']), period=st.just('valid'), chain=st.just(False),
           asks=st.sampled_from([None, 'required']), act=st.sampled_from(['query', 'poll', 'create']))
VEN = rec(client=st.sampled_from(['A'] * 6 + ['B', 'self', None]), pin=st.sampled_from([False, False, True]), ca=CA, passphrase=PASS,
          unsigned=st.booleans(), check_hostname=st.sampled_from([None, None, True, False]), host=st.sampled_from(['localhost', '127.0.0.1']),
          steps=st.lists(st.one_of(STEP, STEP, GOOD), min_size=1, max_size=5))
CLIENT = rec(issuer=st.sampled_from(['A', 'A', 'A', 'B', 'self', 'A2', 'I', 'I', 'old', 'none', 'plain']), period=PERIOD, chain=st.booleans(),
             version=st.sampled_from(['1.3', '1.3', '1.2']))
VTN = rec(ca=CA, pin=st.sampled_from([False, False, True]), passphrase=PASS, clients=st.lists(CLIENT, min_size=1, max_size=6))


def run_ven(case, info):
    env.run(ven(case, info))


def run_vtn(case, info):
    env.run(vtn(case, info))


SUITES = [Suite('ven', VEN, run_ven, 800, 20000),
          Suite('vtn', VTN, run_vtn, 500, 12000)]
