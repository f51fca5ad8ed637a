"""C06: over mutual TLS a VEN can only act as itself."""
import functools
import itertools
import aiohttp
from lxml import etree
from pbt import certs, clock, env, gen, overlap, wire
from pbt.checks import c05
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'a history with at least one request that must be refused and at least one that must be handled, over a server with a lookup configured; for overlapping requests: at least two waited in their handlers at once and were answered in another order'
ASSUMPTIONS = ['a server with neither a ven_lookup nor a fingerprint_lookup is not covered', 'refused connections of clients without a certificate count as refusals']
T0 = 1600000000 * 1000000
SERVICES = dict(oadrPoll='OadrPoll', oadrRequestEvent='EiEvent', oadrCreatedEvent='EiEvent', oadrRegisterReport='EiReport',
                oadrUpdateReport='EiReport', oadrCancelPartyRegistration='EiRegisterParty', oadrCreatePartyRegistration='EiRegisterParty')


@functools.lru_cache(None)
def pki():
    ca = certs.make('test CA', n=90, serial=1)
    return dict(ca=ca, server=certs.make('localhost', n=91, serial=2, issuer=ca),
                clients=[certs.make('ven a', n=0, serial=3, issuer=ca), certs.make('ven b', n=1, serial=4, issuer=ca),
                         certs.make('ven a', n=2, serial=3, issuer=ca)])


@functools.lru_cache(None)
def private_key(i):
    from cryptography.hazmat.primitives.serialization import load_pem_private_key
    return load_pem_private_key(pki()['clients'][i][1], None)


def fp(i):
    """The fingerprint of client i; [i, n] is one that merely looks like it."""
    if isinstance(i, list):
        x = fp(i[0])
        other = '0' if x[i[1] * 3] != '0' else '1'
        return [x[:-3], x[3:], x[:-1], x + ':00', '00:' + x, x[:i[1] * 3] + other + x[i[1] * 3 + 1:], x.replace(':', '', 1), x[-3:] + x[:-3]][i[1]]
    return certs.fingerprint(pki()['clients'][i][0])


pki()


def body(kind, ven, n):
    if kind == 'oadrPoll':
        return wire.poll(ven)
    if kind == 'oadrRequestEvent':
        return wire.request_event(ven, 'r%d' % n)
    if kind == 'oadrCreatedEvent':
        return wire.created_event(ven, [dict(event_id='ev', modification_number=0, opt_type='optIn')], 'r%d' % n)
    if kind == 'oadrRegisterReport':
        return wire.register_report(ven, [dict(report_specifier_id='s', report_name='METADATA_TELEMETRY_USAGE', duration=3600, descriptions=[
            dict(r_id='p', report_type='usage', reading_type='Direct Read', sampling=(10, 10, False))])], 'r%d' % n)
    if kind == 'oadrUpdateReport':
        return wire.update_report(ven, [dict(report_request_id='rr', report_specifier_id='s', values=[(T0, 'p', 1)])], 'r%d' % n)
    if kind == 'oadrCancelPartyRegistration':
        return wire.cancel_party_registration(ven, 'reg', 'r%d' % n)
    return wire.create_party_registration('name', ven_id=ven, request_id='r%d' % n)


def sign(xml, i, nonce):
    root = etree.fromstring(xml.encode())
    tree = etree.fromstring(etree.tostring(root[0]))
    tree.set('{%s}Id' % c05.OADR, 'oadrSignedObject')
    rp = etree.Element('{%s}ReplayProtect' % c05.DSP, nsmap={'dsp': c05.DSP})
    etree.SubElement(rp, '{%s}timestamp' % c05.DSP).text = wire.ts(clock.Clock.now_us)
    etree.SubElement(rp, '{%s}nonce' % c05.DSP).text = nonce
    sig = c05.signer().sign(tree, key=private_key(i), cert=pki()['clients'][i][0], reference_uri='#oadrSignedObject', signature_properties=rp)
    out = etree.Element('{%s}oadrPayload' % c05.OADR, nsmap={'oadr': c05.OADR})
    out.append(sig)
    out.append(tree)
    return etree.tostring(out).decode('utf-8')


def tamper(xml, how, ven, other):
    root = etree.fromstring(xml.encode())
    if how == 'request':
        signed = root.find('{%s}oadrSignedObject' % c05.OADR)
        for e in signed.iter():
            if isinstance(e.tag, str) and e.tag.endswith('}requestID'):
                e.text = (e.text or '') + 'x'
                break
        else:
            for e in signed.iter():
                if len(e) == 0 and isinstance(e.tag, str) and not e.tag.endswith('}venID'):
                    e.text = 'xml'
                    break
            else:
                del signed[0].attrib['{%s}schemaVersion' % wire.NS['ei']]     # optional, so still schema-valid
    elif how == 'nonce':
        root.find('.//{%s}nonce' % c05.DSP).text += 'x'
    elif how == 'certificate':
        import base64
        root.find('.//{%s}X509Certificate' % c05.DS).text = base64.encodebytes(certs.der(pki()['clients'][other][0])).decode()
    return etree.tostring(root).decode('utf-8')


SERIAL = itertools.count()


async def scenario(case, info):
    calls, lookups = [], dict(case['known'])
    own = next(SERIAL)      # of all cases, none shares a nonce with another
    VENS = ['ven0', 'ven1', 'ven2', 'ven']

    def record(name, result=None, is_async=False):
        def handler(*a, **kw):
            calls.append((name, kw.get('ven_id') or (a[0].get('ven_id') if a and isinstance(a[0], dict) else None), a, kw))
            return result() if callable(result) else result

        async def ahandler(*a, **kw):
            return handler(*a, **kw)
        return ahandler if is_async else handler

    def ven_lookup(ven_id):
        k = lookups.get(ven_id)
        if k is None:
            return None
        return dict(ven_id=ven_id, ven_name='x', registration_id=None if k.get('unregistered') else 'reg',
                    fingerprint=None if k['fp'] is None else fp(k['fp']))

    def fingerprint_lookup(ven_id):
        k = lookups.get(ven_id)
        return None if k is None or k['fp'] is None else fp(k['fp'])

    async def aven_lookup(ven_id):
        return ven_lookup(ven_id)

    async def afingerprint_lookup(ven_id):
        return fingerprint_lookup(ven_id)
    kw = {}
    if 'ven' in case['lookup']:
        kw['ven_lookup'] = aven_lookup if case['async'] else ven_lookup
    if 'fingerprint' in case['lookup']:
        kw['fingerprint_lookup'] = afingerprint_lookup if case['async'] else fingerprint_lookup
    p = pki()
    ca = certs.as_file(p['ca'][0])
    with clock.virtual(T0) as c:
        async with env.VTN(http_cert=certs.as_file(p['server'][0]), http_key=certs.as_file(p['server'][1]), http_ca_file=ca,
                           verify_message_signatures=case['verify'], **kw) as vtn:
            s = vtn.server
            internal = case['mode'] == 'internal'
            if internal:
                for v in VENS:
                    s.add_event(v, 'SIMPLE', 'level', [dict(dtstart=clock.at(T0 + 10 ** 9), duration=clock.secs(60), signal_payload=1)],
                                event_id='ev', callback=lambda ven_id, event_id, opt_type: calls.append(('on_created_event', ven_id, (), {})),
                                delivery_callback=functools.partial(lambda v: calls.append(('delivery', v, (), {})), v))
            else:
                s.add_handler('on_poll', record('on_poll', None, case['async']))
                s.add_handler('on_request_event', record('on_request_event', None, case['async']))
                s.add_handler('on_created_event', record('on_created_event', None, case['async']))
            s.add_handler('on_register_report', record('on_register_report', None, case['async']))
            s.add_handler('on_update_report', record('on_update_report', None, case['async']))
            s.add_handler('on_cancel_party_registration', record('on_cancel_party_registration', None, case['async']))
            s.add_handler('on_create_party_registration', record('on_create_party_registration', lambda: ('newven', 'newreg'), case['async']))
            sent, served, handled, refused, learnt = [], set(), 0, 0, False
            for n, op in enumerate(case['ops']):
                ven = VENS[op['ven']] if op['ven'] is not None else None
                kind = op['kind']
                if ven is None and kind != 'oadrCreatePartyRegistration':
                    ven = VENS[0]
                tls = op['tls']
                if op['learn'] is not None:         # the certificate of a VEN is renewed, the VEN is removed, or a new one is registered
                    lookups['ven%d' % op['learn'][0]] = op['learn'][1]
                    learnt = True
                del calls[:]
                xml = body(kind, ven, n)
                signer, tampered, replay = op['signer'], op['tamper'], False
                current = (lookups.get(ven) or {}).get('fp')
                if learnt and op['follow'] and isinstance(current, int):    # a client that keeps up with the records
                    if signer == tls:
                        signer = current
                    tls = current
                if op['replay'] and sent:
                    kind, ven, signer, tampered, xml = sent[op['replay'] % len(sent)]
                    replay = True
                elif signer is not None:
                    xml = sign(xml, signer, 'nonce %d.%d' % (own, n))
                    if tampered:
                        xml = tamper(xml, tampered, ven, (signer + 1) % 3)
                    sent.append((kind, ven, signer, tampered, xml))
                c.advance(us=op['us'])
                cert = None if tls is None else (certs.as_file(p['clients'][tls][0]), certs.as_file(p['clients'][tls][1]), ca)
                if tls is None:
                    try:
                        async with vtn._session((None, None, ca)).post('%s/%s' % (vtn.base, SERVICES[kind]), data=xml.encode(),
                                                                       headers={'content-type': 'application/xml'}) as r:
                            check(r.status >= 400 or wire.Msg(await r.read()).code != 200, 'served a client without a certificate', case)
                    except (aiohttp.ClientError, OSError):
                        pass
                    check(not calls, 'a handler ran for a client without a certificate', calls)
                    continue
                reply = await vtn.post(SERVICES[kind], xml, cert=cert)
                known = lookups.get(ven)
                expected = known and known['fp']
                if ven is None:         # a new registration: nothing to authenticate yet
                    allowed = True
                else:
                    allowed = known is not None and expected is not None and expected == tls
                    if 'ven' in case['lookup'] and known is not None and known.get('unregistered') and kind != 'oadrCreatePartyRegistration':
                        allowed = False
                    if case['verify']:
                        allowed = allowed and signer == expected and not tampered
                        if allowed and replay and xml not in served:
                            served.add(xml)     # refused before for another reason, so whether it was validated before is open
                            continue
                        allowed = allowed and not replay and op['us'] <= 5000000
                what = 'request %d: %s as %r with TLS certificate %s, signed by %s, tampered: %s, replay: %s, delay: %s us, the VTN knows %r' % (
                    n, kind, ven, tls, signer, tampered, replay, op['us'], known)
                if allowed:
                    served.add(xml)
                    check(reply.status == 200 and reply.raw, 'refused: ' + what, reply)
                    if not (internal and kind in ('oadrCreatedEvent',)):
                        check(reply.msg.code in (None, 200) and reply.type != 'oadrRequestReregistration', 'refused: ' + what, reply)
                    names = [x[0] for x in calls]
                    if kind in ('oadrRegisterReport', 'oadrCreatePartyRegistration', 'oadrCancelPartyRegistration') or \
                            (not internal and kind != 'oadrUpdateReport'):
                        check(len(names) == 1, 'the handler did not run exactly once: ' + what, calls)
                    if kind == 'oadrCreatePartyRegistration':
                        eq(calls[0][2][0].get('fingerprint'), fp(tls), 'the fingerprint that the registration handler sees')
                    for x in calls:
                        if x[1] is not None or x[0] in ('on_poll', 'on_request_event', 'on_created_event'):
                            eq(x[1], ven, 'the venID that the handler sees')
                    handled += 1
                else:
                    check(not calls, 'a handler ran for: ' + what, calls)
                    check(reply.status >= 400 or (reply.raw and (reply.type == 'oadrRequestReregistration' or reply.msg.code not in (None, 200))),
                          'no error in reply to: ' + what, reply)
                    if reply.status == 200:
                        check(not reply.msg.all('oadr:oadrEvent'), 'events in reply to: ' + what, reply)
                    refused += 1
            info.tag(*['the records of the VTN changed'] * learnt)
            info.tag('handled %d' % min(handled, 5), 'refused %d' % min(refused, 5))
            info.nontrivial(handled and refused)


def run(case, info):
    from openleadr import messaging
    if hasattr(getattr(messaging, 'NONCE_CACHE', None), 'clear'):
        messaging.NONCE_CACHE.clear()
    env.run(scenario(case, info))


KNOWN = [st.one_of(st.none(), rec(fp=st.one_of(st.sampled_from([0, 1, 2, None]), st.just(i), st.integers(0, 7).map(lambda n, i=i: [i, n])), unregistered=st.sampled_from([False, False, False, True])))
         for i in range(3)]


def aligned(op):
    """Mostly let the signer, TLS certificate and venID agree, so that single deviations stand out."""
    d = op.pop('deviate')
    op['follow'] = d not in ('tls', 'all')
    if d != 'all':
        if op['ven'] is not None and op['ven'] < 3 and d != 'tls':
            op['tls'] = op['ven']
        if d != 'signer':
            op['signer'] = op['tls']
        if d != 'tamper':
            op['tamper'] = None
        if d != 'time':
            op['us'] = 0
        if d != 'replay':
            op['replay'] = 0
    return op


OP = rec(kind=st.sampled_from(sorted(SERVICES)), ven=st.sampled_from([0, 0, 1, 1, 2, 3, None]), tls=st.sampled_from([0, 1, 2, 0, 1, 2, None]),
         signer=st.sampled_from([0, 1, 2, None]), tamper=st.sampled_from([None, 'request', 'nonce', 'certificate']),
         learn=st.one_of(*[st.none()] * 9, st.tuples(st.integers(0, 2), st.one_of(st.none(), rec(fp=st.sampled_from([0, 1, 2, None]), unregistered=st.sampled_from([False, False, True])))).map(list)),
         us=st.sampled_from([0, 5000000, 5000001]), replay=st.integers(0, 5),
         deviate=st.sampled_from(['none', 'none', 'none', 'tls', 'signer', 'tamper', 'time', 'replay', 'all'])).map(aligned)
CASE = rec(lookup=st.sampled_from(['ven', 'fingerprint', 'ven+fingerprint']), verify=st.booleans(), mode=st.sampled_from(['custom', 'internal']),
           known=st.one_of(st.just(dict(ven0=dict(fp=0), ven1=dict(fp=1), ven2=dict(fp=2))), st.just(dict(ven0=dict(fp=0), ven1=dict(fp=1), ven2=dict(fp=2))), rec(ven0=KNOWN[0], ven1=KNOWN[1], ven2=KNOWN[2]),
                           rec(ven0=st.just(dict(fp=0)), ven1=KNOWN[1], ven2=KNOWN[2])),
           ops=st.lists(OP, min_size=3, max_size=12), **{'async': st.booleans()})

SUITES = [Suite('mutual_tls', CASE, run, 2600),
          Suite('overlapping', overlap.strategy(sorted(overlap.SERVICE), lookup=['ven', 'fingerprint'], outcomes=['ok', 'ok', 'ok', 'raise']), lambda c, i: overlap.run(c, i, pki()), 700, 7000)]
