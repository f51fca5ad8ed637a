"""C39: what a message means does not depend on how its XML is spelled."""
import re
from lxml import etree
from pbt import certs, clock, env, gen, messages, respell, wire
from pbt.gen import st, rec
from pbt.checks.c02 import with_signer
from pbt.checks.c07 import HOME, VTN_ID, World, seed_bodies
from pbt.runner import Suite, check, eq, fail

RULE = 'the message was written with at least three of the alternative spellings, or in another encoding than plain UTF-8'
ASSUMPTIONS = ['replies to a VEN are encoded in UTF-8 (or its subset US-ASCII), as OpenADR prescribes; the VTN is given other declared encodings as well',
               'no document type declaration']
T0 = 1700000000 * 1000000


def spell(xml, how, canonical=False):
    raw, used = respell.respell(xml, how['numbers'], how['features'], how['encoding'], canonical)
    try:
        err = wire.schema_errors(raw)
    except Exception as e:
        err = str(e)
    if err:
        from pbt.runner import HarnessError
        raise HarnessError('the respelled message is not valid: %s\n%s' % (err, raw))
    return raw, used


def garble(xml, how):
    """Texts that another encoding writes with bytes that happen to be UTF-8 as well."""
    return ''.join(ch if ch.isascii() else ch.encode('utf-8').decode('latin-1') for ch in xml) if how.get('garbled') else xml


def account(info, how, used):
    info.nontrivial(len(used) >= 3 or not how['encoding'].startswith('utf-8'))
    info.tag(how['encoding'], *sorted(used))


def parse(case, info):
    from openleadr.messaging import create_message, parse_message, validate_xml_schema
    t = messages.TYPES[case['type']]
    xml = garble(create_message(t.name, **t.kwargs(case['spec'])), case['how'])
    raw, used = spell(xml, case['how'])
    account(info, case['how'], used)
    validate_xml_schema(raw)
    eq(parse_message(raw), parse_message(xml), 'the parsed message, in another spelling\n%r' % raw)


def signed(case, info):
    from openleadr import messaging, utils
    if hasattr(getattr(messaging, 'NONCE_CACHE', None), 'clear'):
        messaging.NONCE_CACHE.clear()
    t = messages.TYPES[case['type']]
    cert, key = certs.dummy(case['signer'])
    with clock.virtual(T0):
        xml = messaging.create_message(t.name, cert=cert, key=key, **t.kwargs(case['spec']))
        raw, used = spell(xml, case['how'], canonical=True)
        account(info, case['how'], used)
        want = messaging.parse_message(xml)
        tree = messaging.validate_xml_schema(raw)
        try:
            messaging.validate_xml_signature(tree, cert_fingerprint=utils.certificate_fingerprint(cert.decode()))
        except Exception as err:
            fail('the signature does not verify in another spelling: %r' % err, raw)
        eq(messaging.parse_message(raw), want, 'the parsed message, in another spelling\n%r' % raw)


def values(case, info):
    from openleadr.messaging import create_message, parse_message, validate_xml_schema
    t = messages.TYPES[case['type']]
    xml = create_message(t.name, **t.kwargs(case['spec']))
    other, used = respell.revalue(xml, case['how']['numbers'])
    raw, spelled = spell(other, case['how'])
    info.nontrivial(used)
    info.tag(*used)
    validate_xml_schema(raw)
    eq(parse_message(raw), parse_message(xml), 'the parsed message, with its values in other forms\n%r' % raw)


VOLATILE = re.compile(r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')


def essence(raw):
    """The reply without what differs from one request to the next."""
    if not raw:
        return raw
    root = etree.fromstring(raw)
    for e in root.iter('{%s}ReplayProtect' % wire.NS['ds']):
        e.getparent().remove(e)
    return VOLATILE.sub('<uuid>', etree.tostring(root, method='c14n').decode())


def requests(case):
    for op in case['ops']:
        if op['seed']:
            yield seed_bodies()[op['seed']], HOME.get(op['seed'], 'EiEvent'), op
        else:
            from openleadr.messaging import create_message
            t = messages.TYPES[op['message']['type']]
            yield create_message(t.name, **t.kwargs(op['message']['spec'])), HOME.get(t.name, 'EiEvent'), op


async def vtn(case, info):
    w = World(case)
    with clock.virtual(T0):
        async with env.VTN(VTN_ID) as v:
            w.install(v.server)
            for xml, service, op in requests(case):
                xml = garble(xml, op['how'])
                raw, used = spell(xml, op['how'])
                account(info, op['how'], used)
                got = []
                for body in (xml, raw):
                    w.calls = []
                    r = await v.post(service, body)
                    got.append((r.status, essence(r.raw), w.calls))
                eq(got[1][0], got[0][0], 'the HTTP status in reply to another spelling of the same message\n%r' % raw)
                eq(got[1][2], got[0][2], 'the handler calls for another spelling of the same message\n%r' % raw)
                eq(got[1][1], got[0][1], 'the reply to another spelling of the same message\n%r' % raw)


async def one_ven(case, respelled, info):
    """Everything that can be seen of a VEN that gets these replies."""
    from openleadr.messaging import create_message
    seen = []
    with clock.virtual(T0):
        async with env.FakeVTN('ven id', 'reg 7') as fake:
            def wrap(xml, i=[0]):
                i[0] += 1
                how = case['how'][i[0] % len(case['how'])]
                if not respelled:
                    return xml
                raw, used = spell(xml, how)
                account(info, how, used)
                return raw.decode('utf-8')
            fake.wrap = wrap
            async with env.VEN(fake.url) as ven:
                async def on_event(event):
                    seen.append(('event', event))
                    return case['opt']
                ven.client.add_handler('on_event', on_event)
                ven.client.add_handler('on_update_event', on_event)
                for r in range(2):
                    ven.client.add_report(lambda: 1.5, report_name='TELEMETRY_USAGE', report_specifier_id='spec', resource_id='r%d' % r,
                                          measurement='voltage', sampling_rate=clock.secs(10), r_id='r%d' % r)
                await ven.start()
                seen.append((ven.client.ven_id, ven.client.registration_id))
                for m in case['polls']:
                    t = messages.TYPES[m['type']]
                    reply = create_message(t.name, **t.kwargs(m['spec']))
                    fake.polls.append(reply)
                    await ven.poll()
                await env.settle()
                seen.append(('jobs', sorted(str(j.trigger) for j in ven.report_jobs())))
                for m in fake.take():
                    seen.append((m.type, VOLATILE.sub('<uuid>', etree.tostring(m.root, method='c14n').decode())))
    return seen


async def ven(case, info):
    plain = await one_ven(case, False, info)
    other = await one_ven(case, True, info)
    eq(other, plain, 'what the VEN does with replies in another spelling')


def how(encodings):
    return rec(numbers=st.lists(st.integers(0, 300), min_size=5, max_size=30), features=st.lists(st.sampled_from(respell.FEATURES), min_size=3, max_size=11, unique=True),
               garbled=st.sampled_from([False, False, True]), encoding=st.sampled_from(encodings))


UTF8 = ['utf-8', 'utf-8', 'utf-8 no declaration', 'utf-8 bom', 'us-ascii']
ANY = how(respell.ENCODINGS)


def with_how(s, h=ANY):
    return st.tuples(s, h).map(lambda x: dict(x[0], how=x[1]))


TO_VTN = messages.case([t for t in messages.TYPES if t in HOME])
TO_VEN = messages.case(['oadrDistributeEvent', 'oadrCreateReport', 'oadrCancelReport', 'oadrResponse', 'oadrCancelPartyRegistration'])
OP = st.one_of(rec(seed=st.sampled_from(sorted(seed_bodies())), how=ANY), rec(seed=st.none(), message=TO_VTN, how=ANY), rec(seed=st.none(), message=TO_VTN, how=ANY))
VTN = rec(mode=st.sampled_from(['custom', 'internal']), query=st.booleans(), ops=st.lists(OP, min_size=1, max_size=6), **{'async': st.booleans()})
VEN = rec(opt=st.sampled_from(['optIn', 'optOut']), how=st.lists(how(UTF8), min_size=1, max_size=3), polls=st.lists(TO_VEN, min_size=1, max_size=4))

SUITES = [Suite('values', with_how(messages.case()), values, 2000, 40000),
          Suite('parse', with_how(messages.case()), parse, 3000, 60000),
          Suite('signed', with_how(with_signer(messages.case())), signed, 500, 10000),
          Suite('vtn', VTN, lambda c, i: env.run(vtn(c, i)), 700, 15000),
          Suite('ven', VEN, lambda c, i: env.run(ven(c, i)), 250, 6000)]
