"""C27: certificate fingerprints are the OpenADR fingerprint."""
import base64
import contextlib
import functools
import io
import re
import sys
from pbt import certs, clock, env, gen, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = 'the certificate is not one of the repository, or is wrapped in another way than in the files of the repository'
ASSUMPTIONS = ['certificates are PEM without text around them, or a chain that begins with the certificate of the party itself']
OADR = re.compile(r'([0-9A-F]{2}:){9}[0-9A-F]{2}')


@functools.lru_cache(2000)
def pair(kind, n, serial, subject, domains):
    if kind.startswith('dummy'):
        return certs.dummy(kind[6:])
    return certs.make(subject, kind, n, serial, domains)


def get(c):
    return pair(c['kind'], c['n'], c['serial'], c['subject'], tuple('d%d.example.org' % i for i in range(c['domains'])))


def written(pem, how):
    """The same certificate in another layout."""
    b = base64.b64encode(certs.der(pem)).decode()
    w, eol, last = how
    lines = [b[i:i + w] for i in range(0, len(b), w)] if w else [b]
    return eol.join(['-----BEGIN CERTIFICATE-----'] + lines + ['-----END CERTIFICATE-----']) + last


def cli(path):
    from openleadr import fingerprint
    out, argv = io.StringIO(), sys.argv
    sys.argv = ['fingerprint', path]
    try:
        with contextlib.redirect_stdout(out):
            fingerprint.show_fingerprint()
    finally:
        sys.argv = argv
    return out.getvalue().strip()


def forms(case, info):
    from lxml import etree
    from openleadr import utils, messaging, OpenADRClient, OpenADRServer
    pem, key = get(case['cert'])
    want = certs.fingerprint(pem)
    check(OADR.fullmatch(want), 'HARNESS', want)
    text = written(pem, case['layout'])
    others = [get(c)[0].decode() for c in case['chain']]
    if others:
        text = text.rstrip('\r\n') + '\n' + ''.join(others)
        info.tag('chain')
    eq(utils.certificate_fingerprint(text), want, 'the fingerprint of a certificate as text')
    eq(utils.certificate_fingerprint(text.encode()), want, 'the fingerprint of a certificate as bytes')
    path = certs.scratch() + '/cert.pem'
    with open(path, 'w', newline='') as f:
        f.write(text)
    eq(cli(path), want, 'the fingerprint shown by the command line tool')
    if case['cert']['kind'].startswith(('rsa', 'dummy')):
        xml = messaging.create_message('oadrPoll', ven_id='ven', cert=text if case['str'] else text.encode(), key=key)
        tree = messaging.validate_xml_schema(xml.encode())
        eq(utils.certificate_fingerprint(utils.extract_pem_cert(tree)), want, 'the fingerprint of the certificate in a signed message')
        messaging.validate_xml_signature(tree, cert_fingerprint=want)
        node = tree.find('.//{http://www.w3.org/2000/09/xmldsig#}X509Certificate')
        b = ''.join(node.text.split())
        w = case['message_wrap']
        node.text = case['pad'][0] + case['message_eol'].join([b[i:i + w] for i in range(0, len(b), w)] if w else [b]) + case['pad'][1]
        tree = messaging.validate_xml_schema(etree.tostring(tree))
        eq(utils.certificate_fingerprint(utils.extract_pem_cert(tree)), want, 'the fingerprint of the certificate in a signed message, wrapped as %r' % node.text)
        info.tag('signed')
    kpath = certs.scratch() + '/key.pem'
    with open(kpath, 'wb') as f:
        f.write(key)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if case['party'] == 'ven':
            OpenADRClient(ven_name='v', vtn_url='http://localhost:1', cert=path, key=kpath)
        else:
            OpenADRServer(vtn_id='vtn', cert=path, key=kpath)
    eq(len(OADR.findall(out.getvalue())), 1, 'the number of fingerprints that the %s shows' % case['party'])
    eq(OADR.search(out.getvalue()).group(), want, 'the fingerprint that the %s shows' % case['party'])
    info.nontrivial(not case['cert']['kind'].startswith('dummy') or case['layout'][0] != 64 or others)
    info.tag(case['cert']['kind'])


@functools.lru_cache(None)
def authority():
    return certs.make('test CA', n=90, serial=1), None


@functools.lru_cache(None)
def server():
    return certs.make('localhost', n=91, serial=2, issuer=authority()[0])


@functools.lru_cache(400)
def issued(kind, n, serial, subject):
    return certs.make(subject, kind, n, serial, issuer=authority()[0])


async def connect(case, info):
    """The fingerprint as seen in TLS connections of various VENs, each with a message that is signed by the same or another one."""
    from openleadr import messaging
    ca, (scert, skey) = certs.as_file(authority()[0][0]), server()
    seen = []
    vens = [issued(c['kind'], c['n'], c['serial'], c['subject']) for c in case['vens']]
    known = {'ven%d' % i: certs.fingerprint(v[0]) for i, v in enumerate(vens)}

    def lookup(ven_id):
        return dict(ven_id=ven_id, fingerprint=known.get(ven_id), registration_id='reg')

    def register(info_):
        seen.append(info_)
        return False
    async with env.VTN(http_cert=certs.as_file(scert), http_key=certs.as_file(skey), http_ca_file=ca, ven_lookup=lookup) as vtn:
        vtn.server.add_handler('on_create_party_registration', register)
        for tls, signer, who, register_ in case['requests']:
            tls, signer, who = (x % len(vens) for x in (tls, signer, who))
            c = (certs.as_file(vens[tls][0]), certs.as_file(vens[tls][1]), ca)
            if register_:
                seen.clear()
                await vtn.ask('EiRegisterParty', wire.create_party_registration('name'), cert=c)
                eq([x.get('fingerprint') for x in seen], [known['ven%d' % tls]], 'the fingerprint of the TLS connection that the registration handler gets')
                continue
            kind = case['vens'][signer]['kind']
            if not kind.startswith('rsa'):
                continue
            xml = messaging.create_message('oadrPoll', ven_id='ven%d' % who, cert=vens[signer][0], key=vens[signer][1])
            r = await vtn.post('OadrPoll', xml, cert=c)
            ok = known['ven%d' % who] == known['ven%d' % tls] and known['ven%d' % signer] == known['ven%d' % who]
            eq(r.status == 200 and r.msg.text('ei:eiResponse/ei:responseCode') == '200', ok, 'the VTN accepts a poll of ven%d over the connection of ven%d, signed by ven%d' % (who, tls, signer))
            info.tag('accepted' if ok else 'rejected')
    info.nontrivial()


def tls(case, info):
    env.run(connect(case, info))


SUBJECT = st.one_of(gen.ident(), st.text('abc ,=+"\\', min_size=1, max_size=20))
CERT = rec(kind=st.sampled_from(['rsa1024'] * 6 + ['rsa2048', 'rsa2048', 'ec256', 'ec384', 'ec521', 'dummy_ven', 'dummy_vtn']), n=st.integers(0, 1), serial=st.integers(1, 2 ** 150),
           subject=SUBJECT, domains=st.integers(0, 4))
WRAP = st.one_of(st.sampled_from([0, 64, 76, 1, 4]), st.integers(1, 200))
LAYOUT = st.tuples(WRAP, st.sampled_from(['\n', '\n', '\r\n']), st.sampled_from(['', '\n', '\r\n', '\n\n', ' \n'])).map(list)
FORMS = rec(cert=CERT, layout=LAYOUT, chain=st.one_of(st.just([]), st.just([]), st.lists(CERT, min_size=1, max_size=2)), str=st.booleans(), message_wrap=WRAP,
            message_eol=st.sampled_from(['\n', ' \n', '\n    ', '\r\n', '\n\n', ' ']), pad=st.tuples(st.sampled_from(['', '\n', '\n  ', ' ']), st.sampled_from(['', '\n', '\n  ', ' ', '  \n'])).map(list),
            party=st.sampled_from(['ven', 'vtn']))
ID = st.integers(0, 2)
TLS = rec(vens=st.lists(rec(kind=st.sampled_from(['rsa2048', 'rsa2048', 'ec256', 'ec384']), n=st.integers(0, 2), serial=st.integers(3, 9), subject=st.sampled_from(['ven a', 'ven b', '漢 é'])), min_size=1, max_size=3),
          requests=st.lists(st.tuples(ID, ID, ID, st.booleans()).map(list), min_size=1, max_size=6))
SUITES = [Suite('forms', FORMS, forms, 1500, 15000), Suite('tls', TLS, tls, 150, 1500)]
