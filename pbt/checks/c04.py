"""C04: signed messages verify exactly with the signer's fingerprint and unchanged."""
import base64
import copy
import re
from lxml import etree
from pbt import certs, clock, gen, messages, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, fail

RULE = 'the message was signed and then edited in a part that the signature covers, or checked against a fingerprint other than the signer\'s'
ASSUMPTIONS = ['edits change the canonical form of the signed parts, or the signature value or certificate', 'RSA keys of 1024 and 2048 bits']
DS, DSP, OADR = wire.NS['ds'], 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties', wire.NS['oadr']
OTHER_ID = '{%s}Id' % OADR
WHO = ['gen0', 'gen1', 'gen2', 'gen0', 'gen1', 'gen2', 'gen0', 'vtn', 'ven']


def pair(who):
    return certs.generated(int(who[3:])) if who.startswith('gen') else certs.dummy(who)


def sign(case):
    from openleadr.messaging import create_message
    t = messages.TYPES[case['type']]
    cert, key = pair(case['who'])
    kw = dict(t.kwargs(case['spec']), cert=cert, key=key)
    if case.get('passphrase') and not case['who'].startswith('gen'):
        kw['key'] = certs.encrypted(case['who'], case['passphrase'].encode())
        kw['passphrase'] = case['passphrase']
    elif case.get('text'):
        kw['cert'], kw['key'] = cert.decode(), key.decode()
    return create_message(t.name, **kw)


def outcome(xml, fp, schema):
    """None if the message is accepted, the exception otherwise."""
    from openleadr.messaging import validate_xml_signature, validate_xml_schema
    content = xml if isinstance(xml, bytes) else xml.encode('utf-8')
    try:
        tree = validate_xml_schema(content) if schema else etree.fromstring(content)
        if fp is None:
            validate_xml_signature(tree)
        else:
            validate_xml_signature(tree, cert_fingerprint=fp)
    except Exception as err:
        return err
    return None


def _clear():
    # cases reuse moments in any order; every case starts without remembered messages of other cases
    from openleadr import messaging
    cache = getattr(messaging, 'NONCE_CACHE', None)
    if hasattr(cache, 'clear'):
        cache.clear()


def intact(case, info):
    _clear()
    info.tag(case['type'], 'signed by ' + case['who'])
    with clock.virtual(case['now']) as c:
        fp = certs.fingerprint(pair(case['who'])[0])
        xml = sign(case)
        err = wire.schema_errors(xml)
        check(not err, 'a signed message is not schema-valid', err, xml)
        others = [certs.fingerprint(pair(w)[0]) for w in sorted(set(WHO)) if w != case['who']] + [fp[3:], fp[:-1], 'x']
        other = others[case['other'] % len(others)]
        if case['when'] == 'before':
            check(outcome(xml, other, True) is not None, 'accepted with the fingerprint %s instead of %s' % (other, fp), xml)
        c.advance(us=case['delay'])
        err = outcome(xml, fp if case['pinned'] else None, True)
        check(err is None, 'an intact message does not verify with the fingerprint of its signer: %r' % err, xml)
        if case['when'] != 'before':
            xml = sign(case)
            check(outcome(xml, other, True) is not None, 'accepted with the fingerprint %s instead of %s' % (other, fp), xml)
        info.nontrivial()


# ---- edits

def _text_edit(text, n):
    """Another text."""
    if not text:
        return 'x'
    i = n % len(text)
    c = 'x' if text[i] != 'x' else 'y'
    return [text[:i] + c + text[i + 1:], text + c, text[:i] + text[i + 1:], text + ' ', ' ' + text, text[:i] + c + text[i:]][n % 6]


def _b64_edit(text, n):
    raw = bytearray(base64.b64decode(text))
    raw[n % len(raw)] ^= 1 << (n // 7 % 8)
    return base64.b64encode(bytes(raw)).decode()


def edit_tree(root, edit, n):
    """Edit in place; returns a description, or None if there is nothing of this kind to edit."""
    signed = root.find('{%s}oadrSignedObject' % OADR)
    sig = root.find('{%s}Signature' % DS)
    els = [e for e in signed.iter() if isinstance(e.tag, str)]
    leaves = [e for e in els if len(e) == 0]
    if edit == 'text':
        e = leaves[n % len(leaves)]
        e.text = _text_edit(e.text, n // 3)
    elif edit == 'tail':
        e = els[n % len(els)]
        if e is signed:
            e.text = (e.text or '') + 'x'
        else:
            e.tail = (e.tail or '') + 'x'
    elif edit == 'remove':
        inner = els[1:]
        e = inner[n % len(inner)]
        e.getparent().remove(e)
    elif edit == 'duplicate':
        inner = els[1:]
        e = inner[n % len(inner)]
        e.addnext(copy.deepcopy(e))
    elif edit == 'swap':
        pairs = [(a, b) for a in els for b in [a.getnext()] if b is not None and a is not signed and
                 etree.tostring(a, with_tail=False) != etree.tostring(b, with_tail=False)]
        if not pairs:
            return None
        a, b = pairs[n % len(pairs)]
        b.addnext(a)
    elif edit == 'rename':
        e = els[1:][n % (len(els) - 1)]
        e.tag = e.tag + 'x'
    elif edit == 'attribute':
        e = els[n % len(els)]
        e.set('added', 'x')
    elif edit == 'attribute value':
        with_attr = [e for e in els if e.attrib and e is not signed]
        if not with_attr:
            return None
        e = with_attr[n % len(with_attr)]
        k = sorted(e.attrib)[0]
        e.set(k, e.get(k) + 'x')
    elif edit == 'identifier':
        signed.set(OTHER_ID, 'another')
    elif edit == 'timestamp':
        e = sig.find('.//{%s}timestamp' % DSP)
        at = wire.read_ts(e.text) + [1, 1000000, -1, 3600000000, -1000000][n % 5]
        e.text = wire.ts(at)
    elif edit == 'nonce':
        e = sig.find('.//{%s}nonce' % DSP)
        e.text = _text_edit(e.text, n)
    elif edit == 'remove replay protection':
        e = sig.find('.//{%s}%s' % (DSP, ['ReplayProtect', 'timestamp', 'nonce'][n % 3]))
        e.getparent().remove(e)
    elif edit == 'digest':
        es = sig.findall('.//{%s}DigestValue' % DS)
        e = es[n % len(es)]
        e.text = _b64_edit(e.text, n)
    elif edit == 'signature value':
        e = sig.find('{%s}SignatureValue' % DS)
        e.text = _b64_edit(e.text, n)
    elif edit == 'remove reference':
        es = sig.findall('.//{%s}Reference' % DS)
        es[n % 2].getparent().remove(es[n % 2])
    elif edit == 'certificate':
        e = sig.find('.//{%s}X509Certificate' % DS)
        own = base64.b64decode(''.join(e.text.split()))
        others = [c for c in (certs.der(pair(w)[0]) for w in sorted(set(WHO))) if c != own]
        e.text = base64.encodebytes(others[n % len(others)]).decode()
    elif edit == 'remove signature':
        root.remove(sig)
    elif edit == 'remove certificate':
        e = sig.find('.//{%s}%s' % (DS, ['X509Certificate', 'KeyInfo'][n % 2]))
        e.getparent().remove(e)
    elif edit == 'signed info':
        e = sig.find('{%s}SignedInfo' % DS)
        e[n % len(e)].set('Id', 'x')
    else:
        raise ValueError(edit)
    return edit


TREE_EDITS = ['text', 'text', 'tail', 'remove', 'duplicate', 'swap', 'rename', 'attribute', 'attribute value', 'identifier', 'timestamp',
              'nonce', 'remove replay protection', 'digest', 'signature value', 'remove reference', 'certificate', 'remove signature',
              'remove certificate', 'signed info']


def wrap(xml, n):
    """Move the signed element into the signature and put an edited one, that nothing was signed over, in its place."""
    sig = re.search(r'<ds:Signature .*?</ds:Signature>', xml, re.S).group(0)
    so = re.search(r'<oadr:oadrSignedObject.*</oadr:oadrSignedObject>', xml, re.S).group(0)
    xmlns = 'xmlns="" xmlns:ds="%s" xmlns:oadr="%s"' % (DS, OADR)
    part = lambda name, s: re.search(r'<ds:%s[ >].*</ds:%s>' % (name, name), s, re.S).group(0)
    info = part('SignedInfo', sig).replace('<ds:SignedInfo', '<ds:SignedInfo ' + xmlns, 1)
    value = re.search(r'<ds:SignatureValue>(.*)</ds:SignatureValue>', sig, re.S).group(1)
    keyinfo = part('KeyInfo', sig).replace('ds:', '')
    obj = part('Object', sig).replace('<ds:Object', '<ds:Object ' + xmlns, 1)
    hidden = so.replace('<oadr:oadrSignedObject', '<oadr:oadrSignedObject xmlns=""', 1)
    root = etree.fromstring(re.sub(r'\s?oadr:Id="oadrSignedObject"', ['', ' oadr:Id="another"'][n % 2], so, count=1))
    leaves = [e for e in root.iter() if isinstance(e.tag, str) and len(e) == 0]
    e = leaves[n // 2 % len(leaves)]
    e.text = _text_edit(e.text, n // 3)
    evil = etree.tostring(root).decode()
    return '<oadr:oadrPayload xmlns:oadr="%s"><Signature xmlns="%s">%s<SignatureValue>%s</SignatureValue>%s<Object>%s</Object>%s</Signature>%s</oadr:oadrPayload>' % (
        OADR, DS, info, value, keyinfo, hidden, obj, evil)


def canonical_parts(xml):
    root = etree.fromstring(xml.encode('utf-8') if isinstance(xml, str) else xml)
    return [etree.tostring(e, method='c14n') for e in root if isinstance(e.tag, str)]


def edited(case, info):
    _clear()
    with clock.virtual(case['now']) as c:
        fp = certs.fingerprint(pair(case['who'])[0])
        xml = sign(case)
        edit, n = case['edit'], case['n']
        if edit == 'wrap':
            bad = wrap(xml, n)
        elif edit == 'transplant':          # the signature of one message on another one
            other = sign(dict(case, **case['second']))
            a, b = (re.search(r'<oadr:oadrSignedObject.*</oadr:oadrSignedObject>', x, re.S).group(0) for x in (xml, other))
            if a == b:
                return
            bad = xml.replace(a, b)
        else:
            root = etree.fromstring(xml.encode('utf-8'))
            if edit_tree(root, edit, n) is None:
                return
            bad = etree.tostring(root)
        if canonical_parts(bad) == canonical_parts(xml):
            return
        info.tag(edit)
        info.nontrivial()
        c.advance(us=case['delay'])
        for schema in (False, True):
            for expected in (fp, None):
                err = outcome(bad, expected, schema)
                check(err is not None, 'a message is accepted after this edit: %s (%s)' % (edit, n), 'original: ' + xml, 'edited: %s' % (
                    bad if isinstance(bad, str) else bad.decode('utf-8')))
        if case['after']:
            err = outcome(xml, fp, True)
            check(err is None, 'the intact message is not accepted after the edited one: %r' % err, xml)


SMALL = ['oadrPoll', 'oadrRequestEvent', 'oadrResponse', 'oadrCreatedEvent', 'oadrCreatePartyRegistration', 'oadrUpdateReport']
base = dict(who=st.sampled_from(WHO), now=gen.us(gen.EPOCH_2020), delay=st.sampled_from([0, 1, 1000000, 4999999, 5000000]), passphrase=st.sampled_from([None, None, None, 'secret', 'wächter']),
            text=st.booleans())


def with_message(names=None, **kw):
    return st.tuples(messages.case(names), rec(**base, **kw)).map(lambda x: dict(x[0], **x[1]))


SUITES = [
    Suite('intact', with_message(pinned=st.booleans(), other=st.integers(0, 7), when=st.sampled_from(['before', 'after'])), intact, 1400),
    Suite('edited', with_message(edit=st.sampled_from(TREE_EDITS), n=st.integers(0, 10 ** 6), after=st.booleans()), edited, 1800),
    Suite('edited_small', with_message(SMALL, edit=st.sampled_from(TREE_EDITS), n=st.integers(0, 10 ** 6), after=st.booleans()), edited, 1400),
    Suite('wrapped', with_message(edit=st.sampled_from(['wrap', 'transplant']), n=st.integers(0, 10 ** 6), after=st.booleans(), second=messages.case(SMALL)), edited, 700),
]
