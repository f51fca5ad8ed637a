"""C05: replay protection against a reference model, under a virtual clock."""
import base64
import functools
import hashlib
import itertools
from lxml import etree
from pbt import certs, clock, gen, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, fail

RULE = 'the history validates an accepted message again, or validates a message at the boundary of or after the five seconds, with another message validated in between'
ASSUMPTIONS = ['the clock does not run backwards', 'whether a message from the future is accepted is left open; it is accepted at most once']
DS, DSP, OADR = wire.NS['ds'], 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties', wire.NS['oadr']
WINDOW = 5000000
T0 = 1600000000 * 1000000


@functools.lru_cache(None)
def signer():
    from signxml import XMLSigner, methods
    s = XMLSigner(method=methods.detached, c14n_algorithm='http://www.w3.org/TR/2001/REC-xml-c14n-20010315')
    s.namespaces['oadr'] = OADR
    return s


def forge(poll_xml, stamp, nonce, pair=None):
    """Sign a message with the given timestamp text and nonce; None leaves them out."""
    root = etree.fromstring(poll_xml.encode())
    signed = root.find('{%s}oadrSignedObject' % OADR)
    rp = etree.Element('{%s}ReplayProtect' % DSP, nsmap={'dsp': DSP}, attrib={'Id': 'myid', 'Target': '#mytarget'})
    if stamp is not None:
        etree.SubElement(rp, '{%s}timestamp' % DSP).text = stamp
    if nonce is not None:
        etree.SubElement(rp, '{%s}nonce' % DSP).text = nonce
    tree = etree.fromstring(etree.tostring(signed))
    tree.set('{%s}Id' % OADR, 'oadrSignedObject')
    cert, key = pair or certs.generated(1)
    sig = signer().sign(tree, key=key, cert=cert, reference_uri='#oadrSignedObject', signature_properties=rp)
    out = etree.Element('{%s}oadrPayload' % OADR, nsmap={'oadr': OADR})
    out.append(sig)
    out.append(tree)
    return etree.tostring(out).decode('utf-8')


def variant(xml, how):
    """The same message in a different guise; 'tampered' is another message."""
    if how == 'plain':
        return xml
    root = etree.fromstring(xml.encode('utf-8'))
    sig = root.find('{%s}Signature' % DS)
    if how == 'white space':
        sig.tail = '\n   '
    elif how == 'comment':
        root.insert(0, etree.Comment('x'))
    elif how == 'tampered':
        for e in root.find('{%s}oadrSignedObject' % OADR).iter():
            if len(e) == 0:
                e.text = (e.text or '') + 'x'
    elif how == 'tampered nonce':
        e = sig.find('.//{%s}nonce' % DSP)
        if e is None:
            e = root.find('{%s}oadrSignedObject' % OADR)[0]
        e.text = (e.text or '') + 'x'
    elif how.startswith('extra comment'):      # not part of what was signed
        e = sig.find('.//{%s}%s' % (DSP, how.split()[-1]))
        if e is not None and e.text:
            c = etree.Comment('x')
            c.tail, e.text = e.text[1:], e.text[:1]
            e.append(c)
    else:       # a second ReplayProtect that nothing was signed over
        rp = etree.Element('{%s}ReplayProtect' % DSP, nsmap={'dsp': DSP})
        etree.SubElement(rp, '{%s}timestamp' % DSP).text = wire.ts(clock.Clock.now_us)
        etree.SubElement(rp, '{%s}nonce' % DSP).text = 'n%s' % how
        if how == 'extra in KeyInfo':
            sig.find('{%s}KeyInfo' % DS).insert(0, rp)
        else:
            obj = etree.Element('{%s}Object' % DS)
            obj.append(rp)
            sig.find('{%s}Object' % DS).addprevious(obj)
    return etree.tostring(root).decode('utf-8')


SERIAL = itertools.count()


@functools.lru_cache(None)
def mould(ven):
    return forge(wire.poll(ven), '2020-01-01T00:00:00Z', 'NONCE')


def quick_forge(ven, stamp, nonce):
    """What forge does, without its overhead: fill in the mould and compute the signature again."""
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import padding
    root = etree.fromstring(mould(ven).replace('2020-01-01T00:00:00Z', stamp).replace('NONCE', nonce).encode('utf-8'))
    sig = root[0]
    obj, info = sig.find('{%s}Object' % DS), sig.find('{%s}SignedInfo' % DS)
    info[3].find('{%s}DigestValue' % DS).text = base64.b64encode(hashlib.sha256(etree.tostring(obj, method='c14n')).digest()).decode()
    sig.find('{%s}SignatureValue' % DS).text = base64.b64encode(
        private(serialization).sign(etree.tostring(info, method='c14n'), padding.PKCS1v15(), hashes.SHA256())).decode()
    return etree.tostring(root).decode('utf-8')


@functools.lru_cache(None)
def private(serialization):
    key = certs.generated(1)[1]
    return serialization.load_pem_private_key(key if isinstance(key, bytes) else key.encode(), None)


def flood(case, info):
    """Many messages pass between the two times that a message is received."""
    from openleadr import messaging
    own, n, log = next(SERIAL), 0, []
    kept = []           # accepted earlier: (xml, stamp)

    def validate(xml):
        try:
            messaging.validate_xml_signature(etree.fromstring(xml.encode()))
            return None
        except Exception as e:
            return e

    with clock.virtual(T0) as c:
        for burst in case['bursts']:
            c.advance(us=burst['advance'])
            for i in range(burst['size']):
                if burst['spread']:
                    c.advance(us=burst['spread'])
                at = c.now_us - burst['age']
                n += 1
                nonce = 'f%d.%d' % (own, n)
                xml = quick_forge('v%d' % (n % 3), wire.ts(at), nonce)
                err = validate(xml)
                check(err is None, 'message %d, fresh, is rejected' % n, err, burst)
                if i == 0 or i == burst['size'] - 1 or i % 97 == 0:
                    kept.append((xml, at, n))
            for xml, at, k in kept:
                err = validate(xml)
                check(err is not None, 'message %d is accepted again after %d other messages' % (k, n - k), 'age %d us' % (c.now_us - at))
    info.nontrivial(n >= 100)
    info.tag('%s messages in between' % ('1000+' if n > 1000 else '300+' if n > 300 else '100+' if n > 100 else 'fewer'))


BURST = rec(size=st.sampled_from([1, 5, 20, 66, 130, 130, 260, 520, 1040]), advance=st.sampled_from([0, 0, 1000, 1000000, 4000000, 6000000]),
            spread=st.sampled_from([0, 0, 1, 1000, 4000]), age=st.sampled_from([0, 0, 1000000, 4999999]))
FLOOD = rec(bursts=st.lists(BURST, min_size=1, max_size=3))


def history(case, info):
    from openleadr import messaging
    if hasattr(getattr(messaging, 'NONCE_CACHE', None), 'clear'):
        messaging.NONCE_CACHE.clear()
    msgs, accepted, keys = [], set(), {}
    own = next(SERIAL)      # of all cases, none shares a nonce with another
    between, log = {}, []
    cert, key = certs.generated(0)
    with clock.virtual(T0) as c:
        for n, op in enumerate(case):
            kind = op['op']
            if kind == 'sign':
                msgs.append(dict(xml=messaging.create_message('oadrPoll', ven_id='v%s' % op['ven'], cert=cert, key=key), at=c.now_us))
                log.append('sign -> %d at %d' % (len(msgs) - 1, c.now_us - T0))
            elif kind == 'forge':
                at = c.now_us + op['shift']
                nonce = None if op['missing'] == 'nonce' else 'n%s.%d' % (op['nonce'], own)
                stamp = None if op['missing'] == 'timestamp' else wire.ts(at)
                if op['missing'] == 'malformed':
                    stamp = 'yesterday'
                k = (stamp, nonce)
                if k not in keys:
                    msgs.append(dict(xml=forge(wire.poll('v%s' % op['ven']), stamp, nonce), at=at if op['missing'] == 'none' else None))
                    keys[k] = len(msgs) - 1
                log.append('forge %r -> %d' % (k, keys[k]))
            elif kind == 'advance':
                c.advance(us=op['us'])
                log.append('advance %d us' % op['us'])
            elif kind == 'age' and msgs:
                at = msgs[op['i'] % len(msgs)]['at'] or 0
                c.advance(us=max(0, at + WINDOW + op['us'] - c.now_us))
                log.append('advance to %d' % (c.now_us - T0))
            elif kind == 'validate' and msgs:
                for i in [op['i'] % len(msgs)] if op['i'] >= 0 else range(len(msgs)):
                    m = msgs[i]
                    how = op['how']
                    xml = variant(m['xml'], how)
                    try:
                        tree = messaging.validate_xml_schema(xml) if op['schema'] and m['at'] is not None else etree.fromstring(xml.encode())
                        messaging.validate_xml_signature(tree)
                        ok, err = True, None
                    except Exception as e:
                        ok, err = False, e
                    log.append('validate %d (%s) at %d: %s' % (i, how, c.now_us - T0, 'accepted' if ok else 'rejected (%s)' % err))
                    if m['at'] is None:
                        check(not ok, 'a message without a proper timestamp and nonce is accepted', *log)
                        continue
                    age = c.now_us - m['at']
                    if how.startswith('tampered'):
                        check(not ok, 'a tampered message is accepted', *log)
                    elif i in accepted:
                        check(not ok, 'a message is accepted twice', *log)
                        info.nontrivial(between.get(i) != n)
                    elif age > WINDOW:
                        check(not ok, 'a message of %d us old is accepted' % age, *log)
                        info.nontrivial()
                    elif age >= 0 and not how.startswith('extra'):
                        check(ok, 'a fresh message is rejected', *log)
                        info.nontrivial(age == WINDOW)
                    if ok:
                        accepted.add(i)
                        info.tag('accepted at the boundary' if age == WINDOW else 'accepted from the future' if age < 0 else 'accepted')
                        between[i] = n + 1
                    else:
                        info.tag('rejected')
    info.tag('%s messages' % min(len(msgs), 6))


ADV = st.one_of(st.sampled_from([1, 1000000, 2500000, 4999999, 5000000, 5000001, 10000000, 500000]), st.integers(0, 6000000))
SHIFT = st.one_of(st.just(0), st.sampled_from([-5000000, -5000001, -4999999, -1000000, 1000000, 60000000, -3600000000]), st.integers(-6000000, 2000000))
VALIDATE = rec(op=st.just('validate'), i=st.integers(-4, 5), schema=st.booleans(), how=st.sampled_from(
    ['plain', 'plain', 'plain', 'plain', 'plain', 'white space', 'comment', 'tampered', 'tampered nonce', 'extra in KeyInfo', 'extra Object', 'extra comment in nonce', 'extra comment in timestamp']))
SIGN = rec(op=st.just('sign'), ven=st.integers(0, 2))
FORGE = rec(op=st.just('forge'), ven=st.integers(0, 2), shift=SHIFT, nonce=st.integers(0, 3),
            missing=st.sampled_from(['none', 'none', 'none', 'none', 'nonce', 'timestamp', 'malformed']))
AGE = rec(op=st.just('age'), i=st.integers(0, 5), us=st.sampled_from([0, 0, 1, -1, -1000000]))
CASE = st.tuples(st.lists(st.one_of(SIGN, FORGE), min_size=1, max_size=4),
                 gen.ops(VALIDATE, VALIDATE, VALIDATE, SIGN, FORGE, rec(op=st.just('advance'), us=ADV), AGE, max_size=20, min_size=6)).map(lambda x: x[0] + x[1])

SUITES = [Suite('history', CASE, history, 2400), Suite('flood', FLOOD, flood, 40)]
