"""C38: nothing in a received message makes the VTN or VEN do more than process it."""
import ctypes
import json
import os
import resource
import socket
import tempfile
import threading
import time
from lxml import etree
from pbt import certs, clock, env, gen, messages, wire
from pbt.gen import st, rec
from pbt.checks.c07 import HOME, VTN_ID, World, seed_bodies
from pbt.runner import HarnessError, Suite, check, eq, fail

RULE = 'a message was sent that refers to a file or network resource, defines an entity that it uses, or carries template markup'
ASSUMPTIONS = ['messages of at most 300 kB', 'files and sockets are observed through inotify and a listening socket']
T0 = 1700000000 * 1000000
SECRET = 'S3CRET-7f1d9a4c'
_state = {}


class Traps:
    """A file with a secret and files with definitions, watched for being opened, and a port watched for connections."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='pbt-traps-')
        certs._dirs.setdefault('traps-%d' % os.getpid(), self.dir)
        self.secret = self.write('secret', SECRET)
        self.dtd = self.write('definitions.dtd', '<!ENTITY e "%s"><!ENTITY %% q "x">' % SECRET)
        self.xsd = self.write('schema.xsd', '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"/>')
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.fd = self.libc.inotify_init1(os.O_NONBLOCK)
        if self.fd < 0:
            raise HarnessError('no inotify')
        for f in (self.secret, self.dtd, self.xsd):
            if self.libc.inotify_add_watch(self.fd, f.encode(), 0x20 | 0x1) < 0:      # opened, read
                raise HarnessError('no inotify watch')
        self.hits = 0
        self.sock = socket.create_server(('127.0.0.1', 0))
        self.port = self.sock.getsockname()[1]
        threading.Thread(target=self.listen, daemon=True).start()

    def write(self, name, text):
        path = os.path.join(self.dir, name)
        with open(path, 'w') as f:
            f.write(text)
        return path

    def listen(self):
        while True:
            conn, _ = self.sock.accept()
            self.hits += 1
            conn.settimeout(0.5)
            try:
                conn.recv(2000)
                conn.sendall(b'HTTP/1.0 200 OK\r\ncontent-type: text/plain\r\n\r\n' + SECRET.encode())
            except OSError:
                pass
            conn.close()

    def url(self, kind, what='secret'):
        path = getattr(self, what)
        return {'file': 'file://' + path, 'path': path, 'http': 'http://127.0.0.1:%d/%s' % (self.port, what),
                'ftp': 'ftp://127.0.0.1:%d/%s' % (self.port, what)}[kind]

    def sprung(self):
        """What has been touched since the last time."""
        try:
            touched = bool(os.read(self.fd, 65536))
        except BlockingIOError:
            touched = False
        hits, self.hits = self.hits, 0
        return (['a file was opened'] if touched else []) + (['a connection was made'] if hits else [])


def traps():
    if _state.get('pid') != os.getpid():
        _state.update(pid=os.getpid(), traps=Traps())
    return _state['traps']


MARK = 'pLaCeHoLdEr'
SCHEMA_INSTANCE = 'http://www.w3.org/2001/XMLSchema-instance'


def attack(xml, op):
    """(the message with the attack, the plain message that a conforming parser would read it as, or None)."""
    t = traps()
    root = etree.fromstring(xml.encode('utf-8'))
    kind = op['kind']
    els = [e for e in root.iter() if isinstance(e.tag, str)]
    leaves = [e for e in els if len(e) == 0]
    leaf = leaves[op['at'] % len(leaves)]
    old = leaf.text or ''
    cut = op['cut'] % (len(old) + 1)
    drop = op['drop'] % (len(old) - cut + 1)
    value = op['value']
    if kind == 'template':
        leaf.text = op['markup'].replace('$secret', t.secret)
        body = etree.tostring(root).decode()
        return body, body
    if kind == 'schema location':
        names = {'schemaLocation': '%s %s' % (wire.NS['oadr'], t.url(op['scheme'], 'xsd')), 'noNamespaceSchemaLocation': t.url(op['scheme'], 'xsd')}
        for k, v in names.items():
            (root if op['cut'] % 2 else els[op['at'] % len(els)]).set('{%s}%s' % (SCHEMA_INSTANCE, k), v)
        return etree.tostring(root).decode(), None
    if kind == 'include':
        inc = etree.Element('{http://www.w3.org/2001/XInclude}include', href=t.url(op['scheme']), parse='text')
        leaf.append(inc)
        return etree.tostring(root).decode(), None
    if kind == 'stylesheet':
        return '<?xml-stylesheet type="text/xsl" href="%s"?>' % t.url(op['scheme']) + etree.tostring(root).decode(), None
    # with a document type declaration
    if op['place'] == 'attribute':
        holder = els[op['at'] % len(els)]
        if holder.attrib:
            k = sorted(holder.attrib)[0]
            old = holder.attrib[k]
            holder.set(k, old[:cut] + MARK + old[cut:])
        else:
            leaf.text = MARK
    elif op['place'] == 'inside':
        leaf.text = old[:cut] + MARK + old[cut + drop:]
        if op['same']:
            value = old[cut:cut + drop]
    elif op['place'] == 'whole':
        leaf.text = MARK
    body = etree.tostring(root).decode()
    esc = value.replace('&', '&#38;#38;').replace('<', '&#38;#60;').replace('"', '&#34;').replace('%', '&#37;')
    ref, plain = '&e;', None
    if kind == 'internal':
        dtd = '[<!ENTITY e "%s">]' % esc
        plain = body.replace(MARK, value.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;'))
    elif kind == 'external':
        dtd = '[<!ENTITY e %s "%s">]' % ('PUBLIC "-//x//y"' if op['public'] else 'SYSTEM', t.url(op['scheme']))
    elif kind == 'parameter':
        dtd = '[<!ENTITY %% p "<!ENTITY e \'%s\'>"> %%p;]' % esc.replace("'", '&#39;').replace('&#', '&#38;#')
    elif kind == 'external parameter':
        dtd = '[<!ENTITY %% p SYSTEM "%s"> %%p;]' % t.url(op['scheme'], 'dtd')
    elif kind == 'exfiltrate':
        dtd = '[<!ENTITY %% f SYSTEM "%s"><!ENTITY %% p "<!ENTITY &#37; s SYSTEM \'http://127.0.0.1:%d/x\'>"> %%f; %%p; %%s;]' % (t.url('file'), t.port)
        ref = ''
    elif kind == 'external subset':
        dtd = '%s "%s"%s' % ('PUBLIC "-//x//y"' if op['public'] else 'SYSTEM', t.url(op['scheme'], 'dtd'), ' [<!ENTITY x "y">]' if op['same'] else '')
    elif kind == 'bomb':
        n, w = 2 + op['cut'] % 12, 2 + op['drop'] % 25
        dtd = '[<!ENTITY e0 "%s">' % ('x' * 10) + ''.join('<!ENTITY e%d "%s">' % (i + 1, ('&e%d;' % i) * w) for i in range(n)) + ']'
        ref = '&e%d;' % n
    elif kind == 'big':
        dtd = '[<!ENTITY e "%s">]' % ('x' * 100000)
        ref = '&e;' * 20000
    elif kind == 'loop':
        dtd = '[<!ENTITY e "&f;"><!ENTITY f "&e;">]'
    elif kind == 'default attribute':
        dtd = '[<!ENTITY e "%s"><!ATTLIST %s xmlns:z CDATA "urn:z">]' % (esc, 'oadr:oadrPayload')
    elif kind == 'unparsed':
        dtd = '[<!NOTATION n SYSTEM "%s"><!ENTITY e SYSTEM "%s" NDATA n>]' % (t.url(op['scheme']), t.url(op['scheme']))
    else:
        dtd, ref, plain = ('[<!ENTITY e "%s">]' % esc, '', None)
    return '<!DOCTYPE oadr:oadrPayload %s>' % dtd + body.replace(MARK, ref), plain


def encoded(text, utf16):
    if utf16:
        return ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode('utf-16')
    return text.encode('utf-8')


def memory():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024


class Guard:
    """Around the processing of a message: nothing touched, and bounded effort."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        traps().sprung()
        self.mem, self.t = memory(), time.process_time()

    def __exit__(self, *exc):
        if exc[0]:
            return
        sprung = traps().sprung()
        check(not sprung, '; '.join(sprung) + ' because of a received message', self.what[:3000])
        check(memory() - self.mem < 400, 'a small message takes %d MB to process' % (memory() - self.mem), self.what[:3000])
        check(time.process_time() - self.t < 20, 'a small message takes %d seconds to process' % (time.process_time() - self.t), self.what[:3000])


def warm_up():
    """Known to be able to spring: the traps are armed."""
    t = traps()
    if not _state.get('armed'):
        open(t.secret).read()
        socket.create_connection(('127.0.0.1', t.port)).close()
        for _ in range(400):
            if t.hits:
                break
            time.sleep(0.01)
        if len(t.sprung()) != 2:
            raise HarnessError('the traps do not work')
        _state['armed'] = True


async def vtn(case, info):
    warm_up()
    w = World(case)
    with clock.virtual(T0):
        async with env.VTN(VTN_ID) as v:
            w.install(v.server)
            for op in case['ops']:
                xml = seed_bodies()[op['seed']]
                text, plain = attack(xml, op)
                body = encoded(text, op['utf16'])
                info.nontrivial(op['kind'] != 'unused')
                w.calls = []
                with Guard(text):
                    r = await v.post(HOME.get(op['seed'], 'EiEvent'), body)
                calls = w.calls
                info.tag(op['kind'], 'HTTP %d' % r.status)
                check(r.status in (200, 400), 'HTTP %s in reply' % r.status, text[:3000], repr(r))
                check(SECRET.encode() not in r.raw and SECRET not in repr(calls), 'local content got out', text[:3000], repr(r), calls)
                if r.status == 400:
                    check(not calls, 'a handler ran for a refused message', calls)
                elif plain is not None:
                    # Accepted: then what was handled is what the document says
                    w.calls = []
                    p = await v.post(HOME.get(op['seed'], 'EiEvent'), plain)
                    eq(r.status, p.status, 'the HTTP status for the message with its entities, compared to the same without\n%s' % text[:3000])
                    eq(calls, w.calls, 'what the handlers got from the message with its entities, compared to the same without\n%s' % text[:3000])
                    if op['kind'] == 'template' and r.raw:
                        echo = wire.Msg(r.raw)
                        ids = [e.text for e in echo.root.iter('{%s}requestID' % wire.NS['pyld'])]
                        sent = [e.text for e in wire.Msg(text).root.iter('{%s}requestID' % wire.NS['pyld'])]
                        check(not ids or not ids[0] or not sent or ids[0] == (sent[0] or '').strip(), 'the echoed request id differs', ids, sent)
            w.calls = []
            r = await v.ask('OadrPoll', wire.poll('other ven'))
            eq((r.type, r.msg.code, r.msg.text('ei:venID')), ('oadrResponse', 200, 'other ven'), 'the reply to a later poll')


async def ven(case, info):
    warm_up()
    got = []
    with clock.virtual(T0):
        async with env.FakeVTN() as fake:
            async with env.VEN(fake.url) as ven:
                async def on_event(event):
                    got.append(event)
                    return 'optIn'
                ven.client.add_handler('on_event', on_event)
                ven.client.add_handler('on_update_event', on_event)
                ven.client.add_report(lambda: 1.0, report_name='TELEMETRY_USAGE', report_specifier_id='s', resource_id='r', measurement='voltage',
                                      sampling_rate=clock.secs(10), r_id='p')
                await ven.start()
                fake.take()
                for n, op in enumerate(case['ops']):
                    u = T0 // 1000000 * 1000000
                    xml = {'event': lambda: wire.distribute_event([dict(event_id='e%d' % n, start=u, duration=60, signals=[dict(intervals=[(u, 60, 1)])], targets=[dict(ven_id='ven0')])], 'VTN'),
                           'response': lambda: wire.oadr_response('ven0', 'r'),
                           'reregistration': lambda: wire.request_reregistration('ven0')}[op['reply']]()
                    text, plain = attack(xml, op)
                    info.nontrivial(op['kind'] != 'unused')
                    info.tag(op['kind'])
                    del got[:]
                    with Guard(text):
                        fake.polls.append(dict(body=encoded(text, False)))
                        await ven.poll()
                        await env.settle()
                    sent = [etree.tostring(m.root).decode() for m in fake.take()]
                    check(SECRET not in repr(got) and SECRET not in repr(sent), 'local content got out', text[:3000], got, sent)
                    if got and plain is not None and op['reply'] == 'event':
                        want = wire.read_event(wire.Msg(plain).one('oadr:oadrEvent'))
                        d = got[-1]['event_descriptor']
                        eq((d['event_id'], d.get('market_context')), (want['event_id'].strip(), (want['market_context'] or '').strip() or None),
                           'what on_event got, compared to the document\n%s' % text[:3000])
                # Still working
                del got[:]
                fake.polls.append(wire.distribute_event([dict(event_id='last', start=u, duration=60, signals=[dict(intervals=[(u, 60, 1)])], targets=[dict(ven_id='ven0')])], 'VTN'))
                await ven.poll()
                await env.settle()
                eq([e['event_descriptor']['event_id'] for e in got], ['last'], 'the events of a later distribution')


def signed(case, info):
    """Someone without the key rewrites a signed message with entities: it may not come to mean anything else."""
    from openleadr import messaging, utils
    warm_up()
    if hasattr(getattr(messaging, 'NONCE_CACHE', None), 'clear'):
        messaging.NONCE_CACHE.clear()
    t = messages.TYPES[case['type']]
    cert, key = certs.dummy('vtn')
    with clock.virtual(T0):
        xml = messaging.create_message(t.name, cert=cert, key=key, **t.kwargs(case['spec']))
        want = messaging.parse_message(xml)
        text, _ = attack(xml, case['op'])
        info.nontrivial(True)
        info.tag(case['op']['kind'])
        with Guard(text):
            try:
                tree = messaging.validate_xml_schema(text)
                messaging.validate_xml_signature(tree, cert_fingerprint=utils.certificate_fingerprint(cert.decode()))
                got = messaging.parse_message(text)
            except Exception as err:
                info.tag('refused: ' + type(err).__name__)
                return
        info.tag('accepted')
        eq(got, want, 'the content of a signed message that was rewritten without the key\n%s' % text[:4000])


MARKUP = ['{{ 7 * 7 }}', '{% include "$secret" %}', "{{ ''.__class__.__mro__ }}", '{# x #}', '{{ self }}', '{% raw %}', '%(name)s %s %d', '{0.__class__}', '${7*7}', '$(cat $secret)', '`cat $secret`',
          '../../../..$secret', '!!python/object/apply:os.system ["cat $secret"]', '%n%n', '\\N{DIGIT ONE}']
KINDS = ['internal'] * 4 + ['external'] * 4 + ['parameter', 'external parameter', 'external parameter', 'exfiltrate', 'external subset', 'external subset', 'bomb', 'bomb', 'big', 'loop', 'default attribute',
                                               'unparsed', 'unused', 'schema location', 'schema location', 'include', 'stylesheet', 'template', 'template', 'template']
ATTACK = dict(kind=st.sampled_from(KINDS), at=st.integers(0, 200), cut=st.integers(0, 40), drop=st.integers(0, 40), value=st.one_of(gen.text(), st.sampled_from(['', 'x', '0', '99'])),
              place=st.sampled_from(['inside', 'inside', 'whole', 'attribute']), same=st.booleans(), public=st.booleans(), scheme=st.sampled_from(['file', 'path', 'http', 'ftp']),
              markup=st.sampled_from(MARKUP))
OP = rec(seed=st.sampled_from(sorted(seed_bodies())), utf16=st.sampled_from([False, False, False, True]), **ATTACK)
CASE = rec(mode=st.sampled_from(['custom', 'internal']), query=st.booleans(), ops=st.lists(OP, min_size=1, max_size=8), **{'async': st.booleans()})
VEN_CASE = rec(ops=st.lists(rec(reply=st.sampled_from(['event', 'event', 'event', 'response', 'reregistration']), **ATTACK), min_size=1, max_size=6))
ENTITY = rec(**dict(ATTACK, kind=st.sampled_from(['internal', 'internal', 'internal', 'parameter', 'external', 'external subset', 'default attribute', 'unused', 'template', 'schema location'])))
SIGNED = st.tuples(messages.case(), ENTITY).map(lambda x: dict(x[0], op=x[1]))

SUITES = [Suite('vtn', CASE, lambda c, i: env.run(vtn(c, i)), 900, 20000),
          Suite('ven', VEN_CASE, lambda c, i: env.run(ven(c, i)), 400, 9000),
          Suite('signed', SIGNED, signed, 800, 16000)]
