"""C02: created messages are schema-valid and carry every value in its element."""
from pbt import messages, wire
from pbt.gen import st
from pbt.checks.c01 import interesting
from pbt.runner import Suite, check, eq, fail

RULE = ('the specification holds a text that could be taken for a number, boolean or markup, or a list with more than one member, or an '
        'absent optional member')
ASSUMPTIONS = ['texts without line breaks or surrounding white space, durations in whole seconds']
CERT = '/repo/certificates/dummy_%s.crt'
_files = {}


def pem(which):
    if which not in _files:
        _files[which] = tuple(open('/repo/certificates/dummy_%s.%s' % (which, ext), 'rb').read() for ext in ('crt', 'key'))
    return _files[which]


def valid(case, info):
    from openleadr.messaging import create_message, validate_xml_schema
    t = messages.TYPES[case['type']]
    spec = case['spec']
    info.tag(case['type'], spec['how'])
    info.nontrivial(interesting({k: v for k, v in spec.items() if k != 'how'}))
    kw = t.kwargs(spec)
    if case.get('signer'):
        kw['cert'], kw['key'] = pem(case['signer'])
        info.tag('signed')
    xml = create_message(t.name, **kw)
    check(isinstance(xml, str), 'not a text', xml)
    err = wire.schema_errors(xml)
    if err:
        fail('%s is not schema-valid: %s' % (t.name, err), xml)
    msg = wire.Msg(xml)
    eq(msg.type, t.name, 'the message type')
    signed = msg.root.find('{%s}Signature' % wire.NS['ds']) is not None
    eq(signed, bool(case.get('signer')), 'whether the message holds a signature')
    eq(t.read(msg), t.want(spec), 'the elements of %s do not carry the given values\n%s' % (t.name, xml))
    validate_xml_schema(xml)


def with_signer(s):
    return st.tuples(s, st.sampled_from(['vtn', 'ven'])).map(lambda x: dict(x[0], signer=x[1]))


SUITES = [Suite('unsigned', messages.case(), valid, 5000),
          Suite('events', messages.case(['oadrDistributeEvent']), valid, 800),
          Suite('reports', messages.case(['oadrRegisterReport', 'oadrUpdateReport', 'oadrCreateReport', 'oadrRegisteredReport']), valid, 1600),
          Suite('signed', with_signer(messages.case()), valid, 1200),
          Suite('volume', messages.volume(), valid, 100, 1000), Suite('signed volume', with_signer(messages.volume()), valid, 40, 400)]
