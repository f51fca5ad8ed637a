"""C03: durations and timestamps."""
import datetime as dt
import re
from zoneinfo import ZoneInfo
from pbt import clock, gen, wire
from pbt.gen import st, rec
from pbt.runner import Suite, check, eq, fail

RULE = ('durations: not zero and with at least two of days/hours/minutes/seconds, or negative; duration texts: at least two '
        'components, or invalid; timestamps: a fraction or an offset other than zero')

U = dict(Y=365 * 86400, M=30 * 86400, D=86400, W=7 * 86400, h=3600, m=60, s=1)
DUR_RE = re.compile(r'^(\+|-)?P(\d+W|(?=\d|T\d)(\d+Y)?(\d+M)?(\d+D)?(T(?=\d)(\d+H)?(\d+M)?(\d+S)?)?)$')


def format_duration(case, info):
    from openleadr import utils
    s = case['s']
    parts = [abs(s) // 86400, abs(s) // 3600 % 24, abs(s) // 60 % 60, abs(s) % 60]
    info.nontrivial(sum(1 for p in parts if p) > 1 or s < 0)
    text = utils.timedeltaformat(dt.timedelta(seconds=s))
    check(isinstance(text, str) and DUR_RE.match(text), 'not a valid duration', (s, text))
    eq(wire.read_dur(text), s, 'the duration text %r does not mean the duration' % text)
    eq(utils.parse_duration(text), dt.timedelta(seconds=s), 'format/parse round trip of %r' % text)
    eq(utils.parse_duration(dt.timedelta(seconds=s)), dt.timedelta(seconds=s), 'parsing a timedelta')


def parse_text(case, info):
    """A text built from components, the value of which we know."""
    from openleadr import utils
    sign, parts, want = case['sign'], case['parts'], 0
    text = sign + 'P'
    if 'w' in case['kind']:
        text += '%dW' % parts[0]
        want = parts[0] * U['W']
    else:
        for unit, n in zip('YMD', parts[:3]):
            if n is not None:
                text += '%d%s' % (n, unit)
                want += n * U[unit]
        if any(n is not None for n in parts[3:]):
            text += 'T'
            for unit, n in zip('hms', parts[3:]):
                if n is not None:
                    text += ('%0*d' % (case['pad'], n)) + unit.upper()
                    want += n * U[unit]
        if all(n is None for n in parts):
            text += 'T0S'
    info.nontrivial(sum(1 for p in parts if p) > 1)
    info.tag('weeks' if 'w' in case['kind'] else 'fields', 'signed' if sign else 'unsigned')
    if sign == '-':
        want = -want
    eq(utils.parse_duration(text), dt.timedelta(seconds=want), 'parsing %r' % text)


def reject_text(case, info):
    """Near-misses of the grammar. What is clearly not a duration must be rejected with ValueError."""
    from openleadr import utils
    text = case
    # The parser is documented to accept a superset ('P', 'PT', no T before the time): leave those out
    lenient = re.match(r'^(\+|-)?P?(\d+Y)?(\d+M)?(\d+D)?T?(\d+H)?(\d+M)?(\d+S)?$|^(\+|-)?P?\d+W$', text)
    if lenient:
        info.tag('lenient')
        return
    info.nontrivial(len(text) > 1 and 'P' in text)
    info.tag('rejected')
    try:
        got = utils.parse_duration(text)
    except ValueError:
        return
    fail('the text %r is not a duration but was parsed as %r' % (text, got))


def zone(z):
    return dt.timezone(dt.timedelta(minutes=z)) if isinstance(z, int) else ZoneInfo(z)


def timestamp(case, info):
    from openleadr import utils
    us = case['us']
    moment = clock.at(us).astimezone(zone(case['tz']))
    info.nontrivial(us % 1000000 or moment.utcoffset())
    with clock.timezone(case['local']):
        text = utils.datetimeformat(moment)
        check(isinstance(text, str) and re.match(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z$', text), 'not a UTC timestamp', text)
        eq(wire.read_ts(text), us, 'the timestamp %r is not the given moment' % text)
        got = utils.parse_datetime(text)
        check(isinstance(got, dt.datetime) and got.utcoffset() == dt.timedelta(0), 'not a UTC datetime', got)
        eq(clock.us(got), us, 'format/parse round trip of %r' % text)
        # The format without fractions
        text = utils.datetimeformat(moment, format=utils.DATETIME_FORMAT_NO_MICROSECONDS)
        eq(wire.read_ts(text), us // 1000000 * 1000000, 'the timestamp %r without fraction' % text)


def parse_timestamp(case, info):
    from openleadr import utils
    s, frac = case['s'], case['frac']
    text = clock.at(s * 1000000).strftime('%Y-%m-%dT%H:%M:%S') + ('.' + frac if frac else '') + 'Z'
    info.nontrivial(frac)
    info.tag('digits%d' % min(len(frac), 8))
    want = s * 1000000 + int((frac + '000000')[:6])
    with clock.timezone(case['local']):
        got = utils.parse_datetime(text)
    check(isinstance(got, dt.datetime), 'the timestamp %r was not parsed' % text, got)
    eq(clock.us(got), want, 'parsing %r' % text)
    eq(got.utcoffset(), dt.timedelta(0), 'timezone of %r' % text)


seconds = st.one_of(gen.dur(), gen.dur(0, 10 ** 9), gen.dur(0, 4 * 86400), st.integers(-10 ** 6, -1), st.sampled_from([-86400, -60, -86401]),
                    st.builds(lambda d, h, m, s: d * 86400 + h * 3600 + m * 60 + s, *[st.sampled_from([0, 0, 1, 5])] * 4))
comp = st.one_of(st.none(), st.none(), st.integers(0, 100), st.integers(0, 5), st.integers(0, 10 ** 5))
valid = rec(sign=st.sampled_from(['', '', '+', '-']), kind=st.sampled_from(['f', 'f', 'f', 'w']), pad=st.integers(1, 3),
            parts=st.lists(comp, min_size=6, max_size=6)).map(
    lambda c: dict(c, parts=[c['parts'][0] or 0] + c['parts'][1:]) if c['kind'] == 'w' else c)
near = st.one_of(
    st.text('PTYMWDHS0123456789+-. ', max_size=10),
    st.builds(lambda d, pre, post: pre + d + post, st.sampled_from(['PT1H', 'P1D', 'P1DT2H3M4S', 'PT5S', 'P2W', 'PT0S', '-PT1M']),
              st.sampled_from(['', ' ', 'x', 'P', '--', '1']), st.sampled_from(['', ' ', '\n', 'x', 'T', 'S', '1', '1D', '.5S', 'PT1H'])),
    st.sampled_from(['', ' ', 'PT1.5S', 'PT-5S', 'P1H', 'PT1D', 'PT1S1M', 'P1W2D', 'P1D1W', '1 hour', 'T1H', 'pt1h', 'PT1h', 'PP1D', 'P1DT1D',
                     'PTT1H', '+-PT1H', 'P１D']).filter(lambda s: '１' not in s))
tzs = st.one_of(st.sampled_from(gen.TZ), st.integers(-14 * 60, 14 * 60), st.just(0))

SUITES = [
    Suite('format_duration', rec(s=seconds), format_duration, 48000),
    Suite('parse_duration', valid, parse_text, 40000),
    Suite('reject_duration', near, reject_text, 24000),
    Suite('timestamp', rec(us=gen.us(-10 ** 9, 7 * 10 ** 9), tz=tzs, local=st.sampled_from(gen.TZ)), timestamp, 32000),
    Suite('parse_timestamp', rec(s=st.integers(-10 ** 9, 7 * 10 ** 9), frac=st.text('0123456789', max_size=9), local=st.sampled_from(gen.TZ)),
          parse_timestamp, 24000),
]
