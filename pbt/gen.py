"""Shared Hypothesis strategies. They all produce plain JSON-able data."""
import copy
from hypothesis import strategies as st

S = st
SPECIAL = ['0', '1', '007', '-1', '00', '1.0', '1e5', '.5', '12345678901234567890', 'true', 'false', 'True', 'None',
           'null', 'nan', 'a b', 'x&y', '<a>', '"', "'", '{{ x }}', '{% raw %}', '{#', 'é', '漢字', '😀', ']]>', '&amp;',
           '&#65;', '<!-- -->', 'PT1H', '2020-01-01T00:00:00Z', 'id_1', 'ID-a', '-', '+5', '0x10', 'a\u00a0b', '%s', '\\n']
_chars = st.one_of(
    st.characters(min_codepoint=0x21, max_codepoint=0x7e),
    st.characters(min_codepoint=0xa1, max_codepoint=0xd7ff, blacklist_categories=('Cc', 'Cs', 'Zs', 'Zl', 'Zp', 'Cn')))


def _inner(t):
    return t


def text(max_size=12):
    """Free text: no line breaks, no surrounding white space, no run of spaces."""
    words = st.lists(st.text(_chars, min_size=1, max_size=max_size), min_size=1, max_size=3).map(' '.join)
    return st.one_of(st.sampled_from(SPECIAL), st.text(_chars, min_size=1, max_size=max_size), words,
                     st.integers(-10 ** 6, 10 ** 12).map(str))


def ident():
    """Identifiers."""
    return st.one_of(st.sampled_from(['ven', 'id1', 'a-b_c', 'x.y:z', 'ID', 'Ünit']), text(8))


SIMPLE_IDS = ['a', 'b', 'c', '7', '007', '7.0', 'true']


def few(*extra):
    return st.sampled_from(SIMPLE_IDS + list(extra))


EPOCH_2020 = 1577836800


def us(lo=0, hi=4102444800):
    """A moment in microseconds since the epoch; whole seconds are over-represented."""
    secs = st.one_of(st.integers(lo, hi), st.integers(max(lo, EPOCH_2020), min(hi, EPOCH_2020 + 10 ** 6)))
    frac = st.one_of(st.just(0), st.sampled_from([1, 999999, 500000, 100000, 1000, 10]), st.integers(0, 999999))
    return st.builds(lambda s, f: s * 1000000 + f, secs, frac)


def dur(lo=0, hi=10 * 86400):
    """A duration in whole seconds."""
    pool = [x for x in (0, 1, 59, 60, 61, 600, 3599, 3600, 3601, 86399, 86400, 86401, 90061, 172800, 7 * 86400)
            if lo <= x <= hi]
    return st.one_of(st.sampled_from(pool) if pool else st.integers(lo, hi), st.integers(lo, hi))


def number():
    """A payload value that is exact in float arithmetic."""
    return st.one_of(st.integers(-1000, 1000), st.integers(-10 ** 6, 10 ** 6).map(lambda x: x / 64),
                     st.sampled_from([0, 0.0, 1, -1, 1.5, 1e-3, 123456.789, 1e10, 2.5e-7]),
                     st.floats(allow_nan=False, allow_infinity=False, min_value=-1e12, max_value=1e12))


def maybe(s):
    return st.one_of(st.none(), s)


def context():
    """Market contexts are URIs."""
    return st.one_of(st.sampled_from(['http://market.context/a', 'oadr://unknown.context', 'urn:x:1', 'http://x/?a=1&b=2',
                                      'http://x/%20#f', '12', 'true']),
                     st.text('abcdefghij0123456789-._~', min_size=1, max_size=10).map(lambda s: 'http://' + s))


def optional(required, **opts):
    """A fixed dict in which the opts may be absent."""
    return st.fixed_dictionaries(required, optional=opts)


def rec(**kw):
    return st.fixed_dictionaries(kw)


def ops(*alternatives, max_size=20, min_size=1):
    return st.lists(st.one_of(*alternatives), min_size=min_size, max_size=max_size)


# ZoneInfo names, with whole-hour, half-hour and DST offsets
TZ = ['UTC', 'Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland', 'America/St_Johns']


def near(text, n, taken=()):
    """An identifier that is nearly `text`, but neither `text` nor one of `taken`."""
    options = [text + 'x', text[:-1], text[1:], text.swapcase(), 'x' + text, text[::-1], text[:1], text.replace(' ', ''), text + text, text + ' ' + text]
    options = [x for x in options if x and x == x.strip() and x != text and x not in taken]
    return options[n % len(options)] if options else text + ' no such id %d' % n


def cycle(items, n, change=None):
    """A list of n members, which repeats the given ones (with a change per copy)."""
    out = list(items)
    for k in range(len(out), n if items else 0):
        x = copy.deepcopy(items[k % len(items)])
        out.append(change(x, k) if change else x)
    return out


SIZES = st.sampled_from([9, 12, 17, 21, 33, 52, 65, 101, 129, 150])
