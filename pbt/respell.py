"""Write the same XML information in other characters, driven by a list of generated numbers."""
from lxml import etree

XML = 'http://www.w3.org/XML/1998/namespace'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
PREFIXES = ['a', 'ns0', 'ei', 'oadr', 'x-ml', 'P.1', 'value', 'event', '_', 'Response']


class Choices:
    """A bounded source of decisions; when it runs dry every decision is the plainest one."""

    def __init__(self, numbers):
        self.numbers, self.i = numbers, 0

    def pick(self, n):
        if not self.numbers:
            return 0
        # Cycle, with a shift that differs on each pass
        k, i = divmod(self.i, len(self.numbers))
        self.i += 1
        return (self.numbers[i] + k) % n

    def one_in(self, n):
        return bool(self.numbers) and self.pick(n) == n - 1


ENCODINGS = ['utf-8', 'utf-8 no declaration', 'utf-8 bom', 'utf-16', 'us-ascii', 'iso-8859-1']


class Writer:
    def __init__(self, choices, canonical, features, encoding='utf-8'):
        self.c, self.canonical, self.f = choices, canonical, features
        self.ascii = not encoding.startswith('utf')
        self.used = set()

    def on(self, feature, n):
        if feature not in self.f or not self.c.one_in(n):
            return False
        self.used.add(feature)
        return True

    def char(self, ch, quote=''):
        if ch in '<&' or ch == quote or ch == '>':
            named = {'<': '&lt;', '&': '&amp;', '"': '&quot;', "'": '&apos;', '>': '&gt;'}[ch]
            return '&#%d;' % ord(ch) if self.on('charref', 3) else named
        if ch in '\n\t' and quote or ch == '\r':
            return '&#%d;' % ord(ch)
        if self.on('charref', 6):
            return ['&#%d;' % ord(ch), '&#x%x;' % ord(ch), '&#x%X;' % ord(ch), '&#%05d;' % ord(ch)][self.c.pick(4)]
        return ch

    def text(self, s, comments=True):
        out, i = [], 0
        while i < len(s):
            if comments and self.on('comment', 12):
                out.append(['<!---->', '<!-- > -->', '<!--</x>-->', '<!-- &x; ]]> -->'][self.c.pick(4)])
            if self.on('pi', 30):
                out.append('<?x y?>')
            if self.on('cdata', 5):
                n = 1 + self.c.pick(len(s) - i)
                part = s[i:i + n]
                if '\r' not in part and (part.isascii() or not self.ascii):
                    out.append('<![CDATA[%s]]>' % part.replace(']]>', ']]]]><![CDATA[>'))
                    i += n
                    continue
            out.append(self.char(s[i]))
            i += 1
        if s and comments and self.on('comment', 12):
            out.append('<!-- -->')
        return ''.join(out)

    def attribute(self, name, value):
        q = '\'' if self.on('quotes', 2) else '"'
        pad = ['', ' ', '\n '][self.c.pick(3)] if self.on('space in tags', 3) else ''
        return '%s%s=%s%s%s%s' % (name, pad, pad, q, ''.join(self.char(ch, q) for ch in value), q)

    def misc(self, top=False):
        out = ''
        if self.on('indent', 2 if not top else 4):
            out += ['\n  ', ' ', '\t', '\n\n', '\r\n'][self.c.pick(5)]
        if self.on('comment', 8):
            out += '<!-- <oadr:x> -->'
        if self.on('pi', 20):
            out += '<?target some="thing"?>'
        return out

    def prefix_for(self, uri, scope):
        """An in-scope prefix for the namespace, or a new one (and whether it has to be declared)."""
        have = [p for p, u in scope.items() if u == uri]
        if have and not self.on('prefixes', 6):
            return have[self.c.pick(len(have))] if 'prefixes' in self.f and self.c.numbers else have[0], False
        options = PREFIXES + ['']
        return options[self.c.pick(len(options))], True

    def element(self, e, scope):
        if self.canonical:
            own = {p or '': u for p, u in e.nsmap.items() if scope.get(p or '') != u}
            scope = dict(scope, **own)
            q = etree.QName(e)
            name = (e.prefix + ':' if e.prefix else '') + q.localname
            declare = own
            attrs = []
            for k, v in e.attrib.items():
                k = etree.QName(k)
                p = None
                if k.namespace:
                    p = 'xml' if k.namespace == XML else [p for p, u in e.nsmap.items() if u == k.namespace and p][0]
                attrs.append(((p + ':' if p else '') + k.localname, v))
        else:
            q = etree.QName(e)
            declare = {}
            p, new = self.prefix_for(q.namespace, scope)
            if new:
                declare[p] = q.namespace
            scope = dict(scope, **declare)
            name = (p + ':' if p else '') + q.localname
            attrs = []
            for k, v in e.attrib.items():
                k = etree.QName(k)
                if k.namespace == XML:
                    attrs.append(('xml:' + k.localname, v))
                elif k.namespace:
                    have = [p for p, u in scope.items() if u == k.namespace and p]
                    if not have:
                        ap = 'at%d' % len(scope)
                        declare[ap] = k.namespace
                        scope = dict(scope, **{ap: k.namespace})
                        have = [ap]
                    attrs.append((have[self.c.pick(len(have))] + ':' + k.localname, v))
                else:
                    attrs.append((k.localname, v))
            if self.on('unused namespaces', 10):
                u = 'unused%d' % self.c.pick(3)
                if u not in scope:
                    declare[u] = 'urn:unused:%d' % self.c.pick(2)
                    scope = dict(scope, **{u: declare[u]})
            if self.on('schema locations', 8):
                xsi = [p for p, u in scope.items() if u == XSI]
                if not xsi:
                    declare['xsi'] = XSI
                    scope = dict(scope, xsi=XSI)
                    xsi = ['xsi']
                attrs.append((xsi[0] + ':schemaLocation', 'http://openadr.org/oadr-2.0b/2012/07 oadr_20b.xsd'))
                if self.c.one_in(3):
                    attrs.append((xsi[0] + ':noNamespaceSchemaLocation', 'x.xsd'))
        parts = [('xmlns:' + p if p else 'xmlns', u) for p, u in declare.items()] + attrs
        if self.on('attribute order', 2):
            parts = parts[::-1]
        sep = ['\n   ', '  ', '\t'][self.c.pick(3)] if self.on('space in tags', 3) else ' '
        head = name + ''.join(sep + self.attribute(k, v) for k, v in parts)
        tail = ' ' if self.on('space in tags', 4) else ''
        kids = [c for c in e if isinstance(c.tag, str)]
        content = ''
        if kids:
            space = not self.canonical          # white space between elements is part of what was signed
            for c in kids:
                content += self.misc() if space else ('<!-- x -->' if self.on('comment', 8) else '')
                if self.canonical:
                    content += self.text(c.getprevious().tail or '' if c.getprevious() is not None else e.text or '')
                content += self.element(c, scope)
            content += self.misc() if space else self.text(kids[-1].tail or '')
        else:
            # xmldsig readers take the base64 texts of a signature from a single text node
            content = self.text(e.text or '', not (self.canonical and 'xmldsig' in (q.namespace or '')))
        if not content and not self.on('long empty tags', 2):
            return '<%s%s/>' % (head, tail)
        return '<%s%s>%s</%s%s>' % (head, tail, content, name, tail)


FEATURES = ['charref', 'comment', 'pi', 'cdata', 'quotes', 'space in tags', 'indent', 'prefixes', 'unused namespaces', 'attribute order', 'schema locations', 'long empty tags']


def respell(xml, numbers, features, encoding='utf-8', canonical=False):
    """(bytes, features used). With canonical, only what does not change the canonical form of the document."""
    if isinstance(xml, str):
        xml = xml.encode('utf-8')
    root = etree.fromstring(xml)
    if canonical:
        features = [f for f in features if f not in ('pi', 'indent', 'prefixes', 'unused namespaces', 'schema locations')]
    w = Writer(Choices(numbers), canonical, features, encoding)
    before = w.misc(top=True)
    body = before + w.element(root, {}) + w.misc(top=True)
    name = encoding.split()[0]
    declared = encoding not in ('utf-8 no declaration',)
    if declared:
        q = "'" if w.on('quotes', 2) else '"'
        body = '<?xml version=%s1.0%s encoding=%s%s%s%s?>' % (q, q, q, name.upper() if w.c.one_in(2) else name, q,
                                                            ' standalone=%sno%s ' % (q, q) if w.on('quotes', 4) else '') + body
    else:
        body = body.lstrip()
    raw = body.encode(name, 'strict' if name.startswith('utf') else 'xmlcharrefreplace')
    if encoding == 'utf-8 bom':
        raw = b'\xef\xbb\xbf' + raw
    return raw, w.used


# ---- other lexical forms of the same values, by the types that the schema gives to the elements

BOOLEANS = ('oadrReportOnly', 'oadrXmlSignature', 'oadrHttpPullModel', 'oadrOnChange', 'reportToFollow', 'ac')
UNSIGNED = ('modificationNumber', 'priority', 'replyLimit', 'confidence')
FLOATS = ('value', 'pulseFactor', 'accuracy')
DECIMALS = ('hertz', 'voltage')
DURATIONS = ('duration', 'oadrMinPeriod', 'oadrMaxPeriod', 'startafter')
TIMES = ('date-time', 'createdDateTime', 'modificationDateTime')


def other_forms(kind, text):
    from decimal import Decimal
    import re
    if kind == 'boolean':
        one = text.strip() in ('true', '1')
        return ['1', ' 1 ', 'true', '\ntrue'] if one else ['0', '0\n', 'false', ' false ']
    if kind == 'unsigned':
        n = int(text)
        return ['00%d' % n, ' %d ' % n, '%d' % n, '0%d\n' % n]
    if kind in ('float', 'decimal'):
        try:
            d = Decimal(text.strip())
        except ArithmeticError:
            return [text]
        if not d.is_finite():
            return [text]
        plain = format(d, 'f')
        sign, digits = ('-', plain[1:]) if plain.startswith('-') else ('', plain)
        out = [plain, sign + '0' + digits, ' ' + plain]
        out.append(plain + ('0' if '.' in plain else '.'))
        out.append(plain + ('00' if '.' in plain else '.0'))
        if not sign:
            out.append('+' + plain)
        if digits.startswith('0.') and len(digits) > 2:
            out.append(sign + digits[1:])
        if kind == 'float':
            out += ['%E' % d if Decimal('%E' % d) == d else plain, format(d, 'E'), format(d, 'e').replace('e+', 'e'), plain.rstrip('.') + 'E0', plain + 'e+00']
        return out
    if kind == 'duration':
        m = re.fullmatch(r'(-?)P(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?', text)
        if not m:
            return [text]
        sign = m.group(1)
        d, h, mi, s = (int(x or 0) for x in m.groups()[1:])
        total = ((d * 24 + h) * 60 + mi) * 60 + s
        out = [text, '%sPT%dS' % (sign, total), '%sP0DT0H0M%dS' % (sign, total), '%sPT0%dM%dS' % (sign, total // 60, total % 60), '%sPT%dH%dM%dS' % (sign, total // 3600, total // 60 % 60, total % 60),
               '%sP%dDT%dS' % (sign, total // 86400, total % 86400), '%sP0Y0M%dDT%dS' % (sign, total // 86400, total % 86400)]
        if not sign:
            out.append('+' + text)
            if total % (7 * 86400) == 0:
                out.append('%dW' % (total // (7 * 86400)))
        return out
    m = re.fullmatch(r'(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(\.\d+)?Z', text)
    if not m:
        return [text]
    base, frac = m.group(1), (m.group(2) or '.')[1:]
    short = frac.rstrip('0')
    return [text] + ['%s.%sZ' % (base, short + '0' * n) for n in (0, 1, 3) if short + '0' * n] + ['%s.%sZ' % (base, short.ljust(9, '0'))] + \
        (['%sZ' % base] if not short else [])


def revalue(xml, numbers):
    """(xml, kinds changed): the same values in other lexical forms."""
    root = etree.fromstring(xml.encode('utf-8') if isinstance(xml, str) else xml)
    c, used = Choices(numbers), set()
    for e in root.iter():
        if not isinstance(e.tag, str) or len(e) or not e.text or 'xmldsig' in e.tag:
            continue
        name = etree.QName(e).localname
        for kind, names in (('boolean', BOOLEANS), ('unsigned', UNSIGNED), ('float', FLOATS), ('decimal', DECIMALS), ('duration', DURATIONS), ('time', TIMES)):
            if name in names:
                forms = other_forms(kind, e.text)
                new = forms[c.pick(len(forms))]
                if new != e.text:
                    used.add(kind)
                e.text = new
    return etree.tostring(root, encoding='unicode'), used
