"""The measurements of OpenADR 2.0b, written down independently of the code under test (from oadr_20b.xsd)."""
from pbt import gen
from pbt.gen import st, rec

CURRENCY = ['USD', 'EUR', 'AFN', 'CHF', 'GBP']
# name -> (namespace prefix, description, units)
TABLE = {
    'currency': ('oadr', 'currency', CURRENCY),
    'currencyPerKW': ('oadr', 'currencyPerKW', CURRENCY),
    'currencyPerKWh': ('oadr', 'currencyPerKWh', CURRENCY),
    'currencyPerThm': ('oadr', 'currency', CURRENCY),
    'current': ('oadr', 'Current', ['A']),
    'energyApparent': ('power', 'ApparentEnergy', ['VAh']),
    'energyReactive': ('power', 'ReactiveEnergy', ['VARh']),
    'energyReal': ('power', 'RealEnergy', ['Wh']),
    'frequency': ('oadr', 'Frequency', ['Hz']),
    'powerApparent': ('power', 'ApparentPower', ['VA']),
    'powerReactive': ('power', 'ReactivePower', ['VAR']),
    'powerReal': ('power', 'RealPower', ['W']),
    'pulseCount': ('oadr', 'pulse count', ['count']),
    'temperature': ('oadr', 'temperature', ['celsius', 'fahrenheit']),
    'Therm': ('oadr', 'Therm', ['thm']),
    'voltage': ('power', 'Voltage', ['V']),
}
SCALES = ['p', 'n', 'micro', 'm', 'c', 'd', 'k', 'M', 'G', 'T', 'none']
POWER = ['powerApparent', 'powerReactive', 'powerReal']

# the predefined measurements (openleadr.enums.MEASUREMENTS)
PREDEFINED = {
    'VOLTAGE': 'voltage', 'CURRENT': 'current', 'ENERGY_REAL': 'energyReal', 'REAL_ENERGY': 'energyReal', 'ACTIVE_ENERGY': 'energyReal',
    'ENERGY_REACTIVE': 'energyReactive', 'REACTIVE_ENERGY': 'energyReactive', 'ENERGY_APPARENT': 'energyApparent', 'APPARENT_ENERGY': 'energyApparent',
    'ACTIVE_POWER': 'powerReal', 'REAL_POWER': 'powerReal', 'POWER_REAL': 'powerReal', 'REACTIVE_POWER': 'powerReactive', 'POWER_REACTIVE': 'powerReactive',
    'APPARENT_POWER': 'powerApparent', 'POWER_APPARENT': 'powerApparent', 'FREQUENCY': 'frequency', 'PULSE_COUNT': 'pulseCount', 'TEMPERATURE': 'temperature',
    'THERM': 'Therm', 'CURRENCY': 'currency', 'CURRENCY_PER_KW': 'currencyPerKW', 'CURRENCY_PER_KWH': 'currencyPerKWh', 'CURRENCY_PER_THM': 'currencyPerThm'}


def all_currencies():
    """The currency codes of the OpenADR schema."""
    import glob
    import os
    import re
    f = glob.glob(os.path.join(os.path.dirname(__file__), 'schema', '*ISO3AlphaCurrencyCode*'))[0]
    return re.findall('enumeration value="([A-Z]{3})"', open(f, encoding='utf-8').read())


def spec():
    """A valid measurement: name, description, unit, scale or pulse_factor, power [hertz, voltage, ac]."""
    def make(name, i, scale, factor, power, text, unit):
        ns, desc, units = TABLE.get(name, ('oadr', text, [unit]))
        m = dict(name=name, ns=ns, description=desc, unit=units[i % len(units)])
        if name == 'pulseCount':
            m['pulse_factor'] = factor
        else:
            m['scale'] = scale
        if name in POWER:
            m['power'] = power
        return m
    return st.builds(make, st.sampled_from(sorted(TABLE) + ['customUnit'] + POWER), st.integers(0, 4), st.sampled_from(SCALES),
                     st.integers(1, 5000), st.tuples(st.sampled_from([50, 60, 400]), st.sampled_from([110, 230, 400]), st.booleans()).map(list),
                     gen.text(), gen.text())


def as_dict(m):
    d = {k: m[k] for k in ('name', 'description', 'unit', 'scale', 'pulse_factor') if k in m}
    if 'power' in m:
        d['power_attributes'] = dict(zip(('hertz', 'voltage', 'ac'), m['power']))
    return d


def as_object(m):
    from openleadr import objects
    d = as_dict(m)
    if 'power_attributes' in d:
        d['power_attributes'] = objects.PowerAttributes(**d['power_attributes'])
    return objects.Measurement(**d)


def from_dict(d):
    """The spec form of a parsed measurement (or of a dict/dataclass given to a handler)."""
    from dataclasses import is_dataclass, asdict
    d = asdict(d) if is_dataclass(d) else d
    m = {k: d[k] for k in ('name', 'description', 'unit', 'scale', 'pulse_factor') if d.get(k) is not None}
    if d.get('power_attributes') is not None:
        p = d['power_attributes']
        m['power'] = [p['hertz'], p['voltage'], p['ac']]
    return m


def plain(m):
    return None if m is None else {k: v for k, v in m.items() if k != 'ns'}


def read(node):
    """The measurement among the children of a report description or event signal (a wire.Node)."""
    for c in node.children():
        if c.tag in TABLE or c.tag == 'customUnit':
            ns = TABLE.get(c.tag, ('oadr',))[0]
            m = dict(name=c.tag, description=c.text(ns + ':itemDescription'), unit=c.text(ns + ':itemUnits'))
            if c.text('oadr:pulseFactor') is not None:
                m['pulse_factor'] = int(c.text('oadr:pulseFactor'))
            if c.text('scale:siScaleCode') is not None:
                m['scale'] = c.text('scale:siScaleCode')
            p = c.one('power:powerAttributes')
            if p is not None:
                m['power'] = [int(float(p.text('power:hertz'))), int(float(p.text('power:voltage'))), p.text('power:ac') == 'true']
            return m
    return None
