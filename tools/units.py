#!/usr/bin/env python3
"""writes spec/units.json: unit name -> [[factor, unit, twice the power], ...]; a unit defined by itself is a base unit.
The table states what the units are; it is data of the specification and is not read from the code."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'units.json')
t = {}


def u(n, *d):
    t[n] = [[str(f), s, int(2 * p)] for f, s, p in d]


def alias(n, *names):
    for x in names:
        u(x, (1, n, 1))


def pre(base, **k):
    f = dict(n='1e-9', u='1e-6', m='1e-3', k='1e3', M='1e6', G='1e9', p='1e-12', c='1e-2')
    for p, x in k.items():
        u(x if isinstance(x, str) else p + base, (f[p], base, 1))


for b in 'g m s A mol cd radian sr eq'.split():
    u(b, (1, b, 1))
u('1', (1, '1', 1))
u('%%', ('1e-2', '1', 1)); u('percent', ('1e-2', '1', 1)); u('%%%%', ('1e-3', '1', 1)); u('permil', ('1e-3', '1', 1)); u('ppm', ('1e-6', '1', 1)); u('ppb', ('1e-9', '1', 1))
pre('g', k=1, m=1, u=1, n=1)
u('tonne', ('1e6', 'g', 1)); u('lb', ('453.59237', 'g', 1)); u('amu', ('1.660538921e-24', 'g', 1)); u('ton', ('2000', 'lb', 1))
alias('g', 'gram', 'grams'); alias('kg', 'kilogram', 'kilograms'); alias('lb', 'lbm')
pre('m', k=1, c=1, m=1, u=1, n=1)
u('Angstrom', ('1e-10', 'm', 1)); u('in', ('0.0254', 'm', 1)); u('mil', ('0.001', 'in', 1)); u('ft', ('0.3048', 'm', 1)); u('yd', ('0.9144', 'm', 1)); u('mi', ('1609.344', 'm', 1))
u('nauticalmile', ('1852', 'm', 1)); u('lightyear', ('9460730472580800', 'm', 1)); u('au', ('149597870700', 'm', 1))
alias('ft', 'feet', 'foot'); alias('in', 'inch', 'inches'); alias('m', 'meter', 'meters'); alias('mi', 'mile', 'miles'); alias('yd', 'yard', 'yards')
pre('s', m=1, u=1, n=1)
u('minute', (60, 's', 1)); u('hour', (3600, 's', 1)); u('day', (86400, 's', 1)); u('week', (604800, 's', 1)); u('month', ('30.43685', 'day', 1)); u('year', ('365.2422', 'day', 1))
alias('s', 'second', 'seconds'); alias('minute', 'minutes'); alias('hour', 'hours'); alias('day', 'days'); alias('week', 'weeks'); alias('month', 'months'); alias('year', 'years')
pre('A', M=1, k=1, m=1, u=1, n=1, p=1); alias('A', 'ampere', 'amperes')
pre('mol', m=1, u=1); alias('mol', 'mole', 'moles'); alias('cd', 'candela')
pre('radian', m=1, u=1); u('deg', ('0.01745329251994444', 'radian', 1)); alias('deg', 'degree', 'degrees'); alias('sr', 'steradian')
for n in 'm mm cm in ft'.split():
    for p in (2, 3):
        u('%s%d' % (n, p), (1, n, p)); u('%s^%d' % (n, p), (1, n, p))
u('hectare', ('1e4', 'm2', 1)); u('acre', ('4046.8726', 'm2', 1)); u('barn', ('1e-28', 'm2', 1)); alias('hectare', 'hectares'); alias('acre', 'acres'); alias('barn', 'barns')
for l in 'lL':
    u(l, ('1e-3', 'm3', 1)); pre(l, m=1, u=1)
u('gal', ('4.54609', 'l', 1)); u('quart', ('0.25', 'gal', 1)); u('cc', (1, 'cm3', 1)); alias('gal', 'gallon', 'gallons'); alias('l', 'liter', 'liters')
u('mps', (1, 'm', 1), (1, 's', -1)); u('cmps', (1, 'cm', 1), (1, 's', -1)); u('mph', (1, 'mi', 1), (1, 'hour', -1)); u('knot', (1852, 'm', 1), (1, 'hour', -1)); u('fps', (1, 'ft', 1), (1, 's', -1))
u('mpss', (1, 'm', 1), (1, 's', -2)); u('fpss', (1, 'ft', 1), (1, 's', -2)); u('gravity', ('9.80665', 'mpss', 1))
u('Hz', (1, 's', -1)); pre('Hz', k=1, M=1, G=1); u('rpm', (1, 'minute', -1)); alias('Hz', 'hertz')
u('gps', (1, 'gal', 1), (1, 's', -1)); u('gpm', (1, 'gal', 1), (1, 'minute', -1)); u('gph', (1, 'gal', 1), (1, 'hour', -1)); u('cfs', (1, 'ft3', 1), (1, 's', -1)); u('cfm', (1, 'ft3', 1), (1, 'minute', -1))
u('lps', (1, 'l', 1), (1, 's', -1)); u('lpm', (1, 'l', 1), (1, 'minute', -1))
u('N', (1000, 'g', 1), (1, 'm', 1), (1, 's', -2)); pre('N', k=1); u('lbf', ('4.44822162', 'N', 1)); u('dyne', ('1e-5', 'N', 1)); alias('dyne', 'dynes'); alias('N', 'newton', 'newtons')
u('Pa', (1, 'N', 1), (1, 'm', -2)); pre('Pa', k=1, M=1, G=1); u('atm', (101325, 'Pa', 1)); u('mmHg', ('133.32239', 'Pa', 1)); u('inHg', ('3386.3886', 'Pa', 1))
u('psi', (1, 'lbf', 1), (1, 'in', -2)); pre('psi', k=1, M=1); u('psf', (1, 'lbf', 1), (1, 'ft', -2)); u('bar', ('1e5', 'Pa', 1)); pre('bar', k=1); u('torr', ('133.322368', 'Pa', 1)); u('inH2O', ('249.08891', 'Pa', 1)); u('ftH2O', (12, 'inH2O', 1)); alias('Pa', 'pascal', 'pascals')
u('J', (1, 'N', 1), (1, 'm', 1)); pre('J', k=1, M=1); u('erg', ('1e-7', 'J', 1)); u('cal', ('4.184', 'J', 1)); pre('cal', k=1); u('eV', ('1.60217657e-19', 'J', 1)); pre('eV', k=1, M=1, G=1); u('btu', ('1055.05585', 'J', 1)); alias('cal', 'calorie', 'calories'); alias('J', 'joule', 'joules')
u('W', (1, 'J', 1), (1, 's', -1)); alias('W', 'watts')
u('C', (1, 'A', 1), (1, 's', 1)); pre('C', m=1); alias('C', 'coulomb', 'coulombs')
u('V', (1, 'J', 1), (1, 'C', -1)); pre('V', m=1); alias('V', 'volt', 'volts')
u('ohm', (1, 'V', 1), (1, 'A', -1)); alias('ohm', 'ohms'); u('S', (1, 'ohm', -1)); alias('S', 'siemens')
u('F', (1, 'C', 1), (1, 'V', -1)); pre('F', p=1, n=1, u=1, m=1); alias('F', 'farad', 'farads')
u('Wb', (1, 'V', 1), (1, 's', 1)); alias('Wb', 'weber', 'webers'); u('T', (1, 'Wb', 1), (1, 'm', -2)); u('gauss', ('1e-4', 'T', 1)); alias('T', 'tesla', 'teslas')
u('H', (1, 'Wb', 1), (1, 'A', -1)); pre('H', m=1, u=1); alias('H', 'henry')
u('molal', (1, 'mol', 1), (1, 'kg', -1)); pre('molal', m=1, u=1, n=1); u('molar', (1, 'mol', 1), (1, 'l', -1)); pre('molar', m=1, u=1, n=1); pre('eq', m=1, u=1, n=1)
for p in ('2', '3', '4', '5', '0.5', '1.5'):
    u('K^' + p, (1, 'K', float(p)))
for p in ('2', '3', '4', '5', '0.5'):
    u('bar^' + p, (1, 'bar', float(p)))
json.dump(t, open(OUT, 'w'), indent=0, sort_keys=True)
if __name__ == '__main__':
    print(len(t))
