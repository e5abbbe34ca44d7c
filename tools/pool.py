#!/usr/bin/env python3
"""Writes spec/pool.json: the records used by the engine, store and batch specifications.  Numbers are written as "@x" so that
TLC and the driver see the same decimal text.  Base records are taken from the databases ThermoFun distributes; the variants
(suffix .2, .3, ...) have other values, methods or definitions under the same symbol."""
import copy, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DB = {n: json.load(open('/repo/Resources/databases/%s-thermofun.json' % n), parse_float=str, parse_int=str) for n in ('aq17', 'cemdata18', 'mines16', 'heracles', 'slop98', 'psinagra-12-07')}
NAMES = {0: "cp_ft_equation", 2: "solute_hkf88_gems", 3: "solute_hkf88_reaktoro", 4: "solute_aknifiev_diamond03", 5: "landau_holland_powell98", 8: "fug_critical_param", 9: "fluid_prsv",
         10: "fluid_churakov_gottschalk", 11: "fluid_soave_redlich_kwong", 12: "fluid_sterner_pitzer", 13: "fluid_peng_robinson78", 14: "fluid_comp_redlich_kwong_hp91",
         25: "water_diel_jnort91_reaktoro", 26: "water_diel_jnort91_gems", 27: "water_diel_sverj14", 28: "water_diel_fern97", 29: "water_eos_hgk84_lvs83_gems",
         31: "water_eos_hgk84_reaktoro", 32: "water_eos_iapws95_reaktoro", 33: "water_pvt_zhang_duan05", 34: "mv_constant", 36: "mv_equation_berman88", 37: "mv_eos_birch_murnaghan_gott97",
         38: "mv_eos_murnaghan_hp98", 40: "mv_pvnrt", 43: "standard_entropy_cp_integration"}
RN = {0: "logk_fpt_function", 3: "logk_nordstrom_munoz88", 4: "logk_1_term_extrap0", 5: "logk_1_term_extrap1", 6: "logk_2_term_extrap", 7: "logk_3_term_extrap", 9: "logk_marshall_frank78",
      10: "solute_eos_ryzhenko_gems", 11: "dr_heat_capacity_ft", 12: "dr_volume_fpt", 13: "dr_volume_constant", 14: "logk_dolejs_manning10"}


def lit(x):
    if isinstance(x, dict):
        return {k: lit(v) for k, v in x.items() if k not in ('datasources', 'name', 'names', 'range') or (k == 'name' and False)}
    if isinstance(x, list):
        return [lit(v) for v in x]
    if isinstance(x, bool) or x is None:
        return '@null' if x is None else '@true' if x else '@false'
    if isinstance(x, (int, float)):
        return '@' + repr(x)
    try:
        float(x)
        return '@' + x
    except ValueError:
        return x


pool = {}


def find(db, kind, sym):
    r = [x for x in DB[db][kind] if x['symbol'] == sym]
    assert r, (db, kind, sym)
    return lit(r[0])


def method(r, *keys, names=NAMES, **extra):
    r['TPMethods'] = [{'method': {str(k): names[k]}} for k in keys]
    for k, v in extra.items():
        i = int(k[1:k.index('_')])
        r['TPMethods'][i][k[k.index('_') + 1:]] = v
    return r


def put(id, r, name=None):
    r = copy.deepcopy(r)
    r['name'] = name or id
    r['_label'] = {'el': 'element', 'su': 'substance', 're': 'reaction'}[id[:2]]
    pool[id] = r
    return copy.deepcopy(r)


def val(r, f, x, unit=None):
    r[f] = {'values': ['@%s' % x]}
    if unit:
        r[f]['units'] = [unit]
    return r


def shift(r, f, d):
    r[f]['values'][0] = '@' + repr(round(float(r[f]['values'][0][1:]) + d, 6))
    return r


# ---------------------------------------------------------------- elements
for s in ('H', 'O', 'C', 'Na', 'Cl', 'Ca', 'Si', 'Al', 'S'):
    e = find('aq17' if any(x['symbol'] == s for x in DB['aq17']['elements']) else 'cemdata18', 'elements', s)
    e = put('el.%s.1' % s, e)
    if s in ('H', 'O', 'C', 'Na', 'Si'):
        shift(e, 'entropy', 7.25)
        shift(e, 'atomic_mass', 0.5)
        put('el.%s.2' % s, e)
# ---------------------------------------------------------------- solvents
w = put('su.w.1', find('aq17', 'substances', 'H2O@'))                        # IAPWS95, Johnson-Norton (reaktoro)
put('su.w.2', method(copy.deepcopy(w), 29, 26))                              # HGK, Johnson-Norton (gems)
put('su.w.3', method(copy.deepcopy(w), 31, 25))                              # HGK (reaktoro)
put('su.w.4', method(copy.deepcopy(w), 33, 27))                              # Zhang-Duan, Sverjensky: no saturation curve
put('su.w.5', method(copy.deepcopy(w), 32, 28))                              # IAPWS95, Fernandez
w2 = copy.deepcopy(w)
w2['symbol'] = 'Water'
put('su.v.1', method(w2, 31, 25))                                            # another solvent
w3 = copy.deepcopy(w)
w3['symbol'] = 'H2Og'
w3['aggregate_state'] = {'0': 'AS_GAS'}
put('su.u.1', method(w3, 32, 25))                                            # a solvent as vapour
# ---------------------------------------------------------------- aqueous species
for s in ('Na+', 'Cl-', 'Ca+2', 'OH-'):
    a = put('su.%s.1' % s, find('aq17', 'substances', s))
na = pool['su.Na+.1']
put('su.Na+.2', shift(copy.deepcopy(na), 'sm_gibbs_energy', 1234.5))
g = copy.deepcopy(pool['su.Cl-.1'])
g['TPMethods'][0]['method'] = {'2': NAMES[2]}
put('su.Cl-.2', g)
put('su.CH4@.1', find('aq17', 'substances', 'CH4@'))
put('su.HCN@.1', find('cemdata18', 'substances', 'HCN@'))
put('su.H+.1', find('aq17', 'substances', 'H+'))
# ---------------------------------------------------------------- minerals
q = put('su.Quartz.1', find('aq17', 'substances', 'Quartz'))
put('su.Quartz.2', shift(copy.deepcopy(q), 'sm_entropy_abs', 3.5))
put('su.Gibbsite.1', find('aq17', 'substances', 'Gibbsite'))
put('su.Portlandite.1', find('aq17', 'substances', 'Portlandite'))
put('su.Mag.1', find('cemdata18', 'substances', 'Mag'))
put('su.Sulfur.1', find('cemdata18', 'substances', 'Sulfur'))
put('su.BaF2.1', find('heracles', 'substances', 'BaF2'))
m = copy.deepcopy(q)
m['symbol'] = 'Fixed'
m['TPMethods'] = []
del m['TPMethods']
put('su.Fixed.1', m)                                                         # reference properties only
p = find('aq17', 'substances', 'Portlandite')
p['symbol'] = 'Lime'
del p['TPMethods']
put('su.Lime.1', method(p, 34))                                              # constant volume only
put('su.Melanterite.1', find('cemdata18', 'substances', 'Melanterite'))
# ---------------------------------------------------------------- gases
c = put('su.CO2.1', find('mines16', 'substances', 'CO2'))
print('CO2', [list(x['method'].values()) for x in c['TPMethods']])
put('su.CH4.1', find('aq17', 'substances', 'CH4'))
put('su.O2.1', find('cemdata18', 'substances', 'O2'))
for i, k in enumerate((10, 11, 12, 13)):
    x = copy.deepcopy(c)
    x['TPMethods'][1]['method'] = {str(k): NAMES[k]}
    if k == 10:                                                              # molecular parameters instead of critical ones
        x['TPMethods'][1]['eos_gas_crit_props']['values'] = ['@3.7424', '@239', '@0', '@0']
    put('su.CO2.%d' % (i + 2), x)
put('su.CO2.6', shift(copy.deepcopy(c), 'sm_gibbs_energy', -500.5))


# ---------------------------------------------------------------- reactions and substances defined by them
def rea(sym, reactants, *keys, **f):
    r = {'symbol': sym, 'Tst': '@298.15', 'Pst': '@100000', 'reactants': [{'symbol': s, 'coefficient': '@%s' % n} for s, n in reactants]}
    if keys:
        method(r, *keys, names=RN)
        for i, m in enumerate(r['TPMethods']):
            if keys[i] == 0:
                m['logk_ft_coeffs'] = {'values': ['@%s' % x for x in f.get('logk', [0, 0, 0, 0, 0, 0, 0])]}
            if keys[i] == 9:
                m['dr_marshall_franck_coeffs'] = {'values': ['@%s' % x for x in f['fm']]}
            if keys[i] == 10:
                m['dr_ryzhenko_coeffs'] = {'values': ['@%s' % x for x in f['rb']]}
            if keys[i] == 14:
                m['dr_dolejs_manning10_coeffs'] = {'values': ['@%s' % x for x in f['dm']]}
    for k, fld in (('logK', 'logKr'), ('H', 'drsm_enthalpy'), ('S', 'drsm_entropy'), ('G', 'drsm_gibbs_energy'), ('Cp', 'drsm_heat_capacity_p'), ('V', 'drsm_volume')):
        if k in f:
            r[fld] = {'values': ['@%s' % f[k]]}
    return r


def dc(sym, reaction, *keys, **f):
    r = {'symbol': sym, 'formula': f.get('formula', 'NaCl'), 'formula_charge': '@0', 'aggregate_state': f.get('state', {'4': 'AS_AQUEOUS'}),
         'class_': f.get('cls', {'2': 'SC_AQSOLUTE'}), 'Tst': '@298.15', 'Pst': '@100000'}
    if reaction:
        r['reaction'] = reaction
    if keys:
        method(r, *keys)
    for k, fld in (('G', 'sm_gibbs_energy'), ('H', 'sm_enthalpy'), ('S', 'sm_entropy_abs'), ('Cp', 'sm_heat_capacity_p'), ('V', 'sm_volume')):
        if k in f:
            r[fld] = {'values': ['@%s' % f[k]]}
    return r


# 3-term extrapolation: NaCl@ = Na+ + Cl-
put('re.NaCl.1', rea('NaCl@', [('Na+', 1), ('Cl-', 1), ('NaCl@', -1)], 0, 7, 13, logK=0.777, H=-3000.5, S=4.25, Cp=120.5, V=0.2))
put('re.NaCl.2', rea('NaCl@', [('Na+', 1), ('Cl-', 1), ('NaCl@', -1)], 0, 3, logk=[-1.5, 0.001, 420.5, 0.25, 1500, '1e-7', 0.02]))
put('su.NaCl.1', dc('NaCl@', 'NaCl@', V=2.4, G=-388735, H=-402257, S=117.15, Cp=35))
put('su.NaCl.2', dc('NaCl@', 'NaCl@', 34, V=2.4, G=-388735, H=-402257, S=117.15, Cp=35))
# nested definition with a coefficient other than 1: 2 NaCl@ + Ca+2 = Di
put('re.Di.1', rea('Di', [('NaCl@', 2), ('Ca+2', 1), ('Di', -0.5)], 0, 6, logK=-2.25, H=1500, S=-20, Cp=60))
put('su.Di.1', dc('Di', 'Di', formula='CaNa2Cl2', cls={'0': 'SC_COMPONENT'}, state={'3': 'AS_CRYSTAL'}, V=5.5, G=-1, H=-1, S=1, Cp=1))
# reaction from its reactants
put('re.Dis.1', rea('Dis', [('Portlandite', -1), ('Ca+2', 1), ('OH-', 2)]))
put('re.Dis.2', rea('Dis', [('Portlandite', -2), ('Ca+2', 2), ('OH-', 4)]))
put('re.Dis.3', rea('Dis', [('Portlandite', -1), ('Ca+2', 1), ('OH-', 2), ('Quartz', 0), ('H+', 0)]))
put('re.Gas.1', rea('Gas', [('CH4', 1), ('O2', 2), ('CO2', -1), ('H2O@', -2)]))
put('re.Aq.1', rea('Aq', [('CH4@', 1), ('CH4', -1)]))
put('re.Deep.1', rea('Deep', [('Di', -1), ('Quartz', 0.5), ('NaCl@', 3), ('H+', -2)]))
# the other models
put('re.Con.1', rea('Con', [('Quartz', -1), ('Fixed', 1)], 0, 4, logK=1.5, H=250.5, S=12, G=-8562.6))
put('re.Fm.1', rea('Fm', [('Ca+2', 1), ('OH-', 2)], 9, fm=[-4.1, -2959.4, 345240, '-1.3607e7', 28.6, -13211, '2.1033e6'], logK=-1, H=1, S=1))
put('re.Dm.1', rea('Dm', [('Ca+2', 1), ('OH-', 2)], 14, dm=[23.6, -52.9, 0.5, -0.01, -18.5], logK=-1, H=1, S=1))
put('re.Rb.1', rea('Rb', [('Na+', 1), ('Cl-', 1)], 10, rb=[1.017, 0.5, -30.5], logK=-0.777, H=4000, S=12, Cp=50, V=1))
# a definition with more reactants, minerals first, one of them with no part in it
put('re.Mix.1', rea('Mix', [('Gibbsite', 1), ('Lime', 2), ('Mix', -1), ('Na+', 1), ('Quartz', 0), ('Portlandite', -0.5)], 0, 7, 13, logK=1.25, H=-2500, S=11, Cp=30, V=1.5))
put('su.Mix.1', dc('Mix', 'Mix', formula='NaCl', cls={'0': 'SC_COMPONENT'}, state={'3': 'AS_CRYSTAL'}, V=5.5, G=-1, H=-1, S=1, Cp=1))
# definitions that cannot be calculated
put('re.A.1', rea('A', [('A', -1), ('B', 1)], 0, 7, logK=1, H=1, S=1, Cp=1))
put('re.B.1', rea('B', [('B', -1), ('A', 1)], 0, 7, logK=1, H=1, S=1, Cp=1))
put('su.A.1', dc('A', 'A', G=-5, H=-4, S=3, Cp=2, V=1))
put('su.B.1', dc('B', 'B', G=-5, H=-4, S=3, Cp=2, V=1))
put('su.B.2', dc('B', '', 34, G=-5000, H=-4000, S=3, Cp=2, V=1))             # ends the circle
put('su.Lost.1', dc('Lost', 'Lost', G=-5, H=-4, S=3, Cp=2, V=1))             # its reaction is not there
put('re.Gap.1', rea('Gap', [('Quartz', 1), ('Nothing', -1)]))                # a reactant is not there
put('su.Gap.1', dc('Gap', 'Gap2', G=-5, H=-4, S=3, Cp=2, V=1))
put('re.Gap2.1', rea('Gap2', [('Gap', -1), ('Nothing', 1)], 0, 7, logK=1, H=1, S=1, Cp=1))
put('re.Self.1', rea('Self', [('Self', -1), ('Quartz', 1)]))                 # a reaction from reactants one of which is defined by it
put('su.Self.1', dc('Self', 'Self', G=-5, H=-4, S=3, Cp=2, V=1))
with open(ROOT + '/spec/pool.json', 'w') as f:
    json.dump(pool, f, indent=0, sort_keys=True)
print(len(pool), 'records')
