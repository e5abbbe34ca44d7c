"""Conformance driver for the Python module: executes the same streams of abstract commands as driver.cpp, through PyThermoFun.
It contains no oracle.  What cannot be seen from Python (the pressure found by a query at pressure 0) and what is asked of another
program (en_probe: a query of a new engine in a new process) comes from driver.cpp, which executes the same commands.

   python3 pydriver.py MODULE_DIR CPP_DRIVER CMDS.ndjson OUT.ndjson SCRATCHDIR
"""
import json, math, os, subprocess, sys

sys.path.insert(0, sys.argv[1])
import PyThermoFun as tf

MIRROR, CMDS, OUT, SCRATCH = sys.argv[2:6]
REPO = os.environ.get('VF_REPO', '/repo')
tf.update_loggers(False, '', 6)


class Harness(Exception):
    pass


class Missing(Exception):
    """an object that does not exist"""


# ---------------------------------------------------------------- numbers
def num(x):
    if math.isnan(x):
        return 'nan'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    return '%.17g' % x


def ts(x):
    return [num(x.val), num(x.ddt), num(x.ddp), num(x.err), int(x.sta[0])]


def vec(v):
    return [num(x) for x in v]


def fields(p, names):
    return {k: ts(getattr(p, n)) for k, n in names}


SUB = [('G', 'gibbs_energy'), ('A', 'helmholtz_energy'), ('U', 'internal_energy'), ('H', 'enthalpy'), ('S', 'entropy'), ('V', 'volume'),
       ('Cp', 'heat_capacity_cp'), ('Cv', 'heat_capacity_cv')]
REA = [('lnK', 'ln_equilibrium_constant'), ('logK', 'log_equilibrium_constant')] + [(k, 'reaction_' + n) for k, n in SUB]
SOLV = [('alpha', 'Alpha'), ('dAldT', 'dAldT'), ('beta', 'Beta'), ('albe', 'Albe'), ('rho', 'density'), ('rhoT', 'densityT'), ('rhoP', 'densityP'),
        ('rhoTT', 'densityTT'), ('rhoTP', 'densityTP'), ('rhoPP', 'densityPP'), ('p', 'pressure')]
ELEC = [('eps', 'epsilon'), ('epsT', 'epsilonT'), ('epsP', 'epsilonP'), ('epsTT', 'epsilonTT'), ('epsTP', 'epsilonTP'), ('epsPP', 'epsilonPP')] + \
    [(k, 'born' + k) for k in 'ZYQNUX']


def element(e):
    return {'name': e.name(), 'symbol': e.symbol(), 'mass': num(e.molarMass()), 'entropy': num(e.entropy()), 'cp': num(e.heatCapacity()),
            'volume': num(e.volume()), 'valence': e.valence(), 'class': e.class_(), 'isotope': e.isotopeMass(), 'number': e.number()}


def limits(s):
    return {'Tr': num(s.referenceT()), 'Pr': num(s.referenceP()), 'lowT': num(s.lowerT()), 'upT': num(s.upperT()), 'lowP': num(s.lowerP()), 'upP': num(s.upperP()),
            'eos': int(s.methodGenEOS()), 'mT': int(s.method_T()), 'mP': int(s.method_P())}


def substance(s):
    p = s.thermoParameters()
    return {**limits(s), 'name': s.name(), 'symbol': s.symbol(), 'formula': s.formula(), 'reaction': s.reactionSymbol(), 'mass': num(s.molarMass()),
            'class': int(s.substanceClass()), 'calc': int(s.thermoCalculationType()), 'state': int(s.aggregateState()), 'charge': s.charge(),
            'ref': fields(s.thermoReferenceProperties(), SUB), 'tint': [vec(x) for x in p.temperature_intervals], 'cp': [vec(x) for x in p.Cp_coeff],
            'ad': vec(p.Cp_nonElectrolyte_coeff), 'ph': [vec(x) for x in p.phase_transition_prop], 'landau': vec(p.m_landau_phase_trans_props),
            'hkf': vec(p.HKF_parameters), 'crit': vec(p.critical_parameters), 'hp98': vec(p.solute_holland_powell98_coeff),
            'expans': num(p.isobaric_expansivity), 'compr': num(p.isothermal_compresibility)}


def reactants(r):
    return [[k, num(v)] for k, v in r.reactants().items()]


def reaction(r):
    p = r.thermoParameters()
    return {**limits(r), 'name': r.name(), 'symbol': r.symbol(), 'equation': r.equation(), 'reactants': reactants(r), 'ref': fields(r.thermoReferenceProperties(), REA),
            'logk': vec(p.reaction_logK_fT_coeff), 'cp': vec(p.reaction_Cp_fT_coeff), 'v': vec(p.reaction_V_fT_coeff), 'rb': vec(p.reaction_RB_coeff),
            'fm': vec(p.reaction_FM_coeff), 'dm': vec(p.reaction_DM10_coeff)}


SHOW = {'el': element, 'su': substance, 're': reaction}
CLASS = {'el': tf.Element, 'su': tf.Substance, 're': tf.Reaction}
LONG = {'el': 'Element', 'su': 'Substance', 're': 'Reaction'}
SECTION = {'el': 'elements', 'su': 'substances', 're': 'reactions'}

# ---------------------------------------------------------------- objects
dbs, ens, bas, outs, info = {}, {}, {}, {}, {}
structs = {}
objs = {'el': {}, 'su': {}, 're': {}}
count = 0


def at(m, c, k):
    if c[k] not in m:
        raise Missing('unknown handle ' + c[k])
    return m[c[k]]


def dumps(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=False, separators=(',', ':'))


def literal(x):
    """records: a string "@x" stands for the literal x"""
    if isinstance(x, str) and x.startswith('@'):
        return x[1:]
    if isinstance(x, dict):
        return '{' + ','.join(dumps(k) + ':' + literal(v) for k, v in sorted(x.items())) + '}'
    if isinstance(x, list):
        return '[' + ','.join(map(literal, x)) + ']'
    return dumps(x)


POOL = json.load(open(os.environ['VF_POOL'] + '/pool.json'))


def text(c):
    if 'use' in c:
        return literal(POOL[c['use']])
    if 'raw' in c:
        return c['raw']
    if 'rec' not in c:
        return c['text']
    j = dict(c['rec'], **{k: None for k in c.get('nulls', [])})
    return '{"properties":' + literal(j) + ',"_key":"x"}' if c.get('wrap') else literal(j)


def texts(c):
    if 'use' in c:
        return [literal(POOL[x]) for x in c['use']]
    return [literal(x) for x in c['recs']] if 'recs' in c else c['records']


def has_text(c):
    return isinstance(c.get('use'), str) or 'rec' in c or 'text' in c


def has_texts(c):
    return isinstance(c.get('use'), list) or 'recs' in c or 'records' in c


def scratch_file(t):
    global count
    count += 1
    f = '%s/src%d.json' % (SCRATCH, count % 16)
    open(f, 'w').write(t)
    return f


def load(c):
    """records to be loaded: -> arguments of Database(), appendData(): (text or file) or (list of texts, label)"""
    way = c['way']
    items = c['items'] if 'items' in c else [{'kind': i[:2], 'use': i} for i in c['use']]

    def rec(i):
        return i['text'] if 'text' in i else literal(POOL[i['use']] if 'use' in i else i['rec'])

    def labelled(i, wrap):
        k, r = i['kind'], rec(i)
        label = LONG[k].lower() if k in LONG else k
        if wrap:
            return '{"_key":"k","properties":' + r + ',"_label":' + dumps(label) + '}'
        return dumps({'_label': label})[:-1] + (',' + r[1:] if json.loads(r) else '}')
    if way in ('list', 'wrapped'):
        return [labelled(i, way == 'wrapped') for i in items], 'unknown label'
    if way == 'kind':
        return [rec(i) for i in items], LONG[items[0]['kind']].lower() if items else 'unknown label'
    if way in ('array', 'arrayfile'):
        t = '[' + ',\n'.join(labelled(i, c.get('wrap', 0)) for i in items) + ']'
    else:
        parts = []
        for k in ('re', 'el', 'su'):
            x = [rec(i) for i in items if i['kind'] == k]
            if x or c.get('empty'):
                parts.append('"%s":[%s]' % (SECTION[k], ',\n'.join(x)))
        if 'water' in c:
            parts.append('"conventions":{"water_triple_point_reference":%s}' % dumps(c['water']))
        t = '{' + ','.join(parts) + '}'
    return (scratch_file(t) if way in ('file', 'arrayfile') else t,)


def source(c):
    if 'way' in c:
        return load(c)
    if has_texts(c):
        return texts(c), c.get('label', 'unknown label')
    t = text(c) if has_text(c) else c['file']
    return (scratch_file(t) if has_text(c) and c.get('tofile') else t,)


def database(c):
    """the module has no constructor from a list of records"""
    if not ('way' in c or has_texts(c) or has_text(c) or 'file' in c):
        return tf.Database()
    x = source(c)
    if len(x) == 1:
        return tf.Database(*x)
    d = tf.Database()
    d.appendData(*x)
    return d


def lists(d):
    return {'el': d.getElementsList(), 'su': d.getSubstancesList(), 're': d.getReactionsList(),
            'n': [d.numberOfElements(), d.numberOfSubstances(), d.numberOfReactions()]}


PREFS = {'memo': 'enable_memoize', 'size': 'max_cache_size', 'state': 'solventState', 'solvent': 'solventSymbol', 'fallback': 'fallback_to_reference_properties',
         'gas': 'apply_pressure_correction_to_gas_props'}
BATCH = {'fixed': 'isFixed', 'sci': 'isScientific', 'sep': 'separator', 'fromReactants': 'reactionPropertiesFromReactants', 'pairsFirst': 'loopOverTPpairsFirst',
         'Tfirst': 'loopTemperatureThenPressure', 'nan': 'writeNaNifNotDefinedValue'}
ENUM = {'eos': ('setMethodGenEoS', 'methodGenEOS'), 'mT': ('setMethod_T', 'method_T'), 'mP': ('setMethod_P', 'method_P'),
        'class': ('setSubstanceClass', 'substanceClass'), 'state': ('setAggregateState', 'aggregateState')}
SETTERS = {'name': 'setName', 'symbol': 'setSymbol', 'formula': 'setFormula', 'reaction': 'setReactionSymbol', 'equation': 'setEquation', 'charge': 'setCharge'}
NUMBERS = {'mass': 'setMolarMass', 'entropy': 'setEntropy', 'Tr': 'setReferenceT', 'Pr': 'setReferenceP', 'lowT': 'setLowerT', 'upT': 'setUpperT', 'lowP': 'setLowerP',
           'upP': 'setUpperP', 'volume': 'setVolume'}


def set_enum(o, k, v):
    setter, getter = ENUM[k]
    getattr(o, setter)(type(getattr(o, getter)())(v))


def scalar(v):
    return tf.ThermoScalar(float(v), 0, 0, 0, (tf.Status.assigned, ''))


def set_reference(o, **kw):
    p = o.thermoReferenceProperties()
    for k, v in kw.items():
        setattr(p, k, scalar(v))
    o.setThermoReferenceProperties(p)


def set_parameters(o, **kw):
    p = o.thermoParameters()
    for k, v in kw.items():
        setattr(p, k, [float(x) for x in v])
    o.setThermoParameters(p)


def set_fields(k, o, c):
    for f, m in SETTERS.items():
        if f in c:
            getattr(o, m)(c[f])
    for f, m in NUMBERS.items():
        if f in c:
            getattr(o, m)(float(c[f]))
    if k == 'el':
        for f, m in (('valence', 'setValence'), ('class', 'setClass'), ('isotope', 'setIsotopeMass'), ('number', 'setNumber')):
            if f in c:
                getattr(o, m)(c[f])
        if 'cp' in c:
            o.setHeatCapacity(float(c['cp']))
        return
    for f in ENUM:
        if f in c:
            set_enum(o, f, c[f])
    if 'G' in c:
        set_reference(o, gibbs_energy=c['G'])
    if 'logK' in c:
        set_reference(o, log_equilibrium_constant=c['logK'])
    if 'hkf' in c:
        set_parameters(o, HKF_parameters=c['hkf'])
    if 'logk' in c:
        set_parameters(o, reaction_logK_fT_coeff=c['logk'])
    if 'reactants' in c:
        o.setReactants({k: float(v) for k, v in c['reactants']})


def rows(f, sep):
    if not os.path.exists(f):
        return []
    t = open(f, newline='').read()
    ls = t.split('\n')
    if ls and ls[-1] == '':
        ls.pop()
    os.unlink(f)
    return [l.split(sep) for l in ls] if sep else ls


def csv(c, which):
    global count
    o, (sep, props, _) = at(outs, c, 'out'), info[c['out']]
    count += 1
    f = 'out%d.csv' % count
    if which == 'grid':  # the name of the property is put in front of the name of the file
        old = os.getcwd()
        os.chdir(SCRATCH)
        try:
            o.toCSVPropertyGrid(f)
        finally:
            os.chdir(old)
        fs = {p: rows(SCRATCH + '/' + p + '_' + f, sep) for p in sorted(set(props))}
        return [fs[p] for p in props]
    f = SCRATCH + '/' + f
    (o.toCSV if which == 'csv' else o.toCSVTransposed)(f)
    return rows(f, sep)


def calc(c):
    b, kind, form, sy, pr = at(bas, c, 'ba'), c.get('kind', 'sub'), c.get('form', 'pair'), c.get('syms', []), c.get('props', [])
    f = b.thermoPropertiesSubstance if kind == 'sub' else b.thermoPropertiesReaction
    more = []
    if 'given' in c:
        e = at(ens, c, 'en')
        more = [[(e.thermoPropertiesSubstance if kind == 'sub' else e.thermoPropertiesReaction)(float(g[0]), float(g[1]), g[2]) for g in c['given']]]
    if form == 'one':
        o = f(float(c['T']), float(c['P']), sy[0], pr[0])
    elif form == 'pair':
        o = f(float(c['T']), float(c['P']), sy, pr)
    elif form == 'pairs':
        o = f([[float(x) for x in y] for y in c['tp']], sy, pr, *more)
    elif form == 'grid':
        o = f([float(x) for x in c['Ts']], [float(x) for x in c['Ps']], sy, pr, *more)
    elif form == 'incr':
        o = f(sy, pr)
    else:
        raise Harness('form ' + form)
    r = o.to2DVectorDouble()
    info[c['out']] = (b.preferences.separator, pr, not r or not r[0])
    outs[c['out']] = o
    return {'rows': [vec(x) for x in r]}


def cond(v, unit):
    """a number, or a number and a unit (the module has no conversions)"""
    v, _, u = v.partition(' ')
    return float(ask({'op': 'conv', 'v': v, 'from': u, 'to': unit})['r']['v']) if u else float(v)


def query(e, c, seen):
    op, s, st = c['op'], c['s'], c.get('state', -1)
    T, P = cond(c['T'], 'K'), cond(seen['P'] if c['P'] == 'last' else c['P'], 'Pa')
    if 'obj' in c or 'objdb' in c:
        sub = op in ('en_sub', 'en_solv', 'en_elec')
        if 'obj' in c:
            s = (tf.Substance if sub else tf.Reaction)(literal(POOL[c['obj']]))
        else:
            d = at(dbs, c, 'objdb')
            s = d.getSubstance(s) if sub else d.getReaction(s)
    if op == 'en_sub':
        return fields(e.thermoPropertiesSubstance(T, P, s), SUB)
    if op == 'en_rea':
        return fields(e.thermoPropertiesReaction(T, P, s), REA)
    if op == 'en_rfr':
        return fields(e.thermoPropertiesReactionFromReactants(T, P, s), REA)
    a = () if st == -1 else (st,)
    if op == 'en_solv':
        return fields(e.propertiesSolvent(T, P, s, *a), SOLV)
    return fields(e.electroPropertiesSolvent(T, P, s, *a), ELEC)


# ---------------------------------------------------------------- dispatch
def run(c, mirror):
    op = c['op']
    if op == 'reset':
        for m in (outs, bas, ens, dbs, info, structs, *objs.values()):
            m.clear()
        return {}
    if op[:3] in ('fl_', 'py_'):
        return field_op(c)
    # ---- databases
    if op in ('db_new', 'db_file'):
        dbs[c['db']] = tf.Database('%s/Resources/databases/%s-thermofun.json' % (REPO, c['file'])) if op == 'db_file' else database(c)
        return {} if op == 'db_file' else lists(dbs[c['db']])
    if op in ('db_copy', 'db_assign'):
        dbs[c['db']] = tf.Database(at(dbs, c, 'from'))
        return lists(dbs[c['db']])
    if op == 'db_del':
        dbs.pop(c['db'], None)
        return {}
    if op in ('db_add', 'db_set'):
        d, k, t = at(dbs, c, 'db'), c['kind'], text(c)
        getattr(d, op[3:] + LONG[k])(t if c.get('json') else CLASS[k](t))
        return lists(d)
    if op == 'db_map':
        d, k = at(dbs, c, 'db'), c['kind']
        rs = [CLASS[k](t) for t in texts(c)]
        getattr(d, 'addMap' + LONG[k] + 's')({r.symbol(): r for r in rs})
        return lists(d)
    if op == 'db_append':
        d = at(dbs, c, 'db')
        d.appendData(*source(c))
        return lists(d)
    if op == 'db_dump':
        return lists(at(dbs, c, 'db'))
    if op in ('db_get', 'db_ref'):
        d, k = at(dbs, c, 'db'), c['kind']
        return SHOW[k](getattr(d, ('get' + LONG[k]) if op == 'db_get' else LONG[k].lower())(c['s']))
    if op == 'db_sub':
        return substance(at(dbs, c, 'db').getSubstance(c['s']))
    if op == 'db_rea':
        return reaction(at(dbs, c, 'db').getReaction(c['s']))
    if op == 'db_all':
        d, k = at(dbs, c, 'db'), c['kind']
        return {'list': [[x.symbol(), x.name()] for x in getattr(d, 'get' + LONG[k] + 's')()],
                'map': [[s, x.name()] for s, x in getattr(d, 'map' + LONG[k] + 's')().items()]}
    if op == 'db_has':
        return {'v': getattr(at(dbs, c, 'db'), 'contains' + LONG[c['kind']])(c['s'])}
    if op == 'db_touch':
        d, k = at(dbs, c, 'db'), c['kind']
        o = getattr(d, LONG[k].lower())(c['s'])
        set_fields(k, o, {f: c[f] for f in ('name', 'mass', 'entropy', 'formula', 'G') if f in c and (f != 'entropy' or k == 'el')})
        if 'eq' in c:
            o.fromEquation(c['eq'])
        return lists(d)
    if op in ('db_formula', 'en_formula'):
        m = at(dbs, c, 'db').parseSubstanceFormula(c['f'])
        return {'v': [[e.symbol(), num(v), num(e.molarMass()), num(e.entropy())] for e, v in m.items()]}
    if op == 'db_charges':
        d = at(dbs, c, 'db')
        d.setSubstancesChargeFromFromula()
        return {'v': [[s, x.charge()] for s, x in d.mapSubstances().items()]}
    if op == 'db_conv':
        at(dbs, c, 'db').conventions.water_triple_point_reference = c['water']
        return {}
    if op == 'db_getconv':
        return {'water': at(dbs, c, 'db').conventions.water_triple_point_reference}
    # ---- engines
    if op == 'en_new':
        ens[c['en']] = tf.ThermoEngine(at(dbs, c, 'db')) if 'db' in c else tf.ThermoEngine(*source(c))
        return {}
    if op == 'th_new':
        d = database({'way': 'sections', **c})
        for i in c['items']:
            if 'api' not in i:
                continue
            a, s = i['api'], d.getSubstance(i['rec']['symbol'])
            set_parameters(s, **{n: a[k] for k, n in (('vc', 'volume_coeff'), ('bm', 'volume_BirchM_coeff')) if k in a})
            for k in ('eos', 'mT', 'mP'):
                if k in a:
                    set_enum(s, k, a[k])
            d.setSubstance(s)
        if 'water' in c:
            d.conventions.water_triple_point_reference = c['water']
        ens[c['en']] = tf.ThermoEngine(d)
        return {}
    if op in ('en_copy', 'en_assign'):
        ens[c['en']] = tf.ThermoEngine(at(ens, c, 'from'))
        return {}
    if op == 'en_del':
        ens.pop(c['en'], None)
        return {}
    if op in ('en_prefs', 'en_setprefs', 'en_getprefs'):
        e = at(ens, c, 'en')
        for k, v in c.get('set', {}).items():
            setattr(e.preferences, PREFS[k], v)
        return {k: getattr(e.preferences, n) for k, n in PREFS.items()}
    if op == 'en_solvent':
        at(ens, c, 'en').setSolventSymbol(c['s'])
        if at(ens, c, 'en').solventSymbol() != c['s']:
            raise ValueError('solventSymbol() is not the symbol set')
        return {}
    if op == 'en_conv':
        v = at(ens, c, 'en').conventions
        if 'apparent' in c:
            v.apparent_properties = c['apparent']
        if 'water' in c:
            v.water_properties = c['water']
        return {}
    if op == 'en_append':
        x = source(c)
        if 'fail' in c:
            x[0].append('{"_label":"nothing","symbol":"x"}')
        at(ens, c, 'en').appendData(*x)
        return {}
    if op in ('en_sub', 'en_rea', 'en_rfr', 'en_solv', 'en_elec'):
        e = at(ens, c, 'en')
        seen = mirror.get('r', mirror)
        p = query(e, c, seen)
        return {'P': seen.get('P', c['P']), 'p': p}
    if op == 'en_probe':
        if not mirror['ok']:
            raise Harness('no answer from the new process')
        return mirror['r']
    # ---- value objects
    if op[:2] in objs and op[2] == '_':
        k, what, m = op[:2], op[3:], objs[op[:2]]
        if what == 'new':
            m[c['h']] = CLASS[k](text(c)) if has_text(c) else CLASS[k]()
        elif what in ('copy', 'assign'):
            m[c['h']] = CLASS[k](at(m, c, 'from'))
        elif what == 'set':
            set_fields(k, at(m, c, 'h'), c)
        elif what == 'eq':
            o = at(m, c, 'h')
            o.fromEquation(c['eq'])
            return {'reactants': reactants(o), 'symbol': o.symbol(), 'equation': o.equation()}
        elif what != 'get':
            raise Harness('unknown op ' + op)
        return SHOW[k](at(m, c, 'h'))
    # ---- batches
    if op == 'ba_new':
        bas[c['ba']] = tf.ThermoBatch(at(ens, c, 'en') if 'en' in c else at(dbs, c, 'db') if 'db' in c else source(c)[0])
        return {}
    if op == 'ba_del':
        bas.pop(c['ba'], None)
        return {}
    if op[:3] == 'ba_':
        b = at(bas, c, 'ba')
        if op == 'ba_prefs':
            p = b.preferences
            if not c.get('byref'):
                p = tf.BatchPreferences()
                for n in [*BATCH.values(), 'isFloating', 'fileName', 'solventFileName', 'outputSolventProperties', 'substancePropertiesFromReaction']:
                    setattr(p, n, getattr(b.preferences, n))
            for k, v in c['set'].items():
                setattr(p, BATCH[k], v)
            if not c.get('byref'):
                b.setBatchPreferences(p)
        elif op == 'ba_solvent':
            b.setSolventSymbol(c['s'])
        elif op == 'ba_unit':
            b.setPropertyUnit(c['p'], c['u'])
        elif op == 'ba_digit':
            b.setPropertyDigit(c['p'], c['d'])
        elif op == 'ba_unitdigit':
            b.setPropertyUnitDigit(c['p'], c['u'], c['d'])
        elif op == 'ba_units':
            b.setPropertiesUnits(c['ps'], c['us'])
        elif op == 'ba_digits':
            b.setPropertiesDigits(c['ps'], c['ds'])
        elif op == 'ba_Tinc':
            b.setTemperatureIncrement(*map(float, c['v']))
        elif op == 'ba_Pinc':
            b.setPressureIncrement(*map(float, c['v']))
        elif op == 'ba_get':
            return {'units': b.propertyUnits(), 'digits': b.propertyDigits(), 'Tinc': {k: num(v) for k, v in b.temperatureIncrement().items()},
                    'Pinc': {k: num(v) for k, v in b.pressureIncrement().items()}}
        elif op == 'ba_calc':
            return calc(c)
        else:
            raise Harness('unknown op ' + op)
        return {}
    if op[:4] == 'out_':
        if c['out'] not in outs:
            return {'none': True}
        o = outs[c['out']]
        if op == 'out_rows':
            return {'rows': [vec(x) for x in o.to2DVectorDouble()]}
        if op in ('out_double', 'out_scalar') and info[c['out']][2]:
            return {'none': True}
        if op == 'out_double':
            return {'v': num(o.toDouble())}
        if op == 'out_scalar':
            return {'v': ts(o.toThermoScalar())}
        if op in ('out_csv', 'out_tcsv'):
            return {'lines': csv(c, op[4:])}
        if op == 'out_grid':
            return {'files': csv(c, 'grid')}
        if op == 'out_del':
            del outs[c['out']]
            return {}
    raise Harness('unknown op ' + op)


cpp = None


def ask(c):
    cpp.stdin.write(json.dumps(c) + '\n')
    cpp.stdin.flush()
    a = cpp.stdout.readline()
    if not a:  # it terminated: reported like a termination of this program
        os._exit(max(cpp.wait(), 2))
    return json.loads(a)


# ---------------------------------------------------------------- fields of structures
def show(v):
    if isinstance(v, tf.ThermoScalar):
        return ts(v)
    if isinstance(v, float):
        return num(v)
    if isinstance(v, tuple):
        return [int(v[0]), v[1]]
    return [show(x) for x in v] if isinstance(v, list) else v


def value(t, v):
    if t is tf.ThermoScalar:
        return tf.ThermoScalar(*map(float, v[:4]), (tf.Status(v[4]), ''))
    if t is tuple:
        return tf.Status(v[0]), v[1]
    if t is list:
        return [value(list if isinstance(x, list) else float, x) for x in v]
    return float(v) if t is float else v


def show_fields(o):
    return {k: show(getattr(o, k)) for k, p in vars(type(o)).items() if isinstance(p, property)}


def field_op(c):
    if c['op'] == 'py_water':
        return {k: {n: num(getattr(v, n + 'tr')) for n in 'SGHUA'} for k, v in tf.get_water_triple_data().items()}
    if c['op'] == 'fl_new':
        structs[c['h']] = getattr(tf, c['cls'])()
    o = at(structs, c, 'h')
    if c['op'] == 'fl_set':
        setattr(o, c['f'], value(type(getattr(o, c['f'])), c['v']))
    return show_fields(o)


def main():
    global cpp
    os.makedirs(SCRATCH + '/mirror', exist_ok=True)
    cpp = subprocess.Popen([MIRROR, '/dev/stdin', '/dev/stdout', SCRATCH + '/mirror'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, encoding='utf-8', errors='replace')
    failed = False
    with open(OUT, 'a') as out:
        for l in open(CMDS):
            if not l.strip():
                continue
            c = json.loads(l)
            mirror = ask(c) if c['op'][:3] not in ('fl_', 'py_') else None
            failed = failed and c['op'] != 'reset'
            try:
                e = {'c': c, 'ok': True, 'r': run(c, mirror)}
            except Harness as x:
                sys.stderr.write('HARNESS %s in %s' % (x, l))
                return 3
            except Missing as x:
                if not failed:
                    sys.stderr.write('HARNESS %s in %s' % (x, l))
                    return 3
                e = {'c': c, 'ok': False, 'err': str(x)}
            except Exception as x:
                e = {'c': c, 'ok': False, 'err': '%s: %s' % (type(x).__name__, x)}
                failed = True
            if not e['ok'] and c['op'] in ('en_sub', 'en_rea', 'en_rfr', 'en_solv', 'en_elec'):
                e['P'] = mirror.get('P') or mirror.get('r', {}).get('P') or c['P']
            out.write(json.dumps(e) + '\n')
            out.flush()
    cpp.stdin.close()
    cpp.wait()
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
