"""The checks: which specifications are model checked, which behaviours are generated from them, executed and validated."""
import vf
from vf import THOROUGH

WALK = 'INIT WInit\nNEXT WNext\n'
CHECKS = {}


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


def mc_cfg(*inv, init='Init', next='Next', view=None, props=(), consts=()):
    return ('INIT %s\nNEXT %s\n' % (init, next) + ('VIEW %s\n' % view if view else '') + ''.join('INVARIANT %s\n' % i for i in inv) +
            ''.join('PROPERTY %s\n' % i for i in props) + ''.join('CONSTANT %s\n' % i for i in consts))


def Q(quick, thorough):
    return thorough if THOROUGH else quick


# ------------------------------------------------------------------------------------------------ U01 memoisation templates
@check('U01')
def u01(c):
    cfg = mc_cfg('Bound', 'Distinct', 'OnlyComputed', 'AllCached', 'SizeZero', view='View')
    kinds = {0: (0, 1, 2), 1: (0, 1, 2, 3), 2: (0, 2)}
    jobs = []
    for sig, ks in kinds.items():
        for k in ks:
            for size in (range(0, Q(4, 5)) if k == 2 else (0,)):
                p = {'sig': sig, 'kind': k, 'size': size, 'keys': Q(4, 5)}
                jobs.append((c.gen, ('MemoMC', cfg, p, 'every transition of one cache, sig %d kind %d size %d' % (sig, k, size)), {}))
    jobs.append((c.gen, ('MemoGen', WALK, {'walks': Q(80, 800), 'depth': 60}, 'random walks over three functions'), {}))
    b = [x for bs in c.par(jobs) for x in bs]
    c.conform('MemoTrace', b, 'memoised functions')


# ------------------------------------------------------------------------------------------------ U02, U03, U05 scalars
def scalars(c, focus):
    cfg = mc_cfg('DerivativesRight', 'Gauss', 'Absorb', 'Definite')
    b = [x for bs in c.par([
        (c.gen, ('ScalarMC', cfg, {'mode': 0}, 'all operations on representative operands'), {}),
        (c.gen, ('ScalarMC', cfg, {'mode': 1}, 'all operations on all statuses'), {}),
        (c.gen, ('ScalarGen', WALK, {'walks': Q(120, 1500), 'depth': 80}, 'random programs'), {})]) for x in bs]
    c.conform('ScalarTrace', b, 'scalar operations', props={'focus': focus})


@check('U02')
def u02(c):
    scalars(c, 2)


@check('U03')
def u03(c):
    scalars(c, 3)


def order_pairs(c):
    return c.gen('ValuesMC', mc_cfg('Strict', 'Total', 'Transitive'), {}, 'all pairs of elements with small fields')


@check('U05')
def u05(c):
    b = c.gen('ScalarGen', WALK, {'walks': Q(60, 600), 'depth': 80}, 'random comparisons of scalars')
    c.conform('ScalarTrace', b, 'comparisons of scalars', props={'focus': 5})
    b = order_pairs(c) + c.gen('ValuesGen', WALK, {'walks': Q(60, 600), 'depth': 80, 'order': 1}, 'random elements and substances')
    c.conform('ValuesTrace', b, 'order of elements and substances')


# ------------------------------------------------------------------------------------------------ D03 value semantics of records
@check('D03')
def d03(c):
    b = c.gen('ValuesGen', WALK, {'walks': Q(150, 2000), 'depth': 80}, 'random histories of elements, substances and reactions')
    c.conform('ValuesTrace', b, 'value semantics')


# ------------------------------------------------------------------------------------------------ U04 files of calculated properties
@check('U04')
def u04(c):
    b = [x for bs in c.par([
        (c.gen, ('CsvFilesMC', mc_cfg('OneHeader', 'RightKind'), {'depth': Q(4, 5)}, 'every short history of one manager'), {}),
        (c.gen, ('CsvFilesGen', WALK, {'walks': Q(150, 2000), 'depth': 80}, 'random histories of two managers'), {})]) for x in bs]
    c.conform('CsvFilesTrace', b, 'files of calculated properties')


# ------------------------------------------------------------------------------------------------ E01-E06, R01 engines
def engine(c, mode, what, focus, walks, depth=60, probes=100, short=False):
    b = c.gen('EngineGen', WALK, {'walks': walks, 'depth': depth, 'mode': mode, 'probes': probes}, what)
    if short:
        b += c.gen('EngineMC', mc_cfg('Coherent', 'Bounded'), {'depth': Q(3, 4)}, 'every short history of two engines')
    c.conform('EngineTrace', b, what, props={'focus': focus})


@check('E01')
def e01(c):
    engine(c, 1, 'random queries', 1, Q(300, 6000))


@check('E02')
def e02(c):
    engine(c, 2, 'queries under changing cache settings', 1, Q(300, 6000), short=True)


@check('E03')
def e03(c):
    engine(c, 3, 'copied, assigned and deleted engines', 1, Q(300, 6000), short=True)


@check('E04')
def e04(c):
    engine(c, 4, 'queries between changes of data and settings', 1, Q(300, 6000), short=True)


@check('E05')
def e05(c):
    engine(c, 5, 'queries that fail and queries after them', 5, Q(300, 6000))


@check('E06')
def e06(c):
    engine(c, 6, 'queries at saturated vapour pressure', 6, Q(300, 6000))


@check('R01')
def r01(c):
    engine(c, 11, 'reactions and their reactants', 11, Q(500, 8000))


# ------------------------------------------------------------------------------------------------ D06 units
@check('D06')
def d06(c):
    b = [x for bs in c.par([
        (c.gen, ('UnitsMC', mc_cfg('Positive', 'ThereAndBack', 'Laws'), {}, 'every pair of units'), {}),
        (c.gen, ('UnitsGen', WALK, {'walks': Q(300, 5000), 'depth': 60}, 'random unit expressions'), {})]) for x in bs]
    c.conform('UnitsTrace', b, 'unit conversions')


# ------------------------------------------------------------------------------------------------ D05 equations
@check('D05')
def d05(c):
    b = [x for bs in c.par([
        (c.gen, ('EquationsMC', mc_cfg('Reads', 'Only'), {}, 'every small equation'), {}),
        (c.gen, ('EquationsGen', WALK, {'walks': Q(300, 4000), 'depth': 60}, 'random equations'), {})]) for x in bs]
    c.conform('EquationsTrace', b, 'reaction equations')


# ------------------------------------------------------------------------------------------------ D04 records
def shipped(only=()):
    """the records of the databases of the repository, as commands: the text itself and, for the specification, the record without
    the fields that are null (numbers as "@text")"""
    import glob, json, re
    ints = {'formula_charge', 'number', 'isotope_mass'}

    def clean(x, k=None):
        if isinstance(x, dict):
            return {a: clean(b, a) for a, b in x.items() if b is not None and a not in ('datasources', 'comments')}
        if isinstance(x, list):
            return ['@null' if b is None else clean(b) for b in x]
        return x if isinstance(x, (str, bool)) or k in ints else '@' + repr(x)
    for f in sorted(glob.glob(vf.REPO + '/Resources/databases/*.json')):
        d = json.load(open(f))
        for key, op in (('elements', 'el_new'), ('substances', 'su_new'), ('reactions', 're_new')):
            for r in d.get(key, []):
                yield {'op': op, 'h': 'a', 'raw': json.dumps(r), 'rec': clean(r)}


@check('D04')
def d04(c):
    b = c.gen('RecordsGen', WALK, {'walks': Q(300, 4000), 'depth': 30}, 'random records')
    rs = list(shipped())
    b += [rs[i:i + 40] for i in range(0, len(rs), 40)]
    c.notes['shipped_records'] = len(rs)
    c.conform('RecordsTrace', b, 'records')


# ------------------------------------------------------------------------------------------------ D01, D02 databases
@check('D01')
def d01(c):
    b = c.gen('DatabaseGen', WALK, {'walks': Q(300, 4000), 'depth': 60, 'mode': 1}, 'random histories of databases')
    cfg = mc_cfg('Keyed', 'Local', 'Keeps', 'Replaces', 'Pure')
    for bs in c.par([(c.gen, ('DatabaseMC', cfg, {'depth': Q(2, 3), 'elements': k}, 'every short history of a database and its copy, kind %d' % k), {}) for k in (0, 1, 2)]):
        b += bs
    c.conform('DatabaseTrace', b, 'histories of databases')


@check('D02')
def d02(c):
    b = c.gen('DatabaseGen', WALK, {'walks': Q(300, 4000), 'depth': 60, 'mode': 2}, 'random formulas between changes of the elements')
    c.conform('DatabaseTrace', b, 'formulas and elements')


# ------------------------------------------------------------------------------------------------ D07 ways of loading
@check('D07')
def d07(c):
    b = c.gen('WaysGen', WALK, {'walks': Q(24, 120), 'depth': Q(14, 30)}, 'shipped databases in other orders, splits and forms')
    c.conform('WaysTrace', b, 'shipped databases in other orders, splits and forms')
    engine(c, 7, 'small contents given in different ways', 1, Q(150, 3000))


# ------------------------------------------------------------------------------------------------ B01-B04 batches
def batch(c, mode, what, walks, depth=120):
    b = [x for bs in c.par([
        (c.gen, ('BatchMC', mc_cfg('Places', 'Steps', 'Agree'), {}, 'every combination of preferences and form'), {}),
        (c.gen, ('BatchGen', WALK, {'walks': walks, 'depth': depth, 'mode': mode}, what), {})]) for x in bs]
    c.conform('BatchTrace', b, what)


@check('B01')
def b01(c):
    batch(c, 1, 'calculations of batches', Q(150, 3000))


@check('B02')
def b02(c):
    batch(c, 2, 'files written from outputs', Q(150, 3000))


@check('B03')
def b03(c):
    batch(c, 3, 'outputs read after changes of their batch', Q(150, 3000))


@check('B04')
def b04(c):
    batch(c, 4, 'settings of batches', Q(150, 3000))


# ------------------------------------------------------------------------------------------------ T01-T06, R02-R04 thermodynamics
def thermo(c, mode, what, walks, depth=160, focus=None):
    b = c.gen('ThermoGen', WALK, {'walks': walks, 'depth': depth, 'mode': mode}, what)
    c.conform('ThermoTrace', b, what, props={'focus': focus or mode})


@check('T01')
def t01(c):
    thermo(c, 1, 'properties of random substances and reactions', Q(300, 4000))


@check('T09')
def t09(c):
    thermo(c, 15, 'properties inside and outside of limits', Q(250, 3000))


@check('T02')
def t02(c):
    thermo(c, 2, 'properties at the reference state', Q(600, 8000), depth=40)


@check('T03')
def t03(c):
    thermo(c, 3, 'properties at neighbouring temperatures and pressures', Q(300, 4000))


@check('T04')
def t04(c):
    thermo(c, 4, 'properties of random substances', Q(300, 4000))


@check('T05')
def t05(c):
    thermo(c, 5, 'answers under different conventions', Q(300, 4000))


@check('T06')
def t06(c):
    thermo(c, 6, 'other forms of the same records', Q(300, 4000))


@check('R02')
def r02(c):
    thermo(c, 12, 'substances defined by reactions', Q(300, 4000))


@check('R03')
def r03(c):
    thermo(c, 13, 'reactions with models', Q(300, 4000))


@check('R04')
def r04(c):
    thermo(c, 14, 'missing reference properties', Q(300, 4000))


@check('T07')
def t07(c):
    thermo(c, 7, 'properties of the solvent at neighbouring temperatures and pressures', Q(400, 6000), depth=100)


@check('T08')
def t08(c):
    thermo(c, 8, 'fluids with every equation of state', Q(300, 4000), depth=40)


# ------------------------------------------------------------------------------------------------ P01 the Python module
NOT_IN_PYTHON = {'el_cmp', 'su_cmp', 'db_entropy'}
AS_IN_PYTHON = {'db_setmap': 'db_map'}


def python(bs):
    """the commands that the Python module has; none of those left out creates an object"""
    return [[{**x, 'op': AS_IN_PYTHON.get(x['op'], x['op'])} for x in b if x['op'] not in NOT_IN_PYTHON] for b in bs]


@check('P01')
def p01(c):
    def g(module, mode, what, n, depth, **kw):
        return (c.gen, (module, WALK, {'walks': n, 'depth': depth, 'mode': mode, **kw}, what), {})
    jobs = [('EngineTrace', 0, g('EngineGen', m, w, Q(60, 900), 60, probes=60)) for m, w in
            ((3, 'engines made and copied in Python'), (4, 'engines changed in Python'), (5, 'failing queries in Python'), (7, 'contents given to Python in different ways'))]
    jobs += [('ValuesTrace', 0, g('ValuesGen', 0, 'elements, substances and reactions in Python', Q(100, 1500), 80)),
             ('DatabaseTrace', 0, g('DatabaseGen', 1, 'databases in Python', Q(100, 1500), 60)),
             ('DatabaseTrace', 0, g('DatabaseGen', 2, 'formulas in Python', Q(60, 800), 60)),
             ('BatchTrace', 0, g('BatchGen', 1, 'batches in Python', Q(60, 900), 100, maps=0)),
             ('BatchTrace', 0, g('BatchGen', 2, 'files written from Python', Q(40, 600), 100, maps=0)),
             ('BatchTrace', 0, g('BatchGen', 4, 'settings of batches in Python', Q(60, 900), 100, maps=0)),
             ('ThermoTrace', 4, g('ThermoGen', 4, 'properties of random substances from Python', Q(40, 600), 160))]
    jobs += [('PyFieldsTrace', 0, (c.gen, ('PyFieldsGen', WALK, {'walks': Q(60, 600), 'depth': 120}, 'fields of the structures'), {}))]
    runs = {}
    for (spec, focus, _), b in zip(jobs, c.par([j for _, _, j in jobs])):
        runs.setdefault((spec, 1 if spec == 'EngineTrace' else focus), []).extend(python(b))
    what = {'EngineTrace': 'engines', 'ValuesTrace': 'records', 'DatabaseTrace': 'databases', 'BatchTrace': 'batches', 'ThermoTrace': 'properties', 'PyFieldsTrace': 'structures'}
    for (spec, focus), b in runs.items():
        c.conform(spec, b, what[spec] + ' in Python', props={'focus': focus} if focus else None)
