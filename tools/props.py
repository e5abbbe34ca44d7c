#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'observe_at': list(observe), 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'hook_needed': None}})


ENG = 'ThermoFun/ThermoEngine.cpp'
H, I, C = 'histories', 'inputs', 'configurations'
HI, HIC = [H, I], [H, I, C]

# ------------------------------------------------------------------------------------------------ the engine as a state machine
p('E01', 'Engine results do not depend on earlier queries',
  'The result of a property query (substance, reaction, reaction from reactants, solvent, electro-chemical solvent properties) depends only on the query and on the '
  'present data, preferences and conventions of the engine. It is the result a newly built engine with the same data and settings gives, whatever was queried before, '
  'in which order, at which other temperatures and pressures, and through which engine.',
  HI, 'all sequences of queries of one or more engines, of all kinds, at any temperatures and pressures (including repeated and failing ones)',
  'A stale cache entry, a static or a preference written during a query only shows after particular earlier queries; a test sees one order.',
  [ENG, 'ThermoFun/OptimizationUtils.h', 'ThermoFun/ThermoModelsSolvent.cpp'],
  [('per-engine memoised functions keyed by temperature, pressure and symbol', ENG), ('queries work on local copies of the preferences', ENG)],
  ['return values of the ThermoEngine query functions'], [('engine caches', 'results of earlier queries', ENG)])
p('E02', 'Result caching is invisible in the results',
  'Switching memoization on or off and choosing any cache size, at any moment in the life of an engine, does not change the result or the resolved pressure of any query.',
  HIC, 'all query histories x {caching off, on with any size} x changes between them',
  'Eviction and key errors only manifest for particular interleavings of many distinct queries and cache sizes.',
  [ENG, 'ThermoFun/OptimizationUtils.h'], [('memoize / memoizeN wrappers around every model function', ENG)], ['return values of the query functions'],
  [('EnginePreferences.enable_memoize, max_cache_size', 'cache configuration', 'ThermoFun/ThermoEngine.h')])
p('E03', 'Copied and assigned engines, databases and outputs are independent',
  'A copy (by construction or assignment) of an engine gives the results of its original at the time of copying, and afterwards neither sees changes of data, '
  'preferences, conventions or solvent made to the other; the same holds between a database and the engines and batches built from it, and destroying the original leaves the copy usable.',
  HI, 'all interleavings of copy, assign, destroy, change and query operations over several engines and databases',
  'Shared caches and dangling references only show in interleavings of operations on original and copy.',
  [ENG, 'ThermoFun/Database.cpp', 'ThermoFun/ThermoEngine.h'], [('deep copy of the implementation with caches rebuilt', ENG)], ['query results of both objects'])
p('E04', 'Changes of data and settings take effect on the next calculation',
  'After data is appended to an engine, or its solvent symbol, preferences or conventions are changed through any accessor, the next query uses the new data and settings completely: '
  'the result is the one of an engine that had them from the beginning.',
  HI, 'all interleavings of data and settings changes with queries',
  'Requires a query before the change to fill a cache and the same query after it; the combinations are unbounded.',
  [ENG], [('caches dropped when data, preferences or conventions change', ENG)], ['query results'])
p('E05', 'Failing queries report an error and change nothing',
  'A query that cannot be answered (unknown symbol, missing reactant data, definitions that refer to each other in a circle, unsupported model) ends with an exception, '
  'not with an abnormal termination or endless recursion, and all later queries give the results they would have given without it.',
  [H, I, 'fault_sequences'], 'all positions of failing queries in all histories; all shapes of circular definitions',
  'The failure must be followed by particular queries, and circular definitions have unboundedly many shapes.',
  [ENG, 'ThermoFun/Database.cpp'], [('tracking of the substances being calculated', ENG), ('errors are not cached', 'ThermoFun/OptimizationUtils.h')], ['exceptions and later results'])
p('E06', 'Pressure 0 means saturated vapour pressure of the solvent, resolved once',
  'A query at pressure 0 is answered at the saturated vapour pressure of the solvent at that temperature: the pressure argument returned is the same for all substances and '
  'reactions at that temperature, cached or not, and the result is the one obtained with that pressure given explicitly. A nonzero pressure argument is never changed.',
  HI, 'all query kinds, temperatures and histories (also cached and failing queries)',
  'The resolved pressure is a side effect on an argument; losing it depends on cache hits, i.e. on the history.',
  [ENG, 'ThermoFun/OptimizationUtils.h'], [('reference arguments restored on cache hits', 'ThermoFun/OptimizationUtils.h'), ('Psat from the water models', 'ThermoFun/ThermoModelsSolvent.cpp')], ['pressure argument after the call'])
# ------------------------------------------------------------------------------------------------ reactions
p('R01', 'Reaction properties from reactants are the stoichiometric sums',
  'Properties of a reaction calculated from its reactants are, for G, H, S, V, Cp, Cv, A and U, the sums of coefficient times property of each reactant at the same temperature and pressure, '
  'and log K = -G/(RT ln 10), ln K = ln 10 log K. Every reactant is counted exactly once with its coefficient, in any order, for any number of reactants.',
  HI, 'all reactions (any number and order of reactants, any coefficients) x temperatures and pressures x databases',
  'A dropped or doubled term shows only for particular stoichiometries and properties.',
  [ENG], [('loop over the reactants', ENG)], ['thermoPropertiesReactionFromReactants'])
p('R02', 'Substances defined by reactions are consistent with their reaction',
  'For a substance defined by a reaction, the reaction properties calculated from the reactants (including that substance) are those of the defining reaction, for any stoichiometric coefficient of '
  'the substance, any depth of nesting of such definitions and every temperature and pressure.',
  HI, 'all definition graphs without circles x coefficients x temperatures x pressures',
  'Needs a coefficient other than 1, nested definitions, and the comparison of two ways of calculating.',
  [ENG], [('inversion of the reaction for one reactant', ENG)], ['substance and reaction query results'])
p('R03', 'Models of reactions give the log K of their equation and consistent properties',
  "For a reaction with a temperature model of log K (function of temperature, one- to three-term extrapolations, Marshall-Franck, Ryzhenko-Bryzgalyn, Dolejs-Manning density models, with or without constant volume), the calculated log K follows the model equation with the record's coefficients, and G, H, S, V and Cp are those that follow from it (G = -RT ln K, van 't Hoff). Missing coefficients end in an error.",
  I, 'all coefficient sets of each model x temperatures',
  'Identities over continuous inputs and all coefficient combinations.',
  ['ThermoFun/Reactions/LogK_function_of_T.cpp', 'ThermoFun/Reactions'], [('closed forms per model', 'ThermoFun/Reactions')], ['thermoPropertiesReaction'])
p('R04', 'Missing reference data of reactions are completed consistently',
  'When a reaction record gives only some of log K, G, H and S at the reference state, the missing ones follow from G = H - T S and G = -RT ln 10 log K; a property that the model of a substance does not provide takes its value of the reference state only if the preference allows it, and then exactly this value; a substance without any model has its reference properties.',
  [I, C], 'all combinations of present and absent fields x preferences',
  'Combinatorial choice of absent fields.', ['ThermoFun/Common/ParseJsonToData.cpp', ENG], [('completion of missing values when a record is parsed', 'ThermoFun/Common/ParseJsonToData.cpp')], ['query results'])
# ------------------------------------------------------------------------------------------------ thermodynamic identities
p('T01', 'Returned properties satisfy the definitions of U and A',
  'For every substance, model, temperature and pressure where these are calculated, the returned internal energy is U = H - P V and the returned Helmholtz energy A = U - T S with the returned H, S and V at the resolved pressure (for water plus the offset of its triple point data, the same at every temperature and pressure); for reactions log K is ln K / ln 10, and for those calculated from reactants or with a model of log K the returned G is -RT ln K.',
  [I, C], 'all substances of all distributed databases and generated ones x models x temperatures and pressures',
  'Continuous domain and many models, some of which only one substance uses.', [ENG, 'ThermoFun/Substances'], [('final assembly in each model', 'ThermoFun/Substances')], ['query results'])
p('T02', 'At the reference state a substance has its reference properties',
  'For substances with a heat capacity equation or constant heat capacity (and any of the volume models of solids, or the ideal gas), the G, H and S calculated at the reference temperature and pressure of the record are those of the record, and so are V where a volume model is used and Cp where it is constant.',
  I, 'all records of these models', 'All records, each with its own model and reference state.', ['ThermoFun/Substances'], [('integration from the reference state', 'ThermoFun/Substances/EmpiricalCpIntegration.cpp')], ['query results at Tr, Pr'])
p('T03', 'H, S, V and Cp are the temperature and pressure derivatives of G',
  'For substances (minerals, ideal gases, aqueous species, water, substances defined by reactions) and reactions, the returned values satisfy dG/dT = -S, dG/dP = V, dH/dT = Cp and dS/dT = Cp/T between neighbouring temperatures and pressures, within the accuracy of the model; DESIGN.md lists the models for which only some of these relations hold.',
  I, 'all models x coefficient sets x temperatures and pressures', 'Relations between results at several points of a continuous domain.',
  ['ThermoFun/Substances', 'ThermoFun/Reactions'], [('closed forms per model', 'ThermoFun/Substances')], ['query results at neighbouring points'])
p('T04', 'Substances follow the equations and coefficients of their models',
  'The calculated properties of a substance are those of the model equations with the coefficients of its record. Heat capacity coefficients for several temperature intervals: the values at T are those at the reference temperature plus the integral of Cp (all terms, each interval with its own coefficients, for T above and below the reference temperature) plus the enthalpy, entropy and volume of each phase transition passed. On top of these the Landau transition, constant volume, Murnaghan and Berman volume and ideal gas corrections; and the HKF equations of aqueous species with the properties of the solvent. A substance whose coefficients are too few for its model is an error.',
  I, 'all numbers and positions of intervals, coefficients, transitions and temperatures (inside, at the borders, outside)',
  'Piecewise function with unbounded number of pieces; borders, gaps and temperatures below the first interval are rarely sampled.',
  ['ThermoFun/Substances/EmpiricalCpIntegration.cpp'], [('loop over the intervals', 'ThermoFun/Substances/EmpiricalCpIntegration.cpp')], ['substance query results'])
p('T05', 'Conventions only shift enthalpy and Gibbs energy as documented',
  'The apparent-property convention of Berman-Brown lowers G of a substance other than the solvent by exactly its reference temperature times the entropy of the elements of its formula and changes nothing else; the steam table convention takes the properties of the triple point from H, S and U of water (constants) and from G and A (constant plus (T - 273.16) S of the triple point, so that G = H - T S stays true); reactions change accordingly, and switching back restores the results.',
  HI, 'all conventions x substances x histories of switching', 'Interaction of conventions, caches and substances.', [ENG, 'ThermoFun/ThermoModelsSubstance.cpp'], [('offset applied after the model', ENG)], ['query results under each convention'])
p('T06', 'Models are selected by the record only',
  'Which temperature, pressure and equation-of-state model a substance or reaction uses depends only on its record (method fields, substance class, aggregate state, present data), not on other records or the order of the method list; an unsupported method is an error or the documented fallback.',
  [I, C], 'all combinations of methods, classes and states', 'Combinatorial dispatch.', [ENG, 'ThermoFun/Common/ParseJsonToData.cpp'], [('selection chains', ENG)], ['query results'])
p('T07', 'Properties of the solvent are the derivatives of density and permittivity',
  'For each equation of state of water and each dielectric model, in every combination, the returned thermal expansion and its temperature derivative, compressibility and density derivatives are the derivatives of the returned density between neighbouring temperatures and pressures, '
  'and the returned Born functions Z, Y, X, Q and the derivatives of the dielectric constant are those of the returned dielectric constant; alpha = -(drho/dT)/rho, beta = (drho/dP)/rho, Z = -1/eps, and the volume of water as a substance is its molar mass by its density.',
  [I, C], 'all equations of state x dielectric models x temperatures and pressures', 'Relations between results at several points of a continuous domain, for all combinations of models.',
  ['ThermoFun/Substances/Solvent', 'ThermoFun/ThermoModelsSolvent.cpp'], [('derivatives per model', 'ThermoFun/Substances/Solvent')], ['propertiesSolvent, electroPropertiesSolvent at neighbouring points'])
p('T08', 'Fluids follow their equation of state',
  'For water with the equations of state of Haar-Gallagher-Kell, Wagner-Pruss and Zhang-Duan, the answered volume (density) is a mechanically stable solution of the published equation of state at the asked temperature and pressure, liquid where water is liquid, and G, H, S, Cp, U and A (but for Zhang-Duan) are the derivatives of the same Helmholtz energy, counted from the triple point of the convention; '
  'the dielectric constant (Johnson-Norton, Sverjensky, Fernandez) is the published function of temperature and answered density. For gases (Peng-Robinson-Stryjek-Vera, Peng-Robinson 1978, Soave-Redlich-Kwong, Sterner-Pitzer, CORK) the volume solves the equation of state for the record\'s critical parameters, is the root of lowest fugacity, and the departures of H and S are those of the same equation of state; outside of the limits of the model the gas is ideal, and a model without parameters is an error.',
  [I, C], 'all equations of state x critical parameters x temperatures and pressures', 'A continuous domain with several regimes (phases, roots, temperature ranges) for every model; oracle is the thermodynamic potential.',
  ['ThermoFun/Substances/Solvent', 'ThermoFun/Substances/Gases', 'ThermoFun/ThermoModelsSubstance.cpp'], [('equations of state', 'ThermoFun/Substances')], ['thermoPropertiesSubstance, propertiesSolvent, electroPropertiesSolvent'])
p('T09', 'Answers outside of the limits say so',
  'A calculated answer for a substance whose method checks limits (HKF, Landau, Berman, Murnaghan, heat capacity equations, gas equations of state) outside of the temperature or pressure limits of its record, outside of every interval of its heat capacity equation, or (HKF) at a water density outside of 600-1400 kg/m3, carries a message that says so with at least one of its properties; '
  'an answer inside of them carries no such message. A limit that is not given is no limit.',
  [I, C], 'all methods x limits given or not x temperatures and pressures', 'Holds for all records and conditions; the marks are made in many models with units of their own.',
  ['ThermoFun/Substance.cpp', 'ThermoFun/Substances'], [('limits of a record', 'ThermoFun/Substance.cpp')], ['thermoPropertiesSubstance'])
# ------------------------------------------------------------------------------------------------ data
p('D01', 'A database holds exactly one record per symbol: the one last set or loaded',
  'After any sequence of add, set, append, load, copy and access operations a database holds for every symbol exactly one record: setting, appending and loading replace the record of a symbol, adding (single and bulk, object and JSON forms) keeps a record that is there. '
  'Lists, maps, counts and membership tests agree with this, reading adds or removes nothing, asking for an absent record by a getter is an error (a reference by symbol makes a new default record), and a copy of a database is independent.',
  HI, 'all operation sequences over elements, substances and reactions', 'Store semantics over histories.', ['ThermoFun/Database.cpp'], [('maps by symbol', 'ThermoFun/Database.cpp')], ['lists, counts, getters'])
p('D02', 'Formula results use the present element data of the database',
  'Composition, molar mass and elemental entropy calculated from a formula are the sums over its elements of the data the database has for them at that moment, charges are those of the formulas, and a formula with an unknown element is an error.',
  HI, 'all formulas x element data x histories of changes', 'Needs a change of element data between queries, and all formulas.', ['ThermoFun/Database.cpp'], [('element data handed to the formula parser', 'ThermoFun/Database.cpp')], ['formula functions'])
p('D03', 'Elements, substances and reactions are values',
  'Copying or assigning an element, substance or reaction copies all its fields, later changes through any setter affect only the object changed and only the field set, and getters return what was set.',
  HI, 'all sequences of copy, assign, set and get over several objects', 'Aliasing shows only after a copy followed by a change.', ['ThermoFun/Element.cpp', 'ThermoFun/Substance.cpp', 'ThermoFun/Reaction.cpp'], [('pimpl deep copies', 'ThermoFun/Substance.cpp')], ['getters'])
p('D04', 'Records are read completely and independently of each other',
  'Every recognised field of an element, substance or reaction record reaches the object exactly with its value (converted from its unit where one is given), independent of the order of the fields and of other records; absent or null fields give the documented default; a record with a value whose unit is unknown or of another dimension is an error.',
  I, 'all records: any subset and order of fields, any methods, any values', 'Unbounded structured inputs.', ['ThermoFun/Common/ParseJsonToData.cpp'], [('field by field parsing', 'ThermoFun/Common/ParseJsonToData.cpp')], ['getters after reading'])
p('D05', 'Reaction equations are read into their stoichiometry',
  'An equation text gives exactly its species with coefficients, negative for the left and positive for the right side, repeated species summed, independent of spacing, for any number of species, and replaces what the reaction contained before.',
  HI, 'all equations with the supported syntax', 'Unbounded language.', ['ThermoFun/Reaction.cpp', 'ThermoFun/Common/ParseJsonToData.cpp'], [('equation parser', 'ThermoFun/Reaction.cpp')], ['reactants after reading'])
p('D06', 'Unit conversion is exact, consistent and total',
  'Converting a value between two unit expressions multiplies by the ratio of their factors (temperatures: affine), for all products, quotients and powers of known units and prefixes; there and back gives the value again; expressions of different dimension or malformed ones are an error.',
  I, 'all unit expressions x values', 'Unbounded language of unit expressions.', ['ThermoFun/Common/Units.cpp'], [('unit parser and table', 'ThermoFun/Common/Units.cpp')], ['units::convert, units::convertible'])
p('D07', 'All ways of loading the same data are equivalent',
  'Data given as a file, as JSON text, as a list of JSON records, or added record by record, in any order and in any split into parts appended one after the other, gives the same records and the same calculated properties.',
  [I, H], 'all databases x ways and orders of loading', 'Unbounded orders and splits.', ['ThermoFun/Database.cpp', 'ThermoFun/Common/ParseJsonToData.cpp'], [('common parsing functions', 'ThermoFun/Database.cpp')], ['database content and query results'])
# ------------------------------------------------------------------------------------------------ batches
p('B01', 'A batch table holds the engine\'s results in the documented places',
  'Each cell of a batch result is the engine\'s value of that property (in its default unit) for that symbol at that temperature and pressure, given in the units chosen for them; a property of another kind is not defined (0). Rows are all combinations of symbols with the given pairs, the grid or the points of the increments (from the minimum to the first one that reaches the maximum), in the order of the loop preferences, columns in the order of the given properties.',
  [I, H, C], 'all lists of symbols, properties, temperatures, pressures, units, loop orders', 'Index arithmetic over all list sizes and option combinations.', ['ThermoFun/Batch/ThermoBatch.cpp', 'ThermoFun/Batch/OutputBatch.cpp'], [('loops and index computations', 'ThermoFun/Batch/ThermoBatch.cpp')], ['to2DVectorDouble'])
p('B02', 'CSV outputs contain the batch results',
  'Every CSV form (rows, transposed, property grids) contains exactly the results of the calculation, converted to the chosen units: header with units, one entry per symbol, condition and property, formatted with the chosen digits, notation, separator and treatment of undefined values.',
  [I, H, C], 'all calculations x formats x preferences', 'As B01, and formatting of all values.', ['ThermoFun/Batch/OutputBatch.cpp'], [('writers', 'ThermoFun/Batch/OutputBatch.cpp')], ['files written'])
p('B03', 'An output keeps the results and settings of its calculation',
  'What an output object returns or writes is determined by the calculation it came from: later calculations, changes of units, digits or preferences of the batch or engine, or the destruction of the batch do not change it, and reading it in one form does not change the others.',
  [H], 'all interleavings of calculations, settings changes and output operations over several outputs', 'Aliasing needs a particular interleaving.', ['ThermoFun/Batch/ThermoBatch.cpp', 'ThermoFun/Batch/OutputBatch.cpp'], [('output holds its own copy', 'ThermoFun/Batch/OutputBatch.cpp')], ['output values'])
p('B04', 'Batch settings take effect, are checked, and stay as set',
  'Units, digits, increments and preferences of a batch stay as set last (single, list and map setters agree) for the following calculations; setting an unknown property is an error at once, impossible units and increments that never end are errors of the calculation or output that uses them, and such errors change nothing.',
  [H, C], 'all sequences of setters, getters and calculations', 'State over histories.', ['ThermoFun/Batch/ThermoBatch.cpp'], [('settings maps', 'ThermoFun/Batch/ThermoBatch.cpp')], ['getters and results'])
# ------------------------------------------------------------------------------------------------ utilities
p('U01', 'Memoised functions are observationally the functions they wrap',
  'A memoised function returns for all arguments (also NaN) what the wrapped function returns, including values written to reference arguments and errors; the unbounded form calls the function once per distinct arguments, the bounded form '
  'keeps at most the given number of results and drops the least recently used one, size 0 keeps none, and a failing call is never remembered.',
  HI, 'all call histories, argument types, cache sizes and failures', 'Cache states grow with the history.', ['ThermoFun/OptimizationUtils.h'], [('memoize, memoizeLast, memoizeLastPtr, memoizeN', 'ThermoFun/OptimizationUtils.h')], ['results, reference arguments, number of calls'])
p('U02', 'Scalars with derivatives follow the rules of calculus',
  'Every operator and function on scalars carrying temperature and pressure derivatives (also compound assignment and mixed forms with plain numbers) returns the value and both derivatives by the rules of calculus, for every nesting of operations.',
  I, 'all expressions and values', 'Unbounded expressions; derivative errors are invisible in values.', ['ThermoFun/Common/ThermoScalar.hpp'], [('operator overloads', 'ThermoFun/Common/ThermoScalar.hpp')], ['value and derivatives'])
p('U03', 'Status and error bounds propagate through scalar arithmetic',
  'The status of the result of an operation is determined by the statuses of its operands (it is not defined if one of them is not defined, otherwise calculated), and its error by Gaussian error propagation, for every operator and nesting.',
  I, 'all expressions, statuses and errors', 'As U02.', ['ThermoFun/Common/ThermoScalar.hpp'], [('status combination and error terms', 'ThermoFun/Common/ThermoScalar.hpp')], ['status and error'])
p('U04', 'Files of calculated properties are complete and separate',
  'The CSV files written through the output manager contain the header followed by exactly the rows written to that file while it was open, in order; opening starts a new file (and finishes the one that was open), closing finishes it, the three kinds of file and several managers do not influence each other, and rows written while no file is open go nowhere: the next file opened still starts with its header.',
  [H], 'all interleavings of open, write, close on the three kinds of files', 'State over histories.', ['ThermoFun/Common/OutputToCSV.cpp'], [('one stream per kind', 'ThermoFun/Common/OutputToCSV.cpp')], ['file contents'])
p('U05', 'Comparison operators are consistent orders',
  'Comparisons of scalars agree with the comparisons of their values for all six operators in all mixed forms; elements are strictly ordered by symbol, name, class, isotope mass and valence, substances by symbol and name; objects that agree in these are equal (elements also if they differ in the valence only), others are not.',
  I, 'all pairs and triples of objects', 'Transitivity over all triples.', ['ThermoFun/Common/ThermoScalar.hpp', 'ThermoFun/Element.cpp', 'ThermoFun/Substance.cpp'], [('operators', 'ThermoFun/Element.cpp')], ['operators'])
# ------------------------------------------------------------------------------------------------ Python
p('P01', 'The Python module behaves as the C++ library',
  'Every function of the Python module that can be called with the documented arguments returns what the C++ function of that name returns for them (engine, database, batches and their outputs, status and derivatives of scalars, units), and fails with an exception where that one fails; a field of a structure shows what was last written to it, in either direction, and writing one changes no other.',
  HI, 'all sequences of calls of the functions of the module and all values of their arguments', 'Bindings are one line per function and field: a wrong overload, field or default shows only when exactly that one is used and compared.', ['python/src/thermofun/PyThermoFun.cpp', 'python/src/thermofun/pyThermoEngine.cpp', 'python/src/thermofun/pyDatabase.cpp', 'python/src/thermofun/pyThermoBatch.cpp', 'python/src/thermofun/pyThermoProperties.cpp', 'python/src/thermofun/pyThermoParameters.cpp'], [('one binding per function and member', 'python/src/thermofun/PyThermoFun.cpp')], ['results and exceptions of the module'])

for x in P:
    if isinstance(x['quantifier']['over'], str):
        x['quantifier']['over'] = [x['quantifier']['over']]
with open(ROOT + '/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
