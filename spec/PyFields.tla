------------------------------ MODULE PyFields -----------------------------
(* The structures of the Python module as records: a field shows what was last written to it, and writing one field changes
   no other.  Types: r real, b truth value, i integer, s text, v list of reals, m list of lists, t scalar with derivatives,
   p status and message.

   Commands: fl_new(h, cls), fl_set(h, f, v), fl_get(h); py_water: the table of the triple points of water;
   py_properties: the properties a batch can calculate                                                              *)
EXTENDS VF, RealArith, FiniteSets, SequencesExt, TLC, WaterTriple

SubNames == {"gibbs_energy", "helmholtz_energy", "internal_energy", "enthalpy", "entropy", "volume", "heat_capacity_cp", "heat_capacity_cv"}
ReaNames == {"ln_equilibrium_constant", "log_equilibrium_constant"} \cup {"reaction_" \o n : n \in SubNames}
All(ns, t) == [n \in ns |-> t]
Types == [
  ThermoScalar |-> All({"val", "ddt", "ddp", "err"}, "r") @@ ("sta" :> "p"),
  ThermoPropertiesSubstance |-> All(SubNames, "t"),
  ThermoPropertiesReaction |-> All(ReaNames, "t"),
  ElectroPropertiesSolvent |-> All({"epsilon", "epsilonT", "epsilonP", "epsilonTT", "epsilonTP", "epsilonPP", "bornZ", "bornY", "bornQ", "bornN", "bornU", "bornX"}, "t"),
  PropertiesSolvent |-> All({"speed_of_sound", "dynamic_viscosity", "thermal_conductivity", "surface_tension", "Tdiff", "Prndtl", "Visck"}, "r") @@
    All({"Alpha", "dAldT", "Beta", "Albe", "density", "densityT", "densityP", "densityTT", "densityTP", "densityPP", "pressure", "pressureT", "pressureD", "pressureTT", "pressureTD", "pressureDD"}, "t"),
  ThermoParametersSubstance |-> All({"isothermal_compresibility", "isobaric_expansivity"}, "r") @@
    All({"temperature_intervals", "pressure_intervals", "Cp_coeff", "phase_transition_prop", "phase_transition_prop_Berman"}, "m") @@
    All({"Cp_nonElectrolyte_coeff", "m_landau_phase_trans_props", "HKF_parameters", "volume_coeff", "critical_parameters", "volume_BirchM_coeff", "empirical_coeff", "solute_holland_powell98_coeff"}, "v"),
  ThermoParametersReaction |-> All({"temperature_intervals", "pressure_intervals"}, "m") @@
    All({"reaction_logK_fT_coeff", "logK_TP_array", "reaction_Cp_fT_coeff", "reaction_V_fT_coeff", "reaction_RB_coeff", "reaction_FM_coeff", "reaction_DM10_coeff"}, "v"),
  EnginePreferences |-> All({"enable_memoize", "fallback_to_reference_properties", "apply_pressure_correction_to_gas_props"}, "b") @@ All({"max_cache_size", "solventState"}, "i") @@ ("solventSymbol" :> "s"),
  EngineConventions |-> All({"apparent_properties", "water_properties"}, "s"),
  DatabaseConventions |-> ("water_triple_point_reference" :> "s"),
  BatchPreferences |-> All({"isFixed", "isFloating", "isScientific", "outputSolventProperties", "substancePropertiesFromReaction", "reactionPropertiesFromReactants", "loopOverTPpairsFirst",
    "loopTemperatureThenPressure", "writeNaNifNotDefinedValue"}, "b") @@ All({"separator", "fileName", "solventFileName"}, "s") ]
\* defaults a user relies on
Defaults == [EnginePreferences |-> [enable_memoize |-> TRUE, max_cache_size |-> 1000000, solventState |-> 0, solventSymbol |-> "H2O@", fallback_to_reference_properties |-> FALSE,
                                    apply_pressure_correction_to_gas_props |-> FALSE],
             EngineConventions |-> [apparent_properties |-> "BENSON_HELGESON", water_properties |-> "GEOCHEMICAL"],
             DatabaseConventions |-> [water_triple_point_reference |-> "HKF_HGK_1974"],
             BatchPreferences |-> [isFixed |-> TRUE, isScientific |-> FALSE, separator |-> ",", reactionPropertiesFromReactants |-> FALSE, loopOverTPpairsFirst |-> TRUE,
                                   loopTemperatureThenPressure |-> TRUE, writeNaNifNotDefinedValue |-> TRUE, outputSolventProperties |-> FALSE]]
SameReal(a, b) == RClose(a, b, "1e-15", "0")
SameVec(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameReal(a[i], b[i])
Same(t, a, b) ==
  CASE t = "r" -> SameReal(a, b)
    [] t = "v" -> SameVec(a, b)
    [] t = "m" -> Len(a) = Len(b) /\ \A i \in DOMAIN a : SameVec(a[i], b[i])
    [] t = "t" -> a[5] = b[5] /\ \A i \in 1..4 : SameReal(a[i], b[i])
    [] OTHER -> a = b
SameAll(cls, a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN b : Same(Types[cls][f], a[f], b[f])
Conf(st, c) ==
  CASE c.op = "fl_set" -> [st EXCEPT ![c.h].val = Upd(@, c.f, c.v)]
    [] c.op = "fl_del" -> Del(st, c.h)
    [] OTHER -> st
\* ---------------------------------------------------------------- the table of the triple points, J
CalToJ == "4.184"
WaterOk(r) == /\ DOMAIN r = DOMAIN WaterTriple
              /\ \A w \in DOMAIN WaterTriple : DOMAIN r[w] = DOMAIN WaterTriple[w] /\ \A f \in DOMAIN WaterTriple[w] : RClose(r[w][f], WaterTriple[w][f] (.) CalToJ, "1e-13", "0")
\* ---------------------------------------------------------------- trace interface
Init0 == NoFcn
Reset(st) == NoFcn
Allowed(st, e) ==
  LET c == e.c IN
  /\ e.ok
  /\ CASE c.op = "fl_new" -> DOMAIN e.r = DOMAIN Types[c.cls] /\ (c.cls \in DOMAIN Defaults => \A f \in DOMAIN Defaults[c.cls] : e.r[f] = Defaults[c.cls][f])
       [] c.op \in {"fl_set", "fl_get"} -> SameAll(st[c.h].cls, e.r, Conf(st, c)[c.h].val)
       [] c.op = "py_water" -> WaterOk(e.r)
       [] OTHER -> TRUE
Step(st, e) == IF e.c.op = "fl_new" THEN Upd(st, e.c.h, [cls |-> e.c.cls, val |-> e.r]) ELSE Conf(st, e.c)
Expect(st, e) == IF e.c.op \in {"fl_set", "fl_get"} THEN Conf(st, e.c)[e.c.h] ELSE IF e.c.op = "fl_new" THEN DOMAIN Types[e.c.cls] ELSE IF e.c.op = "py_water" THEN WaterTriple ELSE "accepted"
=============================================================================
