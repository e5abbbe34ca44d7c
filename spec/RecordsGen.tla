----------------------------- MODULE RecordsGen -----------------------------
(* Random records of elements, substances and reactions: any subset of the fields, values in any unit of the dimension of
   the field, several methods in any order, fields that are null.  A few have a unit of another dimension.            *)
EXTENDS Records, SequencesExt
VARIABLES w, st, hist
Nothing == [no_such_field |-> "x"]
May(p, f, v) == IF Chance(p) THEN (f :> v) ELSE Nothing
R(x) == "@" \o RndReal("-1000", "1000", 3)
Pos(x) == "@" \o RndReal("1", "1000", 3)
V(x) == IF Chance(15) THEN Pick(<<"@0", "@1", "@-1", "@1e5", "@1e-7", "@-2.5e-3">>) ELSE R(0)
Text0(x) == Pick(<<"A", "B2", "Na+", "Quartz", "", "x y", "name, with comma", "H2O@">>)
\* units by the dimension of the field; some are wrong
En == <<"J/mol", "kJ/mol", "cal/mol", "kcal/mol", "J/mmol", "J/mole", "(J)/mol">>
Ent == <<"J/(mol*K)", "J/K/mol", "cal/(mol*K)", "kJ/mol/K", "cal/mol/K", "J/(K*mol)", "mol/mol*J/(mol*K)">>
Vol == <<"J/bar", "cm3", "cm^3", "m3", "l", "J/Pa", "kJ/bar", "J/kbar">>
Mass == <<"g/mol", "kg/mol", "mg/mol", "g/mmol">>
Dim(u) == IF u = "J/mol" THEN En ELSE IF u \in {"J/K/mol", "J/(mol*K)"} THEN Ent ELSE IF u = "J/bar" THEN Vol ELSE IF u = "g/mol" THEN Mass ELSE <<u>>
AUnit(u) == IF Chance(3) THEN Pick(<<"m", "J", "foo", "J/mol/K/K">>) ELSE Pick(Dim(u))
\* [values, units, errors] with the units given, absent or null
Value(u) == LET k == Rnd(100) IN
  (IF k <= 90 THEN [values |-> <<V(0)>>] ELSE IF k <= 95 THEN [values |-> <<"@null">>] ELSE [note |-> "no values"]) @@
  (IF Chance(75) THEN [units |-> <<AUnit(u)>>] ELSE IF Chance(20) THEN [units |-> <<>>] ELSE IF Chance(20) THEN [units |-> <<"@null">>] ELSE [note |-> "no units"]) @@
  (IF Chance(40) THEN [errors |-> <<Pos(0)>>] ELSE IF Chance(20) THEN [errors |-> <<"@null">>] ELSE [note |-> "no errors"])
\* coefficients: units of the list as expected, other units of the same dimension, fewer units, none
CUnit(u) == IF u \in {"J/(mol*K)", "J/mol", "J/bar"} THEN Pick(Dim(u))
  ELSE CASE u = "cal/(mol*bar)" -> Pick(<<u, "J/(mol*bar)", "cal/mol/bar">>) [] u = "cal/mol" -> Pick(En) [] u = "(cal*K)/mol" -> Pick(<<u, "J*K/mol">>) [] u = "cal/(mol*K)" -> Pick(Ent)
         [] u = "K" -> Pick(<<"K", "degC", "K">>) [] u = "bar" -> Pick(<<"bar", "Pa", "MPa">>) [] u = "J/(mol*K^2)" -> Pick(<<u, "cal/(mol*K^2)", "kJ/mol/K^2">>) [] u = "(J*K)/mol" -> Pick(<<u, "cal*K/mol", "kJ*K/mol">>)
         [] u = "J/(mol*K^0.5)" -> Pick(<<u, "cal/(mol*K^0.5)">>) [] u = "1/bar" -> Pick(<<u, "1/kbar", "1/Pa">>) [] u = "kJ/mol" -> Pick(En) [] u = "degC" -> Pick(<<u, "K">>) [] u = "(cm^3)/g" -> Pick(<<u, "m3/kg">>)
         [] u = "kJ/(mol*K^2)" -> Pick(<<u, "J/(mol*K^2)">>) [] OTHER -> u
List(key, us, extra) ==
  LET n == IF Chance(70) THEN Len(us) ELSE Rnd(Len(us) + extra)
      k == Rnd(100)
      m == IF k <= 60 THEN Len(us) ELSE Rnd(Len(us) + 1) - 1
  IN (key :> ([values |-> [i \in 1..n |-> V(i)]] @@
              (IF k <= 20 THEN [note |-> ""] ELSE IF key = "eos_hkf_coeffs" /\ k <= 45 THEN [units |-> <<"cal/(mol*bar)", "cal/mol", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol">>]
               ELSE [units |-> [i \in 1..m |-> IF Chance(5) THEN "" ELSE IF Chance(1) THEN "mol" ELSE CUnit(us[i])]])))
SParams == << <<"eos_akinfiev_diamond_coeffs", <<"1", "(cm^3)/g", "(cm^3*K^0.5)/g">> >>, <<"eos_gas_crit_props", <<"K", "bar", "1", "1">> >>, <<"eos_hkf_coeffs", HkfUnits>>, <<"m_heat_capacity_ft_coeffs", CpUnits>>, <<"m_heat_capacity_ft_coeffs", CpUnits>>,
  <<"m_phase_trans_props", <<"K", "J/(mol*K)", "J/mol", "J/bar", "K/bar">> >>, <<"m_landau_phase_trans_props", <<"degC", "J/(mol*K)", "J/bar">> >>, <<"solute_holland_powell98_coeff", <<"kJ/(mol*K^2)">> >> >>
RParams == << <<"logk_ft_coeffs", <<"1", "1/K", "K", "1", "K^2", "1/K^2", "K^0.5">> >>, <<"dr_heat_capacity_ft_coeffs", <<"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)">> >>, <<"dr_volume_fpt_coeffs", <<"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2">> >>,
  <<"dr_ryzhenko_coeffs", <<"1", "1", "1">> >>, <<"dr_marshall_franck_coeffs", <<"1", "K", "K^2", "K^3", "1", "K", "K^2">> >>, <<"dr_dolejs_manning10_coeffs", <<"J/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)">> >> >>
SKeys == SetToSeq(DOMAIN SEos \cup DOMAIN SmT \cup DOMAIN SmP \cup {"0"})
RKeys == SetToSeq(DOMAIN REos \cup DOMAIN RmT \cup DOMAIN RmP)
Limits(x) == LET k == Rnd(4) IN IF k = 1 THEN [lowerT |-> Pos(0), upperT |-> Pos(0)] ELSE IF k = 2 THEN [lowerT |-> Pos(0)] ELSE IF k = 3 THEN [upperT |-> Pos(0)] ELSE [pressure |-> "@1"]
Method(sub) ==
  LET key == IF sub /\ Chance(35) THEN "0" ELSE Pick(IF sub THEN SKeys ELSE RKeys)
      p == Pick(IF sub THEN SParams ELSE RParams) q == Pick(IF sub THEN SParams ELSE RParams)
  IN (IF Chance(95) THEN [method |-> (key :> IF sub /\ key = "0" THEN "cp_ft_equation" ELSE "m" \o key)] ELSE [remark |-> ""]) @@
     (IF Chance(60) THEN [limitsTP |-> Limits(0)] ELSE [remark |-> ""]) @@
     (IF Chance(80) THEN List(p[1], p[2], 2) ELSE [remark |-> ""]) @@ (IF Chance(20) THEN List(q[1], q[2], 1) ELSE [remark |-> ""])
RECURSIVE MethodList(_, _)
MethodList(n, sub) == IF n = 0 THEN <<>> ELSE MethodList(n - 1, sub) \o <<Method(sub)>>
El(x) == May(80, "name", Text0(0)) @@ May(80, "symbol", Text0(0)) @@ May(60, "number", Rnd(100)) @@ May(70, "entropy", Value("J/(mol*K)")) @@ May(50, "heat_capacity", Value("J/(mol*K)")) @@ May(80, "atomic_mass", Value("g/mol"))
  @@ May(40, "volume", Value("J/bar")) @@ May(60, "class_", (Pick(<<"0", "1", "2", "4">>) :> "c")) @@ May(30, "isotope_mass", Rnd(30))
Su(x) == May(80, "name", Text0(0)) @@ May(80, "symbol", Text0(0)) @@ May(70, "formula", Text0(0)) @@ May(60, "formula_charge", Rnd(7) - 4) @@ May(40, "reaction", Text0(0)) @@ May(60, "mass_per_mole", Value("g/mol"))
  @@ May(60, "aggregate_state", (Pick(<<"0", "3", "4", "1">>) :> "s")) @@ May(60, "class_", (Pick(<<"0", "1", "2", "3", "4">>) :> "c")) @@ May(50, "limitsTP", Limits(0)) @@ May(60, "Tst", Pos(0)) @@ May(60, "Pst", Pos(0))
  @@ May(75, "TPMethods", MethodList(Rnd(5) - 1, TRUE)) @@ May(60, "sm_gibbs_energy", Value("J/mol")) @@ May(60, "sm_enthalpy", Value("J/mol")) @@ May(60, "sm_entropy_abs", Value("J/K/mol")) @@ May(60, "sm_volume", Value("J/bar"))
  @@ May(60, "sm_heat_capacity_p", Value("J/K/mol")) @@ May(25, "m_expansivity", IF Chance(50) THEN [values |-> <<V(0)>>, units |-> <<"kbar">>] ELSE [values |-> <<V(0)>>, units |-> <<"1/K">>])
  @@ May(25, "m_compressibility", IF Chance(50) THEN [values |-> <<V(0)>>, units |-> <<"1e-05/K">>] ELSE [values |-> <<V(0)>>, units |-> <<Pick(<<"kbar", "bar", "GPa">>)>>])
Re(x) == May(80, "name", Text0(0)) @@ May(70, "symbol", Text0(0)) @@ May(60, "equation", Pick(<<"A + B = C", "2A = B", "A + 2 A = 0.5B + Na+", "H2O@ = H+ + OH-">>))
  @@ May(60, "reactants", [i \in 1..(Rnd(4) - 1) |-> [symbol |-> Pick(<<"A", "B", "Na+", "A">>), coefficient |-> R(i)]]) @@ May(50, "limitsTP", Limits(0)) @@ May(60, "Tst", Pos(0)) @@ May(60, "Pst", Pos(0))
  @@ May(75, "TPMethods", MethodList(Rnd(5) - 1, FALSE)) @@ May(60, "logKr", Value("1")) @@ May(60, "drsm_gibbs_energy", Value("J/mol")) @@ May(60, "drsm_enthalpy", Value("J/mol")) @@ May(60, "drsm_entropy", Value("J/K/mol"))
  @@ May(60, "drsm_volume", Value("J/bar")) @@ May(60, "drsm_heat_capacity_p", Value("J/K/mol"))
Fields(k) == CASE k = "el" -> <<"name", "symbol", "number", "entropy", "heat_capacity", "atomic_mass", "volume", "class_", "isotope_mass">>
  [] k = "su" -> <<"name", "symbol", "formula", "formula_charge", "reaction", "mass_per_mole", "aggregate_state", "class_", "limitsTP", "Tst", "Pst", "TPMethods", "sm_gibbs_energy", "sm_enthalpy", "sm_entropy_abs", "sm_volume", "sm_heat_capacity_p", "m_expansivity">>
  [] k = "re" -> <<"name", "symbol", "equation", "reactants", "limitsTP", "Tst", "Pst", "TPMethods", "logKr", "drsm_gibbs_energy", "drsm_enthalpy", "drsm_entropy", "drsm_volume", "drsm_heat_capacity_p">>
Cmd(s) ==
  LET k == Pick(<<"el", "su", "su", "su", "re", "re">>)
  IN CHOOSE c \in {[op |-> k \o "_new", h |-> "a", rec |-> r, wrap |-> Chance(25), nulls |-> SelectSeq(Fields(k), LAMBDA f : f \notin DOMAIN r /\ Chance(25))] :
                   r \in {CASE k = "el" -> El(0) [] k = "su" -> Su(0) [] k = "re" -> Re(0)}} : TRUE
Do(s, c) == s
W == INSTANCE WalkBase WITH Start <- 0
WInit == W!WInit
WNext == W!WNext
=============================================================================
