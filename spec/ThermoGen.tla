----------------------------- MODULE ThermoGen -----------------------------
(* Random engines and questions about their substances and reactions.  mode: 1 definitions; 2 reference state; 3 derivatives;
   4 values of substances; 5 conventions; 6 other forms of the same records; 12 substances from reactions and twin reactions;
   13 values of reactions; 14 missing reference data *)
EXTENDS Thermo
VARIABLES w, st, hist
Mode == Param("mode", 4)
Charges == [x \in {"@-2", "@-1", "@0", "@1", "@2"} |-> CASE x = "@-2" -> -2 [] x = "@-1" -> -1 [] x = "@0" -> 0 [] x = "@1" -> 1 [] OTHER -> 2]
Pool == LET p == LoadData("pool.json") IN [i \in DOMAIN p |-> IF Has(p[i], "formula_charge") THEN [p[i] EXCEPT !.formula_charge = Charges[@]] ELSE p[i]]
\* ---------------------------------------------------------------- numbers and fields
At4(a, b) == "@" \o RndReal(a, b, 4)
Expo(a, b, e) == "@" \o RndReal(a, b, 3) \o e
One(v) == [values |-> <<v>>]
May(p, f, v) == IF Chance(p) THEN (f :> v) ELSE [no_such_field |-> ""]
\* reference properties: mostly all, sometimes with a property missing
Miss(x) == IF Mode = 14 THEN 35 ELSE 4
Ref4(G, H, S, V, Cp) ==
  May(100 - Miss(0), "sm_gibbs_energy", One(G)) @@ May(100 - Miss(0), "sm_enthalpy", One(H)) @@ May(100 - Miss(0), "sm_entropy_abs", One(S))
  @@ May(100 - Miss(0), "sm_volume", One(V)) @@ May(100 - Miss(0), "sm_heat_capacity_p", One(Cp))
Formulas == <<"SiO2", "CaO", "NaCl", "Al2SiO5", "CaCO3", "Na2O", "(CaO)2(SiO2)", "Al(OH)3", "C|-4|H4", "CaS">>
SU(s, f, k, agg, z) ==
  [symbol |-> s, name |-> "n " \o s, formula |-> f, formula_charge |-> z, class_ |-> (k :> "c"), aggregate_state |-> (agg :> "s"), Pst |-> "@100000",
   Tst |-> IF Chance(90) THEN "@298.15" ELSE "@" \o RndReal("288", "308", 2)]
M(key) == [method |-> (key :> IF key = "0" THEN "cp_ft_equation" ELSE "m" \o key)]
Solid(x) == Ref4(At4("-9e5", "-1e4"), At4("-9e5", "-1e4"), At4("10", "200"), At4("1", "10"), At4("20", "200"))
Gaseous(x) == Ref4(At4("-4e5", "1e5"), At4("-4e5", "1e5"), At4("120", "250"), At4("2400", "2500"), At4("20", "60"))
Solute(x) == Ref4(At4("-6e5", "-1e4"), At4("-6e5", "-1e4"), At4("-150", "150"), At4("-2", "6"), At4("-150", "150"))
\* ---------------------------------------------------------------- heat capacity polynomials
CpTerm(i) == CASE i = 1 -> At4("20", "200") [] i = 2 -> Expo("-50", "80", "e-3") [] i = 3 -> Expo("-40", "20", "e5") [] i = 4 -> Expo("-900", "300", "e0") [] i = 5 -> Expo("-20", "20", "e-6")
               [] i = 6 -> Expo("-9", "9", "e-9") [] i = 7 -> Expo("-3", "3", "e-12") [] i = 8 -> Expo("-9", "9", "e7") [] i = 9 -> Expo("-9", "9", "e2") [] i = 10 -> Expo("-2", "2", "e0") [] OTHER -> "@0"
CpList(x) == LET n == Pick(<<1, 3, 4, 5, 10, 11, 12>>) IN [i \in 1..n |-> IF i = 1 \/ Chance(45) THEN CpTerm(i) ELSE "@0"]
Tlow == <<"273.15", "250", "298.15", "200">>
Cuts == <<"355.5", "423.25", "640", "844.973", "950">>
CpMethod(lo, hi, tr) ==
  M("0") @@ [m_heat_capacity_ft_coeffs |-> [values |-> CpList(0)]] @@ [limitsTP |-> [lowerT |-> "@" \o lo, upperT |-> "@" \o hi]]
  @@ (IF tr THEN [m_phase_trans_props |-> [values |-> <<"@" \o hi, At4("0", "9"), At4("0", "4000"), Pick(<<"@0", "@0", "@0.05">>), "@0">>]] ELSE NoFcn)
RECURSIVE CpMethods(_, _, _)
CpMethods(lo, n, i) ==
  IF n <= 1 THEN <<CpMethod(lo, Pick(<<"1200", "2000", "400">>), Chance(10))>>
  ELSE <<CpMethod(lo, Cuts[i], Chance(92))>> \o CpMethods(Cuts[i], n - 1, i + 1)
CpSet(x) == LET n == Pick(<<1, 1, 1, 2, 2, 3, 4>>) IN CpMethods(Pick(Tlow), n, 1 + (Rnd(3) - 1) * (IF n = 4 THEN 0 ELSE IF n = 3 THEN 1 ELSE 1))
\* without limits: the first is used
NoLimits(ms) == [i \in DOMAIN ms |-> [x \in DOMAIN ms[i] \ {"limitsTP"} |-> ms[i][x]]]
Elastic1(x) == [m_expansivity |-> [values |-> <<Expo("1", "8", "e0")>>, units |-> <<"1/K">>], m_compressibility |-> [values |-> <<At4("300", "2500")>>, units |-> <<"kbar">>]]
Landau1(x) == M("5") @@ [m_landau_phase_trans_props |-> [values |-> <<At4("300", "900"), At4("1", "12"), Expo("5", "300", "e-3")>>]]
\* ---------------------------------------------------------------- minerals: [rec [, api]]
Tlim(x) == IF Chance(40) THEN [lowerT |-> "@" \o Pick(<<"273.15", "298.15", "300", "400">>), upperT |-> "@" \o Pick(<<"373.15", "420", "600.5", "1000">>)]
           ELSE IF Chance(50) THEN [upperT |-> "@" \o Pick(<<"373.15", "420", "600.5">>)] ELSE [lowerT |-> "@" \o Pick(<<"0", "320", "400">>)]
Plim(x) == IF Chance(50) THEN [no_such_field |-> ""] ELSE IF Chance(50) THEN [lowP |-> Pick(<<"2e5", "3e7">>), upP |-> Pick(<<"5e7", "3e8">>)] ELSE IF Chance(50) THEN [upP |-> "9e6"] ELSE [lowP |-> "9e6"]
\* (in mode 15 with limits of temperature and pressure)
Bmv(v) == [kind |-> "su", rec |-> IF Mode = 15 /\ Chance(70) THEN v @@ [limitsTP |-> Tlim(0)] ELSE v] @@ (IF Mode = 15 THEN [api |-> Plim(0)] ELSE NoFcn)
With(a, b) == [kind |-> a.kind, rec |-> a.rec, api |-> Get(a, "api", NoFcn) @@ b.api]
Mineral(s, k) ==
  LET b == SU(s, Pick(Formulas), "0", "3", 0) @@ Solid(0)
      cp == IF Chance(93) THEN CpSet(0) ELSE NoLimits(CpSet(0))
      with(ms) == Bmv(b @@ [TPMethods |-> ms])
  IN CASE k = 1 -> with(cp \o <<M("34")>>)
       [] k = 2 -> with(cp)
       [] k = 3 -> Bmv(b @@ Elastic1(0) @@ [TPMethods |-> cp \o <<M("38")>>])
       [] k = 4 -> Bmv(b @@ Elastic1(0) @@ [TPMethods |-> cp \o <<Landau1(0)>> \o (IF Chance(50) THEN <<M("38")>> ELSE IF Chance(40) THEN <<M("34")>> ELSE <<>>)])
       [] k = 5 -> With(with(cp \o <<M("36")>>), [api |-> [vc |-> <<RndReal("5", "60", 2) \o "e-6", RndReal("-9", "9", 2) \o "e-9", RndReal("-9", "9", 2) \o "e-12", RndReal("-20", "-3", 2) \o "e-7", RndReal("-5", "5", 2) \o "e-12">>]])
       [] k = 6 -> with(<<M("43"), M("34")>>)
       [] k = 7 -> with(<<M("43")>>)
       [] k = 8 -> with(<<M("34")>>)                              \* fixed properties
       [] k = 9 -> With(with(cp \o <<M("34")>>), [api |-> [eos |-> 99]])
       [] k = 10 -> with(<<M(Pick(<<"6", "1", "35", "39">>))>>)     \* no model that can be calculated
       [] k = 11 -> Bmv(b)
       [] k = 12 -> With(with(cp \o <<M("37")>>), [api |-> [bm |-> <<RndReal("500", "2500", 2), RndReal("3", "6", 2), RndReal("-0.3", "-0.05", 3), RndReal("1", "5", 3) \o "e-5", RndReal("-5", "5", 3) \o "e-9">>]])
       [] k = 13 -> Bmv(b @@ [TPMethods |-> cp \o <<M("38")>>])    \* no elastic data
       [] k = 14 -> with((IF Chance(50) THEN cp \o <<M("43")>> ELSE <<M("43")>> \o cp) \o <<M("34")>>)      \* two models of the temperature dependence
\* ---------------------------------------------------------------- gases
Real6 == <<"su.CO2.1", "su.CO2.2", "su.CO2.3", "su.CO2.4", "su.CO2.5", "su.CO2.6">>
Gas(s, k) ==
  LET b == SU(s, Pick(<<"CO2", "O2", "C|-4|H4", "H2">>), Pick(<<"1", "1", "1", "0">>), "0", 0) @@ Gaseous(0) cp == CpSet(0) IN
  CASE k <= 2 -> Bmv(b @@ [TPMethods |-> cp \o <<M("40")>>])
    [] k = 3 -> Bmv(b @@ [TPMethods |-> cp])
    [] k = 4 -> Bmv(b @@ [TPMethods |-> <<M("43"), M("40")>>])
    [] k = 5 -> Bmv([Pool[Pick(Real6)] EXCEPT !.symbol = s])
\* ---------------------------------------------------------------- aqueous species
Hkf7(z) == <<At4("-0.2", "1.2"), At4("-900", "900"), At4("-3", "8"), At4("-4e4", "-2.5e4"), At4("-20", "40"), At4("-9e4", "9e4"), IF z = 0 THEN At4("-3e4", "3e4") ELSE Expo(IF z < 0 THEN "1" ELSE "0.3", "2", "e5")>>
Solution(s, k, z, f) ==
  LET b == SU(s, f, "2", "4", z) @@ Solute(0) IN
  CASE k <= 6 -> Bmv([b EXCEPT !.Tst = "@298.15"] @@ [TPMethods |-> <<M(Pick(<<"2", "3">>)) @@ [eos_hkf_coeffs |-> [values |-> Hkf7(z) \o (IF Chance(40) THEN <<"@0">> ELSE <<>>)]]>>])
    [] k = 7 -> Bmv(b @@ [TPMethods |-> <<M("43"), M("34")>>])
    [] k = 8 -> Bmv([Pool["su.CH4@.1"] EXCEPT !.symbol = s])
    [] k = 9 -> Bmv(b @@ [TPMethods |-> <<M("2") @@ [eos_hkf_coeffs |-> [values |-> <<"@0.1", "@1">>]]>>])      \* too few coefficients
\* a substance defined by a reaction
Defined(s, r, f) ==
  LET b == SU(s, f, Pick(<<"0", "2">>), "4", 0) @@ Solid(0) @@ [reaction |-> r] IN
  Bmv(IF Chance(70) THEN b ELSE b @@ [TPMethods |-> IF Chance(60) THEN <<M("34")>> ELSE <<>>])
\* ---------------------------------------------------------------- reactions
RRef(x) == LET k == Rnd(100) p == IF Mode = 14 \/ k <= 40 THEN 45 ELSE 0 IN
  May(100 - p, "logKr", One(At4("-12", "9"))) @@ May(100 - p, "drsm_gibbs_energy", One(At4("-5e4", "5e4"))) @@ May(100 - p, "drsm_enthalpy", One(IF Chance(12) THEN "@0" ELSE At4("-6e4", "6e4")))
  @@ May(100 - p, "drsm_entropy", One(IF Chance(12) THEN "@0" ELSE At4("-150", "150"))) @@ May(85, "drsm_volume", One(At4("-3", "3"))) @@ May(100 - p, "drsm_heat_capacity_p", One(At4("-300", "300")))
KList(x) == LET n == Pick(<<7, 7, 5, 3, 2, 1>>) IN
  [i \in 1..n |-> IF i > 1 /\ Chance(30) THEN "@0" ELSE CASE i = 1 -> At4("-60", "60") [] i = 2 -> Expo("-30", "30", "e-3") [] i = 3 -> Expo("-30", "30", "e2") [] i = 4 -> At4("-20", "20") [] i = 5 -> Expo("-3", "3", "e5") [] i = 6 -> Expo("-9", "9", "e-7") [] i = 7 -> At4("-30", "30")]
RCp(x) == LET n == Pick(<<1, 3, 5, 5>>) IN [i \in 1..n |-> CpTerm(i)]
Vol(x) == IF Chance(45) THEN <<M("13")>> ELSE <<>>
RModel(k) ==
  CASE k = 1 -> <<M("0") @@ [logk_ft_coeffs |-> [values |-> KList(0)]]>> \o Vol(0)
    [] k = 2 -> <<M("0") @@ [logk_ft_coeffs |-> [values |-> KList(0)]], M("3")>> \o Vol(0)
    [] k = 3 -> <<M("3") @@ [dr_heat_capacity_ft_coeffs |-> [values |-> RCp(0)]]>> \o Vol(0)
    [] k \in 4..7 -> <<M(<<"4", "5", "6", "7">>[k - 3])>> \o Vol(0)
    [] k = 8 -> <<M("9") @@ [dr_marshall_franck_coeffs |-> [values |-> <<At4("-6", "6"), At4("-4000", "4000"), Expo("-4", "4", "e5"), Expo("-4", "4", "e7"), At4("-20", "30"), At4("-9000", "9000"), Expo("-3", "3", "e6")>>]]>> \o Vol(0)
    [] k = 9 -> <<M("10") @@ [dr_ryzhenko_coeffs |-> [values |-> <<At4("-5", "15"), At4("-2", "2"), At4("-900", "900")>>]]>>
    [] k = 10 -> <<M("14") @@ [dr_dolejs_manning10_coeffs |-> [values |-> <<At4("-6e4", "6e4"), At4("-200", "200"), At4("-30", "30"), Expo("-50", "50", "e-3"), At4("-40", "40")>>]]>> \o Vol(0)
    [] k = 11 -> <<M("3")>>                                         \* no coefficients
    [] k = 12 -> <<M("9") @@ [dr_marshall_franck_coeffs |-> [values |-> <<"@1", "@2">>]]>>
    [] k = 13 -> <<M("4"), M("7")>> \o Vol(0)
    [] k = 14 -> <<>>
RE(s, re, k) == [kind |-> "re", rec |-> [symbol |-> s, name |-> "n " \o s, reactants |-> re, Tst |-> IF Chance(90) THEN "@298.15" ELSE "@" \o RndReal("288", "308", 2), Pst |-> "@100000"] @@ RRef(0) @@ (IF k = 14 THEN NoFcn ELSE [TPMethods |-> RModel(k)])]
RKinds == <<1, 1, 1, 2, 3, 3, 4, 5, 6, 6, 7, 7, 7, 8, 8, 9, 9, 10, 10, 11, 12, 13, 14, 14>>
C(x) == [symbol |-> x, coefficient |-> IF Chance(4) THEN "@0" ELSE Pick(<<"@1", "@-1", "@2", "@-1", "@0.5", "@-0.25", "@3">>)]
\* the reactants: some of the substances
RECURSIVE SomeOf(_, _)
SomeOf(names, p) == IF names = <<>> THEN <<>> ELSE (IF Chance(p) THEN <<C(Head(names))>> ELSE <<>>) \o SomeOf(Tail(names), p)
Basis == <<"M1", "M2", "G1", "A+1", "A-1", "A", "H2O@", "H+">>
Plain1 == <<"M1", "M2", "M3">>
\* ---------------------------------------------------------------- contents
Els(x) == <<"el.H.1", "el.O.1", "el.C.1", "el.Na.1", "el.Cl.1", "el.Ca.1", "el.Si.1", "el.Al.1">> \o (IF Chance(60) THEN <<"el.S.1">> ELSE <<>>)
Ks(x) == CASE Mode = 2 -> <<1, 2, 3, 5, 6, 7, 9, 12, 1, 3, 5, 6>> [] Mode = 3 -> <<1, 2, 3, 4, 5, 6, 7, 12, 1, 3, 4, 5>> [] OTHER -> <<1, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14>>
Water1(x) == Pick(<<"su.w.1", "su.w.2", "su.w.3", "su.w.4", "su.w.5">>)
Item(id) == [kind |-> IF StartsWith(id, "el.") THEN "el" ELSE IF StartsWith(id, "su.") THEN "su" ELSE "re", rec |-> Pool[id]]
Items(ids) == [i \in DOMAIN ids |-> Item(ids[i])]
NoWater(x) == Mode \in {4, 13} /\ Chance(4)
Content0(x) ==
  Items(Els(0)) \o (IF NoWater(0) THEN <<>> ELSE Items(<<Water1(0)>>)) \o (IF Chance(20) THEN <<[Item(Water1(0)) EXCEPT !.rec.symbol = "W2"]>> ELSE <<>>) \o (IF Chance(25) THEN Items(<<"su.v.1">>) ELSE <<>>) \o (IF Chance(80) THEN Items(<<"su.H+.1">>) ELSE <<>>)
  \o <<Mineral("M1", Pick(Ks(0))), Mineral("M2", Pick(Ks(0))), Mineral("M3", Pick(Ks(0))), Mineral("M4", Pick(Ks(0)))>>
  \o <<Gas("G1", Rnd(5)), Gas("G2", Rnd(5))>>
  \o <<Solution("A+1", Rnd(6), Pick(<<1, 2, 3>>), Pick(<<"Na+", "Ca+2">>)), Solution("A-1", Rnd(7), Pick(<<-1, -2, -1>>), Pick(<<"Cl-", "OH-">>)), Solution("A", Rnd(9), 0, "SiO2@")>>
  \o <<Defined("D1", "R1", Pick(Formulas)), Defined("D2", "R2", Pick(Formulas))>> \o (IF Chance(15) THEN <<Defined("D3", "R9", "NaCl")>> ELSE <<>>)
Content1(k1, k2, re1, re2, x) ==
  <<RE("R1", re1, k1), RE("T1", re1, 14), RE("R2", re2, k2), RE("T2", re2, 14)>>
  \o <<RE("R3", SomeOf(Basis, 40), 14), RE("R4", SomeOf(Plain1, 70), Pick(RKinds)), RE("R5", SomeOf(Plain1, 70), Pick(RKinds)), RE("R6", SomeOf(<<"D1", "D2">> \o Basis, 35), 14), RE("R7", SomeOf(Plain1, 70), Pick(RKinds))>>
Models1 == <<1, 2, 3, 6, 7, 5, 4, 8, 9, 10>>
Content2(x) ==
  LET c == Pick(<<"@1", "@-1", "@2", "@-0.5">>) IN
  Content1(IF Chance(90) THEN Pick(Models1) ELSE 14, IF Chance(90) THEN Pick(Models1) ELSE 14,
           <<[symbol |-> "D1", coefficient |-> c]>> \o SomeOf(Basis, 35), <<[symbol |-> "D2", coefficient |-> "@-1"]>> \o (IF Chance(60) THEN <<C("D1")>> ELSE <<>>) \o SomeOf(Basis, 25), 0)
\* water with any equation of state and any dielectric model
Waters(x) == Items(<<"el.H.1", "el.O.1">>) \o <<[Item("su.w.1") EXCEPT !.rec.TPMethods = <<M(Pick(<<"29", "31", "32", "33">>)), M(Pick(<<"25", "26", "27", "28">>))>>]>>
\* gases with real critical parameters, or others, and every equation of state
Criticals == << <<"304.2", "73.83", "0.2252">>, <<"647.3", "221.2", "0.344">>, <<"126.2", "33.9", "0.04">>, <<"190.6", "46", "0.008">>, <<"33.2", "13", "-0.22">>, <<"154.6", "50.46", "0.021">> >>
CritProps(x) ==
  LET b == IF Chance(70) THEN Pick(Criticals) ELSE <<RndReal("30", "700", 1), RndReal("12", "220", 1), RndReal("-0.2", "0.7", 3)>>
  IN [i \in 1..(IF Chance(90) THEN 6 ELSE 3) |-> IF i <= 3 THEN "@" \o b[i] ELSE "@" \o RndReal("-0.1", "0.9", 3)]
RealGasRec(s, m) ==
  LET f == IF m = "12" \/ (m = "14" /\ Chance(70)) THEN Pick(<<"CO2", "H2O">>) ELSE IF Chance(50) THEN Pick(<<"C|-4|H4", "O2", "H2">>) ELSE "CO2"
      ok == m # "12" \/ Chance(96)
  IN Bmv(SU(s, IF ok THEN f ELSE "O2", "1", "0", 0) @@ Gaseous(0)
      @@ [TPMethods |-> <<CpMethod(Pick(<<"200", "200", "298.15">>), "3000", FALSE),
                          IF Chance(96) THEN M(m) @@ [eos_gas_crit_props |-> [values |-> IF m # "12" THEN CritProps(0) ELSE IF f = "CO2" THEN <<"@304.128", "@73.77", "@0.22394">> ELSE <<"@647.096", "@220.64", "@0.3443">>]] ELSE M(m)>>])
Gases8 == <<"9", "11", "12", "13", "14", "9", "13", "14">>
Names8 == <<"Q1", "Q2", "Q3", "Q4", "Q5", "Q6", "Q7", "Q8">>
Fluids8(x) == Waters(0) \o Items(<<"el.C.1">>) \o [i \in 1..8 |-> RealGasRec(Names8[i], Gases8[i])] \o Items(<<"su.CO2.1", "su.CO2.2">>)
TcOf(i) == IF Has(i.rec, "TPMethods") /\ Len(i.rec.TPMethods) > 1 /\ Has(i.rec.TPMethods[2], "eos_gas_crit_props") THEN Num(i.rec.TPMethods[2].eos_gas_crit_props.values[1]) ELSE "300"
GasPlace(items) ==
  LET k == Rnd(100) IN
  [T |-> IF k <= 10 THEN TcOf(Pick(SelectSeq(items, LAMBDA i : i.kind = "su" /\ StartsWith(i.rec.symbol, "Q")))) ELSE IF k <= 25 THEN RndReal("660", "700", 1) ELSE IF k <= 55 THEN RndReal("210", "660", 1) ELSE IF k <= 90 THEN RndReal("300", "1600", 1) ELSE RndReal("1500", "2900", 1),
   P |-> CASE k % 5 = 0 -> Pick(<<"1e5", "100000", "0.5", "1e2">>) [] k % 5 = 1 -> RndReal("1e5", "5e6", 0) [] k % 5 = 2 -> RndReal("1e6", "5e7", 0) [] k % 5 = 3 -> RndReal("1e7", "5e8", 0) [] OTHER -> RndReal("1e8", "1.5e9", 0)]
SubsWet == <<"M1", "M2", "M3", "M4", "G1", "G2", "A+1", "A-1", "A", "D1", "D2", "H2O@", "H+">>
\* reactions that are asked for by their equations
RECURSIVE EqSide(_)
EqSide(n) == IF n = 0 THEN "" ELSE (IF n = 1 THEN "" ELSE EqSide(n - 1) \o " + ") \o Pick(<<"", "", "2 ", "0.5", "3", "1.25 ">>) \o Pick(IF Chance(40) THEN Plain1 ELSE SubsWet)
EqText(x) == EqSide(Rnd(3)) \o Pick(<<" = ", "=">>) \o EqSide(Rnd(3))
EqTexts(x) == IF Mode = 8 THEN <<>> ELSE IF Chance(20) THEN <<EqText(0), "M1 = Nothing">> ELSE <<EqText(0), EqText(0)>>
NewEn(e, items) == [op |-> "th_new", en |-> e, items |-> items, eqs |-> EqTexts(0), water |-> Pick(<<"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS">>)]
\* the same content in another form: methods in another order, other records besides, another way to load
RECURSIVE Others1(_), Cps(_)
Others1(ms) == SelectSeq(ms, LAMBDA m : Key(m) # "0")
Cps(ms) == SelectSeq(ms, LAMBDA m : Key(m) = "0")
Turn(i) == IF ~Has(i.rec, "TPMethods") \/ Chance(40) THEN i ELSE [i EXCEPT !.rec.TPMethods = IF Chance(50) THEN Others1(@) \o Cps(@) ELSE Cps(@) \o Others1(@)]
Drop(items) == SelectSeq(items, LAMBDA i : i.rec.symbol \notin {"M4", "G2", "R7"} \/ Chance(50))
Shuffle(items) == LET k == Rnd(Len(items)) IN SubSeq(items, k, Len(items)) \o SubSeq(items, 1, k - 1)
Form(c) == [NewEn("f", Shuffle([i \in DOMAIN c.items |-> Turn(c.items[i])]) \o (IF Chance(50) THEN <<Mineral("M9", 1), Solution("A9", 1, 1, "Na+")>> ELSE <<>>)) EXCEPT !.water = c.water, !.eqs = c.eqs]
           @@ [way |-> Pick(<<"sections", "list", "wrapped", "array", "file">>)]
\* ---------------------------------------------------------------- temperatures and pressures
Place(x) == LET k == Rnd(100) IN
  IF k <= 22 THEN [T |-> "298.15", P |-> Pick(<<"1e5", "100000", "5e6", "1e8">>)]
  ELSE IF k <= 45 THEN [T |-> RndReal("274", "370", 2), P |-> Pick(<<"1e5", "2.5e5", "1e7", "1.5e8", "4.5e8">>)]
  ELSE IF k <= 75 THEN [T |-> RndReal("370", "545", 2), P |-> Pick(<<"1e7", "3e7", "8e7", "1.5e8", "4.5e8">>)]
  ELSE IF k <= 80 THEN [T |-> RndReal("660", "1100", 2), P |-> Pick(<<"1.5e8", "2.5e8", "4.5e8">>)]
  ELSE [T |-> Pick(<<"273.15", "355.5", "423.25", "500">>), P |-> Pick(<<"1e7", "2e8">>)]
Hot(x) == LET k == Rnd(10) IN [T |-> IF k <= 7 THEN RndReal("300", "1300", 2) ELSE Pick(<<"844.973", "423.25", "640", "1200", "355.5">>), P |-> Pick(<<"1e5", "1e5", "1e7", "2e8", "1e9">>)]
SubsDry == <<"M1", "M2", "M3", "M4", "G1", "G2">>
Reas0 == <<"R1", "R2", "R3", "R4", "R5", "R6", "R7", "T1", "T2">>
Q(op, e, s, x) == [op |-> op, en |-> e, s |-> s, T |-> x.T, P |-> x.P]
RECURSIVE All(_, _, _, _)
All(op, e, ss, x) == IF ss = <<>> THEN <<>> ELSE <<Q(op, e, Head(ss), x)>> \o All(op, e, Tail(ss), x)
\* a: equations and solvents of the content
Prep(a, e, x) == All("en_solv", e, a.solvents, x) \o All("en_elec", e, a.solvents, x)
RECURSIVE Some(_, _)
Some(xs, p) == IF xs = <<>> THEN <<>> ELSE (IF Chance(p) THEN <<Head(xs)>> ELSE <<>>) \o Some(Tail(xs), p)
Rfrs(e, ss, x) == All("en_rfr", e, ss, x)
Reas(e, ss, x) == All("en_rea", e, ss, x)
Subs(e, ss, x) == All("en_sub", e, ss, x)
Convs(e, a, b) == [op |-> "en_conv", en |-> e, apparent |-> a, water |-> b]
Set(e, f) == [op |-> "en_prefs", en |-> e, set |-> f]
Everything(a, e, x, wet) == IF wet THEN Prep(a, e, x) \o Subs(e, SubsWet, x) \o Reas(e, Reas0 \o a.eqs, x) \o Rfrs(e, Reas0, x) ELSE Subs(e, SubsDry, x)
\* the points of a difference quotient; the pressure stays positive
Stencil(op, e, s, x) ==
  LET h == IF RLt(x.T, "310") THEN Pick(<<"0.05", "0.1", "0.2">>) ELSE Pick(<<"0.05", "0.2", "0.5">>) hp == IF RLt(x.P, "1e6") THEN "5e4" ELSE "2e5"
      c == Q(op, e, s, x) @@ [h |-> h, hp |-> hp] n == Neighbours(c)
  IN <<Q(op, e, s, n[1]), Q(op, e, s, n[2]), Q(op, e, s, n[3]), Q(op, e, s, n[4]), c>>
RECURSIVE Stencils(_, _, _, _)
Stencils(op, e, ss, x) == IF ss = <<>> THEN <<>> ELSE Stencil(op, e, Head(ss), x) \o Stencils(op, e, Tail(ss), x)
\* cold enough for saturated conditions at the neighbours, too
Inner(x) == LET p == Place(0) IN [T |-> IF REq(p.T, "273.15") THEN "275" ELSE p.T, P |-> IF RLt("365", p.T) /\ RLt(p.P, "1e7") THEN "1e7" ELSE p.P]
Denser(x) == [T |-> RndReal("284", "1200", 2), P |-> RndReal("1.5e8", "4.9e8", 0)]
Stencil7(op, x) == LET c == Q(op, "e", "H2O@", x) @@ [h |-> Pick(<<"0.1", "0.2", "0.4">>), hp |-> IF RLt(x.P, "1e6") THEN "5e4" ELSE "2e5"] n == Neighbours(c)
                   IN <<Q(op, "e", "H2O@", n[1]), Q(op, "e", "H2O@", n[2]), Q(op, "e", "H2O@", n[3]), Q(op, "e", "H2O@", n[4]), c>>
ConvPairs == << <<"BERMAN_BROWN", "GEOCHEMICAL">>, <<"BENSON_HELGESON", "STEAM_TABLES">>, <<"BERMAN_BROWN", "STEAM_TABLES">> >>
RECURSIVE UnderConv(_, _, _, _)
UnderConv(e, qs, ps, k) == IF ps = <<>> THEN <<>> ELSE <<Convs(e, Head(ps)[1], Head(ps)[2])>> \o qs \o UnderConv(e, qs, Tail(ps), k)
Qs(a, e, x) == Subs(e, Some(SubsWet, 60), x) \o Rfrs(e, Some(Reas0, 40), x) \o Reas(e, Some(Reas0 \o a.eqs, 30), x)
Prefer(a, e) == IF Len(a.solvents) > 1 /\ Chance(60) THEN <<Set(e, [solvent |-> Pick(<<"W2", "W2", "Nothing", "H2O@">>)])>> ELSE <<>>
Plan0(a, items, x) ==
  LET wet == Chance(70) Reas1 == Reas0 \o a.eqs y == IF wet THEN Place(0) ELSE Hot(0) IN
  CASE Mode = 2 -> [i \in 1..8 |-> LET m == Pick(SelectSeq(items, LAMBDA z : z.kind = "su" /\ z.rec.symbol \in {"M1", "M2", "M3", "M4", "G1", "G2", "A"})).rec IN
                                   Q("en_sub", "e", m.symbol, [T |-> Num(m.Tst), P |-> Num(m.Pst)])]
    [] Mode = 3 -> (IF Chance(25) THEN <<Convs("e", Pick(<<"BENSON_HELGESON", "BERMAN_BROWN">>), Pick(<<"GEOCHEMICAL", "STEAM_TABLES">>))>> ELSE <<>>) \o
                   IF wet THEN LET z == Inner(0) IN Stencils("en_sub", "e", Some(SubsWet, 60), z) \o Stencils("en_rea", "e", Some(Reas1, 35), z) \o Stencils("en_rfr", "e", Some(Reas0, 25), z)
                   ELSE Stencils("en_sub", "e", SubsDry, Hot(0))
    [] Mode = 5 -> LET qs == Qs(a, "e", y) IN <<Convs("e", "BENSON_HELGESON", "GEOCHEMICAL")>> \o Prep(a, "e", y) \o qs \o UnderConv("e", qs, <<Pick(ConvPairs), Pick(ConvPairs)>>, 0) \o <<Convs("e", "BENSON_HELGESON", "GEOCHEMICAL")>> \o Some(qs, 30)
    [] Mode = 6 -> LET qs == Qs(a, "e", y) IN qs \o [i \in DOMAIN qs |-> [qs[i] EXCEPT !.en = "f"]]
    [] Mode = 7 -> LET z == IF Chance(20) THEN Denser(0) ELSE Inner(0) IN Subs("e", <<"H2O@">>, z) \o Stencil7("en_solv", z) \o Stencil7("en_elec", z)
    [] Mode = 8 -> LET z == IF Chance(20) THEN Denser(0) ELSE Place(0) g == GasPlace(items) IN
                   (IF Chance(25) THEN <<Convs("e", Pick(<<"BENSON_HELGESON", "BERMAN_BROWN">>), Pick(<<"GEOCHEMICAL", "STEAM_TABLES">>))>> ELSE <<>>) \o (IF Chance(20) THEN <<Set("e", [gas |-> Chance(50)])>> ELSE <<>>)
                   \o Prep(a, "e", z) \o Subs("e", <<"H2O@">>, z) \o Subs("e", Names8 \o <<"CO2">>, g) \o Subs("e", Some(Names8, 40), GasPlace(items))
    [] Mode = 12 -> LET z == Place(0) IN Prep(a, "e", z) \o Subs("e", SubsWet, z) \o Reas("e", <<"R1", "R2", "R6">>, z) \o Rfrs("e", <<"T1", "T2", "R6">>, z)
    [] Mode = 13 -> LET z == Place(0) IN Prep(a, "e", z) \o (IF Chance(60) THEN Subs("e", SubsWet, z) ELSE <<>>) \o Reas("e", Reas1, z) \o Rfrs("e", Reas0, z)
    [] Mode = 14 -> LET z == Place(0) qs == Prep(a, "e", z) \o Subs("e", Some(SubsWet, 70), z) \o Rfrs("e", Some(Reas0, 40), z) \o Reas("e", Some(Reas1, 50), z) IN
                    <<Set("e", [fallback |-> FALSE])>> \o qs \o <<Set("e", [fallback |-> TRUE])>> \o qs
    [] OTHER -> (IF Chance(30) THEN <<Set("e", [gas |-> Chance(50)])>> ELSE <<>>) \o (IF Mode = 1 /\ Chance(25) THEN <<Convs("e", Pick(<<"BENSON_HELGESON", "BERMAN_BROWN">>), Pick(<<"GEOCHEMICAL", "STEAM_TABLES">>))>> ELSE <<>>) \o Everything(a, "e", y, wet)
Plan(a, items, x) == (IF Mode = 6 THEN <<>> ELSE Prefer(a, "e")) \o Plan0(a, items, x)
\* ---------------------------------------------------------------- walk
Start == [items |-> <<>>, a |-> [eqs |-> <<>>, solvents |-> <<>>], plan |-> <<>>, n |-> 0]
Cmd0(s) == IF s.n = 0 THEN NewEn("e", IF Mode = 7 THEN Waters(0) ELSE IF Mode = 8 THEN Fluids8(0) ELSE Content0(0) \o Content2(0)) ELSE Head(s.plan)
Cmd(s) == CHOOSE c \in {LET d == Cmd0(s) IN IF Mode = 15 /\ d.op = "en_sub" THEN d @@ [msg |-> TRUE] ELSE d} : TRUE
Do(s, c) ==
  LET items == IF s.n = 0 THEN c.items ELSE s.items
      rest == IF s.plan = <<>> THEN <<>> ELSE Tail(s.plan)
      a == IF s.n = 0 THEN [eqs |-> c.eqs, solvents |-> <<"H2O@">> \o (IF \E i \in DOMAIN items : items[i].rec.symbol = "W2" THEN <<"W2">> ELSE <<>>)] ELSE s.a
      new == CHOOSE p \in {Plan(a, items, s.n)} : TRUE
  IN CHOOSE t \in {[items |-> items, a |-> a, n |-> s.n + 1, plan |-> IF s.n = 0 /\ Mode = 6 THEN <<Form(c)>> \o new ELSE IF rest # <<>> THEN rest ELSE IF new = <<>> THEN <<Q("en_sub", "e", "M1", Hot(0))>> ELSE new]} : TRUE
W == INSTANCE WalkBase WITH Start <- Start
WInit == W!WInit
WNext == W!WNext
=============================================================================
