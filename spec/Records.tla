------------------------------ MODULE Records ------------------------------
(* What an element, substance or reaction is that is read from a record.  A record is a JSON object (numbers are written
   "@number"); the operators Element, Substance and Reaction give the fields of the object (as the getters show them) or
   say that the record is not readable because a value cannot be converted to the unit of the field.
   Commands: el_new, su_new, re_new (h, rec [, nulls: fields that are null] [, wrap: in an object "properties"])       *)
EXTENDS Equations, TLC
U == INSTANCE Units
Num(x) == Replace(x, "@", "")
SFirst(f) == CHOOSE k \in DOMAIN f : TRUE
\* ---------------------------------------------------------------- values with units: [ok, v]
Good(v) == [ok |-> TRUE, v |-> v]
Conv(x, from, to) == IF from = to THEN Good(x) ELSE U!Convert(x, from, to)
First(e, k) == IF Has(e, k) /\ Len(e[k]) > 0 /\ e[k][1] # "@null" THEN e[k][1] ELSE ""
\* a single value; the unit of a field is written before or after division: "J/(mol*K)"
Single(r, key, to, dflt) ==
  IF ~Has(r, key) THEN Good(dflt)
  ELSE LET e == r[key] v == First(e, "values") u == First(e, "units") IN
       IF v = "" THEN Good(dflt) ELSE Conv(Num(v), IF u = "" THEN to ELSE u, to)
\* reference property: value, error and status (1: read, 0: not given)
Ref(r, key, to) ==
  LET e == IF Has(r, key) THEN r[key] ELSE [none |-> 0]
      u == IF First(e, "units") = "" THEN to ELSE First(e, "units")
      v == First(e, "values") x == First(e, "errors")
      cv == IF v = "" THEN Good("0") ELSE Conv(Num(v), u, to)
      cx == IF x = "" THEN Good("0") ELSE Conv(Num(x), u, to)
  IN [ok |-> cv.ok /\ cx.ok, v |-> <<cv.v, "0", "0", cx.v, IF v = "" THEN 0 ELSE 1>>]
None == <<"0", "0", "0", "0", 0>>
\* a list of coefficients with the units of the model
UnitAt(us, i) == IF i <= Len(us) THEN us[i] ELSE ""
CoefUnits(key, e, to) ==
  IF ~Has(e, "units") THEN to
  ELSE IF key = "eos_hkf_coeffs" /\ Len(e.units) >= 3 /\ e.units[3] = "(cal*K)/mol" THEN to   \* units of an old export, known to be wrong
  ELSE e.units
Coefs(m, key, to) ==
  IF ~Has(m, key) \/ ~Has(m[key], "values") THEN [ok |-> TRUE, v |-> <<>>, given |-> FALSE]
  ELSE LET e == m[key] us == CoefUnits(key, e, to)
           c == [i \in DOMAIN e.values |->
                   LET f == UnitAt(us, i) t == UnitAt(to, i) g == IF f = "" THEN t ELSE f IN IF g = "" \/ t = "" THEN Good(Num(e.values[i])) ELSE Conv(Num(e.values[i]), g, t)]
       IN [ok |-> \A i \in DOMAIN c : c[i].ok, v |-> [i \in DOMAIN c |-> c[i].v], given |-> TRUE]
\* ---------------------------------------------------------------- methods
SEos == ("0" :> 100) @@ ("2" :> 101) @@ ("3" :> 119) @@ ("25" :> 117) @@ ("26" :> 118) @@ ("27" :> 120) @@ ("28" :> 121)
SmT == ("5" :> 201) @@ ("6" :> 202) @@ ("1" :> 203) @@ ("29" :> 206) @@ ("30" :> 207) @@ ("31" :> 221) @@ ("32" :> 222) @@ ("33" :> 223) @@ ("43" :> 200)
SmP == ("34" :> 305) @@ ("35" :> 306) @@ ("36" :> 307) @@ ("37" :> 308) @@ ("38" :> 309) @@ ("39" :> 310) @@ ("8" :> 311) @@ ("9" :> 312) @@ ("10" :> 313) @@ ("11" :> 314) @@ ("12" :> 315) @@ ("13" :> 316) @@ ("14" :> 317)
       @@ ("4" :> 320) @@ ("40" :> 300)
REos == ("11" :> 100) @@ ("1" :> 105) @@ ("0" :> 102) @@ ("2" :> 104)
RmT == ("3" :> 208) @@ ("4" :> 209) @@ ("5" :> 210) @@ ("6" :> 211) @@ ("7" :> 212) @@ ("8" :> 213) @@ ("9" :> 214) @@ ("10" :> 216) @@ ("14" :> 224)
RmP == ("12" :> 306) @@ ("13" :> 305)
Methods(r) == IF Has(r, "TPMethods") THEN SelectSeq(r.TPMethods, LAMBDA m : Has(m, "method") /\ DOMAIN m.method # {}) ELSE <<>>
Key(m) == SFirst(m.method)
\* the last method of each kind counts
Code(ms, table) == LET is == {i \in DOMAIN ms : Key(ms[i]) \in DOMAIN table} IN IF is = {} THEN 0 ELSE table[Key(ms[CHOOSE i \in is : \A j \in is : j <= i])]
\* the last list given for a parameter counts
LastCoefs(ms, key, to) == LET is == {i \in DOMAIN ms : Coefs(ms[i], key, to).given} IN
  IF is = {} THEN [ok |-> TRUE, v |-> <<>>] ELSE [ok |-> \A i \in is : Coefs(ms[i], key, to).ok, v |-> Coefs(ms[CHOOSE i \in is : \A j \in is : j <= i], key, to).v]
\* every list counts (intervals)
AllCoefs(ms, key, to) == LET c == [i \in DOMAIN ms |-> Coefs(ms[i], key, to)] g == SelectSeq(c, LAMBDA x : Len(x.v) > 0) IN
  [ok |-> \A i \in DOMAIN c : c[i].ok, v |-> [i \in DOMAIN g |-> g[i].v]]
Lim(m) == IF ~Has(m, "limitsTP") THEN <<>> ELSE (IF Has(m.limitsTP, "lowerT") THEN <<Num(m.limitsTP.lowerT)>> ELSE <<>>) \o (IF Has(m.limitsTP, "upperT") THEN <<Num(m.limitsTP.upperT)>> ELSE <<>>)
IsCp(m) == m.method[Key(m)] = "cp_ft_equation"
Intervals(ms) == LET c == SelectSeq(ms, LAMBDA m : IsCp(m)) IN [i \in DOMAIN c |-> Lim(c[i])]
CpUnits == <<"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)", "J/(mol*K^4)", "J/(mol*K^5)", "(J*K^2)/mol", "J/mol", "J/(mol*K^1.5)", "J/(mol*K)">>
HkfUnits == <<"cal/(mol*bar)", "cal/mol", "(cal*K)/(mol*bar)", "(cal*K)/mol", "cal/(mol*K)", "(cal*K)/mol", "cal/mol">>
\* ---------------------------------------------------------------- objects: [ok, o]
Limit(r, k) == IF Has(r, "limitsTP") /\ Has(r.limitsTP, k) THEN Num(r.limitsTP[k]) ELSE "0"
ClassOf(r, k) == IF Has(r, k) /\ DOMAIN r[k] # {} THEN ParseNum(SFirst(r[k])) ELSE "0"
Element(r) ==
  LET m == Single(r, "atomic_mass", "g/mol", "0") s == Single(r, "entropy", "J/(mol*K)", "0") c == Single(r, "heat_capacity", "J/(mol*K)", "0") v == Single(r, "volume", "J/bar", "0")
  IN [ok |-> m.ok /\ s.ok /\ c.ok /\ v.ok,
      o |-> [name |-> Get(r, "name", ""), symbol |-> Get(r, "symbol", ""), number |-> Get(r, "number", 0), isotope |-> Get(r, "isotope_mass", 0), class |-> ClassOf(r, "class_"),
             valence |-> 777, mass |-> m.v, entropy |-> s.v, cp |-> c.v, volume |-> v.v]]
\* coefficients of thermal expansion and compressibility with the units of an old export
Expans(r) == LET e == r.m_expansivity u == First(e, "units") IN
  IF ~Has(r, "m_expansivity") THEN Good("0") ELSE IF u = "kbar" /\ First(e, "values") # "" THEN Good(Num(First(e, "values")) (.) "1e5") ELSE Single(r, "m_expansivity", "1/K", "0")
Compr(r) == LET e == r.m_compressibility u == First(e, "units") IN
  IF ~Has(r, "m_compressibility") THEN Good("0") ELSE IF u = "1e-05/K" /\ First(e, "values") # "" THEN Good(Num(First(e, "values"))) ELSE Single(r, "m_compressibility", "kbar", "0")
Substance(r) ==
  LET ms == Methods(r)
      mass == Single(r, "mass_per_mole", "g/mol", "0")
      G == Ref(r, "sm_gibbs_energy", "J/mol") H == Ref(r, "sm_enthalpy", "J/mol") S == Ref(r, "sm_entropy_abs", "J/K/mol") V == Ref(r, "sm_volume", "J/bar") Cp == Ref(r, "sm_heat_capacity_p", "J/K/mol")
      ad == LastCoefs(ms, "eos_akinfiev_diamond_coeffs", <<"1", "(cm^3)/g", "(cm^3*K^0.5)/g">>)
      crit == LastCoefs(ms, "eos_gas_crit_props", <<"K", "bar", "1", "1">>)
      hkf == LastCoefs(ms, "eos_hkf_coeffs", HkfUnits)
      lan == LastCoefs(ms, "m_landau_phase_trans_props", <<"degC", "J/(mol*K)", "J/bar">>)
      hp == LastCoefs(ms, "solute_holland_powell98_coeff", <<"kJ/(mol*K^2)">>)
      cp == AllCoefs(ms, "m_heat_capacity_ft_coeffs", CpUnits)
      ph == AllCoefs(ms, "m_phase_trans_props", <<"K", "J/(mol*K)", "J/mol", "J/bar", "K/bar">>)
      ex == IF Has(r, "TPMethods") THEN Expans(r) ELSE Good("0")
      co == IF Has(r, "TPMethods") THEN Compr(r) ELSE Good("0")
  IN [ok |-> mass.ok /\ G.ok /\ H.ok /\ S.ok /\ V.ok /\ Cp.ok /\ ad.ok /\ crit.ok /\ hkf.ok /\ lan.ok /\ hp.ok /\ cp.ok /\ ph.ok /\ ex.ok /\ co.ok,
      o |-> [name |-> Get(r, "name", ""), symbol |-> Get(r, "symbol", ""), formula |-> Get(r, "formula", ""), reaction |-> Get(r, "reaction", ""), mass |-> mass.v,
             Tr |-> IF Has(r, "Tst") THEN Num(r.Tst) ELSE "298.15", Pr |-> IF Has(r, "Pst") THEN Num(r.Pst) ELSE "1e5", lowT |-> Limit(r, "lowerT"), upT |-> Limit(r, "upperT"), lowP |-> "0", upP |-> "0",
             eos |-> Code(ms, SEos), mT |-> Code(ms, SmT), mP |-> Code(ms, SmP), class |-> ClassOf(r, "class_"), state |-> ClassOf(r, "aggregate_state"), charge |-> Get(r, "formula_charge", 0),
             calc |-> IF ~Has(r, "TPMethods") /\ Has(r, "reaction") THEN 1 ELSE 0,
             ref |-> [G |-> G.v, H |-> H.v, S |-> S.v, V |-> V.v, Cp |-> Cp.v, A |-> None, U |-> None, Cv |-> None],
             tint |-> Intervals(ms), cp |-> cp.v, ad |-> ad.v, ph |-> ph.v, landau |-> lan.v, hkf |-> hkf.v, crit |-> crit.v, hp98 |-> hp.v, expans |-> ex.v, compr |-> co.v]]
Reaction(r) ==
  LET ms == Methods(r)
      K == Ref(r, "logKr", "1") G == Ref(r, "drsm_gibbs_energy", "J/mol") H == Ref(r, "drsm_enthalpy", "J/mol") S == Ref(r, "drsm_entropy", "J/K/mol") V == Ref(r, "drsm_volume", "J/bar") Cp == Ref(r, "drsm_heat_capacity_p", "J/K/mol")
      lk == LastCoefs(ms, "logk_ft_coeffs", <<"1", "1/K", "K", "1", "K^2", "1/K^2", "K^0.5">>)
      cp == LastCoefs(ms, "dr_heat_capacity_ft_coeffs", <<"J/(mol*K)", "J/(mol*K^2)", "(J*K)/mol", "J/(mol*K^0.5)", "J/(mol*K^3)">>)
      v == LastCoefs(ms, "dr_volume_fpt_coeffs", <<"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2">>)
      rb == LastCoefs(ms, "dr_ryzhenko_coeffs", <<"1", "1", "1">>)
      fm == LastCoefs(ms, "dr_marshall_franck_coeffs", <<"1", "K", "K^2", "K^3", "1", "K", "K^2">>)
      dm == LastCoefs(ms, "dr_dolejs_manning10_coeffs", <<"J/mol", "J/(mol*K)", "J/(mol*K)", "J/(mol*K^2)", "J/(mol*K)">>)
      n == New(r)
  IN [ok |-> K.ok /\ G.ok /\ H.ok /\ S.ok /\ V.ok /\ Cp.ok /\ lk.ok /\ cp.ok /\ v.ok /\ rb.ok /\ fm.ok /\ dm.ok,
      o |-> [name |-> Get(r, "name", ""), symbol |-> n.symbol, equation |-> n.equation, stoich |-> n.stoich,
             Tr |-> IF Has(r, "Tst") THEN Num(r.Tst) ELSE "298.15", Pr |-> IF Has(r, "Pst") THEN Num(r.Pst) ELSE "1e5", lowT |-> Limit(r, "lowerT"), upT |-> Limit(r, "upperT"), lowP |-> "0", upP |-> "0",
             eos |-> Code(ms, REos), mT |-> Code(ms, RmT), mP |-> Code(ms, RmP),
             ref |-> [logK |-> K.v, G |-> G.v, H |-> H.v, S |-> S.v, V |-> V.v, Cp |-> Cp.v, A |-> None, U |-> None, Cv |-> None, lnK |-> None],
             logk |-> lk.v, cp |-> cp.v, v |-> v.v, rb |-> rb.v, fm |-> fm.v, dm |-> dm.v]]
\* ---------------------------------------------------------------- comparison of the object read (o) with the getters (g)
Rel == "1e-11"
C1(a, b) == RClose(a, b, Rel, "1e-300")
CSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : C1(a[i], b[i])
\* the first of the list is a temperature: a conversion from or to degrees Celsius is as exact as the number of kelvins
CTem(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : IF i = 1 THEN RClose(a[i], b[i], Rel, "3e-10") ELSE C1(a[i], b[i])
CTems(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CTem(a[i], b[i])
CSeqs(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CSeq(a[i], b[i])
Reals == {"mass", "entropy", "Tr", "Pr", "lowT", "upT", "lowP", "upP", "volume", "expans", "compr"}
Lists == {"ad", "hkf", "hp98", "logk", "v", "rb", "fm", "dm"}
Nested == {"tint"}
SameValue(k, f, a, b) ==
  IF f \in Reals \/ (k = "el" /\ f = "cp") THEN C1(a, b)
  ELSE IF f \in {"landau", "crit"} THEN CTem(a, b)
  ELSE IF f = "ph" THEN CTems(a, b)
  ELSE IF f \in Lists \/ (k = "re" /\ f = "cp") THEN CSeq(a, b)
  ELSE IF f \in Nested \/ (k = "su" /\ f = "cp") THEN CSeqs(a, b)
  ELSE IF f = "ref" THEN \A p \in DOMAIN b : \A i \in 1..5 : IF i = 5 THEN a[p][i] = b[p][i] ELSE C1(a[p][i], b[p][i])
  ELSE IF f \in {"class", "state"} THEN REq(a, RNum(b))
  ELSE a = b
\* fields of o that the object shows otherwise
Wrong(k, o, g) == {f \in DOMAIN o : IF f = "stoich" THEN ~SameStoich(g.reactants, o.stoich) ELSE ~SameValue(k, f, o[f], g[f])}
Read(op, r) == IF op = "el_new" THEN Element(r) ELSE IF op = "su_new" THEN Substance(r) ELSE Reaction(r)
KindOfOp(op) == IF op = "el_new" THEN "el" ELSE IF op = "su_new" THEN "su" ELSE "re"
RecAllowed(st, e) ==
  LET x == Read(e.c.op, e.c.rec) IN
  /\ e.ok = x.ok
  /\ (e.ok => Wrong(KindOfOp(e.c.op), x.o, e.r) = {})
RecStep(st, e) == st
RecExpect(st, e) ==
  LET x == Read(e.c.op, e.c.rec) IN IF e.ok /\ x.ok THEN [wrong |-> Wrong(KindOfOp(e.c.op), x.o, e.r), expected |-> [f \in Wrong(KindOfOp(e.c.op), x.o, e.r) |-> x.o[f]]] ELSE [readable |-> x.ok]
=============================================================================
