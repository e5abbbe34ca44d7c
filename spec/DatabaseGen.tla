----------------------------- MODULE DatabaseGen ----------------------------
(* Random histories of several databases.  mode 1: records; 2: formulas and the elements they are read with *)
EXTENDS Database
VARIABLES w, st, hist
Mode == Param("mode", 1)
Pos(x) == "@" \o RndReal("1", "300", 2)
Els == <<"H", "O", "C", "Na", "Ca", "Xy", "Cl">>
Subs == <<"A", "B", "Na+", "H2O@", "">>
Reas == <<"R1", "R2", "A = B", "">>
Sym(k) == IF k = "el" THEN Pick(Els) ELSE IF k = "su" THEN Pick(Subs) ELSE Pick(Reas)
Counts == <<"", "", "2", "3", "12", "0.5", "1.25">>
RECURSIVE FText(_, _)
FText(n, depth) ==
  IF n = 0 THEN ""
  ELSE (IF depth > 0 /\ Chance(25) THEN "(" \o FText(Rnd(3), depth - 1) \o ")" ELSE Pick(Els) \o (IF Chance(10) THEN "|" \o Pick(<<"2", "-2", "+3", "0">>) \o "|" ELSE "")) \o Pick(Counts) \o FText(n - 1, depth)
FormulaText(x) == LET t == FText(Rnd(4), 2) IN
  IF Chance(4) THEN t \o Pick(<<"(", ")", "?", "+2x", "@@">>) ELSE IF Chance(3) THEN t \o "Uue" ELSE t \o Pick(<<"", "", "", "@", "+", "-", "+2", "-3", "+1">>)
Nothing == [no_such_field |-> "x"]
May(p, f, v) == IF Chance(p) THEN (f :> v) ELSE Nothing
Val(u) == [values |-> <<Pos(0)>>] @@ (IF Chance(30) THEN [units |-> <<IF Chance(3) THEN "foo" ELSE u>>] ELSE Nothing)
Name(x) == Pick(<<"n1", "n2", "n3", "n4", "n5", "n6", "n7">>)
Rec(k) ==
  CASE k = "el" -> [symbol |-> Sym("el"), name |-> Name(0)] @@ May(90, "atomic_mass", Val("kg/mol")) @@ May(80, "entropy", Val("cal/(mol*K)")) @@ May(10, "class_", (Pick(<<"0", "0", "1", "4">>) :> "c")) @@ May(5, "isotope_mass", Pick(<<0, 13>>))
    [] k = "su" -> [symbol |-> Sym("su"), name |-> Name(0)] @@ May(80, "formula", FormulaText(0)) @@ May(60, "formula_charge", Rnd(5) - 3) @@ May(60, "mass_per_mole", Val("kg/mol")) @@ May(60, "sm_gibbs_energy", Val("cal/mol"))
                   @@ May(50, "reaction", Pick(Reas)) @@ May(40, "Tst", Pos(0)) @@ May(40, "class_", (Pick(<<"0", "2", "3">>) :> "c"))
    [] k = "re" -> May(70, "symbol", Sym("re")) @@ [name |-> Name(0)] @@ May(70, "equation", Pick(<<"A = B", "A + 2 B = Na+", "H2O@ = A">>)) @@ May(50, "logKr", Val("1"))
                   @@ May(30, "reactants", <<[symbol |-> "A", coefficient |-> Pos(0)], [symbol |-> "B", coefficient |-> Pos(1)]>>)
Kind(x) == Pick(IF Mode = 2 THEN <<"el", "el", "el", "su">> ELSE <<"el", "su", "re">>)
RECURSIVE Items(_, _), Recs(_, _)
Items(n, bad) == IF n = 0 THEN <<>> ELSE LET k == Kind(0) IN <<[kind |-> IF bad /\ Chance(5) THEN Pick(<<"nonsense", "substances", "">>) ELSE k, rec |-> Rec(k)]>> \o Items(n - 1, bad)
Recs(n, k) == IF n = 0 THEN <<>> ELSE <<Rec(k)>> \o Recs(n - 1, k)
Way(x) == Pick(<<"list", "wrapped", "kind", "array", "arrayfile", "sections", "file">>)
Source(x) == LET y == Pick(<<"list", "wrapped", "kind", "array", "arrayfile", "sections", "file">>) n == Rnd(5) - 1 k == Kind(0) IN
  IF y = "kind" THEN LET rs == Recs(n, k) IN [way |-> y, items |-> [i \in DOMAIN rs |-> [kind |-> k, rec |-> rs[i]]]]
  ELSE [way |-> y, items |-> Items(n, y \notin {"sections", "file"})] @@
       (IF y \in {"sections", "file"} THEN [empty |-> Chance(50)] @@ (IF Chance(30) THEN [water |-> Pick(<<"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS">>)] ELSE Nothing) ELSE [wrap |-> IF Chance(50) THEN 1 ELSE 0])
Dbs == <<"d", "e", "f">>
Forms(D) == LET d == Rnd(3) f == FormulaText(0) IN IF d = 1 THEN [op |-> "db_entropy", f |-> f] ELSE [op |-> "db_formula", f |-> f]
TouchCmd(k) == [op |-> "db_touch", kind |-> k, s |-> Sym(k)] @@ May(40, "name", Name(0)) @@
  (CASE k = "el" -> May(60, "mass", RndReal("1", "99", 1)) @@ May(60, "entropy", RndReal("1", "99", 1))
     [] k = "su" -> May(50, "mass", RndReal("1", "99", 1)) @@ May(50, "formula", FormulaText(0)) @@ May(50, "G", RndReal("-99", "99", 1))
     [] k = "re" -> May(60, "eq", Pick(<<"A = 3 B", "B + Na+ = A">>)))
Cmd(s) ==
  LET h == Pick(Dbs) g == Pick(Dbs) d == Rnd(100) k == Kind(0) IN
  IF h \notin DOMAIN s \/ d <= 3
  THEN (IF g \in DOMAIN s /\ g # h /\ Chance(40) THEN [op |-> "db_copy", db |-> h, from |-> g]
        ELSE [op |-> "db_new", db |-> h] @@ (IF Chance(75) THEN Source(0) ELSE Nothing))
  ELSE IF Mode = 2 /\ d <= 45 THEN [db |-> h] @@ Forms(0)
  ELSE IF Mode = 2 /\ d <= 50 THEN [op |-> "db_charges", db |-> h]
  ELSE IF d <= 25 THEN [op |-> "db_append", db |-> h] @@ Source(0)
  ELSE IF d <= 37 THEN [op |-> "db_add", db |-> h, kind |-> k, rec |-> Rec(k), json |-> Chance(50)]
  ELSE IF d <= 55 THEN [op |-> "db_set", db |-> h, kind |-> k, rec |-> Rec(k), json |-> Chance(50)]
  ELSE IF d <= 62 THEN [op |-> Pick(<<"db_map", "db_setmap">>), db |-> h, kind |-> k, recs |-> Recs(Rnd(4) - 1, k)]
  ELSE IF d <= 70 THEN [db |-> h] @@ TouchCmd(k)
  ELSE IF d <= 78 THEN [op |-> "db_get", db |-> h, kind |-> k, s |-> Sym(k)]
  ELSE IF d <= 82 THEN [op |-> "db_ref", db |-> h, kind |-> k, s |-> Sym(k)]
  ELSE IF d <= 86 THEN [op |-> Pick(<<"db_has">>), db |-> h, kind |-> k, s |-> Sym(k)]
  ELSE IF d <= 90 THEN [op |-> Pick(<<"db_all", "db_dump", "db_getconv">>), db |-> h, kind |-> k]
  ELSE IF d <= 92 THEN [op |-> "db_conv", db |-> h, water |-> Pick(<<"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS">>)]
  ELSE IF d <= 95 /\ g # h /\ g \in DOMAIN s THEN [op |-> "db_assign", db |-> h, from |-> g]
  ELSE IF d <= 96 /\ Cardinality(DOMAIN s) > 1 THEN [op |-> "db_del", db |-> h]
  ELSE [op |-> "db_dump", db |-> h]
Do(s, c) == Effect(s, c).st
W == INSTANCE WalkBase WITH Start <- NoFcn
WInit == W!WInit
WNext == W!WNext
=============================================================================
