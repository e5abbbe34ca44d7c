---------------------------- MODULE EquationsGen ---------------------------
(* Random equations in all notations, on objects that had other equations before. *)
EXTENDS Equations, TLC, SequencesExt
VARIABLES w, st, hist
Species == <<"A", "B", "C", "Na+", "Cl-", "H2O@", "H2O", "CO2(g)", "Ca+2", "SO4-2", "(UO2)2(OH)2+2", "e-", "Fe|3|+3", "NaCl(aq)", "H+", "Al(OH)4-", "C6H12O6", "x1", "Zr:4:O2", "a_b", "A.2">>
Sp(few) == IF few THEN Pick(<<"A", "B", "Na+", "e-">>) ELSE Pick(Species)
B0(x) == Pick(<<"", "", " ", "  ", "\t">>)
B1(x) == Pick(<<" ", " ", " ", "  ", "\t", " \n">>)
Coef(x) == LET k == Rnd(100) IN
  IF k <= 40 THEN "" ELSE IF k <= 55 THEN Pick(<<"2", "3", "10", "1">>) \o B0(0) ELSE IF k <= 70 THEN RndReal("0.1", "20", 3) \o B0(0)
  ELSE IF k <= 78 THEN Pick(<<"0.5", ".5", "2.", "0.125">>) \o B0(0) ELSE IF k <= 84 THEN "-" ELSE IF k <= 90 THEN "-" \o RndReal("0.1", "9", 2) \o B0(0) ELSE IF k <= 95 THEN "+" ELSE "+" \o Pick(<<"2", "1.5">>)
RECURSIVE SideText(_, _)
SideText(n, few) == IF n = 0 THEN "" ELSE (IF n = 1 THEN "" ELSE SideText(n - 1, few) \o B1(0) \o "+" \o B1(0)) \o Coef(0) \o Sp(few)
Eq(x) == LET few == Chance(30) n == Pick(<<0, 1, 1, 2, 2, 3, 4, 8>>) m == IF n = 0 THEN Rnd(3) ELSE Pick(<<0, 1, 1, 2, 3, 5>>) IN
  B0(0) \o SideText(n, few) \o B0(0) \o "=" \o B0(0) \o SideText(m, few) \o B0(0)
Hs == <<"a", "b", "c">>
Rec(x) == LET k == Rnd(10) IN
  (IF Chance(50) THEN [symbol |-> Pick(<<"R1", "R2">>)] ELSE [name |-> "n"]) @@
  (IF k <= 6 THEN [equation |-> Eq(0)] ELSE [name |-> "n"]) @@
  (IF k \in 5..8 THEN [reactants |-> [i \in 1..Rnd(4) |-> [symbol |-> Sp(TRUE), coefficient |-> "@" \o RndReal("-5", "5", 2)]]] ELSE [name |-> "n"])
Cmd(s) == LET h == Pick(Hs) g == Pick(Hs) d == Rnd(100) IN
  IF h \notin s \/ d <= 25 THEN (IF g \in s /\ Chance(20) /\ g # h THEN [op |-> "re_copy", h |-> h, from |-> g] ELSE [op |-> "re_new", h |-> h, rec |-> Rec(0)])
  ELSE IF d <= 85 THEN [op |-> "re_eq", h |-> h, eq |-> Eq(0)] ELSE [op |-> "re_get", h |-> h]
Do(s, c) == s \cup {c.h}
W == INSTANCE WalkBase WITH Start <- {}
WInit == W!WInit
WNext == W!WNext
=============================================================================
