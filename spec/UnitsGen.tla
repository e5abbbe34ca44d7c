----------------------------- MODULE UnitsGen ------------------------------
(* Random conversions: between composite expressions of the same dimension, of different dimensions, and malformed ones,
   there and back.  *)
EXTENDS Units, TLC, SequencesExt
VARIABLES w, st, hist
Names == SetToSeq(DOMAIN UnitDef)
Common == <<"J", "cal", "kJ", "kcal", "mol", "mmol", "K", "K^2", "K^0.5", "K^3", "bar", "kbar", "Pa", "MPa", "bar^2", "g", "kg", "cm3", "cm^3", "m3", "l", "m", "s", "1", "eV", "W", "hour", "molal", "degC">>
AName(x) == IF Chance(60) THEN Pick(Common) ELSE Pick(Names)
SameDim == [n \in DOMAIN UnitDef |-> SelectSeq(Names, LAMBDA x : Known[x].d = Known[n].d)]
Alike(n) == IF n \in DOMAIN SameDim THEN Pick(SameDim[n]) ELSE n
\* a structure is a sequence of <<operator, name>> and groups <<operator, structure>>; rendered twice with names of the same dimensions
RECURSIVE Struct(_, _)
Struct(n, deep) == IF n = 0 THEN <<>> ELSE Struct(n - 1, deep) \o
   << IF deep > 0 /\ Chance(25) THEN [o |-> Pick(<<"*", "/", "/">>), n |-> "", g |-> Struct(Rnd(3), deep - 1)]
      ELSE [o |-> Pick(<<"*", "/">>), n |-> AName(0), g |-> <<>>] >>
RECURSIVE Text(_, _, _)
Text(s, i, other) ==
  IF i > Len(s) THEN ""
  ELSE (IF i = 1 THEN "" ELSE s[i].o) \o
       (IF s[i].n = "" THEN "(" \o Text(s[i].g, 1, other) \o ")" ELSE IF other THEN Alike(s[i].n) ELSE s[i].n)
       \o Text(s, i + 1, other)
Broken(t) == Pick(<<t \o "*", "(" \o t, t \o ")", t \o "/", "*" \o t, t \o "//m", "()" \o t, t \o "^-2", "foo*" \o t, t \o " mol", "", "1e-5/K", "(" \o t \o ")m", "m(" \o t \o ")", "j">>)
Val(x) == IF Chance(15) THEN Pick(<<"0", "1", "-273.15", "1e-30", "1e30", "-1">>) ELSE RndReal("-1000", "1000", 4)
Vn(x) == [op |-> Pick(<<"conv", "conv", "conv", "convable">>), v |-> Val(0)]
Cmd(s) ==
  LET d == Rnd(100) IN
  IF s # <<>> THEN s[1]
  ELSE IF d <= 12 THEN LET T == SetToSeq(DOMAIN Temps) IN Vn(0) @@ [from |-> Pick(T), to |-> Pick(T)]
  ELSE IF d <= 65 THEN \* (bound: each Text is drawn once)
    CHOOSE c \in {Vn(0) @@ [from |-> Text(x, 1, FALSE), to |-> Text(x, 1, TRUE)] : x \in {Struct(Rnd(4), 2)}} : TRUE
  ELSE IF d <= 85 THEN CHOOSE c \in {Vn(0) @@ [from |-> Text(x, 1, FALSE), to |-> Text(y, 1, FALSE)] : x \in {Struct(Rnd(2), 1)}, y \in {Struct(Rnd(2), 1)}} : TRUE
  ELSE CHOOSE c \in {Vn(0) @@ (IF Chance(50) THEN [from |-> Broken(Text(x, 1, FALSE)), to |-> Text(x, 1, FALSE)] ELSE [from |-> Text(x, 1, FALSE), to |-> Broken(Text(x, 1, FALSE))]) : x \in {Struct(Rnd(2), 1)}} : TRUE
\* after a conversion: back again
Do(s, c) == IF s = <<>> /\ c.op = "conv" THEN <<[c EXCEPT !.from = c.to, !.to = c.from]>> ELSE <<>>
W == INSTANCE WalkBase WITH Start <- <<>>
WInit == W!WInit
WNext == W!WNext
=============================================================================
