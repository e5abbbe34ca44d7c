---------------------------- MODULE PyFieldsGen -----------------------------
(* Random walks over a few structures: every field of every class is written and read. *)
EXTENDS PyFields
VARIABLES w, st, hist
Hs == <<"a", "b", "c">>
Classes == SetToSeq(DOMAIN Types)
Num(x) == IF Chance(15) THEN Pick(<<"0", "-1", "1e10", "1e-5">>) ELSE RndReal("-1000", "1000", 3)
Vec(x) == [i \in 1..(Rnd(4) - 1) |-> Num(i)]
Value(t) ==
  CASE t = "r" -> Num(0)
    [] t = "b" -> Chance(50)
    [] t = "i" -> Pick(<<0, 1, 2, 1000>>)
    [] t = "s" -> Pick(<<"a", "x.csv", "H2O@", "", ";">>)
    [] t = "v" -> Vec(0)
    [] t = "m" -> [i \in 1..(Rnd(3) - 1) |-> Vec(i)]
    [] t = "t" -> <<Num(1), Num(2), Num(3), RndReal("0", "1000", 3), Rnd(5) - 1>>   \* the error of a scalar is a distance
    [] t = "p" -> <<Rnd(5) - 1, Pick(<<"", "note">>)>>
\* the walk knows the classes of the handles
Cmd(s) ==
  LET h == Pick(Hs) d == Rnd(100) IN
  IF d <= 2 THEN [op |-> "py_water"]
  ELSE IF h \notin DOMAIN s \/ d <= 8 THEN [op |-> "fl_new", h |-> h, cls |-> Pick(Classes)]
  ELSE IF d <= 20 THEN [op |-> "fl_get", h |-> h]
  ELSE CHOOSE c \in {[op |-> "fl_set", h |-> h, f |-> f, v |-> Value(Types[s[h]][f])] : f \in {Pick(SetToSeq(DOMAIN Types[s[h]]))}} : TRUE
Do(s, c) == IF c.op = "fl_new" THEN Upd(s, c.h, c.cls) ELSE s
W == INSTANCE WalkBase WITH Start <- NoFcn
WInit == W!WInit
WNext == W!WNext
=============================================================================
