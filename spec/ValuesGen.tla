----------------------------- MODULE ValuesGen -----------------------------
(* Random walks over a few elements, substances and reactions. *)
EXTENDS Values, TLC
VARIABLES w, st, hist
\* walk state: set of handles that exist
Ord == Param("order", 0)
Hs == <<"a", "b", "c", "d">>
Word(x) == Pick(<<"A", "B", "Ab", "AB", "H", "O", "x1", "Na+", "a", "">>)
Num(x) == IF Chance(20) THEN Pick(<<"0", "1", "-1", "1e10">>) ELSE RndReal("-1000", "1000", 3)
Small(x) == Rnd(4) - 1
SetEl(h) == LET k == Rnd(10) s == [op |-> "el_set", h |-> h] IN
  s @@ (CASE k = 1 -> [name |-> Word(0)] [] k = 2 -> [symbol |-> Word(0)] [] k = 3 -> [mass |-> Num(0)] [] k = 4 -> [entropy |-> Num(0)] [] k = 5 -> [cp |-> Num(0)]
        [] k = 6 -> [volume |-> Num(0)] [] k = 7 -> [valence |-> Small(0)] [] k = 8 -> [class |-> Small(0)] [] k = 9 -> [isotope |-> Small(0)] [] k = 10 -> [number |-> Small(0)])
SetSu(h) == LET k == Rnd(18) s == [op |-> "su_set", h |-> h] IN
  s @@ (CASE k = 1 -> [name |-> Word(0)] [] k = 2 -> [symbol |-> Word(0)] [] k = 3 -> [mass |-> Num(0)] [] k = 4 -> [formula |-> Word(0)] [] k = 5 -> [reaction |-> Word(0)]
        [] k = 6 -> [Tr |-> Num(0)] [] k = 7 -> [Pr |-> Num(0)] [] k = 8 -> [lowT |-> Num(0)] [] k = 9 -> [upT |-> Num(0)] [] k = 10 -> [lowP |-> Num(0)] [] k = 11 -> [upP |-> Num(0)]
        [] k = 12 -> [charge |-> Rnd(9) - 5] [] k = 13 -> [eos |-> Small(0)] [] k = 14 -> [mT |-> Small(0)] [] k = 15 -> [mP |-> Small(0)] [] k = 16 -> [class |-> Small(0)]
        [] k = 17 -> [G |-> Num(0)] [] k = 18 -> [hkf |-> <<Num(0), Num(0)>>, state |-> Small(0)])
SetRe(h) == LET k == Rnd(13) s == [op |-> "re_set", h |-> h] IN
  s @@ (CASE k = 1 -> [name |-> Word(0)] [] k = 2 -> [symbol |-> Word(0)] [] k = 3 -> [equation |-> Word(0)]
        [] k = 6 -> [Tr |-> Num(0)] [] k = 7 -> [Pr |-> Num(0)] [] k = 8 -> [lowT |-> Num(0)] [] k = 9 -> [upT |-> Num(0)] [] k = 10 -> [lowP |-> Num(0)] [] k = 11 -> [upP |-> Num(0)]
        [] k = 4 -> [eos |-> Small(0)] [] k = 5 -> [mT |-> Small(0), mP |-> Small(0)] [] k = 12 -> [logK |-> Num(0), logk |-> <<Num(0)>>]
        [] k = 13 -> [reactants |-> << <<"A", Num(0)>>, <<"B", Num(0)>> >>])
\* complete objects: all fields that a default object leaves unset are given
NewEl(h) == [op |-> "el_new", h |-> h, rec |-> [symbol |-> Word(0), name |-> Word(0), class_ |-> [x |-> 1], entropy |-> [values |-> <<1>>]]]
New(k, h) ==
  CASE k = "el" -> [op |-> "el_new", h |-> h, rec |-> [symbol |-> Word(0), name |-> Word(0), number |-> Small(0)]]
    [] k = "su" -> [op |-> "su_new", h |-> h, rec |-> [symbol |-> Word(0), name |-> Word(0), formula |-> "H2O", Tst |-> 298, Pst |-> 100000]]
    [] k = "re" -> [op |-> "re_new", h |-> h, rec |-> [symbol |-> Word(0), name |-> Word(0), equation |-> "A + B = C"]]
Cmd(s) ==
  LET k == IF Ord = 1 THEN Pick(<<"el", "el", "su">>) ELSE Pick(<<"el", "su", "re">>)
      h == Pick(Hs) g == Pick(Hs)
  IN IF <<k, h>> \notin s THEN New(k, h)
     ELSE LET d == Rnd(100) IN
       IF d <= 10 /\ <<k, g>> \in s THEN [op |-> k \o "_copy", h |-> h, from |-> g]
       ELSE IF d <= 20 /\ <<k, g>> \in s THEN [op |-> k \o "_assign", h |-> h, from |-> g]
       ELSE IF d <= (IF Ord = 1 THEN 65 ELSE 30) /\ <<k, g>> \in s /\ k # "re" THEN [op |-> k \o "_cmp", h |-> h, from |-> g]
       ELSE IF d <= 75 THEN [op |-> k \o "_get", h |-> h]
       ELSE CASE k = "el" -> SetEl(h) [] k = "su" -> SetSu(h) [] k = "re" -> SetRe(h)
Do(s, c) == s \cup {H(c)}
W == INSTANCE WalkBase WITH Start <- {}
WInit == W!WInit
WNext == W!WNext
=============================================================================
