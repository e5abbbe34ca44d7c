------------------------------ MODULE WaysGen -------------------------------
(* Random ways to give the records of one file per behaviour; the first look is at the file itself. *)
EXTENDS Ways, TLC
VARIABLES w, st, hist
Files == <<"aq17", "cemdata18", "cemdata18", "mines16", "psinagra-12-07", "slop98-organic", "slop98", "heracles">>
WayList == <<"list", "wrapped", "array", "arrayfile", "sections", "file", "sections", "list">>
DbWays == WayList \o <<"add", "addjson">>
RECURSIVE Parts(_, _)
Parts(n, ws) == IF n = 0 THEN <<>> ELSE <<Pick(ws)>> \o Parts(n - 1, ws)
Ts == <<"298.15", "350", "500">>
PsL == <<"100000", "5e7", "0">>
Start == [n |-> 0, f |-> "", s |-> Init0]
Setup(x) == CASE x.n = 0 -> [op |-> "db_file", db |-> "d", file |-> Pick(Files)]
             [] x.n = 1 -> [op |-> "db_digest", db |-> "d"]
             [] x.n = 2 -> [op |-> "en_file", en |-> "e", file |-> x.f]
             [] x.n = 3 -> [op |-> "en_digest", en |-> "e", T |-> Pick(Ts), P |-> Pick(PsL)]
             [] OTHER -> [op |-> "none"]
EnWay(x) == Parts(Rnd(4), WayList)
Cmd(x) ==
  IF x.n <= 3 THEN Setup(x)
  ELSE IF x.n % 2 = 0 THEN
    LET d == Rnd(10) IN
    CASE d <= 4 -> [op |-> "db_parts", db |-> "p", file |-> x.f, seed |-> Rnd(1000000), ways |-> Parts(Rnd(5), DbWays)]
      [] d <= 8 -> [op |-> "en_parts", en |-> "p", file |-> x.f, seed |-> Rnd(1000000), ways |-> EnWay(0)]
      [] OTHER -> LET k == {y \in {"d", "p"} : y \in DOMAIN x.s.db} IN [op |-> "en_new", en |-> "p", db |-> IF "p" \in k THEN "p" ELSE "d"]
  ELSE LET q == x.s.q IN
    IF q.op = "db_parts" THEN [op |-> "db_digest", db |-> "p"]
    ELSE CHOOSE c \in {[op |-> "en_digest", en |-> "p", T |-> k[2], P |-> k[3]] : k \in {x.s.key}} : TRUE
Do(x, c) == [n |-> x.n + 1, f |-> IF c.op = "db_file" THEN c.file ELSE x.f,
             s |-> IF c.op = "en_digest" /\ x.n = 3 THEN [After(x.s, c) EXCEPT !.res = x.s.res] @@ [q |-> c, key |-> <<x.f, c.T, c.P>>] ELSE IF x.n <= 3 THEN After(x.s, c) ELSE [After(x.s, c) EXCEPT !.q = c]]
W == INSTANCE WalkBase WITH Start <- Start
WInit == W!WInit
WNext == W!WNext
=============================================================================
