------------------------------ MODULE BatchMC -------------------------------
(* Every combination of the preferences with every form of calculation, small; all forms of output are read.  Invariants:
   every symbol and condition has exactly one row and RowAt finds it; increments begin at the minimum, grow and end at the
   first point that reaches the maximum; the setters of single properties, lists and maps agree.                         *)
EXTENDS Batch
VARIABLES x
Use == <<"el.H.1", "el.O.1", "el.Si.1", "el.Na.1", "el.Cl.1", "su.w.1", "su.Quartz.1", "su.Na+.1", "su.Cl-.1", "su.NaCl.1", "su.Lime.1", "re.NaCl.1", "re.Di.1", "su.Di.1">>
Forms == {"one", "pair", "pairs", "grid", "incr", "given"}
Notes == {<<TRUE, FALSE>>, <<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}
Combos == [form : Forms, kind : {"sub", "rea"}, pairsFirst : BOOLEAN, Tfirst : BOOLEAN, note : Notes, nan : BOOLEAN]
Syms(c) == IF c.kind = "sub" THEN <<"Na+", "Quartz", "Lime">> ELSE <<"NaCl@", "Di">>
Props(c) == IF c.kind = "sub" THEN <<"volume", "gibbs_energy", "heat_capacity_cv">> ELSE <<"logKr", "reaction_helmholtz_energy", "reaction_volume">>
Tp == << <<"25", "0">>, <<"75", "500">>, <<"25", "500">> >>
CalcOf(c) ==
  LET r == [op |-> "ba_calc", ba |-> "b", out |-> "o", kind |-> c.kind, syms |-> Syms(c), props |-> Props(c)] IN
  CASE c.form = "one" -> [r EXCEPT !.syms = <<Head(@)>>, !.props = <<Head(@)>>] @@ [form |-> "one", T |-> "75", P |-> "0"]
    [] c.form = "pair" -> r @@ [form |-> "pair", T |-> "75", P |-> "0"]
    [] c.form = "pairs" -> r @@ [form |-> "pairs", tp |-> Tp]
    [] c.form = "grid" -> r @@ [form |-> "grid", Ts |-> <<"75", "25">>, Ps |-> <<"500", "0", "1000">>]
    [] c.form = "incr" -> r @@ [form |-> "incr"]
    [] OTHER -> r @@ [form |-> "grid", Ts |-> <<"75", "25">>, Ps |-> <<"500">>, en |-> "s",
                      given |-> [i \in 1..(2 * Len(Syms(c))) |-> <<IF i % 2 = 0 THEN "310" ELSE "350.5", IF i > 2 THEN "5e7" ELSE "100000", Syms(c)[((i + 1) \div 2)]>>]]
Cmds1(c) == <<[op |-> "db_new", db |-> "d", use |-> Use], [op |-> "en_new", en |-> "s", db |-> "d"], [op |-> "ba_new", ba |-> "b", db |-> "d"],
              [op |-> "ba_units", ba |-> "b", ps |-> <<"temperature", "pressure", "gibbs_energy">>, us |-> <<"degC", "bar", "kJ/mol">>],
              [op |-> "ba_Tinc", ba |-> "b", v |-> <<"25", "100", "50">>], [op |-> "ba_Pinc", ba |-> "b", v |-> <<"500", "1000", "500">>],
              [op |-> "ba_prefs", ba |-> "b", byref |-> c.nan, set |-> [fixed |-> c.note[1], sci |-> c.note[2], sep |-> ",", pairsFirst |-> c.pairsFirst, Tfirst |-> c.Tfirst, nan |-> c.nan]]>>
RECURSIVE RunAll(_, _)
RunAll(st, cs) == IF cs = <<>> THEN st ELSE RunAll(BConf(st, Head(cs)), Tail(cs))
State(c) == RunAll(BInit, Cmds1(c))
Asked(c) == LET y == CalcOf(c) s == State(c) qs == Questions(s.bas["b"], y) u == SetToSeq({qs[i] : i \in DOMAIN qs}) IN [i \in DOMAIN u |-> u[i] @@ [en |-> "s"]]
Reads == [i \in 1..6 |-> [op |-> <<"out_rows", "out_csv", "out_grid", "out_tcsv", "out_csv", "out_scalar">>[i], out |-> "o"]]
Behaviour(c) == Cmds1(c) \o Asked(c) \o <<CalcOf(c)>> \o Reads
Init == x \in Combos /\ Emit(Behaviour(x))
Next == FALSE /\ x' = x
\* ---------------------------------------------------------------- invariants
Places == LET b == State(x).bas["b"] c == CalcOf(x) n == Len(Conditions(b, c)) m == Len(c.syms) ro == RowOrder(b, n, m) IN
  /\ Len(ro) = n * m
  /\ \A j \in 1..n : \A s \in 1..m : Cardinality({i \in DOMAIN ro : ro[i] = <<j, s>>}) = 1 /\ ro[RowAt([b |-> b, tp |-> Conditions(b, c), syms |-> c.syms], j, s)] = <<j, s>>
Incs == {<<"1", "2", "0.25">>, <<"0", "1", "0.1">>, <<"5", "5", "0">>, <<"1", "10", "4">>, <<"3", "1", "2">>, <<"-10", "-1", "3">>}
Steps == \A v \in Incs : LET p == Points(v[1], v[2], v[3]) n == Len(p) IN
  /\ ~Endless(v) /\ p[1] = v[1]
  /\ \A i \in 1..(n - 1) : RLt(p[i], p[i + 1]) /\ RLt(p[i], v[2])
  /\ RLe(v[2] (-) "1e-8", p[n])
Agree == LET b == State(x).bas["b"] ps == <<"volume", "temperature", "volume">> us == <<"m3", "degF", "cm3">> ds == <<1, 2, 3>> IN
  /\ Settings(b, [op |-> "ba_units", ps |-> ps, us |-> us]) = Settings(b, [op |-> "ba_mapunits", m |-> [i \in 1..3 |-> <<ps[i], us[i]>>]])
  /\ Settings(b, [op |-> "ba_digits", ps |-> ps, ds |-> ds]) = Settings(b, [op |-> "ba_mapdigits", m |-> [i \in 1..3 |-> <<ps[i], ds[i]>>]])
  /\ Settings(Settings(b, [op |-> "ba_unit", p |-> "volume", u |-> "m3"]), [op |-> "ba_digit", p |-> "volume", d |-> 1]) = Settings(b, [op |-> "ba_unitdigit", p |-> "volume", u |-> "m3", d |-> 1])
=============================================================================
