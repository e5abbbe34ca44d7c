----------------------------- MODULE BatchGen -------------------------------
(* Random histories of batches and outputs.  Before a calculation the questions it consists of are put to an engine of the
   same configuration (its shadow).  mode: 1 calculations, 2 files, 3 outputs kept over changes, 4 settings          *)
EXTENDS Batch
VARIABLES w, st, hist
G == INSTANCE EngineGen WITH w <- w, st <- st, hist <- hist
Mode == Param("mode", 1)
Maps == Param("maps", 1) = 1      \* the interface has setters of whole maps
Shadow(b) == "s_" \o b
\* ---------------------------------------------------------------- temperatures and pressures by unit
TsOf == [K |-> <<"298.15", "310", "350.5", "400", "550">>, degC |-> <<"25", "77.35", "126.85", "300.5">>, degF |-> <<"77", "212", "500.5">>, degR |-> <<"540", "700.25">>]
PsOf == [Pa |-> <<"0", "100000", "5e7", "100000.01", "2e8">>, bar |-> <<"0", "1", "500", "1.00001", "2000">>, MPa |-> <<"0", "0.1", "50", "200">>, kbar |-> <<"0", "0.001", "0.5">>,
         atm |-> <<"1", "0", "400.5">>, psi |-> <<"14.5", "0", "10000">>]
TIncOf == [K |-> << <<"300", "350", "25">>, <<"298.15", "298.15", "0">>, <<"300", "300.3", "0.1">>, <<"400", "500", "40">>, <<"310", "300", "5">> >>,
           degC |-> << <<"25", "75", "25">>, <<"25", "25", "0">>, <<"50", "50.3", "0.1">>, <<"100", "150", "30">> >>,
           degF |-> << <<"100", "200", "50">>, <<"77", "77", "1">> >>, degR |-> << <<"540", "640", "50">> >>]
PIncOf == [Pa |-> << <<"0", "0", "0">>, <<"100000", "200000", "100000">>, <<"1e7", "2.5e7", "1e7">> >>, bar |-> << <<"0", "0", "0">>, <<"1", "1.3", "0.1">>, <<"500", "1000", "500">>, <<"100", "200", "60">> >>,
           MPa |-> << <<"0.1", "0.1", "0">>, <<"0", "0", "0">>, <<"50", "100", "25">> >>, kbar |-> << <<"0.5", "1", "0.5">> >>, atm |-> << <<"1", "2", "0.5">> >>, psi |-> << <<"14.5", "14.5", "0">> >>]
BadInc == << <<"1", "2", "0">>, <<"300", "350", "-10">> >>
TUnitOf(b) == IF b.units["temperature"] \in DOMAIN TsOf THEN b.units["temperature"] ELSE "K"
PUnitOf(b) == IF b.units["pressure"] \in DOMAIN PsOf THEN b.units["pressure"] ELSE "Pa"
\* ---------------------------------------------------------------- units and digits
UnitsFor == [temperature |-> <<"K", "degC", "degC", "degF", "degR">>, pressure |-> <<"Pa", "bar", "bar", "MPa", "kbar", "atm", "psi">>,
             E |-> <<"J/mol", "kJ/mol", "cal/mol", "kcal/mol", "MJ/mol">>, S |-> <<"J/K/mol", "cal/K/mol", "J/(mol*K)", "kJ/K/mol">>, V |-> <<"J/bar", "cm3", "m3", "dm3", "cal/bar">>, L |-> <<"1", "1", "ppm">>]
Kind(p) == CASE p \in {"temperature", "pressure"} -> p [] p \in {"logKr", "lnKr"} -> "L"
             [] OTHER -> CASE Quantity(p) = "V" -> "V" [] Quantity(p) \in {"S", "Cp", "Cv"} -> "S" [] OTHER -> "E"
Props == SetToSeq(DOMAIN UnitDefault)
PropList(k) == SetToSeq(IF k = "sub" THEN DOMAIN SubProps ELSE DOMAIN ReaProps)
Odd == <<"Gibbs", "">>       \* unknown to the setters of single properties; the maps may add "density"
AProp(x) == IF Chance(35) THEN Pick(<<"temperature", "pressure">>) ELSE IF Mode = 4 /\ Chance(10) THEN Pick(Odd) ELSE Pick(Props)
MProp(x) == IF Chance(10) THEN "density" ELSE Pick(Props)
AUnit(p) == IF Chance(IF Mode = 4 THEN 12 ELSE 3) THEN Pick(<<"m", "J", "nonsense", "J/K", "", "kg/m3">>) ELSE IF p \in DOMAIN UnitDefault THEN Pick(UnitsFor[Kind(p)]) ELSE "kg/m3"
ADigit(x) == Rnd(7) - 1
Draws(n, F(_)) == [i \in 1..n |-> F(i)]
SetCmd(b, c) ==
  LET d == Rnd(100) r == [ba |-> b] IN
  CASE d <= 22 -> LET p == AProp(0) IN CHOOSE x \in {[op |-> "ba_unit", p |-> q, u |-> AUnit(q)] @@ r : q \in {p}} : TRUE
    [] d <= 34 -> [op |-> "ba_digit", p |-> AProp(0), d |-> ADigit(0)] @@ r
    [] d <= 40 -> CHOOSE x \in {[op |-> "ba_unitdigit", p |-> q, u |-> AUnit(q), d |-> ADigit(0)] @@ r : q \in {AProp(0)}} : TRUE
    [] d <= 48 -> CHOOSE x \in {[op |-> "ba_units", ps |-> ps, us |-> [i \in DOMAIN ps |-> AUnit(ps[i])]] @@ r : ps \in {<<AProp(0), AProp(1), AProp(2)>>}} : TRUE
    [] d <= 54 -> [op |-> "ba_digits", ps |-> <<AProp(0), AProp(1)>>, ds |-> <<ADigit(0), ADigit(1)>>] @@ r
    [] d <= 60 /\ Maps -> CHOOSE x \in {[op |-> "ba_mapunits", m |-> [i \in DOMAIN ps |-> <<ps[i], AUnit(ps[i])>>]] @@ r : ps \in {<<MProp(0), MProp(1)>>}} : TRUE
    [] d <= 65 /\ Maps -> [op |-> "ba_mapdigits", m |-> << <<MProp(0), ADigit(0)>>, <<MProp(1), ADigit(1)>> >>] @@ r
    [] d <= 72 -> [op |-> "ba_Tinc", v |-> IF Chance(10) THEN Pick(BadInc) ELSE Pick(TIncOf[TUnitOf(c)])] @@ r
    [] d <= 78 -> [op |-> "ba_Pinc", v |-> IF Chance(10) THEN Pick(BadInc) ELSE Pick(PIncOf[PUnitOf(c)])] @@ r
    [] d <= 81 -> [op |-> "ba_solvent", s |-> Pick(<<"H2O@", "Water">>)] @@ r
    [] OTHER -> LET k == Rnd(7) IN
         [op |-> "ba_prefs", byref |-> Chance(50),
          set |-> CASE k = 1 -> [fixed |-> Chance(60)] [] k = 2 -> [sci |-> Chance(50)] [] k = 3 -> [sep |-> Pick(<<",", ",", ";", "	", "@", " | ">>)] [] k = 4 -> [fromReactants |-> Chance(50)]
                    [] k = 5 -> [pairsFirst |-> Chance(50)] [] k = 6 -> [Tfirst |-> Chance(50)] [] OTHER -> [nan |-> Chance(50)]] @@ r
\* ---------------------------------------------------------------- calculations
Some(n, seq) == [i \in 1..n |-> Pick(seq)]
Syms(k) == IF Chance(3) THEN <<>> ELSE IF k = "sub" THEN IF Chance(5) THEN Some(1, G!BadSubs) ELSE Some(Rnd(3), G!Subs) ELSE IF Chance(5) THEN Some(1, G!BadReas) ELSE Some(Rnd(3), G!Reas)
Ask1(k) == IF Chance(8) THEN Pick(Props) ELSE IF Chance(2) THEN "density" ELSE Pick(PropList(k))
AskProps(k) == IF Chance(2) THEN <<>> ELSE [i \in 1..Rnd(4) |-> Ask1(k)]
Form(x) == Pick(<<"pair", "pair", "pairs", "pairs", "grid", "grid", "grid", "incr", "one">>)
CalcForm(f, k, T, P, r) ==
  CASE f = "one" -> [form |-> "one", syms |-> IF k = "sub" THEN Some(1, G!Subs) ELSE Some(1, G!Reas), T |-> Pick(T), P |-> Pick(P)] @@ [r EXCEPT !.props = <<Ask1(k)>>]
    [] f = "pair" -> [form |-> "pair", syms |-> Syms(k), T |-> Pick(T), P |-> Pick(P)] @@ r
    [] f = "pairs" -> [form |-> "pairs", syms |-> Syms(k), tp |-> [i \in 1..Pick(<<0, 1, 2, 3, 4, 4>>) |-> <<Pick(T), Pick(P)>>]] @@ r
    [] f = "grid" -> [form |-> "grid", syms |-> Syms(k), Ts |-> Some(Pick(<<0, 1, 2, 3, 3>>), T), Ps |-> Some(Pick(<<0, 1, 2, 2>>), P)] @@ r
    [] OTHER -> [form |-> "incr", syms |-> IF Chance(90) THEN Some(1, IF k = "sub" THEN G!Subs ELSE G!Reas) ELSE Syms(k)] @@ r
CalcCmd(b, c, x) ==
  LET k == Pick(<<"sub", "sub", "rea">>) T == TsOf[TUnitOf(c)] P == PsOf[PUnitOf(c)]
      r == [op |-> "ba_calc", ba |-> b, out |-> Pick(<<"o", "p", "q">>), kind |-> k, props |-> AskProps(k)]
      \* sums of steps that are not exact only where the models are tame
      tame == (c.Tinc[3] = "0.1" => c.Tinc \in Range(TIncOf[TUnitOf(c)])) /\ (c.Pinc[3] = "0.1" => c.Pinc \in Range(PIncOf[PUnitOf(c)])) /\
              ((c.Tinc[3] = "0.1" \/ c.Pinc[3] = "0.1") => c.Pinc \in Range(PIncOf[PUnitOf(c)]) /\ c.Tinc \in Range(TIncOf[TUnitOf(c)]))
      f0 == Form(x)
  IN CHOOSE cmd \in {CalcForm(IF f = "incr" /\ ~tame THEN "pair" ELSE f, k, T, P, r) : f \in {f0}} : TRUE
WithGiven(y, b, e) ==
  LET n == Len(Conditions(b, y)) * Len(y.syms) IN
  IF y.form \notin {"pairs", "grid"} \/ n = 0 THEN y
  ELSE y @@ [en |-> e, given |-> [i \in 1..n |-> <<Pick(<<"298.15", "310", "350.5">>), Pick(<<"100000", "5e7">>), IF y.kind = "sub" THEN Pick(<<"H2O@", "Quartz", "NaCl@", "Lime">>) ELSE Pick(<<"NaCl@", "Dis">>)>>]]
Distinct(qs) == SetToSeq({qs[i] : i \in DOMAIN qs})
QuestionsTo(s, c) == LET e == IF IsGiven(c) THEN c.en ELSE Shadow(c.ba) b == s.bas[c.ba] qs == IF IsGiven(c) \/ UnitsOk(b, Conditions(b, c), c) THEN Distinct(Questions(b, c)) ELSE <<>> IN [i \in DOMAIN qs |-> qs[i] @@ [en |-> e]]
OutCmd(s) ==
  LET o == Pick(<<"o", "p", "q">>) d == Rnd(100) r == [out |-> o] IN
  CASE d <= 15 -> [op |-> "out_rows"] @@ r
    [] d <= 40 -> [op |-> "out_csv"] @@ r
    [] d <= 65 -> [op |-> "out_tcsv"] @@ r
    [] d <= 88 -> [op |-> "out_grid"] @@ r
    [] d <= 91 -> [op |-> "out_double"] @@ r
    [] d <= 94 -> [op |-> "out_scalar"] @@ r
    [] d <= 97 -> [op |-> "out_csv"] @@ r
    [] OTHER -> [op |-> "out_del"] @@ r
\* ---------------------------------------------------------------- walks
BStart == [c |-> Config0 @@ [bas |-> NoFcn, outs |-> NoFcn], plan |-> <<>>, n |-> 0]
Names == <<"b", "b2">>
NewCmds(s, x) ==
  LET b == Pick(Names) d == Rnd(10) IN
  IF d <= 5 THEN LET e == Pick(<<"e", "e">>) IN <<[op |-> "ba_new", ba |-> b, en |-> e], [op |-> "en_copy", en |-> Shadow(b), from |-> e]>>
  ELSE IF d <= 8 THEN <<[op |-> "ba_new", ba |-> b, db |-> "d"], [op |-> "en_new", en |-> Shadow(b), db |-> "d"]>>
  ELSE CHOOSE z \in {<<[op |-> "ba_new", ba |-> b, use |-> u, way |-> Pick(<<"array", "arrayfile", "file", "sections">>)], [op |-> "db_new", db |-> "x", use |-> u], [op |-> "en_new", en |-> Shadow(b), db |-> "x"]>> : u \in {G!Content(0)}} : TRUE
Setup(n) == CASE n = 0 -> [op |-> "db_new", db |-> "d", use |-> G!Content(0)]
              [] n = 1 -> [op |-> "en_new", en |-> "e", db |-> "d"]
              [] n = 2 -> [op |-> "en_prefs", en |-> "e", set |-> [fallback |-> Chance(50), gas |-> Chance(50)]]
              [] OTHER -> [op |-> "en_conv", en |-> "e", water |-> Pick(<<"GEOCHEMICAL", "STEAM_TABLES">>), apparent |-> Pick(<<"BENSON_HELGESON", "BENSON_HELGESON", "BERMAN_BROWN">>)]
Changes(s) ==      \* of the engine and the database the batches were made from
  CASE Rnd(3) = 1 -> G!Pref("e") [] Rnd(2) = 1 -> [op |-> "en_append", en |-> "e", use |-> G!Few(0)] [] OTHER -> [op |-> "db_append", db |-> "d", use |-> G!Few(0)]
Seq1(c) == <<c>>
Weights == CASE Mode = 1 -> <<60, 90, 92>> [] Mode = 2 -> <<25, 45, 95>> [] Mode = 3 -> <<22, 52, 90>> [] OTHER -> <<22, 80, 88>>
\* the commands to do next
NextCmds(s) ==
  LET d == Rnd(100) bs == SetToSeq(DOMAIN s.c.bas) IN
  IF s.n <= 3 THEN Seq1(Setup(s.n))
  ELSE IF bs = <<>> THEN NewCmds(s, 0)
  ELSE LET b == Pick(bs) v == s.c.bas[b] IN
    IF d <= Weights[1] THEN CHOOSE z \in {QuestionsTo(s.c, y) \o <<y>> : y \in {WithGiven(u, v, Shadow(b)) : u \in {CalcCmd(b, v, 0)}}} : TRUE
    ELSE IF d <= Weights[2] THEN
      (IF Mode = 4 /\ Chance(40) THEN Seq1([op |-> "ba_get", ba |-> b])
       ELSE CHOOSE z \in {IF c.op = "ba_solvent" THEN <<c, [op |-> "en_solvent", en |-> Shadow(b), s |-> c.s, byref |-> FALSE]>> ELSE <<c>> : c \in {SetCmd(b, v)}} : TRUE)
    ELSE IF d <= Weights[3] THEN Seq1(OutCmd(s))
    ELSE LET k == Rnd(10) IN
      IF k <= 5 THEN Seq1(Changes(s))
      ELSE IF k <= 7 THEN Seq1([op |-> "ba_get", ba |-> b])
      ELSE IF k = 8 THEN Seq1([op |-> "ba_del", ba |-> b])
      ELSE NewCmds(s, 0)
BDo(s, x) ==
  LET c == x[1] plan == x[2] IN
  [c |-> BConf(s.c, c), plan |-> plan, n |-> s.n + 1]
Walks == Param("walks", 20)
Depth == Param("depth", 40)
WInit == w = 1 /\ st = BStart /\ hist = <<>>
WNext ==
  /\ w <= Walks
  /\ \E cs \in {IF st.plan # <<>> THEN st.plan ELSE NextCmds(st)} :
       IF Len(hist) + 1 >= Depth
       THEN Emit(Append(hist, Head(cs))) /\ w' = w + 1 /\ hist' = <<>> /\ st' = BStart
       ELSE w' = w /\ hist' = Append(hist, Head(cs)) /\ st' = BDo(st, <<Head(cs), Tail(cs)>>)
=============================================================================
