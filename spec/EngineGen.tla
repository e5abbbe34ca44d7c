----------------------------- MODULE EngineGen ------------------------------
(* Random histories of databases and engines.  Every query may be followed by the same query of a new engine in a new
   process (probe).  mode: 1 queries only; 2 cache settings; 3 copies; 4 changes; 5 failing queries; 6 pressures; 11 sums *)
EXTENDS Engine, TLC
VARIABLES w, st, hist
Mode == Param("mode", 1)
Probes == Param("probes", 100)
\* records by symbol; a content takes one of the records (or none) of each
Choice == <<
  <<"el.H.1", "el.H.2">>, <<"el.O.1", "el.O.2">>, <<"el.C.1", "el.C.2">>, <<"el.Na.1", "el.Na.2">>, <<"el.Cl.1">>, <<"el.Ca.1">>, <<"el.Si.1", "el.Si.2">>, <<"el.Al.1">>, <<"el.S.1">>,
  <<"su.w.1", "su.w.2", "su.w.3", "su.w.4", "su.w.5", "su.w.1">>, <<"su.v.1", "">>, <<"su.Na+.1", "su.Na+.2">>, <<"su.Cl-.1", "su.Cl-.2">>, <<"su.Ca+2.1">>, <<"su.OH-.1">>,
  <<"su.CH4@.1">>, <<"su.HCN@.1">>, <<"su.H+.1">>, <<"su.Quartz.1", "su.Quartz.2">>, <<"su.Gibbsite.1">>, <<"su.Portlandite.1">>, <<"su.Sulfur.1">>, <<"su.Fixed.1">>,
  <<"su.Lime.1">>, <<"su.CO2.1", "su.CO2.2", "su.CO2.3", "su.CO2.4", "su.CO2.5", "su.CO2.6">>, <<"su.CH4.1">>, <<"su.O2.1">>, <<"su.NaCl.1", "su.NaCl.2">>, <<"su.Di.1">>, <<"su.Mix.1">>, <<"re.Mix.1">>,
  <<"re.NaCl.1", "re.NaCl.2">>, <<"re.Di.1">>, <<"re.Dis.1", "re.Dis.2", "re.Dis.3">>, <<"re.Gas.1">>, <<"re.Aq.1">>, <<"re.Deep.1">>, <<"re.Con.1">>, <<"re.Fm.1">>, <<"re.Dm.1">>, <<"re.Rb.1">> >>
Faulty == << <<"re.A.1">>, <<"re.B.1">>, <<"su.A.1">>, <<"su.B.1", "su.B.2">>, <<"su.Lost.1">>, <<"re.Gap.1">>, <<"su.Gap.1">>, <<"re.Gap2.1">>, <<"re.Self.1">>, <<"su.Self.1">>, <<"su.u.1">> >>
RECURSIVE Draw(_, _)
Draw(choice, miss) ==
  IF choice = <<>> THEN <<>>
  ELSE LET x == Pick(Head(choice)) IN (IF x = "" \/ Chance(miss) THEN <<>> ELSE <<x>>) \o Draw(Tail(choice), miss)
Content(x) == Draw(Choice, Pick(<<0, 8, 40>>)) \o (IF Mode = 5 THEN Draw(Faulty, 20) ELSE <<>>)
More(x) == <<Pick(Pick(Choice \o (IF Mode = 5 THEN Faulty ELSE <<>>)))>>
\* the way records are given (mode 7)
Given(c) == IF Mode # 7 THEN c ELSE c @@ (IF Chance(50) THEN [way |-> Pick(<<"list", "wrapped", "array", "arrayfile", "sections", "file">>)] ELSE [wrap |-> 0])
Few(x) == SelectSeq(IF Chance(50) THEN More(0) ELSE More(0) \o More(0), LAMBDA y : y # "")
\* queries
Ts == <<"298.15", "298.15000001", "310", "310.04", "350.5", "400", "400.0001", "550">>
Ps == IF Mode = 6 THEN <<"0", "0", "0", "last", "100000", "5e7">> ELSE <<"0", "0", "100000", "100000", "100000.01", "5e7", "50000100", "2e8", "last">>
Subs == <<"H2O@", "H2O@", "Na+", "Cl-", "Ca+2", "OH-", "CH4@", "HCN@", "H+", "Quartz", "Gibbsite", "Portlandite", "Sulfur", "Fixed", "Lime", "CO2", "CH4", "O2", "NaCl@", "Di", "Di", "Mix", "Mix", "Water">>
BadSubs == <<"A", "B", "Lost", "Gap", "Self", "Nothing", "H2Og">>
Reas == <<"NaCl@", "Di", "Dis", "Dis", "Mix", "Mix", "Gas", "Aq", "Deep", "Deep", "Con", "Fm", "Dm", "Rb">>
BadReas == <<"A", "B", "Gap", "Gap2", "Self", "Nothing">>
SubIds == <<"su.Na+.2", "su.Quartz.2", "su.NaCl.2", "su.Di.1", "su.CO2.3", "su.Lime.1", "su.w.3", "su.Mix.1">>
ReaIds == <<"re.NaCl.2", "re.Dis.2", "re.Di.1", "re.Deep.1", "re.Gas.1">>
Bad(x) == Chance(IF Mode = 5 THEN 45 ELSE 2)
\* temperatures and pressures of a walk are few, so that queries repeat
Query(e, T) ==
  LET d == Rnd(100) b == [en |-> e, T |-> T, P |-> Pick(Ps)] IN
  IF d <= 50 THEN [op |-> "en_sub", s |-> IF Bad(0) THEN Pick(BadSubs) ELSE Pick(Subs)] @@ b
  ELSE IF d <= 65 THEN [op |-> "en_rea", s |-> IF Bad(0) THEN Pick(BadReas) ELSE Pick(Reas)] @@ b
  ELSE IF d <= 80 THEN [op |-> "en_rfr", s |-> IF Bad(0) THEN Pick(BadReas) ELSE Pick(Reas)] @@ b
  ELSE IF d <= 86 THEN [op |-> "en_solv", s |-> Pick(<<"H2O@", "H2O@", "Water">>), state |-> Pick(<<-1, -1, 0, 1>>)] @@ b
  ELSE IF d <= 92 THEN [op |-> "en_elec", s |-> Pick(<<"H2O@", "H2O@", "Water">>), state |-> Pick(<<-1, -1, 0, 1>>)] @@ b
  ELSE IF d <= 96 THEN LET i == Pick(SubIds) IN [op |-> "en_sub", s |-> Symbol(i), obj |-> i] @@ b
  ELSE LET i == Pick(ReaIds) IN [op |-> Pick(<<"en_rea", "en_rfr">>), s |-> Symbol(i), obj |-> i] @@ b
Probe(s, q) == LET en == s.ens[q.en] IN
  [op |-> "en_probe", q |-> q, use |-> Ids(en.db), water |-> en.db.water, conv |-> en.conv,
   prefs |-> [solvent |-> en.prefs.solvent, fallback |-> en.prefs.fallback, gas |-> en.prefs.gas, state |-> en.prefs.state]]
\* changes of an engine
Cache(e) == [op |-> Pick(<<"en_prefs", "en_setprefs">>), en |-> e, set |-> [memo |-> Chance(70), size |-> Pick(<<0, 1, 2, 3, 5, 1000000>>)]]
Pref(e) == LET k == Rnd(4) IN
  [op |-> Pick(<<"en_prefs", "en_setprefs">>), en |-> e,
   set |-> CASE k = 1 -> [fallback |-> Chance(50)] [] k = 2 -> [gas |-> Chance(50)] [] k = 3 -> [solvent |-> Pick(<<"H2O@", "Water">>)] [] k = 4 -> [fallback |-> Chance(50), gas |-> Chance(50)]]
Change(s, e) == LET k == Rnd(10) IN
  CASE k <= 3 -> Pref(e)
    [] k = 4 -> [op |-> "en_solvent", en |-> e, s |-> Pick(<<"H2O@", "Water">>), byref |-> Chance(50)]
    [] k \in {5, 6} -> [op |-> "en_conv", en |-> e, apparent |-> Pick(<<"BENSON_HELGESON", "BERMAN_BROWN">>)]
    [] k = 7 -> [op |-> "en_conv", en |-> e, water |-> Pick(<<"GEOCHEMICAL", "STEAM_TABLES">>)]
    [] k = 8 /\ Mode = 4 -> [op |-> "en_append", en |-> e, use |-> SelectSeq(<<Pick(SubIds), Pick(ReaIds)>> \o More(0), LAMBDA y : y # ""), way |-> "list", fail |-> TRUE]
    [] OTHER -> [op |-> "en_append", en |-> e, use |-> Few(0)]
Copying(s, e) == LET k == Rnd(8) es == {"e", "f", "g"} f == Pick(<<"e", "f", "g">>) IN
  IF k <= 2 /\ f # e THEN [op |-> "en_copy", en |-> f, from |-> e]
  ELSE IF k <= 4 /\ f # e /\ f \in DOMAIN s.ens THEN [op |-> "en_assign", en |-> f, from |-> e]
  ELSE IF k = 5 /\ Cardinality(DOMAIN s.ens) > 1 THEN [op |-> "en_del", en |-> e]
  ELSE LET ds == SetToSeq(DOMAIN s.dbs) d == Pick(ds) t == Pick(<<"d", "d2", "d3">>) j == Rnd(8) IN
       IF j <= 2 THEN [op |-> "db_append", db |-> d, use |-> Few(0)]
       ELSE IF j = 3 /\ t # d THEN [op |-> "db_copy", db |-> t, from |-> d]
       ELSE IF j = 4 /\ t # d /\ t \in DOMAIN s.dbs THEN [op |-> "db_assign", db |-> t, from |-> d]
       ELSE IF j = 5 /\ Len(ds) > 1 THEN [op |-> "db_del", db |-> d]
       ELSE IF j = 6 THEN [op |-> "db_conv", db |-> d, water |-> Pick(<<"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS">>)]
       ELSE [op |-> "en_new", en |-> Pick(<<"e", "f", "g">>), db |-> d]
Loading(s, e) == LET k == Rnd(10) IN
  IF k <= 3 THEN Given([op |-> "db_append", db |-> "d", use |-> Few(0)])
  ELSE IF k = 4 THEN Given([op |-> "db_new", db |-> "d", use |-> Content(0)])
  ELSE IF k <= 6 THEN [op |-> "en_new", en |-> Pick(<<"e", "f">>), db |-> "d"]
  ELSE IF k = 7 THEN [op |-> Pick(<<"db_set", "db_set", "db_add">>), db |-> "d", kind |-> "", use |-> More(0)[1], json |-> Chance(50)]
  ELSE Given([op |-> "en_append", en |-> e, use |-> Few(0)])
\* gas preference is on for the sums
Setup(n) == CASE n = 0 -> Given([op |-> "db_new", db |-> "d", use |-> Content(0)])
              [] n = 1 -> [op |-> "db_conv", db |-> "d", water |-> Pick(<<"HKF_HGK_1974", "HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS">>)]
              [] n = 2 -> [op |-> "en_new", en |-> "e", db |-> "d"]
              [] n = 3 -> IF Mode = 11 THEN [op |-> "en_prefs", en |-> "e", set |-> [gas |-> TRUE, fallback |-> Chance(50)]]
                          ELSE IF Mode = 2 THEN Cache("e") ELSE Pref("e")
              [] OTHER -> [op |-> "en_conv", en |-> "e", water |-> Pick(<<"GEOCHEMICAL", "STEAM_TABLES">>), apparent |-> Pick(<<"BENSON_HELGESON", "BENSON_HELGESON", "BERMAN_BROWN">>)]
\* queries of all reactants of a reaction, then of the reaction
SumPlan(s, T, P) ==
  LET rs == {x \in DOMAIN s.ens["e"].db.re : TRUE} IN
  IF rs = {} THEN <<>>
  ELSE LET r == SetToSeq(rs)[Rnd(Cardinality(rs))]
           b == [en |-> "e", T |-> T, P |-> P]
           Sub(x) == [op |-> "en_sub", s |-> x] @@ b
           reac == SetToSeq(ReactantSet(Pool[s.ens["e"].db.re[r]]))
       IN [i \in 1..Len(reac) |-> Sub(reac[i])] \o <<[op |-> "en_rfr", s |-> r] @@ b, [op |-> "en_rea", s |-> r] @@ b>>
\* walk state: the configuration, the plan (commands to be done next), the number of commands done
Start == [c |-> Config0, plan |-> <<>>, n |-> 0]
Cmd0(s) ==
  IF s.n <= 4 THEN Setup(s.n)
  ELSE IF s.plan # <<>> THEN Head(s.plan)
  ELSE LET e == Pick(SetToSeq(DOMAIN s.c.ens)) T == Pick(Ts) d == Rnd(100) IN
       IF Mode = 2 /\ d <= 15 THEN Cache(e)
       ELSE IF Mode = 3 /\ d <= 20 THEN Copying(s.c, e)
       ELSE IF Mode = 7 /\ d <= 30 THEN Loading(s.c, e)
       ELSE IF Mode = 3 /\ d <= 35 THEN Change(s.c, e)
       ELSE IF Mode = 4 /\ d <= 35 THEN Change(s.c, e)
       ELSE IF Mode \in {4, 5} /\ d <= 40 THEN [op |-> "en_append", en |-> e, use |-> Few(0)]
       ELSE IF Mode = 6 /\ d <= 15 THEN [op |-> "en_solv", en |-> e, T |-> T, P |-> "0", s |-> Pick(<<"H2O@", "Water">>)]
       ELSE IF Mode = 6 /\ d <= 20 THEN Change(s.c, e)
       ELSE Query(e, T)
Fix(c) == IF c.op \in {"db_set", "db_add"} THEN (IF c.use = "" THEN [op |-> "db_dump", db |-> c.db] ELSE [c EXCEPT !.kind = KindOf(c.use)]) ELSE c
Cmd(s) == Fix(CHOOSE c \in {Cmd0(s)} : TRUE)
\* after a query: the same query of a new engine (a pressure "last" means the same in both: the probe follows at once)
Plan(s, c) ==
  IF s.plan # <<>> THEN Tail(s.plan)
  ELSE IF Mode = 11 /\ s.n > 4 THEN SumPlan(s.c, Pick(Ts), Pick(<<"100000", "5e7", "2e8", "last", "0">>))
  \* at the saturated vapour pressure, then at the pressure that was found
  ELSE IF Mode = 6 /\ IsQuery(c) /\ c.P = "0" THEN (IF Chance(50) THEN <<Probe(s.c, c)>> ELSE <<>>) \o <<[c EXCEPT !.P = "last"]>> \o (IF Chance(30) THEN <<[op |-> "en_solv", en |-> c.en, T |-> c.T, P |-> "0", s |-> "H2O@"]>> ELSE <<>>)
  ELSE IF IsQuery(c) /\ Chance(Probes) THEN <<Probe(s.c, c)>>
  ELSE <<>>
Do(s, c) == [c |-> Conf(s.c, c), plan |-> Plan(s, c), n |-> s.n + 1]
W == INSTANCE WalkBase WITH Start <- Start
WInit == W!WInit
WNext == W!WNext
=============================================================================
