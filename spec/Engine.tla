------------------------------- MODULE Engine -------------------------------
(* Databases and engines.  What an engine answers is a function of its content (the record it has for each symbol), its
   preferences, its conventions and the query; nothing else.  The function itself (the models) is not specified here:
   a query of a new engine in a new process shows its value, and every other way to ask has to show the same.

   state: dbs    database -> content [el, su, re: symbol -> record of the pool; water: triple point reference]
          ens    engine -> [db: content, prefs, conv]
          learn  query in its configuration -> answer
          psat   <<solvent record, T>> -> saturated vapour pressure
          last   pressure found by the last query at pressure 0

   Commands: db_new, db_copy, db_assign, db_del, db_append, db_conv; en_new, en_copy, en_assign, en_del, en_prefs,
   en_setprefs, en_getprefs, en_solvent, en_conv, en_append; the queries en_sub, en_rea, en_rfr, en_solv, en_elec at
   (T, P) of a symbol s or an object obj; en_probe: a query q of a new engine                                        *)
EXTENDS VF, RealArith, FiniteSets, SequencesExt

Pool == LoadData("pool.json")
Focus == Param("focus", 0)
On(f) == Focus = 0 \/ Focus = f
\* ---------------------------------------------------------------- content
NoPrefs == [memo |-> TRUE, size |-> 1000000, state |-> 0, solvent |-> "H2O@", fallback |-> FALSE, gas |-> FALSE]
NoConv == [apparent |-> "BENSON_HELGESON", water |-> "GEOCHEMICAL"]
NoContent == [el |-> NoFcn, su |-> NoFcn, re |-> NoFcn, water |-> "HKF_HGK_1974"]
KindOf(id) == IF StartsWith(id, "el.") THEN "el" ELSE IF StartsWith(id, "su.") THEN "su" ELSE "re"
Symbol(id) == Pool[id].symbol
Add(d, id) == [d EXCEPT ![KindOf(id)] = Upd(@, Symbol(id), id)]
RECURSIVE AddAll(_, _)
AddAll(d, ids) == IF ids = <<>> THEN d ELSE AddAll(Add(d, Head(ids)), Tail(ids))
Ids(d) == SetToSeq({d.el[s] : s \in DOMAIN d.el} \cup {d.su[s] : s \in DOMAIN d.su} \cup {d.re[s] : s \in DOMAIN d.re})
Over(r, s) == [x \in DOMAIN r |-> IF x \in DOMAIN s THEN s[x] ELSE r[x]]

Config0 == [dbs |-> NoFcn, ens |-> NoFcn]
Lists(d) == [el |-> DOMAIN d.el, su |-> DOMAIN d.su, re |-> DOMAIN d.re]
\* the configuration part of the state after command c
Conf(st, c) ==
  CASE c.op = "db_new" -> [st EXCEPT !.dbs = Upd(@, c.db, AddAll(NoContent, c.use))]
    [] c.op \in {"db_copy", "db_assign"} -> [st EXCEPT !.dbs = Upd(@, c.db, st.dbs[c.from])]
    [] c.op = "db_del" -> [st EXCEPT !.dbs = Del(@, c.db)]
    [] c.op = "db_append" -> [st EXCEPT !.dbs[c.db] = AddAll(@, c.use)]
    [] c.op = "db_set" -> [st EXCEPT !.dbs[c.db] = Add(@, c.use)]
    [] c.op = "db_add" -> [st EXCEPT !.dbs[c.db] = IF Symbol(c.use) \in DOMAIN @[KindOf(c.use)] THEN @ ELSE Add(@, c.use)]
    [] c.op = "db_conv" -> [st EXCEPT !.dbs[c.db].water = c.water]
    [] c.op = "en_new" -> [st EXCEPT !.ens = Upd(@, c.en, [db |-> st.dbs[c.db], prefs |-> NoPrefs, conv |-> NoConv])]
    [] c.op \in {"en_copy", "en_assign"} -> [st EXCEPT !.ens = Upd(@, c.en, st.ens[c.from])]
    [] c.op = "en_del" -> [st EXCEPT !.ens = Del(@, c.en)]
    [] c.op \in {"en_prefs", "en_setprefs"} -> [st EXCEPT !.ens[c.en].prefs = Over(@, c.set)]
    [] c.op = "en_solvent" -> [st EXCEPT !.ens[c.en].prefs.solvent = c.s]
    [] c.op = "en_conv" -> [st EXCEPT !.ens[c.en].conv = Over(@, c)]
    [] c.op = "en_append" -> [st EXCEPT !.ens[c.en].db = AddAll(@, c.use)]
    [] OTHER -> st
\* ---------------------------------------------------------------- records
Real(x) == Replace(x, "@", "")
MethodKeys(r) == IF ~Has(r, "TPMethods") THEN {} ELSE UNION {DOMAIN r.TPMethods[i].method : i \in DOMAIN r.TPMethods}
Class(r) == IF Has(r, "class_") THEN r.class_[CHOOSE k \in DOMAIN r.class_ : TRUE] ELSE ""
Reactants(r) == [i \in DOMAIN r.reactants |-> <<r.reactants[i].symbol, Real(r.reactants[i].coefficient)>>]
ReactantSet(r) == {r.reactants[i].symbol : i \in DOMAIN r.reactants}
\* the solvent: the preferred one or, if it is not there, the last solvent in the order of the symbols
Solvents(d) == {s \in DOMAIN d.su : Class(Pool[d.su[s]]) = "SC_AQSOLVENT"}
SolventOf(d, prefs) == IF prefs.solvent \in DOMAIN d.su THEN prefs.solvent
                       ELSE IF Solvents(d) = {} THEN "" ELSE CHOOSE s \in Solvents(d) : \A t \in Solvents(d) \ {s} : StrLt(t, s)
Waters == {"29", "31", "32", "33"}          \* equations of state of water
Aqueous == {"2", "3", "4"}                  \* models that need the properties of the solvent
ByReaction(r) ==                            \* a substance defined by a reaction
  LET m == MethodKeys(r) IN Get(r, "reaction", "") # "" /\ m \subseteq {"34"}
(* What a query needs: <<answerable, solvents used>>.  A substance must not be needed for its own calculation.        *)
RECURSIVE NeedSub(_, _, _, _), NeedRea(_, _, _, _), NeedRfr(_, _, _, _), NeedAll(_, _, _, _)
Both(a, b) == [ok |-> a.ok /\ b.ok, solv |-> a.solv \cup b.solv]
Fine == [ok |-> TRUE, solv |-> {}]
Fail == [ok |-> FALSE, solv |-> {}]
NeedSolvent(d, prefs) == LET s == SolventOf(d, prefs) IN
  IF s = "" \/ s \notin DOMAIN d.su THEN Fail ELSE [ok |-> TRUE, solv |-> IF Class(Pool[d.su[s]]) = "SC_AQSOLVENT" THEN {s} ELSE {}]
NeedSubRec(d, prefs, r, act) ==
  LET m == MethodKeys(r) IN
  IF r.symbol = "H+" THEN Fine
  ELSE IF ByReaction(r)
  THEN IF r.symbol \in act THEN Fail
       ELSE IF r.reaction \notin DOMAIN d.re THEN Fail
       ELSE LET x == Pool[d.re[r.reaction]] a == act \cup {r.symbol} IN
            Both(NeedRea(d, prefs, x, a), NeedAll(d, prefs, ReactantSet(x) \ {r.symbol}, a))
  ELSE IF Class(r) = "SC_AQSOLVENT" THEN [ok |-> TRUE, solv |-> IF m \cap Waters # {} THEN {r.symbol} ELSE {}]
  ELSE IF m \cap Aqueous # {} THEN NeedSolvent(d, prefs)
  ELSE Fine
NeedSub(d, prefs, s, act) == IF s \notin DOMAIN d.su THEN Fail ELSE NeedSubRec(d, prefs, Pool[d.su[s]], act)
NeedAll(d, prefs, ss, act) ==
  IF ss = {} THEN Fine ELSE LET s == CHOOSE x \in ss : TRUE IN Both(NeedSub(d, prefs, s, act), NeedAll(d, prefs, ss \ {s}, act))
NeedRea(d, prefs, r, act) ==
  LET m == MethodKeys(r) IN
  IF m = {} THEN NeedRfr(d, prefs, r, act)
  ELSE IF m \cap {"9", "10", "14"} # {} THEN NeedSolvent(d, prefs)
  ELSE Fine
NeedRfr(d, prefs, r, act) ==
  \* a reactant defined by this very reaction
  IF \E s \in ReactantSet(r) : s \in DOMAIN d.su /\ MethodKeys(Pool[d.su[s]]) = {} /\ Get(Pool[d.su[s]], "reaction", "") = r.symbol THEN Fail
  ELSE NeedAll(d, prefs, ReactantSet(r), act)
Need(en, q) ==
  LET d == en.db p == en.prefs IN
  IF Has(q, "obj") THEN
    CASE q.op = "en_sub" -> LET n == NeedSubRec(d, p, Pool[q.obj], {}) IN
           IF Class(Pool[q.obj]) = "SC_AQSOLVENT" /\ n.solv # {} THEN [n EXCEPT !.solv = {"obj"}] ELSE n
      [] q.op = "en_rea" -> NeedRea(d, p, Pool[q.obj], {})
      [] q.op = "en_rfr" -> NeedRfr(d, p, Pool[q.obj], {})
      [] OTHER -> [ok |-> TRUE, solv |-> IF Class(Pool[q.obj]) = "SC_AQSOLVENT" THEN {"obj"} ELSE {}]
  ELSE CASE q.op = "en_sub" -> NeedSub(d, p, q.s, {})
         [] q.op = "en_rea" -> IF q.s \in DOMAIN d.re THEN NeedRea(d, p, Pool[d.re[q.s]], {}) ELSE Fail
         [] q.op = "en_rfr" -> IF q.s \in DOMAIN d.re THEN NeedRfr(d, p, Pool[d.re[q.s]], {}) ELSE Fail
         [] OTHER -> IF q.s \in DOMAIN d.su THEN [ok |-> TRUE, solv |-> IF q.s \in Solvents(d) THEN {q.s} ELSE {}] ELSE Fail
\* ---------------------------------------------------------------- queries and answers
Queries == {"en_sub", "en_rea", "en_rfr", "en_solv", "en_elec"}
IsQuery(c) == c.op \in Queries
EnOf(st, c) == IF c.op = "en_probe" THEN [db |-> [AddAll(NoContent, c.use) EXCEPT !.water = c.water], prefs |-> Over(NoPrefs, c.prefs), conv |-> c.conv] ELSE st.ens[c.en]
QOf(c) == IF c.op = "en_probe" THEN c.q ELSE c
PGiven(st, q) == IF q.P = "last" THEN st.last ELSE q.P
Key(st, en, q, P) == [op |-> q.op, s |-> q.s, obj |-> Get(q, "obj", ""), state |-> Get(q, "state", -1), T |-> q.T, P |-> P,
                      db |-> en.db, conv |-> en.conv, solvent |-> en.prefs.solvent, fallback |-> en.prefs.fallback, gas |-> en.prefs.gas, pstate |-> en.prefs.state]
\* the answer of event e: [ok, P, p]
Answer(e) == IF e.c.op = "en_probe" THEN (IF e.r.ok THEN [ok |-> TRUE, P |-> e.r.r.P, p |-> e.r.r.p] ELSE [ok |-> FALSE, P |-> "", p |-> <<>>])
             ELSE IF e.ok THEN [ok |-> TRUE, P |-> e.r.P, p |-> e.r.p] ELSE [ok |-> FALSE, P |-> e.P, p |-> <<>>]
Close(a, b) == RClose(a, b, "1e-9", "1e-9")
SameScalar(a, b) == a[5] = b[5] /\ \A i \in 1..4 : Close(a[i], b[i])
SameProps(p, q) == DOMAIN p = DOMAIN q /\ \A x \in DOMAIN p : SameScalar(p[x], q[x])
SameAnswer(a, b) == a.ok = b.ok /\ (a.ok => Close(a.P, b.P) /\ SameProps(a.p, b.p))
IsZero(x) == REq(x, "0")
\* keys under which an answer is remembered: as asked and, if it was asked at the saturated vapour pressure, at that pressure
Keys(st, en, q, a) == LET P == PGiven(st, q) IN
  {Key(st, en, q, P)} \cup (IF a.ok /\ IsZero(P) /\ ~IsZero(a.P) THEN {Key(st, en, q, a.P)} ELSE {})
Learn(st, en, q, a) ==
  LET ks == Keys(st, en, q, a)
      new == ks \ DOMAIN st.learn
      zero == a.ok /\ IsZero(PGiven(st, q))
  IN [st EXCEPT !.learn = [k \in DOMAIN @ \cup ks |-> IF k \in new THEN a ELSE @[k]],
                !.last = IF zero /\ ~IsZero(a.P) /\ ~Has(q, "probe") THEN a.P ELSE @,
                !.psat = IF zero /\ q.op = "en_solv" /\ ~Has(q, "obj") THEN Upd(@, <<en.db.su[q.s], q.T>>, a.P) ELSE @]
\* ---------------------------------------------------------------- the sums over the reactants of a reaction
SumProps == <<"G", "H", "S", "V", "Cp", "Cv", "A", "U">>
SubKey(st, en, q, s, P) == [Key(st, [en EXCEPT !.prefs.gas = TRUE], [op |-> "en_sub", s |-> s, T |-> q.T], P) EXCEPT !.gas = en.prefs.gas]
Known(st, en, q, s, P) == LET k == SubKey(st, en, q, s, P) IN k \in DOMAIN st.learn /\ st.learn[k].ok
RECURSIVE Sum(_, _)
Sum(terms, i) == IF i = 0 THEN "0" ELSE Sum(terms, i - 1) (+) terms[i]
RGas == "8.31451"
Ln10 == RLn("10")
SumOk(x, sum, terms) == LET scale == RSum([i \in DOMAIN terms |-> RAbs(terms[i])]) IN RClose(x, sum, "1e-9", RMax(scale (.) "1e-11", "1e-9"))
RfrOk(st, en, q, r, a) ==
  LET rs == Reactants(r)
      P == a.P
  IN (a.ok /\ en.prefs.gas /\ \A i \in DOMAIN rs : Known(st, en, q, rs[i][1], P)) =>
     /\ \A x \in DOMAIN SumProps :
          LET n == SumProps[x] terms == [i \in DOMAIN rs |-> st.learn[SubKey(st, en, q, rs[i][1], P)].p[n][1] (.) rs[i][2]]
          IN SumOk(a.p[n][1], Sum(terms, Len(terms)), terms)
     /\ RClose(a.p.lnK[1], RNeg(a.p.G[1] (/) (RGas (.) q.T)), "1e-6", "1e-9")
     /\ RClose(a.p.logK[1], a.p.lnK[1] (/) Ln10, "1e-8", "1e-12")
\* ---------------------------------------------------------------- trace interface
Init0 == [dbs |-> NoFcn, ens |-> NoFcn, learn |-> NoFcn, psat |-> NoFcn, last |-> "100000"]
Reset(st) == Init0
\* engines whose answerable queries are certainly answered (the Zhang-Duan model has bounds, vapour is not found below saturation)
Nice(en) == "H2Og" \notin DOMAIN en.db.su /\ (\A s \in DOMAIN en.db.su : "33" \notin MethodKeys(Pool[en.db.su[s]])) /\ en.conv.apparent = "BENSON_HELGESON" /\ en.db.water \in {"HKF_HGK_1974", "NEA_HGK", "NEA_IAPWS"}
ReaOf(en, q) == IF Has(q, "obj") THEN Pool[q.obj] ELSE Pool[en.db.re[q.s]]
QueryOk(st, e) ==
  LET c == e.c en == EnOf(st, c) q == QOf(c) a == Answer(e) P == PGiven(st, q) n == Need(en, q) ks == Keys(st, en, q, a)
  IN \* the same question has the same answer, whoever is asked and whatever was asked before
     /\ (On(1) => \A k \in ks \cap DOMAIN st.learn : SameAnswer(a, st.learn[k]))
     \* errors
     /\ (On(5) => /\ (c.op = "en_probe" => ~Has(e.r, "abnormal"))
                  /\ (a.ok => n.ok)
                  /\ ((n.ok /\ Nice(en) /\ Get(q, "state", -1) # 1) => a.ok)
                  /\ \A k \in ks \cap DOMAIN st.learn : SameAnswer(a, st.learn[k]))
     \* pressures
     /\ (On(6) => /\ ((~IsZero(P) /\ ~(c.op = "en_probe" /\ ~a.ok)) => RClose(a.P, P, "1e-15", "0"))
                  /\ ((a.ok /\ IsZero(P) /\ n.ok) =>
                        LET ps == {st.psat[<<en.db.su[s], q.T>>] : s \in {x \in n.solv \ {"obj"} : <<en.db.su[x], q.T>> \in DOMAIN st.psat}} IN
                        /\ (n.solv = {} => IsZero(a.P))
                        /\ (n.solv # {} /\ Cardinality(ps) = Cardinality(n.solv)) => \E x \in ps : Close(a.P, x))
                  /\ \A k \in ks \cap DOMAIN st.learn : SameAnswer(a, st.learn[k]))
     \* reactions from their reactants
     /\ ((On(11) /\ a.ok /\ (q.op = "en_rfr" \/ (q.op = "en_rea" /\ MethodKeys(ReaOf(en, q)) = {}))) => RfrOk(st, en, q, ReaOf(en, q), a))

PrefsOk(r, p) == r = p
Allowed(st, e) ==
  LET c == e.c IN
  IF IsQuery(c) \/ c.op = "en_probe" THEN QueryOk(st, e)
  ELSE /\ e.ok = ~Has(c, "fail")          \* the last of the records cannot be read, those before it are there
       /\ (c.op \in {"en_prefs", "en_setprefs", "en_getprefs"} => PrefsOk(e.r, Conf(st, c).ens[c.en].prefs))
Step(st, e) ==
  LET c == e.c IN
  IF IsQuery(c) \/ c.op = "en_probe" THEN Learn(st, EnOf(st, c), IF c.op = "en_probe" THEN [c.q EXCEPT !.op = @] ELSE c, Answer(e))
  ELSE Conf(st, c)
Expect(st, e) ==
  LET c == e.c IN
  IF IsQuery(c) \/ c.op = "en_probe" THEN
    LET en == EnOf(st, c) q == QOf(c) a == Answer(e) ks == Keys(st, en, q, a) IN
    [known |-> {st.learn[k] : k \in ks \cap DOMAIN st.learn}, need |-> Need(en, q), P |-> PGiven(st, q)]
  ELSE IF c.op \in {"en_prefs", "en_setprefs", "en_getprefs"} THEN Conf(st, c).ens[c.en].prefs ELSE "accepted"
=============================================================================
