------------------------------ MODULE EngineMC ------------------------------
(* Every short history of two engines that remember results, on a small content.  The engines of this model remember what
   they answered (in a store of limited size that forgets the oldest use) and forget it when data, settings or conventions
   change; the invariants say that this is invisible: every result remembered is the one of the present configuration, and
   an answer from the store is the answer of a new engine.  Each history ends with a query and the same query of a new
   engine in a new process.                                                                                          *)
EXTENDS Engine, TLC
VARIABLES s, store, hist
Depth == Param("depth", 3)
Use == <<"el.H.1", "el.O.1", "el.Na.1", "el.Cl.1", "su.w.1", "su.Na+.1", "su.Cl-.1", "su.NaCl.1", "re.NaCl.1">>
Setup == <<[op |-> "db_new", db |-> "d", use |-> Use], [op |-> "en_new", en |-> "e", db |-> "d"]>>
Conf1(st, c) == Conf(st, c)
RECURSIVE ConfAll(_, _)
ConfAll(st, cs) == IF cs = <<>> THEN st ELSE ConfAll(Conf1(st, Head(cs)), Tail(cs))
Q3 == {[op |-> "en_sub", s |-> "Na+", T |-> "310", P |-> "0"], [op |-> "en_solv", s |-> "H2O@", T |-> "310", P |-> "0", state |-> -1],
       [op |-> "en_sub", s |-> "NaCl@", T |-> "310", P |-> "5e7"]}
Qs(es) == {[en |-> e] @@ q : e \in es, q \in Q3}
Changes == {[op |-> "en_prefs", en |-> "e", set |-> x] : x \in {[memo |-> FALSE], [memo |-> TRUE, size |-> 1], [size |-> 0], [gas |-> TRUE]}}
  \cup {[op |-> "en_append", en |-> "e", use |-> <<i>>] : i \in {"su.Na+.2", "su.w.2"}}
  \cup {[op |-> "en_conv", en |-> "e", apparent |-> "BERMAN_BROWN"], [op |-> "en_conv", en |-> "e", water |-> "STEAM_TABLES"]}
  \cup {[op |-> "en_copy", en |-> "f", from |-> "e"]}
Swap == {[op |-> "en_assign", en |-> "e", from |-> "f"], [op |-> "en_assign", en |-> "f", from |-> "e"], [op |-> "en_prefs", en |-> "f", set |-> [memo |-> FALSE]],
         [op |-> "en_append", en |-> "f", use |-> <<"su.Na+.2">>]}
Cmds(st) == Changes \cup Qs(DOMAIN st.ens) \cup (IF "f" \in DOMAIN st.ens THEN Swap ELSE {})
\* the answer of an engine with this configuration: what it depends on
Value(en, q) == [op |-> q.op, s |-> q.s, T |-> q.T, P |-> q.P, db |-> en.db, conv |-> en.conv, solvent |-> en.prefs.solvent, gas |-> en.prefs.gas, fallback |-> en.prefs.fallback]
QKey(q) == <<q.op, q.s, q.T, q.P>>
Cap(en) == IF ~en.prefs.memo THEN 0 ELSE en.prefs.size
Trim(x, n) == IF Len(x) <= n THEN x ELSE SubSeq(x, Len(x) - n + 1, Len(x))
After(st, k, c) ==
  IF IsQuery(c) THEN LET x == SelectSeq(k[c.en], LAMBDA y : y[1] # QKey(c)) IN [k EXCEPT ![c.en] = Trim(Append(x, <<QKey(c), Value(st.ens[c.en], c)>>), Cap(st.ens[c.en]))]
  ELSE Upd(k, c.en, <<>>)
Probe(st, q) == LET en == st.ens[q.en] IN
  [op |-> "en_probe", q |-> q, use |-> Ids(en.db), water |-> en.db.water, conv |-> en.conv,
   prefs |-> [solvent |-> en.prefs.solvent, fallback |-> en.prefs.fallback, gas |-> en.prefs.gas, state |-> en.prefs.state]]
Init == s = ConfAll(Config0, Setup) /\ store = Upd(NoFcn, "e", <<>>) /\ hist = Setup
Final == Len(hist) = Depth + 1
Next == /\ Len(hist) < Depth + 2
        /\ \E c \in (IF Final THEN Qs(DOMAIN s.ens) ELSE Cmds(s)) :
             /\ s' = Conf(s, c) /\ store' = After(Conf(s, c), store, c) /\ hist' = Append(hist, c)
             /\ (Final => Emit(hist \o <<c, Probe(s, c)>>))
Coherent == \A e \in DOMAIN store : \A i \in DOMAIN store[e] :
  LET q == store[e][i][1] IN store[e][i][2] = Value(s.ens[e], [op |-> q[1], s |-> q[2], T |-> q[3], P |-> q[4]])
Bounded == \A e \in DOMAIN store : Len(store[e]) <= Cap(s.ens[e])
=============================================================================
