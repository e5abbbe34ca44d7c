-------------------------------- MODULE Ways --------------------------------
(* Data given in different ways: as a file, in another order, split into parts that are given as file, text, list or one by
   one.  A database or an engine is what its records are, however they were given.

   state: db, en: handle -> file whose records it has;  rec: file -> records as the getters show them (learned from the file);
          res: <<file, T, P>> -> results (learned)
   Commands: db_file, db_parts, db_copy, db_digest; en_file, en_parts, en_new (of a database), en_digest              *)
EXTENDS VF
Init0 == [db |-> NoFcn, en |-> NoFcn, rec |-> NoFcn, res |-> NoFcn]
Reset(st) == Init0
Key(st, c) == <<st.en[c.en], c.T, c.P>>
After(st, c) ==
  CASE c.op \in {"db_file", "db_parts"} -> [st EXCEPT !.db = Upd(@, c.db, c.file)]
    [] c.op = "db_copy" -> [st EXCEPT !.db = Upd(@, c.db, st.db[c.from])]
    [] c.op \in {"en_file", "en_parts"} -> [st EXCEPT !.en = Upd(@, c.en, c.file)]
    [] c.op = "en_new" -> [st EXCEPT !.en = Upd(@, c.en, st.db[c.db])]
    [] OTHER -> st
Learned(st, c) == CASE c.op = "db_digest" -> st.db[c.db] \in DOMAIN st.rec [] c.op = "en_digest" -> Key(st, c) \in DOMAIN st.res [] OTHER -> FALSE
Value(st, c) == IF c.op = "db_digest" THEN st.rec[st.db[c.db]] ELSE st.res[Key(st, c)]
Allowed(st, e) == e.ok /\ (Learned(st, e.c) => e.r = Value(st, e.c))
Step(st, e) ==
  CASE e.c.op = "db_digest" -> [st EXCEPT !.rec = Upd(@, st.db[e.c.db], e.r)]
    [] e.c.op = "en_digest" -> [st EXCEPT !.res = Upd(@, Key(st, e.c), e.r)]
    [] OTHER -> After(st, e.c)
Differ(a, b) == {i \in DOMAIN a : i > Len(b) \/ a[IF i > Len(b) THEN 1 ELSE i] # b[IF i > Len(b) THEN 1 ELSE i]}
Expect(st, e) ==
  IF ~e.ok \/ ~Learned(st, e.c) THEN "accepted"
  ELSE LET v == Value(st, e.c) IN [k \in DOMAIN v |-> {IF i > Len(v[k]) THEN "?" ELSE v[k][i][1] : i \in Differ(v[k], e.r[k])}]
=============================================================================
