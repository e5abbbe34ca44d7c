----------------------------- MODULE DatabaseMC -----------------------------
(* Every short history of a database and its copy with few records: the store laws hold in every state, every history is
   executed on the code and both databases are read at its end.                                                        *)
EXTENDS Database
VARIABLES s, hist, last
Depth == Param("depth", 2)
MKind == IF Param("elements", 0) = 1 THEN "el" ELSE IF Param("elements", 0) = 2 THEN "re" ELSE "su"
RecOf(n) == IF MKind = "el" THEN [symbol |-> "Na", name |-> n, atomic_mass |-> [values |-> <<IF n = "1" THEN "@1" ELSE "@2">>]]
            ELSE IF MKind = "su" THEN [symbol |-> "Na", name |-> n, formula |-> "Na2"] ELSE [symbol |-> "Na", name |-> n, equation |-> "A = B"]
Items1(n) == <<[kind |-> MKind, rec |-> RecOf(n)]>>
R2 == {RecOf("1"), RecOf("2")}
Cmds1(d) ==
  {[op |-> o, db |-> d, kind |-> MKind, rec |-> r, json |-> j] : o \in {"db_add", "db_set"}, r \in R2, j \in {FALSE, TRUE}}
  \cup {[op |-> o, db |-> d, kind |-> MKind, recs |-> <<RecOf("1"), RecOf("2")>>] : o \in {"db_map", "db_setmap"}}
  \cup {[op |-> "db_append", db |-> d, way |-> y, items |-> Items1(n)] : y \in {"list", "wrapped", "kind", "array", "arrayfile", "sections", "file"}, n \in {"2"}}
  \cup {[op |-> o, db |-> d, kind |-> MKind, s |-> "Na"] : o \in {"db_get", "db_ref"}}
  \cup {[op |-> "db_touch", db |-> d, kind |-> MKind, s |-> "Na", name |-> "t"]}
Pairs == {[op |-> "db_copy", db |-> "e", from |-> "d"], [op |-> "db_assign", db |-> "d", from |-> "e"], [op |-> "db_assign", db |-> "e", from |-> "d"]}
Cmds(st) == UNION {Cmds1(d) : d \in DOMAIN st} \cup {p \in Pairs : p.from \in DOMAIN st /\ (p.op = "db_copy" \/ p.db \in DOMAIN st)}
Start == [op |-> "db_new", db |-> "d"]
Look(d) == <<[op |-> "db_dump", db |-> d], [op |-> "db_all", db |-> d, kind |-> MKind], [op |-> "db_has", db |-> d, kind |-> MKind, s |-> "Na"], [op |-> "db_get", db |-> d, kind |-> MKind, s |-> "Na"],
             [op |-> "db_formula", db |-> d, f |-> "Na3"]>>
Ends(st) == Look("d") \o (IF "e" \in DOMAIN st THEN Look("e") ELSE <<>>)
Init == s = Effect(NoFcn, Start).st /\ hist = <<Start>> /\ last = <<>>
Next == /\ Len(hist) <= Depth
        /\ \E c \in Cmds(s) : LET x == Effect(s, c) IN
             /\ s' = x.st /\ hist' = Append(hist, c) /\ last' = <<s, c, x.ok>>
             /\ (Len(hist) = Depth => Emit(hist \o <<c>> \o Ends(x.st)))
\* the key of a record is its symbol
Keyed == \A d \in DOMAIN s : \A k \in Kinds : \A x \in DOMAIN s[d][k] : s[d][k][x].symbol = x
\* a command changes the database it names and no other; no command removes a record
Local == last = <<>> \/ \A d \in DOMAIN last[1] : /\ (d # last[2].db => s[d] = last[1][d])
                                                  /\ (d = last[2].db /\ last[2].op # "db_assign" /\ last[2].op # "db_copy") => \A k \in Kinds : DOMAIN last[1][d][k] \subseteq DOMAIN s[d][k]
\* adding keeps, setting replaces
Keeps == last = <<>> \/ last[2].op \notin {"db_add", "db_map"} \/ LET o == last[1][last[2].db][MKind] IN \A x \in DOMAIN o : s[last[2].db][MKind][x] = o[x]
Replaces == last = <<>> \/ last[2].op # "db_set" \/ s[last[2].db][MKind]["Na"].name = last[2].rec.name
Pure == last = <<>> \/ last[2].op # "db_get" \/ s = last[1]
=============================================================================
