---------------------------- MODULE CsvFilesMC -----------------------------
(* Every history of bounded length of one manager with two kinds of files and two files per kind.  A file never has more
   than one header, the header is its first line, and a file of one kind has no line of another.                     *)
EXTENDS CsvFiles, TLC
VARIABLES s, hist
Depth == Param("depth", 5)
K2 == {"th", "el"}
F(k) == {k \o "1.csv", k \o "2.csv"}
Cmds == {[op |-> "csv_open", h |-> "a", kind |-> k, f |-> f] : k \in {"th"}, f \in F("th")}
        \cup {[op |-> "csv_open", h |-> "a", kind |-> "el", f |-> "el1.csv"]}
        \cup {[op |-> "csv_close", h |-> "a", kind |-> k] : k \in K2}
        \cup {[op |-> "csv_write", h |-> "a", kind |-> k, s |-> "x", T |-> RNum(Len(hist)), P |-> "1", base |-> "0"] : k \in K2}
Start == [op |-> "csv_new", h |-> "a"]
Init == s = Step1(Init0, Start) /\ hist = <<Start>>
Reads == [i \in 1..3 |-> [op |-> "csv_read", f |-> (<<"th1.csv", "th2.csv", "el1.csv">>)[i]]]
Next == /\ Len(hist) <= Depth
        /\ \E c \in Cmds : s' = Step1(s, c) /\ hist' = Append(hist, c)
                           /\ (Len(hist) = Depth => Emit(Append(hist, c) \o Reads))
Header(x) == x[2] = <<"text", "T(C)">>
OneHeader == \A f \in DOMAIN s.files : \A i \in DOMAIN s.files[f] : Header(s.files[f][i]) <=> i = 1
RightKind == \A f \in DOMAIN s.files : \A i \in DOMAIN s.files[f] : Len(s.files[f][i]) = IF StartsWith(f, "th") THEN 11 ELSE 15
=============================================================================
