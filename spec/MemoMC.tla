------------------------------ MODULE MemoMC -------------------------------
(* Bounded model of one memoised function: all call histories up to the cache states of a small key set; properties of
   the specification itself, and one behaviour per transition of the model (transition coverage) for the code.      *)
EXTENDS Memo
VARIABLES m, hist, ran
Sig == IF Param("sig", 0) = 0 THEN "one" ELSE IF Param("sig", 0) = 1 THEN "val" ELSE "ref"
Kind == CASE Param("kind", 0) = 0 -> "all" [] Param("kind", 0) = 1 -> "last" [] Param("kind", 0) = 2 -> "N" [] OTHER -> "lastptr"
Size == Param("size", 2)
Keys == Param("keys", 3)
Depth == Param("depth", 99)
Args == IF Sig = "one" THEN {[k |-> i] : i \in 1..Keys}
        ELSE IF Sig = "val" THEN {[T |-> t, s |-> x] : t \in {"1", "nan"}, x \in {"a", "b"}}
        ELSE {[T |-> t, P |-> p, s |-> "a"] : t \in {"1", "nan"}, p \in {"0", "1.5"}}
Calls == {[op |-> "memo_call", h |-> "f"] @@ a @@ [fail |-> x] : a \in Args, x \in BOOLEAN}
Start == [op |-> "memo_new", h |-> "f", kind |-> Kind, sig |-> Sig, n |-> Size]
Init == m = New(Start) /\ hist = <<Start>> /\ ran = {}
Next == \E c \in Calls : \E a \in Answers(m, c) :
  /\ Len(hist) < Depth
  /\ m' = After(m, c, a)
  /\ hist' = Append(hist, c)
  /\ ran' = IF a.calls = 1 /\ a.ok THEN ran \cup {Key(m, c)} ELSE ran
  /\ Emit(Append(hist, c))
View == m
\* properties of the specification
Bound == Cap(m) >= 0 => Len(m.cache) <= Cap(m)
Distinct == \A i, j \in DOMAIN m.cache : m.cache[i][1] = m.cache[j][1] => i = j
OnlyComputed == \A i \in DOMAIN m.cache : m.cache[i][1] \in ran
AllCached == Kind = "all" => \A k \in ran : Hit(m, k)
SizeZero == (Kind = "N" /\ Size = 0) => m.cache = <<>>
=============================================================================
