-------------------------------- MODULE VF --------------------------------
(* Binding of the specifications to traces of the implementation; implemented by VF.java. *)
EXTENDS Integers, Sequences
LOCAL Native == CHOOSE x : FALSE
LoadTrace(x) == Native       \* the recorded trace: sequence of [c |-> command, ok |-> BOOLEAN, r |-> response]
LoadData(name) == Native     \* a JSON data file
Param(name, dflt) == Native  \* integer parameter of the run
Emit(v) == Native            \* write a generated behaviour
Report(l, info) == Native    \* write a rejection
Rnd(n) == Native             \* random element of 1..n
RndReal(a, b, d) == Native   \* random real in [a,b] with d decimals
NextReset(l) == Native       \* position of the next "reset" event
---------------------------------------------------------------------------
Pick(seq) == seq[Rnd(Len(seq))]
Chance(p) == Rnd(100) <= p
Has(r, k) == k \in DOMAIN r
Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoFcn == [x \in {} |-> 0]
===========================================================================
