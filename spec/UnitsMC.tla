------------------------------ MODULE UnitsMC ------------------------------
(* Every pair of units: converted there and back, over all names.  The specification itself: factors are positive,
   conversion is inverse to itself and transitive, pressure times volume is energy ...                              *)
EXTENDS Units, SequencesExt
VARIABLES a
Names == DOMAIN UnitDef
Sorted == SetToSeq(Names \cup DOMAIN Temps)
C(v, f, t) == [op |-> "conv", v |-> v, from |-> f, to |-> t]
Init == a \in Names \cup DOMAIN Temps /\
        Emit(FlattenSeq([i \in DOMAIN Sorted |-> <<C("1", a, Sorted[i]), [op |-> "convable", from |-> a, to |-> Sorted[i]]>>
                \o (IF Convert("1", a, Sorted[i]).ok THEN <<C("3.7", Sorted[i], a), C("-40.25", a \o "/mol", Sorted[i] \o "/mmol")>> ELSE <<>>)]))
Next == FALSE /\ a' = a
Positive == a \in Names => (Known[a].ok /\ RLt("0", Known[a].f))
ThereAndBack == \A b \in Names \cup DOMAIN Temps : LET x == Convert("12.5", a, b) IN x.ok => RClose(Convert(x.v, b, a).v, "12.5", "1e-30", "1e-30")
Laws == /\ REq(Convert("1", "Pa*m3", "J").v, "1") /\ REq(Convert("1", "kg*m*m/(s*s)", "J").v, "1") /\ REq(Convert("1", "W*s", "J").v, "1") /\ REq(Convert("1", "V*A", "W").v, "1")
        /\ REq(Convert("1", "V/A", "ohm").v, "1") /\ REq(Convert("1", "C/V", "F").v, "1") /\ REq(Convert("1", "T*m2", "Wb").v, "1") /\ REq(Convert("1", "Wb/A", "H").v, "1")
        /\ REq(Convert("1", "bar*cm3", "J").v, "0.1") /\ REq(Convert("1", "kcal", "J").v, "4184") /\ RClose(Convert("212", "degF", "degC").v, "100", "1e-20", "1e-20")
        /\ REq(Convert("1", "atm", "bar").v, "1.01325") /\ RClose(Convert("1", "psi", "Pa").v, "6894.757", "1e-6", "0") /\ REq(Convert("0", "degC", "degR").v, "491.67")
=============================================================================
