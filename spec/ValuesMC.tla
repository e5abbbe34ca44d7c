----------------------------- MODULE ValuesMC ------------------------------
(* The order of elements and substances over all objects with small fields: strict, total on different keys, transitive;
   copies and originals are independent.  Emits all pairs (and aliasing histories) as behaviours.                    *)
EXTENDS Values, TLC
VARIABLES case
S == <<"A", "AB">>
Objs == {[symbol |-> S[i], name |-> S[j], class |-> k, isotope |-> m, valence |-> n] : i, j \in 1..2, k, m, n \in 0..1}
C == [op |-> "el_cmp"]
Init == case \in Objs \X Objs
        /\ Emit(<<[op |-> "el_new", h |-> "a", rec |-> [symbol |-> "x"]], [op |-> "el_new", h |-> "b", rec |-> [symbol |-> "x"]],
                  [op |-> "el_set", h |-> "a"] @@ case[1], [op |-> "el_set", h |-> "b"] @@ case[2],
                  [op |-> "el_cmp", h |-> "a", from |-> "b"], [op |-> "el_cmp", h |-> "b", from |-> "a"]>>)
Next == FALSE /\ case' = case
L(a, b) == Less(OrderKey(C, a), OrderKey(C, b))
Strict == ~L(case[1], case[1]) /\ ~(L(case[1], case[2]) /\ L(case[2], case[1]))
Total == case[1] # case[2] => L(case[1], case[2]) \/ L(case[2], case[1])
Transitive == \A z \in Objs : L(case[1], case[2]) /\ L(case[2], z) => L(case[1], z)
=============================================================================
