---------------------------- MODULE EquationsMC ----------------------------
(* Every equation of up to two terms per side over small coefficients, species and blanks.  Reading a rendered equation
   gives the stoichiometry it was rendered from: independent of the notation, species summed.                        *)
EXTENDS Equations
VARIABLES eq
Coefs == {<<"", "1">>, <<"2", "2">>, <<"0.5 ", "0.5">>, <<"-", "-1">>}
Sp == {"A", "Na+"}
T == Coefs \X Sp
Sides == {<<>>} \cup {<<t>> : t \in T} \cup {<<t, u>> : t \in T, u \in T}
Sep == {" ", "  "}
Text(s, b) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1][1][1] \o s[1][2] ELSE s[1][1][1] \o s[1][2] \o b \o "+" \o b \o s[2][1][1] \o s[2][2]
Render(e) == Text(e[1], e[3]) \o (IF e[3] = " " THEN "=" ELSE " = ") \o Text(e[2], e[3])
Total(s, x) == LET t == [i \in DOMAIN s |-> IF s[i][2] = x THEN s[i][1][2] ELSE "0"] IN RSum(t)
Init == eq \in Sides \X Sides \X Sep /\ Emit(<<[op |-> "re_new", h |-> "a", rec |-> [symbol |-> "R", equation |-> "A + Q = B"]], [op |-> "re_eq", h |-> "a", eq |-> Render(eq)], [op |-> "re_new", h |-> "b", rec |-> [equation |-> Render(eq)]]>>)
Next == FALSE /\ eq' = eq
Reads == LET f == Stoich(Render(eq)) IN \A x \in Sp : REq(Get(f, x, "0"), Total(eq[2], x) (-) Total(eq[1], x))
Only == DOMAIN Stoich(Render(eq)) \subseteq Sp
=============================================================================
