----------------------------- MODULE ScalarMC ------------------------------
(* All operations on all pairs of representative operands.  Invariants: the table of derivatives is right (it agrees with
   central differences in 40 digit arithmetic), undefined operands give undefined results, errors are Gaussian.
   Every case is emitted as a behaviour for the code.                                                               *)
EXTENDS Scalar, TLC
VARIABLES case
Mode == Param("mode", 0)
Vals == <<"3", "-2", "0.5", "0", "1", "7.25", "-0.125", "100.5">>
Ders == << <<"0", "0">>, <<"1.5", "-2">>, <<"-0.25", "0.75">> >>
Errs == <<"0", "0.25", "0.0625">>
X(i, j, k, s) == <<"ts", Vals[i], Ders[j][1], Ders[j][2], Errs[k], s>>
\* mode 0: values x derivatives x errors; mode 1: all statuses
Xs == IF Mode = 0 THEN {X(i, ((i + d) % 3) + 1, ((i + d) % 3) + 1, Pick2) : i \in 1..8, d \in 0..1, Pick2 \in {2}}
      ELSE {X(1, 2, 2, s) : s \in Statuses}
Nums == IF Mode = 0 THEN {"2", "-3", "0.5", "1", "0", "-1.5"} ELSE {"2"}
R1 == <<"reg", "a">>
R2 == <<"reg", "b">>
Let(r, e) == [op |-> "ts", reg |-> r, e |-> e]
Cases == {<<Let("a", x), Let("c", <<o, R1>>)>> : x \in Xs, o \in Unary}
   \cup {<<Let("a", x), Let("b", y), Let("c", <<o, R1, R2>>)>> : x \in Xs, y \in Xs, o \in TwoRegs}
   \cup {<<Let("a", x), Let("c", <<o, R1, n>>)>> : x \in Xs, n \in Nums, o \in NumRight}
   \cup {<<Let("a", x), Let("c", <<o, n, R1>>)>> : x \in Xs, n \in Nums, o \in NumLeft}
Init == case \in Cases /\ Emit(case)
Next == FALSE /\ case' = case
\* ---- the properties of the table
Of(r) == LET d == {i \in DOMAIN case : case[i].reg = r} IN LET e == case[CHOOSE i \in d : TRUE].e IN <<e[2], e[3], e[4], e[5], e[6]>>
Regs == [r \in {case[i].reg : i \in DOMAIN case} \ {"c"} |-> Of(r)]
E1 == case[Len(case)].e
Res == Value(Regs, E1)
Op == Base(E1[1])
A == IF E1[1] \in NumLeft THEN Lit(E1[2]) ELSE Regs["a"]
Bb == IF E1[1] \in Unary THEN Lit("0") ELSE IF E1[1] \in NumRight THEN Lit(E1[3]) ELSE IF E1[1] \in NumLeft THEN Regs["a"] ELSE Regs["b"]
H == "1e-9"
Along(i) == (F(Op, A[1] (+) (H (.) A[i]), Bb[1] (+) (H (.) Bb[i])) (-) F(Op, A[1] (-) (H (.) A[i]), Bb[1] (-) (H (.) Bb[i]))) (/) ("2" (.) H)
DerivativesRight ==
  /\ (Res.t[1] # "any" /\ RFin(Along(2))) => RClose(Along(2), Res.t[1], "1e-12", "1e-12")
  /\ (Res.p[1] # "any" /\ RFin(Along(3))) => RClose(Along(3), Res.p[1], "1e-12", "1e-12")
Gauss ==
  LET ex == (F(Op, A[1] (+) (H (.) A[4]), Bb[1]) (-) F(Op, A[1] (-) (H (.) A[4]), Bb[1])) (/) ("2" (.) H)
      ey == (F(Op, A[1], Bb[1] (+) (H (.) Bb[4])) (-) F(Op, A[1], Bb[1] (-) (H (.) Bb[4]))) (/) ("2" (.) H)
  IN (Res.e[1] # "any" /\ RFin(ex) /\ RFin(ey)) => RClose(Res.e[1], RSqrt((ex (.) ex) (+) (ey (.) ey)), "1e-10", "1e-12")
Absorb == (A[5] = Undefined \/ Bb[5] = Undefined) => Res.s = {Undefined}
Definite == (A[5] # Undefined /\ Bb[5] # Undefined) => Undefined \notin Res.s
=============================================================================
