----------------------------- MODULE ScalarGen -----------------------------
(* Random programs over registers. *)
EXTENDS Scalar, TLC
VARIABLES w, st, hist
Regs == <<"a", "b", "c", "d", "e">>
Num(x) == IF Chance(8) THEN Pick(<<"0", "1", "-1", "nan", "inf">>) ELSE IF Chance(50) THEN RndReal("-5", "5", 3) ELSE RndReal("0.01", "30", 4)
Cmp(x) == [op |-> "tscmp", a |-> <<"reg", Pick(Regs)>>, b |-> <<"reg", Pick(Regs)>>]
CmpLit(x) == [op |-> "tscmp", a |-> <<"lit", Num(0)>>, b |-> <<"lit", Num(0)>>]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
UnaryS == SeqOf(Unary)
TwoS == SeqOf(TwoRegs)
RightS == SeqOf(NumRight)
LeftS == SeqOf(NumLeft)
Reg(x) == <<"reg", Pick(Regs)>>
Load(r) == [op |-> "ts", reg |-> r, e |-> IF Chance(75) THEN <<"ts", Num(0), RndReal("-3", "3", 2), RndReal("-3", "3", 2), RndReal("0", "0.5", 3), Rnd(6) - 1>>
                                     ELSE <<Pick(<<"T", "P", "lit", "asg">>), Num(0)>>]
Operation(r) == [op |-> "ts", reg |-> r, e |->
  LET k == Rnd(10) IN
  IF k <= 2 THEN <<Pick(UnaryS), Reg(0)>> ELSE IF k <= 6 THEN <<Pick(TwoS), Reg(0), Reg(0)>>
  ELSE IF k <= 8 THEN <<Pick(RightS), Reg(0), Num(0)>> ELSE IF k <= 9 THEN <<Pick(LeftS), Num(0), Reg(0)>> ELSE Reg(0)]
Cmd(n) == IF n < 5 THEN Load(Regs[n + 1]) ELSE IF Chance(15) THEN Load(Pick(Regs)) ELSE IF Chance(20) THEN (IF Chance(50) THEN Cmp(0) ELSE CmpLit(0)) ELSE Operation(Pick(Regs))
Do(n, c) == n + 1
W == INSTANCE WalkBase WITH Start <- 0
WInit == W!WInit
WNext == W!WNext
=============================================================================
