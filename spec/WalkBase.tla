------------------------------ MODULE WalkBase ------------------------------
(* Random walks through a specification: Walks behaviours of Depth commands each.  Cmd(st) is a random command that
   makes sense in state st (its value differs from evaluation to evaluation: bind it before use).                  *)
EXTENDS VF
CONSTANTS Start, Cmd(_), Do(_,_)
VARIABLES w, st, hist
Walks == Param("walks", 20)
Depth == Param("depth", 40)
WInit == w = 1 /\ st = Start /\ hist = <<>>
WNext ==
  /\ w <= Walks
  /\ \E c \in {Cmd(st)} :
       IF Len(hist) + 1 >= Depth
       THEN Emit(Append(hist, c)) /\ w' = w + 1 /\ hist' = <<>> /\ st' = Start
       ELSE w' = w /\ hist' = Append(hist, c) /\ st' = Do(st, c)
=============================================================================
