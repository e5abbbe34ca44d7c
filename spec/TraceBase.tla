----------------------------- MODULE TraceBase -----------------------------
(* Trace validation: is the recorded trace of the implementation a behaviour of the specification?
   The trace is a sequence of events [c |-> command, ok |-> BOOLEAN, r |-> response | err |-> message]; behaviours are
   separated by "reset" commands.  A rejected event is reported and the validation goes on with the next behaviour. *)
EXTENDS VF
CONSTANTS Init0, Reset(_), Allowed(_,_), Step(_,_), Expect(_,_)
VARIABLES l, st
Trace == LoadTrace(0)
N == Param("n", 0)
TInit == l = 1 /\ st = Init0
TNext ==
  /\ l <= N
  /\ LET e == Trace[l] IN
     IF Has(e, "crash")
     THEN /\ Report(l, "the program terminated abnormally or did not answer")
          /\ l' = NextReset(l) /\ st' = st
     ELSE IF e.c.op = "reset"
     THEN st' = Reset(st) /\ l' = l + 1
     ELSE IF Allowed(st, e)
     THEN st' = Step(st, e) /\ l' = l + 1
     ELSE /\ Report(l, Expect(st, e))
          /\ l' = NextReset(l) /\ st' = st
TDone == (l = N + 1) => Report(l, "DONE")
=============================================================================
