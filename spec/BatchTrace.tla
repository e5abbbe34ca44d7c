---------------------------- MODULE BatchTrace ------------------------------
EXTENDS Batch
VARIABLES l, st
B == INSTANCE TraceBase WITH Init0 <- BInit, Reset <- BReset, Allowed <- BAllowed, Step <- BStep, Expect <- BExpect
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
