---------------------------- MODULE DatabaseTrace --------------------------
EXTENDS Database
VARIABLES l, st
B == INSTANCE TraceBase WITH Allowed <- DbAllowed, Step <- DbStep, Expect <- DbExpect
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
