---------------------------- MODULE RecordsTrace ----------------------------
EXTENDS Records
VARIABLES l, st
B == INSTANCE TraceBase WITH Allowed <- RecAllowed, Step <- RecStep, Expect <- RecExpect
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
