----------------------------- MODULE ScalarTrace -----------------------------
EXTENDS Scalar
VARIABLES l, st
B == INSTANCE TraceBase
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
