----------------------------- MODULE ValuesTrace -----------------------------
EXTENDS Values
VARIABLES l, st
B == INSTANCE TraceBase
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
