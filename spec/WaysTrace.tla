----------------------------- MODULE WaysTrace -----------------------------
EXTENDS Ways
VARIABLES l, st
B == INSTANCE TraceBase
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
