----------------------------- MODULE PyFieldsTrace -----------------------------
EXTENDS PyFields
VARIABLES l, st
B == INSTANCE TraceBase
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
