----------------------------- MODULE EngineTrace -----------------------------
EXTENDS Engine
VARIABLES l, st
B == INSTANCE TraceBase
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
