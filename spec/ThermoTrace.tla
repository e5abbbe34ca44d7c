---------------------------- MODULE ThermoTrace --------------------------
EXTENDS Thermo
VARIABLES l, st
B == INSTANCE TraceBase WITH Init0 <- ThInit, Reset <- ThReset, Allowed <- ThAllowed, Step <- ThStep, Expect <- ThExpect
TInit == B!TInit
TNext == B!TNext
TDone == B!TDone
=============================================================================
