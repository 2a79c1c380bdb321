------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares: the recorded traces (one JSON object
   per line, fields id and ev), and the cursor <<tid, l>> over them.  A trace
   is accepted when its cursor reaches the end; a cursor that cannot move is a
   deadlock, which TLC reports.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l

TraceStart == /\ tid \in 1..Len(Traces)
              /\ l = 1
Ev == Traces[tid].ev[l]
More == l <= Len(Traces[tid].ev)
Advance == /\ l' = l + 1
           /\ UNCHANGED tid
AtEnd == l = Len(Traces[tid].ev) + 1

Has(e, f) == f \in DOMAIN e
Rng(s) == {s[i] : i \in DOMAIN s}
=============================================================================
