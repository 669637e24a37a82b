------------------------------ MODULE TotalTrace ------------------------------
(* Trace checking: what came of calls to real models. "call": whether its names are known to the model, whether a part may
   fail on this text, the outcome, and for the texts asked before ("again") both answers. *)

EXTENDS Total, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bad(ev) ==
    CASE ev.op = "call" -> Clause(ev.r \in Outcomes(ev.known, ev.failing), "C31", ev.fn \o "-" \o ev.r \o (IF ev.known THEN "" ELSE "-unknown"))
      [] ev.op = "again" -> Clause(ev.first = ev.later, "C31", ev.fn \o "-not-the-same-later")
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
