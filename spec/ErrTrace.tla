------------------------------- MODULE ErrTrace -------------------------------
(* Trace checking of errors. "walk": an operation on a real engine whose parts follow scripts, and the faults its message names.
   "fault": something wrong in a model or in a request, and which of the things to tell the message shows.
   "late": an error of an entity parser, in an operation that needs it. *)
EXTENDS Err, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
WalkBad(ev) ==
    LET want == Outcome(ev.what, ev.parts)
        named == { <<f.k, f.role>> : f \in RangeS(ev.named) }
    IN IF want.err # {} THEN
            Clause(ev.r = "err", "C33", ev.what \o "-error-hidden-" \o ev.r)
            \cup Clause(ev.r # "err" \/ (named # {} /\ named \subseteq want.err), "C33", ev.what \o "-another-fault-told")
       ELSE Clause(ev.r = "ok", "C33", ev.what \o "-error-from-nowhere-" \o ev.r)
            \cup Clause(ev.r # "ok" \/ ev.what = "listing" \/ ev.x = want.x, "C33", ev.what \o "-answer-of-another-part")
FaultBad(ev) ==
    Clause(ev.r = "err", "C33", ev.place \o "-hidden-" \o ev.r)
    \cup Clause(ev.r # "err" \/ Told(ev.place) \subseteq RangeS(ev.shown), "C33", ev.place \o "-not-named")
Bad(ev) == CASE ev.op = "walk" -> WalkBad(ev) [] ev.op = "fault" -> FaultBad(ev)
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
