--------------------------- MODULE IsolationTrace ---------------------------
(* Trace checking of histories of loadings, changes of the places and questions in one process.
   event: steps [act, h, p, c, r, got], alone: content (as "model" or "model+") -> what an engine of this content,
   alone in its process, answers to the same questions *)
EXTENDS Isolation, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Name(c) == c[1] \o (IF c[2] THEN "+" ELSE "")
RECURSIVE Run(_, _, _)
Run(ev, i, s) ==
    IF i > Len(ev.steps) THEN {} ELSE
    LET a == ev.steps[i]
        bad == IF a.act \in {"put", "remove", "drop"} THEN {}
               ELSE IF a.r \notin {"ok", "err"} THEN { <<"C35", a.act \o "-" \o a.r>> }
               ELSE IF Refused(s, a) THEN Clause(a.act # "load" \/ a.r = "err", "C35", "loaded-from-nothing")
               ELSE Clause(a.r = "ok", "C35", a.act \o "-failed")
                    \cup (IF a.act = "ask" /\ a.r = "ok"
                          THEN Clause(a.got = ev.alone[Name(s.held[a.h])], "C35", "answer-not-of-its-own-content") ELSE {})
    IN bad \cup Run(ev, i + 1, After(s, a))
Bad(ev) == Run(ev, 1, State(RangeS(ev.handles), RangeS(ev.places)))
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
