----------------------------- MODULE CacheTrace -----------------------------
(* Trace checking of histories of requests to the entity parsers and to whole engines. *)
EXTENDS Cache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* hist: steps [key, hits, cached, got, fresh]: a block of similar requests each
HistBad(ev) ==
    Clause(Bounded(ev.steps, ev.cap), "C16", "more-answers-kept-than-the-capacity")
    \cup Clause(\A i \in 1..Len(ev.steps) : ev.steps[i].got = ev.steps[i].fresh, "C16", "answer-depends-on-the-past")
\* one call in a history of an engine: [got, fresh]
CallBad(ev) ==
    Clause(ev.r \in {"ok", "err"}, "C31", "call-" \o ev.r)
    \cup Clause(ev.got = ev.fresh, "C16", "engine-answer-depends-on-the-past")
\* calls of several threads: [got, alone]
ThreadBad(ev) ==
    Clause(ev.r # "hang", "C17", "blocked-for-ever") \cup Clause(ev.r # "died", "C17", "process-died")
    \cup (IF ev.r \in {"hang", "died"} THEN {} ELSE
          Clause(\A t \in 1..Len(ev.got) : Len(ev.got[t]) = Len(ev.alone[t]), "C17", "calls-without-answer")
          \cup Clause(\A t \in 1..Len(ev.got) : \A i \in 1..Len(ev.got[t]) : ev.got[t][i] = ev.alone[t][i], "C17", "answer-differs-from-alone")
          \cup Clause(~ev.mixed, "C17", "tagger-shared-between-calls"))
Bad(ev) == CASE ev.op = "hist" -> HistBad(ev) [] ev.op = "call" -> CallBad(ev) [] ev.op = "threads" -> ThreadBad(ev)
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
