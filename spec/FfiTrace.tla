------------------------------ MODULE FfiTrace ------------------------------
(* Trace checking of stories told through the C interface. A story is a list of steps, each on a thread:
   "call": args (what each argument is), lib (what the library answers: r, chain, parts), code, out (the answer in parts);
   "steady": the memory that was still in use after each window of n rounds of calls (grown): caches
   fill up and stay; "ask": the message (msg); "balance": what the caller still holds. names: those that the failures of each thread mention. *)
EXTENDS Ffi, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
CallBad(st) ==
    LET want == Code(st.args, st.lib) IN
    IF st.code < 0 THEN { <<"C27", "call-" \o st.died>> }
    ELSE IF st.code # want THEN { <<"C27", IF want = 0 THEN "call-refused" ELSE "failure-not-reported">> }
    ELSE IF want = 1 THEN Clause(~st.given, "C27", "answer-of-a-failed-call")
    ELSE UNION { Clause(Has(st.out, k) /\ st.out[k] = st.lib.parts[k], "C27", "answer-" \o k) : k \in DOMAIN st.lib.parts }
AskBad(ev, st, pending) ==
    Clause(\A i \in 1..Len(pending.parts) : Says(st.msg, pending.parts[i]), "C27", "message")
    \cup Clause(pending.who = "nobody" \/ (st.msg # "" /\ st.msg # ev.silence), "C27", "no-message")
    \cup Clause(\A i \in 1..Len(ev.names) : ev.names[i].t # st.t => ~Says(st.msg, ev.names[i].name), "C27", "message-of-another-thread")
RECURSIVE Walk(_, _, _)
Walk(ev, k, err) ==
    IF k > Len(ev.steps) THEN {}
    ELSE LET st == ev.steps[k] IN
         CASE st.act = "call" ->
                CallBad(st) \cup Walk(ev, k + 1, IF Code(st.args, st.lib) = 1 THEN [err EXCEPT ![st.t] = Left(st.args, st.lib)] ELSE err)
           [] st.act = "ask" -> AskBad(ev, st, err[st.t]) \cup Walk(ev, k + 1, [err EXCEPT ![st.t] = NoMessage])
           [] st.act = "steady" -> Clause(\E i \in 1..Len(st.grown) : st.grown[i] < st.n, "C27", "kept") \cup Walk(ev, k + 1, err)
           [] st.act = "balance" -> Clause(st.blind \/ (st.live = st.engines /\ st.odd = 0), "C27", "kept-or-freed-twice") \cup Walk(ev, k + 1, err)
Bad(ev) == Walk(ev, 1, [t \in 1..ev.threads |-> NoMessage])
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
