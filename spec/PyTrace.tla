------------------------------ MODULE PyTrace ------------------------------
(* Trace checking of stories told through the Python class. Steps:
   "op": args (what each argument is), lib (what the library answers), out (how: "value", "raised" or "died"; parts; msg),
     handed and returned (how many texts the library handed over and got back);
   "balance": what the library handed over and never got back (live), and got back twice (odd);
   "steady": the memory in use that each window of n rounds of the same operations added. *)
EXTENDS Py, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
StepBad(st) ==
    CASE st.act = "op" ->
           Clause(st.out.how # "died", "C28", "died")
           \cup Clause(st.out.how \in Outcomes(st.args, st.lib), "C28", IF st.out.how = "raised" THEN "answer-refused" ELSE "failure-not-raised")
           \cup (IF st.out.how = "value" /\ st.lib.r = "ok"
                 THEN UNION { Clause(Has(st.out.parts, k) /\ st.out.parts[k] = st.lib.parts[k], "C28", "answer-" \o k) : k \in DOMAIN st.lib.parts }
                 ELSE {})
           \cup (IF st.out.how = "raised"
                 THEN Clause(LET say == MustSay(st.args, st.lib) IN \A i \in 1..Len(say) : Says(st.out.msg, say[i]), "C28", "message")
                 ELSE {})
           \cup (IF st.out.how = "raised" /\ Refused(st.args) THEN Clause(st.handed = 0, "C28", "called-before-refusing") ELSE {})
      [] st.act = "balance" -> Clause(st.blind \/ (st.live = 0 /\ st.odd = 0), "C28", "kept-or-freed-twice")
      [] st.act = "steady" -> Clause(\E i \in 1..Len(st.grown) : st.grown[i] < st.n, "C28", "kept")
Bad(ev) == UNION { StepBad(ev.steps[k]) : k \in 1..Len(ev.steps) }
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
