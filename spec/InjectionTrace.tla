--------------------------- MODULE InjectionTrace ---------------------------
(* Trace checking of injections into real engine directories. An event tells one story: an engine directory, what its entities
   knew, and a sequence of steps, each an injection (perhaps refused, or interrupted) followed by questions.
   What an entity may know after an interrupted injection is a set: what it knew, or that with the injected values. *)
EXTENDS Injection, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

Vals(step, e) == { step.values[i].v : i \in { j \in 1..Len(step.values) : step.values[j].e = e } }
UsageOf(ev, e) == IF ev.ents[e].builtin THEN 1 ELSE ev.usage
After(ev, step, poss) ==
    [e \in DOMAIN poss |->
        LET new == { Inject(UsageOf(ev, e), b, Vals(step, e), step.vanilla) : b \in poss[e] }
        IN CASE step.expect = "refused" \/ step.expect = "unreadable" -> poss[e]
             [] step.r = "ok" -> new
             [] OTHER -> poss[e] \cup new]
Fits(ask, b) == IF ask.via = "slot" THEN AnswersSlot(b, ask.toks, ask.got) ELSE Answers(b, ask.toks, ask.got, ask.sa)
Kept(step, e, bs) == { b \in bs : \A i \in 1..Len(step.asks) : step.asks[i].e = e => Fits(step.asks[i], b) }
Names(s, n) == \E i \in 1..Len(s) : s[i] = n

\* what the end of the injection itself says
EndBad(ev, step) ==
    CASE step.expect = "refused" ->
            Clause(step.r = "err", "C22", "injection-not-refused")
            \cup Clause(step.same, "C22", "refused-injection-changed-files")
            \cup (IF step.r # "err" THEN {} ELSE
                  Clause(RangeS(step.named) \cap RangeS(step.refuse) # {}, "C33", "refusal-without-name")
                  \cup Clause(RangeS(step.named) \cap RangeS(step.refuse) # {}, "C22", "refusal-without-name")
                  \cup Clause(step.kind = "refusal", "C33", "refusal-told-as-internal"))
      [] step.expect = "unreadable" ->
            Clause(step.r = "err", "C22", "injection-into-unreadable-engine-" \o step.r)
            \cup Clause(step.same, "C22", "injection-into-unreadable-engine-changed-files")
            \cup (IF step.r # "err" THEN {} ELSE
                  Clause(step.kind = "internal", "C33", "internal-failure-told-as-refusal"))
      [] step.expect = "done" ->
            Clause(step.r = "ok", IF step.worn THEN "C23" ELSE "C21", "injection-" \o step.r)
            \cup Clause(step.load = "ok", IF step.worn THEN "C23" ELSE "C21", "engine-does-not-load-after-injection")
      [] OTHER -> Clause(step.r \in {"ok", "err", "died"}, "C23", "interrupted-injection-" \o step.r)
            \cup Clause(step.load = "ok", "C23", "engine-does-not-load-after-interruption")
RECURSIVE Story(_, _, _)
Story(ev, i, poss) ==
    IF i > Len(ev.steps) THEN {}
    ELSE LET step == ev.steps[i]
             next == After(ev, step, poss)
             kept == [e \in DOMAIN next |-> Kept(step, e, next[e])]
             lost == { e \in DOMAIN next : kept[e] = {} }
             prop == IF step.worn \/ step.expect \in {"killed", "fails"} THEN "C23"
                     ELSE IF step.expect \in {"refused", "unreadable"} THEN "C22" ELSE "C21"
             here == EndBad(ev, step)
                     \cup { <<prop, IF Vals(step, e) = {} THEN "other-entity-changed" ELSE "values-not-recognised">> : e \in lost }
         IN here \cup (IF lost # {} \/ here # {} THEN {} ELSE Story(ev, i + 1, kept))
Bad(ev) == Story(ev, 1, [e \in DOMAIN ev.ents |->
                            { << { [k |-> ev.ents[e].trained[i].k, r |-> ev.ents[e].trained[i].r, own |-> TRUE] : i \in 1..Len(ev.ents[e].trained) } >> }])
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
