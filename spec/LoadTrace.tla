------------------------------ MODULE LoadTrace ------------------------------
EXTENDS Load, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bases == ndJsonDeserialize(IOEnv.BASES)          \* complete directories: [files, env, regex]

\* the files of an event: those of its base, except the ones removed or replaced
Files(ev) == LET b == Bases[ev.base].files
                 gone == RangeS(ev.gone)
                 keep == DOMAIN b \ (gone \cup DOMAIN ev.delta)
             IN [p \in keep |-> b[p]] @@ ev.delta
Faults(ev) ==
    LET D == Files(ev)
        env == Bases[ev.base].env
        rx == Bases[ev.base].regex
        res == Res(D, ev.r)
    IN CASE ev.what = "engine" -> EngineFaults(D, env, rx, ev.dir)
         [] ev.what = "resources" -> ResFaults(D, env, ev.r, ev.b, ev.c)
         [] ev.what = "deterministic" -> DetFaults(D, rx, ev.dir)
         [] ev.what = "lookup" -> LookupFaults(D, ev.dir)
         [] ev.what = "probabilistic" -> ProbFaults(D, ev.dir, res)
         [] ev.what = "classifier" -> ClfFaults(D, ev.dir, res)
         [] ev.what = "slot_filler" -> SfFaults(D, ev.dir, res)
\* damages after which nothing can be loaded
Gross == { "missing", "unreadable", "feature", "clusters", "stems", "builtin", "tagger", "pattern" }
LoadBad(ev) ==
    LET faults == Faults(ev)
        why == { f.why : f \in faults }
        named == \E f \in faults : f.say \subseteq RangeS(ev.res.said)
        r == ev.res.r
    IN (IF r \notin {"ok", "err"} THEN { <<"C19", "loading-" \o r>> }
        ELSE IF faults = {} THEN
            (IF r = "ok" THEN {} ELSE { <<p, "complete-model-refused">> : p \in {"C18", "C19", "C32"} })
        ELSE IF r = "ok" THEN
            (IF why \cap Gross # {} THEN { <<"C19", "damaged-model-accepted">> } ELSE {})
            \cup (IF why \cap {"fields", "unit"} # {} THEN { <<"C32", "wrong-record-accepted">> } ELSE {})
            \cup (IF why \cap {"scheme"} # {} THEN { <<"C32", "unknown-scheme-accepted">> } ELSE {})
            \cup (IF why \cap {"language"} # {} THEN { <<"C30", "unsupported-language-accepted">>, <<"C19", "unsupported-language-accepted">> } ELSE {})
            \cup (IF why \cap {"version"} # {} THEN { <<"C18", "other-version-accepted">> } ELSE {})
        ELSE IF named THEN {}
        ELSE { <<"C33", "fault-not-named">> }
             \cup (IF why = {"version"} THEN { <<"C18", "versions-not-stated">> } ELSE {})
             \cup (IF why \cap {"feature", "clusters", "stems", "missing"} # {} THEN { <<"C19", "missing-resource-not-named">> } ELSE {}))
       \cup { <<"C19", "operation-" \o x>> : x \in RangeS(ev.ops) \ {"ok", "err"} }
       \cup (IF ev.gone = <<>> /\ DOMAIN ev.delta = {"none"} /\ r = "ok" /\ RangeS(ev.ops) # {} /\ "ok" \notin RangeS(ev.ops) THEN { <<"C19", "loaded-but-unusable">> } ELSE {})

\* model: [type, doc, res: [r, v]]
RECURSIVE Canon(_)
Canon(d) == CASE d.k = "list" -> [k |-> "list", l |-> [i \in 1..Len(d.l) |-> Canon(d.l[i])]]
              [] d.k = "obj" -> [k |-> "obj", f |-> { <<d.f[i].n, Canon(d.f[i].v)>> : i \in 1..Len(d.f) }]
              [] d.k \in {"int", "flt"} -> [k |-> d.k, txt |-> d.txt]
              [] OTHER -> d
ModelBad(ev) ==
    LET want == Read(Schema(ev.type), ev.doc)
    IN IF ev.res.r \notin {"ok", "err"} THEN { <<"C32", "reading-" \o ev.res.r>>, <<"C19", "reading-" \o ev.res.r>> }
       ELSE IF Positional(Schema(ev.type), ev.doc) THEN {}
       ELSE IF want.ok # (ev.res.r = "ok") THEN { <<"C32", IF want.ok THEN "record-refused" ELSE "wrong-record-read">> }
       ELSE IF ~want.ok THEN {}
       ELSE Clause(Canon(ev.res.v) = want.v, "C32", "record-value")

Bad(ev) == CASE ev.op = "load" -> LoadBad(ev) [] ev.op = "model" -> ModelBad(ev)

VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
