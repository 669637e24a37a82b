------------------------------ MODULE ZipTrace ------------------------------
(* zip events: [names, tree: << [p: path as codes, d] >>, made: what the harness extracted, damage, dir, res, same, outside, left]
   - tree, made: the extraction the harness compared with (checked here against Extract)
   - damage: none | cut (the end is missing) | entry (one of the entries cannot be read) | other (bytes changed)
   - dir: "ok" | "err" | "none": what loading the extracted directory itself gives
   - same: whether every answer was that of the engine of the directory *)
EXTENDS Zip, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bad(ev) ==
    LET x == Extract(ev.names)
        good == x.ok /\ HasEngine(ev.names)
        tree == { [p |-> [i \in 1..Len(ev.tree[j].p) |-> ev.tree[j].p[i]], d |-> ev.tree[j].d] : j \in 1..Len(ev.tree) }
    IN (IF ev.made # good \/ (good /\ tree # x.fs) THEN { <<"TOOL", "the harness extracted something else">> } ELSE {})
       \cup Clause(ev.r \in {"ok", "err"}, "C20", "archive-" \o ev.r)
       \cup Clause(ev.outside = <<>>, "C20", "file-outside")
       \cup Clause(ev.left = <<>>, "C20", "temporary-directory-left")
       \cup (CASE ev.damage \in {"cut", "entry"} -> Clause(ev.r # "ok", "C20", "damaged-archive-accepted")
               [] ev.damage = "other" -> Clause(ev.r = "ok" => good /\ ev.dir = "ok" /\ ev.same, "C20", "damaged-archive-other-engine")
               [] OTHER -> Clause((ev.r = "ok") = (good /\ ev.dir = "ok"), "C20", "other-outcome-than-directory")
                           \cup Clause(ev.r = "ok" => ev.same, "C20", "other-answer-than-directory"))
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
