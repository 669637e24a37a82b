--------------------------- MODULE ResourcesTrace ---------------------------
(* Trace checking of the resources of a language: each event is a load and questions asked about some words. *)
EXTENDS Resources, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Sound(ev) ==
    /\ ~ev.missing
    /\ \A i \in 1..Len(ev.gazetteers) : Text(ev.gazetteers[i].f)
    /\ \A i \in 1..Len(ev.clusters) : ClustersSound(ev.clusters[i].f)
    /\ \A i \in 1..Len(ev.stems) : Text(ev.stems[i])
    /\ \A i \in 1..Len(ev.stops) : Text(ev.stops[i])
Named(seq) == { seq[i].name : i \in 1..Len(seq) }
File(seq, n) == seq[CHOOSE i \in 1..Len(seq) : seq[i].name = n].f
Answers(ev) ==
    LET v == ev.got q == ev.asked IN
    Clause(Named(v.gazetteers) = Named(ev.gazetteers) /\ Len(v.gazetteers) = Cardinality(Named(ev.gazetteers)), "C26", "list-of-gazetteers")
    \cup Clause(\A i \in 1..Len(v.gazetteers) : v.gazetteers[i].name \in Named(ev.gazetteers) =>
                    LET ws == WordsOf(File(ev.gazetteers, v.gazetteers[i].name))
                    IN \A k \in 1..Len(q) : v.gazetteers[i].contains[k] = (q[k].w \in ws), "C26", "words-of-a-gazetteer")
    \cup Clause(v.has_stemmer = (ev.stems # <<>>), "C26", "presence-of-the-stemmer")
    \cup (IF ev.stems = <<>> \/ ~v.has_stemmer THEN {} ELSE
          LET rs == Records(ev.stems[1], Comma)
          IN Clause(\A k \in 1..Len(q) : LET st == StemIn(rs, q[k].norm) IN v.stems[k] = IF st = Nothing THEN q[k].w ELSE st, "C26", "stems"))
    \cup Clause(Named(v.clusterers) = Named(ev.clusters) /\ Len(v.clusterers) = Cardinality(Named(ev.clusters)), "C26", "list-of-word-clusters")
    \cup Clause(\A i \in 1..Len(v.clusterers) : v.clusterers[i].name \in Named(ev.clusters) =>
                    LET f == File(ev.clusters, v.clusterers[i].name)
                    IN \A k \in 1..Len(q) : v.clusterers[i].clusters[k] = Cluster(f, q[k].w), "C26", "word-clusters")
    \cup Clause(RangeS(v.stop_words) = (IF ev.stops = <<>> THEN {} ELSE WordsOf(ev.stops[1])) /\ Distinct(v.stop_words), "C26", "stop-words")
Bad(ev) ==
    IF ev.r = "ok" THEN (IF Sound(ev) THEN Answers(ev) ELSE { <<"C26", "malformed-file-accepted">> })
    ELSE Clause(ev.r = "err", "C26", "loading-" \o ev.r) \cup Clause(~Sound(ev), "C26", "file-refused")
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
