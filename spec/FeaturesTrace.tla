---------------------------- MODULE FeaturesTrace ----------------------------
EXTENDS Features, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

Plain(o) == o = 0
Moved(o) == o # 0
Every(o) == TRUE
Asked(ev, f) == CASE f.kind = "entity_match" -> f.query = CustomQuery(f, ev.tokens, ev.stems)
                  [] f.kind = "builtin_entity_match" -> f.query = BuiltinQuery(ev.tokens, ev.text)
                  [] OTHER -> TRUE
Keys(ev, Want(_)) == UNION { { Key(ev.feats[a], o) : o \in { x \in RangeS(ev.feats[a].offsets) : Want(x) } } : a \in 1..Len(ev.feats) }
FeaturesBad(ev) ==
    IF ev.res.r # "ok" THEN
        { <<"C11", "features-" \o ev.res.r>>, <<"C12", "features-" \o ev.res.r>> }
        \cup (IF ev.res.r = "err" THEN {} ELSE { <<"C31", "features-" \o ev.res.r>> })
    ELSE IF ~ev.model THEN Clause(\A j \in 1..Len(ev.res.l) : ev.res.l[j] = <<>>, "C11", "features-without-tagger")
    ELSE IF Len(ev.res.l) # Len(ev.tokens) THEN { <<"C11", "number-of-tokens">>, <<"C12", "number-of-tokens">> }
    ELSE
        LET plain == Keys(ev, Plain)
            moved == Keys(ev, Moved)
            got(j, ks) == SelectSeq(ev.res.l[j], LAMBDA p : p[1] \in ks)
            T == 1..Len(ev.tokens)
        IN Clause(\A a \in 1..Len(ev.feats) : Asked(ev, ev.feats[a]), "TOOL", "query")
           \cup Clause(\A j \in T : IsPerm(got(j, plain), Pairs(ev.feats, ev.tokens, j, ev.stems, Plain)), "C11", "value")
           \cup Clause(\A j \in T : IsPerm(got(j, moved), Pairs(ev.feats, ev.tokens, j, ev.stems, Moved)), "C12", "value-at-offset")
           \cup Clause(\A j \in T : \A p \in RangeS(ev.res.l[j]) : p[1] \in plain \cup moved, "C12", "undeclared-feature")
           \cup Clause(\A j \in T : Len(ev.res.l[j]) = Len(Pairs(ev.feats, ev.tokens, j, ev.stems, Every)), "C12", "number-of-pairs")
           \cup Clause(\A j \in T : \A p \in RangeS(ev.res.l[j]) : p[1] \in plain \cup moved, "C11", "undeclared-feature")

VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, FeaturesBad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
