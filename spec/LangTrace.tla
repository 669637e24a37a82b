------------------------------ MODULE LangTrace ------------------------------
(* Trace checking: what the parts of real models make of texts. Texts are lists of codes; own: the separators of the language.
   "parts": what each part found in the text, for an entity of value "a b" (a name: "EF"), a rule and an utterance "a b";
   "injected": whether the value "a", separator, "b" was found once injected; "told": the same question to the same model in
   two languages, the answers being texts; "refuse": a language in a place of a model. *)
EXTENDS Lang, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
A == <<97>>
B == <<98>>
EF == <<69, 70>>
PartsBad(ev) ==
    LET seps == RangeS(ev.own)
        ws == Words(ev.text, seps)
        vs == Values(ws)
        named == Named(ws, A, B, EF, 1)
        flat == FlattenSeq(vs)
        C(cond, what) == Clause(cond, "C30", what)
    IN IF ev.r # "ok" THEN Clause(FALSE, "C30", "failed") ELSE
       Clause(ev.tokens = vs, "TOOL", "tokens")
       \cup C(ev.rules = (flat = <<97, 98>>), "rules")
       \cup C(ev.lookup = (vs = <<A, B>>), "lookup")
       \cup C(ev.tagger = vs, "tagger")
       \cup C({ ev.entities[i] : i \in 1..Len(ev.entities) } = { <<ws[i].s, ws[i + 1].e>> : i \in Finds(ws, A, B) }, "entities")
       \cup C(ev.features.a = (\E i \in 1..Len(vs) : vs[i] = A), "features-a")
       \cup C(ev.features.b = (\E i \in 1..Len(vs) : vs[i] = B), "features-b")
       \cup C(ev.features.ab = (\E i \in 1..Len(vs) : vs[i] = <<97, 98>>), "features-ab")
       \cup C(ev.features.entity = (Finds(ws, A, B) # {}), "features-entity")
       \cup C(ev.pairs.aa = Before(named, A, A), "pairs-aa")
       \cup C(ev.pairs.bb = Before(named, B, B), "pairs-bb")
       \cup C(ev.pairs.ba = Before(named, B, A), "pairs-ba")
       \cup C(ev.pairs.ea = Before(named, EF, A), "pairs-ea")
ToldBad(ev) ==
    LET swap == Told(ev.text, ev.s1, ev.s2) IN
    Clause(ev.text2 = swap, "TOOL", "told")
    \cup Clause(Len(ev.res) = Len(ev.res2) /\ \A i \in 1..Len(ev.res) : ev.res2[i] = Told(ev.res[i], ev.s1, ev.s2), "C30", "told-" \o ev.what)
Bad(ev) ==
    CASE ev.op = "parts" -> PartsBad(ev)
      [] ev.op = "injected" -> Clause(ev.found, "C30", "injected")
      [] ev.op = "load" -> Clause(ev.r = "ok", "C30", "not-loaded")
      [] ev.op = "told" -> ToldBad(ev)
      [] ev.op = "refuse" -> Clause(ev.supported => ev.r = "ok", "C30", "supported-language-refused")
                             \cup Clause(~ev.supported => ev.r = "err", "C30", "unsupported-language-" \o ev.r)
VARIABLES l, done
TraceInit == l \in 1..Len(Trace) /\ done = FALSE
TraceNext == ~done /\ Report(l, Bad(Trace[l])) /\ done' = TRUE /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<l, done>>
TraceAccepted == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================
