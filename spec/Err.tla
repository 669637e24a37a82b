--------------------------------- MODULE Err ---------------------------------
(* Errors. An engine consults its parts in order; each part may find an intent or not, and may fail, at one step or another.
   What a part does with a text:
     slots        finds the intent, with slots          bare        finds it, without slots        none   finds nothing
     fails        fails in every operation              late        finds the intent, its slots fail (probabilistic parser)
     clf          fails to find intents, finds slots    unresolved  finds slots that the engine then fails to resolve
   The faults of the part k are told apart: <<k, "part">> (raised by the part), <<k, "value">> (raised when its slots are resolved). *)
EXTENDS Common

Scripts(kind) == {"slots", "bare", "none", "fails"} \cup (IF kind = "probabilistic" THEN {"late", "clf", "unresolved"} ELSE {})
Ops == {"parse", "other", "alternatives", "listing", "slots", "otherslots"}
  \* parse the text / the same, for the other intent only / with alternatives / list the intents / the slots of the intent / of the other intent

Fine(x) == [err |-> {}, x |-> x]
Failed(f) == [err |-> {f}, x |-> "none"]

(* One part, one step: what it answers, or its fault. *)
Parses(kind, s, k) ==
    CASE s \in {"fails", "late", "clf"} -> Failed(<<k, "part">>)
      [] s = "unresolved" -> Failed(<<k, "value">>)
      [] OTHER -> Fine(s)
ParsesOther(kind, s, k) ==              \* only the other intent is allowed; the classifier then finds it, the rules do not
    CASE s \in {"fails", "late", "clf"} -> Failed(<<k, "part">>)
      [] kind = "probabilistic" /\ s # "none" -> Fine("bare")
      [] OTHER -> Fine("none")
Lists(kind, s, k) == IF s \in {"fails", "clf"} THEN Failed(<<k, "part">>) ELSE Fine("bare")
SlotsOf(kind, s, k) ==
    CASE s \in {"fails", "late"} -> Failed(<<k, "part">>)
      [] s = "unresolved" -> Failed(<<k, "value">>)
      [] s \in {"slots", "clf"} -> Fine("slots")
      [] OTHER -> Fine("none")
SlotsOther(kind, s, k) == IF s \in {"fails", "late"} THEN Failed(<<k, "part">>) ELSE Fine("none")
Step(what, p, k) ==
    CASE what = "parse" -> Parses(p.kind, p.script, k)
      [] what = "other" -> ParsesOther(p.kind, p.script, k)
      [] what = "listing" -> Lists(p.kind, p.script, k)
      [] what = "slots" -> SlotsOf(p.kind, p.script, k)
      [] what = "otherslots" -> SlotsOther(p.kind, p.script, k)

(* The parts that are consulted: all of them for a listing, up to the first that finds something otherwise. *)
Stops(what, x) == CASE what = "listing" -> FALSE
                    [] what \in {"slots", "otherslots"} -> x = "slots"
                    [] OTHER -> x # "none"
RECURSIVE Walk(_, _, _)
Walk(what, parts, k) ==
    IF k > Len(parts) THEN Fine("none")
    ELSE LET a == Step(what, parts[k], k)
         IN IF a.err # {} \/ Stops(what, a.x) THEN a ELSE Walk(what, parts, k + 1)
(* Alternatives: the parse, then the listing, then the slots of every other intent listed, in any order. *)
Outcome(op, parts) ==
    IF op # "alternatives" THEN Walk(op, parts, 1)
    ELSE LET top == Walk("parse", parts, 1)
             list == Walk("listing", parts, 1)
             mine == IF top.x = "none" THEN Walk("slots", parts, 1).err ELSE {}
             others == Walk("otherslots", parts, 1).err
         IN IF top.err # {} THEN top ELSE IF list.err # {} THEN list
            ELSE IF mine \cup others # {} THEN [err |-> mine \cup others, x |-> "none"] ELSE top

(* What an error must tell, according to what is at fault. *)
Told(place) ==
    CASE place \in {"file", "parser-file", "resource", "feature-kind", "feature-argument", "scheme", "builtin-kind", "unit", "group", "language"} -> {"name"}
      [] place \in {"lookup-intent", "lookup-slot"} -> {"number"}
      [] place = "version" -> {"model", "runner"}
      [] place \in {"intent-in-filter", "intent", "slot", "entity"} -> {"name"}
      [] place \in {"group-slot", "pattern"} -> {"name"}
=============================================================================
