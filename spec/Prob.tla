--------------------------------- MODULE Prob ---------------------------------
(* The probabilistic parser: a classifier and, for each intent, a slot filler.
   What a part gives: [r: "ok" or "err", ...]; fillers is a function from the intents that have one. *)
EXTENDS Common

Failure(who) == [r |-> "err", n |-> None, s |-> 0, slots |-> <<>>, who |-> who]
Gives(n, s, slots) == [r |-> "ok", n |-> n, s |-> s, slots |-> slots, who |-> "nobody"]

(* A parse, once the classifier has answered for the intents that are allowed. *)
Parse(clf, fillers) ==
    IF clf.r # "ok" THEN Failure("classifier")
    ELSE IF clf.n = None THEN Gives(None, clf.s, <<>>)
    ELSE IF clf.n \notin DOMAIN fillers THEN Failure("unknown")
    ELSE IF fillers[clf.n].r # "ok" THEN Failure(clf.n)
    ELSE Gives(clf.n, clf.s, fillers[clf.n].slots)

(* The slots of a text known to have this intent. *)
SlotsFor(n, fillers) ==
    IF n \notin DOMAIN fillers THEN Failure("unknown")
    ELSE IF fillers[n].r # "ok" THEN Failure(n)
    ELSE Gives(n, 0, fillers[n].slots)
=============================================================================
