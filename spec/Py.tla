--------------------------------- MODULE Py ---------------------------------
(* The Python engine (C28): what an operation gives, from its arguments and from the answer of the library. *)
EXTENDS Ffi
\* what an argument may be: "none", "text", "nul" (text that C cannot carry whole), "other" (not a text)
Refused(args) == \E k \in DOMAIN args : args[k] = "other"
Unsure(args) == \E k \in DOMAIN args : args[k] = "nul"
\* the outcomes that an operation may have: "value" (the library's) or "raised"
Outcomes(args, lib) ==
    IF Refused(args) THEN {"raised"}
    ELSE IF lib.r # "ok" THEN {"raised"}
    ELSE IF Unsure(args) THEN {"raised", "value"}
    ELSE {"value"}
\* the message says all that the library says
MustSay(args, lib) == IF Refused(args) \/ Unsure(args) \/ lib.r = "ok" THEN <<>> ELSE lib.chain
=============================================================================
