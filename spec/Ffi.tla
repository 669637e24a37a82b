--------------------------------- MODULE Ffi ---------------------------------
(* The C interface (C27): a return code, an answer, and a message kept for the thread whose call failed. *)
EXTENDS Common

\* what an argument may be: "none" (optional and absent), "ok", "null", "utf8" (not text), "element" (a list with a null)
Usable(arg) == arg \in {"none", "ok"}
AllUsable(args) == \A k \in DOMAIN args : Usable(args[k])
\* the code of a call: whether it succeeds only depends on its arguments and on the library
Code(args, lib) == IF AllUsable(args) /\ lib.r = "ok" THEN 0 ELSE 1

NoMessage == [who |-> "nobody", parts |-> <<>>]
\* the message that a failed call leaves: all that the library says
Left(args, lib) == [who |-> "call", parts |-> IF AllUsable(args) THEN lib.chain ELSE <<>>]

Says(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
=============================================================================
