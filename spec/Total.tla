-------------------------------- MODULE Total --------------------------------
(* What may come of a call (C31): an answer or an error, whatever the text. An error only has a reason: a name that the
   model does not have, or a part that fails on this text. *)
EXTENDS Common
Outcomes(known, failing) == IF ~known THEN {"err"} ELSE IF failing THEN {"ok", "err"} ELSE {"ok"}
=============================================================================
