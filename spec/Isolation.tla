----------------------------- MODULE Isolation -----------------------------
(* Several engines in one process.  A place is a directory; it holds a content (a model, a model after an
   injection) or nothing.  An engine answers from the content that its place had when it was loaded.
   Contents are sequences <<model, injected?>>; Nothing stands for a place without a model. *)
EXTENDS Common
Nothing == <<"nothing", FALSE>>
Injected(c) == <<c[1], TRUE>>
State(handles, places) == [at |-> [p \in places |-> Nothing], held |-> [h \in handles |-> Nothing]]

\* the state after an action; refused actions change nothing
Refused(s, a) == \/ a.act \in {"load", "loadzip", "inject"} /\ s.at[a.p] = Nothing
                 \/ a.act \in {"ask", "drop"} /\ s.held[a.h] = Nothing
After(s, a) ==
    IF Refused(s, a) THEN s ELSE
    CASE a.act = "put" -> [s EXCEPT !.at[a.p] = <<a.c, FALSE>>]
      [] a.act = "remove" -> [s EXCEPT !.at[a.p] = Nothing]
      [] a.act = "inject" -> [s EXCEPT !.at[a.p] = Injected(@)]
      [] a.act \in {"load", "loadzip"} -> [s EXCEPT !.held[a.h] = s.at[a.p]]
      [] a.act = "drop" -> [s EXCEPT !.held[a.h] = Nothing]
      [] a.act = "ask" -> s
=============================================================================
