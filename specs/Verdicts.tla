------------------------------ MODULE Verdicts ------------------------------
(* How a trace validation tells the outside what it decided about a recorded   *)
(* run: one line per run, "OK" or "REJECT" with the step and the reason.       *)
EXTENDS TLC, Json, IOUtils, Sequences

Cases == ndJsonDeserialize(IOEnv.GX_TRACE)
What == IOEnv.GX_WHAT        \* which part of the specification is judged

(* (In actions, values that are used more than once are bound by \E x \in {..}: *)
(* TLC evaluates a LET or an argument there every time it is mentioned.)       *)
Rejected(id, step, why) == PrintT(<<"REJECT", id, step, why>>)
Passed(id) == PrintT(<<"OK", id>>)
(* the verdict on one step (w = "" if it conforms), and on the last one        *)
Judged(id, step, w) == IF w # "" THEN Rejected(id, step, w) ELSE TRUE
Closed(id, step, w) == IF w # "" THEN Rejected(id, step, w) ELSE Passed(id)
=============================================================================
