----------------------------- MODULE WorkTrace ------------------------------
(* How much work the real code does, against the bounds it is documented to    *)
(* keep: O((n + k) log n) for the sweep over n segments of which k pairs meet, *)
(* and O(log n) for each call on a collection of n keys, spread over the       *)
(* history (SplayWork is where that bound comes from).  State: the work done   *)
(* so far, and the work allowed so far.                                        *)
EXTENDS Integers, Verdicts

VARIABLES c, l, done, due, bad
vars == <<c, l, done, due, bad>>

RECURSIVE Lg(_)
Lg(n) == IF n <= 0 THEN 0 ELSE 1 + Lg(n \div 2)

(* pairs that meet in a family of n segments                                   *)
Meeting(kind, n, k) ==
    CASE kind \in {"fan-out", "fan-in", "same-point", "copies"} -> (n * (n - 1)) \div 2
      [] kind \in {"chain", "columns", "overlaps"} -> n - 1
      [] kind = "grid" -> (n \div 2) * (n - n \div 2)
      [] kind \in {"streets", "avenues"} -> k         \* (counted when they were made)
      [] OTHER -> 0

(* operations of the scalar type, in units of 64; a pair that meets costs some *)
(* events more                                                                 *)
SweepDue(kind, n, k) == (n + 4 * Meeting(kind, n, k)) * Lg(n)
(* calls of the comparison                                                     *)
CallsDue(count, n) == 6 * count * (Lg(n) + 1)

C == Cases[c]
Init == c \in DOMAIN Cases /\ l = 1 /\ done = 0 /\ due = 0 /\ bad = ""

Sweep == /\ C.what \in {"sweep", "pairs"} /\ bad = "" /\ l = 1
         /\ done' = C.work \div 64 /\ due' = SweepDue(C.kind, C.n, C.k)
         /\ bad' = (IF C.st # "ok" THEN C.st ELSE IF done' <= due' THEN "" ELSE "too-much-work")
         /\ Closed(C.id, l, bad') /\ l' = l + 1 /\ UNCHANGED c
(* a stretch of calls: how many, on how many keys at most, what they asked     *)
Stretch == /\ C.what \in {"map", "set"} /\ bad = "" /\ l <= Len(C.acts)
           /\ done' = done + C.acts[l][3] /\ due' = due + CallsDue(C.acts[l][1], C.acts[l][2])
           /\ bad' = (IF done' <= due' THEN "" ELSE "too-much-work")
           /\ Judged(C.id, l, bad') /\ l' = l + 1 /\ UNCHANGED c
Fin == /\ C.what \in {"map", "set"} /\ bad = "" /\ l = Len(C.acts) + 1
       /\ bad' = (IF C.st = "ok" THEN "" ELSE C.st)
       /\ Closed(C.id, l, bad') /\ l' = l + 1 /\ UNCHANGED <<c, done, due>>
Next == Sweep \/ Stretch \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
