------------------------- MODULE BigCollectionTrace -------------------------
(* Histories that build a collection of n keys 0 .. n - 1 in some order, read  *)
(* its size and extremes, and then destroy it in one of several ways.  r lists *)
(* the answers, followed by the number of keys still alive at the end.         *)
EXTENDS Integers, Verdicts

VARIABLES c, l, bad
Init == c \in DOMAIN Cases /\ l = 0 /\ bad = ""

Expect(kind, n) ==
    <<n, 0, n - 1>> \o
    (CASE kind = "drop" -> <<>>
       [] kind = "clear" -> <<0>>
       [] kind = "iter" -> <<0, 1, 2, n - 3>>
       [] kind = "back" -> <<n - 1, n - 2, n - 3, n - 3>>
       [] kind = "all" -> <<n>>) \o <<0>>
Check == /\ l = 0 /\ l' = 1
         /\ LET C == Cases[c] IN
            bad' = IF C.st # "ok" THEN C.st ELSE IF C.r = Expect(C.kind, C.n) THEN "" ELSE "wrong-answers"
         /\ Closed(Cases[c].id, l, bad')
         /\ UNCHANGED c
Next == Check
Spec == Init /\ [][Next]_<<c, l, bad>>
=============================================================================
