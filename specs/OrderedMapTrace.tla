--------------------------- MODULE OrderedMapTrace --------------------------
(* Validates recorded histories of the map and of the set, one step per call.  *)
(* GX_WHAT selects what is judged: "answers" (results of every call but the    *)
(* owning iterator), "iter" (the owning iterator), "live" (how many keys and   *)
(* values are alive after each call), "refs" (references held over lookups) or *)
(* "panics" (all of these, where the user's comparison may panic).             *)
EXTENDS OrderedMap, Verdicts

VARIABLES c, l, bad
tvars == <<mvars, c, l, bad>>

Empty == [j \in {} |-> 0]
Init  == /\ c \in DOMAIN Cases /\ l = 1 /\ bad = ""
         /\ m = Empty /\ rev = (Cases[c].rev = 1)

A == Cases[c].acts
IsSet == Cases[c].kind = "set"
Expect(op, a) == IF IsSet THEN SetAnswer(op, a) ELSE Answer(op, a)

(* what the collection answers to a call in which the comparison may panic: a  *)
(* panic in one of the lookups of "refs" is recorded in place of its answer    *)
Refused == <<-9>>
Fused(s) == s.f >= 0
Fits(s) ==
    IF s.pan = 1 THEN Fused(s)
    ELSE LET want == Expect(s.k, s.a) IN
         \/ s.r = want
         \/ /\ s.k = "refs" /\ Fused(s) /\ Len(s.r) = Len(want)
            /\ Cardinality({i \in DOMAIN want : s.r[i] # want[i]}) = 1
            /\ \A i \in DOMAIN want : s.r[i] \in {want[i], Refused}
Alive(s, n) == s.live = (IF IsSet THEN <<n>> ELSE <<n, n>>)

Why(s) ==
    LET judged == CASE s.k = "iter" -> "iter" [] s.k = "refs" -> "refs" [] OTHER -> "answers"
        n == Cardinality(DOMAIN m')
    IN  IF What = "live"
        THEN (IF Alive(s, n) THEN "" ELSE "leak-or-double-drop")
        ELSE IF What = "panics"
        THEN (IF ~Alive(s, n) THEN "leak-or-double-drop" ELSE IF Fits(s) THEN "" ELSE "wrong-answer-" \o s.k)
        ELSE IF What # judged \/ s.r = Expect(s.k, s.a) THEN "" ELSE "wrong-answer-" \o s.k

Step == /\ bad = "" /\ l <= Len(A)
        /\ IF A[l].pan = 1 THEN Refuse ELSE Operate(A[l].k, A[l].a)
        /\ bad' = Why(A[l]) /\ Judged(Cases[c].id, l, bad')
        /\ l' = l + 1 /\ UNCHANGED c
Fin == /\ bad = "" /\ l = Len(A) + 1
       /\ bad' = (IF Cases[c].st = "ok" THEN "" ELSE Cases[c].st) /\ Closed(Cases[c].id, l, bad')
       /\ l' = l + 1 /\ UNCHANGED <<mvars, c>>

Next == Step \/ Fin
Spec == Init /\ [][Next]_tvars
=============================================================================
