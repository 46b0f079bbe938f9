--------------------------- MODULE MonoPolyTrace ----------------------------
EXTENDS MonoPoly, Verdicts

VARIABLES c, l, bad
Init == c \in DOMAIN Cases /\ l = 0 /\ bad = ""

Why(C) ==
    IF ~Accepts(C.top, C.bot) THEN (IF C.st = "refused" THEN "" ELSE "accepted-invalid")
    ELSE IF C.st # "ok" THEN C.st
    ELSE IF C.boxed = 1 /\ C.bb # Box(C.top, C.bot) THEN "wrong-box"
    ELSE IF C.views # <<C.top, C.bot>> THEN "wrong-view"
    ELSE IF C.pair # <<C.top, C.bot>> THEN "wrong-pair"
    ELSE IF C.holes # 0 \/ ~SameRing(C.ring, Outline(C.top, C.bot)) THEN "wrong-outline"
    ELSE ""

Check == /\ l = 0 /\ l' = 1
         /\ \E w \in {Why(Cases[c])} :
            /\ bad' = w
            /\ Closed(Cases[c].id, l, w)
         /\ UNCHANGED c
Next == Check
Spec == Init /\ [][Next]_<<c, l, bad>>
=============================================================================
