------------------------- MODULE SegmentOrderTrace --------------------------
(* Validates recorded comparisons ("cmp") and intersections ("meet"; "meets":  *)
(* of a proper crossing, only its existence).                                  *)
EXTENDS SegmentOrder, Verdicts

VARIABLES c, l, bad
Init == c \in DOMAIN Cases /\ l = 0 /\ bad = ""

Norm(s) == Seg(<<s[1], s[2]>>, <<s[3], s[4]>>)
Set(q) == {q[i] : i \in DOMAIN q}
Bit(x) == IF x THEN 1 ELSE 0

Compare(C) ==
    LET a == Norm(C.a)  b == Norm(C.b)
        p == <<C.a[1], C.a[2]>>  q == <<C.b[1], C.b[2]>>
    IN  IF C.conv # <<<<a[1], a[2], a[2]>>, <<b[1], b[2], b[2]>>>> THEN "wrong-conversion"
        ELSE IF C.isl # <<Bit(~IsPoint(a)), Bit(~IsPoint(b))>> THEN "wrong-variant"
        ELSE IF C.ab \notin Cmp(a, b) THEN "wrong-order"
        ELSE IF C.ba \notin Cmp(b, a) THEN "wrong-order"
        ELSE IF Cmp(a, b) # {"lt", "eq", "gt", "none"} /\ C.ab # Flip(C.ba) THEN "not-antisymmetric"
        ELSE IF C.eq # <<Bit(C.ab = "eq"), Bit(C.ba = "eq")>> THEN "wrong-equality"
        ELSE IF C.pp # PointCmp(p, q) \/ C.pc # PointCmp(p, q) \/ C.pe # Bit(p = q) THEN "wrong-point-order"
        ELSE ""

(* the answer is a sequence of the one or two extreme points, in sweep order   *)
Result(M) == IF Cardinality(M) = 2 THEN <<MinPt(M), MaxPt(M)>>
             ELSE IF M = {} THEN <<>> ELSE <<MinPt(M)>>
Intersect(C) ==
    LET a == Norm(C.a)  b == Norm(C.b) IN
    IF IsPoint(b) THEN (IF C.x = <<"panic">> /\ C.xo = <<"panic">> THEN "" ELSE "accepted-point")
    ELSE LET r == Result(Meet(a, b)) IN
         IF What = "meets" /\ ProperlyCross(a, b)
         THEN IF Len(C.x) # 1 \/ Len(C.xo) # 1 THEN "wrong-intersection" ELSE ""
         ELSE IF C.x # r THEN "wrong-intersection" ELSE IF C.xo # r THEN "wrong-ordered-intersection"
         ELSE IF C.ge # 1 THEN "crossing-before-start" ELSE ""

Check == /\ l = 0 /\ l' = 1
         /\ \E C \in {Cases[c]} :
            \E w \in {IF C.st # "ok" THEN C.st ELSE IF What = "cmp" THEN Compare(C) ELSE Intersect(C)} :
                /\ bad' = w
                /\ Closed(C.id, l, w)
         /\ UNCHANGED c
Next == Check
Spec == Init /\ [][Next]_<<c, l, bad>>
=============================================================================
