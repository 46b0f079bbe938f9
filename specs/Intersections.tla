---------------------------- MODULE Intersections ---------------------------
(* The iterator over intersecting pairs.  State: the pairs reported so far.    *)
(* What follows is the guarantee the current code keeps; Strict is the one its *)
(* documentation states (see KNOWN_FINDINGS.txt for where they differ).      *)
EXTENDS Geometry

CONSTANT Strict

VARIABLES inp,     \* the input: sequence of normalised segments
          verts,   \* vertices of their arrangement
          seen     \* unordered pairs already reported

ivars == <<inp, verts, seen>>

LoadInput(L) == inp' = L /\ verts' = Vertices(L) /\ seen' = {}

Pairs == UNION {{{i, j} : j \in (i + 1) .. Len(inp)} : i \in DOMAIN inp}
MeetOf(S) == LET i == CHOOSE i \in S : TRUE  j == CHOOSE j \in S : j # i IN Meet(inp[i], inp[j])

(* A report <<i, j, kind, px, py, qx, qy, proper>>; kind 0: a point, 1: overlap *)
Proper(i, j, p) == ~IsPoint(inp[i]) /\ ~IsPoint(inp[j])
                   /\ p \notin {inp[i][1], inp[i][2], inp[j][1], inp[j][2]}
GeometryOK(r) ==
    LET M == Meet(inp[r[1]], inp[r[2]])
        P == {<<r[4], r[5]>>, <<r[6], r[7]>>}
    IN  /\ P = M
        \* a degenerate input may be answered as an overlap of length zero
        /\ \/ r[3] = (IF Cardinality(M) = 2 THEN 1 ELSE 0)
           \/ r[3] = 1 /\ (IsPoint(inp[r[1]]) \/ IsPoint(inp[r[2]]))
        /\ r[3] = 0 => ((r[8] = 1) <=> Proper(r[1], r[2], <<r[4], r[5]>>))

Whole(i) == \A v \in verts : ~Interior(v, inp[i])
(* pairs that have to be reported exactly once                                 *)
Plain(S) ==
    LET M == MeetOf(S) IN
    IF Strict THEN M # {}
    ELSE Cardinality(M) = 1 /\ \A i \in S : inp[i][1] \notin M \/ IsPoint(inp[i]) \/ Whole(i)
(* pairs that have to be reported at least once: an overlap that begins at the *)
(* left end of one input, in the interior of the other                         *)
Nested(S) ==
    LET M == MeetOf(S) IN
    Cardinality(M) = 2 /\ \E i \in S :
        inp[i][1] = MinPt(M) /\ Whole(i) /\ \A j \in S \ {i} : inp[j][1] # MinPt(M)

ReportOK(r) ==
    /\ r[1] # r[2] /\ {r[1], r[2]} \subseteq DOMAIN inp
    /\ GeometryOK(r)
    /\ ({r[1], r[2]} \in seen => ~Plain({r[1], r[2]}))
Report(r) == seen' = seen \cup {{r[1], r[2]}} /\ UNCHANGED <<inp, verts>>

Missing == {S \in Pairs : S \notin seen /\ (Plain(S) \/ Nested(S))}
========================================
