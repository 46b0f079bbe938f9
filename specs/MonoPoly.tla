------------------------------ MODULE MonoPoly ------------------------------
(* The monotone polygon value: what the constructor accepts and what the       *)
(* views and conversions of an accepted value are.                             *)
EXTENDS Geometry

Last(q) == q[Len(q)]
Increasing(ch) == \A k \in 1 .. Len(ch) - 1 : Lt(ch[k], ch[k + 1])
Accepts(T, B) ==
    /\ Len(T) > 0 /\ Len(B) > 0
    /\ T[1] = B[1] /\ Last(T) = Last(B) /\ T[1] # Last(T)
    /\ Increasing(T) /\ Increasing(B)

Ys(q) == {q[i][2] : i \in DOMAIN q}
Box(T, B) ==
    LET Y == Ys(T) \cup Ys(B) IN
    <<T[1][1], CHOOSE y \in Y : \A z \in Y : y <= z, Last(T)[1], CHOOSE y \in Y : \A z \in Y : z <= y>>

Reverse(q) == [k \in 1 .. Len(q) |-> q[Len(q) + 1 - k]]
Outline(T, B) == T \o SubSeq(Reverse(B), 2, Len(B))
(* the closed ring r walks the outline, whatever its start and sense           *)
Rotations(q) == {SubSeq(q, k, Len(q)) \o SubSeq(q, 1, k - 1) : k \in DOMAIN q}
SameRing(r, o) ==
    /\ Len(r) = Len(o) /\ r[1] = Last(r)
    /\ LET f(q) == SubSeq(q, 1, Len(q) - 1) IN
       f(r) \in Rotations(f(o)) \cup Rotations(Reverse(f(o)))
=============================================================================
