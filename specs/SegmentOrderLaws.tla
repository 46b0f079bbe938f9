--------------------------- MODULE SegmentOrderLaws --------------------------
(* Why a plane sweep may keep its segments in a search tree ordered by         *)
(* SegmentOrder!LineCmp: for segments that are all met by one sweep position   *)
(* and do not cross, it is a total preorder; it is the order of their heights  *)
(* wherever the sweep line meets both, so it never has to change while they    *)
(* are active; and segments it calls equal are those that lie on one line.     *)
(* Checked for all triples of segments of a grid.                              *)
EXTENDS SegmentOrder

CONSTANTS W, H,    \* the grid
          Flaw     \* "" or a condition of the laws left out, to see that it is needed

VARIABLES r, s, t
vars == <<r, s, t>>

Grid == {<<i, j>> : i \in 0 .. W, j \in 0 .. H}
Segs == {<<p, q>> \in Grid \X Grid : Lt(p, q)}

(* may be active together: some position meets both, and they do not cross     *)
Collinear(a, b) == Orient(a[1], a[2], b[1]) = 0 /\ Orient(a[1], a[2], b[2]) = 0
Apart(a, b) == Flaw = "crossing" \/ ~ProperlyCross(a, b)
Met(a, b) == Flaw = "unmet" \/ Comparable(a, b)
Common(S) == Lt(MaxPt({a[1] : a \in S}), MinPt({a[2] : a \in S}))

(* one by one, so that TLC enumerates on all its cores                          *)
Start == <<<<0, 0>>, <<0, 0>>>>
Init == r \in Segs /\ s = Start /\ t = Start
Second == /\ s = Start
          /\ s' \in {x \in Segs : Met(r, x) /\ Apart(r, x)}
          /\ UNCHANGED <<r, t>>
Third == /\ s # Start /\ t = Start
         /\ t' \in {x \in Segs : /\ Met(r, x) /\ Met(s, x)
                                 /\ Apart(r, x) /\ Apart(s, x)}
         /\ UNCHANGED <<r, s>>
Next == Second \/ Third
Spec == Init /\ [][Next]_vars

Two == s # Start
Three == t # Start
Antisymmetric == Two => LineCmp(r, s) = Flip(LineCmp(s, r))
(* at every end point over which both lie, the order is that of the heights    *)
OrderOfHeights == Two =>
    LET at(a, p) == SideCmp(Orient(a[1], a[2], p)) IN
    /\ \A p \in {s[1], s[2]} : (Le(r[1], p) /\ Le(p, r[2])) => at(r, p) \in {LineCmp(r, s), "eq"}
    /\ \A p \in {r[1], r[2]} : (Le(s[1], p) /\ Le(p, s[2])) => at(s, p) \in {LineCmp(s, r), "eq"}
EqualIsCollinear == Two => (LineCmp(r, s) = "eq" <=> Collinear(r, s))
(* comparing the left end of a segment with the others finds its place         *)
StartFindsPlace == Two => \A a \in {<<r, s>>, <<s, r>>} :
    LET p == <<a[1][1], a[1][1]>> IN
    (Lt(a[2][1], p[1]) /\ Lt(p[1], a[2][2])) => \E o \in Cmp(p, a[2]) : o = LineCmp(a[1], a[2]) \/ Orient(a[2][1], a[2][2], p[1]) = 0
(* met two by two, they are all met by one position                            *)
OnePosition == Three => Common({r, s, t})
Preorder == Three => PreorderOn(r, s, t)
=============================================================================
