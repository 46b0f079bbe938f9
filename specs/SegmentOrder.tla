---------------------------- MODULE SegmentOrder ----------------------------
(* The order the plane sweeps rely on: points lexicographically, and segments  *)
(* by height where the sweep line meets both of them.                          *)
EXTENDS Geometry

PointCmp(p, q) == IF p = q THEN "eq" ELSE IF Lt(p, q) THEN "lt" ELSE "gt"
Flip(o) == CASE o = "lt" -> "gt" [] o = "gt" -> "lt" [] OTHER -> o
SideCmp(s) == CASE s > 0 -> "lt" [] s < 0 -> "gt" [] OTHER -> "eq"

(* both segments are met by the sweep line at some common position             *)
Comparable(s, t) == Lt(s[1], t[2]) /\ Lt(t[1], s[2]) /\ ~IsPoint(s) /\ ~IsPoint(t)

(* height at the later of the two left ends, just beyond it if they meet there *)
LineCmp(s, t) ==
    IF Lt(t[1], s[1])
    THEN LET o == Orient(t[1], t[2], s[1]) IN Flip(SideCmp(IF o # 0 THEN o ELSE Orient(t[1], t[2], s[2])))
    ELSE LET o == Orient(s[1], s[2], t[1]) IN SideCmp(IF o # 0 THEN o ELSE Orient(s[1], s[2], t[2]))

(* the acceptable answers of comparing geometry s with geometry t              *)
Cmp(s, t) ==
    IF IsPoint(s) /\ IsPoint(t) THEN (IF s = t THEN {"eq"} ELSE {"none"})
    ELSE IF IsPoint(t)
    THEN IF Lt(t[1], s[1]) \/ Lt(s[2], t[1]) THEN {"none"}
         ELSE LET o == Orient(s[1], s[2], t[1]) IN
              IF o = 0 THEN {"lt", "gt"} ELSE {SideCmp(o)}
    ELSE IF IsPoint(s)
    THEN IF Lt(s[1], t[1]) \/ Lt(t[2], s[1]) THEN {"none"}
         ELSE LET o == Orient(t[1], t[2], s[1]) IN
              IF o = 0 THEN {"lt", "gt"} ELSE {Flip(SideCmp(o))}
    ELSE IF Comparable(s, t) THEN {LineCmp(s, t)}
    ELSE {"lt", "eq", "gt", "none"}      \* outside the stated conditions

(* ---- why a sorted sequence of active segments makes sense ----------------- *)
(* pairwise comparable, non-crossing segments over a common sweep position are *)
(* totally preordered (SegmentOrderLaws)                                       *)
PreorderOn(r, s, t) ==
    LET c(a, b) == LineCmp(a, b)
        le(a, b) == c(a, b) \in {"lt", "eq"}
    IN  /\ c(r, s) = Flip(c(s, r))
        /\ (le(r, s) /\ le(s, t)) => le(r, t)
        /\ (c(r, s) = "eq" /\ c(s, t) = "eq") => c(r, t) = "eq"
=============================================================================
