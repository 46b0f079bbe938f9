------------------------------ MODULE Geometry ------------------------------
(* Exact planar geometry on an integer lattice.  Points are <<x, y>>, segments *)
(* are <<p, q>> with p <= q in the lexicographic sweep order (p = q: a point). *)
(* All inputs are chosen so that every vertex of the arrangement is a lattice  *)
(* point and every product below stays inside TLC's 32-bit integers.           *)
EXTENDS Integers, Sequences, FiniteSets

Lt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Le(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
MinPt(S) == CHOOSE p \in S : \A q \in S : Le(p, q)
MaxPt(S) == CHOOSE p \in S : \A q \in S : Le(q, p)

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x

(* twice the signed area of abc; > 0 iff a, b, c turn counter-clockwise *)
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Orient(a, b, c) == Sgn(Cross(a, b, c))

(* Two scales.  In nearly degenerate inputs the number 1024 c + d stands for   *)
(* the coordinate c B + d, where B exceeds every combination of the c and d    *)
(* below.  Order and differences are those of the numbers themselves; the sign *)
(* of a determinant is the sign of its first coefficient of B^2, B, 1 that is  *)
(* not zero.  A configuration that replaces Cross by CrossEps interprets a     *)
(* specification over such coordinates.                                        *)
Coarse(x) == (x + 512) \div 1024
Fine(x) == x - 1024 * Coarse(x)
CrossEps(a, b, c) ==
    LET ux == b[1] - a[1]  uy == b[2] - a[2]  vx == c[1] - a[1]  vy == c[2] - a[2]
        two == Coarse(ux) * Coarse(vy) - Coarse(uy) * Coarse(vx)
        one == Coarse(ux) * Fine(vy) + Fine(ux) * Coarse(vy) - Coarse(uy) * Fine(vx) - Fine(uy) * Coarse(vx)
        nil == Fine(ux) * Fine(vy) - Fine(uy) * Fine(vx)
    IN  IF two # 0 THEN Sgn(two) ELSE IF one # 0 THEN Sgn(one) ELSE Sgn(nil)
(* where a crossing cannot be computed, only that there is one is specified    *)
SomePoint(s, t) == s[1]

Seg(a, b) == IF Le(a, b) THEN <<a, b>> ELSE <<b, a>>
IsPoint(s) == s[1] = s[2]

OnSeg(p, s) == Le(s[1], p) /\ Le(p, s[2]) /\ Cross(s[1], s[2], p) = 0
Interior(p, s) == OnSeg(p, s) /\ p # s[1] /\ p # s[2]

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

(* the two segments cross at a point interior to both *)
ProperlyCross(s, t) ==
    /\ Orient(s[1], s[2], t[1]) * Orient(s[1], s[2], t[2]) = -1
    /\ Orient(t[1], t[2], s[1]) * Orient(t[1], t[2], s[2]) = -1

CrossPoint(s, t) ==
    LET dx1 == s[2][1] - s[1][1]   dy1 == s[2][2] - s[1][2]
        dx2 == t[2][1] - t[1][1]   dy2 == t[2][2] - t[1][2]
        den == dx1 * dy2 - dy1 * dx2
        num == (t[1][1] - s[1][1]) * dy2 - (t[1][2] - s[1][2]) * dx2
        g   == GCD(Abs(num), Abs(den))
        n   == (num \div g) * Sgn(den)
        d   == Abs(den) \div g
    IN  <<s[1][1] + (dx1 * n) \div d, s[1][2] + (dy1 * n) \div d>>

(* s \cap t described by its extreme points: {} , {p} or {lo, hi} *)
Meet(s, t) ==
    IF Lt(s[2], t[1]) \/ Lt(t[2], s[1]) THEN {}
    ELSE LET ss == Orient(s[1], s[2], t[1]) * Orient(s[1], s[2], t[2])
             tt == Orient(t[1], t[2], s[1]) * Orient(t[1], t[2], s[2])
         IN  IF ss = 1 \/ tt = 1 THEN {}                      \* one lies beside the other
             ELSE IF ss = -1 /\ tt = -1 THEN {CrossPoint(s, t)}
             ELSE {p \in {s[1], s[2], t[1], t[2]} : OnSeg(p, s) /\ OnSeg(p, t)}

Overlap(s, t) == Cardinality(Meet(s, t)) = 2

(* vertices of the arrangement of the sequence of segments L *)
Vertices(L) ==
    UNION {{L[i][1], L[i][2]} : i \in DOMAIN L}
    \cup UNION {UNION {Meet(L[i], L[j]) : j \in (i + 1) .. Len(L)} : i \in DOMAIN L}
=============================================================================
