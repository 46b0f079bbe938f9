------------------------------- MODULE Scanner ------------------------------
(* The scan-line walker over an x-monotone polygon.  Its only memory is the    *)
(* position cx it has reached; advancing it yields trapezoids which together   *)
(* cover exactly the part of the polygon between the old and the new position. *)
EXTENDS Geometry

VARIABLES top, bot,   \* the two chains
          cx          \* position reached

svars == <<top, bot, cx>>

XMin == top[1][1]
XMax == top[Len(top)][1]
VX == {top[i][1] : i \in DOMAIN top} \cup {bot[i][1] : i \in DOMAIN bot}

At(a, b, x) == a[2] + ((b[2] - a[2]) * (x - a[1])) \div (b[1] - a[1])
(* height of chain ch just right / just left of x *)
RightOf(ch, x) ==
    LET k == CHOOSE k \in 1 .. Len(ch) - 1 : ch[k][1] <= x /\ x < ch[k + 1][1]
    IN  At(ch[k], ch[k + 1], x)
LeftOf(ch, x) ==
    LET k == CHOOSE k \in 1 .. Len(ch) - 1 : ch[k][1] < x /\ x <= ch[k + 1][1]
    IN  At(ch[k], ch[k + 1], x)

Open(T, B) == /\ top' = T /\ bot' = B /\ cx' = T[1][1]

Clip(x) == IF x < XMin THEN XMin ELSE IF x > XMax THEN XMax ELSE x
Later(a, b) == IF a < b THEN b ELSE a

(* a trapezoid [x0, t0, b0, x1, t1, b1] *)
Straight(ch, x0, z0, x1, z1) ==
    /\ z0 = RightOf(ch, x0) /\ z1 = LeftOf(ch, x1)
    /\ \A v \in VX : x0 < v /\ v < x1 =>
          /\ Cross(<<x0, z0>>, <<x1, z1>>, <<v, LeftOf(ch, v)>>) = 0
          /\ LeftOf(ch, v) = RightOf(ch, v)
TrapezoidOK(u, z) ==
    /\ z[1] = cx /\ cx < z[4] /\ z[4] <= Clip(u)
    /\ Straight(top, z[1], z[2], z[4], z[5])
    /\ Straight(bot, z[1], z[3], z[4], z[6])
Trapezoid(u, z) == TrapezoidOK(u, z) /\ cx' = z[4] /\ UNCHANGED <<top, bot>>

(* the walker has nothing more to yield up to u *)
Exhausted(u) == cx >= Clip(u)

(* skip without looking *)
Skip(u) == cx' = Later(cx, Clip(u)) /\ UNCHANGED <<top, bot>>

(* the position the walker shows: on a vertical part of a chain any height of  *)
(* that part may be shown                                                      *)
ShowsOn(ch, x, y) ==
    LET H == {ch[i][2] : i \in {i \in DOMAIN ch : ch[i][1] = x}} IN
    IF H = {} THEN y = RightOf(ch, x)
    ELSE (\E h \in H : h <= y) /\ (\E h \in H : y <= h)
Shows(cur) == cur[1] = cx /\ ShowsOn(top, cx, cur[2]) /\ ShowsOn(bot, cx, cur[3])

(* ---- what a strip of the polygon looks like ------------------------------- *)
(* Consecutive elements of the set of cuts of (cx, u)                          *)
Strips(u) ==
    LET e == Clip(u)
        S == IF cx >= e THEN {} ELSE {cx, e} \cup {v \in VX : cx < v /\ v < e}
        Nx(a) == CHOOSE b \in S : b > a /\ \A d \in S : d > a => b <= d
    IN  {<<a, Nx(a)>> : a \in IF S = {} THEN {} ELSE S \ {e}}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Heights(ch, P) == {RightOf(ch, s[1]) : s \in P} \cup {LeftOf(ch, s[2]) : s \in P}

RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumOver(f, S \ {x})

(* twice the integral of max(z, 0) for z running from za to zb over a width w  *)
Pos2(w, za, zb) ==
    IF za >= 0 /\ zb >= 0 THEN w * (za + zb)
    ELSE IF za <= 0 /\ zb <= 0 THEN 0
    ELSE IF zb > 0 THEN zb * ((w * zb) \div (zb - za))
    ELSE za * ((w * za) \div (za - zb))
(* twice the area of the part of strip s with lo <= y <= hi *)
StripArea2(s, lo, hi) ==
    LET w == s[2] - s[1]
        ta == RightOf(top, s[1])  tb == LeftOf(top, s[2])
        ba == RightOf(bot, s[1])  bb == LeftOf(bot, s[2])
    IN  Pos2(w, ta - lo, tb - lo) - Pos2(w, ta - hi, tb - hi)
        - Pos2(w, ba - lo, bb - lo) + Pos2(w, ba - hi, bb - hi)
CellArea2(u, lo, hi) == LET f(s) == StripArea2(s, lo, hi) IN SumOver(f, Strips(u))
=============================================================================
