---------------------------- MODULE ScannerTrace ----------------------------
(* Validates recorded scan-line histories (one step per trapezoid) and raster  *)
(* queries (one step per strip) against Scanner.                               *)
(* GX_WHAT: "hist", "area", "bounds" or "ubounds".                             *)
EXTENDS Scanner, Verdicts

VARIABLES c, l, m, bad,
          acc     \* accumulated doubled area per row
tvars == <<svars, c, l, m, bad, acc>>

Init == /\ c \in DOMAIN Cases /\ l = 0 /\ m = 0 /\ bad = ""
        /\ top = <<>> /\ bot = <<>> /\ cx = 0 /\ acc = <<>>

C == Cases[c]
Load == /\ l = 0 /\ l' = 1 /\ m' = 1
        /\ top' = C.top /\ bot' = C.bot
        /\ LET a == C.top[1][1]  b == C.top[Len(C.top)][1] IN
           IF What = "hist" THEN cx' = a /\ acc' = <<>>
           ELSE /\ cx' = IF C.left < a THEN a ELSE IF C.left > b THEN b ELSE C.left
                /\ acc' = <<>>
        /\ UNCHANGED <<c, bad>>

Verdict(x) == \E w \in {x} : bad' = w /\ Judged(C.id, l, w)
A == C.acts
Live == l > 0 /\ bad = "" /\ l <= Len(A) + 1

Fin == /\ Live /\ l = Len(A) + 1
       /\ bad' = (IF C.st = "ok" THEN "" ELSE C.st) /\ Closed(C.id, l, bad')
       /\ l' = l + 1 /\ UNCHANGED <<svars, c, m, acc>>

Hist ==
    /\ What = "hist" /\ Live /\ l <= Len(A)
    /\ LET a == A[l] IN
       IF a.k = "scan_lines"
       THEN /\ Skip(a.u) /\ m' = 0 /\ l' = l /\ Verdict("")
            /\ m = 1
       ELSE FALSE
    /\ UNCHANGED <<c, acc>>
(* after a skip the shown position is checked in a step of its own *)
Hist0 ==
    /\ What = "hist" /\ Live /\ l <= Len(A) /\ m = 0
    /\ Verdict(IF Shows(A[l].cur) THEN "" ELSE "wrong-position")
    /\ m' = 1 /\ l' = l + 1 /\ UNCHANGED <<svars, c, acc>>
HistT ==
    /\ What = "hist" /\ Live /\ l <= Len(A) /\ m > 0 /\ A[l].k # "scan_lines"
    /\ LET a == A[l] IN
       IF m <= Len(a.tz)
       THEN /\ IF TRUE = TrapezoidOK(a.u, a.tz[m]) THEN Verdict("") /\ Trapezoid(a.u, a.tz[m])
               ELSE Verdict("wrong-trapezoid") /\ UNCHANGED svars
            /\ m' = m + 1 /\ l' = l
       ELSE /\ Verdict(IF a.end = 1 /\ ~Exhausted(a.u) THEN "stopped-early"
                       ELSE IF ~Shows(a.cur) THEN "wrong-position" ELSE "")
            /\ m' = 1 /\ l' = l + 1 /\ UNCHANGED svars
    /\ UNCHANGED <<c, acc>>

(* An act of a raster history: a query, about the raster w = <<lowest, highest,  *)
(* number of rows>>, or a plain move.  i: the rows' contents, if the raster is   *)
(* new.  Acts of other kinds than GX_WHAT only move the walker.                  *)
Min2(a, b) == IF a < b THEN a ELSE b
Row(a) == (a.w[2] - a.w[1]) \div a.w[3]
Lo(a, j) == a.w[1] + (j - 1) * Row(a)
Old(a) == IF a.i = <<>> THEN acc ELSE a.i

Area ==
    /\ What = "area" /\ Live /\ l <= Len(A) /\ A[l].q = "area"
    /\ \E a \in {A[l]} :
       \E new \in {[j \in 1 .. a.w[3] |-> Old(a)[j] + CellArea2(a.u, Lo(a, j), Lo(a, j) + Row(a))]} :
           /\ acc' = new
           /\ Verdict(IF a.a = new THEN "" ELSE "wrong-area")
           /\ Skip(a.u)
    /\ l' = l + 1 /\ UNCHANGED <<c, m>>

InRow(a, j, y) == 0 <= j /\ j < a.w[3] /\ Lo(a, j + 1) <= y /\ y <= Lo(a, j + 1) + Row(a)
BoundsWhy(a) ==
       LET P == Strips(a.u)
           TH == Heights(top, P)  BH == Heights(bot, P)
           cmin == a.w[1]  cmax == a.w[2]  h == a.w[3]
           none == P = {} \/ Max(TH) <= cmin \/ Min(BH) >= cmax
           \* touching the raster's border from outside: under rounding either answer
           maybe == /\ C.rnd = 1 /\ P # {}
                    /\ (Max(TH) = cmin \/ Min(BH) = cmax)
           lo == Later(Min(BH), cmin)
           hi == Min2(Max(TH), cmax)
           b == a.b
       IN  IF none /\ maybe /\ b \notin {<<>>, <<h, 0>>}
                THEN (IF b[1] \in {0, h - 1} /\ b[2] = b[1] THEN "" ELSE "phantom-rows")
                ELSE IF none THEN (IF b = (IF What = "bounds" THEN <<>> ELSE <<h, 0>>) THEN "" ELSE "phantom-rows")
                ELSE IF b = <<>> THEN "missed-rows"
                ELSE IF ~InRow(a, b[1], lo) \/ ~InRow(a, b[2], hi) THEN "wrong-rows"
                ELSE IF What = "bounds" /\ (b[3] # Max(BH) \/ b[4] # Min(TH)) THEN "wrong-extremes"
                ELSE ""
Bounds ==
    /\ What \in {"bounds", "ubounds"} /\ Live /\ l <= Len(A) /\ A[l].q = What
    /\ Verdict(BoundsWhy(A[l]))
    /\ Skip(A[l].u)
    /\ acc' = acc
    /\ l' = l + 1 /\ UNCHANGED <<c, m>>
(* an act that is not judged here *)
Other ==
    /\ What # "hist" /\ Live /\ l <= Len(A) /\ A[l].q # What
    /\ \E a \in {A[l]} :
       /\ IF a.q = "move"
          THEN /\ cx' = a.x /\ UNCHANGED <<top, bot>>
               /\ Verdict(IF cx <= a.x /\ a.x <= Later(cx, Clip(a.u)) THEN "" ELSE "wrong-position")
          ELSE Skip(a.u) /\ Verdict("")
       /\ acc' = IF a.q = "area" THEN a.a ELSE Old(a)
    /\ l' = l + 1 /\ UNCHANGED <<c, m>>

Next == Load \/ Fin \/ Hist \/ Hist0 \/ HistT \/ Area \/ Bounds \/ Other
Spec == Init /\ [][Next]_tvars
=============================================================================
