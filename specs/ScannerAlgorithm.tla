-------------------------- MODULE ScannerAlgorithm ---------------------------
(* The scan-line walker as it is designed: the position shown on either chain, *)
(* and in either chain the edge it stands on.  A step goes to the nearer of    *)
(* the two edges' right ends, or to where the caller wants to get, and yields  *)
(* the trapezoid in between if it has a width.  Checked to refine Scanner for  *)
(* all monotone polygons on a grid and all sequences of steps, and that every  *)
(* trapezoid, turned on its side as for raster coverage, is again a monotone   *)
(* polygon.                                                                    *)
EXTENDS Scanner, MonoPoly

CONSTANTS W, H,    \* the grid
          Flaw     \* "" or a step of the design left out, to see that it is needed

VARIABLES cur,     \* the position shown: [x, top, bot]
          ti, bi,  \* the edges the walker stands on start at these vertices
          err
vars == <<top, bot, cx, cur, ti, bi, err>>

(* x at every second, y at every twelfth lattice position: whole numbers then  *)
(* also half way between grid lines                                            *)
Grid == {<<2 * i, 12 * j>> : i \in 0 .. W, j \in 0 .. H}
RECURSIVE Sorted(_)
Sorted(P) == IF P = {} THEN <<>> ELSE LET m == MinPt(P) IN <<m>> \o Sorted(P \ {m})
Chains(f, l) == {<<f>> \o Sorted(P) \o <<l>> : P \in SUBSET {p \in Grid : Lt(f, p) /\ Lt(p, l)}}
(* all of P strictly on side s of chain ch                                     *)
OnSide(P, ch, s) ==
    \A p \in P : \E k \in 1 .. Len(ch) - 1 :
        Lt(ch[k], p) /\ Lt(p, ch[k + 1]) /\ s * Orient(ch[k], ch[k + 1], p) > 0
Inner(ch) == {ch[k] : k \in 2 .. Len(ch) - 1}
Valid(T, B) == /\ T # B
               /\ OnSide(Inner(T), B, 1) /\ OnSide(Inner(B), T, -1)
               /\ T[1][1] < T[Len(T)][1]

Init == /\ \E f \in Grid : \E l \in Grid :
              /\ Lt(f, l)
              /\ top \in Chains(f, l)
              /\ bot \in Chains(f, l)
        /\ Valid(top, bot)
        /\ cx = top[1][1]
        /\ cur = [x |-> top[1][1], top |-> top[1][2], bot |-> bot[1][2]]
        /\ ti = 1 /\ bi = 1 /\ err = ""

Between(p, q, x) == IF p[1] = q[1] THEN q[2] ELSE At(p, q, x)

(* where to go next: [x, top, bot] and which chains move on                    *)
Peek(u) ==
    LET moreT == ti < Len(top)  moreB == bi < Len(bot)
        nt == top[ti + 1]  nb == bot[bi + 1]
        go(x, t, b, m) == [x |-> x, top |-> t, bot |-> b, move |-> m]
    IN  IF ~moreT /\ ~moreB THEN {}
        ELSE IF ~moreT THEN {go(cur.x, top[ti][2], nb[2], {"b"})}
        ELSE IF ~moreB THEN {go(cur.x, nt[2], bot[bi][2], {"t"})}
        ELSE LET x == IF (Flaw = "farther") # (nt[1] < nb[1]) THEN nt[1] ELSE nb[1] IN
             IF u < x /\ Flaw # "overshoot"
             THEN {go(u, Between(top[ti], nt, u), Between(bot[bi], nb, u), {})}
             ELSE IF nt[1] < nb[1] THEN {go(nt[1], nt[2], Between(bot[bi], nb, nt[1]),
                                          IF Flaw = "both-move" THEN {"t", "b"} ELSE {"t"})}
             ELSE IF nt[1] > nb[1] THEN {go(nb[1], Between(top[ti], nt, nb[1]), nb[2], {"b"})}
             ELSE {go(nt[1], nt[2], nb[2], {"t", "b"})}

(* a trapezoid on its side: x and y exchanged, walked upwards                  *)
Flat(z) ==
    LET lx == z[1]  lt == z[2]  lb == z[3]  rx == z[4]  rt == z[5]  rb == z[6]
        opt(c, p) == IF c THEN <<p>> ELSE <<>>
        up == lb <= rb
        t1 == IF up THEN <<<<lb, lx>>, <<rb, rx>>>> \o opt(rt > rb, <<rt, rx>>)
                    ELSE <<<<rb, rx>>>> \o opt(rt > rb, <<rt, rx>>)
        b1 == IF up THEN <<<<lb, lx>>>> \o opt(lt > lb, <<lt, lx>>)
                    ELSE <<<<rb, rx>>, <<lb, lx>>>> \o opt(lt > lb, <<lt, lx>>)
    IN  IF (Flaw = "upright") # (lt <= rt) THEN <<t1, Append(b1, <<rt, rx>>)>>
                                           ELSE <<Append(t1, <<lt, lx>>), b1>>
Area2(z) == (z[4] - z[1]) * (z[2] - z[3] + z[5] - z[6])
RECURSIVE Shoelace(_)
Shoelace(r) == IF Len(r) < 2 THEN 0 ELSE r[1][1] * r[2][2] - r[2][1] * r[1][2] + Shoelace(Tail(r))
FlatOK(z) ==
    LET f == Flat(z) IN
    /\ Accepts(f[1], f[2])
    /\ Shoelace(Reverse(Outline(f[1], f[2]))) = Area2(z)
    /\ \A k \in 2 .. Len(f[2]) - 1 : \E j \in 1 .. Len(f[1]) - 1 :
            Le(f[1][j], f[2][k]) /\ Le(f[2][k], f[1][j + 1]) /\ Orient(f[1][j], f[1][j + 1], f[2][k]) <= 0

(* one step towards u                                                          *)
Step(u) ==
    /\ err = "" /\ cur.x < u
    /\ LET N == Peek(u) IN
       IF N = {}
       THEN /\ err' = IF Exhausted(u) THEN "" ELSE "stops-early"
            /\ UNCHANGED <<top, bot, cx, cur, ti, bi>>
       ELSE LET n == CHOOSE n \in N : TRUE
                z == <<cur.x, cur.top, cur.bot, n.x, n.top, n.bot>>
            IN  /\ cur' = [x |-> n.x, top |-> n.top, bot |-> n.bot]
                /\ ti' = ti + (IF "t" \in n.move THEN 1 ELSE 0)
                /\ bi' = bi + (IF "b" \in n.move THEN 1 ELSE 0)
                /\ cx' = IF cur.x < n.x THEN n.x ELSE cx
                /\ err' = IF n.x < cur.x THEN "goes-back"
                          ELSE IF n.x = cur.x /\ n.move = {} THEN "stands-still"
                          ELSE IF cur.x < n.x /\ ~TrapezoidOK(u, z) THEN "wrong-trapezoid"
                          ELSE IF cur.x < n.x /\ ~FlatOK(z) THEN "wrong-flat"
                          ELSE ""
                /\ UNCHANGED <<top, bot>>
Next == \E u \in 0 .. 2 * W + 1 : Step(u)
Spec == Init /\ [][Next]_vars

Sound == err = ""
(* what the walker shows is its position                                       *)
PositionRefines == Shows(<<cur.x, cur.top, cur.bot>>)
(* it stands on the edges over its position                                    *)
OnEdges == /\ top[ti][1] <= cur.x /\ (ti < Len(top) => cur.x <= top[ti + 1][1])
           /\ bot[bi][1] <= cur.x /\ (bi < Len(bot) => cur.x <= bot[bi + 1][1])
Upright == cur.bot <= cur.top
=============================================================================
