------------------------- MODULE MonotoneAlgorithm --------------------------
(* Monotone decomposition as it is designed: a sweep over the vertices of the  *)
(* polygon keeps the edges it crosses, and for every edge with the polygon     *)
(* right below it a helper, the last vertex that saw it from below; every      *)
(* vertex yields links; the links grow, split and close pairs of chains.       *)
(* Checked to refine Monotone for all valid polygons that consist of faces of  *)
(* a grid, with and without their collinear vertices, and for either order in  *)
(* which the sort may leave the two equal events of a vertex.                  *)
EXTENDS GridRegions, Monotone

CONSTANTS Flaw     \* "" or a step of the design left out, to see that it is needed

VARIABLES faces, drop,     \* the input: faces, and whether collinear vertices are dropped
          rings,           \* the polygon
          look,            \* its vertices with what they see (Monotone!Looking)
          todo,            \* vertices still to be swept
          act,             \* crossed edge -> its helper
          chains,          \* sequence of [top, other, pts, done]
          got,             \* the links of the last vertex
          err
vars == <<faces, drop, rings, look, todo, act, chains, got, err>>

(* ---- polygons ------------------------------------------------------------------*)
Other(e, v) == IF e[1] = v THEN e[2] ELSE e[1]
RECURSIVE Trace(_, _, _, _)
Trace(E, from, v, start) ==
    IF v = start THEN <<v>>
    ELSE LET e == CHOOSE e \in E : (e[1] = v \/ e[2] = v) /\ Other(e, v) # from
         IN  <<v>> \o Trace(E, v, Other(e, v), start)
RECURSIVE TraceAll(_)
TraceAll(E) ==
    IF E = {} THEN <<>>
    ELSE LET s == MinPt(Ends(E))
             e == CHOOSE e \in E : e[1] = s
             r == <<s>> \o Trace(E, s, e[2], s)
         IN  <<r>> \o TraceAll(E \ {Seg(r[i], r[i + 1]) : i \in 1 .. Len(r) - 1})
TwoRegular(E) == \A v \in Ends(E) : Cardinality({e \in E : e[1] = v \/ e[2] = v}) = 2
(* is the region inside the ring that starts at the leftmost point s?          *)
Solid(s, E) == LET e == CHOOSE e \in E : e[1] = s /\ \A f \in E : (f[1] = s /\ f # e) => Orient(s, e[2], f[2]) > 0
               IN  UpSide(e, E)
Straight(r, i) == LET q == Open(r) IN Orient(RingAt(q, i + Len(q) - 1), q[i], RingAt(q, i + 1)) = 0
Dropped(r) ==
    LET keep == SelectSeq([i \in 1 .. Len(r) - 1 |-> i], LAMBDA i : ~Straight(r, i))
    IN  Append([i \in DOMAIN keep |-> r[keep[i]]], r[keep[1]])

(* ---- the sweep ------------------------------------------------------------------*)
Edge(p, q, interiorLeft) ==     \* as Monotone!Sides has them
    IF Lt(p, q) THEN [l |-> p, r |-> q, top |-> ~interiorLeft] ELSE [l |-> q, r |-> p, top |-> interiorLeft]
EdgesAt(v) == {Edge(v.prev, v.p, TRUE), Edge(v.p, v.next, TRUE)}
Opp(e, p) == IF e.l = p THEN e.r ELSE e.l
NoHelper == [p |-> <<0, 0>>, merge |-> FALSE]
Fresh(e) == [p |-> e.l, merge |-> FALSE]
LinkOf(k, p, side) == [k |-> k, p |-> p, side |-> side]

(* S: [act, links, err] *)
Bad(S, e) == IF S.err = "" THEN [S EXCEPT !.err = e] ELSE S
Remove(S, e, p) ==
    IF e.r # p THEN S
    ELSE IF e \notin DOMAIN S.act THEN Bad(S, "not-active")
    ELSE [S EXCEPT !.links = IF e.top /\ S.act[e].merge /\ Flaw # "forget-merge-at-end"
                             THEN Append(@, LinkOf("Merge", <<S.act[e].p, p>>, "")) ELSE @,
                   !.act = [f \in DOMAIN S.act \ {e} |-> S.act[f]]]
Insert(S, e, p) == IF e.l # p THEN S ELSE [S EXCEPT !.act = e :> Fresh(e) @@ @]

FixUp(S, p, top, bot, force, merge) ==
    LET U == {e \in DOMAIN S.act : Orient(e.l, e.r, p) <= 0}
        e == CHOOSE e \in U : \A f \in U \ {e} : LowerSide(e, f)
        h == S.act[e]
    IN  IF U = {} THEN Bad(S, "nothing-above")
        ELSE IF ~e.top THEN Bad(S, "outside")
        ELSE [S EXCEPT !.links = IF ~(h.merge \/ force) THEN @
                                 ELSE Append(@, LinkOf(IF h.merge THEN "Merge" ELSE "Split", <<h.p, p, top, bot>>, "")),
                       !.act[e] = [p |-> IF Flaw = "keep-helper" THEN h.p ELSE p,
                                   merge |-> merge \/ (Flaw = "keep-merge" /\ h.merge)]]

(* one vertex; e1 and e2 are its edges, e1 first *)
Vertex(S, x, e1, e2) ==
    LET p == x.v.p
        o1 == Opp(e1, p)  o2 == Opp(e2, p)
        up == IF e1.top THEN o2 ELSE o1      \* the two neighbours as the links of the vertex name them
        dn == IF e1.top THEN o1 ELSE o2
        S1 == Remove(Remove(S, e1, p), e2, p)
        ccw == Orient(o1, p, o2) > 0         \* o1, p, o2 turn left
        kind == IF e1.r = p /\ e2.r = p THEN (IF ccw # e1.top THEN "End" ELSE "Merge")
                ELSE IF e1.l = p /\ e2.l = p THEN (IF ccw = e1.top THEN "Start" ELSE "Split")
                ELSE "Continue"
        S2 == CASE kind = "Continue" ->
                     LET S3 == IF e1.top THEN S1 ELSE FixUp(S1, p, up, dn, FALSE, FALSE) IN
                     [S3 EXCEPT !.links = Append(@, LinkOf("Continue", <<MinPt({o1, o2}), p, MaxPt({o1, o2})>>,
                                                          IF e1.top THEN "below" ELSE "above"))]
                [] kind = "Split" -> FixUp(S1, p, up, dn, TRUE, FALSE)
                [] kind = "Merge" -> FixUp(S1, p, up, dn, FALSE, Flaw # "no-merge-mark")
                [] kind = "End" -> [S1 EXCEPT !.links = Append(@, LinkOf("End", <<dn, up, p>>, ""))]
                [] kind = "Start" -> [S1 EXCEPT !.links = Append(@, LinkOf("Start", <<p, dn, up>>, ""))]
        S4 == Insert(Insert(S2, e1, p), e2, p)
    IN  IF kind # x.kind THEN Bad(S4, "wrong-kind")
        ELSE IF kind = "Continue" /\ e1.top # e2.top THEN Bad(S4, "sides-differ") ELSE S4

(* ---- the chains ------------------------------------------------------------------*)
Chain2(top, other, pts) == [top |-> top, other |-> other, pts |-> pts, done |-> FALSE]
Next_(c) == c.pts[Len(c.pts)]
Curr(c) == c.pts[Len(c.pts) - 1]
Find(C, P(_)) == {i \in DOMAIN C : ~C[i].done /\ P(C[i])}
Advance(C, i, p) == [C EXCEPT ![i].pts = Append(@, p)]
Pop(C, i) == [C EXCEPT ![i].pts = SubSeq(@, 1, Len(@) - 1)]
Finish(C, i, j) == [C EXCEPT ![i].done = TRUE, ![j].done = TRUE]

(* T: [C, cur, err] *)
Grow(T, kind, m) ==
    LET C == T.C  n == Len(C) IN
    CASE m.k = "Start" ->
           [T EXCEPT !.C = @ \o <<Chain2(TRUE, n + 2, <<m.p[1], m.p[2]>>), Chain2(FALSE, n + 1, <<m.p[1], m.p[3]>>)>>]
      [] m.k = "Continue" ->
           LET F == Find(C, LAMBDA c : Next_(c) = m.p[2] /\ Curr(c) = m.p[1]) IN
           IF F = {} THEN Bad(T, "no-chain-to-continue")
           ELSE LET i == CHOOSE i \in F : \A j \in F : i <= j IN
                [T EXCEPT !.C = Advance(C, i, m.p[3]), !.cur = i]
      [] m.k = "Merge" ->
           LET F == Find(C, LAMBDA c : Next_(c) = m.p[1])
               longer(c) == IF kind = "Split" THEN c.pts \o <<m.p[2], IF c.top THEN m.p[4] ELSE m.p[3]>>
                            ELSE Append(c.pts, m.p[2])
           IN  IF Cardinality(F) # 2 THEN Bad(T, "merge-of-" \o ToString(Cardinality(F)))
               ELSE [T EXCEPT !.C = [i \in DOMAIN C |-> IF i \in F THEN [C[i] EXCEPT !.pts = longer(C[i])] ELSE C[i]]]
      [] m.k = "Split" ->
           LET F == Find(C, LAMBDA c : Curr(c) = m.p[1])
               low == CHOOSE i \in F : ~C[i].top
               high == CHOOSE i \in F : C[i].top
               i == IF Cardinality(F) = 1 THEN CHOOSE i \in F : TRUE
                    ELSE IF (Flaw = "split-either") # (Orient(m.p[2], m.p[1], Next_(C[low])) > 0) THEN low ELSE high
               c == C[i]
               next == Next_(c)
               mine == IF c.top THEN m.p[4] ELSE m.p[3]
               yours == IF c.top THEN m.p[3] ELSE m.p[4]
           IN  IF Cardinality(F) \notin {1, 2} \/ (Cardinality(F) = 2 /\ \A j, k \in F : C[j].top = C[k].top)
               THEN Bad(T, "split-of-" \o ToString(Cardinality(F)))
               ELSE [T EXCEPT !.C = [@ EXCEPT ![i].pts = SubSeq(c.pts, 1, Len(c.pts) - 1) \o <<m.p[2], mine>>]
                                    \o <<Chain2(c.top, n + 2, <<m.p[1], next>>),
                                         Chain2(~c.top, n + 1, <<m.p[1], m.p[2], yours>>)>>]
      [] m.k = "End" -> T

RECURSIVE GrowAll(_, _, _), CloseAll(_, _)
GrowAll(T, kind, ms) == IF ms = <<>> THEN T ELSE GrowAll(Grow(T, kind, Head(ms)), kind, Tail(ms))

CloseAll(C, looks) ==
    IF looks = <<>> THEN C
    ELSE LET i == Head(looks)  j == C[i].other IN
         CloseAll(IF ~C[i].done /\ Next_(C[i]) = Next_(C[j]) THEN Finish(C, i, j) ELSE C, Tail(looks))

Close(T, p) ==
    LET C == T.C
        looks == SelectSeq([i \in DOMAIN C |-> i], LAMBDA i : ~C[i].done /\ Next_(C[i]) = p)
    IN  IF looks = <<>> \/ T.err # "" THEN T
        ELSE IF Len(looks) % 2 # 0 THEN Bad(T, "odd-number-of-ends")
        ELSE IF T.cur = 0 THEN [T EXCEPT !.C = CloseAll(C, looks)]
        ELSE IF Len(looks) # 2 THEN Bad(T, "more-than-two-ends")
        ELSE IF T.cur \notin {C[looks[1]].other, C[looks[2]].other} THEN Bad(T, "no-end-of-the-current-pair")
        ELSE LET pair == IF C[looks[1]].other = T.cur THEN looks[1] ELSE looks[2]
                 oth == IF C[looks[1]].other = T.cur THEN looks[2] ELSE looks[1]
                 next == Next_(C[T.cur])
                 C1 == Pop(C, T.cur)
             IN  IF Next_(C1[T.cur]) # Next_(C1[pair]) THEN Bad(T, "pair-does-not-close")
                 ELSE [T EXCEPT !.C = Advance(Finish(C1, T.cur, pair), oth, next)]

(* ---- behaviour ---------------------------------------------------------------------*)
Init == /\ faces \in SUBSET Faces /\ drop \in BOOLEAN
        /\ rings = <<>> /\ look = {} /\ todo = {} /\ act = <<>> /\ chains = <<>> /\ got = <<>> /\ err = ""

Load == /\ rings = <<>>
        /\ \E E \in {Boundary(faces)} :
              /\ E # {} /\ TwoRegular(E)
              /\ \E R \in {TraceAll(E)} :
                    /\ \A k \in DOMAIN R : Solid(R[k][1], E) <=> k = 1
                    /\ drop => \E k \in DOMAIN R : \E i \in 1 .. Len(R[k]) - 1 : Straight(R[k], i)
                    /\ \E Q \in {TLCEval([k \in DOMAIN R |-> IF drop THEN Dropped(R[k]) ELSE R[k]])} :
                       \E L \in {Looking(Corners(Q))} :
                          rings' = Q /\ look' = L /\ todo' = L
        /\ UNCHANGED <<faces, drop, act, chains, got, err>>

Sweep == /\ todo # {} /\ err = ""
         /\ \E x \in {CHOOSE x \in todo : \A y \in todo : Le(x.v.p, y.v.p)} :
            \E e1 \in EdgesAt(x.v) :
            \E e2 \in EdgesAt(x.v) \ {e1} :
               /\ (e1.l = x.v.p /\ e2.r = x.v.p) => FALSE        \* the edge that ends comes first
               /\ \E S \in {Vertex([act |-> act, links |-> <<>>, err |-> ""], x, e1, e2)} :
                  \E T \in {Close(GrowAll([C |-> chains, cur |-> 0, err |-> S.err], x.kind, S.links), x.v.p)} :
                     /\ act' = S.act /\ got' = S.links /\ chains' = T.C /\ err' = T.err
               /\ todo' = todo \ {x}
         /\ UNCHANGED <<faces, drop, rings, look>>

Next == Load \/ Sweep
Spec == Init /\ [][Next]_vars

(* ---- what is checked ------------------------------------------------------------------*)
Sound == err = ""
Swept == look # {} /\ todo # look
(* the vertex the sweep has just left                                           *)
Here == CHOOSE x \in look \ todo : \A y \in look \ todo : Le(y.v.p, x.v.p)
LinksRefine == (Swept /\ err = "") => LinksRight(look, Here, got)
(* every helper is the one Monotone defines for the position reached            *)
HelpersRefine == (Swept /\ todo # {} /\ err = "") =>
    LET p == MinPt({x.v.p : x \in todo}) IN
    \A e \in DOMAIN act : e.top => act[e] = Helper(look, e, p)
Over == look # {} /\ todo = {} /\ err = ""
Piece(i) == [top |-> chains[i].pts, bot |-> chains[chains[i].other].pts]
Tops == SelectSeq([i \in DOMAIN chains |-> i], LAMBDA i : chains[i].top)
Result == [k \in DOMAIN Tops |-> Piece(Tops[k])]
PiecesRefine == Over =>
    /\ \A i \in DOMAIN chains : chains[i].done /\ chains[chains[i].other].other = i
                               /\ chains[chains[i].other].top # chains[i].top
    /\ \A k \in DOMAIN Result : MonotonePiece(Result[k].top, Result[k].bot)
TilesRefine == Over => Tiles(rings, Result)
=============================================================================
