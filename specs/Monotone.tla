------------------------------ MODULE Monotone ------------------------------
(* Monotone decomposition of a strictly valid polygon: rings are simple,       *)
(* pairwise disjoint, and every vertex has exactly two edges.                  *)
EXTENDS Regions

(* open ring, oriented so that the interior of the polygon lies to its left    *)
RingAt(r, k) == r[((k - 1) % Len(r)) + 1]
Rev(r) == [k \in 1 .. Len(r) |-> r[Len(r) + 1 - k]]
IsCCW(r) ==
    LET v == MinPt({r[k] : k \in DOMAIN r})
        k == CHOOSE k \in DOMAIN r : r[k] = v
    IN  Orient(RingAt(r, k + Len(r) - 1), v, RingAt(r, k + 1)) > 0
Oriented(rings) ==
    TLCEval([k \in DOMAIN rings |->
        LET r == Open(rings[k]) IN IF IsCCW(r) = (k = 1) THEN r ELSE Rev(r)])

(* ---- the vertex sweep ----------------------------------------------------- *)
(* [p, prev, next] for every vertex, interior on the left                      *)
Corners(rings) ==
    LET O == Oriented(rings) IN
    UNION {{[p |-> O[k][i], prev |-> RingAt(O[k], i + Len(O[k]) - 1), next |-> RingAt(O[k], i + 1)] :
            i \in DOMAIN O[k]} : k \in DOMAIN O}

Kind(v) ==
    LET convex == Orient(v.prev, v.p, v.next) > 0 IN
    IF Lt(v.p, v.prev) /\ Lt(v.p, v.next) THEN (IF convex THEN "Start" ELSE "Split")
    ELSE IF Lt(v.prev, v.p) /\ Lt(v.next, v.p) THEN (IF convex THEN "End" ELSE "Merge")
    ELSE "Continue"

(* ---- the links: diagonals that make every piece monotone ------------------ *)
(* edges from left to right; top: the interior of the polygon lies below       *)
Sides(C) == {IF Lt(v.p, v.next) THEN [l |-> v.p, r |-> v.next, top |-> FALSE]
             ELSE [l |-> v.next, r |-> v.p, top |-> TRUE] : v \in C}
LowerSide(e, f) ==
    IF e.l = f.l THEN Orient(e.l, e.r, f.r) > 0
    ELSE IF Lt(e.l, f.l) THEN Orient(e.l, e.r, f.l) > 0
    ELSE Orient(f.l, f.r, e.l) < 0
(* the edge directly above position p *)
Ceiling(E, p) ==
    LET U == {e \in E : Lt(e.l, p) /\ Lt(p, e.r) /\ Orient(e.l, e.r, p) < 0}
    IN  CHOOSE e \in U : \A f \in U \ {e} : LowerSide(e, f)
(* vertices with the interior of the polygon right above them *)
SeesUp(v) == Kind(v) \in {"Split", "Merge"} \/ (Kind(v) = "Continue" /\ Lt(v.prev, v.p))
NoSide == [l |-> <<0, 0>>, r |-> <<0, 0>>, top |-> FALSE]
Looking(C) ==
    LET E == Sides(C) IN
    {[v |-> v, kind |-> Kind(v), up |-> IF SeesUp(v) THEN Ceiling(E, v.p) ELSE NoSide] : v \in C}

(* The last vertex passed before p that looks up at edge e, or e's left end:   *)
(* what p sees to its left below e.  L: the vertices with what they look at.   *)
Helper(L, e, p) ==
    LET W == {w \in L : w.up = e /\ Lt(w.v.p, p)}
    IN  IF W = {} THEN [p |-> e.l, merge |-> FALSE]
        ELSE LET w == CHOOSE w \in W : \A u \in W : Le(u.v.p, w.v.p) IN [p |-> w.v.p, merge |-> w.kind = "Merge"]

UpperOf(v) == IF (Orient(v.p, v.prev, v.next) > 0) = Lt(v.p, v.prev) THEN v.next ELSE v.prev
LowerOf(v) == IF UpperOf(v) = v.prev THEN v.next ELSE v.prev

Links(L, x) ==
    LET v == x.v
        k == x.kind
        Ended == {e \in {w.up : w \in L} \ {NoSide} : e.r = v.p}
        closing == {[k |-> "Merge", p |-> <<Helper(L, e, v.p).p, v.p>>, side |-> ""] :
                    e \in {e \in Ended : Helper(L, e, v.p).merge}}
        h == Helper(L, x.up, v.p)
        fix == IF k = "Split"
               THEN {[k |-> IF h.merge THEN "Merge" ELSE "Split", p |-> <<h.p, v.p, UpperOf(v), LowerOf(v)>>, side |-> ""]}
               ELSE IF x.up # NoSide /\ h.merge
               THEN {[k |-> "Merge", p |-> <<h.p, v.p, a, b>>, side |-> ""] : <<a, b>> \in {<<v.prev, v.next>>}}
               ELSE {}
        base == CASE k = "Start" -> {[k |-> "Start", p |-> <<v.p, UpperOf(v), LowerOf(v)>>, side |-> ""]}
                  [] k = "End" -> {[k |-> "End", p |-> <<UpperOf(v), LowerOf(v), v.p>>, side |-> ""]}
                  [] k = "Continue" ->
                        {IF Lt(v.prev, v.p) THEN [k |-> "Continue", p |-> <<v.prev, v.p, v.next>>, side |-> "above"]
                         ELSE [k |-> "Continue", p |-> <<v.next, v.p, v.prev>>, side |-> "below"]}
                  [] OTHER -> {}
    IN  closing \cup fix \cup base
(* the order of the two neighbours matters at split vertices only *)
SameLink(a, b, kind) ==
    /\ a.k = b.k /\ a.side = b.side /\ Len(a.p) = Len(b.p)
    /\ IF Len(a.p) = 4 /\ kind # "Split"
       THEN a.p[1] = b.p[1] /\ a.p[2] = b.p[2] /\ {a.p[3], a.p[4]} = {b.p[3], b.p[4]}
       ELSE a.p = b.p
LinksRight(L, x, got) ==
    LET want == Links(L, x) IN
    /\ Len(got) = Cardinality(want)
    /\ \A w \in want : \E i \in DOMAIN got : SameLink(w, got[i], x.kind)

(* The diagonals do their job: they stay inside the polygon, do not cross, and *)
(* every split vertex has one to its left, every merge vertex one to its right.*)
Diagonals(L) == UNION {{<<m.p[1], m.p[2]>> : m \in {m \in Links(L, x) : m.k \in {"Merge", "Split"}}} : x \in L}
DiagonalsSound(L) ==
    LET D == Diagonals(L)
        E == {<<e.l, e.r>> : e \in Sides({x.v : x \in L})}
        DE == D \cup E
    IN  /\ \A d \in D : /\ Lt(d[1], d[2])
                       /\ \A e \in DE : ~ProperlyCross(d, e)
                       /\ \A x \in L : ~Interior(x.v.p, d)
                       /\ d \notin E
        /\ \A x \in L : /\ x.kind = "Split" => \E d \in D : d[2] = x.v.p
                       /\ x.kind = "Merge" => \E d \in D : d[1] = x.v.p

(* ---- the pieces ----------------------------------------------------------- *)
Increasing(ch) == \A k \in 1 .. Len(ch) - 1 : Lt(ch[k], ch[k + 1])
(* the edge of chain ch over the (lexicographic) position v *)
EdgeAt(ch, v) == CHOOSE k \in 1 .. Len(ch) - 1 : Le(ch[k], v) /\ Lt(v, ch[k + 1])
Inner(ch) == {ch[k] : k \in 2 .. Len(ch) - 1}

MonotonePiece(t, b) ==
    /\ Len(t) >= 2 /\ Len(b) >= 2
    /\ t[1] = b[1] /\ t[Len(t)] = b[Len(b)]
    /\ Increasing(t) /\ Increasing(b)
    /\ Len(t) + Len(b) > 4
    /\ \A v \in Inner(t) : LET k == EdgeAt(b, v) IN Orient(b[k], b[k + 1], v) > 0
    /\ \A v \in Inner(b) : LET k == EdgeAt(t, v) IN Orient(t[k], t[k + 1], v) < 0

(* The pieces, each counted once, cover exactly the polygon: every sub-edge is *)
(* the lower boundary of as many pieces as it is the upper boundary of, except *)
(* that polygon edges have the polygon on one side only.                       *)
ChainEdges(ch) == TLCEval([k \in 1 .. Len(ch) - 1 |-> <<ch[k], ch[k + 1]>>])
Count(e, PS) == Cardinality({k \in DOMAIN PS : e \in PS[k]})
CutAll(E, V) == TLCEval([k \in DOMAIN E |-> Pieces(E[k], V)])

Verts(rings) == UNION {{rings[k][i] : i \in DOMAIN rings[k]} : k \in DOMAIN rings}

Tiles(rings, ps) ==
    LET V == Verts(rings)
        O == Oriented(rings)
        OE == Flatten(TLCEval([k \in DOMAIN O |-> [i \in DOMAIN O[k] |-> <<RingAt(O[k], i), RingAt(O[k], i + 1)>>]]))
        Low == {s \in {OE[i] : i \in DOMAIN OE} : Lt(s[1], s[2])}                 \* polygon above
        Upp == {<<s[2], s[1]>> : s \in {x \in {OE[i] : i \in DOMAIN OE} : Lt(x[2], x[1])}}  \* polygon below
        B == CutAll(Flatten(TLCEval([k \in DOMAIN ps |-> ChainEdges(ps[k].bot)])), V)
        T == CutAll(Flatten(TLCEval([k \in DOMAIN ps |-> ChainEdges(ps[k].top)])), V)
        All == UNION {B[k] : k \in DOMAIN B} \cup UNION {T[k] : k \in DOMAIN T} \cup Low \cup Upp
        One(x) == IF x THEN 1 ELSE 0
    IN  /\ \A k \in DOMAIN ps : {ps[k].top[i] : i \in DOMAIN ps[k].top}
                                \cup {ps[k].bot[i] : i \in DOMAIN ps[k].bot} \subseteq V
        /\ \A e \in All : Count(e, B) - Count(e, T) = One(e \in Low) - One(e \in Upp)
=============================================================================
