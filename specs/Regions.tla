------------------------------ MODULE Regions -------------------------------
(* Even-odd planar regions.  A region is represented by its boundary chain:    *)
(* the set of sub-edges (over a vertex set V that cuts every edge involved)    *)
(* that occur an odd number of times.  Two collections of rings describe the   *)
(* same region exactly if their chains are equal.                              *)
EXTENDS Geometry, TLC

(* the edges of a closed ring <<p1, ..., pn, p1>>, degenerate ones dropped *)
RingEdges(r) ==
    LET E == TLCEval([k \in 1 .. Len(r) - 1 |-> Seg(r[k], r[k + 1])])
    IN  SelectSeq(E, LAMBDA s : ~IsPoint(s))

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Edges(rings) == Flatten(TLCEval([k \in DOMAIN rings |-> RingEdges(rings[k])]))

(* s cut at the vertices of V that lie on it *)
Pieces(s, V) ==
    LET W == {v \in V : OnSeg(v, s)}
        Next(a) == MinPt({b \in W : Lt(a, b)})
    IN  {<<a, Next(a)>> : a \in W \ {s[2]}}

(* sub-edges occurring an odd number of times among the edge sequence E *)
Chain(E, V) ==
    LET P == TLCEval([k \in DOMAIN E |-> Pieces(E[k], V)])
        A == UNION {P[k] : k \in DOMAIN E}
    IN  {e \in A : Cardinality({k \in DOMAIN E : e \in P[k]}) % 2 = 1}

SymDiff(A, B) == (A \ B) \cup (B \ A)

(* Side test.  All coordinates doubled so that midpoints are lattice points;   *)
(* edges are vertical-free after the axes have been swapped where needed.      *)
Dbl(p) == <<2 * p[1], 2 * p[2]>>
Swp(p) == <<p[2], p[1]>>
Mid(e) == <<e[1][1] + e[2][1], e[1][2] + e[2][2]>>
Upright(e) == e[1][1] = e[2][1]

(* f, as a doubled edge <<a, b>> with a[1] <= b[1], passes strictly above m *)
StrictlyAbove(a, b, m) == a[1] <= m[1] /\ m[1] < b[1] /\ Cross(a, b, m) < 0

(* parity of the edges of chain C met by the ray leaving the (doubled) point m *)
(* upwards, respectively (for swapped axes) rightwards                         *)
ParityUp(m, C) == Cardinality({f \in C : StrictlyAbove(Dbl(f[1]), Dbl(f[2]), m)}) % 2
ParityRight(m, C) ==
    Cardinality({f \in C :
        LET a == Swp(Dbl(f[1]))  b == Swp(Dbl(f[2])) IN
        IF a[1] <= b[1] THEN StrictlyAbove(a, b, Swp(m)) ELSE StrictlyAbove(b, a, Swp(m))}) % 2

(* is the side of e above it (right of it, if e is vertical) inside region C? *)
UpSide(e, C) == 1 = IF Upright(e) THEN ParityRight(Mid(e), C) ELSE ParityUp(Mid(e), C)
(* ... and the other side *)
LowSide(e, C) == UpSide(e, C) # (e \in C)

Apply(op, a, b) ==
    CASE op = "and" -> a /\ b
      [] op = "or" -> a \/ b
      [] op = "xor" -> a # b
      [] op = "diff" -> a /\ ~b

(* boundary chain of (CA op CB) *)
Combine(op, CA, CB) ==
    {e \in CA \cup CB :
        LET ua == UpSide(e, CA)  ub == UpSide(e, CB)
            la == ua # (e \in CA)  lb == ub # (e \in CB)
        IN  Apply(op, ua, ub) # Apply(op, la, lb)}

(* ------------------------------------------------------------------------- *)
(* Structure of a result: a sequence of polygons, each a sequence of closed    *)
(* rings, the first of which is the exterior.                                  *)
Open(r) == SubSeq(r, 1, Len(r) - 1)
AllDistinct(q) == \A a, b \in DOMAIN q : a # b => q[a] # q[b]

(* closed, at least three distinct corners, no vertex visited twice - neither  *)
(* as a corner nor in passing                                                  *)
SimpleRing(r, V) ==
    /\ Len(r) >= 4 /\ r[1] = r[Len(r)]
    /\ AllDistinct(Open(r))
    /\ LET E == RingEdges(r)
           P == TLCEval([k \in DOMAIN E |-> Pieces(E[k], V)])
           A == UNION {P[k] : k \in DOMAIN E}
       IN  /\ \A a, b \in DOMAIN E : a # b => P[a] \cap P[b] = {}
           /\ \A v \in {e[1] : e \in A} \cup {e[2] : e \in A} :
                 Cardinality({e \in A : e[1] = v \/ e[2] = v}) = 2

(* interior of a simple ring with chain C strictly contains the midpoint of e  *)
StrictIn(e, C) == e \notin C /\ UpSide(e, C)

ValidResult(out, V) ==
    LET RC == TLCEval([p \in DOMAIN out |-> [k \in DOMAIN out[p] |-> Chain(RingEdges(out[p][k]), V)]])
        PC == TLCEval([p \in DOMAIN out |-> UNION {RC[p][k] : k \in DOMAIN out[p]}])
    IN  /\ \A p \in DOMAIN out : out[p] # <<>> /\ \A k \in DOMAIN out[p] : SimpleRing(out[p][k], V)
        \* no two rings share a piece of boundary
        /\ \A p, q \in DOMAIN out : \A k \in DOMAIN out[p], j \in DOMAIN out[q] :
              <<p, k>> # <<q, j>> => RC[p][k] \cap RC[q][j] = {}
        \* holes lie inside their exterior and outside one another
        /\ \A p \in DOMAIN out : \A k \in 2 .. Len(out[p]) :
              /\ \A e \in RC[p][k] : StrictIn(e, RC[p][1])
              /\ \A j \in 2 .. Len(out[p]) : j # k => \A e \in RC[p][k] : ~StrictIn(e, RC[p][j])
        \* polygons have disjoint interiors
        /\ \A p, q \in DOMAIN out : p # q => \A e \in PC[p] : ~StrictIn(e, PC[q])
=============================================================================
