------------------------------ MODULE Crossings ------------------------------
(* What the crossings iterator promises, as a state machine.  The plane sweep  *)
(* visits the vertices of the arrangement of the input in lexicographic order; *)
(* at each of them every input passing through the vertex closes the piece it  *)
(* had open and/or opens a new piece.                                          *)
EXTENDS Geometry

CONSTANT Strict    \* see FirstFlag

VARIABLES
    inp,    \* the input: sequence of normalised segments
    verts,  \* vertices not yet visited
    on,     \* on[i]: the vertices lying on input i
    open    \* open[i]: <<>> , or <<p>> when the piece of input i starting at p is open

vars == <<inp, verts, on, open>>

LoadInput(L) ==
    \E V \in {Vertices(L)} :
        /\ inp' = L
        /\ verts' = V
        /\ on' = [i \in DOMAIN L |-> {v \in V : OnSeg(v, L[i])}]
        /\ open' = [i \in DOMAIN L |-> <<>>]

(* what input i does at p: a piece of it starts, a piece of it ends, it is p    *)
StartsAt(i, p) == p # inp[i][2] /\ p \in on[i]
EndsAt(i, p) == p # inp[i][1] /\ p \in on[i]
PointAt(i, p) == p = inp[i][1] /\ p = inp[i][2]
Starts(p) == {i \in DOMAIN inp : StartsAt(i, p)}
Ends(p) == {i \in DOMAIN inp : EndsAt(i, p)}
Points(p) == {i \in DOMAIN inp : PointAt(i, p)}

(* A report is [id, line, isline, first, ovl, left].                           *)
EndReport(p, r) ==
    /\ r.isline /\ ~r.left
    /\ EndsAt(r.id, p)
    /\ r.line = <<open[r.id][1], p>>
StartReport(p, r) ==
    /\ r.isline /\ r.left
    /\ StartsAt(r.id, p)
    /\ r.line[1] = p
    /\ r.line[2] \in on[r.id] /\ Lt(p, r.line[2])
PointReport(p, r) ==
    /\ ~r.isline /\ ~r.left
    /\ PointAt(r.id, p)
    /\ r.line = <<p, p>>

(* every input is reported exactly once per role *)
Complete(p, rs) ==
    /\ Len(rs) = Cardinality(Starts(p)) + Cardinality(Ends(p)) + Cardinality(Points(p))
    /\ \A k, m \in DOMAIN rs : k # m => <<rs[k].id, rs[k].left>> # <<rs[m].id, rs[m].left>>

(* a piece marked as the first of its input is; unless Strict, the mark may be *)
(* missing where the sweep had to cut an input again after it had begun it     *)
FirstFlag(r) ==
    /\ r.first => r.line[1] = inp[r.id][1]
    /\ (Strict \/ Cardinality(on[r.id]) <= 2) => (r.line[1] = inp[r.id][1] => r.first)

(* an overlap mark always points at a neighbour in the report with which the   *)
(* marked piece coincides                                                      *)
OverlapFlag(rs, k) ==
    rs[k].ovl => /\ k < Len(rs)
                 /\ rs[k].isline /\ rs[k + 1].isline
                 /\ rs[k].left = rs[k + 1].left
                 /\ rs[k].line = rs[k + 1].line
(* coincident pieces that end here are reported next to each other, and every  *)
(* one of them but the last carries the mark                                   *)
Closing(rs) == {k \in DOMAIN rs : rs[k].isline /\ ~rs[k].left}
OverlapComplete(rs) ==
    \A k, m \in Closing(rs) : (k < m /\ rs[k].line = rs[m].line) =>
        rs[k].ovl /\ rs[k + 1].line = rs[k].line /\ k + 1 \in Closing(rs)

PointOK(p) == verts # {} /\ p = MinPt(verts)
PiecesOK(p, rs) ==
    \A k \in DOMAIN rs : EndReport(p, rs[k]) \/ StartReport(p, rs[k]) \/ PointReport(p, rs[k])
YieldOK(p, rs) ==
    /\ PointOK(p) /\ Complete(p, rs) /\ PiecesOK(p, rs)
    /\ \A k \in DOMAIN rs : FirstFlag(rs[k]) /\ OverlapFlag(rs, k)
    /\ OverlapComplete(rs)

(* the sweep moves on to vertex p                                              *)
Yield(p) ==
    /\ TRUE = PointOK(p)
    /\ verts' = verts \ {p}
    /\ open' = [i \in DOMAIN inp |-> IF StartsAt(i, p) THEN <<p>>
                                     ELSE IF EndsAt(i, p) THEN <<>> ELSE open[i]]
    /\ UNCHANGED <<inp, on>>

Finished == verts = {} /\ \A i \in DOMAIN inp : open[i] = <<>>
=============================================================================
